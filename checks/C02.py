"""C02: saturating addition and subtraction."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, basecheck as BC, driver, stage as stg


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for op in ('adds', 'subs'):
            for t in B.TYPES:
                BC.add_ew(b, ext, op, t)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C02', build,
        bounds='one call of adds/subs on one full vector; every bit pattern of every lane; all 7 x86/cpu extensions; '
               'all 11 types (floating point: plain IEEE addition/subtraction)',
        assumptions=['x86 intrinsics follow the models in lib/intrin.py']))
