"""C04: comparisons."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, basecheck as BC, driver, specs, stage as stg


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for op in specs.CMP:
            for t in B.TYPES:
                BC.add_ew(b, ext, op, t)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C04', build,
        bounds='one call on one full vector; every bit pattern of every lane including NaN, infinities, signed zeros; '
               'all 7 x86/cpu extensions; all 11 types',
        assumptions=[]))
