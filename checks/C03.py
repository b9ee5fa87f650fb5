"""C03: bitwise operators and shifts."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, basecheck as BC, driver, stage as stg


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for op in ('andb', 'orb', 'xorb', 'andnotb', 'notb'):
            for t in B.TYPES:
                BC.add_ew(b, ext, op, t)
        for op in ('shl', 'shr', 'shra'):
            for t in B.IU:
                BC.add_ew(b, ext, op, t)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C03', build,
        bounds='one call on one full vector; every bit pattern of every lane; shift counts 0..width-1 symbolic; all 7 '
               'x86/cpu extensions',
        assumptions=['half-precision bitwise operators: inputs are not NaN patterns and NaN results compare modulo '
                     'payload (half vectors are held as single precision)']))
