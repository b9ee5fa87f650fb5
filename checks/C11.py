"""C11: floating-point arithmetic, rounding, square root, reciprocal."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, basecheck as BC, driver, specs, stage as stg


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for op in specs.INT_EW + ['sqrt', 'rec', 'rec11', 'rec8', 'rsqrt11', 'rsqrt8']:
            for t in B.FTYPES:
                BC.add_ew(b, ext, op, t)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C11', build,
        bounds='one call on one full vector; every bit pattern of every lane; all 7 x86/cpu extensions; f16, f32, f64',
        assumptions=['round-to-nearest-even mode, no flush-to-zero']))
