"""C01: integer lane arithmetic is exact two's-complement arithmetic."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, basecheck as BC, driver, specs, stage as stg


def build(st, tier):
    b = B.Builder(stg.EXTS)
    for ext in stg.EXTS:
        for op in specs.INT_EW:
            for t in B.IU:
                BC.add_ew(b, ext, op, t)
    return b.groups(), b.cases


if __name__ == '__main__':
    sys.exit(driver.main(
        'C01', build,
        bounds='one call of each operator on one full vector; every bit pattern of every lane of every input; '
               'extensions cpu, sse2, sse42, avx, avx2, avx512_knl, avx512_skylake; all 8 integer types',
        assumptions=['division: divisor non-zero and not INT_MIN / -1', 'signed overflow wraps (-fwrapv)',
                     'x86 intrinsics follow the models in lib/intrin.py']))
