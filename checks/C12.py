"""C12: conversions between half and single precision done in software, every input."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import base as B, driver, stage as stg, sym as S
from lib.driver import Group
from lib.harness import Buf, Case, Int, Out

SRC = '''#include <nsimd/nsimd.h>
extern "C" {
void UP_c(f32 *o, const u16 *a) { *o = nsimd_u16_to_f32(*a); }
void DN_c(u16 *o, const f32 *a) { *o = nsimd_f32_to_u16(*a); }
void UPF_c(f32 *o, const f16 *a) { *o = nsimd_f16_to_f32(*a); }
void DNF_c(f16 *o, const f32 *a) { *o = nsimd_f32_to_f16(*a); }
void UP_x(f32 *o, const u16 *a) { *o = nsimd::u16_to_f32(*a); }
void DN_x(u16 *o, const f32 *a) { *o = nsimd::f32_to_u16(*a); }
void UPF_x(f32 *o, const f16 *a) { *o = nsimd::f16_to_f32(*a); }
void DNF_x(f16 *o, const f32 *a) { *o = nsimd::f32_to_f16(*a); }
void RT(u16 *o, const u16 *a) { *o = nsimd_f32_to_u16(nsimd_u16_to_f32(*a)); }
}
'''


def build(st, tier):
    g = Group('fp16', 'cpu', SRC, cxx=True, ir_srcs=['src/fp16.cpp'])
    cs = []
    for x in ('c', 'x'):
        for f in ('', 'F'):
            cs.append(Case('up%s/%s' % (f, x), 'UP%s_%s' % (f, x), [Out('o', 32, 1, 'f'), Buf('a', 16, 1, kind='f')],
                           lambda e: [('half to single', S.feq_modnan(32, e.o['o'][0], S.bv_widen(16, e['a'][0], 32)))],
                           mod='fp16', nof16=True, timeout=400, fn='nsimd_%s_to_f32' % ('f16' if f else 'u16')))
            cs.append(Case('down%s/%s' % (f, x), 'DN%s_%s' % (f, x), [Out('o', 16, 1, 'f'), Buf('a', 32, 1, kind='f')],
                           lambda e: [('single to half', S.feq_modnan(16, e.o['o'][0], S.bv_narrow(32, e['a'][0], 16)))],
                           mod='fp16', nof16=True, timeout=400, fn='nsimd_f32_to_%s' % ('f16' if f else 'u16')))
    cs.append(Case('roundtrip', 'RT', [Out('o', 16, 1, 'f'), Buf('a', 16, 1, kind='f')],
                   lambda e: [('unchanged', S.feq_modnan(16, e.o['o'][0], e['a'][0]))], mod='fp16', nof16=True,
                   timeout=400))
    return [g], cs


if __name__ == '__main__':
    sys.exit(driver.main(
        'C12', build, qt={'quick': 100000, 'thorough': 600000},
        bounds='every one of the 2^16 half and 2^32 single precision bit patterns (no bound)',
        assumptions=['default IEEE mode of the library; NaN payloads not compared', 'round to nearest even is in effect']))
