"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json:  python3 tools/props.py"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None, check=True,
         technique='symbolic execution of the LLVM IR of the real code + SMT (z3/cvc5), native replay',
         na=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = state
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, note, technique, na))


TRUST = (' Trusted: clang 18 -O1 as the translation from C/C++ to LLVM IR, the hand-written models of the x86 '
         'intrinsics left in the IR (validated against the CPU by the differential mode, diff=N), z3 and cvc5. '
         'A violation is only reported after it reproduces on the gcc-compiled code.')
TESTS = ('The tests run SSE2, SSE4.2, AVX and AVX2 on a few hundred random values, mostly small integers (in [-20, 20]) '
         'copied to every type; AVX-512 and the plain CPU emulation are never run')
X86 = ['egg/platform_x86.py', 'egg/platform_cpu.py', 'egg/operators.py']

prop('C01', 'Integer SIMD arithmetic is exact modulo 2^n on every back end',
     'For every integer element type and every instruction-set back end, element-wise addition, subtraction, '
     'multiplication, division, negation, absolute value, minimum, maximum and the multiply-add family give in each lane '
     'the mathematical result modulo 2^n of the operands of that same lane. Division is only specified for a non-zero '
     'divisor and a representable quotient. No lane depends on another lane.',
     ['inputs', 'configurations'], 'every bit pattern of every lane of every operand, for all 8 integer types on the 7 '
     'x86/CPU back ends', TESTS + ', so carries into the upper halves of emulated 64-bit multiplies, signed minima and '
     'cross-lane leaks of emulated 8-bit operations are not sampled.',
     X86, [('per-type code generation of arithmetic operators', 'egg/platform_x86.py: simple operators, mul, div, '
            'abs/min/max emulations'), ('lane-wise CPU emulation', 'egg/platform_cpu.py')],
     'Bounded: one call on one full vector, all values of all lanes.' + TRUST)

prop('C02', 'Saturated addition and subtraction clamp to the type range',
     'Saturated addition and subtraction return in each lane the exact sum or difference clamped to the range of the '
     'element type (for floating-point types, the ordinary sum or difference). This holds for every pair of operands, '
     'including the smallest negative integer, on every back end and for the scalar functions.',
     ['inputs', 'configurations'], 'every pair of bit patterns of every lane, 11 element types, 7 back ends',
     TESTS + '; overflow in both directions at the exact limits is not exercised.',
     X86 + ['egg/scalar.py'], [('x86 saturated arithmetic', 'egg/platform_x86.py: adds, subs'),
                               ('scalar and CPU versions', 'egg/scalar.py, egg/platform_cpu.py: adds, subs')],
     'Bounded: one call on one full vector, all values.' + TRUST)

prop('C03', 'Bitwise operations and shifts act on the bits of each lane',
     'And, or, xor, and-not, not act on every bit of each lane independently for every element type (a half-precision '
     'lane may be operated on through its single-precision image). Shifts by any count from 0 to the bit width minus one '
     'give the logical or arithmetic shift of each lane.',
     ['inputs', 'configurations'], 'every bit pattern, every legal shift count, all types that support the operation, 7 back '
     'ends', TESTS + '; shift tests use few counts and small positive values, so sign propagation in emulated 8-bit and '
     '64-bit shifts is not settled.',
     X86, [('shift emulations for 8-bit and 64-bit lanes', 'egg/platform_x86.py: shl_shr, shra')],
     'Bounded: one call on one full vector, all values and all in-range shift counts (symbolic).' + TRUST)

prop('C04', 'Comparisons order every pair of lane values correctly',
     'Equality, inequality and the four order comparisons give true in a lane exactly when the relation holds between the '
     'two lane values, for the full signed or unsigned range of integers and under IEEE rules (NaN unordered, zeros equal) '
     'for floating-point types. The resulting logical reads back as exactly one or zero.',
     ['inputs', 'configurations'], 'every pair of bit patterns, 11 types, 7 back ends',
     TESTS + '; unsigned comparisons emulated by sign flipping and 64-bit comparisons emulated by 32-bit ones go wrong '
     'only for values above the signed range or equal high halves; NaN is never compared.',
     X86, [('comparison emulation', 'egg/platform_x86.py: eq2, gt2, geq2 and relatives')],
     'Bounded: one call on one full vector, all values.' + TRUST)

prop('C05', 'Logical vectors, selection, reductions and mask conversions agree',
     'Logical and/or/xor/not, selection by a logical, all/any/count of true lanes, loop-tail masks, conversion between '
     'logicals, masks and memory all see the same truth value for each lane. Any nonzero element (a zero of either sign '
     'is false) loads as true, true stores as one and false as zero, whatever the back end represents a logical with.',
     ['inputs', 'configurations'], 'every combination of lane truth values, every selected value, every loop index and '
     'bound, 11 types, 7 back ends', TESTS + '; combinations of lanes are sampled, tail masks are tried for a handful of '
     'indices.',
     X86, [('logical operators and reductions', 'egg/platform_x86.py: lop2, lnot1, all_any, nbtrue1, if_else3, '
            'mask_for_loop_tail, to_mask, to_logical, reinterpretl1'), ('logical load and store', 'egg/platform_x86.py: '
            'loadl, storel')], 'Bounded: one call on one full vector, all values.' + TRUST)

prop('C06', 'Loads and stores touch exactly the addressed elements',
     'A vector load returns, and a vector store writes, the elements at consecutive addresses from the given pointer, lane '
     'by lane, and nothing else in memory is read or written. Masked loads never touch an element '
     'whose lane is off, even on an unmapped page, and that lane takes the given value or zero; masked stores neither read nor '
     'rewrite it. '
     'The aligned forms need only the documented alignment and the unaligned forms need none.',
     ['inputs', 'configurations'], 'every lane value, every mask, every byte misalignment class, 11 types, 7 back ends',
     TESTS + '; they look at the loaded values but not at which bytes are accessed, and masks are sampled.',
     X86 + ['egg/x86_load_store_deg234.py'], [('loads, stores and masked forms', 'egg/platform_x86.py: load1234, '
            'store1234, maskoz_load, mask_store')],
     'Bounded: one call; exact object bounds, per-element access permissions and pointer alignment are checked as memory '
     'obligations.' + TRUST)

prop('C07', 'Structure-of-arrays loads and stores of 2, 3 and 4 fields round-trip',
     'Loading arrays of 2-, 3- or 4-field structures puts field k of every structure into vector k, with the same '
     'structure-to-lane assignment for all fields, and storing the vectors back restores the original memory. Aligned and '
     'unaligned forms agree, and exactly the bytes of one vector of structures are accessed.',
     ['inputs', 'configurations'], 'every element value, degrees 2 to 4, 11 types, 7 back ends, aligned and unaligned',
     TESTS + '; a shuffle network that exchanges two lanes in both directions is invisible to a round-trip test, and '
     'AVX-512 networks are never run.',
     ['egg/x86_load_store_deg234.py'] + X86, [('shuffle networks', 'egg/x86_load_store_deg234.py')],
     'Bounded: one call; all element values. The lane permutation is the back end\'s choice and is only required to be '
     'the same for all fields and for loads and stores.' + TRUST)

prop('C08', 'Gathers and scatters access exactly base plus index, lane by lane',
     'A gather returns in each lane the element at the base plus that lane\'s signed index, and a scatter writes each '
     'lane there, the highest lane winning on equal indices; linear forms use lane number times step. Masked forms leave '
     'elements of switched-off lanes unread and unwritten. No other memory is accessed.',
     ['inputs', 'configurations'], 'every index vector, step, mask and memory content, all types that support the operation, 7 '
     'back ends', TESTS + '; indices are small and non-negative, masks are not tried.',
     X86, [('gather and scatter', 'egg/platform_x86.py: gather, scatter, linear_gather_scatter, masked forms')],
     'Bounded: one call on one vector; memory is a symbolic array around the base, indices are arbitrary.' + TRUST)

prop('C09', 'Zip and unzip permute lanes as documented and lose nothing',
     'The interleaving operations (low half, high half, full zip) and their inverses (even lanes, odd lanes, full unzip), '
     'and the lane-index generation, place every input lane at its documented output position '
     'for every element type and back end.',
     ['inputs', 'configurations'], 'every lane value, 11 types, 7 back ends', TESTS + '; a permutation wrong in two lanes '
     'with equal sampled contents, or only on AVX-512, is not seen.',
     X86, [('zip, unzip, iota', 'egg/platform_x86.py: zip_half, unzip_half, zip, unzip, iota')],
     'Bounded: one call, all values.' + TRUST)

prop('C10', 'Conversions between element types preserve every representable value',
     'Integer conversions truncate or extend with the source signedness, integer to floating-point conversions round to '
     'nearest, floating-point to integer conversions of in-range values give a correctly rounded integer (towards zero or '
     'to nearest-even), and widening, narrowing and same-width forms map each lane to its documented lane. '
     'Reinterpretation keeps the bits.',
     ['inputs', 'configurations'], 'every bit pattern in the range of the target, every pair of types, 7 back ends',
     TESTS + '; 64-bit conversions built from 32-bit pieces or magic constants are only tried on tiny values.',
     X86, [('conversions', 'egg/platform_x86.py: convert1, upcvt1, downcvt1, reinterpret1'), ('CPU emulation',
            'egg/platform_cpu.py')], 'Bounded: one call on one full vector, all values.' + TRUST)

prop('C11', 'Floating-point arithmetic and rounding are IEEE-754 correct in each lane',
     'Add, subtract, multiply, divide, square root, reciprocal, negation, absolute value, minimum, maximum, the four '
     'rounding functions and multiply-add give in each lane the IEEE-754 result (half precision through single precision; '
     'multiply-add fused or with one intermediate rounding; zero signs of rounding left open). The approximate '
     'reciprocals and reciprocal square roots meet their documented relative error.',
     ['inputs', 'configurations'], 'every bit pattern including infinities, NaN, subnormals and values beyond 2^53, f16, f32 '
     'and f64, 7 back ends', TESTS + '; SSE2 rounding emulations fail only for huge, tiny or halfway values, which are '
     'not sampled.',
     X86 + ['egg/scalar.py'], [('rounding emulation and multiply-add', 'egg/platform_x86.py: round1, trunc1, fma_fms, '
                                'rec11_rsqrt11')],
     'Bounded: one call, all values. IEEE operations are uninterpreted first and refined with the FP theory when needed; '
     'the accuracy of the hardware reciprocal estimates is assumed from the architecture manual.' + TRUST)

prop('C12', 'Half-precision conversions are correctly rounded for all inputs',
     'Converting half to single precision is exact for all half values, including subnormals, infinities and NaN, and '
     'converting single or double to half rounds to nearest-even with correct overflow, underflow and subnormal results. '
     'A half value converted to single and back is unchanged.',
     ['inputs'], 'all 2^16 half values and all 2^32 single values, array conversions of every length up to the bound',
     'Tests sample a few values; subnormal rounding ties and the overflow threshold are single points among 2^32.',
     ['src/fp16.cpp'], [('software conversions', 'src/fp16.cpp: u16_to_f32, f32_to_u16')],
     'All inputs of the scalar conversions; array forms up to 4 elements.' + TRUST)

prop('C13', 'Horizontal sum equals the sum of all lanes',
     'The horizontal addition of a vector returns the sum of all its lanes, each taken exactly once, on every back end. '
     'Whenever all partial sums are representable the result is exact.',
     ['inputs', 'configurations'], 'every vector whose lanes are bounded integers (exact in any order of summation), f16, f32, '
     'f64, 7 back ends', TESTS + '; the tolerance of the test accepts a dropped or doubled small lane.',
     X86, [('reduction trees', 'egg/platform_x86.py: addv')],
     'Bounded: one call; lanes are arbitrary integers small enough that any summation order is exact, so the order of '
     'summation is not constrained.' + TRUST)
exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, *_ in P:
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, note, tech, n in P:
        if n:
            na.append({'property': d['id'], 'reason': n})
            continue
        c = 'python3-vt -B checks/%s.py ' % d['id']
        checks.append({'property': d['id'], 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough', 'technique': tech,
                       'level': 'other', 'level_note': note, 'evidence_file': 'evidence/%s.json' % d['id']})
    m = {'version': 1, 'setup_cmd': 'python3-vt -B tools/setup.py', 'hooks': {'guard': 'NONE', 'enable': 'no hooks: the checks use the tree as it is'},
         'checks': checks, 'not_applicable': na,
         'notes': 'MANIFEST.json and properties.jsonl are generated by tools/props.py.'}
    m['hooks'] = {'guard': 'NSIMD_VERIF_UNUSED', 'enable': 'nothing to enable: no hooks were added to /repo',
                  'source_commits': []}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d, *_ in P:
        jsonschema.validate(d, s)
        assert len(d['title']) <= 80, d['id']
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(P), 'properties', len(checks), 'checks')


if __name__ == '__main__':
    main()
