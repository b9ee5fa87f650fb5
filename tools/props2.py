prop('C14', 'The scalar API computes the same operators as the SIMD API on one element',
     'Each scalar function nsimd_scalar_<op>_<type> and each C++ overload nsimd::scalar_<op> returns the result the SIMD '
     'operator of the same name gives in a lane holding the same operands, for every operand value. Logical scalars are '
     'integers, zero is false and any other value is true. Reinterpretation keeps the bits, conversion follows the '
     'element-wise conversion rules.',
     ['inputs', 'configurations'], 'every operand value, all scalar operators, 11 types, C and C++ forms, compiled for '
     'cpu, SSE2, AVX2 and AVX-512 Skylake',
     'The scalar functions are only tested through a handful of small random values; overflow, sign, shift by width-1, '
     'NaN and truth values other than 0 and 1 are not sampled.',
     ['egg/scalar.py', 'egg/hatch.py', 'src/fp16.cpp'],
     [('generation of scalar functions', 'egg/scalar.py: get_impl')],
     'Bounded: one call, all values.' + TRUST)

prop('C15', 'C++ packs behave as one long vector, for every unroll factor',
     'A nsimd::pack<T, N, SimdExt> behaves as a vector of N times the register length: every function, operator, '
     'assignment form and scalar-operand form of the C++ API applies the base operator lane by lane in memory order, for '
     'N = 1 and for unrolled packs. Loads, stores, gathers, masked and structured accesses touch exactly the elements of '
     'the long vector; iota and mask_for_loop_tail continue over registers; reductions take all lanes; to_pack lays '
     'registers out in the documented order. Comparison operators return logicals usable with if_else of another type.',
     ['inputs', 'configurations'], 'every value of every lane, N = 1, 2 (and 3 for part), 11 types, several back ends',
     'The C++ tests instantiate few operators on unrolled packs with random small values; whole families (gather, '
     'packl, conversions on N > 1) were never instantiated at all.',
     ['include/nsimd/cxx_adv_api.hpp', 'include/nsimd/cxx_adv_api_aliases.hpp', 'egg/gen_adv_cxx_api.py'],
     [('recursion over registers', 'include/nsimd/cxx_adv_api.hpp, egg/gen_adv_cxx_api.py'),
      ('operator overloads', 'egg/gen_adv_cxx_api.py')],
     'Bounded: one call, all values, N <= 3.' + TRUST)

prop('C16', 'The generic C interfaces dispatch to the operator of the right type',
     'The macros v<op>(..., type) and the C11 selections nsimd_<op>(...) on packs compute exactly the operator they name '
     'for the type given or deduced, on the selected instruction set: the same result, the same memory accesses as the '
     'base function.',
     ['inputs', 'configurations'], 'every value of every lane, every operator without loops of external math functions, 11 '
     'types, macros and C11 selections',
     'Tests use the macros on a few values; the C11 interface is tested only through a small number of calls, and a '
     'selection of a sibling type (i32 for u32) is invisible on small positive values.',
     ['egg/gen_base_apis.py', 'egg/gen_adv_c_api.py', 'egg/operators.py'],
     [('C11 generic selection', 'egg/gen_adv_c_api.py'), ('macros', 'egg/gen_base_apis.py')],
     'Bounded: one call, all values.' + TRUST)

prop('C17', 'Fixed point numbers: exact arithmetic, order and conversions for every format',
     'fp_t<lf, rt> holds raw / 2^rt. Addition, subtraction, negation and abs are exact; multiplication and division give '
     'the exact scaled result rounded as documented by the operator (toward minus infinity for the product, toward zero '
     'for the quotient) whenever the scaled intermediate fits the storage type; comparisons order the represented '
     'values; conversion from floating point rounds to the nearest representable number, conversion back is exact up to '
     'the floating point type; floor, ceil and is_int see exactly the fraction bits; the pack versions (operators, '
     'loads, stores, if_else, min, max, logicals) apply the scalar meaning to each lane and touch only their elements.',
     ['inputs', 'configurations'], 'every raw value of every operand, 8 formats (20 in thorough), scalars and packs on 4 back ends '
     '(all in thorough)',
     'The module has no unit test in the suite; its correctness depends on the format, the sign and low fraction bits.',
     ['include/nsimd/modules/fixed_point.hpp', 'include/nsimd/modules/fixed_point/'],
     [('arithmetic', 'include/nsimd/modules/fixed_point/function/'), ('fixed.hpp', 'fp_t, conversions')],
     'Bounded: one call, all raw values, the listed formats. Transcendental functions (exp, log, sin...) are not covered.' + TRUST)

prop('C18', 'SPMD kernels give every element the C++ meaning of the kernel',
     'A kernel launched on n elements leaves, for each element, what the same program written with C++ if, else if, '
     'else, while, break, continue, return and assignment would leave when run for that element alone: independently of '
     'what the other elements of the pack do, for the packed part and for the scalar tail; memory of elements that do '
     'not execute a k_store is untouched, nothing beyond n elements is accessed, and the launch returns when every '
     'per-element program ends. Device functions called under a mask follow the same rule, and each k_<op> computes the '
     'operator of the same name.',
     ['inputs', 'configurations', 'programs'], 'every input value for a catalogue of kernels covering each construct, their '
     'nestings and combinations (thorough adds an exhaustive family of 192 loop bodies), up to 3 loop iterations',
     'Tests run few kernels whose lanes rarely diverge; mask errors show only when lanes take particular different '
     'paths (break in one lane, continue in another), which no sample enumerates.',
     ['include/nsimd/modules/spmd.hpp', 'include/nsimd/modules/spmd/functions.hpp', 'egg/modules/spmd/hatch.py'],
     [('k_if/k_while/k_break/k_continue/k_return', 'include/nsimd/modules/spmd.hpp'),
      ('operators', 'include/nsimd/modules/spmd/functions.hpp (generated by egg/modules/spmd/hatch.py)')],
     'Bounded: catalogue of kernels, <= 3 iterations, one pack + tail; all values.' + TRUST)

prop('C20', 'The random module computes Random123 Philox and Threefry on every lane',
     'Every philox_* and threefry_* function returns, in each lane and for every counter and key, the words that the '
     'counter-based generator of the same name, width and round count (Salmon et al., SC11: multipliers, Weyl key bumps, '
     'rotation tables, key parity and injection schedule) yields for that lane\'s counter and key; lanes do not influence '
     'each other, so a sequence does not depend on the SIMD width. mulhilo64 returns the full 128-bit product.',
     ['inputs', 'configurations'], 'all counters and keys, all 7 Philox and 12 Threefry variants, cpu, SSE2, AVX2 and AVX-512 (thorough: every x86 extension)',
     'Known-answer tests fix a few counters; a wrong carry in the 64-bit high product or one wrong round shows only on '
     'particular counters, and each lane can fail on its own.',
     ['egg/modules/random/hatch.py'],
     [('philox/threefry', 'include/nsimd/modules/random/functions.hpp (generated by egg/modules/random/hatch.py)')],
     'Complete for the variants listed; philox 64-bit modulo the 128-bit product, which is decided separately for each multiplier.' + TRUST)

prop('C19', 'TET1D expressions assign element by element what the expression says',
     'An assignment tet1d::out(o) = expr (or out(o)(cond) = expr) leaves in element i the value of the expression (operators, infix '
     'operators, literals and scalars on either side, conversions, nesting, inclusive slices with negative bounds counted from the '
     'end) at element i, for the packed part and the scalar tail alike, whatever the unroll and extension; elements that cond does '
     'not select are unchanged; nothing beyond the elements of the operands is accessed, and no internal assertion fails on valid '
     'operands.',
     ['inputs', 'configurations', 'programs'], 'every value of every element for every operator in prefix and infix form, scalars and literals on both sides, '
     'masked outputs, slices, nested expressions; sizes 1 to three packs + 1',
     'The module tests run one operator at a time over random data and compare; node plumbing (wrong operand, offset of a '
     'slice, tail boundary) fails only for particular sizes and values.',
     ['include/nsimd/modules/tet1d.hpp', 'egg/modules/tet1d/hatch.py'],
     [('nodes, kernels, slices', 'include/nsimd/modules/tet1d.hpp'),
      ('operators', 'include/nsimd/modules/tet1d/functions.hpp (generated by egg/modules/tet1d/hatch.py)')],
     'Bounded: statements listed, sizes <= 3 packs + 1; all values.' + TRUST)

prop('C21', 'Allocations return NULL or throw, or aligned memory holding all that was asked',
     'For every requested count (including counts whose byte size overflows) and every pattern of failures of the underlying allocator: '
     'nsimd_aligned_alloc, aligned_alloc, aligned_alloc_for<T>, device_malloc/device_calloc, pair_malloc/pair_calloc(_or_exit) return NULL '
     'exactly when the request cannot be satisfied and otherwise a block of at least count * sizeof(T) bytes, aligned for the vectors of the '
     'back end (aligned_*), zeroed (calloc), without leaking on partial failure; nsimd::allocator never returns NULL but throws; every '
     'free/deallocate/scoped_aligned_mem_for releases the block exactly once; copies and fills write exactly the sz elements given.',
     ['inputs', 'configurations', 'fault_sequences'], 'every 64-bit count and every failure pattern of the allocator / CUDA / HIP run time, all types, C++98 to C++20',
     'Tests allocate a few hundred elements and never run out of memory; overflowing sizes and failed allocations are exactly the cases they cannot reach.',
     ['src/memory.cpp', 'include/nsimd/nsimd.h', 'include/nsimd/modules/memory_management.hpp'],
     [('nsimd_aligned_alloc/free', 'src/memory.cpp'), ('aligned_alloc_for, allocator, scoped_aligned_mem_for', 'include/nsimd/nsimd.h'),
      ('device_*, pair_*', 'include/nsimd/modules/memory_management.hpp')],
     'Complete in counts and failures; contents of zeroed, copied, filled and scoped memory for up to 8 elements. The C library and GPU run-time allocators are '
     'stand-ins with their documented contract.' + TRUST)

prop('C22', 'Mathematical functions call the right kernel on every lane',
     'For each of the %d mathematical functions (sin_u10, atan2_u35, pow_u10, ...), each lane of the result is the value of the Sleef kernel of that function, '
     'that accuracy and that type on the same lane of the arguments, in the documented argument order; half precision widens each lane to single '
     'precision, keeps the lane order and rounds the result once. The C, C++ and pack interfaces and the scalar functions agree.' % 48,
     ['inputs', 'configurations'], 'every bit pattern of every lane of every argument, all functions, f16/f32/f64, 7 back ends, packs of 2 vectors (thorough: 1 to 3)',
     'The tests compare with a tolerance and accept 7 to 11 correct bits, so a less accurate variant, or one called for another type, passes; AVX-512 and the '
     'plain CPU back end are not run.',
     ['egg/operators.py', 'egg/gen_archis.py', 'egg/gen_scalar_utilities.py', 'src/rename.h', 'src/renamesse2.h', 'src/renameavx512f.h'],
     [('dispatch', 'egg/gen_archis.py (get_simd_implementation_src)'), ('naming of kernels', 'src/rename*.h')],
     'Complete; the kernels themselves are uninterpreted (see C25).' + TRUST)

prop('C23', 'ufp counts the leading bits on which two floating point numbers agree',
     'For all pairs of normal numbers nsimd_ufp_* / nsimd::ufp returns 0 when the exponents differ by two or more and otherwise the largest r <= mantissa bits + 1 '
     'with | |a| - |b| | < 2^(e + 1 - r), e the smaller exponent: it is symmetric and maximal exactly on equal magnitudes. The whole test suite judges '
     'floating point results with this function.',
     ['inputs'], 'every pair of normal numbers of f16, f32 and f64',
     'It is the oracle of the test suite: an error in it silently weakens or breaks every floating point test.',
     ['src/ufp.cpp'], [('ufp', 'src/ufp.cpp')], 'Complete.' + TRUST)

prop('C24', 'Friendly operators mix packs and scalars lane by lane',
     'With friendly_but_not_optimized.hpp, pack op scalar and scalar op pack equal the operator applied to each lane and to the scalar converted to the element '
     'type, operands in the written order; logical packs combine with booleans, and with logical packs of another type of the same width, lane by lane.',
     ['inputs', 'configurations'], 'every value of every lane and scalar, every operator, both operand orders, SSE2 (1 and 2 vectors), AVX2, AVX-512 and CPU (thorough: every '
     'extension, 1 to 3 vectors)',
     'No test includes this header.',
     ['egg/gen_friendly_but_not_optimized.py'], [('get_impl', 'egg/gen_friendly_but_not_optimized.py')], 'Complete for the operators and types listed.' + TRUST)

prop('C25', 'Sleef kernels reach the accuracy their name promises',
     'Each mathematical kernel returns, for every argument, a result within the error bound of its suffix (u10: 1.0 ULP, u35: 3.5 ULP, u05: 0.5 ULP, u15: 1.5 ULP) '
     'of the exact value, with correct results at infinities, zeros, NaN and range limits.',
     ['inputs'], 'every argument of every kernel', 'Tests sample a few hundred arguments and accept 7 to 11 correct bits.',
     ['src/sleefsimdsp.c', 'src/sleefsimddp.c', 'src/sleefsp.c', 'src/sleefdp.c'], [('kernels', 'src/sleef*.c')], '', check=False,
     na='The specification is the exact value of a transcendental function: it has no finite encoding for an SMT solver (no decision procedure for sin, exp, ... over '
        'floats; bit-blasting chains of some 50 double-double operations times out even for one comparison with a polynomial). Which kernel is called is decided by C22.')

prop('C26', 'ARM, POWER, CUDA, ROCm and oneAPI back ends compute the same operators',
     'Every operator gives on NEON, SVE, VMX, VSX, CUDA, ROCm and oneAPI the result that C01-C13 state for x86.',
     ['inputs', 'configurations'], 'every input on every non-x86 back end', 'Tests need the hardware or an emulator.',
     ['egg/platform_arm.py', 'egg/platform_ppc.py', 'egg/cuda.py', 'egg/oneapi.py'], [('back ends', 'egg/platform_arm.py')], '', check=False,
     na='The sandbox has no cross headers or sysroots (arm_neon.h for a target C library, altivec, CUDA, HIP or SYCL) and no way to run such code, so '
        'the code can neither be compiled to encode it nor can counterexamples be replayed. Host-side memory code of the CUDA/ROCm branches is covered in C21.')
