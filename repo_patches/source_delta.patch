From b33c14dfd3fd4308c0442037db1120e1f448224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:31 +0000
Subject: [PATCH 01/25] fix: saturated subtraction of INT_MIN on signed
 integers (x86 i32/i64, scalar and CPU emulation)

---
 egg/platform_x86.py | 8 +++++---
 egg/scalar.py       | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index a84ccc5..c06df57 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -276,7 +276,7 @@ def get_additional_include(func, platform, simd_ext):
                       '''.format(simd_ext=simd_ext)
     if func == 'subs':
         ret += '''#include <nsimd/x86/{simd_ext}/adds.h>
-                  #include <nsimd/x86/{simd_ext}/neg.h>
+                  #include <nsimd/x86/{simd_ext}/notb.h>
                   #include <nsimd/x86/{simd_ext}/sub.h>
                   #include <nsimd/x86/{simd_ext}/gt.h>
                   #include <nsimd/x86/{simd_ext}/set1.h>
@@ -3224,8 +3224,10 @@ def subs(simd_ext, typ):
                    'subs', simd_ext, typ)
 
     if typ in common.itypes:
-        return 'return nsimd_adds_{simd_ext}_{typ}({in0}, ' \
-               'nsimd_neg_{simd_ext}_{typ}({in1}));'.format(**fmtspec)
+        # a - b = ~(~a + b), this does not overflow on b = INT_MIN as -b does
+        return 'return nsimd_notb_{simd_ext}_{typ}(' \
+               'nsimd_adds_{simd_ext}_{typ}(nsimd_notb_{simd_ext}_{typ}(' \
+               '{in0}), {in1}));'.format(**fmtspec)
 
     min_ = common.limits[typ]['min']
 
diff --git a/egg/scalar.py b/egg/scalar.py
index 1545a84..3b5df08 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -334,7 +334,8 @@ def subs(typ):
                   }}
                   '''.format(**fmtspec)
     # Getting here means typ is signed
-    return 'return nsimd_scalar_adds_{typ}({in0}, ({typ})(-{in1}));'. \
+    # a - b = ~(~a + b), this does not overflow on b = INT_MIN as -b does
+    return 'return ({typ})~nsimd_scalar_adds_{typ}(({typ})~{in0}, {in1});'. \
            format(**fmtspec)
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From dbc640ede82ee9ee158f7adbad8c4bb21b537663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 02/25] fix: unsigned 64-bit integer <-> f64 conversions on
 AVX-512 Skylake used the signed instructions

---
 egg/platform_x86.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index c06df57..130e182 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2356,9 +2356,10 @@ def convert1(simd_ext, from_typ, to_typ):
                  format(**fmtspec)
     if to_typ == 'f64' or from_typ == 'f64':
         if simd_ext == 'avx512_skylake':
-            return 'return _mm512_cvt{from_suf}{to_suf}({in0});'. \
-                   format(from_suf=suf_ep(from_typ)[1:], to_suf=suf_ep(to_typ),
-                          **fmtspec)
+            from_suf, to_suf = ['pd' if t == 'f64' else 'ep' + t
+                                for t in [from_typ, to_typ]]
+            return 'return _mm512_cvt{from_suf}_{to_suf}({in0});'. \
+                   format(from_suf=from_suf, to_suf=to_suf, **fmtspec)
         else:
             return emulate
     if to_typ == 'f32' and from_typ == 'i32':
-- 
2.43.0


From 78fff7cc2a9246399a649902221c1d34dc192ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 03/25] fix: i64 to f32 down-conversion on AVX-512 dropped the
 upper 32 bits of its input

---
 egg/platform_x86.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 130e182..ed318ad 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2998,12 +2998,6 @@ def downcvt1(opts, simd_ext, from_typ, to_typ):
             return 'return {};'.format(setr(simd_ext, to_typ,
                    '{pre}cvtep{from_typ}_ep{to_typ}({in0})'.format(**fmtspec),
                    '{pre}cvtep{from_typ}_ep{to_typ}({in1})'.format(**fmtspec)))
-        elif from_typ == 'i64' and to_typ == 'f32':
-            return 'return nsimd_cvt_{simd_ext}_f32_i32({});'. \
-                   format(setr(simd_ext, from_typ,
-                          '{pre}cvtepi64_epi32({in0})'.format(**fmtspec),
-                          '{pre}cvtepi64_epi32({in1})'.format(**fmtspec)),
-                          **fmtspec)
 
     # and then emulation
     le_to_typ = 2 * int(fmtspec['le'])
-- 
2.43.0


From 7975337d3c33c5a06aec9d9f0be18b37826b5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 04/25] fix: f32 to i64/u64 up-conversions on x86 went through
 32-bit integers

---
 egg/platform_x86.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index ed318ad..3125916 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2852,9 +2852,10 @@ def upcvt1(simd_ext, from_typ, to_typ):
     else:
         from_typ2 = from_typ[0] + str(int(fmtspec['typnbits']) * 2)
         if from_typ not in common.iutypes:
-            # getting here means that from_typ=f32 and to_typ=f64
+            # getting here means that from_typ=f32 and to_typ=i64, u64, going
+            # through f64 (and not i32, u32) keeps the range of the f32's
             with_intrinsic = \
-            '''nsimd_{simd_ext}_vf64x2 ret;
+            '''nsimd_{simd_ext}_v{to_typ}x2 ret;
                ret.v0 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
                             {lower_half}));
                ret.v1 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
@@ -2899,7 +2900,8 @@ def upcvt1(simd_ext, from_typ, to_typ):
               merge=setr(simd_ext, to_typ, 'ret2.v0', 'ret2.v1'), **fmtspec)
 
     # return C code
-    if from_typ == 'i32' and to_typ == 'f64':
+    if (from_typ == 'i32' and to_typ == 'f64') or \
+       (from_typ == 'f32' and to_typ in common.iutypes):
         return with_intrinsic
     if (from_typ in common.ftypes and to_typ in common.iutypes) or \
        (from_typ in common.iutypes and to_typ in common.ftypes):
-- 
2.43.0


From 4a0bff2417e2a992a5c63489f9bf78895f7b0a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:17 +0000
Subject: [PATCH 05/25] fix: loading f16 logicals on AVX-512 treated -0.0 as
 true

---
 egg/platform_x86.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 3125916..0ec37ee 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -1857,17 +1857,7 @@ def sqrt1(simd_ext, typ):
 # Load logical
 
 def loadl(simd_ext, typ, aligned):
-    if simd_ext in avx512:
-        if typ == 'f16':
-            return '''/* This can surely be improved but it is not our
-                         priority. Note that we take advantage of the fact that
-                         floating zero is represented as integer zero to
-                         simplify code. */
-                      nsimd_{simd_ext}_vlf16 ret;
-                      __mmask32 tmp = nsimd_loadlu_{simd_ext}_u16((u16*){in0});
-                      ret.v0 = (__mmask16)(tmp & 0xFFFF);
-                      ret.v1 = (__mmask16)((tmp >> 16) & 0xFFFF);
-                      return ret;'''.format(**fmtspec)
+    if simd_ext in avx512 and typ != 'f16':
         return '''/* This can surely be improved but it is not our priority. */
                   int i;
                   __mmask{le} ret = 0;
-- 
2.43.0


From 4cdc28c71eedb6f73faa3cbdcb178956c58fc2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:36 +0000
Subject: [PATCH 06/25] fix: gather and scatter on unrolled packs accessed
 wrong addresses beyond the first vector

---
 egg/gen_adv_cxx_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 0f0f275..8f98f5d 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -46,6 +46,11 @@ def get_cxx_advanced_generic(operator):
         if arg[1] in ['vi', 'v', 'l']:
             return 'a{}.{}'.format(arg[0], member)
         elif (arg[1] in ['*', 'c*']) and N != '1':
+            # gather and scatter offsets are relative to the base address
+            if 'vi' in operator.params[1:]:
+                return 'a{}'.format(arg[0])
+            elif operator.name in ['gather_linear', 'scatter_linear']:
+                return 'a{} + len_ * a1'.format(arg[0])
             return 'a{} + len_'.format(arg[0])
         else:
             return 'a{}'.format(arg[0])
-- 
2.43.0


From 37b6e8b009506c5f40a2ebd9d594341044f400be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:36 +0000
Subject: [PATCH 07/25] fix: set1l, loadlu, loadla and mask_for_loop_tail did
 not compile on unrolled packl

---
 egg/gen_adv_cxx_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 8f98f5d..3c7185c 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -32,7 +32,7 @@ def get_cxx_advanced_generic(operator):
         if param in ['v', 'vi']:
             return 'pack'
         elif param == 'l':
-            return 'pack'
+            return 'packl'
         else:
             return 'pack{}'.format(param[1:])
     args_list = common.enum(operator.params[1:])
-- 
2.43.0


From eb9d98c790baaf25b7eae83d6ae540b54ffb439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:36 +0000
Subject: [PATCH 08/25] fix: conversions and reinterpretations did not compile
 on unrolled packs

---
 egg/gen_adv_cxx_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 3c7185c..46fc8d9 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -62,7 +62,8 @@ def get_cxx_advanced_generic(operator):
     if other_varsN != '':
         other_varsN = ', ' + other_varsN
     if not operator.closed:
-        varsN = ['typename ToPackType::value_type()'] + varsN
+        varsN = ['{}<typename ToPackType::value_type, N - 1, SimdExt>()'. \
+                 format(get_pack(operator.params[0]))] + varsN
     if need_tmpl_pack != None:
         varsN = ['{}<T, N - 1, SimdExt>()'.format(need_tmpl_pack)] + varsN
     vars1 = ', '.join(vars1)
@@ -96,7 +97,9 @@ def get_cxx_advanced_generic(operator):
             ret_car = \
                 '''typename simd_traits<typename ToPackType::value_type,
                        SimdExt>::simd_vectorx{} car = '''.format(num)
-        ret_cdr = 'packx{}<T, N - 1, SimdExt> cdr = '.format(num)
+        ret_cdr = 'packx{}<{}, N - 1, SimdExt> cdr = '.format(num, \
+                  'T' if operator.closed \
+                  else 'typename ToPackType::value_type')
         post_car = '; ret.set_car({})'.format(', '.join( \
             ['car.v{}'.format(i) for i in range(0, int(num))]))
         post_cdr = '; ret.set_cdr({})'.format(', '.join( \
-- 
2.43.0


From df48d00ed8147c5f07cd771c06e045aa331e4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:26 +0000
Subject: [PATCH 09/25] fix: iota and mask_for_loop_tail restarted at each
 vector of an unrolled pack

---
 egg/gen_adv_cxx_api.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 46fc8d9..ec50bf9 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -131,6 +131,14 @@ def get_cxx_advanced_generic(operator):
     else:
         int_len = ''
 
+    # The remaining vectors of an unrolled pack go on where the first one ends
+    if operator.name == 'iota':
+        post_cdr = '''; ret.cdr = add(ret.cdr, set1<pack<T, N - 1, SimdExt> >(
+                          to<T>(len(pack<T, 1, SimdExt>()))))'''
+    elif operator.name == 'mask_for_loop_tail':
+        int_len = 'int len_ = len(packl<T, 1, SimdExt>());'
+        varsN = varsN.replace('a0', 'a0 + len_')
+
     sig = operator.get_generic_signature('cxx_adv')
     for k in sig:
         sig[k] = sig[k][:-1] # remove trailing ';'
-- 
2.43.0


From 3c1e98603617868136570f078bc1171c5a7840c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 10/25] fix: scalar xorl was wrong on true values other than 1

---
 egg/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/scalar.py b/egg/scalar.py
index 3b5df08..7bd01f1 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -466,7 +466,7 @@ def get_impl(operator, totyp, typ):
         'eq': lambda: cmp('{in0} == {in1}', typ),
         'andl': lambda: 'return {in0} && {in1};'.format(**fmtspec),
         'orl': lambda: 'return {in0} || {in1};'.format(**fmtspec),
-        'xorl': lambda: 'return {in0} ^ {in1};'.format(**fmtspec),
+        'xorl': lambda: 'return (!{in0}) != (!{in1});'.format(**fmtspec),
         'andnotl': lambda: 'return {in0} && (!{in1});'.format(**fmtspec),
         'notl': lambda: 'return !{in0};'.format(**fmtspec),
         'shl': lambda: shift('shl', typ),
-- 
2.43.0


From d5c00b8c3993a0242b393096c48465ada562841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 11/25] fix: addv did not compile on unrolled packs of f16

---
 include/nsimd/cxx_adv_api.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 242837c..2880550 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -534,7 +534,7 @@ T addv(pack<T, 1, SimdExt> const &a0) {
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 T addv(pack<T, N, SimdExt> const &a0) {
-  return addv(a0.car, T(), SimdExt()) + addv(a0.cdr);
+  return scalar_add(addv(a0.car, T(), SimdExt()), addv(a0.cdr));
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From c0e59ed3a9259c6a0213b7fbbffc12900b6ebd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 12/25] fix: fixed point scalar comparisons ignored low order
 bits

---
 include/nsimd/modules/fixed_point/function/eq.hpp    |  6 +-----
 .../nsimd/modules/fixed_point/function/eq_ulp.hpp    |  9 ++-------
 .../nsimd/modules/fixed_point/function/greater.hpp   | 12 ++----------
 include/nsimd/modules/fixed_point/function/less.hpp  | 12 ++----------
 4 files changed, 7 insertions(+), 32 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/eq.hpp b/include/nsimd/modules/fixed_point/function/eq.hpp
index cb62c6f..f4db655 100644
--- a/include/nsimd/modules/fixed_point/function/eq.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool operator==(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) == (b._raw & mask));
+  return a._raw == b._raw;
 }
 
 } // namespace fixed_point
diff --git a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
index 2518f5a..87b05d5 100644
--- a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
@@ -32,13 +32,8 @@ namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool equal_ulp(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b,
                const int &ulp) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  raw_type diff = (a._raw & mask) - (b._raw & mask);
-  diff = diff >> shift_size;
-  return (diff <= ulp & diff >= -ulp);
+  const i64 diff = (i64)a._raw - (i64)b._raw;
+  return diff <= ulp && diff >= -(i64)ulp;
 }
 
 } // namespace fixed_point
diff --git a/include/nsimd/modules/fixed_point/function/greater.hpp b/include/nsimd/modules/fixed_point/function/greater.hpp
index 22e75fa..add8290 100644
--- a/include/nsimd/modules/fixed_point/function/greater.hpp
+++ b/include/nsimd/modules/fixed_point/function/greater.hpp
@@ -32,11 +32,7 @@ namespace fixed_point {
 
 template <u8 _lf, u8 _rt>
 bool gt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) > (b._raw & mask));
+  return a._raw > b._raw;
 }
 
 template <u8 _lf, u8 _rt>
@@ -56,11 +52,7 @@ bool operator>(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool gte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) >= (b._raw & mask));
+  return a._raw >= b._raw;
 }
 
 template <u8 _lf, u8 _rt>
diff --git a/include/nsimd/modules/fixed_point/function/less.hpp b/include/nsimd/modules/fixed_point/function/less.hpp
index b22f07c..0b0a48d 100644
--- a/include/nsimd/modules/fixed_point/function/less.hpp
+++ b/include/nsimd/modules/fixed_point/function/less.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool lt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) < (b._raw & mask));
+  return a._raw < b._raw;
 }
 
 template <u8 _lf, u8 _rt>
@@ -55,11 +51,7 @@ bool operator<(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool lte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) <= (b._raw & mask));
+  return a._raw <= b._raw;
 }
 
 template <u8 _lf, u8 _rt>
-- 
2.43.0


From 5f1e9db591f3cdcba9d6d5396b39b508f61501fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 13/25] fix: fixed point floor and ceil used the wrong fraction
 width

---
 include/nsimd/modules/fixed_point/function/ceil.hpp  | 3 +--
 include/nsimd/modules/fixed_point/function/floor.hpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/ceil.hpp b/include/nsimd/modules/fixed_point/function/ceil.hpp
index 540bd77..0494329 100644
--- a/include/nsimd/modules/fixed_point/function/ceil.hpp
+++ b/include/nsimd/modules/fixed_point/function/ceil.hpp
@@ -32,9 +32,8 @@ namespace nsimd {
 namespace fixed_point {
 template <unsigned char _lf, unsigned char _rt>
 NSIMD_INLINE fp_t<_lf, _rt> ceil(const fp_t<_lf, _rt> &a) {
-  const int shift_size = _lf;
   fp_t<_lf, _rt> res = floor(a);
-  if (0 == ((a._raw << (shift_size)) >> shift_size)) {
+  if (res._raw == a._raw) {
     return res;
   } else {
     return (res + constants::one<_lf, _rt>());
diff --git a/include/nsimd/modules/fixed_point/function/floor.hpp b/include/nsimd/modules/fixed_point/function/floor.hpp
index 6966afc..7fc236c 100644
--- a/include/nsimd/modules/fixed_point/function/floor.hpp
+++ b/include/nsimd/modules/fixed_point/function/floor.hpp
@@ -31,7 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <unsigned char _lf, unsigned char _rt>
 NSIMD_INLINE fp_t<_lf, _rt> floor(const fp_t<_lf, _rt> &a) {
-  const int shift_size = 8 * sizeof(a._raw) - _lf;
+  const int shift_size = _rt;
   fp_t<_lf, _rt> res;
   res._raw = (a._raw >> (shift_size)) << shift_size;
   return res;
-- 
2.43.0


From 6b8349c671a74f48a7736bbd11b78199dc0b8db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 14/25] fix: fixed point pack comparison operators did not
 compile

---
 include/nsimd/modules/fixed_point.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/fixed_point.hpp b/include/nsimd/modules/fixed_point.hpp
index 88e9dbb..17b17d3 100644
--- a/include/nsimd/modules/fixed_point.hpp
+++ b/include/nsimd/modules/fixed_point.hpp
@@ -162,7 +162,7 @@ NSIMD_INLINE packl<T> eq(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator==(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator==(const pack<T> &a0, const pack<T> &a1) {
   return eq( a0 , a1 );
 }
 
@@ -174,7 +174,7 @@ NSIMD_INLINE packl<T> ne(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
   return ne( a0 , a1 );
 }
 
@@ -186,7 +186,7 @@ NSIMD_INLINE packl<T> le(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
   return le( a0 , a1 );
 }
 
@@ -198,7 +198,7 @@ NSIMD_INLINE packl<T> lt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<(const pack<T> &a0, const pack<T> &a1) {
   return lt( a0 , a1 );
 }
 
@@ -210,7 +210,7 @@ NSIMD_INLINE packl<T> ge(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
   return ge( a0 , a1 );
 }
 
@@ -222,7 +222,7 @@ NSIMD_INLINE packl<T> gt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>(const pack<T> &a0, const pack<T> &a1) {
   return gt( a0 , a1 );
 }
 
-- 
2.43.0


From 025155185e195d643995ce6b6dddcf40f84da3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:12 +0000
Subject: [PATCH 15/25] fix: fixed point: scale factor of fp_t<lf, 31> was
 computed as a negative int

---
 include/nsimd/modules/fixed_point/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/fixed.hpp b/include/nsimd/modules/fixed_point/fixed.hpp
index a85cf34..1a15b54 100644
--- a/include/nsimd/modules/fixed_point/fixed.hpp
+++ b/include/nsimd/modules/fixed_point/fixed.hpp
@@ -35,11 +35,11 @@ namespace nsimd {
 namespace fixed_point {
 
 template <typename T, u8 rt> static inline T float2int(const float val) {
-  return (T)roundf(val * (float)(1 << rt));
+  return (T)roundf(val * (float)((u64)1 << rt));
 }
 
 template <typename T, u8 rt> static inline float int2float(const T val) {
-  return (float)val / (float)(1 << rt);
+  return (float)val / (float)((u64)1 << rt);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 42eb744196ddd6a8b7577498b2fd1a7f519a5f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:12 +0000
Subject: [PATCH 16/25] fix: spmd: k_set on a k_bool must leave inactive lanes
 untouched

---
 include/nsimd/modules/spmd.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 10eb3d9..988c665 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -594,16 +594,18 @@ void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
-            nsimd::packl<S, N, SimdExt> &var, U value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(
-      mask && nsimd::pack<S, N, SimdExt>(int(value)));
+            nsimd::packl<S, N, SimdExt> &var,
+            nsimd::packl<U, N, SimdExt> const &value) {
+  nsimd::packl<S, N, SimdExt> m =
+      nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask);
+  var = (nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(value) && m) ||
+        nsimd::andnotl(var, m);
 }
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
-            nsimd::packl<S, N, SimdExt> &var,
-            nsimd::packl<U, N, SimdExt> const &value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask && value);
+            nsimd::packl<S, N, SimdExt> &var, U value) {
+  k_set_(mask, var, nsimd::packl<S, N, SimdExt>(bool(value)));
 }
 
 #define k_set(var, value) spmd::k_set_(spmd_mask_, var, value)
-- 
2.43.0


From 0d898cac331eeed4efea1d6fe66d02346afdc220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:12 +0000
Subject: [PATCH 17/25] fix: spmd: k_while must stop once no lane is active and
 honour k_continue per iteration

---
 include/nsimd/modules/spmd.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 988c665..103c198 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -641,17 +641,21 @@ inline bool any(bool a) { return a; }
     k_bool spmd_middle_mask_ = spmd_mask_;                                    \
     k_bool spmd_off_lanes_break_(false);                                      \
     (void)spmd_off_lanes_break_;                                              \
-    k_bool spmd_off_lanes_continue_(false);                                   \
-    (void)spmd_off_lanes_continue_;                                           \
     {                                                                         \
-      while (spmd::any(cond)) {                                               \
+      for (;;) {                                                              \
+        k_bool spmd_off_lanes_continue_(false);                               \
+        (void)spmd_off_lanes_continue_;                                       \
         k_bool spmd_cond_ =                                                   \
             spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(    \
                 cond);                                                        \
         {                                                                     \
           k_bool spmd_mask_ = spmd_cond_ && spmd_middle_mask_;                \
           spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_break_);  \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);
+          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_); \
+          if (!spmd::any(spmd_mask_)) {                                       \
+            break;                                                            \
+          }                                                                   \
+          spmd_middle_mask_ = spmd_mask_;
 
 // break statement (k_break)
 #define k_break                                                               \
-- 
2.43.0


From f7344324653dcfbb11d3fd86e25bec5ae8a57809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:12 +0000
Subject: [PATCH 18/25] fix: spmd: kernel launch macros must not capture the
 caller's 'len'

---
 include/nsimd/modules/spmd.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 103c198..65540db 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -373,10 +373,11 @@ struct KernelSIMD {};
     spmd::type_t<spmd::KernelSIMD, spmd_scalar_bits_, spmd_unroll_>::btype    \
         spmd_mask_(true);                                                     \
     nsimd_nat spmd_i_;                                                        \
-    nsimd_nat len =                                                           \
+    nsimd_nat spmd_len_ =                                                     \
         nsimd::len(spmd::type_t<spmd::KernelSIMD, spmd_scalar_bits_,          \
                                 spmd_unroll_>::itype());                      \
-    for (spmd_i_ = 0; spmd_i_ + len <= spmd_n_; spmd_i_ += len) {             \
+    for (spmd_i_ = 0; spmd_i_ + spmd_len_ <= spmd_n_;                         \
+         spmd_i_ += spmd_len_) {                                              \
       name<spmd::KernelSIMD, spmd_scalar_bits_, spmd_unroll_>(                \
           spmd_i_, spmd_mask_, __VA_ARGS__);                                  \
     }                                                                         \
@@ -393,10 +394,11 @@ struct KernelSIMD {};
     typename spmd::type_t<spmd::KernelSIMD, spmd_scalar_bits_,                \
                           spmd_unroll_>::btype spmd_mask_(true);              \
     nsimd_nat spmd_i_;                                                        \
-    nsimd_nat len =                                                           \
+    nsimd_nat spmd_len_ =                                                     \
         nsimd::len(typename spmd::type_t<spmd::KernelSIMD, spmd_scalar_bits_, \
                                          spmd_unroll_>::itype());             \
-    for (spmd_i_ = 0; spmd_i_ + len <= spmd_n_; spmd_i_ += len) {             \
+    for (spmd_i_ = 0; spmd_i_ + spmd_len_ <= spmd_n_;                         \
+         spmd_i_ += spmd_len_) {                                              \
       name<template_argument, spmd::KernelSIMD, spmd_scalar_bits_,            \
            spmd_unroll_>(spmd_i_, spmd_mask_, __VA_ARGS__);                   \
     }                                                                         \
-- 
2.43.0


From 133e0bb1319efdf602eee94ee6369b77b699a75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 19/25] fix: tet1d: infix shifts take an int and build the node
 of the prefix form

---
 egg/modules/tet1d/hatch.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/egg/modules/tet1d/hatch.py b/egg/modules/tet1d/hatch.py
index fcab484..d7bf83b 100644
--- a/egg/modules/tet1d/hatch.py
+++ b/egg/modules/tet1d/hatch.py
@@ -811,7 +811,18 @@ def gen_functions(opts):
               return tet1d::{op_name}(node);
             }}'''.format(op_name=op_name,
                          cxx_operator=operator.cxx_operator);
-        if operator.cxx_operator != None and len(operator.params) == 3:
+        if operator.cxx_operator != None and operator.params[1:] == ['v', 'p']:
+            functions += '''
+
+            template <typename Op, typename Left, typename Right,
+                      typename Extra>
+            node<{op_name}_t, node<Op, Left, Right, Extra>, none_t, none_t>
+            operator{cxx_operator}(node<Op, Left, Right, Extra> const &node,
+                                   int s) {{
+              return tet1d::{op_name}(node, s);
+            }}'''.format(op_name=op_name,
+                         cxx_operator=operator.cxx_operator);
+        elif operator.cxx_operator != None and len(operator.params) == 3:
             functions += '''
 
             template <typename Op, typename Left, typename Right,
-- 
2.43.0


From 9c0e2dd82c1336897b10c6ed94663df94b923b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 20/25] fix: tet1d: one-element slices are valid (bounds are
 inclusive)

---
 include/nsimd/modules/tet1d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index 1bd3c56..cfafd4b 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -309,7 +309,7 @@ template <typename T> struct node<in_t, none_t, none_t, T> {
     nsimd::nat i1 = nsimd::nat(i1_);
     i0 = i0 >= 0 ? i0 : sz + i0;
     i1 = i1 >= 0 ? i1 : sz + i1;
-    assert(0 <= i0 && i0 < i1 && i1 < sz);
+    assert(0 <= i0 && i0 <= i1 && i1 < sz);
     ret.data = &data[i0];
     ret.sz = i1 - i0 + 1;
     return ret;
-- 
2.43.0


From 7a32da1aff11d17394f7804d9be3757e6f7bb33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 21/25] fix: aligned_alloc_for returns NULL when n * sizeof(T)
 overflows

---
 include/nsimd/nsimd.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 36c6dd1..668dd6c 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1450,6 +1450,9 @@ NSIMD_INLINE void aligned_free(void *ptr) {
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T> T *aligned_alloc_for(nsimd_nat n) {
+  if (n < 0 || (size_t)n > (size_t(-1) >> 1) / sizeof(T)) {
+    return NULL;
+  }
   return (T *)aligned_alloc(n * (nsimd_nat)sizeof(T));
 }
 
-- 
2.43.0


From 1518ded24012de95d44f8f2b4469b08337a95459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 22/25] fix: C++98 allocator throws std::bad_alloc when no
 memory can be obtained

---
 include/nsimd/nsimd.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 668dd6c..6bce90a 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1493,7 +1493,14 @@ public:
   const_pointer address(const_reference r) { return &r; }
 
   pointer allocate(size_type n) {
-    return reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    if (n > max_size()) {
+      throw std::bad_alloc();
+    }
+    pointer ptr = aligned_alloc_for<T>((nsimd_nat)n);
+    if (ptr == NULL) {
+      throw std::bad_alloc();
+    }
+    return ptr;
   }
 
   pointer allocate(size_type n, const void *) { return allocate(n); }
-- 
2.43.0


From e61923946dfc121cb108e9bcd5f968f7f981a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 23/25] fix: memory_management: allocations fail when sz *
 sizeof(T) overflows

---
 include/nsimd/modules/memory_management.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 57ede59..733df04 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -38,6 +38,9 @@ namespace nsimd {
 #if defined(NSIMD_CUDA)
 
 template <typename T> T *device_malloc(size_t sz) {
+  if (sz > size_t(-1) / sizeof(T)) {
+    return NULL;
+  }
   void *ret;
   if (cudaMalloc(&ret, sz * sizeof(T)) != cudaSuccess) {
     return NULL;
@@ -46,6 +49,9 @@ template <typename T> T *device_malloc(size_t sz) {
 }
 
 template <typename T> T *device_calloc(size_t sz) {
+  if (sz > size_t(-1) / sizeof(T)) {
+    return NULL;
+  }
   void *ret;
   if (cudaMalloc(&ret, sz * sizeof(T)) != cudaSuccess) {
     return NULL;
@@ -91,6 +97,9 @@ void copy_to_host(T *host_ptr, T *device_ptr, size_t sz) {
 #elif defined(NSIMD_ROCM)
 
 template <typename T> T *device_malloc(size_t sz) {
+  if (sz > size_t(-1) / sizeof(T)) {
+    return NULL;
+  }
   void *ret;
   if (hipMalloc(&ret, sz * sizeof(T)) != hipSuccess) {
     return NULL;
@@ -99,6 +108,9 @@ template <typename T> T *device_malloc(size_t sz) {
 }
 
 template <typename T> T *device_calloc(size_t sz) {
+  if (sz > size_t(-1) / sizeof(T)) {
+    return NULL;
+  }
   void *ret;
   if (hipMalloc(&ret, sz * sizeof(T)) != hipSuccess) {
     return NULL;
@@ -205,11 +217,14 @@ void copy_to_host(T *const host_ptr, const T *const device_ptr, size_t sz) {
 #else
 
 template <typename T> T *device_malloc(size_t sz) {
+  if (sz > size_t(-1) / sizeof(T)) {
+    return NULL;
+  }
   return (T *)malloc(sz * sizeof(T));
 }
 
 template <typename T> T *device_calloc(size_t sz) {
-  return (T *)calloc(sz * sizeof(T), 1);
+  return (T *)calloc(sz, sizeof(T));
 }
 
 template <typename T> void device_free(T *ptr) { free((void *)ptr); }
-- 
2.43.0


From 9b0430602a205f3239b72c4e705bba027ce1104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 24/25] fix: memory_management: host buffers of pairs have sz
 elements, pair_free frees the device buffer

---
 include/nsimd/modules/memory_management.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 733df04..6c529eb 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -266,7 +266,7 @@ template <typename T> paired_pointers_t<T> pair_malloc(size_t sz) {
     ret.host_ptr = NULL;
     return ret;
   }
-  ret.host_ptr = (T *)malloc(sz);
+  ret.host_ptr = (T *)malloc(sz * sizeof(T));
   if (ret.host_ptr == NULL) {
     device_free(ret.device_ptr);
     ret.device_ptr = NULL;
@@ -299,7 +299,7 @@ template <typename T> paired_pointers_t<T> pair_calloc(size_t sz) {
     ret.host_ptr = NULL;
     return ret;
   }
-  ret.host_ptr = calloc(sz, 1);
+  ret.host_ptr = (T *)calloc(sz, sizeof(T));
   if (ret.host_ptr == NULL) {
     device_free(ret.device_ptr);
     ret.device_ptr = NULL;
@@ -325,7 +325,7 @@ template <typename T> paired_pointers_t<T> pair_calloc_or_exit(size_t sz) {
 
 template <typename T> void pair_free(paired_pointers_t<T> p) {
 #if defined(NSIMD_CUDA) || defined(NSIMD_ROCM) || defined(NSIMD_ONEAPI)
-  device_free(p.device_free);
+  device_free(p.device_ptr);
   free((void *)p.host_ptr);
 #else
   free((void *)p.host_ptr);
-- 
2.43.0


From 6ed07f6fe1d90fd561e44af780c0e56596a0543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 25/25] fix: friendly operators: scalar || packl and scalar &&
 packl build a packl from the scalar

---
 egg/gen_friendly_but_not_optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_friendly_but_not_optimized.py b/egg/gen_friendly_but_not_optimized.py
index 5ffbe5f..2999929 100644
--- a/egg/gen_friendly_but_not_optimized.py
+++ b/egg/gen_friendly_but_not_optimized.py
@@ -54,7 +54,7 @@ def get_impl(operator):
         template <typename S, typename T, int N, typename SimdExt>
         packl<T, N, SimdExt>
         operator{cxx_op}(S s, packl<T, N, SimdExt> const &v) {{
-          return {op_name}(pack<T, N, SimdExt>(bool(s)), v);
+          return {op_name}(packl<T, N, SimdExt>(bool(s)), v);
         }}
 
         template <typename T, typename S, int N, typename SimdExt>
-- 
2.43.0

