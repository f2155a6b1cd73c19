From d1db4f5bcae2a9da6531a973e736050e459ebff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 001/141] fix: scalar operands of clamp, max and min on integer
 vectors

The scalar bounds were indexed by component, reading past the end of the
scalar value.
---
 src/core/WorkItemBuiltins.cpp | 36 +++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d09483c..47d1adc 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -457,13 +457,21 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u3arg(workItem, callInst, fnName, overload, result, _clamp_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setUInt(_clamp_<uint64_t>(UARGV(0, i), UARGV(1, j), UARGV(2, j)), i);
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s3arg(workItem, callInst, fnName, overload, result, _clamp_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setSInt(_clamp_<int64_t>(SARGV(0, i), SARGV(1, j), SARGV(2, j)), i);
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
@@ -495,13 +503,21 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u2arg(workItem, callInst, fnName, overload, result, _max_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setUInt(_max_<uint64_t>(UARGV(0, i), UARGV(1, j)), i);
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s2arg(workItem, callInst, fnName, overload, result, _max_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setSInt(_max_<int64_t>(SARGV(0, i), SARGV(1, j)), i);
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
@@ -533,13 +549,21 @@ class WorkItemBuiltins
     case 't':
     case 'j':
     case 'm':
-      u2arg(workItem, callInst, fnName, overload, result, _min_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setUInt(_min_<uint64_t>(UARGV(0, i), UARGV(1, j)), i);
+      }
       break;
     case 'c':
     case 's':
     case 'i':
     case 'l':
-      s2arg(workItem, callInst, fnName, overload, result, _min_);
+      for (unsigned i = 0; i < result.num; i++)
+      {
+        unsigned j = ARG(1)->getType()->isVectorTy() ? i : 0;
+        result.setSInt(_min_<int64_t>(SARGV(0, i), SARGV(1, j)), i);
+      }
       break;
     default:
       FATAL_ERROR("Unsupported argument type: %c",
-- 
2.43.0


From 6bba1e02689dbe0fc179b5cf5b535224c7e0e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 002/141] fix: overflow detection of add_sat and sub_sat on
 long

Zero was classified with the negative numbers, so LONG_MIN + LONG_MIN gave 0
and 0 - LONG_MIN gave LONG_MIN.
---
 src/core/WorkItemBuiltins.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 47d1adc..4d93339 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1927,10 +1927,10 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) == (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        if ((SARGV(0, i) < 0) == (SARGV(1, i) < 0) &&
+            (SARGV(0, i) < 0) != (sresult < 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
@@ -2283,10 +2283,10 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) != (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        if ((SARGV(0, i) < 0) != (SARGV(1, i) < 0) &&
+            (SARGV(0, i) < 0) != (sresult < 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
-- 
2.43.0


From 4bb745b37e3c5b86be3b9c5d9624dc45b29aba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 003/141] fix: mad_sat on long for negative products and 64-bit
 overflow

Any negative product has a non-zero high half and was taken for an overflow;
a product that overflows into the sign bit of the low half was missed.
---
 src/core/WorkItemBuiltins.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 4d93339..c27dcf8 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2128,19 +2128,16 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        // Check for overflow in multiplication
-        if (_smul_hi_(SARGV(0, i), SARGV(1, i), 64))
         {
-          sresult =
-            (SARGV(0, i) > 0) ^ (SARGV(1, i) > 0) ? INT64_MIN : INT64_MAX;
-        }
-        else
-        {
-          // Check for overflow in addition
-          int64_t m = SARGV(0, i) * SARGV(1, i);
-          if ((m > 0) == (SARGV(2, i) > 0) && (m > 0) != (sresult > 0))
+          // Compute the exact 128-bit result, then check that it fits
+          uint64_t lo = (uint64_t)SARGV(0, i) * (uint64_t)SARGV(1, i);
+          int64_t hi = _smul_hi_(SARGV(0, i), SARGV(1, i), 64);
+          uint64_t sum = lo + (uint64_t)SARGV(2, i);
+          hi += (SARGV(2, i) < 0 ? -1 : 0) + (sum < lo ? 1 : 0);
+          sresult = (int64_t)sum;
+          if (hi != (sresult < 0 ? -1 : 0))
           {
-            sresult = (m > 0) ? INT64_MAX : INT64_MIN;
+            sresult = hi < 0 ? INT64_MIN : INT64_MAX;
           }
         }
         result.setSInt(sresult, i);
-- 
2.43.0


From 955f9b68300597cde45436f13f5235a935a63ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 004/141] fix: implement the integer intrinsics that the
 optimiser introduces

Kernels are compiled with optimisations by default, and the optimiser turns
common source patterns (absolute values, rotates, three-way comparisons,
saturating and overflow-checked arithmetic, bit counting, reductions) into LLVM
intrinsics. These were rejected as undefined external functions, so valid
kernels could not be created. llvm.bswap also only handled one element of a
vector, and llvm.fabs only scalars.
---
 src/core/WorkItemBuiltins.cpp | 302 +++++++++++++++++++++++++++++++++-
 1 file changed, 296 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index c27dcf8..3eb3eb1 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3540,16 +3540,275 @@ class WorkItemBuiltins
     // No-op.
   }
 
+  // Width in bits of the integer (elements) that an intrinsic operates on
+  static unsigned intrinsicBits(const llvm::CallInst* callInst)
+  {
+    return ARG(0)->getType()->getScalarSizeInBits();
+  }
+  // Range of values that a signed integer with a given width can represent
+  static int64_t intrinsicMin(unsigned bits)
+  {
+    return INT64_MIN >> (64 - bits);
+  }
+  static int64_t intrinsicMax(unsigned bits)
+  {
+    return INT64_MAX >> (64 - bits);
+  }
+  static uint64_t intrinsicUMax(unsigned bits)
+  {
+    return UINT64_MAX >> (64 - bits);
+  }
+
+  // Overflow-checked arithmetic: compute the (wrapped) result of an operation
+  // and return true if this is not the exact result
+  typedef bool (*SOverflowFunc)(int64_t, int64_t, unsigned, int64_t&);
+  typedef bool (*UOverflowFunc)(uint64_t, uint64_t, unsigned, uint64_t&);
+  static bool sfits(int64_t& r, unsigned bits)
+  {
+    bool fits = r >= intrinsicMin(bits) && r <= intrinsicMax(bits);
+    r = (int64_t)((uint64_t)r << (64 - bits)) >> (64 - bits);
+    return fits;
+  }
+  static bool saddOverflow(int64_t a, int64_t b, unsigned bits, int64_t& r)
+  {
+    r = (int64_t)((uint64_t)a + (uint64_t)b);
+    bool overflow = ((a < 0) == (b < 0)) && ((a < 0) != (r < 0));
+    return !sfits(r, bits) || overflow;
+  }
+  static bool ssubOverflow(int64_t a, int64_t b, unsigned bits, int64_t& r)
+  {
+    r = (int64_t)((uint64_t)a - (uint64_t)b);
+    bool overflow = ((a < 0) != (b < 0)) && ((a < 0) != (r < 0));
+    return !sfits(r, bits) || overflow;
+  }
+  static bool smulOverflow(int64_t a, int64_t b, unsigned bits, int64_t& r)
+  {
+    r = (int64_t)((uint64_t)a * (uint64_t)b);
+    bool overflow = _smul_hi_(a, b, 64) != (r < 0 ? -1 : 0);
+    return !sfits(r, bits) || overflow;
+  }
+  static bool uaddOverflow(uint64_t a, uint64_t b, unsigned bits, uint64_t& r)
+  {
+    r = (a + b) & intrinsicUMax(bits);
+    return r < a;
+  }
+  static bool usubOverflow(uint64_t a, uint64_t b, unsigned bits, uint64_t& r)
+  {
+    r = (a - b) & intrinsicUMax(bits);
+    return b > a;
+  }
+  static bool umulOverflow(uint64_t a, uint64_t b, unsigned bits, uint64_t& r)
+  {
+    uint64_t full = a * b;
+    r = full & intrinsicUMax(bits);
+    return r != full || _umul_hi_(a, b, 64);
+  }
+
+  DEFINE_BUILTIN(llvm_abs)
+  {
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      int64_t x = SARGV(0, i);
+      result.setUInt(x < 0 ? 0 - (uint64_t)x : x, i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_bitreverse)
+  {
+    unsigned bits = intrinsicBits(callInst);
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t x = UARGV(0, i);
+      uint64_t r = 0;
+      for (unsigned b = 0; b < bits; b++)
+      {
+        r |= ((x >> b) & 1) << (bits - b - 1);
+      }
+      result.setUInt(r, i);
+    }
+  }
+
   DEFINE_BUILTIN(llvm_bswap)
   {
-    uint64_t r = 0;
-    uint64_t value = UARG(0);
-    for (unsigned i = 0; i < result.size; i++)
+    for (unsigned v = 0; v < result.num; v++)
+    {
+      uint64_t r = 0;
+      uint64_t value = UARGV(0, v);
+      for (unsigned i = 0; i < result.size; i++)
+      {
+        r |= ((value >> (i * 8)) & 0xFF) << ((result.size - i - 1) * 8);
+      }
+      result.setUInt(r, v);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_ctlz)
+  {
+    unsigned bits = intrinsicBits(callInst);
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t x = UARGV(0, i);
+      unsigned n = 0;
+      while (n < bits && !((x >> (bits - n - 1)) & 1))
+        n++;
+      result.setUInt(n, i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_cttz)
+  {
+    unsigned bits = intrinsicBits(callInst);
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t x = UARGV(0, i);
+      unsigned n = 0;
+      while (n < bits && !((x >> n) & 1))
+        n++;
+      result.setUInt(n, i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_funnel_shift)
+  {
+    bool left = fnName.compare(0, 9, "llvm.fshl") == 0;
+    unsigned bits = intrinsicBits(callInst);
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t a = UARGV(0, i);
+      uint64_t b = UARGV(1, i);
+      unsigned shift = UARGV(2, i) % bits;
+      if (shift == 0)
+        result.setUInt(left ? a : b, i);
+      else if (left)
+        result.setUInt((a << shift) | (b >> (bits - shift)), i);
+      else
+        result.setUInt((a << (bits - shift)) | (b >> shift), i);
+    }
+  }
+
+  DEFINE_BUILTIN(llvm_cmp)
+  {
+    bool sgn = fnName.compare(0, 9, "llvm.scmp") == 0;
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      bool lt = sgn ? SARGV(0, i) < SARGV(1, i) : UARGV(0, i) < UARGV(1, i);
+      bool gt = sgn ? SARGV(0, i) > SARGV(1, i) : UARGV(0, i) > UARGV(1, i);
+      result.setSInt(lt ? -1 : gt ? 1 : 0, i);
+    }
+  }
+
+  static void llvm_ssat(WorkItem* workItem, const llvm::CallInst* callInst,
+                        const string& name, const string& overload,
+                        TypedValue& result, SOverflowFunc func)
+  {
+    unsigned bits = intrinsicBits(callInst);
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      int64_t a = SARGV(0, i);
+      int64_t r;
+      if (func(a, SARGV(1, i), bits, r))
+        r = a < 0 ? intrinsicMin(bits) : intrinsicMax(bits);
+      result.setSInt(r, i);
+    }
+  }
+
+  static void llvm_usat(WorkItem* workItem, const llvm::CallInst* callInst,
+                        const string& name, const string& overload,
+                        TypedValue& result, UOverflowFunc func)
+  {
+    unsigned bits = intrinsicBits(callInst);
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t r;
+      if (func(UARGV(0, i), UARGV(1, i), bits, r))
+        r = func == usubOverflow ? 0 : intrinsicUMax(bits);
+      result.setUInt(r, i);
+    }
+  }
+
+  // The result of these is a structure: { value(s), overflow flag(s) }
+  static unsigned overflowFlagOffset(const llvm::CallInst* callInst)
+  {
+    return getStructMemberOffset((llvm::StructType*)callInst->getType(), 1);
+  }
+  static unsigned overflowNumElements(const llvm::CallInst* callInst)
+  {
+    return ARG(0)->getType()->isVectorTy() ? ARG_VLEN(0) : 1;
+  }
+
+  static void llvm_soverflow(WorkItem* workItem, const llvm::CallInst* callInst,
+                             const string& name, const string& overload,
+                             TypedValue& result, SOverflowFunc func)
+  {
+    unsigned bits = intrinsicBits(callInst);
+    unsigned num = overflowNumElements(callInst);
+    TypedValue value = {bits / 8, num, result.data};
+    TypedValue flag = {1, num, result.data + overflowFlagOffset(callInst)};
+    for (unsigned i = 0; i < num; i++)
+    {
+      int64_t r;
+      flag.setUInt(func(SARGV(0, i), SARGV(1, i), bits, r), i);
+      value.setSInt(r, i);
+    }
+  }
+
+  static void llvm_uoverflow(WorkItem* workItem, const llvm::CallInst* callInst,
+                             const string& name, const string& overload,
+                             TypedValue& result, UOverflowFunc func)
+  {
+    unsigned bits = intrinsicBits(callInst);
+    unsigned num = overflowNumElements(callInst);
+    TypedValue value = {bits / 8, num, result.data};
+    TypedValue flag = {1, num, result.data + overflowFlagOffset(callInst)};
+    for (unsigned i = 0; i < num; i++)
     {
-      r |= ((value >> (i * 8)) & 0xFF) << ((result.size - i - 1) * 8);
+      uint64_t r;
+      flag.setUInt(func(UARGV(0, i), UARGV(1, i), bits, r), i);
+      value.setUInt(r, i);
+    }
+  }
+
+  static uint64_t _add_(uint64_t a, uint64_t b)
+  {
+    return a + b;
+  }
+  static uint64_t _and_(uint64_t a, uint64_t b)
+  {
+    return a & b;
+  }
+  static uint64_t _or_(uint64_t a, uint64_t b)
+  {
+    return a | b;
+  }
+  static uint64_t _xor_(uint64_t a, uint64_t b)
+  {
+    return a ^ b;
+  }
+
+  static void llvm_reduce_u(WorkItem* workItem, const llvm::CallInst* callInst,
+                            const string& name, const string& overload,
+                            TypedValue& result,
+                            uint64_t (*func)(uint64_t, uint64_t))
+  {
+    uint64_t r = UARGV(0, 0);
+    for (unsigned i = 1; i < ARG_VLEN(0); i++)
+    {
+      r = func(r, UARGV(0, i));
     }
     result.setUInt(r);
   }
+  static void llvm_reduce_s(WorkItem* workItem, const llvm::CallInst* callInst,
+                            const string& name, const string& overload,
+                            TypedValue& result,
+                            int64_t (*func)(int64_t, int64_t))
+  {
+    int64_t r = SARGV(0, 0);
+    for (unsigned i = 1; i < ARG_VLEN(0); i++)
+    {
+      r = func(r, SARGV(0, i));
+    }
+    result.setSInt(r);
+  }
 
   DEFINE_BUILTIN(llvm_dbg_declare)
   {
@@ -3890,11 +4149,19 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("printf", printf_builtin, NULL);
 
   // LLVM Intrinsics
+  ADD_PREFIX_BUILTIN("llvm.abs.", llvm_abs, NULL);
   ADD_BUILTIN("llvm.assume", llvm_assume, NULL);
+  ADD_PREFIX_BUILTIN("llvm.bitreverse.", llvm_bitreverse, NULL);
   ADD_PREFIX_BUILTIN("llvm.bswap.", llvm_bswap, NULL);
+  ADD_PREFIX_BUILTIN("llvm.copysign.", f2arg, F2ARG(copysign));
+  ADD_PREFIX_BUILTIN("llvm.ctlz.", llvm_ctlz, NULL);
+  ADD_PREFIX_BUILTIN("llvm.ctpop.", u1arg, _popcount_);
+  ADD_PREFIX_BUILTIN("llvm.cttz.", llvm_cttz, NULL);
   ADD_BUILTIN("llvm.dbg.declare", llvm_dbg_declare, NULL);
   ADD_BUILTIN("llvm.dbg.value", llvm_dbg_value, NULL);
-  ADD_PREFIX_BUILTIN("llvm.fabs.f", f1arg, F1ARG(fabs));
+  ADD_PREFIX_BUILTIN("llvm.fabs.", f1arg, F1ARG(fabs));
+  ADD_PREFIX_BUILTIN("llvm.fshl.", llvm_funnel_shift, NULL);
+  ADD_PREFIX_BUILTIN("llvm.fshr.", llvm_funnel_shift, NULL);
   ADD_PREFIX_BUILTIN("llvm.lifetime.start", llvm_lifetime_start, NULL);
   ADD_PREFIX_BUILTIN("llvm.lifetime.end", llvm_lifetime_end, NULL);
   ADD_PREFIX_BUILTIN("llvm.experimental.noalias.scope.decl",
@@ -3903,11 +4170,34 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_PREFIX_BUILTIN("llvm.memmove", llvm_memcpy, NULL);
   ADD_PREFIX_BUILTIN("llvm.memset", llvm_memset, NULL);
   ADD_PREFIX_BUILTIN("llvm.fmuladd", fma_builtin, NULL);
+  ADD_PREFIX_BUILTIN("llvm.sadd.sat.", llvm_ssat, saddOverflow);
+  ADD_PREFIX_BUILTIN("llvm.sadd.with.overflow.", llvm_soverflow, saddOverflow);
+  ADD_PREFIX_BUILTIN("llvm.scmp.", llvm_cmp, NULL);
   ADD_PREFIX_BUILTIN("llvm.smax", s2arg, _max_<int64_t>);
   ADD_PREFIX_BUILTIN("llvm.smin", s2arg, _min_<int64_t>);
+  ADD_PREFIX_BUILTIN("llvm.smul.with.overflow.", llvm_soverflow, smulOverflow);
+  ADD_PREFIX_BUILTIN("llvm.ssub.sat.", llvm_ssat, ssubOverflow);
+  ADD_PREFIX_BUILTIN("llvm.ssub.with.overflow.", llvm_soverflow, ssubOverflow);
+  ADD_BUILTIN("llvm.trap", llvm_trap, NULL);
+  ADD_PREFIX_BUILTIN("llvm.uadd.sat.", llvm_usat, uaddOverflow);
+  ADD_PREFIX_BUILTIN("llvm.uadd.with.overflow.", llvm_uoverflow, uaddOverflow);
+  ADD_PREFIX_BUILTIN("llvm.ucmp.", llvm_cmp, NULL);
   ADD_PREFIX_BUILTIN("llvm.umax", u2arg, _max_<uint64_t>);
   ADD_PREFIX_BUILTIN("llvm.umin", u2arg, _min_<uint64_t>);
-  ADD_BUILTIN("llvm.trap", llvm_trap, NULL);
+  ADD_PREFIX_BUILTIN("llvm.umul.with.overflow.", llvm_uoverflow, umulOverflow);
+  ADD_PREFIX_BUILTIN("llvm.usub.sat.", llvm_usat, usubOverflow);
+  ADD_PREFIX_BUILTIN("llvm.usub.with.overflow.", llvm_uoverflow, usubOverflow);
+  ADD_PREFIX_BUILTIN("llvm.vector.reduce.add.", llvm_reduce_u, _add_);
+  ADD_PREFIX_BUILTIN("llvm.vector.reduce.and.", llvm_reduce_u, _and_);
+  ADD_PREFIX_BUILTIN("llvm.vector.reduce.mul.", llvm_reduce_u, _mul_);
+  ADD_PREFIX_BUILTIN("llvm.vector.reduce.or.", llvm_reduce_u, _or_);
+  ADD_PREFIX_BUILTIN("llvm.vector.reduce.smax.", llvm_reduce_s, _max_<int64_t>);
+  ADD_PREFIX_BUILTIN("llvm.vector.reduce.smin.", llvm_reduce_s, _min_<int64_t>);
+  ADD_PREFIX_BUILTIN("llvm.vector.reduce.umax.", llvm_reduce_u,
+                     _max_<uint64_t>);
+  ADD_PREFIX_BUILTIN("llvm.vector.reduce.umin.", llvm_reduce_u,
+                     _min_<uint64_t>);
+  ADD_PREFIX_BUILTIN("llvm.vector.reduce.xor.", llvm_reduce_u, _xor_);
 
   return builtins;
 }
-- 
2.43.0


From 40fe499384eeed99426b9e9d530ffda0f077cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 005/141] fix: values of boolean vectors and of integers of
 unusual widths

---
 src/core/WorkItem.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 6261b58..874590d 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -988,7 +988,6 @@ INSTRUCTION(fcmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     double a = opA.getFloat(i);
@@ -1039,7 +1038,7 @@ INSTRUCTION(fcmp)
       r = !llvm::CmpInst::isOrdered(pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r ? 1 : 0, i);
   }
 }
 
@@ -1155,7 +1154,6 @@ INSTRUCTION(icmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     // Load operands
@@ -1201,7 +1199,7 @@ INSTRUCTION(icmp)
       FATAL_ERROR("Unsupported ICmp predicate: %d", pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r ? 1 : 0, i);
   }
 }
 
@@ -1264,9 +1262,12 @@ INSTRUCTION(inttoptr)
 INSTRUCTION(itrunc)
 {
   TypedValue op = getOperand(instruction->getOperand(0));
+  // Types like "bool" do not occupy a whole number of bytes
+  uint64_t mask =
+    UINT64_MAX >> (64 - instruction->getType()->getScalarSizeInBits());
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setUInt(op.getUInt(i), i);
+    result.setUInt(op.getUInt(i) & mask, i);
   }
 }
 
@@ -1405,13 +1406,10 @@ INSTRUCTION(sext)
 {
   const llvm::Value* operand = instruction->getOperand(0);
   TypedValue value = getOperand(operand);
+  unsigned shift = 64 - operand->getType()->getScalarSizeInBits();
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t val = value.getSInt(i);
-    if (operand->getType()->getPrimitiveSizeInBits() == 1)
-    {
-      val = val ? -1 : 0;
-    }
+    int64_t val = (int64_t)(value.getUInt(i) << shift) >> shift;
     result.setSInt(val, i);
   }
 }
-- 
2.43.0


From a93f841322a905d761aaa71aa69ce2e6bdeecda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 006/141] fix: scalarised vector element stores (addressing,
 alignment, stale loads, double free)

---
 src/core/Program.cpp | 116 +++++++++++++++++++------------------------
 1 file changed, 52 insertions(+), 64 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index e307af3..a1d03f6 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -26,6 +26,7 @@
 #include "llvm/IR/LLVMContext.h"
 #include "llvm/IR/LegacyPassManager.h"
 #include "llvm/IR/Module.h"
+#include "llvm/IR/ValueHandle.h"
 #include "llvm/Linker/Linker.h"
 #include "llvm/Support/VirtualFileSystem.h"
 #include "llvm/Transforms/Utils/Cloning.h"
@@ -925,15 +926,16 @@ unsigned long Program::getUID() const
 void Program::pruneDeadCode(llvm::Instruction* instruction)
 {
   // Remove instructions that have no uses
-  if (instruction->getNumUses() == 0)
+  if (instruction->getNumUses() == 0 && !instruction->mayHaveSideEffects())
   {
-    // Get list of operands
-    set<llvm::Value*> operands;
+    // Get list of operands, using handles that are cleared if pruning one
+    // operand also removes another
+    vector<llvm::WeakVH> operands;
     {
       llvm::Instruction::op_iterator op;
       for (op = instruction->op_begin(); op != instruction->op_end(); op++)
       {
-        operands.insert(*op);
+        operands.push_back(llvm::WeakVH(*op));
       }
     }
 
@@ -941,10 +943,9 @@ void Program::pruneDeadCode(llvm::Instruction* instruction)
     instruction->eraseFromParent();
 
     // Prune operands
-    set<llvm::Value*>::iterator op;
-    for (op = operands.begin(); op != operands.end(); op++)
+    for (auto& op : operands)
     {
-      if (auto inst = llvm::dyn_cast<llvm::Instruction>(*op))
+      if (auto inst = llvm::dyn_cast_or_null<llvm::Instruction>((llvm::Value*)op))
         pruneDeadCode(inst);
     }
   }
@@ -979,50 +980,44 @@ llvm::GetElementPtrInst* createScalarGEP(llvm::Value* ptr, llvm::Value* index,
                                          llvm::IntegerType* indexType)
 {
   // Create GEP for scalar value
-  llvm::GetElementPtrInst* scalarPtr = NULL;
-  if (auto gep = llvm::dyn_cast<llvm::GetElementPtrInst>(ptr))
-  {
-    // Create GEP from existing GEP
-    std::vector<llvm::Value*> indices;
-    for (auto idx = gep->idx_begin(); idx != gep->idx_end(); idx++)
-    {
-      indices.push_back(*idx);
-    }
-
-    auto* gepResultType = gep->getResultElementType();
-    if (gepResultType->isIntegerTy(8))
-    {
-      auto byteOffset =
-        getTypeSize(store->getValueOperand()->getType()->getScalarType());
-      auto* mul = llvm::BinaryOperator::CreateMul(
-        index,
-        llvm::Constant::getIntegerValue(
-          index->getType(),
-          llvm::APInt(index->getType()->getIntegerBitWidth(), byteOffset)));
-      mul->insertBefore(store->getIterator());
-      indices.push_back(mul);
-    }
-    else
-    {
-      indices.push_back(index);
-    }
-    scalarPtr = llvm::GetElementPtrInst::Create(
-      gep->getSourceElementType(), gep->getPointerOperand(), indices);
-  }
-  else
-  {
-    // Create GEP from non-GEP pointer
-    std::vector<llvm::Value*> indices;
-    indices.push_back(llvm::ConstantInt::getSigned(indexType, 0));
-    indices.push_back(index);
-    scalarPtr = llvm::GetElementPtrInst::Create(
-      store->getValueOperand()->getType(), ptr, indices);
-  }
+  std::vector<llvm::Value*> indices;
+  indices.push_back(llvm::ConstantInt::getSigned(indexType, 0));
+  indices.push_back(index);
+  llvm::GetElementPtrInst* scalarPtr = llvm::GetElementPtrInst::Create(
+    store->getValueOperand()->getType(), ptr, indices);
   scalarPtr->setDebugLoc(store->getDebugLoc());
   scalarPtr->insertBefore(store->getIterator());
 
   return scalarPtr;
 }
+
+// Create a store for a single element of the vector written by a store
+llvm::StoreInst* createScalarStore(llvm::Value* value, llvm::Value* ptr,
+                                   llvm::StoreInst* store)
+{
+  return new llvm::StoreInst(
+    value, ptr, store->isVolatile(),
+    llvm::commonAlignment(store->getAlign(), getTypeSize(value->getType())));
+}
+
+// Check whether a value was loaded from the destination of a store, with
+// nothing that could modify memory in between
+bool isLoadedFromDestination(llvm::Value* value, llvm::StoreInst* store)
+{
+  llvm::LoadInst* load = llvm::dyn_cast<llvm::LoadInst>(value);
+  if (!load || load->getPointerOperand() != store->getPointerOperand() ||
+      load->getParent() != store->getParent())
+    return false;
+
+  for (llvm::Instruction* I = load->getNextNode(); I; I = I->getNextNode())
+  {
+    if (I == store)
+      return true;
+    if (I->mayWriteToMemory())
+      return false;
+  }
+  return false;
+}
 } // namespace
 
 void Program::scalarizeAggregateStore(llvm::StoreInst* store)
@@ -1041,21 +1036,21 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     llvm::Value* value = insert->getOperand(1);
     llvm::Value* index = insert->getOperand(2);
 
+    bool sourceIsDest = isLoadedFromDestination(vector, store);
+
     // Create GEP for scalar value
     llvm::GetElementPtrInst* scalarPtr =
       createScalarGEP(vectorPtr, index, store, gepIndexType);
 
     // Create direct scalar store
     llvm::StoreInst* scalarStore =
-      new llvm::StoreInst(value, scalarPtr, store->isVolatile(),
-                          llvm::Align(getTypeAlignment(value->getType())));
+      createScalarStore(value, scalarPtr, store);
     scalarStore->setDebugLoc(store->getDebugLoc());
     scalarStore->insertAfter(scalarPtr);
 
     // Check if the input to the insertelement instruction came from something
     // other than a load to the same address as the store
-    llvm::LoadInst* load = llvm::dyn_cast<llvm::LoadInst>(vector);
-    if (!(load && load->getPointerOperand() == store->getPointerOperand()))
+    if (!sourceIsDest)
     {
       // Replace value in store with the input to the insertelement instruction
       llvm::StoreInst* _store =
@@ -1082,14 +1077,8 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
       llvm::cast<llvm::FixedVectorType>(v1->getType())->getNumElements();
 
     // Check if shuffle sources came from a load with same address as the store
-    llvm::LoadInst* load;
-    bool v1SourceIsDest = false, v2SourceIsDest = false;
-    if ((load = llvm::dyn_cast<llvm::LoadInst>(v1)) &&
-        load->getPointerOperand() == vectorPtr)
-      v1SourceIsDest = true;
-    if ((load = llvm::dyn_cast<llvm::LoadInst>(v2)) &&
-        load->getPointerOperand() == vectorPtr)
-      v2SourceIsDest = true;
+    bool v1SourceIsDest = isLoadedFromDestination(v1, store);
+    bool v2SourceIsDest = isLoadedFromDestination(v2, store);
 
     // Get mask indices that don't correspond to the destination vector
     stack<unsigned> indices;
@@ -1106,7 +1095,8 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
         ((unsigned)idx < v1num ? v1SourceIsDest : v2SourceIsDest);
 
       // If destination is used in non-identity position, leave shuffle as is
-      if (sourceIsDest && (unsigned)idx != i)
+      unsigned elem = (unsigned)idx < v1num ? idx : idx - v1num;
+      if (sourceIsDest && elem != i)
         return;
 
       // Add non-destination index
@@ -1165,8 +1155,7 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
         src = cnst->getAggregateElement(idx);
 
         llvm::StoreInst* scalarStore =
-          new llvm::StoreInst(src, scalarPtr, store->isVolatile(),
-                              llvm::Align(getTypeAlignment(src->getType())));
+          createScalarStore(src, scalarPtr, store);
         scalarStore->setDebugLoc(store->getDebugLoc());
         scalarStore->insertAfter(scalarPtr);
       }
@@ -1195,9 +1184,8 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
         extract->setDebugLoc(shuffle->getDebugLoc());
         extract->insertAfter(scalarPtr);
 
-        llvm::StoreInst* scalarStore = new llvm::StoreInst(
-          extract, scalarPtr, store->isVolatile(),
-          llvm::Align(getTypeAlignment(extract->getType())));
+        llvm::StoreInst* scalarStore =
+          createScalarStore(extract, scalarPtr, store);
         scalarStore->setDebugLoc(store->getDebugLoc());
         scalarStore->insertAfter(extract);
       }
-- 
2.43.0


From 46693dcf443aed4a57cc349da5ea298ed23b5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 007/141] fix: integers and boolean vectors that do not fill
 their storage

---
 src/core/WorkItem.cpp | 146 +++++++++++++++++++++++++++++++-----------
 src/core/common.cpp   |  27 ++++++--
 2 files changed, 132 insertions(+), 41 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 874590d..f1cda99 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -127,6 +127,51 @@ void WorkItem::clearBarrier()
   }
 }
 
+// Sign extend an integer operand, whose type may not fill its storage
+static int64_t getSigned(const TypedValue& value, const llvm::Value* operand,
+                         unsigned index)
+{
+  unsigned bits = operand->getType()->getScalarSizeInBits();
+  unsigned shift = (bits && bits < value.size * 8) ? 64 - bits : 0;
+  if (!shift)
+    return value.getSInt(index);
+  return (int64_t)(value.getUInt(index) << shift) >> shift;
+}
+
+// Get the mask that is applied to shift amounts
+static uint64_t getShiftMask(const TypedValue& result)
+{
+  unsigned size = result.num > 1 ? 1 : sizeof(uint32_t);
+  while (size < result.size)
+    size *= 2;
+  return size * 8 - 1;
+}
+
+// Check whether a type is a vector of integers that do not fill their storage
+static bool isSubByteVector(const llvm::Type* type)
+{
+  return type->isVectorTy() && type->getScalarType()->isIntegerTy() &&
+         type->getScalarSizeInBits() % 8;
+}
+
+// Copy values that are tightly packed into bits in LLVM's representation from
+// elements of one size to elements of another
+static void copyBits(unsigned char* dst, unsigned dstBits, unsigned dstSize,
+                     const unsigned char* src, unsigned srcBits,
+                     unsigned srcSize, unsigned numBits)
+{
+  for (unsigned i = 0; i < numBits; i++)
+  {
+    unsigned srcBit = i % srcBits;
+    unsigned dstBit = i % dstBits;
+    unsigned char* byte = dst + (i / dstBits) * dstSize + dstBit / 8;
+    if (dstBit % 8 == 0)
+      *byte = 0;
+    if (src[(i / srcBits) * srcSize + srcBit / 8] & (1 << (srcBit % 8)))
+      *byte |= 1 << (dstBit % 8);
+  }
+}
+
 void WorkItem::dispatch(const llvm::Instruction* instruction,
                         TypedValue& result)
 {
@@ -287,6 +332,17 @@ void WorkItem::dispatch(const llvm::Instruction* instruction,
   default:
     FATAL_ERROR("Unsupported instruction: %s", instruction->getOpcodeName());
   }
+
+  // Integers that do not fill their storage (e.g. i2) are kept zero extended
+  const llvm::Type* type = instruction->getType()->getScalarType();
+  if (type->isIntegerTy() && type->getIntegerBitWidth() < result.size * 8)
+  {
+    uint64_t mask = UINT64_MAX >> (64 - type->getIntegerBitWidth());
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      result.setUInt(result.getUInt(i) & mask, i);
+    }
+  }
 }
 
 void WorkItem::execute(const llvm::Instruction* instruction)
@@ -807,21 +863,30 @@ INSTRUCTION(ashr)
 {
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
-  uint64_t shiftMask =
-    (result.num > 1 ? result.size
-                    : max((size_t)result.size, sizeof(uint32_t))) *
-      8 -
-    1;
+  uint64_t shiftMask = getShiftMask(result);
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setUInt(opA.getSInt(i) >> (opB.getUInt(i) & shiftMask), i);
+    result.setUInt(getSigned(opA, instruction->getOperand(0), i) >>
+                     (opB.getUInt(i) & shiftMask),
+                   i);
   }
 }
 
 INSTRUCTION(bitcast)
 {
   TypedValue operand = getOperand(instruction->getOperand(0));
-  memcpy(result.data, operand.data, result.size * result.num);
+  const llvm::Type* srcType = instruction->getOperand(0)->getType();
+  const llvm::Type* dstType = instruction->getType();
+  if (isSubByteVector(srcType) || isSubByteVector(dstType))
+  {
+    copyBits(result.data, dstType->getScalarSizeInBits(), result.size,
+             operand.data, srcType->getScalarSizeInBits(), operand.size,
+             dstType->getPrimitiveSizeInBits());
+  }
+  else
+  {
+    memcpy(result.data, operand.data, result.size * result.num);
+  }
 }
 
 INSTRUCTION(br)
@@ -1140,7 +1205,7 @@ INSTRUCTION(gep)
   llvm::User::const_op_iterator opItr;
   for (opItr = gepInst->idx_begin(); opItr != gepInst->idx_end(); opItr++)
   {
-    offsets.push_back(getOperand(opItr->get()).getSInt());
+    offsets.push_back(getSigned(getOperand(opItr->get()), opItr->get(), 0));
   }
 
   result.setPointer(resolveGEP(base, gepInst->getSourceElementType(), offsets));
@@ -1159,8 +1224,6 @@ INSTRUCTION(icmp)
     // Load operands
     uint64_t ua = opA.getUInt(i);
     uint64_t ub = opB.getUInt(i);
-    int64_t sa = opA.getSInt(i);
-    int64_t sb = opB.getSInt(i);
 
     uint64_t r;
     switch (pred)
@@ -1184,16 +1247,20 @@ INSTRUCTION(icmp)
       r = ua <= ub;
       break;
     case llvm::CmpInst::ICMP_SGT:
-      r = sa > sb;
+      r = getSigned(opA, instruction->getOperand(0), i) >
+          getSigned(opB, instruction->getOperand(1), i);
       break;
     case llvm::CmpInst::ICMP_SGE:
-      r = sa >= sb;
+      r = getSigned(opA, instruction->getOperand(0), i) >=
+          getSigned(opB, instruction->getOperand(1), i);
       break;
     case llvm::CmpInst::ICMP_SLT:
-      r = sa < sb;
+      r = getSigned(opA, instruction->getOperand(0), i) <
+          getSigned(opB, instruction->getOperand(1), i);
       break;
     case llvm::CmpInst::ICMP_SLE:
-      r = sa <= sb;
+      r = getSigned(opA, instruction->getOperand(0), i) <=
+          getSigned(opB, instruction->getOperand(1), i);
       break;
     default:
       FATAL_ERROR("Unsupported ICmp predicate: %d", pred);
@@ -1262,12 +1329,9 @@ INSTRUCTION(inttoptr)
 INSTRUCTION(itrunc)
 {
   TypedValue op = getOperand(instruction->getOperand(0));
-  // Types like "bool" do not occupy a whole number of bytes
-  uint64_t mask =
-    UINT64_MAX >> (64 - instruction->getType()->getScalarSizeInBits());
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setUInt(op.getUInt(i) & mask, i);
+    result.setUInt(op.getUInt(i), i);
   }
 }
 
@@ -1289,6 +1353,16 @@ INSTRUCTION(load)
   }
 
   // Load data
+  const llvm::Type* type = loadInst->getType();
+  if (isSubByteVector(type))
+  {
+    unsigned numBits = type->getPrimitiveSizeInBits();
+    vector<unsigned char> bytes((numBits + 7) / 8);
+    getMemory(addressSpace)->load(bytes.data(), address, bytes.size());
+    copyBits(result.data, type->getScalarSizeInBits(), result.size,
+             bytes.data(), 8, 1, numBits);
+    return;
+  }
   getMemory(addressSpace)->load(result.data, address, result.size * result.num);
 }
 
@@ -1296,11 +1370,7 @@ INSTRUCTION(lshr)
 {
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
-  uint64_t shiftMask =
-    (result.num > 1 ? result.size
-                    : max((size_t)result.size, sizeof(uint32_t))) *
-      8 -
-    1;
+  uint64_t shiftMask = getShiftMask(result);
   for (unsigned i = 0; i < result.num; i++)
   {
     result.setUInt(opA.getUInt(i) >> (opB.getUInt(i) & shiftMask), i);
@@ -1375,8 +1445,8 @@ INSTRUCTION(sdiv)
   TypedValue opB = getOperand(instruction->getOperand(1));
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t a = opA.getSInt(i);
-    int64_t b = opB.getSInt(i);
+    int64_t a = getSigned(opA, instruction->getOperand(0), i);
+    int64_t b = getSigned(opB, instruction->getOperand(1), i);
     int64_t r = 0;
     if (b && !(a == INT64_MIN && b == -1))
     {
@@ -1406,11 +1476,9 @@ INSTRUCTION(sext)
 {
   const llvm::Value* operand = instruction->getOperand(0);
   TypedValue value = getOperand(operand);
-  unsigned shift = 64 - operand->getType()->getScalarSizeInBits();
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t val = (int64_t)(value.getUInt(i) << shift) >> shift;
-    result.setSInt(val, i);
+    result.setSInt(getSigned(value, operand, i), i);
   }
 }
 
@@ -1418,11 +1486,7 @@ INSTRUCTION(shl)
 {
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
-  uint64_t shiftMask =
-    (result.num > 1 ? result.size
-                    : max((size_t)result.size, sizeof(uint32_t))) *
-      8 -
-    1;
+  uint64_t shiftMask = getShiftMask(result);
   for (unsigned i = 0; i < result.num; i++)
   {
     result.setUInt(opA.getUInt(i) << (opB.getUInt(i) & shiftMask), i);
@@ -1464,7 +1528,7 @@ INSTRUCTION(sitofp)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setFloat(op.getSInt(i), i);
+    result.setFloat(getSigned(op, instruction->getOperand(0), i), i);
   }
 }
 
@@ -1474,8 +1538,8 @@ INSTRUCTION(srem)
   TypedValue opB = getOperand(instruction->getOperand(1));
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t a = opA.getSInt(i);
-    int64_t b = opB.getSInt(i);
+    int64_t a = getSigned(opA, instruction->getOperand(0), i);
+    int64_t b = getSigned(opB, instruction->getOperand(1), i);
     int64_t r = 0;
     if (b && !(a == INT64_MIN && b == -1))
     {
@@ -1504,6 +1568,16 @@ INSTRUCTION(store)
 
   // Store data
   TypedValue operand = getOperand(storeInst->getValueOperand());
+  const llvm::Type* type = storeInst->getValueOperand()->getType();
+  if (isSubByteVector(type))
+  {
+    unsigned numBits = type->getPrimitiveSizeInBits();
+    vector<unsigned char> bytes((numBits + 7) / 8);
+    copyBits(bytes.data(), 8, 1, operand.data, type->getScalarSizeInBits(),
+             operand.size, numBits);
+    getMemory(addressSpace)->store(bytes.data(), address, bytes.size());
+    return;
+  }
   getMemory(addressSpace)
     ->store(operand.data, address, operand.size * operand.num);
 }
diff --git a/src/core/common.cpp b/src/core/common.cpp
index 8eba1e3..32cf74b 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -133,7 +133,12 @@ int64_t TypedValue::getSInt(unsigned index) const
   case 8:
     return ((int64_t*)data)[index];
   default:
-    FATAL_ERROR("Unsupported signed int size: %u bytes", size);
+  {
+    if (size == 0 || size > 8)
+      FATAL_ERROR("Unsupported signed int size: %u bytes", size);
+    unsigned shift = 64 - size * 8;
+    return (int64_t)(getUInt(index) << shift) >> shift;
+  }
   }
 }
 
@@ -150,7 +155,13 @@ uint64_t TypedValue::getUInt(unsigned index) const
   case 8:
     return ((uint64_t*)data)[index];
   default:
-    FATAL_ERROR("Unsupported unsigned int size: %u bytes", size);
+  {
+    if (size == 0 || size > 8)
+      FATAL_ERROR("Unsupported unsigned int size: %u bytes", size);
+    uint64_t value = 0;
+    memcpy(&value, data + index * size, size);
+    return value;
+  }
   }
 }
 
@@ -195,7 +206,9 @@ void TypedValue::setSInt(int64_t value, unsigned index)
     ((int64_t*)data)[index] = value;
     break;
   default:
-    FATAL_ERROR("Unsupported signed int size: %u bytes", size);
+    if (size == 0 || size > 8)
+      FATAL_ERROR("Unsupported signed int size: %u bytes", size);
+    memcpy(data + index * size, &value, size);
   }
 }
 
@@ -216,7 +229,9 @@ void TypedValue::setUInt(uint64_t value, unsigned index)
     ((uint64_t*)data)[index] = value;
     break;
   default:
-    FATAL_ERROR("Unsupported unsigned int size: %u bytes", size);
+    if (size == 0 || size > 8)
+      FATAL_ERROR("Unsupported unsigned int size: %u bytes", size);
+    memcpy(data + index * size, &value, size);
   }
 }
 
@@ -367,7 +382,9 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
       *((uint64_t*)data) = ui;
       break;
     default:
-      FATAL_ERROR("Unsupported constant int size: %u bytes", size);
+      if (size > 8)
+        FATAL_ERROR("Unsupported constant int size: %u bytes", size);
+      memcpy(data, &ui, size);
     }
     break;
   }
-- 
2.43.0


From 268033d127771cbc8978d38020cefbcf5fc35719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 008/141] fix: use the required work-group size when no local
 size is given

---
 src/runtime/runtime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a645e71..dfbe61d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5074,6 +5074,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   size_t reqdWorkGroupSize[3];
   size_t totalWGSize = 1;
   kernel->kernel->getRequiredWorkGroupSize(reqdWorkGroupSize);
+  if (!local_work_size && reqdWorkGroupSize[0])
+  {
+    // The kernel determines the work-group size
+    local_work_size = reqdWorkGroupSize;
+  }
   for (unsigned i = 0; i < work_dim; i++)
   {
     if (kernel->kernel->requiresUniformWorkGroups() && local_work_size &&
-- 
2.43.0


From a7d2c5381858cb5d14d0ebbfa286c309958723c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 009/141] fix: refuse buffer regions whose end overflows

---
 src/runtime/runtime.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index dfbe61d..5c15540 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1518,7 +1518,8 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   }
 
   _cl_buffer_region region = *(_cl_buffer_region*)buffer_create_info;
-  if (region.origin + region.size > buffer->size)
+  if (region.origin > buffer->size ||
+      region.size > buffer->size - region.origin)
   {
     SetErrorInfo(buffer->context, CL_INVALID_VALUE,
                  "Region doesn't fit inside parent buffer");
@@ -3785,7 +3786,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (offset > buffer->size || cb > buffer->size - offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -3934,7 +3935,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (offset > buffer->size || cb > buffer->size - offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4084,14 +4085,14 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
-  if (dst_offset + cb > dst_buffer->size)
+  if (dst_offset > dst_buffer->size || cb > dst_buffer->size - dst_offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "dst_offset + cb (" << dst_offset << " + " << cb
                                         << ") exceeds buffer size ("
                                         << dst_buffer->size << " bytes)");
   }
-  if (src_offset + cb > src_buffer->size)
+  if (src_offset > src_buffer->size || cb > src_buffer->size - src_offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "src_offset + cb (" << src_offset << " + " << cb
@@ -4253,7 +4254,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
   }
-  if (offset + cb > buffer->size)
+  if (offset > buffer->size || cb > buffer->size - offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4801,7 +4802,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   }
 
   // Check map region
-  if (offset + cb > buffer->size)
+  if (offset > buffer->size || cb > buffer->size - offset)
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "offset + cb (" << offset << " + " << cb
-- 
2.43.0


From 098848409bbfe754b90c01fab1651b634d9ba481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 010/141] fix: check the origins, region and pitches of
 rectangular buffer commands

---
 src/runtime/runtime.cpp | 90 +++++++++++++++++++++++++++++++++++------
 1 file changed, 78 insertions(+), 12 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 5c15540..288ce81 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -252,6 +252,35 @@ cl_int checkEventWaitList(cl_context context, cl_uint num_events_in_wait_list,
   return CL_SUCCESS;
 }
 
+// Check whether a rectangular region lies within an allocation of a given size
+bool isRectInBounds(const size_t* origin, const size_t* region,
+                    size_t row_pitch, size_t slice_pitch, size_t size)
+{
+  size_t remaining = size;
+  auto advance = [&remaining](size_t count, size_t pitch) {
+    if (pitch && count > remaining / pitch)
+      return false;
+    remaining -= count * pitch;
+    return true;
+  };
+  return advance(origin[2], slice_pitch) && advance(origin[1], row_pitch) &&
+         advance(origin[0], 1) && advance(region[2] - 1, slice_pitch) &&
+         advance(region[1] - 1, row_pitch) && advance(region[0], 1);
+}
+
+// Check whether the pitches of a rectangular region are valid
+bool areRectPitchesValid(const size_t* region, size_t row_pitch,
+                         size_t slice_pitch)
+{
+  if (row_pitch == 0)
+  {
+    row_pitch = region[0];
+  }
+  return row_pitch >= region[0] &&
+         (slice_pitch == 0 || slice_pitch >= region[1] * row_pitch ||
+          slice_pitch % row_pitch == 0);
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -3845,6 +3874,21 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
+  if (!buffer_origin || !host_origin)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "buffer_origin and host_origin cannot be NULL");
+  }
+  if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
+  if (!areRectPitchesValid(region, buffer_row_pitch, buffer_slice_pitch) ||
+      !areRectPitchesValid(region, host_row_pitch, host_slice_pitch))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Row or slice pitch smaller than region");
+  }
   if (buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_WRITE_ONLY))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -3882,9 +3926,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
                        host_origin[1] * host_row_pitch + host_origin[0];
 
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!isRectInBounds(buffer_origin, region, buffer_row_pitch,
+                      buffer_slice_pitch, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds buffer size (" << buffer->size
@@ -3994,6 +4037,21 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
+  if (!buffer_origin || !host_origin)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "buffer_origin and host_origin cannot be NULL");
+  }
+  if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
+  if (!areRectPitchesValid(region, buffer_row_pitch, buffer_slice_pitch) ||
+      !areRectPitchesValid(region, host_row_pitch, host_slice_pitch))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Row or slice pitch smaller than region");
+  }
   if (buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -4031,9 +4089,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
                        host_origin[1] * host_row_pitch + host_origin[0];
 
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!isRectInBounds(buffer_origin, region, buffer_row_pitch,
+                      buffer_slice_pitch, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds buffer size (" << buffer->size
@@ -4165,10 +4222,21 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
+  if (!src_origin || !dst_origin)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "src_origin and dst_origin cannot be NULL");
+  }
   if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
   }
+  if (!areRectPitchesValid(region, src_row_pitch, src_slice_pitch) ||
+      !areRectPitchesValid(region, dst_row_pitch, dst_slice_pitch))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Row or slice pitch smaller than region");
+  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -4201,17 +4269,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
                       dst_origin[1] * dst_row_pitch + dst_origin[0];
 
   // Ensure buffer region valid
-  size_t src_end = src_offset + region[0] + (region[1] - 1) * src_row_pitch +
-                   (region[2] - 1) * src_slice_pitch;
-  size_t dst_end = dst_offset + region[0] + (region[1] - 1) * dst_row_pitch +
-                   (region[2] - 1) * dst_slice_pitch;
-  if (src_end > src_buffer->size)
+  if (!isRectInBounds(src_origin, region, src_row_pitch, src_slice_pitch,
+                      src_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds source buffer size (" << src_buffer->size
                                                           << " bytes)");
   }
-  if (dst_end > dst_buffer->size)
+  if (!isRectInBounds(dst_origin, region, dst_row_pitch, dst_slice_pitch,
+                      dst_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds destination buffer size ("
-- 
2.43.0


From b7e8d14f951743a5db232c8164dbaf1ba9b2a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 011/141] fix: detect overlapping copies between sub-buffers
 and of rectangles

---
 src/runtime/runtime.cpp | 71 +++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 288ce81..6493693 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -281,6 +281,34 @@ bool areRectPitchesValid(const size_t* region, size_t row_pitch,
           slice_pitch % row_pitch == 0);
 }
 
+// Check whether two rectangular regions with the same pitches overlap
+bool doRectsOverlap(size_t src, size_t dst, const size_t* region,
+                    size_t row_pitch, size_t slice_pitch)
+{
+  size_t slice_size = (region[1] - 1) * row_pitch + region[0];
+  size_t block_size = (region[2] - 1) * slice_pitch + slice_size;
+  if (dst + block_size <= src || src + block_size <= dst)
+  {
+    return false;
+  }
+
+  // No overlap if one region fits in the gap left by the other
+  auto fitsInGap = [src, dst](size_t size, size_t pitch) {
+    size_t s = src % pitch;
+    size_t d = dst % pitch;
+    return (d >= s + size && d + size <= s + pitch) ||
+           (s >= d + size && s + size <= d + pitch);
+  };
+  if (region[2] == 1 || slice_pitch % row_pitch == 0)
+  {
+    if (fitsInGap(region[0], row_pitch))
+    {
+      return false;
+    }
+  }
+  return !fitsInGap(slice_size, slice_pitch);
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -4156,29 +4184,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
                                         << ") exceeds buffer size ("
                                         << src_buffer->size << " bytes)");
   }
-  // If src and dst buffers are the same and if src_offset comes before
-  // dst_offset and src buffer size goes beyond dst_offset then there is an
-  // overlap
-  if ((src_buffer == dst_buffer) && (src_offset <= dst_offset) &&
-      ((src_offset + cb) > dst_offset))
-  {
-    ReturnErrorInfo(command_queue->context, CL_MEM_COPY_OVERLAP,
-                    "src_buffer == dst_buffer and "
-                    "src_offset + cb ("
-                      << src_offset << " + " << cb << ") overlaps dst_offset ("
-                      << dst_offset << ")");
-  }
-  // If src and dst buffers are the same and if dst_offset comes before
-  // src_offset and dst buffer size goes beyond src_offset then there is an
-  // overlap
-  if ((src_buffer == dst_buffer) && (dst_offset <= src_offset) &&
-      ((dst_offset + cb) > src_offset))
+  // Compare addresses, since sub-buffers may share memory
+  size_t src_address = src_buffer->address + src_offset;
+  size_t dst_address = dst_buffer->address + dst_offset;
+  if (src_address < dst_address + cb && dst_address < src_address + cb)
   {
     ReturnErrorInfo(command_queue->context, CL_MEM_COPY_OVERLAP,
-                    "src_buffer == dst_buffer and "
-                    "dst_offset + cb ("
-                      << dst_offset << " + " << cb << ") overlaps src_offset ("
-                      << src_offset << ")");
+                    "Source region (" << src_offset << " + " << cb
+                                      << ") overlaps destination region ("
+                                      << dst_offset << " + " << cb << ")");
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -4284,6 +4298,21 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
                       << dst_buffer->size << " bytes)");
   }
 
+  if (src_buffer == dst_buffer &&
+      (src_row_pitch != dst_row_pitch || src_slice_pitch != dst_slice_pitch))
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Pitches must match when copying within a buffer");
+  }
+  if (src_row_pitch == dst_row_pitch && src_slice_pitch == dst_slice_pitch &&
+      doRectsOverlap(src_buffer->address + src_offset,
+                     dst_buffer->address + dst_offset, region, src_row_pitch,
+                     src_slice_pitch))
+  {
+    ReturnErrorInfo(command_queue->context, CL_MEM_COPY_OVERLAP,
+                    "Source and destination regions overlap");
+  }
+
   // Enqueue command
   oclgrind::CopyRectCommand* cmd = new oclgrind::CopyRectCommand();
   cmd->src = src_buffer->address;
-- 
2.43.0


From 0b794ad275980d8a6c8c42912eda59444cf4d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 012/141] fix: track the exact mapped region when checking
 accesses to mapped buffers

---
 src/plugins/MemCheck.cpp | 19 ++++++++++++++++---
 src/plugins/MemCheck.h   |  1 +
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/plugins/MemCheck.cpp b/src/plugins/MemCheck.cpp
index 7567f26..00dba8f 100644
--- a/src/plugins/MemCheck.cpp
+++ b/src/plugins/MemCheck.cpp
@@ -64,6 +64,18 @@ void MemCheck::memoryAtomicStore(const Memory* memory, const WorkItem* workItem,
   checkStore(memory, address, size);
 }
 
+void MemCheck::memoryDeallocated(const Memory* memory, size_t address)
+{
+  if (memory != m_context->getGlobalMemory())
+    return;
+
+  // The address may be reused, so forget regions that were never unmapped
+  m_mapRegions.remove_if([&](const MapRegion& region) {
+    return memory->extractBuffer(region.address) ==
+           memory->extractBuffer(address);
+  });
+}
+
 void MemCheck::memoryLoad(const Memory* memory, const WorkItem* workItem,
                           size_t address, size_t size)
 {
@@ -79,7 +91,8 @@ void MemCheck::memoryLoad(const Memory* memory, const WorkGroup* workGroup,
 void MemCheck::memoryMap(const Memory* memory, size_t address, size_t offset,
                          size_t size, cl_map_flags flags)
 {
-  MapRegion map = {address, offset, size, memory->getPointer(address + offset),
+  address += offset;
+  MapRegion map = {address, offset, size, memory->getPointer(address),
                    (flags == CL_MAP_READ ? MapRegion::READ : MapRegion::WRITE)};
   m_mapRegions.push_back(map);
 }
@@ -177,7 +190,7 @@ void MemCheck::checkLoad(const Memory* memory, size_t address,
   {
     if (region->type == MapRegion::WRITE &&
         address < region->address + region->size &&
-        address + size >= region->address)
+        address + size > region->address)
     {
       m_context->logError("Invalid read from buffer mapped for writing");
     }
@@ -207,7 +220,7 @@ void MemCheck::checkStore(const Memory* memory, size_t address,
        region++)
   {
     if (address < region->address + region->size &&
-        address + size >= region->address)
+        address + size > region->address)
     {
       m_context->logError("Invalid write to mapped buffer");
     }
diff --git a/src/plugins/MemCheck.h b/src/plugins/MemCheck.h
index c5e80cc..9e46f2c 100644
--- a/src/plugins/MemCheck.h
+++ b/src/plugins/MemCheck.h
@@ -29,6 +29,7 @@ public:
   virtual void memoryAtomicStore(const Memory* memory, const WorkItem* workItem,
                                  AtomicOp op, size_t address,
                                  size_t size) override;
+  virtual void memoryDeallocated(const Memory* memory, size_t address) override;
   virtual void memoryLoad(const Memory* memory, const WorkItem* workItem,
                           size_t address, size_t size) override;
   virtual void memoryLoad(const Memory* memory, const WorkGroup* workGroup,
-- 
2.43.0


From ab61445228cbb5ea8151091a48951aff7d86b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 013/141] fix: track the shadow of global buffers byte by byte

---
 src/plugins/Uninitialized.cpp | 44 +++++++++++++++++++++--------------
 src/plugins/Uninitialized.h   |  6 ++++-
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 39de5fc..53d7ac4 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1014,7 +1014,7 @@ void Uninitialized::hostMemoryStore(const Memory* memory, size_t address,
   if (memory->getAddressSpace() == AddrSpaceGlobal)
   {
     TypedValue v = ShadowContext::getCleanValue(size);
-    allocAndStoreShadowMemory(AddrSpaceGlobal, address, v);
+    storeShadowMemory(AddrSpaceGlobal, address, v);
   }
 }
 
@@ -1824,18 +1824,6 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
         // Global pointer kernel arguments
         // value->second.data == ptr
         // value->second.size == ptr size
-        size_t address = value->second.getPointer();
-
-        if (m_context->getGlobalMemory()->isAddressValid(address) &&
-            !shadowContext.getGlobalMemory()->isAddressValid(address))
-        {
-          // Allocate poisoned global memory if there was no host store
-          size_t size = m_context->getGlobalMemory()->getBuffer(address)->size;
-          allocAndStoreShadowMemory(AddrSpaceGlobal, address,
-                                    ShadowContext::getPoisonedValue(size), NULL,
-                                    NULL, true);
-        }
-
         m_deferredInit.push_back(*value);
         break;
       }
@@ -1971,13 +1959,35 @@ void Uninitialized::logUninitializedWrite(unsigned int addrSpace,
   msg.send();
 }
 
+void Uninitialized::memoryAllocated(const Memory* memory, size_t address,
+                                    size_t size, cl_mem_flags flags,
+                                    const uint8_t* initData)
+{
+  if (memory->getAddressSpace() == AddrSpaceGlobal)
+  {
+    // Memory is poisoned until it is written, unless it has initial data
+    TypedValue v = initData ? ShadowContext::getCleanValue(size)
+                            : ShadowContext::getPoisonedValue(size);
+    allocAndStoreShadowMemory(AddrSpaceGlobal, address, v, NULL, NULL, true);
+  }
+}
+
+void Uninitialized::memoryDeallocated(const Memory* memory, size_t address)
+{
+  if (memory->getAddressSpace() == AddrSpaceGlobal)
+  {
+    shadowContext.getGlobalMemory()->deallocate(address);
+  }
+}
+
 void Uninitialized::memoryMap(const Memory* memory, size_t address,
                               size_t offset, size_t size, cl_map_flags flags)
 {
-  if (!(flags & CL_MAP_READ))
+  // The host may write to a region that is not mapped just for reading
+  if (flags != CL_MAP_READ)
   {
-    allocAndStoreShadowMemory(memory->getAddressSpace(), address + offset,
-                              ShadowContext::getCleanValue(size));
+    storeShadowMemory(memory->getAddressSpace(), address + offset,
+                      ShadowContext::getCleanValue(size));
   }
 }
 
@@ -2409,7 +2419,7 @@ void ShadowMemory::deallocate(size_t address)
 
   delete[] m_map.at(index)->data;
   delete m_map.at(index);
-  m_map.at(index) = NULL;
+  m_map.erase(index);
 }
 
 void ShadowMemory::dump() const
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 07ccb47..8c8b2ba 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -115,6 +115,7 @@ public:
   virtual ~ShadowMemory();
 
   void allocate(size_t address, size_t size);
+  void deallocate(size_t address);
   void dump() const;
   void* getPointer(size_t address) const;
   bool isAddressValid(size_t address, size_t size = 1) const;
@@ -132,7 +133,6 @@ private:
   unsigned m_numBitsBuffer;
 
   void clear();
-  void deallocate(size_t address);
   size_t extractBuffer(size_t address) const;
   size_t extractOffset(size_t address) const;
 };
@@ -272,6 +272,10 @@ public:
                                    const TypedValue& result) override;
   virtual void kernelBegin(const KernelInvocation* kernelInvocation) override;
   virtual void kernelEnd(const KernelInvocation* kernelInvocation) override;
+  virtual void memoryAllocated(const Memory* memory, size_t address,
+                               size_t size, cl_mem_flags flags,
+                               const uint8_t* initData) override;
+  virtual void memoryDeallocated(const Memory* memory, size_t address) override;
   virtual void memoryMap(const Memory* memory, size_t address, size_t offset,
                          size_t size, cl_map_flags flags) override;
   virtual void workItemBegin(const WorkItem* workItem) override;
-- 
2.43.0


From fc967cad67c18df62e7ad3c13d63a8682f56fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 014/141] fix: compute the linear work-group index from both
 dimensions

---
 src/core/WorkGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index da03897..4a60992 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -36,8 +36,8 @@ WorkGroup::WorkGroup(const KernelInvocation* kernelInvocation, Size3 wgid,
 
   m_groupIndex =
     (m_groupID.x +
-     (m_groupID.y + m_groupID.z * (kernelInvocation->getNumGroups().y) *
-                      kernelInvocation->getNumGroups().x));
+     (m_groupID.y + m_groupID.z * kernelInvocation->getNumGroups().y) *
+       kernelInvocation->getNumGroups().x);
 
   // Allocate local memory
   m_localMemory =
-- 
2.43.0


From 5f546e31f6abe5f5a4d680fa46cf26d2a11dfd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 015/141] fix: locate work-items and groups of racing accesses
 in multi-dimensional and offset NDRanges

---
 src/plugins/RaceDetector.cpp | 65 ++++++++++++++++++++----------------
 src/plugins/RaceDetector.h   |  2 ++
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 02598f6..2b91170 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -238,13 +238,26 @@ size_t RaceDetector::getAccessWorkGroup(const MemoryAccess& access) const
 {
   if (access.isWorkItem())
   {
-    const Size3& wgsize = m_kernelInvocation->getLocalSize();
-    return access.getEntity() / (wgsize.x * wgsize.y * wgsize.z);
+    const Size3 wgsize = m_kernelInvocation->getLocalSize();
+    const Size3 numGroups = m_kernelInvocation->getNumGroups();
+    Size3 id = getAccessWorkItem(access);
+    return id.x / wgsize.x +
+           (id.y / wgsize.y + (id.z / wgsize.z) * numGroups.y) * numGroups.x;
   }
   else
     return access.getEntity();
 }
 
+// Position of a work-item in the NDRange, not including the global offset
+Size3 RaceDetector::getAccessWorkItem(const MemoryAccess& access) const
+{
+  const Size3 size = m_kernelInvocation->getGlobalSize();
+  const Size3 offset = m_kernelInvocation->getGlobalOffset();
+  return Size3(access.getEntity() -
+                 (offset.x + (offset.y + offset.z * size.y) * size.x),
+               size);
+}
+
 void RaceDetector::insert(AccessRecord& record,
                           const MemoryAccess& access) const
 {
@@ -290,6 +303,26 @@ void RaceDetector::insertRace(RaceList& races, const Race& race) const
   races.push_back(race);
 }
 
+void RaceDetector::logEntity(Context::Message& msg,
+                             const MemoryAccess& access) const
+{
+  if (access.isWorkItem())
+  {
+    const Size3 wgsize = m_kernelInvocation->getLocalSize();
+    const Size3 offset = m_kernelInvocation->getGlobalOffset();
+    Size3 id = getAccessWorkItem(access);
+    Size3 global(id.x + offset.x, id.y + offset.y, id.z + offset.z);
+    Size3 local(id.x % wgsize.x, id.y % wgsize.y, id.z % wgsize.z);
+    Size3 group(id.x / wgsize.x, id.y / wgsize.y, id.z / wgsize.z);
+    msg << "Global" << global << " Local" << local << " Group" << group;
+  }
+  else
+  {
+    msg << "Group"
+        << Size3(access.getEntity(), m_kernelInvocation->getNumGroups());
+  }
+}
+
 void RaceDetector::logRace(const Race& race) const
 {
   const char* raceType;
@@ -305,36 +338,12 @@ void RaceDetector::logRace(const Race& race) const
       << endl
       << "First entity:  ";
 
-  if (race.a.isWorkItem())
-  {
-    Size3 wgsize = m_kernelInvocation->getLocalSize();
-    Size3 global(race.a.getEntity(), m_kernelInvocation->getGlobalSize());
-    Size3 local(global.x % wgsize.x, global.y % wgsize.y, global.z % wgsize.z);
-    Size3 group(global.x / wgsize.x, global.y / wgsize.y, global.z / wgsize.z);
-    msg << "Global" << global << " Local" << local << " Group" << group;
-  }
-  else
-  {
-    msg << "Group"
-        << Size3(race.a.getEntity(), m_kernelInvocation->getLocalSize());
-  }
+  logEntity(msg, race.a);
 
   msg << endl << race.a.getInstruction() << endl << endl << "Second entity: ";
 
   // Show details of other entity involved in race
-  if (race.b.isWorkItem())
-  {
-    Size3 wgsize = m_kernelInvocation->getLocalSize();
-    Size3 global(race.b.getEntity(), m_kernelInvocation->getGlobalSize());
-    Size3 local(global.x % wgsize.x, global.y % wgsize.y, global.z % wgsize.z);
-    Size3 group(global.x / wgsize.x, global.y / wgsize.y, global.z / wgsize.z);
-    msg << "Global" << global << " Local" << local << " Group" << group;
-  }
-  else
-  {
-    msg << "Group"
-        << Size3(race.b.getEntity(), m_kernelInvocation->getLocalSize());
-  }
+  logEntity(msg, race.b);
   msg << endl << race.b.getInstruction() << endl;
   msg.send();
 }
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index e352c6c..4e9f26a 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -123,11 +123,13 @@ private:
   RaceList kernelRaces;
 
   size_t getAccessWorkGroup(const MemoryAccess& access) const;
+  Size3 getAccessWorkItem(const MemoryAccess& access) const;
 
   bool check(const MemoryAccess& a, const MemoryAccess& b) const;
   void insert(AccessRecord& record, const MemoryAccess& access) const;
   void insertKernelRace(const Race& race);
   void insertRace(RaceList& races, const Race& race) const;
+  void logEntity(Context::Message& msg, const MemoryAccess& access) const;
   void logRace(const Race& race) const;
   void registerAccess(const Memory* memory, const WorkGroup* workGroup,
                       const WorkItem* workItem, size_t address, size_t size,
-- 
2.43.0


From 36ff4866fb47dbf0439392cb920af6bdbff1e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 016/141] fix: compare every value a work-item or group stores
 when detecting races

---
 src/plugins/RaceDetector.cpp | 36 +++++++++++++++++++++++++++++-------
 src/plugins/RaceDetector.h   |  7 ++++++-
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 2b91170..2daa1fc 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -212,7 +212,7 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
     return false;
 
   // No race if same work-item
-  if (a.isWorkItem() && b.isWorkItem() && (a.getEntity() == b.getEntity()))
+  if (a.isWorkItem() && a.isSameEntity(b))
     return false;
 
   // No race if both operations are atomics
@@ -227,7 +227,8 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
       return true;
 
     // Write-write race if not uniform
-    if (!m_allowUniformWrites || (a.getStoreData() != b.getStoreData()))
+    if (!m_allowUniformWrites || (a.getStoreData() != b.getStoreData()) ||
+        a.isMultiValued() || b.isMultiValued())
       return true;
   }
 
@@ -258,8 +259,8 @@ Size3 RaceDetector::getAccessWorkItem(const MemoryAccess& access) const
                size);
 }
 
-void RaceDetector::insert(AccessRecord& record,
-                          const MemoryAccess& access) const
+void RaceDetector::insert(AccessRecord& record, const MemoryAccess& access,
+                          bool group) const
 {
   if (access.isLoad())
   {
@@ -270,6 +271,11 @@ void RaceDetector::insert(AccessRecord& record,
   {
     if (!record.store.isSet() || record.store.isAtomic())
       record.store = access;
+    else if ((group || access.isSameEntity(record.store)) &&
+             (access.getStoreData() != record.store.getStoreData() ||
+              access.isMultiValued()))
+      // Only one store is recorded, but no other can match both values
+      record.store.setMultiValued();
   }
 }
 
@@ -418,13 +424,13 @@ void RaceDetector::syncWorkItems(const Memory* memory, WorkGroupState& state,
       {
         insert(b, a.load);
         if (memory->getAddressSpace() == AddrSpaceGlobal)
-          insert(state.wgGlobal[address], a.load);
+          insert(state.wgGlobal[address], a.load, true);
       }
       if (a.store.isSet())
       {
         insert(b, a.store);
         if (memory->getAddressSpace() == AddrSpaceGlobal)
-          insert(state.wgGlobal[address], a.store);
+          insert(state.wgGlobal[address], a.store, true);
       }
     }
 
@@ -516,6 +522,21 @@ uint8_t RaceDetector::MemoryAccess::getStoreData() const
   return this->storeData;
 }
 
+bool RaceDetector::MemoryAccess::isSameEntity(const MemoryAccess& other) const
+{
+  return isWorkItem() == other.isWorkItem() && entity == other.entity;
+}
+
+bool RaceDetector::MemoryAccess::isMultiValued() const
+{
+  return this->info & (1 << MULTI_BIT);
+}
+
+void RaceDetector::MemoryAccess::setMultiValued()
+{
+  this->info |= 1 << MULTI_BIT;
+}
+
 void RaceDetector::MemoryAccess::setStoreData(uint8_t data)
 {
   this->storeData = data;
@@ -525,5 +546,6 @@ bool RaceDetector::MemoryAccess::operator==(
   const RaceDetector::MemoryAccess& other) const
 {
   return this->entity == other.entity &&
-         this->instruction == other.instruction && this->info == other.info;
+         this->instruction == other.instruction &&
+         ((this->info ^ other.info) & ~(1 << MULTI_BIT)) == 0;
 }
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index 4e9f26a..b66f506 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -56,6 +56,7 @@ private:
     static const unsigned STORE_BIT = 1;
     static const unsigned ATOMIC_BIT = 2;
     static const unsigned WG_BIT = 3;
+    static const unsigned MULTI_BIT = 4;
     uint8_t storeData;
 
   public:
@@ -68,6 +69,9 @@ private:
     bool isStore() const;
     bool isWorkGroup() const;
     bool isWorkItem() const;
+    bool isSameEntity(const MemoryAccess& other) const;
+    bool isMultiValued() const;
+    void setMultiValued();
 
     size_t getEntity() const;
     const llvm::Instruction* getInstruction() const;
@@ -126,7 +130,8 @@ private:
   Size3 getAccessWorkItem(const MemoryAccess& access) const;
 
   bool check(const MemoryAccess& a, const MemoryAccess& b) const;
-  void insert(AccessRecord& record, const MemoryAccess& access) const;
+  void insert(AccessRecord& record, const MemoryAccess& access,
+              bool group = false) const;
   void insertKernelRace(const Race& race);
   void insertRace(RaceList& races, const Race& race) const;
   void logEntity(Context::Message& msg, const MemoryAccess& access) const;
-- 
2.43.0


From cb172bac582235ff98dff862d63f0a406b20a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 017/141] fix: report divergent async copies that no work-item
 waits for

---
 src/core/WorkGroup.cpp | 34 +++++++++++++++++++++-------------
 src/core/WorkGroup.h   |  3 +++
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index 4a60992..4b458d1 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -160,6 +160,23 @@ size_t WorkGroup::async_copy(const WorkItem* workItem,
   return copy.event;
 }
 
+void WorkGroup::checkAsyncCopy(const AsyncCopy& copy,
+                               const set<const WorkItem*>& workItems) const
+{
+  // Check that all work-items registered the copy
+  if (workItems.size() != m_workItems.size())
+  {
+    Context::Message msg(ERROR, m_context);
+    msg << "Work-group divergence detected (async copy)" << endl
+        << msg.INDENT << "Kernel:     " << msg.CURRENT_KERNEL << endl
+        << "Work-group: " << msg.CURRENT_WORK_GROUP << endl
+        << "Only " << dec << workItems.size() << " out of "
+        << m_workItems.size() << " work-items executed copy" << endl
+        << copy.instruction << endl;
+    msg.send();
+  }
+}
+
 void WorkGroup::clearBarrier()
 {
   assert(m_barrier);
@@ -229,19 +246,7 @@ void WorkGroup::clearBarrier()
     {
       if (cItr->first.event == event)
       {
-        // Check that all work-items registered the copy
-        if (cItr->second.size() != m_workItems.size())
-        {
-          Context::Message msg(ERROR, m_context);
-          msg << "Work-group divergence detected (async copy)" << endl
-              << msg.INDENT << "Kernel:     " << msg.CURRENT_KERNEL << endl
-              << "Work-group: " << msg.CURRENT_WORK_GROUP << endl
-              << "Only " << dec << cItr->second.size() << " out of "
-              << m_workItems.size() << " work-items executed copy" << endl
-              << cItr->first.instruction << endl;
-          msg.send();
-        }
-
+        checkAsyncCopy(cItr->first, cItr->second);
         cItr = m_asyncCopies.erase(cItr);
       }
       else
@@ -408,6 +413,9 @@ void WorkGroup::notifyFinished(WorkItem* workItem)
   if (m_running.empty() && !m_barrier && !m_events.empty())
   {
     m_context->logError("Work-item finished without waiting for events");
+
+    for (auto& copy : m_asyncCopies)
+      checkAsyncCopy(copy.first, copy.second);
   }
 }
 
diff --git a/src/core/WorkGroup.h b/src/core/WorkGroup.h
index 40a32da..d0afec3 100644
--- a/src/core/WorkGroup.h
+++ b/src/core/WorkGroup.h
@@ -98,5 +98,8 @@ private:
   size_t m_nextEvent;
   std::list<std::pair<AsyncCopy, std::set<const WorkItem*>>> m_asyncCopies;
   std::map<size_t, std::list<AsyncCopy>> m_events;
+
+  void checkAsyncCopy(const AsyncCopy& copy,
+                      const std::set<const WorkItem*>& workItems) const;
 };
 } // namespace oclgrind
-- 
2.43.0


From b22af7bdc2bbf60724363f4d367ef397674b6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 018/141] fix: reduce the argument of sinpi, cospi and tanpi
 exactly

---
 src/core/WorkItemBuiltins.cpp | 37 ++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 3eb3eb1..0982076 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2325,7 +2325,17 @@ class WorkItemBuiltins
   }
   static double _cospi_(double x)
   {
-    return (cos(x * M_PI));
+    // Reduce the argument exactly before multiplying by pi
+    double r = fmod(fabs(x), 2.0);
+    if (r > 1.0)
+      r = 2.0 - r;
+    if (r == 0.5)
+      return 0.0;
+    if (r > 0.75)
+      return -cos((1.0 - r) * M_PI);
+    if (r > 0.25)
+      return sin((0.5 - r) * M_PI);
+    return cos(r * M_PI);
   }
   static double _exp10_(double x)
   {
@@ -2345,11 +2355,32 @@ class WorkItemBuiltins
   }
   static double _sinpi_(double x)
   {
-    return (sin(x * M_PI));
+    // Reduce the argument exactly before multiplying by pi
+    double r = fmod(x, 2.0);
+    double a = fabs(r);
+    if (a == 0.0 || a == 1.0)
+      return copysign(0.0, x);
+    if (a > 1.0)
+    {
+      a = 2.0 - a;
+      r = -r;
+    }
+    double s;
+    if (a > 0.75)
+      s = sin((1.0 - a) * M_PI);
+    else if (a > 0.25)
+      s = cos((0.5 - a) * M_PI);
+    else
+      s = sin(a * M_PI);
+    return copysign(s, r);
   }
   static double _tanpi_(double x)
   {
-    return (tan(x * M_PI));
+    double s = _sinpi_(x);
+    double c = _cospi_(x);
+    if (c == 0.0)
+      return fmod(fabs(floor(x)), 2.0) == 1.0 ? -INFINITY : INFINITY;
+    return s / c;
   }
 
   DEFINE_BUILTIN(fma_builtin)
-- 
2.43.0


From 0876b8b2dc4d399e187f7d47315efe2c582d0603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 019/141] fix: return signed zeros from fract for zeros and
 infinities

---
 src/core/WorkItemBuiltins.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 0982076..c0e06b4 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2473,6 +2473,11 @@ class WorkItemBuiltins
         r = nan("");
         fl = nan("");
       }
+      else if (std::isinf(x) || x == 0.0)
+      {
+        r = copysign(0.0, x);
+        fl = x;
+      }
       else
       {
         if (result.size == 4)
-- 
2.43.0


From bd6529b6555396cac5c6622c462e667e397d6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 020/141] fix: return the lower seven quotient bits from remquo

---
 src/core/WorkItemBuiltins.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index c0e06b4..f1eee85 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2661,8 +2661,30 @@ class WorkItemBuiltins
       double x = FARGV(0, i);
       double y = FARGV(1, i);
 
-      int32_t quo;
-      double rem = remquo(x, y, &quo);
+      // The C library only guarantees three bits of the quotient, so obtain the
+      // lower seven bits by first reducing x modulo 128*y.
+      int32_t quo = 0;
+      double rem = remainder(x, y);
+      if (std::isfinite(x) && std::isfinite(y) && y != 0.0)
+      {
+        long double ly = fabsl((long double)y);
+        long double m = fmodl(fabsl((long double)x), ly * 256);
+        int32_t q = 0;
+        for (int b = 7; b >= 0; b--)
+        {
+          if (m >= ly * (1 << b))
+          {
+            m -= ly * (1 << b);
+            q |= 1 << b;
+          }
+        }
+        long double h = ly - m;
+        if (m > h || (m == h && (q & 1)))
+          q++;
+        quo = q & 0x7f;
+        if (signbit(x) != signbit(y))
+          quo = -quo;
+      }
       memory->store((const unsigned char*)&quo, quop + i * 4, 4);
       result.setFloat(rem, i);
     }
-- 
2.43.0


From 41c47df237b63f55e3dd93cf9f48d9421a861ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:52 +0000
Subject: [PATCH 021/141] fix: return the correct sign from lgamma_r for poles
 and large negative values

---
 src/core/WorkItemBuiltins.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index f1eee85..7021e05 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2543,7 +2543,17 @@ class WorkItemBuiltins
     for (unsigned i = 0; i < result.num; i++)
     {
       double r = lgamma(FARGV(0, i));
-      int32_t s = (tgamma(FARGV(0, i)) < 0 ? -1 : 1);
+      // The sign of gamma(x) alternates between negative integers, and zero is
+      // returned for its poles
+      double x = FARGV(0, i);
+      int32_t s = 1;
+      if (std::isfinite(x) && x <= 0.0)
+      {
+        if (x == floor(x))
+          s = 0;
+        else if (fmod(fabs(floor(x)), 2.0) == 1.0)
+          s = -1;
+      }
       memory->store((const unsigned char*)&s, signp + i * 4, 4);
       result.setFloat(r, i);
     }
-- 
2.43.0


From be2d35049f015c48634593be415b5f072f700886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 022/141] fix: use the scalar exponent for every component of
 ldexp

---
 src/core/WorkItemBuiltins.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 7021e05..1d2d0ab 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2528,9 +2528,11 @@ class WorkItemBuiltins
 
   DEFINE_BUILTIN(ldexp_builtin)
   {
+    TypedValue exp = workItem->getOperand(ARG(1));
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setFloat(ldexp(FARGV(0, i), SARGV(1, i)), i);
+      int64_t e = exp.num > 1 ? exp.getSInt(i) : exp.getSInt();
+      result.setFloat(ldexp(FARGV(0, i), e), i);
     }
   }
 
-- 
2.43.0


From 28c7f5aa8e422f54d253a4f25f6bc4a2b2159247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:25 +0000
Subject: [PATCH 023/141] fix: compute cbrt within the 2 ulp bound for doubles

---
 src/core/WorkItemBuiltins.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 1d2d0ab..8231146 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2323,6 +2323,11 @@ class WorkItemBuiltins
   {
     return (atan2(x, y) / M_PI);
   }
+  static double _cbrt_(double x)
+  {
+    // The double precision version may not be accurate to 2 ulp
+    return cbrtl(x);
+  }
   static double _cospi_(double x)
   {
     // Reduce the argument exactly before multiplying by pi
@@ -4069,7 +4074,7 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("atanh", f1arg, F1ARG(atanh));
   ADD_BUILTIN("atanpi", f1arg, _atanpi_);
   ADD_BUILTIN("atan2pi", f2arg, _atan2pi_);
-  ADD_BUILTIN("cbrt", f1arg, F1ARG(cbrt));
+  ADD_BUILTIN("cbrt", f1arg, _cbrt_);
   ADD_BUILTIN("ceil", f1arg, F1ARG(ceil));
   ADD_BUILTIN("copysign", f2arg, F2ARG(copysign));
   ADD_BUILTIN("cos", f1arg, F1ARG(cos));
-- 
2.43.0


From a66d816c09eb8c1b3fe301ad9e6f19a221bcee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 024/141] fix: preserve the sign of zero in sign

---
 src/core/WorkItemBuiltins.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 8231146..57f1047 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -423,10 +423,8 @@ class WorkItemBuiltins
       return 0.0;
     if (x > 0.0)
       return 1.0;
-    if (x == -0.0)
-      return -0.0;
     if (x == 0.0)
-      return 0.0;
+      return x;
     if (x < 0.0)
       return -1.0;
     return 0.0;
-- 
2.43.0


From ba7676fa3c9bc3c53e82a12c0e96465a76ddf404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 025/141] fix: classify single precision denormals correctly in
 isnormal

---
 src/core/WorkItemBuiltins.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 57f1047..0a14983 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2842,10 +2842,6 @@ class WorkItemBuiltins
   {
     return std::isnan(x);
   }
-  static int64_t _isnorm_(double x)
-  {
-    return isnormal(x);
-  }
   static int64_t _isord_(double x, double y)
   {
     return !isunordered(x, y);
@@ -2859,6 +2855,20 @@ class WorkItemBuiltins
     return signbit(x);
   }
 
+  DEFINE_BUILTIN(isnormal_builtin)
+  {
+    // Classify the value in its own precision, since single precision
+    // denormals are normal in double precision
+    TypedValue x = workItem->getOperand(ARG(0));
+    int64_t t = result.num > 1 ? -1 : 1;
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      bool r = x.size == 4 ? std::isnormal((float)x.getFloat(i))
+                           : std::isnormal(x.getFloat(i));
+      result.setSInt(r * t, i);
+    }
+  }
+
   DEFINE_BUILTIN(all)
   {
     unsigned num = 1;
@@ -4178,7 +4188,7 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("isfinite", rel1arg, _isfin_);
   ADD_BUILTIN("isinf", rel1arg, _isinf_);
   ADD_BUILTIN("isnan", rel1arg, _isnan_);
-  ADD_BUILTIN("isnormal", rel1arg, _isnorm_);
+  ADD_BUILTIN("isnormal", isnormal_builtin, NULL);
   ADD_BUILTIN("isordered", rel2arg, _isord_);
   ADD_BUILTIN("isunordered", rel2arg, _isuord_);
   ADD_BUILTIN("select", select_builtin, NULL);
-- 
2.43.0


From 9e95461bea5981bea80a14274ba6597fcf1c4da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 026/141] fix: select the bits of single precision values in
 bitselect

---
 src/core/WorkItemBuiltins.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 0a14983..c1d685c 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2912,23 +2912,12 @@ class WorkItemBuiltins
     return ((a & ~c) | (b & c));
   }
 
-  static double _fbitselect_(double a, double b, double c)
-  {
-    uint64_t _a = *(uint64_t*)&a;
-    uint64_t _b = *(uint64_t*)&b;
-    uint64_t _c = *(uint64_t*)&c;
-    uint64_t _r = _ibitselect_(_a, _b, _c);
-    return *(double*)&_r;
-  }
-
   DEFINE_BUILTIN(bitselect)
   {
     switch (getOverloadArgType(overload))
     {
     case 'f':
     case 'd':
-      f3arg(workItem, callInst, fnName, overload, result, _fbitselect_);
-      break;
     case 'h':
     case 't':
     case 'j':
-- 
2.43.0


From ce1b9a4482f805bf0421831646191fa6c23ec008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 027/141] fix: round once when converting signed integers to
 single precision

---
 src/core/WorkItem.cpp         | 6 +++++-
 src/core/WorkItemBuiltins.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index f1cda99..2f69bcd 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1528,7 +1528,11 @@ INSTRUCTION(sitofp)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setFloat(getSigned(op, instruction->getOperand(0), i), i);
+    int64_t in = getSigned(op, instruction->getOperand(0), i);
+    if (result.size == 4)
+      result.setFloat((float)in, i);
+    else
+      result.setFloat(in, i);
   }
 }
 
diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index c1d685c..7bd8ff0 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3244,7 +3244,10 @@ class WorkItemBuiltins
       case 's':
       case 'i':
       case 'l':
-        result.setFloat(SARGV(0, i), i);
+        if (result.size == 4)
+          result.setFloat((float)SARGV(0, i), i);
+        else
+          result.setFloat(SARGV(0, i), i);
         break;
       case 'f':
       case 'd':
-- 
2.43.0


From cf00b988b81085978c68b25508cfebdd211b12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 028/141] fix: round conversions to integers towards the
 requested infinity

---
 src/core/WorkItemBuiltins.cpp | 43 +++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 7bd8ff0..bad1af0 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3218,6 +3218,27 @@ class WorkItemBuiltins
     }
   }
 
+  // Round to an integral value for a conversion to an integer (round towards
+  // zero is the default). The value is not rounded with rint() under a changed
+  // rounding mode, since compilers may expand it inline assuming the default.
+  static long double convertRoundIntegral(const string& name, long double x)
+  {
+    size_t rpos = name.find("_rt");
+    switch (rpos != string::npos ? name[rpos + 3] : 'z')
+    {
+    case 'e':
+      return rintl(x);
+    case 'z':
+      return truncl(x);
+    case 'p':
+      return ceill(x);
+    case 'n':
+      return floorl(x);
+    default:
+      FATAL_ERROR("Unsupported rounding mode: %c", name[rpos + 3]);
+    }
+  }
+
   DEFINE_BUILTIN(convert_float)
   {
     // Use rounding mode
@@ -3323,10 +3344,6 @@ class WorkItemBuiltins
       FATAL_ERROR("Unsupported integer size %d", result.size);
     }
 
-    // Use rounding mode
-    const int origRnd = fegetround();
-    setConvertRoundingMode(fnName, FE_TOWARDZERO);
-
     for (unsigned i = 0; i < result.num; i++)
     {
       uint64_t r;
@@ -3366,11 +3383,12 @@ class WorkItemBuiltins
       case 'd':
         if (sat)
         {
-          r = rint(_clamp_((long double)FARGV(0, i), 0.0L, (long double)max));
+          r = convertRoundIntegral(
+            fnName, _clamp_((long double)FARGV(0, i), 0.0L, (long double)max));
         }
         else
         {
-          r = rint(FARGV(0, i));
+          r = convertRoundIntegral(fnName, FARGV(0, i));
         }
         break;
       default:
@@ -3380,7 +3398,6 @@ class WorkItemBuiltins
 
       result.setUInt(r, i);
     }
-    fesetround(origRnd);
   }
 
   DEFINE_BUILTIN(convert_sint)
@@ -3410,10 +3427,6 @@ class WorkItemBuiltins
       FATAL_ERROR("Unsupported integer size %d", result.size);
     }
 
-    // Use rounding mode
-    const int origRnd = fegetround();
-    setConvertRoundingMode(fnName, FE_TOWARDZERO);
-
     for (unsigned i = 0; i < result.num; i++)
     {
       int64_t r;
@@ -3443,12 +3456,13 @@ class WorkItemBuiltins
       case 'd':
         if (sat)
         {
-          r = rint(_clamp_((long double)FARGV(0, i), (long double)min,
-                           (long double)max));
+          r = convertRoundIntegral(
+            fnName, _clamp_((long double)FARGV(0, i), (long double)min,
+                            (long double)max));
         }
         else
         {
-          r = rint(FARGV(0, i));
+          r = convertRoundIntegral(fnName, FARGV(0, i));
         }
         break;
       default:
@@ -3458,7 +3472,6 @@ class WorkItemBuiltins
 
       result.setSInt(r, i);
     }
-    fesetround(origRnd);
   }
 
   DEFINE_BUILTIN(printf_builtin)
-- 
2.43.0


From a347f8d836d0ed0434b66939427a0e54624dd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 029/141] fix: convert NaNs to zero in saturated conversions to
 signed integers

---
 src/core/WorkItemBuiltins.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index bad1af0..d183746 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3456,9 +3456,12 @@ class WorkItemBuiltins
       case 'd':
         if (sat)
         {
-          r = convertRoundIntegral(
-            fnName, _clamp_((long double)FARGV(0, i), (long double)min,
-                            (long double)max));
+          double f = FARGV(0, i);
+          // NaNs are converted to zero
+          r = std::isnan(f) ? 0
+                            : convertRoundIntegral(
+                                fnName, _clamp_((long double)f, (long double)min,
+                                                (long double)max));
         }
         else
         {
-- 
2.43.0


From 0185d7f5759ff3e2703e87ded75cce38db90c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 030/141] fix: track the definedness of both results of fract,
 frexp, modf and alike

---
 src/plugins/Uninitialized.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 53d7ac4..d9e3315 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -395,10 +395,10 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemShadow = ShadowContext::getCleanValue(result.size);
       }
 
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data, result.size);
     }
 
-    storeShadowMemory(addrSpace, iptr, newShadow);
+    storeShadowMemory(addrSpace, iptr, newShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -421,8 +421,8 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     TypedValue newElemShadow;
     TypedValue newElemIntShadow;
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-    TypedValue newIntShadow = {newShadow.size, newShadow.num,
-                               shadowContext.getMemoryPool()->alloc(4)};
+    TypedValue newIntShadow = {
+      4, newShadow.num, shadowContext.getMemoryPool()->alloc(4 * result.num)};
 
     for (unsigned i = 0; i < result.num; ++i)
     {
@@ -437,11 +437,11 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemIntShadow = ShadowContext::getCleanValue(4);
       }
 
-      memcpy(newIntShadow.data, newElemIntShadow.data, 4);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newIntShadow.data + i * 4, newElemIntShadow.data, 4);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data, result.size);
     }
 
-    storeShadowMemory(addrSpace, iptr, newIntShadow);
+    storeShadowMemory(addrSpace, iptr, newIntShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -464,6 +464,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     TypedValue arg1Shadow =
       shadowContext.getValue(workItem, CI->getArgOperand(1));
     TypedValue newElemShadow;
+    TypedValue newElemIntShadow;
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
 
     for (unsigned i = 0; i < result.num; ++i)
@@ -472,14 +473,16 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
           !ShadowContext::isCleanValue(arg1Shadow, i))
       {
         newElemShadow = ShadowContext::getPoisonedValue(result.size);
+        newElemIntShadow = ShadowContext::getPoisonedValue(4);
       }
       else
       {
         newElemShadow = ShadowContext::getCleanValue(result.size);
+        newElemIntShadow = ShadowContext::getCleanValue(4);
       }
 
-      storeShadowMemory(addrSpace, iptr + i * 4, newElemShadow);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      storeShadowMemory(addrSpace, iptr + i * 4, newElemIntShadow, workItem);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data, result.size);
     }
 
     shadowValues->setValue(CI, newShadow);
-- 
2.43.0


From 7eb8f61ebca8dfbc6f0aa1f7e0730228b8dcdcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 031/141] fix: track asynchronous copies of every type,
 striding the global side only

---
 src/plugins/Uninitialized.cpp | 47 +++++++++++++++++++++++++++++------
 src/plugins/Uninitialized.h   |  2 +-
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index d9e3315..a7691dc 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -102,14 +102,14 @@ void Uninitialized::copyShadowMemory(unsigned dstAddrSpace, size_t dst,
                                      unsigned size, const WorkItem* workItem,
                                      const WorkGroup* workGroup, bool unchecked)
 {
-  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, size,
+  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, 1, size,
                           workItem, workGroup, unchecked);
 }
 
 void Uninitialized::copyShadowMemoryStrided(
   unsigned dstAddrSpace, size_t dst, unsigned srcAddrSpace, size_t src,
-  size_t num, size_t stride, unsigned size, const WorkItem* workItem,
-  const WorkGroup* workGroup, bool unchecked)
+  size_t num, size_t dstStride, size_t srcStride, unsigned size,
+  const WorkItem* workItem, const WorkGroup* workGroup, bool unchecked)
 {
   TypedValue v = {size, 1, new unsigned char[size]};
 
@@ -117,8 +117,8 @@ void Uninitialized::copyShadowMemoryStrided(
   {
     loadShadowMemory(srcAddrSpace, src, v, workItem, workGroup);
     storeShadowMemory(dstAddrSpace, dst, v, workItem, workGroup, unchecked);
-    src += stride * size;
-    dst += stride * size;
+    src += srcStride * size;
+    dst += dstStride * size;
   }
 
   delete[] v.data;
@@ -201,16 +201,43 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     // Get size of copy
     unsigned elemSize;
+    unsigned vecwidth = 1;
     char ptrtype = paramTypes[6];
+    if (ptrtype == 'D')
+    {
+      char* typestr;
+      vecwidth = strtol(paramTypes.c_str() + 8, &typestr, 10);
+      if (vecwidth == 3)
+      {
+        vecwidth = 4;
+      }
+      ptrtype = typestr[1];
+    }
     switch (ptrtype)
     {
+    case 'c':
+    case 'h':
+      elemSize = 1;
+      break;
+    case 's':
+    case 't':
+      elemSize = 2;
+      break;
+    case 'f':
     case 'i':
+    case 'j':
       elemSize = 4;
       break;
+    case 'd':
+    case 'l':
+    case 'm':
+      elemSize = 8;
+      break;
     default:
       FATAL_ERROR("Unsupported argument type: %c", ptrtype);
       break;
     }
+    elemSize *= vecwidth;
 
     const llvm::Value* numOp = CI->getArgOperand(arg++);
     uint64_t num = workItem->getOperand(numOp).getUInt();
@@ -243,17 +270,23 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     AddressSpace dstAddrSpace = AddrSpaceLocal;
     AddressSpace srcAddrSpace = AddrSpaceLocal;
 
+    // Only the global pointer is strided
+    size_t dstStride = 1;
+    size_t srcStride = 1;
+
     if (dstOp->getType()->getPointerAddressSpace() == AddrSpaceLocal)
     {
       srcAddrSpace = AddrSpaceGlobal;
+      srcStride = stride;
     }
     else
     {
       dstAddrSpace = AddrSpaceGlobal;
+      dstStride = stride;
     }
 
-    copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num, stride,
-                            elemSize, workItem);
+    copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num,
+                            dstStride, srcStride, elemSize, workItem);
     shadowValues->setValue(CI, eventShadow);
 
     // Check shadow of src address
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 8c8b2ba..0f341d0 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -304,7 +304,7 @@ private:
                         bool unchecked = false);
   void copyShadowMemoryStrided(unsigned dstAddrSpace, size_t dst,
                                unsigned srcAddrSpace, size_t src, size_t num,
-                               size_t stride, unsigned size,
+                               size_t dstStride, size_t srcStride, unsigned size,
                                const WorkItem* workItem = NULL,
                                const WorkGroup* workGroup = NULL,
                                bool unchecked = false);
-- 
2.43.0


From fb92a9e9773cb68301c32db57bda8398fb7082a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 032/141] fix: track the definedness of the results of every
 intrinsic

---
 src/plugins/Uninitialized.cpp | 63 +++++++++++++++++------------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index a7691dc..318534a 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -950,18 +950,10 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
 {
   switch (I->getIntrinsicID())
   {
-  case llvm::Intrinsic::fmuladd:
-  case llvm::Intrinsic::smax:
-  case llvm::Intrinsic::smin:
-  case llvm::Intrinsic::umax:
-  case llvm::Intrinsic::umin:
-  {
-    SimpleOr(workItem, I);
-    break;
-  }
   case llvm::Intrinsic::memcpy:
+  case llvm::Intrinsic::memmove:
   {
-    const llvm::MemCpyInst* memcpyInst = (const llvm::MemCpyInst*)I;
+    const llvm::MemTransferInst* memcpyInst = (const llvm::MemTransferInst*)I;
     const llvm::Value* dstOp = memcpyInst->getDest();
     const llvm::Value* srcOp = memcpyInst->getSource();
     size_t dst = workItem->getOperand(dstOp).getPointer();
@@ -990,12 +982,6 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     }
     break;
   }
-  case llvm::Intrinsic::bswap:
-  {
-    // TODO: byte-level accuracy
-    SimpleOr(workItem, I);
-    break;
-  }
   case llvm::Intrinsic::memset:
   {
     const llvm::MemSetInst* memsetInst = (const llvm::MemSetInst*)I;
@@ -1023,24 +1009,35 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     }
     break;
   }
-  case llvm::Intrinsic::dbg_declare:
-    // Do nothing
-    break;
-  case llvm::Intrinsic::dbg_value:
-    // Do nothing
-    break;
-  case llvm::Intrinsic::lifetime_end:
-    // Do nothing
-    break;
-  case llvm::Intrinsic::lifetime_start:
-    // Do nothing
-    break;
-  case llvm::Intrinsic::experimental_noalias_scope_decl:
-    // Do nothing
-    break;
   default:
-    FATAL_ERROR("Unsupported intrinsic %s",
-                llvm::Intrinsic::getName(I->getIntrinsicID()).data());
+  {
+    // Intrinsics without a result (such as assumptions) do not use any value
+    if (I->getType()->isVoidTy())
+    {
+      break;
+    }
+
+    // TODO: bit-level accuracy
+    TypedValue newShadow = ShadowContext::getCleanValue(I);
+
+    for (const llvm::Use& arg : I->args())
+    {
+      TypedValue argShadow = shadowContext.getValue(workItem, arg.get());
+
+      if (argShadow.num == newShadow.num)
+      {
+        ShadowContext::shadowOr(newShadow, argShadow);
+      }
+      else if (!ShadowContext::isCleanValue(argShadow))
+      {
+        newShadow = ShadowContext::getPoisonedValue(I);
+      }
+    }
+
+    shadowContext.getShadowWorkItem(workItem)->getValues()->setValue(I,
+                                                                     newShadow);
+    break;
+  }
   }
 }
 
-- 
2.43.0


From 9816c7a510f7bdd4a042f0f83c402cb82d96d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 033/141] fix: track the definedness of every atomic built-in

The value size was assumed to be four bytes, the atom_* names and compare
and exchange were not recognised, and an exchange made the new value
depend on the old one.
---
 src/plugins/Uninitialized.cpp | 44 ++++++++++++++++++++---------------
 src/plugins/Uninitialized.h   |  3 ++-
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 318534a..f7dafff 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -350,26 +350,23 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     return true;
   }
-  else if (name.compare(0, 6, "atomic") == 0)
+  else if (name.compare(0, 7, "atomic_") == 0 ||
+           name.compare(0, 5, "atom_") == 0)
   {
-    if (name.compare(6, string::npos, "cmpxchg") == 0)
+    const string op = name.substr(name.find('_') + 1);
+
+    if (op == "cmpxchg")
     {
       const llvm::Value* Addr = CI->getArgOperand(0);
       unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
       size_t address = workItem->getOperand(Addr).getPointer();
-      uint32_t cmp = workItem->getOperand(CI->getArgOperand(1)).getUInt();
-      uint32_t old = workItem->getOperand(CI).getUInt();
+      uint64_t cmp = workItem->getOperand(CI->getArgOperand(1)).getUInt();
+      uint64_t old = result.getUInt();
       TypedValue argShadow =
         shadowContext.getValue(workItem, CI->getArgOperand(2));
       TypedValue cmpShadow =
         shadowContext.getValue(workItem, CI->getArgOperand(1));
-      TypedValue oldShadow = {4, 1, shadowContext.getMemoryPool()->alloc(4)};
-
-      // Check shadow of the condition
-      if (!ShadowContext::isCleanValue(cmpShadow))
-      {
-        logUninitializedCF();
-      }
+      TypedValue oldShadow = shadowContext.getMemoryPool()->clone(result);
 
       // Perform cmpxchg
       if (addrSpace == AddrSpaceGlobal)
@@ -391,6 +388,13 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
       shadowValues->setValue(CI, oldShadow);
 
+      // Check shadow of the condition
+      if (!ShadowContext::isCleanValue(cmpShadow) ||
+          !ShadowContext::isCleanValue(oldShadow))
+      {
+        logUninitializedCF();
+      }
+
       // Check shadow of address
       TypedValue addrShadow = shadowContext.getValue(workItem, Addr);
 
@@ -401,9 +405,9 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
       return true;
     }
-    else
+    else if (result.size)
     {
-      SimpleOrAtomic(workItem, CI);
+      SimpleOrAtomic(workItem, CI, op == "xchg", result);
       return true;
     }
   }
@@ -2065,15 +2069,16 @@ void Uninitialized::SimpleOr(const WorkItem* workItem,
 }
 
 void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
-                                   const llvm::CallInst* CI)
+                                   const llvm::CallInst* CI, bool exchange,
+                                   const TypedValue result)
 {
   const llvm::Value* Addr = CI->getArgOperand(0);
   unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
   size_t address = workItem->getOperand(Addr).getPointer();
 
-  TypedValue oldShadow = {4, 1, shadowContext.getMemoryPool()->alloc(4)};
+  TypedValue oldShadow = shadowContext.getMemoryPool()->clone(result);
 
-  TypedValue newShadow = ShadowContext::getCleanValue(4);
+  TypedValue newShadow = ShadowContext::getCleanValue(result);
 
   if (addrSpace == AddrSpaceGlobal)
   {
@@ -2082,9 +2087,10 @@ void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
 
   loadShadowMemory(addrSpace, address, oldShadow, workItem);
 
-  if (!ShadowContext::isCleanValue(oldShadow))
+  // The value stored by an exchange does not depend on the previous value
+  if (!exchange && !ShadowContext::isCleanValue(oldShadow))
   {
-    newShadow = ShadowContext::getPoisonedValue(4);
+    newShadow = ShadowContext::getPoisonedValue(result);
   }
 
   if (CI->arg_size() > 1)
@@ -2093,7 +2099,7 @@ void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
       shadowContext.getValue(workItem, CI->getArgOperand(1));
     if (!ShadowContext::isCleanValue(argShadow))
     {
-      newShadow = ShadowContext::getPoisonedValue(4);
+      newShadow = ShadowContext::getPoisonedValue(result);
     }
   }
 
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 0f341d0..130b4f1 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -326,7 +326,8 @@ private:
   void logUninitializedIndex() const;
   void logUninitializedWrite(unsigned int addrSpace, size_t address) const;
   void SimpleOr(const WorkItem* workItem, const llvm::Instruction* I);
-  void SimpleOrAtomic(const WorkItem* workItem, const llvm::CallInst* CI);
+  void SimpleOrAtomic(const WorkItem* workItem, const llvm::CallInst* CI,
+                      bool exchange, const TypedValue result);
   void storeShadowMemory(unsigned addrSpace, size_t address, TypedValue SM,
                          const WorkItem* workItem = NULL,
                          const WorkGroup* workGroup = NULL,
-- 
2.43.0


From 139d30baec1d0781883a39651e57d23463fbf291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 034/141] fix: recognise undefined elements of a vector shuffle

The mask was compared with the value identifier of undefined values,
which made a genuine index undefined and read before the source for the
undefined ones. The padding of 3-element vectors is not an element.
---
 src/plugins/Uninitialized.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index f7dafff..472bd43 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1686,12 +1686,14 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     for (unsigned i = 0; i < newShadow.num; i++)
     {
       int index = shuffleInst->getMaskValue(i);
-#if LLVM_VERSION >= 210
-      if (index == llvm::PoisonMaskElem)
-#else
-      if (index == llvm::Value::UndefValueVal)
-#endif
+      if (index < 0)
       {
+        // The fourth element of a widened 3-element vector is only padding
+        if (num == 3 && newShadow.num == 4 && i == 3)
+        {
+          continue;
+        }
+
         // Undef value are poisoned
         memcpy(newShadow.data + i * newShadow.size, pv.data, newShadow.size);
         continue;
-- 
2.43.0


From 26eb9211faeb47f97ac2b564e84f2195b4331075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 035/141] fix: track the definedness of bitwise operations bit
 by bit

---
 src/plugins/Uninitialized.cpp | 58 ++++++++++++++++++++++++++++-------
 src/plugins/Uninitialized.h   |  2 ++
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 472bd43..a7bd020 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -949,6 +949,50 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
   return false;
 }
 
+void Uninitialized::handleBitwiseInstruction(const WorkItem* workItem,
+                                             const llvm::Instruction* I)
+{
+  const llvm::Value* op0 = I->getOperand(0);
+  const llvm::Value* op1 = I->getOperand(1);
+  TypedValue v0 = workItem->getOperand(op0);
+  TypedValue v1 = workItem->getOperand(op1);
+  TypedValue s0 = shadowContext.getValue(workItem, op0);
+  TypedValue s1 = shadowContext.getValue(workItem, op1);
+  TypedValue newShadow = ShadowContext::getCleanValue(I);
+
+  unsigned bits = I->getType()->getScalarSizeInBits();
+  uint64_t mask = bits < 64 ? (1ULL << bits) - 1 : ~0ULL;
+
+  for (unsigned i = 0; i < newShadow.num; i++)
+  {
+    uint64_t shadow0 = s0.getUInt(i);
+    uint64_t shadow1 = s1.getUInt(i);
+    uint64_t shadow;
+
+    switch (I->getOpcode())
+    {
+    case llvm::Instruction::And:
+      // A defined zero bit makes the bit of the result defined
+      shadow = (shadow0 | v0.getUInt(i)) & (shadow1 | v1.getUInt(i)) &
+               (shadow0 | shadow1);
+      break;
+    case llvm::Instruction::Or:
+      // A defined one bit makes the bit of the result defined
+      shadow = (shadow0 | ~v0.getUInt(i)) & (shadow1 | ~v1.getUInt(i)) &
+               (shadow0 | shadow1);
+      break;
+    default:
+      shadow = shadow0 | shadow1;
+      break;
+    }
+
+    newShadow.setUInt(shadow & mask, i);
+  }
+
+  shadowContext.getShadowWorkItem(workItem)->getValues()->setValue(I,
+                                                                   newShadow);
+}
+
 void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
                                                const llvm::IntrinsicInst* I)
 {
@@ -1089,8 +1133,10 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     break;
   }
   case llvm::Instruction::And:
+  case llvm::Instruction::Or:
+  case llvm::Instruction::Xor:
   {
-    VectorOr(workItem, instruction);
+    handleBitwiseInstruction(workItem, instruction);
     break;
   }
   case llvm::Instruction::AShr:
@@ -1524,11 +1570,6 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     VectorOr(workItem, instruction);
     break;
   }
-  case llvm::Instruction::Or:
-  {
-    VectorOr(workItem, instruction);
-    break;
-  }
   case llvm::Instruction::PHI:
   {
     const llvm::PHINode* phiNode = (const llvm::PHINode*)instruction;
@@ -1795,11 +1836,6 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
   }
   case llvm::Instruction::Unreachable:
     FATAL_ERROR("Encountered unreachable instruction");
-  case llvm::Instruction::Xor:
-  {
-    VectorOr(workItem, instruction);
-    break;
-  }
   case llvm::Instruction::ZExt:
   {
     TypedValue shadow =
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 130b4f1..2add540 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -315,6 +315,8 @@ private:
                                 const WorkGroup* workGroup = NULL) const;
   bool handleBuiltinFunction(const WorkItem* workItem, std::string name,
                              const llvm::CallInst* CI, const TypedValue result);
+  void handleBitwiseInstruction(const WorkItem* workItem,
+                                const llvm::Instruction* I);
   void handleIntrinsicInstruction(const WorkItem* workItem,
                                   const llvm::IntrinsicInst* I);
   void loadShadowMemory(unsigned addrSpace, size_t address, TypedValue& SM,
-- 
2.43.0


From 7c0349c2766289f453034c1a02cb49a539646a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:53 +0000
Subject: [PATCH 036/141] fix: let all phi nodes of a block take their
 definedness at once

---
 src/plugins/Uninitialized.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index a7bd020..0be1528 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1572,12 +1572,26 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
   }
   case llvm::Instruction::PHI:
   {
-    const llvm::PHINode* phiNode = (const llvm::PHINode*)instruction;
-    const llvm::Value* value =
-      phiNode->getIncomingValueForBlock(workItem->getPreviousBlock());
-    TypedValue shadowValue = shadowContext.getValue(workItem, value);
+    // All phi nodes of a block take their values at once, so handle them
+    // together when reaching the first one
+    const llvm::BasicBlock* block = instruction->getParent();
+    if (instruction != &block->front())
+    {
+      break;
+    }
+
+    std::vector<std::pair<const llvm::PHINode*, TypedValue>> shadows;
+    for (const llvm::PHINode& phiNode : block->phis())
+    {
+      const llvm::Value* value =
+        phiNode.getIncomingValueForBlock(workItem->getPreviousBlock());
+      shadows.push_back({&phiNode, shadowContext.getValue(workItem, value)});
+    }
 
-    shadowValues->setValue(instruction, shadowValue);
+    for (auto& shadow : shadows)
+    {
+      shadowValues->setValue(shadow.first, shadow.second);
+    }
     break;
   }
   case llvm::Instruction::PtrToInt:
-- 
2.43.0


From 6f203be849fb84dac563dfc0d4775ee208c4703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 037/141] fix: let the definedness of shuffle follow the
 selected element

---
 src/plugins/Uninitialized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 0be1528..0f5fbda 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -551,7 +551,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       }
       else
       {
-        size_t srcOffset = (mask.getUInt(i) % shadow.size) * shadow.size;
+        size_t srcOffset = (mask.getUInt(i) % shadow.num) * shadow.size;
         memcpy(newShadow.data + i * newShadow.size, shadow.data + srcOffset,
                newShadow.size);
       }
-- 
2.43.0


From c827b38d8019ba0db3365d94bba31138130ed5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:16 +0000
Subject: [PATCH 038/141] fix: only let set elements define the result of any

---
 src/plugins/Uninitialized.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 0f5fbda..5c0ea57 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -618,16 +618,21 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       num = llvm::cast<llvm::FixedVectorType>(argType)->getNumElements();
     }
 
+    TypedValue value = workItem->getOperand(argOp);
+
     for (unsigned i = 0; i < num; ++i)
     {
-      if (ShadowContext::isCleanValue(shadow, i))
+      // A defined element which is set decides the result
+      if (ShadowContext::isCleanValue(shadow, i) && value.getSInt(i) < 0)
       {
         shadowValues->setValue(CI, ShadowContext::getCleanValue(result.size));
         return true;
       }
     }
 
-    shadowValues->setValue(CI, ShadowContext::getPoisonedValue(result.size));
+    shadowValues->setValue(CI, ShadowContext::isCleanValue(shadow)
+                                 ? ShadowContext::getCleanValue(result.size)
+                                 : ShadowContext::getPoisonedValue(result.size));
     return true;
   }
   else if (name == "select")
-- 
2.43.0


From 894546b684b95b438c0b5907e5fada8e20e84ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 039/141] fix: track vstore_half of doubles in the
 uninitialized plugin

---
 src/plugins/Uninitialized.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 5c0ea57..79f803d 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -726,14 +726,6 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
            name.compare(0, 12, "vstorea_half") == 0)
   {
     const llvm::Value* value = CI->getArgOperand(0);
-    unsigned size = getTypeSize(value->getType());
-
-    if (isVector3(value))
-    {
-      // 3-element vectors are same size as 4-element vectors,
-      // but vstore address offset shouldn't use this.
-      size = (size / 4) * 3;
-    }
 
     const llvm::Value* BaseOp = CI->getArgOperand(2);
     const llvm::Value* OffsetOp = CI->getArgOperand(1);
@@ -743,8 +735,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     // Convert to halfs
     TypedValue shadow = shadowContext.getValue(workItem, value);
-    unsigned num = size / sizeof(float);
-    size = num * sizeof(cl_half);
+    unsigned num = shadow.num;
     TypedValue halfShadow = {sizeof(cl_half), num,
                              shadowContext.getMemoryPool()->alloc(2 * num)};
 
-- 
2.43.0


From 896c2ad886749b3b37a319fea4068ee25db41a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 040/141] fix: take the padding of constant 3-element vectors
 as defined

---
 src/plugins/Uninitialized.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 79f803d..7db0065 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -2387,6 +2387,14 @@ TypedValue ShadowFrame::getValue(const llvm::Value* V) const
 
     for (unsigned i = 0; i < vecShadow.num; ++i)
     {
+      // Only the fourth element being undefined is how a 3-element vector,
+      // which has no such element, looks when it is widened for storing it
+      if (i == 3 && vecShadow.num == 4 &&
+          ShadowContext::isCleanValue(vecShadow))
+      {
+        break;
+      }
+
       elemShadow = getValue(VC->getAggregateElement(i));
       size_t offset = i * vecShadow.size;
       memcpy(vecShadow.data + offset, elemShadow.data, vecShadow.size);
-- 
2.43.0


From 74bd6aad58f8763a36658d17cfa90d2b2c37058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:41 +0000
Subject: [PATCH 041/141] fix: do not report the padding of asynchronously
 copied 3-element vectors

---
 src/plugins/Uninitialized.cpp | 16 ++++++++--------
 src/plugins/Uninitialized.h   |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 7db0065..fe1de60 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -109,7 +109,8 @@ void Uninitialized::copyShadowMemory(unsigned dstAddrSpace, size_t dst,
 void Uninitialized::copyShadowMemoryStrided(
   unsigned dstAddrSpace, size_t dst, unsigned srcAddrSpace, size_t src,
   size_t num, size_t dstStride, size_t srcStride, unsigned size,
-  const WorkItem* workItem, const WorkGroup* workGroup, bool unchecked)
+  const WorkItem* workItem, const WorkGroup* workGroup, bool unchecked,
+  unsigned padding)
 {
   TypedValue v = {size, 1, new unsigned char[size]};
 
@@ -117,8 +118,8 @@ void Uninitialized::copyShadowMemoryStrided(
   {
     loadShadowMemory(srcAddrSpace, src, v, workItem, workGroup);
     storeShadowMemory(dstAddrSpace, dst, v, workItem, workGroup, unchecked);
-    src += srcStride * size;
-    dst += dstStride * size;
+    src += srcStride * (size + padding);
+    dst += dstStride * (size + padding);
   }
 
   delete[] v.data;
@@ -207,10 +208,6 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     {
       char* typestr;
       vecwidth = strtol(paramTypes.c_str() + 8, &typestr, 10);
-      if (vecwidth == 3)
-      {
-        vecwidth = 4;
-      }
       ptrtype = typestr[1];
     }
     switch (ptrtype)
@@ -237,6 +234,8 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       FATAL_ERROR("Unsupported argument type: %c", ptrtype);
       break;
     }
+    // 3-element vectors are padded to the size of 4-element vectors
+    unsigned padding = (vecwidth == 3) ? elemSize : 0;
     elemSize *= vecwidth;
 
     const llvm::Value* numOp = CI->getArgOperand(arg++);
@@ -286,7 +285,8 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     }
 
     copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num,
-                            dstStride, srcStride, elemSize, workItem);
+                            dstStride, srcStride, elemSize, workItem, NULL,
+                            false, padding);
     shadowValues->setValue(CI, eventShadow);
 
     // Check shadow of src address
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 2add540..7486a25 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -307,7 +307,7 @@ private:
                                size_t dstStride, size_t srcStride, unsigned size,
                                const WorkItem* workItem = NULL,
                                const WorkGroup* workGroup = NULL,
-                               bool unchecked = false);
+                               bool unchecked = false, unsigned padding = 0);
   static std::string extractUnmangledName(const std::string fullname,
                                           std::string& paramTypes);
   ShadowMemory* getShadowMemory(unsigned addrSpace,
-- 
2.43.0


From f14c6738ad4a191cc6357a9c22cab46ccf69cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 042/141] fix: make room for the counts of functions called by
 other work-groups

Merging the calls of a work-group wrote past the end of the counts when
the groups had called more functions altogether than any one of them.
---
 src/plugins/InstructionCounter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index df6157b..93a79cc 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -242,6 +242,8 @@ void InstructionCounter::workGroupComplete(const WorkGroup* workGroup)
       {
         opcode = COUNTED_CALL_BASE + m_functions.size();
         m_functions.push_back(func);
+        if (opcode >= m_instructionCounts.size())
+          m_instructionCounts.resize(opcode + 1);
       }
       else
       {
-- 
2.43.0


From 1ee876297b5131cd11fb76e8a55f92a701a44e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 043/141] fix: evaluate the floating-point class test the
 optimiser emits

---
 src/core/WorkItemBuiltins.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d183746..ade8f69 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3777,6 +3777,37 @@ class WorkItemBuiltins
     }
   }
 
+  DEFINE_BUILTIN(llvm_is_fpclass)
+  {
+    // Test each element against the set of classes given by the second
+    // argument (see llvm::FPClassTest)
+    unsigned mask = UARGV(1, 0);
+    llvm::Type* type = ARG(0)->getType()->getScalarType();
+    unsigned bits = type->getPrimitiveSizeInBits();
+    unsigned mantissa = type->getFPMantissaWidth() - 1;
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      uint64_t x = UARGV(0, i);
+      uint64_t fraction = x & ((1ULL << mantissa) - 1);
+      uint64_t maxExponent = (1ULL << (bits - 1 - mantissa)) - 1;
+      uint64_t exponent = (x >> mantissa) & maxExponent;
+      bool negative = (x >> (bits - 1)) & 1;
+
+      unsigned cls;
+      if (exponent == maxExponent && fraction)
+        cls = (fraction >> (mantissa - 1)) ? llvm::fcQNan : llvm::fcSNan;
+      else if (exponent == maxExponent)
+        cls = negative ? llvm::fcNegInf : llvm::fcPosInf;
+      else if (exponent)
+        cls = negative ? llvm::fcNegNormal : llvm::fcPosNormal;
+      else if (fraction)
+        cls = negative ? llvm::fcNegSubnormal : llvm::fcPosSubnormal;
+      else
+        cls = negative ? llvm::fcNegZero : llvm::fcPosZero;
+      result.setUInt((cls & mask) != 0, i);
+    }
+  }
+
   DEFINE_BUILTIN(llvm_cmp)
   {
     bool sgn = fnName.compare(0, 9, "llvm.scmp") == 0;
@@ -4253,6 +4284,7 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_PREFIX_BUILTIN("llvm.fabs.", f1arg, F1ARG(fabs));
   ADD_PREFIX_BUILTIN("llvm.fshl.", llvm_funnel_shift, NULL);
   ADD_PREFIX_BUILTIN("llvm.fshr.", llvm_funnel_shift, NULL);
+  ADD_PREFIX_BUILTIN("llvm.is.fpclass.", llvm_is_fpclass, NULL);
   ADD_PREFIX_BUILTIN("llvm.lifetime.start", llvm_lifetime_start, NULL);
   ADD_PREFIX_BUILTIN("llvm.lifetime.end", llvm_lifetime_end, NULL);
   ADD_PREFIX_BUILTIN("llvm.experimental.noalias.scope.decl",
-- 
2.43.0


From 6b581e40cdaab601be15ca61535afd57f9ee59b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 044/141] fix: convert printf arguments to the types given by h
 and hh

---
 src/core/WorkItemBuiltins.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index ade8f69..4d6789f 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3522,9 +3522,15 @@ class WorkItemBuiltins
             continue;
           }
 
-          // Ignore all 'h' specifiers
+          // Ignore 'h' specifiers that are part of 'hl', which is only a hint
+          // about the type of a vector
           if (c == 'h')
-            continue;
+          {
+            char next;
+            memory->load((unsigned char*)&next, formatPtr);
+            if (next == 'l')
+              continue;
+          }
 
           format += c;
           bool done = false;
-- 
2.43.0


From 68426f0098ee7783559518777c1def9157333210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 045/141] fix: return zero from a successful printf

---
 src/core/WorkItemBuiltins.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 4d6789f..ba678a3 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3626,6 +3626,8 @@ class WorkItemBuiltins
         cout << c;
       }
     }
+
+    result.setSInt(0);
   }
 
   /////////////////////
-- 
2.43.0


From 129d33c25deb5cecb972c0c44c1e4dc5795e9094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 046/141] fix: read simulator files up to their very end

---
 src/kernel/Simulation.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 1c462da..2debb88 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -97,7 +97,10 @@ template <typename T> void Simulation::get(T& result)
 
     // Get next line
     string line;
-    getline(m_simfile, line);
+    if (!getline(m_simfile, line))
+    {
+      break;
+    }
     m_lineNumber++;
 
     // Remove comments
@@ -110,7 +113,7 @@ template <typename T> void Simulation::get(T& result)
     // Update line buffer
     m_lineBuffer.clear();
     m_lineBuffer.str(line);
-  } while (m_simfile.good());
+  } while (true);
 
   // Couldn't read data from file, throw exception
   throw m_simfile.eof() ? ifstream::eofbit : ifstream::failbit;
@@ -217,13 +220,22 @@ bool Simulation::load(const char* filename)
     }
 
     // Make sure there is no more input
+    PARSING("end of file");
     string next;
-    m_simfile >> next;
-    if (m_simfile.good() || !m_simfile.eof())
+    try
     {
-      cerr << "Unexpected token '" << next << "' (expected EOF)" << endl;
-      return false;
+      get(next);
     }
+    catch (ifstream::iostate e)
+    {
+      if (e == ifstream::eofbit)
+      {
+        return true;
+      }
+      throw;
+    }
+    cerr << "Unexpected token '" << next << "' (expected EOF)" << endl;
+    return false;
   }
   catch (const char* err)
   {
-- 
2.43.0


From 6bc94d1f913ebbdba2d5fed6f55accf26c6ce668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:28 +0000
Subject: [PATCH 047/141] fix: reject zero work-group sizes in simulator files

---
 src/kernel/Simulation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 2debb88..84bfe69 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -148,6 +148,10 @@ bool Simulation::load(const char* filename)
     get(m_wgsize.x);
     get(m_wgsize.y);
     get(m_wgsize.z);
+    if (!m_wgsize.x || !m_wgsize.y || !m_wgsize.z)
+    {
+      throw "Work-group size must not be zero";
+    }
 
     // Open program file
     ifstream progFile;
-- 
2.43.0


From 1a757b096cb2df5cfa10ae467e6e492cc5154bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 048/141] fix: reject argument sizes that cannot be allocated

---
 src/kernel/Simulation.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 84bfe69..e5c0bdb 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -247,6 +247,12 @@ bool Simulation::load(const char* filename)
          << endl;
     return false;
   }
+  catch (const bad_alloc& e)
+  {
+    cerr << "Line " << m_lineNumber << ": Failed to allocate memory ("
+         << m_parsing << ")" << endl;
+    return false;
+  }
   catch (ifstream::iostate e)
   {
     if (e == ifstream::eofbit)
@@ -423,8 +429,10 @@ void Simulation::parseArgument(size_t index)
         throw "Expected = after 'size'";
       }
 
+      value >> ws;
+      bool negative = value.peek() == '-';
       value >> dec >> size;
-      if (value.fail() || !value.eof())
+      if (value.fail() || !value.eof() || negative)
       {
         throw "Invalid value for 'size'";
       }
-- 
2.43.0


From c4e45934075bd446c5e69f498d65a31ab606d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 049/141] fix: check the size of arguments passed by value in
 simulator files

---
 src/kernel/Simulation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index e5c0bdb..8bc6700 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -507,6 +507,12 @@ void Simulation::parseArgument(size_t index)
     throw "Initialiser type must exactly divide argument size";
   }
 
+  // Ensure data for arguments passed by value has the right size
+  if (addrSpace == CL_KERNEL_ARG_ADDRESS_PRIVATE && size != argSize)
+  {
+    throw "Incorrect size for argument passed by value";
+  }
+
   // Ensure 'dump' only used with non-null buffers
   if (dump)
   {
-- 
2.43.0


From 29e18e01b2f3425cc46e2e656c962bb3b0b3f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:07 +0000
Subject: [PATCH 050/141] fix: reject negative sizes in simulator files

---
 src/kernel/Simulation.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 8bc6700..3448e9c 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -133,6 +133,16 @@ bool Simulation::load(const char* filename)
 
   try
   {
+    auto getSize = [&](size_t& result) {
+      int64_t value;
+      get(value);
+      if (value < 0)
+      {
+        throw "Size must not be negative";
+      }
+      result = value;
+    };
+
     // Read simulation parameters
     string progFileName;
     string kernelName;
@@ -141,13 +151,13 @@ bool Simulation::load(const char* filename)
     PARSING("kernel");
     get(kernelName);
     PARSING("NDRange");
-    get(m_ndrange.x);
-    get(m_ndrange.y);
-    get(m_ndrange.z);
+    getSize(m_ndrange.x);
+    getSize(m_ndrange.y);
+    getSize(m_ndrange.z);
     PARSING("work-group size");
-    get(m_wgsize.x);
-    get(m_wgsize.y);
-    get(m_wgsize.z);
+    getSize(m_wgsize.x);
+    getSize(m_wgsize.y);
+    getSize(m_wgsize.z);
     if (!m_wgsize.x || !m_wgsize.y || !m_wgsize.z)
     {
       throw "Work-group size must not be zero";
-- 
2.43.0


From db7aaa13b642b61104ba67e0575336b65aedc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 051/141] fix: reject header tokens that only begin with dump

---
 src/kernel/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 3448e9c..9330168 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -373,7 +373,7 @@ void Simulation::parseArgument(size_t index)
     MATCH_TYPE("ulong", TYPE_ULONG, 8)
     MATCH_TYPE("float", TYPE_FLOAT, 4)
     MATCH_TYPE("double", TYPE_DOUBLE, 8)
-    else if (token.compare(0, 4, "dump") == 0)
+    else if (token == "dump")
     {
       dump = true;
     }
-- 
2.43.0


From 76e30c8ac18fd118c3bf5188ec278f7c69c31661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 052/141] fix: keep the message for unrecognised header tokens
 alive

---
 src/kernel/Simulation.cpp | 7 +++----
 src/kernel/Simulation.h   | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 9330168..739c9d7 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -461,10 +461,9 @@ void Simulation::parseArgument(size_t index)
     }
     else
     {
-      string err = "Unrecognised header token '";
-      err += token;
-      err += "'";
-      throw err.c_str();
+      // The message must outlive this scope
+      m_error = "Unrecognised header token '" + token + "'";
+      throw m_error.c_str();
     }
   }
 
diff --git a/src/kernel/Simulation.h b/src/kernel/Simulation.h
index ac7bcc8..62a3fa3 100644
--- a/src/kernel/Simulation.h
+++ b/src/kernel/Simulation.h
@@ -54,6 +54,7 @@ private:
 
   std::ifstream m_simfile;
   std::string m_parsing;
+  std::string m_error;
   size_t m_lineNumber;
   std::istringstream m_lineBuffer;
 
-- 
2.43.0


From d87fba302965ef99781ab8cda914f7c82be9bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:28 +0000
Subject: [PATCH 053/141] fix: dump negative char values as two hexadecimal
 digits

---
 src/kernel/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 739c9d7..43daa67 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -60,7 +60,7 @@ template <typename T> void Simulation::dumpArgument(DumpArg& arg)
     if (arg.hex)
       cout << "0x" << setfill('0') << setw(sizeof(T) * 2) << hex;
     if (sizeof(T) == 1)
-      cout << (int)data[i];
+      cout << (arg.hex ? (uint8_t)data[i] : (int)data[i]);
     else
       cout << data[i];
     cout << dec;
-- 
2.43.0


From fb20292524e5a004b0a9b96f72b386280ab314ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:34 +0000
Subject: [PATCH 054/141] fix: read program files shorter than two bytes and
 refuse directories

---
 src/kernel/Simulation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 43daa67..42e9beb 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -175,6 +175,12 @@ bool Simulation::load(const char* filename)
     // Check for LLVM bitcode magic numbers
     char magic[2] = {0, 0};
     progFile.read(magic, 2);
+    if (progFile.bad())
+    {
+      cerr << "Unable to read " << progFileName << endl;
+      return false;
+    }
+    progFile.clear();
     if (magic[0] == 0x42 && magic[1] == 0x43)
     {
       // Load bitcode
-- 
2.43.0


From 9014055b4aa677de46aa32a21a54299ae9446cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 055/141] fix: pick the right texels for linear filtering
 without addressing

---
 src/core/WorkItemBuiltins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index ba678a3..988a898 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -942,8 +942,8 @@ class WorkItemBuiltins
     switch (sampler & CLK_ADDRESS_MASK)
     {
     case CLK_ADDRESS_NONE:
-      *c0 = floor(u);
-      *c1 = floor(u) + 1;
+      *c0 = floorf(u - 0.5f);
+      *c1 = floorf(u - 0.5f) + 1;
       return u;
     case CLK_ADDRESS_CLAMP_TO_EDGE:
       *c0 = _clamp_<int>(floorf(u - 0.5f), 0, size - 1);
-- 
2.43.0


From 3f521af0a94c108562900b0bc0f16ab38fa9b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 056/141] fix: use the pitches of host memory when creating
 images

---
 src/core/WorkItemBuiltins.cpp |  61 ++++++++------------
 src/runtime/runtime.cpp       | 103 ++++++++++++++++++++++++++++------
 2 files changed, 107 insertions(+), 57 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 988a898..bcc5ef9 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1061,6 +1061,19 @@ class WorkItemBuiltins
     return input;
   }
 
+  // Address of a pixel; the second coordinate of a 1D array may be its layer
+  static inline size_t getPixelAddress(const Image* image, size_t x, size_t y,
+                                       size_t z)
+  {
+    size_t pixelSize =
+      getChannelSize(image->format) * getNumChannels(image->format);
+    size_t yPitch = image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY
+                      ? image->desc.image_slice_pitch
+                      : image->desc.image_row_pitch;
+    return image->address + x * pixelSize + y * yPitch +
+           z * image->desc.image_slice_pitch;
+  }
+
   static inline float readNormalizedColor(const Image* image,
                                           WorkItem* workItem, int i, int j,
                                           int k, int layer, int c)
@@ -1088,14 +1101,8 @@ class WorkItemBuiltins
 
     // Calculate pixel address
     size_t channelSize = getChannelSize(image->format);
-    size_t numChannels = getNumChannels(image->format);
-    size_t pixelSize = channelSize * numChannels;
-    size_t address = image->address +
-                     (i + (j + (k + layer * image->desc.image_depth) *
-                                 image->desc.image_height) *
-                            image->desc.image_width) *
-                       pixelSize +
-                     channel * channelSize;
+    size_t address =
+      getPixelAddress(image, i, j, k + layer) + channel * channelSize;
 
     // Load channel data
     unsigned char* data = workItem->m_pool.alloc(channelSize);
@@ -1160,14 +1167,8 @@ class WorkItemBuiltins
 
     // Calculate pixel address
     size_t channelSize = getChannelSize(image->format);
-    size_t numChannels = getNumChannels(image->format);
-    size_t pixelSize = channelSize * numChannels;
-    size_t address = image->address +
-                     (i + (j + (k + layer * image->desc.image_depth) *
-                                 image->desc.image_height) *
-                            image->desc.image_width) *
-                       pixelSize +
-                     channel * channelSize;
+    size_t address =
+      getPixelAddress(image, i, j, k + layer) + channel * channelSize;
 
     // Load channel data
     unsigned char* data = workItem->m_pool.alloc(channelSize);
@@ -1224,14 +1225,8 @@ class WorkItemBuiltins
 
     // Calculate pixel address
     size_t channelSize = getChannelSize(image->format);
-    size_t numChannels = getNumChannels(image->format);
-    size_t pixelSize = channelSize * numChannels;
-    size_t address = image->address +
-                     (i + (j + (k + layer * image->desc.image_depth) *
-                                 image->desc.image_height) *
-                            image->desc.image_width) *
-                       pixelSize +
-                     channel * channelSize;
+    size_t address =
+      getPixelAddress(image, i, j, k + layer) + channel * channelSize;
 
     // Load channel data
     unsigned char* data = workItem->m_pool.alloc(channelSize);
@@ -1604,11 +1599,7 @@ class WorkItemBuiltins
 
     size_t channelSize = getChannelSize(image->format);
     size_t numChannels = getNumChannels(image->format);
-    size_t pixelSize = channelSize * numChannels;
-    size_t pixelAddress =
-      image->address +
-      (x + (y + z * image->desc.image_height) * image->desc.image_width) *
-        pixelSize;
+    size_t pixelAddress = getPixelAddress(image, x, y, z);
 
     // Generate channel values
     Memory* memory = workItem->getMemory(AddrSpaceGlobal);
@@ -1704,11 +1695,7 @@ class WorkItemBuiltins
 
     size_t channelSize = getChannelSize(image->format);
     size_t numChannels = getNumChannels(image->format);
-    size_t pixelSize = channelSize * numChannels;
-    size_t pixelAddress =
-      image->address +
-      (x + (y + z * image->desc.image_height) * image->desc.image_width) *
-        pixelSize;
+    size_t pixelAddress = getPixelAddress(image, x, y, z);
 
     // Generate channel values
     Memory* memory = workItem->getMemory(AddrSpaceGlobal);
@@ -1794,11 +1781,7 @@ class WorkItemBuiltins
 
     size_t channelSize = getChannelSize(image->format);
     size_t numChannels = getNumChannels(image->format);
-    size_t pixelSize = channelSize * numChannels;
-    size_t pixelAddress =
-      image->address +
-      (x + (y + z * image->desc.image_height) * image->desc.image_width) *
-        pixelSize;
+    size_t pixelAddress = getPixelAddress(image, x, y, z);
 
     // Generate channel values
     Memory* memory = workItem->getMemory(AddrSpaceGlobal);
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 6493693..06acc8d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1725,6 +1725,15 @@ bool isImageArray(cl_mem_object_type type)
   return false;
 }
 
+// Utility function for getting the distance between the elements of an image
+// along the second dimension of a region (the layers of a 1D image array)
+size_t getRegionRowPitch(const cl_image* image)
+{
+  return image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY
+           ? image->desc.image_slice_pitch
+           : image->desc.image_row_pitch;
+}
+
 cl_mem createImage(cl_context context, cl_mem_flags flags,
                    const cl_image_format* image_format,
                    const cl_image_desc* image_desc, void* host_ptr,
@@ -1773,8 +1782,65 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
     arraySize = image_desc->image_array_size;
   }
 
+  // Get pitches of the data in host memory
+  bool is1DArray = image_desc->image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY;
+  size_t rowPitch = image_desc->image_row_pitch;
+  size_t slicePitch = image_desc->image_slice_pitch;
+  if (!host_ptr && (rowPitch || slicePitch))
+  {
+    SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                 "Pitches must be 0 if host_ptr is NULL");
+    return NULL;
+  }
+  if (!rowPitch)
+  {
+    rowPitch = width * pixelSize;
+  }
+  if (!slicePitch || (dims == 1 && !is1DArray) ||
+      image_desc->image_type == CL_MEM_OBJECT_IMAGE2D)
+  {
+    slicePitch = rowPitch * height;
+  }
+  if (rowPitch < width * pixelSize || rowPitch % pixelSize ||
+      slicePitch < rowPitch * height || slicePitch % rowPitch)
+  {
+    SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                 "Invalid row or slice pitch");
+    return NULL;
+  }
+
   // Calculate total size of image
-  size_t size = width * height * depth * arraySize * pixelSize;
+  size_t imageRowPitch = width * pixelSize;
+  size_t imageSlicePitch = imageRowPitch * height;
+  size_t size = imageSlicePitch * depth * arraySize;
+  std::vector<unsigned char> packed;
+  if (flags & CL_MEM_USE_HOST_PTR)
+  {
+    // The image is accessed in place
+    imageRowPitch = rowPitch;
+    imageSlicePitch = slicePitch;
+    size = slicePitch * depth * arraySize;
+    if (image_desc->image_type == CL_MEM_OBJECT_IMAGE1D)
+    {
+      size = width * pixelSize;
+    }
+  }
+  else if ((flags & CL_MEM_COPY_HOST_PTR) && host_ptr &&
+           (rowPitch != imageRowPitch || slicePitch != imageSlicePitch))
+  {
+    // Remove padding from host data
+    packed.resize(size);
+    for (size_t z = 0; z < depth * arraySize; z++)
+    {
+      for (size_t y = 0; y < height; y++)
+      {
+        memcpy(packed.data() + z * imageSlicePitch + y * imageRowPitch,
+               (unsigned char*)host_ptr + z * slicePitch + y * rowPitch,
+               imageRowPitch);
+      }
+    }
+    host_ptr = packed.data();
+  }
 
   cl_mem mem;
 
@@ -1801,7 +1867,6 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   else
   {
     // Create buffer
-    // TODO: Use pitches
     mem = createBuffer(context, flags, size, host_ptr, errcode_ret);
     if (!mem)
     {
@@ -1819,6 +1884,8 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   image->desc.image_height = height;
   image->desc.image_depth = depth;
   image->desc.image_array_size = arraySize;
+  image->desc.image_row_pitch = imageRowPitch;
+  image->desc.image_slice_pitch = imageSlicePitch;
   image->refCount = 1;
   if (image_desc->image_type != CL_MEM_OBJECT_IMAGE1D_BUFFER)
   {
@@ -4436,8 +4503,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   size_t depth = img->desc.image_depth;
   size_t arraySize = img->desc.image_array_size;
   size_t pixelSize = getPixelSize(&img->format);
-  size_t row_pitch = width * pixelSize;
-  size_t slice_pitch = height * row_pitch;
+  size_t row_pitch = getRegionRowPitch(img);
+  size_t slice_pitch = img->desc.image_slice_pitch;
 
   if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
     height = arraySize;
@@ -4606,8 +4673,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   size_t pixel_region[3] = {region[0] * pixelSize, region[1], region[2]};
   size_t host_origin[3] = {0, 0, 0};
 
-  size_t img_row_pitch = img->desc.image_width * pixelSize;
-  size_t img_slice_pitch = img->desc.image_height * img_row_pitch;
+  size_t img_row_pitch = getRegionRowPitch(img);
+  size_t img_slice_pitch = img->desc.image_slice_pitch;
   if (row_pitch == 0)
   {
     row_pitch = pixel_region[0];
@@ -4660,8 +4727,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   size_t pixel_region[3] = {region[0] * pixelSize, region[1], region[2]};
   size_t host_origin[3] = {0, 0, 0};
 
-  size_t img_row_pitch = img->desc.image_width * pixelSize;
-  size_t img_slice_pitch = img->desc.image_height * img_row_pitch;
+  size_t img_row_pitch = getRegionRowPitch(img);
+  size_t img_slice_pitch = img->desc.image_slice_pitch;
   if (input_row_pitch == 0)
   {
     input_row_pitch = pixel_region[0];
@@ -4735,10 +4802,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
                                 dst_origin[2]};
   size_t pixel_region[3] = {region[0] * srcPixelSize, region[1], region[2]};
 
-  size_t src_row_pitch = src->desc.image_width * srcPixelSize;
-  size_t src_slice_pitch = src->desc.image_height * src_row_pitch;
-  size_t dst_row_pitch = dst->desc.image_width * dstPixelSize;
-  size_t dst_slice_pitch = dst->desc.image_height * dst_row_pitch;
+  size_t src_row_pitch = getRegionRowPitch(src);
+  size_t src_slice_pitch = src->desc.image_slice_pitch;
+  size_t dst_row_pitch = getRegionRowPitch(dst);
+  size_t dst_slice_pitch = dst->desc.image_slice_pitch;
 
   // Enqueue copy
   cl_int ret = clEnqueueCopyBufferRect(
@@ -4784,8 +4851,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   size_t pixel_size = getPixelSize(&src->format);
   size_t src_pixel_origin[3] = {src_origin[0] * pixel_size, src_origin[1],
                                 src_origin[2]};
-  size_t src_row_pitch = src->desc.image_width * pixel_size;
-  size_t src_slice_pitch = src->desc.image_height * src_row_pitch;
+  size_t src_row_pitch = getRegionRowPitch(src);
+  size_t src_slice_pitch = src->desc.image_slice_pitch;
 
   size_t pixel_region[3] = {region[0] * pixel_size, region[1], region[2]};
   size_t dst_origin[3] = {dst_offset, 0, 0};
@@ -4834,8 +4901,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   size_t pixel_size = getPixelSize(&dst->format);
   size_t dst_pixel_origin[3] = {dst_origin[0] * pixel_size, dst_origin[1],
                                 dst_origin[2]};
-  size_t dst_row_pitch = dst->desc.image_width * pixel_size;
-  size_t dst_slice_pitch = dst->desc.image_height * dst_row_pitch;
+  size_t dst_row_pitch = getRegionRowPitch(dst);
+  size_t dst_slice_pitch = dst->desc.image_slice_pitch;
 
   size_t pixel_region[3] = {region[0] * pixel_size, region[1], region[2]};
   size_t src_origin[3] = {src_offset, 0, 0};
@@ -4996,8 +5063,8 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   size_t depth = img->desc.image_depth;
   size_t arraySize = img->desc.image_array_size;
   size_t pixelSize = getPixelSize(&img->format);
-  size_t row_pitch = width * pixelSize;
-  size_t slice_pitch = height * row_pitch;
+  size_t row_pitch = getRegionRowPitch(img);
+  size_t slice_pitch = img->desc.image_slice_pitch;
 
   if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
     height = arraySize;
-- 
2.43.0


From cf870f2d9a94b9386157a74f9f812b6724988a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 057/141] fix: report a slice pitch of zero for images without
 slices

---
 src/runtime/runtime.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 06acc8d..cf2df91 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1725,6 +1725,13 @@ bool isImageArray(cl_mem_object_type type)
   return false;
 }
 
+// Utility function for checking whether an image has several slices
+bool hasSlices(const cl_image* image)
+{
+  return isImageArray(image->desc.image_type) ||
+         image->desc.image_type == CL_MEM_OBJECT_IMAGE3D;
+}
+
 // Utility function for getting the distance between the elements of an image
 // along the second dimension of a region (the layers of a 1D image array)
 size_t getRegionRowPitch(const cl_image* image)
@@ -2280,7 +2287,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetImageInfo(
     break;
   case CL_IMAGE_SLICE_PITCH:
     result_size = sizeof(size_t);
-    result_data.sizet = img->desc.image_slice_pitch;
+    result_data.sizet = hasSlices(img) ? img->desc.image_slice_pitch : 0;
     break;
   case CL_IMAGE_WIDTH:
     result_size = sizeof(size_t);
@@ -5109,10 +5116,10 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     return NULL;
   }
 
-  *image_row_pitch = row_pitch;
+  *image_row_pitch = img->desc.image_row_pitch;
   if (image_slice_pitch)
   {
-    *image_slice_pitch = slice_pitch;
+    *image_slice_pitch = hasSlices(img) ? img->desc.image_slice_pitch : 0;
   }
 
   // Enqueue command
-- 
2.43.0


From 876f5d498d5fcca975bbc421bcd4bdb60fb6de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 058/141] fix: use the slice pitch when transferring 1D image
 arrays

---
 src/runtime/runtime.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index cf2df91..9b5f8de 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4686,6 +4686,17 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   {
     row_pitch = pixel_region[0];
   }
+  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY && slice_pitch != 0)
+  {
+    // The second dimension of the region selects slices
+    if (row_pitch < pixel_region[0] || slice_pitch < row_pitch)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                      "Row or slice pitch smaller than region");
+    }
+    row_pitch = slice_pitch;
+    slice_pitch = 0;
+  }
   if (slice_pitch == 0)
   {
     slice_pitch = pixel_region[1] * row_pitch;
@@ -4740,6 +4751,19 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   {
     input_row_pitch = pixel_region[0];
   }
+  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY &&
+      input_slice_pitch != 0)
+  {
+    // The second dimension of the region selects slices
+    if (input_row_pitch < pixel_region[0] ||
+        input_slice_pitch < input_row_pitch)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                      "Row or slice pitch smaller than region");
+    }
+    input_row_pitch = input_slice_pitch;
+    input_slice_pitch = 0;
+  }
   if (input_slice_pitch == 0)
   {
     input_slice_pitch = pixel_region[1] * input_row_pitch;
-- 
2.43.0


From 99004d536afda0ca52271c8bf8b5c8da66336c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 059/141] fix: check that the regions of image commands lie
 within the image

---
 src/runtime/runtime.cpp | 155 ++++++++++++++++++++++------------------
 1 file changed, 87 insertions(+), 68 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 9b5f8de..f6fbf1c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1741,6 +1741,42 @@ size_t getRegionRowPitch(const cl_image* image)
            : image->desc.image_row_pitch;
 }
 
+// Utility function for checking that a region lies within an image
+cl_int checkImageRegion(cl_context context, const cl_image* image,
+                        const size_t* origin, const size_t* region)
+{
+  if (!origin || !region)
+  {
+    ReturnErrorInfo(context, CL_INVALID_VALUE,
+                    "origin and region cannot be NULL");
+  }
+
+  size_t limit[3] = {image->desc.image_width, image->desc.image_height,
+                     image->desc.image_depth};
+  if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+    limit[1] = image->desc.image_array_size;
+  if (image->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
+    limit[2] = image->desc.image_array_size;
+
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (region[i] == 0)
+    {
+      ReturnErrorInfo(context, CL_INVALID_VALUE,
+                      "Values in region cannot be 0");
+    }
+    if (region[i] > limit[i] || origin[i] > limit[i] - region[i])
+    {
+      ReturnErrorInfo(context, CL_INVALID_VALUE,
+                      "origin[" << i << "] + region[" << i
+                                << "] exceeds image size (" << origin[i]
+                                << " + " << region[i] << " > " << limit[i]
+                                << ")");
+    }
+  }
+  return CL_SUCCESS;
+}
+
 cl_mem createImage(cl_context context, cl_mem_flags flags,
                    const cl_image_format* image_format,
                    const cl_image_desc* image_desc, void* host_ptr,
@@ -4491,11 +4527,6 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, fill_color);
   }
-  if (!region[0] || !region[1] || !region[2])
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "Values in region cannot be 0");
-  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -4503,42 +4534,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     return err;
   }
 
-  // Get image dimensions
+  // Get image layout
   cl_image* img = (cl_image*)image;
-  size_t width = img->desc.image_width;
-  size_t height = img->desc.image_height;
-  size_t depth = img->desc.image_depth;
-  size_t arraySize = img->desc.image_array_size;
   size_t pixelSize = getPixelSize(&img->format);
   size_t row_pitch = getRegionRowPitch(img);
   size_t slice_pitch = img->desc.image_slice_pitch;
 
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
-    height = arraySize;
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
-    depth = arraySize;
-
   // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[0] + region[0] > width ("
-                      << origin[0] << " + " << region[0] << " > " << width
-                      << " )");
-  }
-  if (origin[1] + region[1] > height)
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[1] + region[1] > height ("
-                      << origin[1] << " + " << region[1] << " > " << height
-                      << " )");
-  }
-  if (origin[2] + region[2] > depth)
+  if (auto err =
+        checkImageRegion(command_queue->context, img, origin, region);
+      err != CL_SUCCESS)
   {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[2] + region[2] > depth ("
-                      << origin[2] << " + " << region[2] << " > " << depth
-                      << " )");
+    return err;
   }
 
   // Generate color data with correct order and data type
@@ -4674,6 +4681,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   }
 
   cl_image* img = (cl_image*)image;
+  if (auto err =
+        checkImageRegion(command_queue->context, img, origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
 
   size_t pixelSize = getPixelSize(&img->format);
   size_t buffer_origin[3] = {origin[0] * pixelSize, origin[1], origin[2]};
@@ -4739,6 +4752,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   }
 
   cl_image* img = (cl_image*)image;
+  if (auto err =
+        checkImageRegion(command_queue->context, img, origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
 
   size_t pixelSize = getPixelSize(&img->format);
   size_t buffer_origin[3] = {origin[0] * pixelSize, origin[1], origin[2]};
@@ -4824,6 +4843,19 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
     return err;
   }
 
+  if (auto err =
+        checkImageRegion(command_queue->context, src, src_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+  if (auto err =
+        checkImageRegion(command_queue->context, dst, dst_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
   size_t srcPixelSize = getPixelSize(&src->format);
   size_t dstPixelSize = getPixelSize(&dst->format);
 
@@ -4879,6 +4911,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   }
 
   cl_image* src = (cl_image*)src_image;
+  if (auto err =
+        checkImageRegion(command_queue->context, src, src_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
   size_t pixel_size = getPixelSize(&src->format);
   size_t src_pixel_origin[3] = {src_origin[0] * pixel_size, src_origin[1],
                                 src_origin[2]};
@@ -4929,6 +4967,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   }
 
   cl_image* dst = (cl_image*)dst_image;
+  if (auto err =
+        checkImageRegion(command_queue->context, dst, dst_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
   size_t pixel_size = getPixelSize(&dst->format);
   size_t dst_pixel_origin[3] = {dst_origin[0] * pixel_size, dst_origin[1],
                                 dst_origin[2]};
@@ -5071,11 +5115,6 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "Image flags specify host will not read data");
     return NULL;
   }
-  if (!region[0] || !region[1] || !region[2])
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "Values in region cannot be 0");
-  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -5087,42 +5126,22 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     return nullptr;
   }
 
-  // Get image dimensions
+  // Get image layout
   cl_image* img = (cl_image*)image;
-  size_t width = img->desc.image_width;
-  size_t height = img->desc.image_height;
-  size_t depth = img->desc.image_depth;
-  size_t arraySize = img->desc.image_array_size;
   size_t pixelSize = getPixelSize(&img->format);
   size_t row_pitch = getRegionRowPitch(img);
   size_t slice_pitch = img->desc.image_slice_pitch;
 
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
-    height = arraySize;
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
-    depth = arraySize;
-
   // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[0] + region[0] > width ("
-                   << origin[0] << " + " << region[0] << " > " << width
-                   << " )");
-  }
-  if (origin[1] + region[1] > height)
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[1] + region[1] > height ("
-                   << origin[1] << " + " << region[1] << " > " << height
-                   << " )");
-  }
-  if (origin[2] + region[2] > depth)
+  if (auto err =
+        checkImageRegion(command_queue->context, img, origin, region);
+      err != CL_SUCCESS)
   {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[2] + region[2] > depth ("
-                   << origin[2] << " + " << region[2] << " > " << depth
-                   << " )");
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return nullptr;
   }
 
   // Compute byte offset and size
-- 
2.43.0


From 195377fbf2fbfc41187d948565837a4a23c920c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 060/141] fix: saturate signed normalised fill colours
 correctly

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f6fbf1c..1e95476 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4601,7 +4601,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     {
     case CL_SNORM_INT8:
       ((int8_t*)color)[output] =
-        rint(min(max(((float*)fill_color)[input] * 127.f, -127.f), 128.f));
+        rint(min(max(((float*)fill_color)[input] * 127.f, -128.f), 127.f));
       break;
     case CL_UNORM_INT8:
       ((uint8_t*)color)[output] =
-- 
2.43.0


From 9fe21038f966ec33fee6532e87844d9203f95c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 061/141] fix: saturate integer fill colours

---
 src/runtime/runtime.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 1e95476..190dac4 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4623,19 +4623,23 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
         cl_half_from_float(((float*)fill_color)[input], CL_HALF_RTE);
       break;
     case CL_SIGNED_INT8:
-      ((int8_t*)color)[output] = ((int32_t*)fill_color)[input];
+      ((int8_t*)color)[output] =
+        min(max(((int32_t*)fill_color)[input], -128), 127);
       break;
     case CL_SIGNED_INT16:
-      ((int16_t*)color)[output] = ((int32_t*)fill_color)[input];
+      ((int16_t*)color)[output] =
+        min(max(((int32_t*)fill_color)[input], -32768), 32767);
       break;
     case CL_SIGNED_INT32:
       ((int32_t*)color)[output] = ((int32_t*)fill_color)[input];
       break;
     case CL_UNSIGNED_INT8:
-      ((uint8_t*)color)[output] = ((uint32_t*)fill_color)[input];
+      ((uint8_t*)color)[output] =
+        min(((uint32_t*)fill_color)[input], 255u);
       break;
     case CL_UNSIGNED_INT16:
-      ((uint16_t*)color)[output] = ((uint32_t*)fill_color)[input];
+      ((uint16_t*)color)[output] =
+        min(((uint32_t*)fill_color)[input], 65535u);
       break;
     case CL_UNSIGNED_INT32:
       ((uint32_t*)color)[output] = ((uint32_t*)fill_color)[input];
-- 
2.43.0


From 71c4ab9abb2b218bfc5a0f5ddd2dc2b0a52c4f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 062/141] fix: execute commands only once everything they wait
 for has finished

---
 src/core/Queue.cpp      | 124 ++++++++++++++++++++++++++--------------
 src/core/Queue.h        |  15 ++++-
 src/runtime/runtime.cpp |  25 ++++----
 3 files changed, 103 insertions(+), 61 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 1b603b6..35f4e53 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -171,49 +171,102 @@ bool Queue::isEmpty() const
   return m_queue.empty();
 }
 
-void Queue::execute(Command* command, bool flush)
+Command* Queue::findReady(Command* command, unsigned long visit) const
 {
-  // Find command in queue
-  auto it = std::find(m_queue.begin(), m_queue.end(), command);
-
-  // If there is a previous (older) command in the queue AND either the queue
-  // is not out of order OR needs to be flushed, then add event associated with
-  // previous (older) command as a dependency
-  if (it != m_queue.begin() && (!m_out_of_order || flush))
+  // Skip commands that are already running, and those visited before
+  if (command->event->state <= CL_RUNNING || command->visited == visit)
   {
-    command->waitList.push_back((*std::prev(it))->event);
+    return NULL;
   }
+  command->visited = visit;
 
-  // Make sure all events in the wait list are complete before executing
-  // current command
-  while (!command->waitList.empty())
+  // Commands in an in-order queue wait for all previous (older) commands
+  if (!m_out_of_order && m_queue.front() != command)
   {
-    Event* evt = command->waitList.front();
-    command->waitList.pop_front();
+    return findReady(m_queue.front(), visit);
+  }
 
+  // The command can terminate as soon as an event in its wait list has failed
+  for (const Event* evt : command->waitList)
+  {
     if (evt->state < 0)
     {
-      command->event->state = evt->state;
-      m_queue.erase(it);
-      return;
+      return command;
     }
-    else if (evt->state != CL_COMPLETE)
+  }
+
+  // Look for a command that this one waits for
+  bool ready = true;
+  for (const Event* evt : command->waitList)
+  {
+    if (evt->state == CL_COMPLETE)
     {
-      if (evt->command)
-      {
-        // If it's not a user event, execute the associated command
-        evt->queue->execute(evt->command, flush);
-        command->execBefore.push_front(evt->command);
-      }
-      else
+      continue;
+    }
+    ready = false;
+
+    // User events do not have a command
+    if (evt->command)
+    {
+      if (Command* cmd = evt->queue->findReady(evt->command, visit))
       {
-        // If it's a user event then place it back at the of the wait list, and
-        // check it later
-        command->waitList.push_back(evt);
+        return cmd;
       }
     }
   }
 
+  return ready ? command : NULL;
+}
+
+// Used to identify commands that have been visited by a search
+static unsigned long g_numVisits = 0;
+
+Command* Queue::executeNext()
+{
+  unsigned long visit = ++g_numVisits;
+  for (Command* command : m_queue)
+  {
+    if (Command* ready = findReady(command, visit))
+    {
+      ready->event->queue->execute(ready);
+      return ready;
+    }
+
+    // Remaining commands wait for this one
+    if (!m_out_of_order)
+    {
+      break;
+    }
+  }
+  return NULL;
+}
+
+Command* Queue::executeNext(Event* event)
+{
+  Command* ready = event->queue->findReady(event->command, ++g_numVisits);
+  if (ready)
+  {
+    ready->event->queue->execute(ready);
+  }
+  return ready;
+}
+
+void Queue::execute(Command* command)
+{
+  // Find command in queue
+  auto it = std::find(m_queue.begin(), m_queue.end(), command);
+
+  // Terminate command if an event in its wait list has failed
+  for (const Event* evt : command->waitList)
+  {
+    if (evt->state < 0)
+    {
+      command->event->state = evt->state;
+      m_queue.erase(it);
+      return;
+    }
+  }
+
   // Dispatch command
   command->event->startTime = now();
   command->event->state = CL_RUNNING;
@@ -268,18 +321,3 @@ void Queue::execute(Command* command, bool flush)
   // Remove command from its queue
   m_queue.erase(it);
 }
-
-Command* Queue::finish()
-{
-  if (m_queue.empty())
-  {
-    return NULL;
-  }
-
-  // Get most recent command in queue and execute it, triggering the execution
-  // of all previous commands even if it's an out-of-order queue
-  Command* cmd = m_queue.back();
-  execute(cmd, true);
-
-  return cmd;
-}
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 16eedb7..0f4df89 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -46,15 +46,16 @@ struct Command
 
   CommandType type;
   std::list<Event*> waitList;
-  std::list<Command*> execBefore;
   Command()
   {
     type = EMPTY;
+    visited = 0;
   }
   virtual ~Command() {}
 
 private:
   Event* event;
+  unsigned long visited;
   friend class Queue;
 };
 struct BufferCommand : Command
@@ -206,7 +207,13 @@ public:
   virtual ~Queue();
 
   Event* enqueue(Command* command);
-  void execute(Command* command, bool flush);
+
+  // Execute one command that does not have to wait for anything, and return it
+  // (or NULL if there is no such command).
+  // This is a command from the queue or one that the queue's commands wait for.
+  Command* executeNext();
+  // This is the command of an event, or one that it waits for.
+  static Command* executeNext(Event* event);
 
   void executeCopyBuffer(CopyCommand* cmd);
   void executeCopyBufferRect(CopyRectCommand* cmd);
@@ -222,9 +229,11 @@ public:
   void executeWriteBufferRect(BufferRectCommand* cmd);
 
   bool isEmpty() const;
-  Command* finish();
 
 private:
+  void execute(Command* command);
+  Command* findReady(Command* command, unsigned long visit) const;
+
   const Context* m_context;
   const bool m_out_of_order;
   std::list<Command*> m_queue;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 190dac4..0ca9812 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -163,14 +163,6 @@ void releaseCommand(oclgrind::Command* command)
   {
     asyncQueueRelease(command);
 
-    // Release dependent commands
-    while (!command->execBefore.empty())
-    {
-      oclgrind::Command* cmd = command->execBefore.front();
-      command->execBefore.pop_front();
-      releaseCommand(cmd);
-    }
-
     delete command;
   }
 }
@@ -3611,9 +3603,7 @@ CL_API_ENTRY cl_int CL_API_CALL clWaitForEvents(
       // If it's not a user event, execute the associated command
       if (event_list[i]->queue)
       {
-        oclgrind::Command* cmd = event_list[i]->event->command;
-        event_list[i]->event->queue->execute(cmd, false);
-        releaseCommand(cmd);
+        releaseCommand(oclgrind::Queue::executeNext(event_list[i]->event));
 
         // If it's still not complete, update flag
         if (!isComplete(event_list[i]))
@@ -3909,8 +3899,11 @@ CL_API_ENTRY cl_int CL_API_CALL clFlush(cl_command_queue command_queue)
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
 
-  // TODO: Implement properly?
-  clFinish(command_queue);
+  // Execute all commands that are not waiting for user events
+  while (oclgrind::Command* cmd = command_queue->queue->executeNext())
+  {
+    releaseCommand(cmd);
+  }
 
   return CL_SUCCESS;
 }
@@ -3927,8 +3920,10 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
   }
 
   // TODO: Move this finish to async thread?
-  oclgrind::Command* cmd = command_queue->queue->finish();
-  releaseCommand(cmd);
+  while (!command_queue->queue->isEmpty())
+  {
+    releaseCommand(command_queue->queue->executeNext());
+  }
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From 297be673b1c1f7c9feb052696df2204e7cd186b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 063/141] fix: make markers and barriers in out-of-order queues
 wait for previous commands

---
 src/core/Queue.cpp      | 42 +++++++++++++++++++++++++++++++++++++++--
 src/core/Queue.h        |  6 ++++++
 src/runtime/runtime.cpp | 23 ++++++++++++++++++++++
 3 files changed, 69 insertions(+), 2 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 35f4e53..15cf59d 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -20,7 +20,7 @@ using namespace oclgrind;
 using namespace std;
 
 Queue::Queue(const Context* context, bool out_of_order)
-    : m_context(context), m_out_of_order(out_of_order)
+    : m_context(context), m_out_of_order(out_of_order), m_numBarriers(0)
 {
 }
 
@@ -40,6 +40,10 @@ Event* Queue::enqueue(Command* cmd)
   event->command = cmd;
   event->queue = this;
   m_queue.push_back(cmd);
+  if (cmd->barrier)
+  {
+    m_numBarriers++;
+  }
   return event;
 }
 
@@ -186,6 +190,31 @@ Command* Queue::findReady(Command* command, unsigned long visit) const
     return findReady(m_queue.front(), visit);
   }
 
+  // Commands in an out-of-order queue wait for previous barriers
+  if (m_out_of_order && (command->waitForAll || m_numBarriers))
+  {
+    bool wait = false;
+    for (Command* prev : m_queue)
+    {
+      if (prev == command)
+      {
+        break;
+      }
+      if (command->waitForAll || prev->barrier)
+      {
+        wait = true;
+        if (Command* cmd = findReady(prev, visit))
+        {
+          return cmd;
+        }
+      }
+    }
+    if (wait)
+    {
+      return NULL;
+    }
+  }
+
   // The command can terminate as soon as an event in its wait list has failed
   for (const Event* evt : command->waitList)
   {
@@ -262,7 +291,7 @@ void Queue::execute(Command* command)
     if (evt->state < 0)
     {
       command->event->state = evt->state;
-      m_queue.erase(it);
+      remove(it);
       return;
     }
   }
@@ -319,5 +348,14 @@ void Queue::execute(Command* command)
   command->event->state = CL_COMPLETE;
 
   // Remove command from its queue
+  remove(it);
+}
+
+void Queue::remove(list<Command*>::iterator it)
+{
+  if ((*it)->barrier)
+  {
+    m_numBarriers--;
+  }
   m_queue.erase(it);
 }
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 0f4df89..77c88f2 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -46,9 +46,13 @@ struct Command
 
   CommandType type;
   std::list<Event*> waitList;
+  bool waitForAll; // Wait for all previous commands in the queue
+  bool barrier;    // Subsequent commands in the queue wait for this one
   Command()
   {
     type = EMPTY;
+    waitForAll = false;
+    barrier = false;
     visited = 0;
   }
   virtual ~Command() {}
@@ -233,9 +237,11 @@ public:
 private:
   void execute(Command* command);
   Command* findReady(Command* command, unsigned long visit) const;
+  void remove(std::list<Command*>::iterator it);
 
   const Context* m_context;
   const bool m_out_of_order;
   std::list<Command*> m_queue;
+  unsigned m_numBarriers;
 };
 } // namespace oclgrind
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 0ca9812..3a48f80 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5514,6 +5514,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMarkerWithWaitList(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->waitForAll = (num_events_in_wait_list == 0);
   asyncEnqueue(command_queue, CL_COMMAND_MARKER, cmd, num_events_in_wait_list,
                event_wait_list, event);
 
@@ -5540,6 +5541,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueBarrierWithWaitList(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->waitForAll = (num_events_in_wait_list == 0);
+  cmd->barrier = true;
   asyncEnqueue(command_queue, CL_COMMAND_BARRIER, cmd, num_events_in_wait_list,
                event_wait_list, event);
 
@@ -5575,8 +5578,28 @@ clEnqueueWaitForEvents(cl_command_queue command_queue, cl_uint num_events,
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
 
+  if (!num_events || !event_list)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "num_events cannot be 0, event_list cannot be NULL");
+  }
+  for (unsigned i = 0; i < num_events; i++)
+  {
+    if (!event_list[i])
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_EVENT,
+                      "Event " << i << " is NULL");
+    }
+    if (event_list[i]->context != command_queue->context)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_CONTEXT,
+                      "Event " << i << " is from a different context");
+    }
+  }
+
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->barrier = true;
   asyncEnqueue(command_queue, CL_COMMAND_BARRIER, cmd, num_events, event_list,
                NULL);
 
-- 
2.43.0


From b7032c76b01746ae0723f7e480be6b981e56b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 064/141] fix: make blocking commands wait for their own
 completion and return its status

---
 src/runtime/runtime.cpp | 103 +++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 50 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 3a48f80..f236042 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3928,6 +3928,35 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
   return CL_SUCCESS;
 }
 
+namespace
+{
+// Enqueue a command, and wait for it to complete if it is blocking
+cl_int enqueueCommand(cl_command_queue queue, cl_command_type type,
+                      oclgrind::Command* cmd, cl_bool blocking,
+                      cl_uint numEvents, const cl_event* waitList,
+                      cl_event* eventOut)
+{
+  cl_event event;
+  asyncEnqueue(queue, type, cmd, numEvents, waitList, &event);
+
+  cl_int err = CL_SUCCESS;
+  if (blocking)
+  {
+    err = clWaitForEvents(1, &event);
+  }
+
+  if (eventOut && err == CL_SUCCESS)
+  {
+    *eventOut = event;
+  }
+  else
+  {
+    clReleaseEvent(event);
+  }
+  return err;
+}
+} // namespace
+
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   cl_command_queue command_queue, cl_mem buffer, cl_bool blocking_read,
   size_t offset, size_t cb, void* ptr, cl_uint num_events_in_wait_list,
@@ -3974,15 +4003,9 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   cmd->address = buffer->address + offset;
   cmd->size = cb;
   asyncQueueRetain(cmd, buffer);
-  asyncEnqueue(command_queue, CL_COMMAND_READ_BUFFER, cmd,
-               num_events_in_wait_list, event_wait_list, event);
-
-  if (blocking_read)
-  {
-    return clFinish(command_queue);
-  }
-
-  return CL_SUCCESS;
+  return enqueueCommand(command_queue, CL_COMMAND_READ_BUFFER, cmd,
+                        blocking_read, num_events_in_wait_list, event_wait_list,
+                        event);
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
@@ -4080,15 +4103,9 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
   cmd->host_offset[2] = host_slice_pitch;
   memcpy(cmd->region, region, 3 * sizeof(size_t));
   asyncQueueRetain(cmd, buffer);
-  asyncEnqueue(command_queue, CL_COMMAND_READ_BUFFER_RECT, cmd,
-               num_events_in_wait_list, event_wait_list, event);
-
-  if (blocking_read)
-  {
-    return clFinish(command_queue);
-  }
-
-  return CL_SUCCESS;
+  return enqueueCommand(command_queue, CL_COMMAND_READ_BUFFER_RECT, cmd,
+                        blocking_read, num_events_in_wait_list, event_wait_list,
+                        event);
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
@@ -4137,15 +4154,9 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   cmd->address = buffer->address + offset;
   cmd->size = cb;
   asyncQueueRetain(cmd, buffer);
-  asyncEnqueue(command_queue, CL_COMMAND_WRITE_BUFFER, cmd,
-               num_events_in_wait_list, event_wait_list, event);
-
-  if (blocking_write)
-  {
-    return clFinish(command_queue);
-  }
-
-  return CL_SUCCESS;
+  return enqueueCommand(command_queue, CL_COMMAND_WRITE_BUFFER, cmd,
+                        blocking_write, num_events_in_wait_list,
+                        event_wait_list, event);
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
@@ -4243,15 +4254,9 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
   cmd->host_offset[2] = host_slice_pitch;
   memcpy(cmd->region, region, 3 * sizeof(size_t));
   asyncQueueRetain(cmd, buffer);
-  asyncEnqueue(command_queue, CL_COMMAND_WRITE_BUFFER_RECT, cmd,
-               num_events_in_wait_list, event_wait_list, event);
-
-  if (blocking_write)
-  {
-    return clFinish(command_queue);
-  }
-
-  return CL_SUCCESS;
+  return enqueueCommand(command_queue, CL_COMMAND_WRITE_BUFFER_RECT, cmd,
+                        blocking_write, num_events_in_wait_list,
+                        event_wait_list, event);
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
@@ -5063,16 +5068,15 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   cmd->size = cb;
   cmd->flags = map_flags;
   asyncQueueRetain(cmd, buffer);
-  asyncEnqueue(command_queue, CL_COMMAND_MAP_BUFFER, cmd,
-               num_events_in_wait_list, event_wait_list, event);
+  cl_int err = enqueueCommand(command_queue, CL_COMMAND_MAP_BUFFER, cmd,
+                              blocking_map, num_events_in_wait_list,
+                              event_wait_list, event);
 
-  SetError(command_queue->context, CL_SUCCESS);
-  if (blocking_map)
+  if (errcode_ret)
   {
-    SetError(command_queue->context, clFinish(command_queue));
+    *errcode_ret = err;
   }
-
-  return ptr;
+  return err == CL_SUCCESS ? ptr : NULL;
 }
 
 CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
@@ -5171,16 +5175,15 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   cmd->size = size;
   cmd->flags = map_flags;
   asyncQueueRetain(cmd, image);
-  asyncEnqueue(command_queue, CL_COMMAND_MAP_IMAGE, cmd,
-               num_events_in_wait_list, event_wait_list, event);
+  cl_int err = enqueueCommand(command_queue, CL_COMMAND_MAP_IMAGE, cmd,
+                              blocking_map, num_events_in_wait_list,
+                              event_wait_list, event);
 
-  SetError(command_queue->context, CL_SUCCESS);
-  if (blocking_map)
+  if (errcode_ret)
   {
-    SetError(command_queue->context, clFinish(command_queue));
+    *errcode_ret = err;
   }
-
-  return ptr;
+  return err == CL_SUCCESS ? ptr : NULL;
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueUnmapMemObject(
-- 
2.43.0


From 98b9ae9478dbc0a312f0b36442ee4453359f8de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:19 +0000
Subject: [PATCH 065/141] fix: only provide profiling information that is
 available

---
 src/runtime/runtime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f236042..2175193 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3841,7 +3841,9 @@ CL_API_ENTRY cl_int CL_API_CALL clGetEventProfilingInfo(
   {
     ReturnErrorArg(NULL, CL_INVALID_EVENT, event);
   }
-  if (!event->queue)
+  if (!event->queue ||
+      !(event->queue->properties & CL_QUEUE_PROFILING_ENABLE) ||
+      event->event->state != CL_COMPLETE)
   {
     ReturnError(event->context, CL_PROFILING_INFO_NOT_AVAILABLE);
   }
-- 
2.43.0


From 9c47b13a5fe814661e2ffe5d14f1c707a14154ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 066/141] fix: report the command type of clEnqueueTask

---
 src/runtime/runtime.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2175193..9f67f75 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5406,9 +5406,14 @@ clEnqueueTask(cl_command_queue command_queue, cl_kernel kernel,
   REGISTER_API;
 
   size_t work = 1;
-  return clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &work, &work,
-                                num_events_in_wait_list, event_wait_list,
-                                event);
+  cl_int ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &work,
+                                      &work, num_events_in_wait_list,
+                                      event_wait_list, event);
+  if (event && ret == CL_SUCCESS)
+  {
+    (*event)->type = CL_COMMAND_TASK;
+  }
+  return ret;
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueNativeKernel(
-- 
2.43.0


From 9519acb9e938214fd11d022e8294f17c587d35b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 067/141] fix: call event callbacks that are registered after
 completion

---
 src/runtime/runtime.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 9f67f75..799fe4c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3825,7 +3825,15 @@ clSetEventCallback(cl_event event, cl_int command_exec_callback_type,
                    command_exec_callback_type);
   }
 
-  event->callbacks.push_back(make_pair(pfn_notify, user_data));
+  // Commands are only reported to be submitted or running when they complete
+  if (isComplete(event))
+  {
+    pfn_notify(event, event->event->state, user_data);
+  }
+  else
+  {
+    event->callbacks.push_back(make_pair(pfn_notify, user_data));
+  }
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From 9002a88d9a63ec00ce44df8d03f96fff04341f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 068/141] fix: initialise pointers inside program-scope arrays
 and structures

---
 src/core/Program.cpp | 18 +++++-------------
 src/core/common.cpp  | 20 +++++++++++++++-----
 src/core/common.h    |  7 +++++--
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index a1d03f6..3c0ae4c 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -200,19 +200,11 @@ void Program::allocateProgramScopeVars()
       const llvm::Constant* initializer = var->getInitializer();
 
       size_t varptr = itr->second.getPointer();
-      if (initializer->getType()->getTypeID() == llvm::Type::PointerTyID)
-      {
-        size_t ptr = resolveConstantPointer(initializer, m_programScopeVars);
-        globalMemory->store((uint8_t*)&ptr, varptr, sizeof(size_t));
-      }
-      else
-      {
-        size_t size = getTypeSize(initializer->getType());
-        uint8_t* data = new uint8_t[size];
-        getConstantData((uint8_t*)data, (const llvm::Constant*)initializer);
-        globalMemory->store(data, varptr, size);
-        delete[] data;
-      }
+      size_t size = getTypeSize(initializer->getType());
+      uint8_t* data = new uint8_t[size];
+      getConstantData(data, initializer, &m_programScopeVars);
+      globalMemory->store(data, varptr, size);
+      delete[] data;
     }
   }
   catch (const FatalError& err)
diff --git a/src/core/common.cpp b/src/core/common.cpp
index 32cf74b..3cb4e06 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -346,7 +346,8 @@ const char* getAddressSpaceName(unsigned addrSpace)
   }
 }
 
-void getConstantData(unsigned char* data, const llvm::Constant* constant)
+void getConstantData(unsigned char* data, const llvm::Constant* constant,
+                     const TypedValueMap* addresses)
 {
   if (constant->getValueID() == llvm::Value::UndefValueVal)
   {
@@ -408,7 +409,8 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
     unsigned elemSize = getTypeSize(elemType);
     for (unsigned i = 0; i < num; i++)
     {
-      getConstantData(data + i * elemSize, constant->getAggregateElement(i));
+      getConstantData(data + i * elemSize, constant->getAggregateElement(i),
+                      addresses);
     }
     break;
   }
@@ -419,12 +421,18 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
     unsigned elemSize = getTypeSize(elemType);
     for (unsigned i = 0; i < num; i++)
     {
-      getConstantData(data + i * elemSize, constant->getAggregateElement(i));
+      getConstantData(data + i * elemSize, constant->getAggregateElement(i),
+                      addresses);
     }
     break;
   }
   case llvm::Type::PointerTyID:
   {
+    if (addresses)
+    {
+      *(size_t*)data = resolveConstantPointer(constant, *addresses);
+      break;
+    }
     if (constant->getValueID() != llvm::Value::ConstantPointerNullVal)
     {
       FATAL_ERROR("Unsupported constant pointer value: %d",
@@ -439,7 +447,8 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
     for (unsigned i = 0; i < num; i++)
     {
       unsigned offset = getStructMemberOffset((const llvm::StructType*)type, i);
-      getConstantData(data + offset, constant->getAggregateElement(i));
+      getConstantData(data + offset, constant->getAggregateElement(i),
+                      addresses);
     }
     break;
   }
@@ -849,7 +858,8 @@ void printTypedData(const llvm::Type* type, const unsigned char* data)
   }
 }
 
-size_t resolveConstantPointer(const llvm::Value* ptr, TypedValueMap& values)
+size_t resolveConstantPointer(const llvm::Value* ptr,
+                              const TypedValueMap& values)
 {
   if (values.count(ptr))
   {
diff --git a/src/core/common.h b/src/core/common.h
index 40de694..62cb288 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -169,7 +169,9 @@ void dumpInstruction(std::ostream& out, const llvm::Instruction* instruction);
 const char* getAddressSpaceName(unsigned addrSpace);
 
 // Retrieve the raw data for a constant
-void getConstantData(unsigned char* data, const llvm::Constant* constant);
+// Pointers to other variables are only supported if their addresses are given
+void getConstantData(unsigned char* data, const llvm::Constant* constant,
+                     const TypedValueMap* addresses = NULL);
 
 // Creates an instruction from a constant expression
 llvm::Instruction* getConstExprAsInstruction(const llvm::ConstantExpr* expr);
@@ -202,7 +204,8 @@ double now();
 void printTypedData(const llvm::Type* type, const unsigned char* data);
 
 // Resolve a constant pointer, using a set of known constant values
-size_t resolveConstantPointer(const llvm::Value* ptr, TypedValueMap& values);
+size_t resolveConstantPointer(const llvm::Value* ptr,
+                              const TypedValueMap& values);
 
 // Resolve a GEP from a base address and list of offsets
 size_t resolveGEP(size_t base, const llvm::Type* sourceElementType,
-- 
2.43.0


From 8f6b282347da3f55abd2d2d829a4f391d386f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:46 +0000
Subject: [PATCH 069/141] fix: keep the attribute string alive while it is
 copied

---
 src/runtime/runtime.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 799fe4c..f150b05 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3361,6 +3361,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     cl_program program;
   } result_data;
   const char* str = 0;
+  string attributes;
 
   switch (param_name)
   {
@@ -3385,8 +3386,9 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     result_data.program = kernel->program;
     break;
   case CL_KERNEL_ATTRIBUTES:
-    result_size = kernel->kernel->getAttributes().size() + 1;
-    str = kernel->kernel->getAttributes().c_str();
+    attributes = kernel->kernel->getAttributes();
+    result_size = attributes.size() + 1;
+    str = attributes.c_str();
     break;
   default:
     ReturnErrorArg(kernel->program->context, CL_INVALID_VALUE, param_name);
-- 
2.43.0


From 27135195d581167d4a34d29eca94e41f3e339ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 070/141] fix: do not take local variables of kernels with a
 longer name

---
 src/core/Kernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 84af079..9a76c74 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -51,7 +51,7 @@ Kernel::Kernel(const Program* program, const llvm::Function* function,
     case AddrSpaceLocal:
     {
       // Check that local memory variable belongs to this kernel
-      if (!itr->getName().starts_with(m_name))
+      if (!itr->getName().starts_with(m_name + "."))
         continue;
 
       // Get size of allocation
-- 
2.43.0


From 33df7e58899a0ab32e183187bbf4926588628421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 071/141] fix: report the OpenCL type of vec_type_hint
 attributes

---
 src/core/Kernel.cpp | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 9a76c74..0507659 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -356,12 +356,40 @@ string Kernel::getAttributes() const
       type = vecType->getElementType();
     }
 
+    // Get name of scalar type
+    string name;
+    if (type->isIntegerTy())
+    {
+      bool isSigned = getMDAsConstInt(node->getOperand(1))->getZExtValue();
+      name = isSigned ? "" : "u";
+      switch (type->getIntegerBitWidth())
+      {
+      case 8:
+        name += "char";
+        break;
+      case 16:
+        name += "short";
+        break;
+      case 32:
+        name += "int";
+        break;
+      default:
+        name += "long";
+        break;
+      }
+    }
+    else
+    {
+      llvm::raw_string_ostream out(name);
+      type->print(out);
+      out.flush();
+    }
+
     // Generate attribute string
-    attributes << "vec_type_hint(" << flush;
-    llvm::raw_os_ostream out(attributes);
-    type->print(out);
-    out.flush();
-    attributes << n << ") ";
+    attributes << "vec_type_hint(" << name;
+    if (n > 1)
+      attributes << n;
+    attributes << ") ";
   }
 
   return attributes.str();
-- 
2.43.0


From 5c49222a635dd362302c5a2ee6e06c0362ad516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 072/141] fix: refuse invalid kernel argument values

---
 src/core/Kernel.cpp     | 12 +++++++++
 src/core/Kernel.h       |  1 +
 src/runtime/runtime.cpp | 60 ++++++++++++++++++++++++++++++++++-------
 3 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 0507659..6219549 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -440,6 +440,18 @@ void Kernel::getRequiredWorkGroupSize(size_t reqdWorkGroupSize[3]) const
   }
 }
 
+bool Kernel::isImageArgument(unsigned int index) const
+{
+  // The base type is the one behind any typedefs
+  const llvm::Metadata* md = getArgumentMetadata("kernel_arg_base_type", index);
+  if (!md)
+  {
+    return false;
+  }
+  llvm::StringRef name = llvm::dyn_cast<llvm::MDString>(md)->getString();
+  return name.starts_with("image") && name.ends_with("_t");
+}
+
 bool Kernel::requiresUniformWorkGroups() const
 {
   return m_requiresUniformWorkGroups;
diff --git a/src/core/Kernel.h b/src/core/Kernel.h
index 51e5479..fc84f89 100644
--- a/src/core/Kernel.h
+++ b/src/core/Kernel.h
@@ -50,6 +50,7 @@ public:
   unsigned int getNumArguments() const;
   const Program* getProgram() const;
   void getRequiredWorkGroupSize(size_t reqdWorkGroupSize[3]) const;
+  bool isImageArgument(unsigned int index) const;
   bool requiresUniformWorkGroups() const;
   void setArgument(unsigned int index, TypedValue value);
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f150b05..90212fe 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3268,6 +3268,57 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
                                    << " bytes");
   }
 
+  if (isSampler)
+  {
+    if (!arg_value || !*(cl_sampler*)arg_value)
+    {
+      ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
+    }
+    if (arg_size != sizeof(cl_sampler))
+    {
+      ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
+    }
+  }
+  bool isImage = kernel->kernel->isImageArgument(arg_index);
+
+  // Check value is valid
+  switch (addr)
+  {
+  case CL_KERNEL_ARG_ADDRESS_PRIVATE:
+    if (!isSampler && !arg_value)
+    {
+      ReturnErrorArg(kernel->program->context, CL_INVALID_ARG_VALUE, arg_value);
+    }
+    break;
+  case CL_KERNEL_ARG_ADDRESS_LOCAL:
+    if (arg_value)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_VALUE,
+                      "arg_value must be NULL for local memory arguments");
+    }
+    if (!arg_size)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_SIZE,
+                      "arg_size is 0 for a local memory argument");
+    }
+    break;
+  case CL_KERNEL_ARG_ADDRESS_GLOBAL:
+  case CL_KERNEL_ARG_ADDRESS_CONSTANT:
+    if (isImage && (!arg_value || !*(cl_mem*)arg_value))
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_MEM_OBJECT,
+                      "Image argument is NULL");
+    }
+    if (arg_value && *(cl_mem*)arg_value &&
+        (*(cl_mem*)arg_value)->isImage != isImage)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_MEM_OBJECT,
+                      "Argument should be " << (isImage ? "an image"
+                                                        : "a buffer"));
+    }
+    break;
+  }
+
   // Prepare argument value
   oclgrind::TypedValue value;
   value.data = new unsigned char[arg_size];
@@ -3278,15 +3329,6 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
   case CL_KERNEL_ARG_ADDRESS_PRIVATE:
     if (isSampler)
     {
-      if (!arg_value)
-      {
-        ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
-        return CL_INVALID_SAMPLER;
-      }
-      if (arg_size != sizeof(cl_sampler))
-      {
-        ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
-      }
       memcpy(value.data, &(*(cl_sampler*)arg_value)->sampler, 4);
     }
     else
-- 
2.43.0


From 5254ebcfab96b53a3ec1e96f3decca27ffe17a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:50 +0000
Subject: [PATCH 073/141] fix: recognise sampler arguments declared through a
 typedef

---
 src/core/Kernel.cpp     | 10 +++++++++-
 src/core/Kernel.h       |  1 +
 src/runtime/runtime.cpp |  3 +--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 6219549..335aeb6 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -452,6 +452,14 @@ bool Kernel::isImageArgument(unsigned int index) const
   return name.starts_with("image") && name.ends_with("_t");
 }
 
+bool Kernel::isSamplerArgument(unsigned int index) const
+{
+  // The base type is the one behind any typedefs
+  const llvm::Metadata* md = getArgumentMetadata("kernel_arg_base_type", index);
+  return md &&
+         llvm::dyn_cast<llvm::MDString>(md)->getString() == "sampler_t";
+}
+
 bool Kernel::requiresUniformWorkGroups() const
 {
   return m_requiresUniformWorkGroups;
@@ -469,7 +477,7 @@ void Kernel::setArgument(unsigned int index, TypedValue value)
     delete[] m_values[argument].data;
   }
 
-  if (getArgumentTypeName(index).str() == "sampler_t")
+  if (isSamplerArgument(index))
   {
     // Get an llvm::ConstantInt that represents the sampler value
     llvm::Type* i32 = llvm::Type::getInt32Ty(m_program->getLLVMContext());
diff --git a/src/core/Kernel.h b/src/core/Kernel.h
index fc84f89..367d3d4 100644
--- a/src/core/Kernel.h
+++ b/src/core/Kernel.h
@@ -51,6 +51,7 @@ public:
   const Program* getProgram() const;
   void getRequiredWorkGroupSize(size_t reqdWorkGroupSize[3]) const;
   bool isImageArgument(unsigned int index) const;
+  bool isSamplerArgument(unsigned int index) const;
   bool requiresUniformWorkGroups() const;
   void setArgument(unsigned int index, TypedValue value);
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 90212fe..dfb9de1 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3256,8 +3256,7 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
   }
 
   unsigned int addr = kernel->kernel->getArgumentAddressQualifier(arg_index);
-  bool isSampler =
-    kernel->kernel->getArgumentTypeName(arg_index) == "sampler_t";
+  bool isSampler = kernel->kernel->isSamplerArgument(arg_index);
 
   if (kernel->kernel->getArgumentSize(arg_index) != arg_size && !isSampler &&
       addr != CL_KERNEL_ARG_ADDRESS_LOCAL)
-- 
2.43.0


From e80888e07f2bc382710e31811a891a36355ee130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 074/141] fix: do not share image arguments between a kernel
 and its clone

---
 src/runtime/runtime.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index dfb9de1..cddf64b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -6258,19 +6258,17 @@ CL_API_ENTRY cl_kernel CL_API_CALL clCloneKernel(
   kernel->dispatch = m_dispatchTable;
   kernel->kernel = new oclgrind::Kernel(*source_kernel->kernel);
   kernel->program = source_kernel->program;
-  kernel->memArgs = source_kernel->memArgs;
-  for (auto src_img : source_kernel->imageArgs)
-  {
-    oclgrind::Image* image = new oclgrind::Image;
-    image->address = src_img->address;
-    image->format = src_img->format;
-    image->desc = src_img->desc;
-    kernel->imageArgs.push_back(image);
-  }
   kernel->refCount = 1;
 
   clRetainProgram(kernel->program);
 
+  // Set memory object arguments again, as image arguments point to a structure
+  // that belongs to the source kernel
+  for (auto& arg : source_kernel->memArgs)
+  {
+    clSetKernelArg(kernel, arg.first, sizeof(cl_mem), &arg.second);
+  }
+
   SetError(nullptr, CL_SUCCESS);
   return kernel;
 }
-- 
2.43.0


From 74d750e7a0883115148f692c9d6a946694601672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:51 +0000
Subject: [PATCH 075/141] fix: only create kernels from programs that have an
 executable

---
 src/core/Program.cpp    |  8 ++++++++
 src/core/Program.h      |  1 +
 src/runtime/runtime.cpp | 12 +++++++++---
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 3c0ae4c..09f67f7 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -279,6 +279,8 @@ bool Program::build(BuildType buildType, const char* options,
   if (m_source.empty() && m_module)
   {
     m_buildStatus = CL_BUILD_SUCCESS;
+    m_binaryType = CL_PROGRAM_BINARY_TYPE_EXECUTABLE;
+    setBinaryType(*m_module, m_binaryType);
 
     allocateProgramScopeVars();
 
@@ -910,6 +912,12 @@ size_t Program::getTotalProgramScopeVarSize() const
   return m_totalProgramScopeVarSize;
 }
 
+bool Program::hasExecutable() const
+{
+  return m_buildStatus == CL_BUILD_SUCCESS && m_module &&
+         m_binaryType == CL_PROGRAM_BINARY_TYPE_EXECUTABLE;
+}
+
 unsigned long Program::getUID() const
 {
   return m_uid;
diff --git a/src/core/Program.h b/src/core/Program.h
index 0270c74..73df42f 100644
--- a/src/core/Program.h
+++ b/src/core/Program.h
@@ -66,6 +66,7 @@ public:
   size_t getNumSourceLines() const;
   const TypedValue& getProgramScopeVar(const llvm::Value* var) const;
   size_t getTotalProgramScopeVarSize() const;
+  bool hasExecutable() const;
   unsigned long getUID() const;
 
 private:
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index cddf64b..fd20333 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2933,7 +2933,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramInfo(
   }
   if ((param_name == CL_PROGRAM_NUM_KERNELS ||
        param_name == CL_PROGRAM_KERNEL_NAMES) &&
-      program->program->getBuildStatus() != CL_BUILD_SUCCESS)
+      !program->program->hasExecutable())
   {
     ReturnErrorInfo(program->context, CL_INVALID_PROGRAM_EXECUTABLE,
                     "Program not successfully built");
@@ -3112,7 +3112,7 @@ clCreateKernel(cl_program program, const char* kernel_name,
   REGISTER_API;
 
   // Check parameters
-  if (program->dispatch != m_dispatchTable)
+  if (!program || program->dispatch != m_dispatchTable)
   {
     SetError(NULL, CL_INVALID_PROGRAM);
     return NULL;
@@ -3122,6 +3122,12 @@ clCreateKernel(cl_program program, const char* kernel_name,
     SetErrorArg(program->context, CL_INVALID_VALUE, kernel_name);
     return NULL;
   }
+  if (!program->program->hasExecutable())
+  {
+    SetErrorInfo(program->context, CL_INVALID_PROGRAM_EXECUTABLE,
+                 "Program not built");
+    return NULL;
+  }
 
   // Create kernel object
   cl_kernel kernel = new _cl_kernel;
@@ -3154,7 +3160,7 @@ CL_API_ENTRY cl_int CL_API_CALL clCreateKernelsInProgram(
   {
     ReturnErrorArg(NULL, CL_INVALID_PROGRAM, program);
   }
-  if (program->program->getBuildStatus() != CL_BUILD_SUCCESS)
+  if (!program->program->hasExecutable())
   {
     ReturnErrorInfo(program->context, CL_INVALID_PROGRAM_EXECUTABLE,
                     "Program not built");
-- 
2.43.0


From 0caaf2700601cde142c044354b30dc44ed2a03bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:04 +0000
Subject: [PATCH 076/141] fix: report failed compilations as such, after
 notifying the application

---
 src/runtime/runtime.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fd20333..6422e60 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2828,10 +2828,8 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
   }
 
   // Build program
-  if (!program->program->build(oclgrind::Program::COMPILE, options, headers))
-  {
-    ReturnError(program->context, CL_BUILD_PROGRAM_FAILURE);
-  }
+  bool success =
+    program->program->build(oclgrind::Program::COMPILE, options, headers);
 
   // Fire callback
   if (pfn_notify)
@@ -2839,6 +2837,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
     pfn_notify(program, user_data);
   }
 
+  if (!success)
+  {
+    ReturnError(program->context, CL_COMPILE_PROGRAM_FAILURE);
+  }
+
   return CL_SUCCESS;
 }
 
-- 
2.43.0


From f0bccbea5a1797995f7614c15be082075229eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:24 +0000
Subject: [PATCH 077/141] fix: initialize the binary type of programs created
 from source

---
 src/core/Program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 09f67f7..e16ba09 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -138,6 +138,7 @@ Program::Program(const Context* context, const string& source)
   m_buildLog = "";
   m_buildOptions = "";
   m_buildStatus = CL_BUILD_NONE;
+  m_binaryType = CL_PROGRAM_BINARY_TYPE_NONE;
   m_uid = 0;
   m_totalProgramScopeVarSize = 0;
 
-- 
2.43.0


From 7e1b71bd6de7751bfe7948ada3183d3d68aaf369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 078/141] fix: report link errors instead of exiting

---
 src/core/Program.cpp    | 51 +++++++++++++++++++++++++++++++++--------
 src/core/Program.h      |  2 +-
 src/runtime/runtime.cpp |  7 +++---
 3 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index e16ba09..ffae3c3 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -20,6 +20,9 @@
 #include "llvm/IR/AssemblyAnnotationWriter.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/DerivedTypes.h"
+#include "llvm/IR/DiagnosticHandler.h"
+#include "llvm/IR/DiagnosticInfo.h"
+#include "llvm/IR/DiagnosticPrinter.h"
 #include "llvm/IR/InstIterator.h"
 #include "llvm/IR/InstrTypes.h"
 #include "llvm/IR/Instructions.h"
@@ -93,6 +96,25 @@ void setBinaryType(llvm::Module& mod, cl_program_binary_type type)
   md->clearOperands();
   md->addOperand(binaryTypeMD);
 }
+
+// Appends diagnostics to a string
+struct DiagnosticCollector : public llvm::DiagnosticHandler
+{
+  DiagnosticCollector(string& log) : log(log) {}
+
+  bool handleDiagnostics(const llvm::DiagnosticInfo& info) override
+  {
+    llvm::raw_string_ostream stream(log);
+    llvm::DiagnosticPrinterRawOStream printer(stream);
+    stream << llvm::LLVMContext::getDiagnosticMessagePrefix(info.getSeverity())
+           << ": ";
+    info.print(printer);
+    stream << "\n";
+    return true;
+  }
+
+  string& log;
+};
 } // namespace
 
 Program::Program(const Context* context, llvm::Module* module)
@@ -703,21 +725,32 @@ Program* Program::createFromBitcodeFile(const Context* context,
 
 Program* Program::createFromPrograms(const Context* context,
                                      list<const Program*> programs,
-                                     const char* options)
+                                     const char* options, string& log)
 {
-  llvm::Module* module =
-    new llvm::Module("oclgrind_linked", *context->getLLVMContext());
+  llvm::LLVMContext& llvmContext = *context->getLLVMContext();
+  unique_ptr<llvm::Module> module(
+    new llvm::Module("oclgrind_linked", llvmContext));
   llvm::Linker linker(*module);
 
+  // Collect linker errors, as the default handler would exit the application
+  unique_ptr<llvm::DiagnosticHandler> handler =
+    llvmContext.getDiagnosticHandler();
+  llvmContext.setDiagnosticHandler(
+    std::make_unique<DiagnosticCollector>(log));
+
   // Link modules
+  bool failed = false;
   list<const Program*>::iterator itr;
-  for (itr = programs.begin(); itr != programs.end(); itr++)
+  for (itr = programs.begin(); itr != programs.end() && !failed; itr++)
   {
     unique_ptr<llvm::Module> m = llvm::CloneModule(*(*itr)->m_module);
-    if (linker.linkInModule(std::move(m)))
-    {
-      return NULL;
-    }
+    failed = linker.linkInModule(std::move(m));
+  }
+
+  llvmContext.setDiagnosticHandler(std::move(handler));
+  if (failed)
+  {
+    return NULL;
   }
 
   // Set program binary type
@@ -728,7 +761,7 @@ Program* Program::createFromPrograms(const Context* context,
   }
   setBinaryType(*module, binaryType);
 
-  return new Program(context, module);
+  return new Program(context, module.release());
 }
 
 Kernel* Program::createKernel(const string name)
diff --git a/src/core/Program.h b/src/core/Program.h
index 73df42f..d8ad0a2 100644
--- a/src/core/Program.h
+++ b/src/core/Program.h
@@ -44,7 +44,7 @@ public:
                                         const std::string filename);
   static Program* createFromPrograms(const Context* context,
                                      std::list<const Program*>,
-                                     const char* options);
+                                     const char* options, std::string& log);
 
   bool build(BuildType buildType, const char* options,
              std::list<Header> headers = std::list<Header>());
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 6422e60..59bc0ab 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2894,13 +2894,14 @@ clLinkProgram(cl_context context, cl_uint num_devices,
   // Create program object
   cl_program prog = new _cl_program;
   prog->dispatch = m_dispatchTable;
-  prog->program =
-    oclgrind::Program::createFromPrograms(context->context, programs, options);
+  std::string log;
+  prog->program = oclgrind::Program::createFromPrograms(context->context,
+                                                        programs, options, log);
   prog->context = context;
   prog->refCount = 1;
   if (!prog->program)
   {
-    SetError(context, CL_INVALID_BINARY);
+    SetErrorInfo(context, CL_LINK_PROGRAM_FAILURE, log);
     delete prog;
     return NULL;
   }
-- 
2.43.0


From 6b5c4131dbb8aab4f522c1e764b9fb50c4dd5ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:05 +0000
Subject: [PATCH 079/141] fix: refuse to link programs that are not compiled

---
 src/runtime/runtime.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 59bc0ab..0d876d4 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2888,6 +2888,17 @@ clLinkProgram(cl_context context, cl_uint num_devices,
   list<const oclgrind::Program*> programs;
   for (unsigned i = 0; i < num_input_programs; i++)
   {
+    if (!input_programs[i])
+    {
+      SetErrorArg(context, CL_INVALID_PROGRAM, input_programs);
+      return NULL;
+    }
+    if (input_programs[i]->program->getBuildStatus() != CL_BUILD_SUCCESS)
+    {
+      SetErrorInfo(context, CL_INVALID_OPERATION,
+                   "Program " << i << " not successfully compiled");
+      return NULL;
+    }
     programs.push_back(input_programs[i]->program);
   }
 
-- 
2.43.0


From 5c400d8c95850a68aeb399bd9d96df9b8dfa4e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:59 +0000
Subject: [PATCH 080/141] fix: apply the -w and -Werror build options

---
 src/core/Program.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index ffae3c3..9bf41f9 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -560,6 +560,16 @@ bool Program::build(BuildType buildType, const char* options,
   clang::CompilerInvocation::CreateFromArgs(*invocation, args,
                                             compiler.getDiagnostics());
   compiler.setInvocation(invocation);
+
+  // Apply warning options, which were not known yet when creating diagnostics
+#if LLVM_VERSION >= 200
+  clang::ProcessWarningOptions(compiler.getDiagnostics(),
+                               compiler.getDiagnosticOpts(),
+                               *llvm::vfs::getRealFileSystem());
+#else
+  clang::ProcessWarningOptions(compiler.getDiagnostics(),
+                               compiler.getDiagnosticOpts());
+#endif
 #endif
 
   // Remap include files
-- 
2.43.0


From 6db910ddd7414deb351f9d35754b63edc4f58b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 081/141] fix: report the options of linked programs

---
 src/core/Program.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 9bf41f9..b3ebbe9 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -771,7 +771,9 @@ Program* Program::createFromPrograms(const Context* context,
   }
   setBinaryType(*module, binaryType);
 
-  return new Program(context, module.release());
+  Program* program = new Program(context, module.release());
+  program->m_buildOptions = options ? options : "";
+  return program;
 }
 
 Kernel* Program::createKernel(const string name)
-- 
2.43.0


From 44c188a47179923c505e1d4a52f2912b0121f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:42 +0000
Subject: [PATCH 082/141] fix: refuse to rebuild programs that have kernel
 objects attached

---
 src/runtime/icd.h       |  1 +
 src/runtime/runtime.cpp | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index b295360..5d583d8 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -214,6 +214,7 @@ struct _cl_program
   oclgrind::Program* program;
   cl_context context;
   unsigned int refCount;
+  unsigned int numKernels; // Number of kernel objects attached
 };
 
 struct _cl_kernel
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 0d876d4..f7c8525 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2603,6 +2603,7 @@ CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithSource(
   prog->program = new oclgrind::Program(context->context, source);
   prog->context = context;
   prog->refCount = 1;
+  prog->numKernels = 0;
   if (!prog->program)
   {
     SetError(context, CL_OUT_OF_HOST_MEMORY);
@@ -2657,6 +2658,7 @@ CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithBinary(
                                                        binaries[0], lengths[0]);
   prog->context = context;
   prog->refCount = 1;
+  prog->numKernels = 0;
   if (!prog->program)
   {
     SetError(context, CL_INVALID_BINARY);
@@ -2760,6 +2762,12 @@ CL_API_ENTRY cl_int CL_API_CALL clBuildProgram(
     ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
   }
 
+  if (program->numKernels)
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
+                    "Program has kernel objects attached");
+  }
+
   // Build program
   bool success = program->program->build(oclgrind::Program::BUILD, options);
 
@@ -2819,6 +2827,12 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
     ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
   }
 
+  if (program->numKernels)
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
+                    "Program has kernel objects attached");
+  }
+
   // Prepare headers
   list<oclgrind::Program::Header> headers;
   for (unsigned i = 0; i < num_input_headers; i++)
@@ -2910,6 +2924,7 @@ clLinkProgram(cl_context context, cl_uint num_devices,
                                                         programs, options, log);
   prog->context = context;
   prog->refCount = 1;
+  prog->numKernels = 0;
   if (!prog->program)
   {
     SetErrorInfo(context, CL_LINK_PROGRAM_FAILURE, log);
@@ -3159,6 +3174,7 @@ clCreateKernel(cl_program program, const char* kernel_name,
   }
 
   clRetainProgram(program);
+  program->numKernels++;
 
   SetError(program->context, CL_SUCCESS);
   return kernel;
@@ -3203,6 +3219,7 @@ CL_API_ENTRY cl_int CL_API_CALL clCreateKernelsInProgram(
       kernels[i++] = kernel;
 
       clRetainProgram(program);
+      program->numKernels++;
     }
   }
 
@@ -3249,6 +3266,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseKernel(cl_kernel kernel)
 
     delete kernel->kernel;
 
+    kernel->program->numKernels--;
     clReleaseProgram(kernel->program);
 
     delete kernel;
@@ -6282,6 +6300,7 @@ CL_API_ENTRY cl_kernel CL_API_CALL clCloneKernel(
   kernel->refCount = 1;
 
   clRetainProgram(kernel->program);
+  kernel->program->numKernels++;
 
   // Set memory object arguments again, as image arguments point to a structure
   // that belongs to the source kernel
-- 
2.43.0


From ac180d0ec58678da7e1a5458e8bacfd470b011f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 083/141] fix: refuse to compile programs that were not created
 from source

---
 src/core/Program.cpp    | 11 ++++++++---
 src/core/Program.h      |  2 ++
 src/runtime/runtime.cpp |  6 ++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index b3ebbe9..2eb8845 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -118,7 +118,7 @@ struct DiagnosticCollector : public llvm::DiagnosticHandler
 } // namespace
 
 Program::Program(const Context* context, llvm::Module* module)
-    : m_module(module), m_context(context)
+    : m_module(module), m_hasSource(false), m_context(context)
 {
   m_buildLog = "";
   m_buildOptions = "";
@@ -154,7 +154,7 @@ Program::Program(const Context* context, llvm::Module* module)
 }
 
 Program::Program(const Context* context, const string& source)
-    : m_context(context)
+    : m_hasSource(true), m_context(context)
 {
   m_source = source;
   m_buildLog = "";
@@ -299,7 +299,7 @@ bool Program::build(BuildType buildType, const char* options,
   llvm::raw_string_ostream buildLog(m_buildLog);
 
   // Do nothing if program was created with binary
-  if (m_source.empty() && m_module)
+  if (!m_hasSource)
   {
     m_buildStatus = CL_BUILD_SUCCESS;
     m_binaryType = CL_PROGRAM_BINARY_TYPE_EXECUTABLE;
@@ -964,6 +964,11 @@ bool Program::hasExecutable() const
          m_binaryType == CL_PROGRAM_BINARY_TYPE_EXECUTABLE;
 }
 
+bool Program::hasSource() const
+{
+  return m_hasSource;
+}
+
 unsigned long Program::getUID() const
 {
   return m_uid;
diff --git a/src/core/Program.h b/src/core/Program.h
index d8ad0a2..a0b8b70 100644
--- a/src/core/Program.h
+++ b/src/core/Program.h
@@ -67,6 +67,7 @@ public:
   const TypedValue& getProgramScopeVar(const llvm::Value* var) const;
   size_t getTotalProgramScopeVarSize() const;
   bool hasExecutable() const;
+  bool hasSource() const;
   unsigned long getUID() const;
 
 private:
@@ -74,6 +75,7 @@ private:
 
   std::unique_ptr<llvm::Module> m_module;
   std::string m_source;
+  bool m_hasSource;
   std::string m_buildLog;
   std::string m_buildOptions;
   unsigned int m_buildStatus;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f7c8525..d02f92c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2833,6 +2833,12 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
                     "Program has kernel objects attached");
   }
 
+  if (!program->program->hasSource())
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
+                    "Program was not created from source");
+  }
+
   // Prepare headers
   list<oclgrind::Program::Header> headers;
   for (unsigned i = 0; i < num_input_headers; i++)
-- 
2.43.0


From 01364e098cc133fb7bdd1cf21a4cbd8e826d35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:38 +0000
Subject: [PATCH 084/141] fix: refuse buffers where images are expected and
 vice versa

---
 src/runtime/runtime.cpp | 47 +++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index d02f92c..0811514 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -244,6 +244,13 @@ cl_int checkEventWaitList(cl_context context, cl_uint num_events_in_wait_list,
   return CL_SUCCESS;
 }
 
+// Check whether a memory object can be used by a rectangular buffer command,
+// which image commands are implemented with
+bool isRectObject(cl_mem memobj)
+{
+  return memobj && (!memobj->isImage || g_apiCallStack.size() > 1);
+}
+
 // Check whether a rectangular region lies within an allocation of a given size
 bool isRectInBounds(const size_t* origin, const size_t* region,
                     size_t row_pitch, size_t slice_pitch, size_t size)
@@ -4067,7 +4074,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!buffer)
+  if (!buffer || buffer->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
   }
@@ -4120,7 +4127,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!buffer)
+  if (!isRectObject(buffer))
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
   }
@@ -4218,7 +4225,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!buffer)
+  if (!buffer || buffer->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
   }
@@ -4271,7 +4278,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!buffer)
+  if (!isRectObject(buffer))
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
   }
@@ -4370,11 +4377,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!src_buffer)
+  if (!src_buffer || src_buffer->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_buffer);
   }
-  if (!dst_buffer)
+  if (!dst_buffer || dst_buffer->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
@@ -4436,11 +4443,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!src_buffer)
+  if (!isRectObject(src_buffer))
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_buffer);
   }
-  if (!dst_buffer)
+  if (!isRectObject(dst_buffer))
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
@@ -4553,7 +4560,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!buffer)
+  if (!buffer || buffer->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
   }
@@ -4617,7 +4624,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!image)
+  if (!image || !image->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
   }
@@ -4771,7 +4778,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!image)
+  if (!image || !image->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
   }
@@ -4842,7 +4849,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!image)
+  if (!image || !image->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
   }
@@ -4915,11 +4922,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!src_image)
+  if (!src_image || !src_image->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_image);
   }
-  if (!dst_image)
+  if (!dst_image || !dst_image->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_image);
   }
@@ -4997,11 +5004,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!src_image)
+  if (!src_image || !src_image->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_image);
   }
-  if (!dst_buffer)
+  if (!dst_buffer || dst_buffer->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
@@ -5053,11 +5060,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!src_buffer)
+  if (!src_buffer || src_buffer->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_buffer);
   }
-  if (!dst_image)
+  if (!dst_image || !dst_image->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_image);
   }
@@ -5110,7 +5117,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
     SetErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
     return NULL;
   }
-  if (!buffer)
+  if (!buffer || buffer->isImage)
   {
     SetErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
     return NULL;
@@ -5192,7 +5199,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     SetErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
     return NULL;
   }
-  if (!image)
+  if (!image || !image->isImage)
   {
     SetErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
     return NULL;
-- 
2.43.0


From e433eb0e4bee3c2d0dc4d55f1faf875f2d72f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:59 +0000
Subject: [PATCH 085/141] fix: refuse memory objects that belong to another
 context than the queue

---
 src/runtime/runtime.cpp | 86 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 86 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 0811514..59ff430 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4078,6 +4078,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
   }
+  if (buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, buffer);
+  }
   if (!ptr)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
@@ -4131,6 +4135,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
   }
+  if (buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, buffer);
+  }
   if (!ptr)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
@@ -4229,6 +4237,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
   }
+  if (buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, buffer);
+  }
   if (!ptr)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
@@ -4282,6 +4294,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
   }
+  if (buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, buffer);
+  }
   if (!ptr)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
@@ -4381,10 +4397,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_buffer);
   }
+  if (src_buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, src_buffer);
+  }
   if (!dst_buffer || dst_buffer->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
+  if (dst_buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, dst_buffer);
+  }
   if (dst_offset > dst_buffer->size || cb > dst_buffer->size - dst_offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
@@ -4447,10 +4471,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_buffer);
   }
+  if (src_buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, src_buffer);
+  }
   if (!isRectObject(dst_buffer))
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
+  if (dst_buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, dst_buffer);
+  }
   if (!src_origin || !dst_origin)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
@@ -4564,6 +4596,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
   }
+  if (buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, buffer);
+  }
   if (offset > buffer->size || cb > buffer->size - offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
@@ -4628,6 +4664,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
   }
+  if (image->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, image);
+  }
   if (!fill_color)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, fill_color);
@@ -4782,6 +4822,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
   }
+  if (image->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, image);
+  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -4853,6 +4897,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
   }
+  if (image->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, image);
+  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -4926,10 +4974,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_image);
   }
+  if (src_image->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, src_image);
+  }
   if (!dst_image || !dst_image->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_image);
   }
+  if (dst_image->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, dst_image);
+  }
 
   cl_image* src = (cl_image*)src_image;
   cl_image* dst = (cl_image*)dst_image;
@@ -5008,10 +5064,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_image);
   }
+  if (src_image->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, src_image);
+  }
   if (!dst_buffer || dst_buffer->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
+  if (dst_buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, dst_buffer);
+  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -5064,10 +5128,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_buffer);
   }
+  if (src_buffer->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, src_buffer);
+  }
   if (!dst_image || !dst_image->isImage)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_image);
   }
+  if (dst_image->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, dst_image);
+  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -5122,6 +5194,11 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
     SetErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
     return NULL;
   }
+  if (buffer->context != command_queue->context)
+  {
+    SetErrorArg(command_queue->context, CL_INVALID_CONTEXT, buffer);
+    return NULL;
+  }
   if (map_flags & CL_MAP_WRITE &&
       buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
@@ -5204,6 +5281,11 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     SetErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
     return NULL;
   }
+  if (image->context != command_queue->context)
+  {
+    SetErrorArg(command_queue->context, CL_INVALID_CONTEXT, image);
+    return NULL;
+  }
   if (!image_row_pitch)
   {
     SetErrorArg(command_queue->context, CL_INVALID_VALUE, image_row_pitch);
@@ -5307,6 +5389,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueUnmapMemObject(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
   }
+  if (memobj->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, memobj);
+  }
   if (!mapped_ptr)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, mapped_ptr);
-- 
2.43.0


From ac2a87b4992e3a0c650dc7d7f392b2cc1cf328a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 086/141] fix: check the arguments of
 clEnqueueMigrateMemObjects

---
 src/runtime/runtime.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 59ff430..720fc47 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5434,9 +5434,36 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMigrateMemObjects(
   {
     return err;
   }
+  if (num_mem_objects == 0 || !mem_objects)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "num_mem_objects is 0 or mem_objects is NULL");
+  }
+  for (unsigned i = 0; i < num_mem_objects; i++)
+  {
+    if (!mem_objects[i])
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_MEM_OBJECT,
+                      "Memory object " << i << " is NULL");
+    }
+    if (mem_objects[i]->context != command_queue->context)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_CONTEXT,
+                      "Memory object " << i << " is from another context");
+    }
+  }
+  if (flags & ~(cl_mem_migration_flags)(CL_MIGRATE_MEM_OBJECT_HOST |
+                                        CL_MIGRATE_MEM_OBJECT_CONTENT_UNDEFINED))
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, flags);
+  }
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  for (unsigned i = 0; i < num_mem_objects; i++)
+  {
+    asyncQueueRetain(cmd, mem_objects[i]);
+  }
   asyncEnqueue(command_queue, CL_COMMAND_MIGRATE_MEM_OBJECTS, cmd,
                num_events_in_wait_list, event_wait_list, event);
 
-- 
2.43.0


From 67e688ddf8d81c245316c7895570aa639d1be59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 087/141] fix: check the kernel given to clEnqueueNDRangeKernel

---
 src/runtime/runtime.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 720fc47..f2dd8c0 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5483,6 +5483,14 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (!kernel)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_KERNEL, kernel);
+  }
+  if (kernel->program->context != command_queue->context)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_CONTEXT, kernel);
+  }
   if (work_dim < 1 || work_dim > 3)
   {
     ReturnErrorInfo(
-- 
2.43.0


From b7885bfe4b0330ab5fc07bb5c110a4e61cdfe7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 088/141] fix: refuse zero work-group sizes and global offsets
 that overflow

---
 src/runtime/runtime.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f2dd8c0..a5939dc 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5522,6 +5522,20 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   }
   for (unsigned i = 0; i < work_dim; i++)
   {
+    if (global_work_offset &&
+        global_work_size[i] > SIZE_MAX - global_work_offset[i])
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_GLOBAL_OFFSET,
+                      "global_work_offset["
+                        << i << "]=" << global_work_offset[i]
+                        << " plus global_work_size[" << i
+                        << "]=" << global_work_size[i] << " overflows");
+    }
+    if (local_work_size && local_work_size[i] == 0)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
+                      "local_work_size[" << i << "] is zero");
+    }
     if (kernel->kernel->requiresUniformWorkGroups() && local_work_size &&
         global_work_size[i] % local_work_size[i])
     {
-- 
2.43.0


From a3e4f767543403f92de90f6685051e20d281f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:15 +0000
Subject: [PATCH 089/141] fix: leave the arguments of native kernels as the
 application passed them

---
 src/runtime/runtime.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a5939dc..92ac324 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5698,14 +5698,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNativeKernel(
     return err;
   }
 
-  // Replace mem objects with real pointers
+  // Get real pointers of mem objects
   oclgrind::Memory* memory = command_queue->context->context->getGlobalMemory();
+  std::vector<void*> addresses;
   for (unsigned i = 0; i < num_mem_objects; i++)
   {
-    if (!mem_list[i])
+    if (!mem_list[i] || mem_list[i]->isImage)
     {
       ReturnErrorInfo(command_queue->context, CL_INVALID_MEM_OBJECT,
-                      "Memory object " << i << " is NULL");
+                      "Memory object " << i << " is not a buffer");
     }
 
     void* addr = memory->getPointer(mem_list[i]->address);
@@ -5714,13 +5715,20 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNativeKernel(
       ReturnErrorInfo(command_queue->context, CL_INVALID_MEM_OBJECT,
                       "Memory object " << i << " not valid");
     }
-    memcpy((void*)args_mem_loc[i], &addr, sizeof(void*));
+    addresses.push_back(addr);
   }
 
-  // Create command
+  // Create command, which makes a copy of the arguments
   oclgrind::NativeKernelCommand* cmd =
     new oclgrind::NativeKernelCommand(user_func, args, cb_args);
 
+  // Replace mem objects with real pointers
+  for (unsigned i = 0; i < num_mem_objects; i++)
+  {
+    size_t offset = (const char*)args_mem_loc[i] - (const char*)args;
+    memcpy((char*)cmd->args + offset, &addresses[i], sizeof(void*));
+  }
+
   // Retain memory objects
   for (unsigned i = 0; i < num_mem_objects; i++)
   {
-- 
2.43.0


From 8e9aeb61df65cac89236455d42d3e79b43608658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:21 +0000
Subject: [PATCH 090/141] fix: only accept the pattern sizes that the
 specification lists

---
 src/runtime/runtime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 92ac324..eb39ee0 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4611,7 +4611,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, pattern);
   }
-  if (pattern_size == 0)
+  if (pattern_size == 0 || pattern_size > sizeof(cl_double16) ||
+      pattern_size & (pattern_size - 1))
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, pattern_size);
   }
-- 
2.43.0


From df818bcc58d621a7ed05b202a75f891876c1164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 091/141] fix: refuse slice pitches smaller than a slice in
 image transfers

---
 src/runtime/runtime.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index eb39ee0..861f895 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4864,6 +4864,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
     row_pitch = slice_pitch;
     slice_pitch = 0;
   }
+  if (slice_pitch != 0 && slice_pitch < pixel_region[1] * row_pitch)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Row or slice pitch smaller than region");
+  }
   if (slice_pitch == 0)
   {
     slice_pitch = pixel_region[1] * row_pitch;
@@ -4941,6 +4946,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
     input_row_pitch = input_slice_pitch;
     input_slice_pitch = 0;
   }
+  if (input_slice_pitch != 0 &&
+      input_slice_pitch < pixel_region[1] * input_row_pitch)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Row or slice pitch smaller than region");
+  }
   if (input_slice_pitch == 0)
   {
     input_slice_pitch = pixel_region[1] * input_row_pitch;
-- 
2.43.0


From 1b49c003a42f6817109dabcd4c407c11e5908beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 092/141] fix: check the flags used to map memory objects

---
 src/runtime/runtime.cpp | 63 +++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 861f895..2618c0b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5187,6 +5187,31 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   return ret;
 }
 
+// Check the flags used to map a memory object
+cl_int checkMapFlags(cl_context context, cl_mem memobj, cl_map_flags flags)
+{
+  if (flags & ~(cl_map_flags)(CL_MAP_READ | CL_MAP_WRITE |
+                              CL_MAP_WRITE_INVALIDATE_REGION) ||
+      (flags & CL_MAP_WRITE_INVALIDATE_REGION &&
+       flags & (CL_MAP_READ | CL_MAP_WRITE)))
+  {
+    ReturnErrorInfo(context, CL_INVALID_VALUE, "For argument 'map_flags'");
+  }
+  if (flags & (CL_MAP_WRITE | CL_MAP_WRITE_INVALIDATE_REGION) &&
+      memobj->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
+  {
+    ReturnErrorInfo(context, CL_INVALID_OPERATION,
+                    "Memory object flags specify host will not write data");
+  }
+  if (flags & CL_MAP_READ &&
+      memobj->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_WRITE_ONLY))
+  {
+    ReturnErrorInfo(context, CL_INVALID_OPERATION,
+                    "Memory object flags specify host will not read data");
+  }
+  return CL_SUCCESS;
+}
+
 CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   cl_command_queue command_queue, cl_mem buffer, cl_bool blocking_map,
   cl_map_flags map_flags, size_t offset, size_t cb,
@@ -5211,19 +5236,14 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
     SetErrorArg(command_queue->context, CL_INVALID_CONTEXT, buffer);
     return NULL;
   }
-  if (map_flags & CL_MAP_WRITE &&
-      buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_OPERATION,
-                 "Buffer flags specify host will not write data");
-    return NULL;
-  }
-  if (map_flags & CL_MAP_READ &&
-      buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_WRITE_ONLY))
+  if (auto err = checkMapFlags(command_queue->context, buffer, map_flags);
+      err != CL_SUCCESS)
   {
-    SetErrorInfo(command_queue->context, CL_INVALID_OPERATION,
-                 "Buffer flags specify host will not read data");
-    return NULL;
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return nullptr;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -5303,19 +5323,14 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     SetErrorArg(command_queue->context, CL_INVALID_VALUE, image_row_pitch);
     return NULL;
   }
-  if (map_flags & CL_MAP_WRITE &&
-      image->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_OPERATION,
-                 "Image flags specify host will not write data");
-    return NULL;
-  }
-  if (map_flags & CL_MAP_READ &&
-      image->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_WRITE_ONLY))
+  if (auto err = checkMapFlags(command_queue->context, image, map_flags);
+      err != CL_SUCCESS)
   {
-    SetErrorInfo(command_queue->context, CL_INVALID_OPERATION,
-                 "Image flags specify host will not read data");
-    return NULL;
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return nullptr;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
-- 
2.43.0


From 1d7e603fb1d1f29dc47b7722b65efca09072dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:54 +0000
Subject: [PATCH 093/141] fix: refuse to map nothing, and slices without a
 slice pitch to return

---
 src/runtime/runtime.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2618c0b..37619b4 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5257,6 +5257,11 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   }
 
   // Check map region
+  if (cb == 0)
+  {
+    SetErrorArg(command_queue->context, CL_INVALID_VALUE, cb);
+    return NULL;
+  }
   if (offset > buffer->size || cb > buffer->size - offset)
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
@@ -5345,6 +5350,11 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
 
   // Get image layout
   cl_image* img = (cl_image*)image;
+  if (hasSlices(img) && !image_slice_pitch)
+  {
+    SetErrorArg(command_queue->context, CL_INVALID_VALUE, image_slice_pitch);
+    return NULL;
+  }
   size_t pixelSize = getPixelSize(&img->format);
   size_t row_pitch = getRegionRowPitch(img);
   size_t slice_pitch = img->desc.image_slice_pitch;
-- 
2.43.0


From 34c25d192ff70c61fcf490b01dcf5bc0e6412e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 094/141] fix: keep track of the pointers that memory objects
 are mapped at

---
 src/runtime/icd.h       |  2 ++
 src/runtime/runtime.cpp | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index 5d583d8..85e1e69 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -117,6 +117,7 @@
 #include <cstdint>
 #include <list>
 #include <map>
+#include <set>
 #include <stack>
 #include <vector>
 
@@ -199,6 +200,7 @@ struct _cl_mem
   void* hostPtr;
   std::stack<std::pair<void(CL_CALLBACK*)(cl_mem, void*), void*>> callbacks;
   std::vector<cl_mem_properties> properties;
+  std::multiset<void*> mappedPtrs; // Pointers that are to be unmapped
   unsigned int refCount;
 };
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 37619b4..cc8f84a 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2226,7 +2226,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetMemObjectInfo(
     break;
   case CL_MEM_MAP_COUNT:
     result_size = sizeof(cl_uint);
-    result_data.cluint = 0;
+    result_data.cluint = memobj->mappedPtrs.size();
     break;
   case CL_MEM_REFERENCE_COUNT:
     result_size = sizeof(cl_uint);
@@ -5291,6 +5291,10 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
                               blocking_map, num_events_in_wait_list,
                               event_wait_list, event);
 
+  if (err == CL_SUCCESS)
+  {
+    buffer->mappedPtrs.insert(ptr);
+  }
   if (errcode_ret)
   {
     *errcode_ret = err;
@@ -5403,6 +5407,10 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                               blocking_map, num_events_in_wait_list,
                               event_wait_list, event);
 
+  if (err == CL_SUCCESS)
+  {
+    image->mappedPtrs.insert(ptr);
+  }
   if (errcode_ret)
   {
     *errcode_ret = err;
@@ -5441,6 +5449,14 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueUnmapMemObject(
     return err;
   }
 
+  auto mapping = memobj->mappedPtrs.find(mapped_ptr);
+  if (mapping == memobj->mappedPtrs.end())
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "mapped_ptr was not returned by mapping this object");
+  }
+  memobj->mappedPtrs.erase(mapping);
+
   // Enqueue command
   oclgrind::UnmapCommand* cmd = new oclgrind::UnmapCommand();
   cmd->address = memobj->address;
-- 
2.43.0


From bff977ab707e76999948db03c30c10a16524e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:50 +0000
Subject: [PATCH 095/141] fix: refuse unknown and conflicting memory object
 flags

---
 src/runtime/runtime.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index cc8f84a..1343064 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1443,6 +1443,21 @@ CL_API_ENTRY cl_int CL_API_CALL clGetCommandQueueInfo(
 
 namespace
 {
+// Utility function for checking that flags are known and do not conflict
+bool areMemFlagsValid(cl_mem_flags flags)
+{
+  const cl_mem_flags access =
+    flags & (CL_MEM_READ_WRITE | CL_MEM_READ_ONLY | CL_MEM_WRITE_ONLY);
+  const cl_mem_flags hostAccess =
+    flags &
+    (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY | CL_MEM_HOST_WRITE_ONLY);
+  const cl_mem_flags others =
+    flags & ~(access | hostAccess | CL_MEM_USE_HOST_PTR | CL_MEM_ALLOC_HOST_PTR |
+              CL_MEM_COPY_HOST_PTR | CL_MEM_KERNEL_READ_AND_WRITE);
+  return !(access & (access - 1)) && !(hostAccess & (hostAccess - 1)) &&
+         !others;
+}
+
 cl_mem createBuffer(cl_context context, cl_mem_flags flags, size_t size,
                     void* host_ptr, cl_int* errcode_ret)
 {
@@ -1452,6 +1467,11 @@ cl_mem createBuffer(cl_context context, cl_mem_flags flags, size_t size,
     SetErrorArg(NULL, CL_INVALID_CONTEXT, context);
     return NULL;
   }
+  if (!areMemFlagsValid(flags))
+  {
+    SetErrorArg(context, CL_INVALID_VALUE, flags);
+    return NULL;
+  }
   if (size == 0)
   {
     SetErrorArg(context, CL_INVALID_BUFFER_SIZE, size);
@@ -2087,6 +2107,14 @@ CL_API_ENTRY cl_int CL_API_CALL clGetSupportedImageFormats(
   {
     ReturnErrorArg(NULL, CL_INVALID_CONTEXT, context);
   }
+  if (!areMemFlagsValid(flags))
+  {
+    ReturnErrorArg(context, CL_INVALID_VALUE, flags);
+  }
+  if (!getNumDimensions(image_type))
+  {
+    ReturnErrorArg(context, CL_INVALID_VALUE, image_type);
+  }
   if (num_entries == 0 && image_formats)
   {
     ReturnErrorInfo(context, CL_INVALID_VALUE,
-- 
2.43.0


From f2b5123e22e6ea6d479e1630f83932ab52a352dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:03 +0000
Subject: [PATCH 096/141] fix: refuse buffers larger than the device memory

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 1343064..e4e16ab 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1472,7 +1472,7 @@ cl_mem createBuffer(cl_context context, cl_mem_flags flags, size_t size,
     SetErrorArg(context, CL_INVALID_VALUE, flags);
     return NULL;
   }
-  if (size == 0)
+  if (size == 0 || size > m_device->globalMemSize)
   {
     SetErrorArg(context, CL_INVALID_BUFFER_SIZE, size);
     return NULL;
-- 
2.43.0


From 5bbe6baeffec6abf9018713cce523226ea56bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 097/141] fix: do not create memory objects with unsupported
 properties

---
 src/runtime/runtime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index e4e16ab..219a8c3 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1552,6 +1552,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateBufferWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem buffer = createBuffer(context, flags, size, host_ptr, errcode_ret);
@@ -1981,6 +1982,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateImageWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem image = createImage(context, flags, image_format, image_desc, host_ptr,
-- 
2.43.0


From c523ee348e0ce03b539199b0f11d434bb0a08c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:27 +0000
Subject: [PATCH 098/141] fix: check the parent and flags of sub-buffers

---
 src/runtime/runtime.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 219a8c3..1601d28 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1577,6 +1577,12 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
     SetErrorArg(NULL, CL_INVALID_MEM_OBJECT, buffer);
     return NULL;
   }
+  if (buffer->isImage)
+  {
+    SetErrorInfo(buffer->context, CL_INVALID_MEM_OBJECT,
+                 "Parent cannot be an image");
+    return NULL;
+  }
   if (buffer->parent)
   {
     SetErrorInfo(buffer->context, CL_INVALID_MEM_OBJECT,
@@ -1604,7 +1610,8 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   }
   if (region.size == 0)
   {
-    SetErrorInfo(buffer->context, CL_INVALID_VALUE, "Region size cannot be 0");
+    SetErrorInfo(buffer->context, CL_INVALID_BUFFER_SIZE,
+                 "Region size cannot be 0");
     return NULL;
   }
 
@@ -1634,6 +1641,23 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   }
   memFlags |= buffer->flags & hostPtr;
 
+  // Check that flags do not conflict with each other or with the parent
+  if (!areMemFlagsValid(flags) || flags & hostPtr ||
+      (buffer->flags & CL_MEM_WRITE_ONLY &&
+       flags & (CL_MEM_READ_WRITE | CL_MEM_READ_ONLY)) ||
+      (buffer->flags & CL_MEM_READ_ONLY &&
+       flags & (CL_MEM_READ_WRITE | CL_MEM_WRITE_ONLY)) ||
+      (buffer->flags & CL_MEM_HOST_WRITE_ONLY &&
+       flags & CL_MEM_HOST_READ_ONLY) ||
+      (buffer->flags & CL_MEM_HOST_READ_ONLY &&
+       flags & CL_MEM_HOST_WRITE_ONLY) ||
+      (buffer->flags & CL_MEM_HOST_NO_ACCESS &&
+       flags & (CL_MEM_HOST_READ_ONLY | CL_MEM_HOST_WRITE_ONLY)))
+  {
+    SetErrorArg(buffer->context, CL_INVALID_VALUE, flags);
+    return NULL;
+  }
+
   // Create memory object
   cl_mem mem = new _cl_mem;
   mem->dispatch = m_dispatchTable;
@@ -1643,7 +1667,9 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   mem->offset = region.origin;
   mem->isImage = false;
   mem->flags = memFlags;
-  mem->hostPtr = (unsigned char*)buffer->hostPtr + region.origin;
+  mem->hostPtr = buffer->hostPtr
+                   ? (unsigned char*)buffer->hostPtr + region.origin
+                   : NULL;
   mem->refCount = 1;
   mem->address = buffer->address + region.origin;
   clRetainMemObject(buffer);
-- 
2.43.0


From e9ea7b5b19458e2d121cec9c31302c8a8c6d358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 099/141] fix: return the specified error for unknown image
 formats

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 1601d28..568cd1b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1849,7 +1849,7 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   size_t pixelSize = getPixelSize(image_format);
   if (!pixelSize)
   {
-    SetErrorArg(context, CL_INVALID_VALUE, image_format);
+    SetErrorArg(context, CL_INVALID_IMAGE_FORMAT_DESCRIPTOR, image_format);
     return NULL;
   }
 
-- 
2.43.0


From 01dc0152b76ecfd558868fbc95f2f2dc7bcc18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:21 +0000
Subject: [PATCH 100/141] fix: check image types, mip levels, samples and
 memory objects of images

---
 src/runtime/runtime.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 568cd1b..adf7cd8 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1853,8 +1853,29 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
     return NULL;
   }
 
-  // Get image dimensions
+  // Check image description
   size_t dims = getNumDimensions(image_desc->image_type);
+  if (!dims)
+  {
+    SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR, "Unknown image type");
+    return NULL;
+  }
+  if (image_desc->num_mip_levels || image_desc->num_samples)
+  {
+    SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                 "num_mip_levels and num_samples must be 0");
+    return NULL;
+  }
+  if (image_desc->mem_object &&
+      image_desc->image_type != CL_MEM_OBJECT_IMAGE1D_BUFFER &&
+      image_desc->image_type != CL_MEM_OBJECT_IMAGE2D)
+  {
+    SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                 "This type of image cannot be created from memory objects");
+    return NULL;
+  }
+
+  // Get image dimensions
   size_t width = image_desc->image_width;
   size_t height = 1, depth = 1;
   size_t arraySize = 1;
-- 
2.43.0


From 021d64fbe1364c099dc304c7a71a3cccc4706b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:34 +0000
Subject: [PATCH 101/141] fix: refuse images whose dimensions are zero or
 exceed the device limits

---
 src/runtime/runtime.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index adf7cd8..2b76006 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1892,6 +1892,23 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
     arraySize = image_desc->image_array_size;
   }
 
+  // Check image dimensions
+  size_t maxSize = 8192, maxDepth = 2048;
+  if (image_desc->image_type == CL_MEM_OBJECT_IMAGE1D_BUFFER)
+  {
+    maxSize = 65536;
+  }
+  else if (image_desc->image_type == CL_MEM_OBJECT_IMAGE3D)
+  {
+    maxSize = 2048;
+  }
+  if (width == 0 || width > maxSize || height == 0 || height > maxSize ||
+      depth == 0 || depth > maxDepth || arraySize == 0 || arraySize > maxDepth)
+  {
+    SetErrorInfo(context, CL_INVALID_IMAGE_SIZE, "Invalid image dimensions");
+    return NULL;
+  }
+
   // Get pitches of the data in host memory
   bool is1DArray = image_desc->image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY;
   size_t rowPitch = image_desc->image_row_pitch;
@@ -1977,6 +1994,11 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   else
   {
     // Create buffer
+    if (size > m_device->globalMemSize)
+    {
+      SetError(context, CL_MEM_OBJECT_ALLOCATION_FAILURE);
+      return NULL;
+    }
     mem = createBuffer(context, flags, size, host_ptr, errcode_ret);
     if (!mem)
     {
-- 
2.43.0


From 256b475d1b624c7b81fbda8d87c7fecae82914df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 102/141] fix: check the buffer that a 1D image is created from

---
 src/runtime/runtime.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2b76006..6eaeed3 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1976,11 +1976,23 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
     // Use existing buffer
     if (!image_desc->buffer)
     {
-      SetErrorInfo(context, CL_INVALID_VALUE,
+      SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
                    "image_desc->buffer cannot be NULL "
                    "when using CL_MEM_OBJECT_IMAGE1D_BUFFER");
       return NULL;
     }
+    if (image_desc->buffer->isImage || image_desc->buffer->context != context)
+    {
+      SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                   "image_desc->buffer must be a buffer of this context");
+      return NULL;
+    }
+    if (size > image_desc->buffer->size)
+    {
+      SetErrorInfo(context, CL_INVALID_IMAGE_SIZE,
+                   "Image is larger than image_desc->buffer");
+      return NULL;
+    }
     mem = image_desc->buffer;
     clRetainMemObject(image_desc->buffer);
   }
-- 
2.43.0


From a03d19405d39f7a7e3ddfcb0e17aaaa3125bbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 103/141] fix: call the destructor callbacks of images created
 from buffers

---
 src/runtime/runtime.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 6eaeed3..f983d56 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2035,6 +2035,13 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   {
     delete mem;
   }
+  else
+  {
+    // These are not shared with the buffer
+    image->callbacks = {};
+    image->properties.clear();
+    image->mappedPtrs.clear();
+  }
 
   SetError(context, CL_SUCCESS);
   return image;
@@ -2145,6 +2152,14 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseMemObject(cl_mem memobj)
 
   if (--memobj->refCount == 0)
   {
+    while (!memobj->callbacks.empty())
+    {
+      pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
+        memobj->callbacks.top();
+      callback.first(memobj, callback.second);
+      memobj->callbacks.pop();
+    }
+
     if (memobj->isImage &&
         ((cl_image*)memobj)->desc.image_type == CL_MEM_OBJECT_IMAGE1D_BUFFER)
     {
@@ -2162,14 +2177,6 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseMemObject(cl_mem memobj)
           memobj->address);
         clReleaseContext(memobj->context);
       }
-
-      while (!memobj->callbacks.empty())
-      {
-        pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
-          memobj->callbacks.top();
-        callback.first(memobj, callback.second);
-        memobj->callbacks.pop();
-      }
     }
 
     delete memobj;
-- 
2.43.0


From 238142049efc7750f5b31f554ded1cfaec4f8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:05 +0000
Subject: [PATCH 104/141] fix: check the arguments of the platform and device
 functions

---
 src/runtime/runtime.cpp | 55 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f983d56..097cabe 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -308,6 +308,16 @@ bool doRectsOverlap(size_t src, size_t dst, const size_t* region,
   return !fitsInGap(slice_size, slice_pitch);
 }
 
+// Check whether a bitfield is a set of device types
+bool isDeviceTypeValid(cl_device_type type)
+{
+  return type == CL_DEVICE_TYPE_ALL ||
+         (type && !(type & ~(cl_device_type)(
+                             CL_DEVICE_TYPE_DEFAULT | CL_DEVICE_TYPE_CPU |
+                             CL_DEVICE_TYPE_GPU | CL_DEVICE_TYPE_ACCELERATOR |
+                             CL_DEVICE_TYPE_CUSTOM)));
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -316,7 +326,7 @@ CL_API_ENTRY cl_int CL_API_CALL clIcdGetPlatformIDsKHR(
 {
   REGISTER_API;
 
-  if (platforms && num_entries < 1)
+  if ((platforms && num_entries < 1) || (!platforms && !num_platforms))
   {
     ReturnError(NULL, CL_INVALID_VALUE);
   }
@@ -403,6 +413,12 @@ CL_API_ENTRY cl_int CL_API_CALL clGetPlatformInfo(
     {CL_MAKE_VERSION(1, 0, 0), "cl_khr_icd"},
   };
 
+  // Check platform is valid
+  if (platform && platform != m_platform)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_PLATFORM, platform);
+  }
+
   // Select platform info
   switch (param_name)
   {
@@ -479,10 +495,18 @@ CL_API_ENTRY cl_int CL_API_CALL clGetDeviceIDs(
   REGISTER_API;
 
   // Check parameters
-  if (devices && num_entries < 1)
+  if (platform && platform != m_platform)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_PLATFORM, platform);
+  }
+  if ((devices && num_entries < 1) || (!devices && !num_devices))
   {
     ReturnError(NULL, CL_INVALID_VALUE);
   }
+  if (!isDeviceTypeValid(device_type))
+  {
+    ReturnErrorArg(NULL, CL_INVALID_DEVICE_TYPE, device_type);
+  }
 
   if (!(device_type & DEVICE_TYPE))
   {
@@ -1037,6 +1061,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCreateSubDevices(
 {
   REGISTER_API;
 
+  if (!in_device)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_DEVICE, in_device);
+  }
+
   ReturnErrorInfo(NULL, CL_INVALID_VALUE, "Not yet implemented");
 }
 
@@ -1045,6 +1074,11 @@ CL_API_ENTRY cl_int CL_API_CALL clRetainDevice(cl_device_id device)
 {
   REGISTER_API;
 
+  if (!device)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_DEVICE, device);
+  }
+
   return CL_SUCCESS;
 }
 
@@ -1053,6 +1087,11 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseDevice(cl_device_id device)
 {
   REGISTER_API;
 
+  if (!device)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_DEVICE, device);
+  }
+
   return CL_SUCCESS;
 }
 
@@ -1128,6 +1167,11 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContextFromType(
                  "pfn_notify NULL but user_data non-NULL");
     return NULL;
   }
+  if (!isDeviceTypeValid(device_type))
+  {
+    SetErrorArg(NULL, CL_INVALID_DEVICE_TYPE, device_type);
+    return NULL;
+  }
   if (!(device_type & DEVICE_TYPE))
   {
     SetErrorArg(NULL, CL_DEVICE_NOT_FOUND, device_type);
@@ -3078,6 +3122,13 @@ clLinkProgram(cl_context context, cl_uint num_devices,
 CL_API_ENTRY cl_int CL_API_CALL
 clUnloadPlatformCompiler(cl_platform_id platform) CL_API_SUFFIX__VERSION_1_2
 {
+  REGISTER_API;
+
+  if (!platform || platform != m_platform)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_PLATFORM, platform);
+  }
+
   return CL_SUCCESS;
 }
 
-- 
2.43.0


From 89d8957f413f640e491a7283d779fecefe5bc349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 105/141] fix: check the properties of contexts

---
 src/runtime/runtime.cpp | 55 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 097cabe..360b2cb 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1095,6 +1095,39 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseDevice(cl_device_id device)
   return CL_SUCCESS;
 }
 
+// Check the properties that a context is created with
+cl_int checkContextProperties(const cl_context_properties* properties)
+{
+  for (unsigned i = 0; properties && properties[i]; i += 2)
+  {
+    switch (properties[i])
+    {
+    case CL_CONTEXT_PLATFORM:
+      if ((cl_platform_id)properties[i + 1] != m_platform)
+      {
+        ReturnErrorInfo(NULL, CL_INVALID_PLATFORM,
+                        "For property CL_CONTEXT_PLATFORM");
+      }
+      break;
+    case CL_CONTEXT_INTEROP_USER_SYNC:
+      break;
+    default:
+      ReturnErrorInfo(NULL, CL_INVALID_PROPERTY,
+                      "Unsupported property 0x" << hex << properties[i]);
+    }
+    for (unsigned j = 0; j < i; j += 2)
+    {
+      if (properties[j] == properties[i])
+      {
+        ReturnErrorInfo(NULL, CL_INVALID_PROPERTY,
+                        "Property 0x" << hex << properties[i]
+                                      << " given more than once");
+      }
+    }
+  }
+  return CL_SUCCESS;
+}
+
 CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
   const cl_context_properties* properties, cl_uint num_devices,
   const cl_device_id* devices,
@@ -1125,6 +1158,14 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
                  "pfn_notify NULL but user_data non-NULL");
     return NULL;
   }
+  if (auto err = checkContextProperties(properties); err != CL_SUCCESS)
+  {
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return NULL;
+  }
 
   // Create context object
   cl_context context = new _cl_context;
@@ -1138,10 +1179,10 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
 
   if (properties)
   {
-    int num = 1;
+    int num = 0;
     while (properties[num])
     {
-      num++;
+      num += 2;
     }
     size_t sz = (num + 1) * sizeof(cl_context_properties);
     context->szProperties = sz;
@@ -1177,6 +1218,14 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContextFromType(
     SetErrorArg(NULL, CL_DEVICE_NOT_FOUND, device_type);
     return NULL;
   }
+  if (auto err = checkContextProperties(properties); err != CL_SUCCESS)
+  {
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return NULL;
+  }
 
   // Create context object
   cl_context context = new _cl_context;
@@ -1193,7 +1242,7 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContextFromType(
     int num = 0;
     while (properties[num])
     {
-      num++;
+      num += 2;
     }
     size_t sz = (num + 1) * sizeof(cl_context_properties);
     context->szProperties = sz;
-- 
2.43.0


From 6eaa959845eedb823ec5638365ff8d45c1d452c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:29 +0000
Subject: [PATCH 106/141] fix: ignore duplicate devices when creating contexts

---
 src/runtime/runtime.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 360b2cb..8377438 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1137,7 +1137,7 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
   REGISTER_API;
 
   // Check parameters
-  if (num_devices != 1)
+  if (num_devices == 0)
   {
     SetErrorArg(NULL, CL_INVALID_VALUE, num_devices);
     return NULL;
@@ -1147,10 +1147,13 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
     SetErrorArg(NULL, CL_INVALID_VALUE, devices);
     return NULL;
   }
-  if (devices[0] != m_device)
+  for (unsigned i = 0; i < num_devices; i++)
   {
-    SetError(NULL, CL_INVALID_DEVICE);
-    return NULL;
+    if (!devices[i] || devices[i] != m_device)
+    {
+      SetError(NULL, CL_INVALID_DEVICE);
+      return NULL;
+    }
   }
   if (!pfn_notify && user_data)
   {
-- 
2.43.0


From d8e66698894f249e82529639c8037662c3103b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:40 +0000
Subject: [PATCH 107/141] fix: check the arguments of queues, samplers and info
 functions

---
 src/runtime/runtime.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 8377438..6e4346e 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2508,6 +2508,10 @@ CL_API_ENTRY cl_int CL_API_CALL clGetImageInfo(
   {
     ReturnErrorArg(NULL, CL_INVALID_MEM_OBJECT, image);
   }
+  if (!image->isImage)
+  {
+    ReturnErrorArg(image->context, CL_INVALID_MEM_OBJECT, image);
+  }
   cl_image* img = (cl_image*)image;
 
   size_t dummy = 0;
@@ -3313,6 +3317,11 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramBuildInfo(
     ReturnErrorArg(NULL, CL_INVALID_PROGRAM, program);
   }
 
+  if (!device || device != m_device)
+  {
+    ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
+  }
+
   size_t dummy;
   size_t& result_size = param_value_size_ret ? *param_value_size_ret : dummy;
   union
@@ -3817,7 +3826,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelWorkGroupInfo(
   {
     ReturnErrorArg(NULL, CL_INVALID_KERNEL, kernel);
   }
-  if (!device || device != m_device)
+  if (device && device != m_device)
   {
     ReturnErrorArg(kernel->program->context, CL_INVALID_DEVICE, device);
   }
@@ -6460,6 +6469,13 @@ CL_API_ENTRY cl_command_queue CL_API_CALL clCreateCommandQueueWithProperties(
                      "On device queues not implemented");
         return NULL;
       }
+      if (properties[i] & ~(cl_queue_properties)(
+                            CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE |
+                            CL_QUEUE_PROFILING_ENABLE))
+      {
+        SetErrorArg(context, CL_INVALID_VALUE, properties);
+        return NULL;
+      }
       props = properties[i];
       break;
     case CL_QUEUE_SIZE:
@@ -6612,6 +6628,15 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
   unsigned i = 0;
   while (sampler_properties && sampler_properties[i])
   {
+    for (unsigned j = 0; j < i; j += 2)
+    {
+      if (sampler_properties[j] == sampler_properties[i])
+      {
+        SetErrorInfo(context, CL_INVALID_VALUE,
+                     "Property given more than once");
+        return NULL;
+      }
+    }
     switch (sampler_properties[i++])
     {
     case CL_SAMPLER_NORMALIZED_COORDS:
-- 
2.43.0


From 510d7829588c02d519ce04e73be391b508efedf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:51 +0000
Subject: [PATCH 108/141] fix: check the events given to clWaitForEvents

---
 src/runtime/runtime.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 6e4346e..418400d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3911,6 +3911,18 @@ CL_API_ENTRY cl_int CL_API_CALL clWaitForEvents(
   {
     ReturnErrorInfo(NULL, CL_INVALID_VALUE, "event_list cannot be NULL");
   }
+  for (unsigned i = 0; i < num_events; i++)
+  {
+    if (!event_list[i])
+    {
+      ReturnErrorInfo(NULL, CL_INVALID_EVENT, "Event " << i << " is NULL");
+    }
+    if (event_list[i]->context != event_list[0]->context)
+    {
+      ReturnErrorInfo(event_list[0]->context, CL_INVALID_CONTEXT,
+                      "Event " << i << " is from another context");
+    }
+  }
 
   // Loop until all events complete
   bool complete = false;
-- 
2.43.0


From 51e6d11d6c113e8277acf682471882868ae7b6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:04 +0000
Subject: [PATCH 109/141] fix: check the lists of sources, binaries, headers
 and programs

---
 src/runtime/runtime.cpp | 43 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 418400d..a09d297 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2814,6 +2814,15 @@ CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithSource(
     return NULL;
   }
 
+  for (unsigned i = 0; i < count; i++)
+  {
+    if (!strings[i])
+    {
+      SetErrorArg(context, CL_INVALID_VALUE, strings);
+      return NULL;
+    }
+  }
+
   // Concatenate sources into a single string
   std::string source;
   for (unsigned i = 0; i < count; i++)
@@ -2875,6 +2884,15 @@ CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithBinary(
     SetErrorArg(context, CL_INVALID_DEVICE, device_list);
     return NULL;
   }
+  if (!lengths[0] || !binaries[0])
+  {
+    SetErrorInfo(context, CL_INVALID_VALUE, "Binary is NULL or empty");
+    if (binary_status)
+    {
+      binary_status[0] = CL_INVALID_VALUE;
+    }
+    return NULL;
+  }
 
   // Create program object
   cl_program prog = new _cl_program;
@@ -2917,6 +2935,15 @@ CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithBuiltInKernels(
     return NULL;
   }
 
+  for (unsigned i = 0; device_list && i < num_devices; i++)
+  {
+    if (!device_list[i] || device_list[i] != m_device)
+    {
+      SetErrorArg(context, CL_INVALID_DEVICE, device_list);
+      return NULL;
+    }
+  }
+
   SetErrorInfo(context, CL_INVALID_VALUE, "No built-in kernels available");
   return NULL;
 }
@@ -3065,9 +3092,19 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
   }
 
   // Prepare headers
+  if ((num_input_headers == 0) != (input_headers == NULL) ||
+      (num_input_headers == 0) != (header_include_names == NULL))
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_VALUE,
+                    "num_input_headers does not match the lists of headers");
+  }
   list<oclgrind::Program::Header> headers;
   for (unsigned i = 0; i < num_input_headers; i++)
   {
+    if (!input_headers[i])
+    {
+      ReturnErrorArg(program->context, CL_INVALID_PROGRAM, input_headers);
+    }
     headers.push_back(
       make_pair(header_include_names[i], input_headers[i]->program));
   }
@@ -3130,6 +3167,12 @@ clLinkProgram(cl_context context, cl_uint num_devices,
   }
 
   // Prepare programs
+  if (num_input_programs == 0 || !input_programs)
+  {
+    SetErrorInfo(context, CL_INVALID_VALUE,
+                 "num_input_programs is 0 or input_programs is NULL");
+    return NULL;
+  }
   list<const oclgrind::Program*> programs;
   for (unsigned i = 0; i < num_input_programs; i++)
   {
-- 
2.43.0


From 3956aec9fc4fc01f37f7dedb653d3222172f861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:36 +0000
Subject: [PATCH 110/141] fix: do not crash on NULL objects in unimplemented
 functions

---
 src/runtime/runtime.cpp | 55 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a09d297..f1ad194 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -6614,6 +6614,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMFree(
 {
   REGISTER_API;
 
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -6625,6 +6630,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMMemcpy(
 {
   REGISTER_API;
 
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -6636,6 +6646,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMMemFill(
 {
   REGISTER_API;
 
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -6647,6 +6662,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMMap(
 {
   REGISTER_API;
 
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -6658,6 +6678,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMUnmap(
 {
   REGISTER_API;
 
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -6777,6 +6802,11 @@ clSetKernelArgSVMPointer(cl_kernel kernel, cl_uint arg_index,
 {
   REGISTER_API;
 
+  if (!kernel)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_KERNEL, kernel);
+  }
+
   ReturnErrorInfo(kernel->program->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -6787,6 +6817,11 @@ CL_API_ENTRY cl_int CL_API_CALL clSetKernelExecInfo(
 {
   REGISTER_API;
 
+  if (!kernel)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_KERNEL, kernel);
+  }
+
   ReturnErrorInfo(kernel->program->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.0 API");
 }
@@ -6841,6 +6876,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueSVMMigrateMem(
 {
   REGISTER_API;
 
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+
   ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.1 API");
 }
@@ -6883,6 +6923,11 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelSubGroupInfo(
 {
   REGISTER_API;
 
+  if (!kernel)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_KERNEL, kernel);
+  }
+
   ReturnErrorInfo(kernel->program->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.1 API");
 }
@@ -6905,6 +6950,11 @@ clSetProgramReleaseCallback(
 {
   REGISTER_API;
 
+  if (!program)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_PROGRAM, program);
+  }
+
   ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.2 API");
 }
@@ -6915,6 +6965,11 @@ CL_API_ENTRY cl_int CL_API_CALL clSetProgramSpecializationConstant(
 {
   REGISTER_API;
 
+  if (!program)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_PROGRAM, program);
+  }
+
   ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
                   "Unimplemented OpenCL 2.2 API");
 }
-- 
2.43.0


From 1e5991ea4eb0d48ae7a42dac29e17e314da3a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:45 +0000
Subject: [PATCH 111/141] fix: terminate the path returned by readlink in the
 launcher

---
 src/runtime/oclgrind.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/oclgrind.cpp b/src/runtime/oclgrind.cpp
index 82204fe..7633598 100644
--- a/src/runtime/oclgrind.cpp
+++ b/src/runtime/oclgrind.cpp
@@ -423,7 +423,10 @@ static string getLibDirPath()
   uint32_t sz = PATH_MAX;
   if (_NSGetExecutablePath(exepath, &sz))
 #else // not apple
-  if (readlink("/proc/self/exe", exepath, PATH_MAX) == -1)
+  ssize_t length = readlink("/proc/self/exe", exepath, PATH_MAX - 1);
+  if (length >= 0)
+    exepath[length] = '\0';
+  else
 #endif
   {
     cerr << "[Oclgrind] Unable to get path to Oclgrind installation" << endl;
-- 
2.43.0


From 24f5df47f632bb8efdfbb07194cb81ab09e2238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 112/141] fix: do not truncate numeric options to 32 bits

---
 src/core/common.cpp    | 9 ++++++---
 src/core/common.h      | 2 +-
 src/plugins/Logger.cpp | 2 +-
 src/plugins/Logger.h   | 4 ++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index 3cb4e06..d53cac4 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -15,6 +15,8 @@
 #include <sys/time.h>
 #endif
 
+#include <climits>
+
 #include "llvm/IR/Instructions.h"
 #include "llvm/IR/Metadata.h"
 #include "llvm/IR/Operator.h"
@@ -306,15 +308,16 @@ bool checkEnv(const char* var)
   return (value && !strcmp(value, "1"));
 }
 
-unsigned getEnvInt(const char* var, int def, bool allowZero)
+size_t getEnvInt(const char* var, size_t def, bool allowZero)
 {
   const char* value = getenv(var);
   if (!value)
     return def;
 
   char* next;
-  uint64_t result = strtoul(value, &next, 10);
-  if (strlen(next) || result == ULONG_MAX || (!allowZero && !result))
+  uint64_t result = strtoull(value, &next, 10);
+  if (strlen(next) || strchr(value, '-') || result == ULLONG_MAX ||
+      result > SIZE_MAX || (!allowZero && !result))
   {
     cerr << endl << "Oclgrind: Invalid value for " << var << endl;
     abort();
diff --git a/src/core/common.h b/src/core/common.h
index 62cb288..f1d6cbe 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -160,7 +160,7 @@ struct Image
 bool checkEnv(const char* var);
 
 // Get an environment variable as an integer
-unsigned getEnvInt(const char* var, int def = 0, bool allowZero = true);
+size_t getEnvInt(const char* var, size_t def = 0, bool allowZero = true);
 
 // Output an instruction in human-readable format
 void dumpInstruction(std::ostream& out, const llvm::Instruction* instruction);
diff --git a/src/plugins/Logger.cpp b/src/plugins/Logger.cpp
index 3f33536..84063d3 100644
--- a/src/plugins/Logger.cpp
+++ b/src/plugins/Logger.cpp
@@ -18,7 +18,7 @@ using namespace std;
 
 #define DEFAULT_MAX_ERRORS 1000
 
-unsigned Logger::m_numErrors = 0;
+size_t Logger::m_numErrors = 0;
 
 static mutex logMutex;
 
diff --git a/src/plugins/Logger.h b/src/plugins/Logger.h
index 5595cfe..2ca5c0e 100644
--- a/src/plugins/Logger.h
+++ b/src/plugins/Logger.h
@@ -21,7 +21,7 @@ public:
 private:
   std::ostream* m_log;
 
-  unsigned m_maxErrors;
-  static unsigned m_numErrors;
+  size_t m_maxErrors;
+  static size_t m_numErrors;
 };
 } // namespace oclgrind
-- 
2.43.0


From 8278356515cd07bbc7de636bb33989dff3ef3073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:53 +0000
Subject: [PATCH 113/141] fix: keep log messages of other contexts in the log
 file

---
 src/plugins/Logger.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/plugins/Logger.cpp b/src/plugins/Logger.cpp
index 84063d3..2d03c22 100644
--- a/src/plugins/Logger.cpp
+++ b/src/plugins/Logger.cpp
@@ -10,6 +10,8 @@
 
 #include <fstream>
 #include <mutex>
+#include <set>
+#include <string>
 
 #include "Logger.h"
 
@@ -29,7 +31,13 @@ Logger::Logger(const Context* context) : Plugin(context)
   const char* logfile = getenv("OCLGRIND_LOG");
   if (logfile)
   {
-    m_log = new ofstream(logfile);
+    // Start with an empty file, and append to it if other contexts in this
+    // process already log to it
+    static set<string> logfiles;
+    lock_guard<mutex> lock(logMutex);
+    if (logfiles.insert(logfile).second)
+      ofstream(logfile).close();
+    m_log = new ofstream(logfile, ios::app);
     if (!m_log->good())
     {
       cerr << "Oclgrind: Unable to open log file '" << logfile << "'" << endl;
-- 
2.43.0


From 71715190b4d1383f4bf23718ce79bc08b380163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:04 +0000
Subject: [PATCH 114/141] fix: do not abort in the instruction counter when the
 locale is unknown

---
 src/plugins/InstructionCounter.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index 93a79cc..cd9f430 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -30,6 +30,19 @@ using namespace std;
 THREAD_LOCAL InstructionCounter::WorkerState InstructionCounter::m_state = {
   NULL};
 
+// The user's locale, or the classic one if that is not available
+static locale getDefaultLocale()
+{
+  try
+  {
+    return locale("");
+  }
+  catch (const runtime_error&)
+  {
+    return locale::classic();
+  }
+}
+
 static bool compareNamedCount(pair<string, size_t> a, pair<string, size_t> b)
 {
   if (a.second > b.second)
@@ -53,7 +66,7 @@ string InstructionCounter::getOpcodeName(unsigned opcode) const
   {
     // Create stream using default locale
     ostringstream name;
-    locale defaultLocale("");
+    locale defaultLocale = getDefaultLocale();
     name.imbue(defaultLocale);
 
     // Get number of bytes
@@ -158,7 +171,7 @@ void InstructionCounter::kernelEnd(const KernelInvocation* kernelInvocation)
 {
   // Load default locale
   locale previousLocale = cout.getloc();
-  locale defaultLocale("");
+  locale defaultLocale = getDefaultLocale();
   cout.imbue(defaultLocale);
 
   cout << "Instructions executed for kernel '"
-- 
2.43.0


From fefe31316ff32ebf9a8b58a4a2fdecd46950d23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:36 +0000
Subject: [PATCH 115/141] fix: samplers keep their context alive

---
 src/runtime/runtime.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f1ad194..d03aab9 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2680,6 +2680,8 @@ clCreateSampler(cl_context context, cl_bool normalized_coords,
   sampler->sampler = bitfield;
   sampler->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
@@ -2711,6 +2713,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseSampler(cl_sampler sampler)
 
   if (--sampler->refCount == 0)
   {
+    clReleaseContext(sampler->context);
     delete sampler;
   }
 
-- 
2.43.0


From a3133e743cc84e8dc339d9a881531fa12a108f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:48 +0000
Subject: [PATCH 116/141] fix: events keep their context alive

---
 src/runtime/async_queue.cpp | 1 +
 src/runtime/runtime.cpp     | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index ada38bf..a1641f4 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -48,6 +48,7 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   _event->type = type;
   _event->event = event;
   _event->refCount = 1;
+  clRetainContext(queue->context);
 
   // Add event to map
   eventMap[cmd] = _event;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index d03aab9..4fcacdc 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4107,6 +4107,8 @@ CL_API_ENTRY cl_event CL_API_CALL clCreateUserEvent(
   event->event->queue = NULL;
   event->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return event;
 }
@@ -4142,6 +4144,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseEvent(cl_event event)
     {
       delete event->event;
     }
+    clReleaseContext(event->context);
     delete event;
   }
 
-- 
2.43.0


From 351999cb31bb152abfd822e6c52fcf1705e8b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 117/141] fix: profiling info of events does not use a released
 queue

---
 src/runtime/async_queue.cpp | 1 +
 src/runtime/icd.h           | 1 +
 src/runtime/runtime.cpp     | 5 ++---
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index a1641f4..3269fb5 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -45,6 +45,7 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   _event->dispatch = m_dispatchTable;
   _event->context = queue->context;
   _event->queue = queue;
+  _event->profiling = queue->properties & CL_QUEUE_PROFILING_ENABLE;
   _event->type = type;
   _event->event = event;
   _event->refCount = 1;
diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index 85e1e69..3b996f7 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -234,6 +234,7 @@ struct _cl_event
   void* dispatch;
   cl_context context;
   cl_command_queue queue;
+  bool profiling;
   cl_command_type type;
   oclgrind::Event* event;
   std::list<std::pair<void(CL_CALLBACK*)(cl_event, cl_int, void*), void*>>
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 4fcacdc..9cfb515 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4100,6 +4100,7 @@ CL_API_ENTRY cl_event CL_API_CALL clCreateUserEvent(
   event->dispatch = m_dispatchTable;
   event->context = context;
   event->queue = 0;
+  event->profiling = false;
   event->type = CL_COMMAND_USER;
   event->event = new oclgrind::Event();
   event->event->state = CL_SUBMITTED;
@@ -4235,9 +4236,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetEventProfilingInfo(
   {
     ReturnErrorArg(NULL, CL_INVALID_EVENT, event);
   }
-  if (!event->queue ||
-      !(event->queue->properties & CL_QUEUE_PROFILING_ENABLE) ||
-      event->event->state != CL_COMPLETE)
+  if (!event->profiling || event->event->state != CL_COMPLETE)
   {
     ReturnError(event->context, CL_PROFILING_INFO_NOT_AVAILABLE);
   }
-- 
2.43.0


From 126f22c66b49e6db3f510096c394f42ca395af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 118/141] fix: context properties are freed after the
 destructor callbacks

---
 src/runtime/runtime.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 9cfb515..f132198 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1284,11 +1284,6 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseContext(cl_context context)
 
   if (--context->refCount == 0)
   {
-    if (context->properties)
-    {
-      free(context->properties);
-    }
-
     while (!context->callbacks.empty())
     {
       pair<void(CL_CALLBACK*)(cl_context, void*), void*> callback =
@@ -1297,6 +1292,11 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseContext(cl_context context)
       context->callbacks.pop();
     }
 
+    if (context->properties)
+    {
+      free(context->properties);
+    }
+
     delete context->context;
     delete context;
   }
-- 
2.43.0


From 797124caf61e1bd4d6be827390bce3f59792efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:23 +0000
Subject: [PATCH 119/141] fix: empty strings in clGetKernelArgInfo

---
 src/runtime/runtime.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f132198..3324f22 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3813,6 +3813,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
   } result_data;
 
   std::string str_data;
+  bool is_string = false;
 
   switch (param_name)
   {
@@ -3827,6 +3828,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
       kernel->kernel->getArgumentAccessQualifier(arg_indx);
     break;
   case CL_KERNEL_ARG_TYPE_NAME:
+    is_string = true;
     str_data = kernel->kernel->getArgumentTypeName(arg_indx).str();
     result_size = str_data.size() + 1;
     break;
@@ -3835,6 +3837,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
     result_data.typeQual = kernel->kernel->getArgumentTypeQualifier(arg_indx);
     break;
   case CL_KERNEL_ARG_NAME:
+    is_string = true;
     str_data = kernel->kernel->getArgumentName(arg_indx).str();
     result_size = str_data.size() + 1;
     break;
@@ -3851,7 +3854,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
                       ParamValueSizeTooSmall);
     }
 
-    if (str_data.size())
+    if (is_string)
       memcpy(param_value, str_data.c_str(), result_size);
     else
       memcpy(param_value, &result_data, result_size);
-- 
2.43.0


From 1fe8962f2e06eea8c1681018e6e09cf68f0a6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 120/141] fix: CL_PROGRAM_BINARIES skips NULL pointers

---
 src/runtime/runtime.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 3324f22..8a30eb0 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3336,7 +3336,11 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramInfo(
     }
     else if (param_name == CL_PROGRAM_BINARIES)
     {
-      program->program->getBinary(((unsigned char**)param_value)[0]);
+      unsigned char* binary = ((unsigned char**)param_value)[0];
+      if (binary)
+      {
+        program->program->getBinary(binary);
+      }
     }
     else
     {
-- 
2.43.0


From 1574b3ed55d4c68f30c16b026231fb989fb360b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:49 +0000
Subject: [PATCH 121/141] fix: clGetProgramInfo reports errors to the program's
 context

---
 src/runtime/runtime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 8a30eb0..e8e9bfb 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3332,7 +3332,8 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramInfo(
     // Check destination is large enough
     if (param_value_size < result_size)
     {
-      ReturnErrorInfo(NULL, CL_INVALID_VALUE, ParamValueSizeTooSmall);
+      ReturnErrorInfo(program->context, CL_INVALID_VALUE,
+                      ParamValueSizeTooSmall);
     }
     else if (param_name == CL_PROGRAM_BINARIES)
     {
-- 
2.43.0


From 2bcb38377cd658624647ba3ba05f37503b2b848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:00 +0000
Subject: [PATCH 122/141] fix: events live until their callbacks have run

---
 src/runtime/runtime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index e8e9bfb..324d9a6 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4186,12 +4186,16 @@ CL_API_ENTRY cl_int CL_API_CALL clSetUserEventStatus(
 
   event->event->state = execution_status;
 
+  // Keep event alive during its callbacks
+  clRetainEvent(event);
+
   // Perform callbacks
   list<pair<void(CL_CALLBACK*)(cl_event, cl_int, void*), void*>>::iterator itr;
   for (itr = event->callbacks.begin(); itr != event->callbacks.end(); itr++)
   {
     itr->first(event, execution_status, itr->second);
   }
+  clReleaseEvent(event);
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From d9bc678d99400fbff52498398c7c6e307f6c0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 123/141] fix: releasing a queue does not wait for its blocked
 commands

---
 src/runtime/async_queue.cpp | 59 +++++++++++++++++++++++++++++++++++++
 src/runtime/async_queue.h   |  7 +++++
 src/runtime/icd.h           |  1 +
 src/runtime/runtime.cpp     | 24 +++++++--------
 4 files changed, 79 insertions(+), 12 deletions(-)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index 3269fb5..afd7a7e 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -8,6 +8,7 @@
 
 #include "async_queue.h"
 
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 #include <list>
@@ -25,6 +26,9 @@ static map<Command*, cl_kernel> kernelMap;
 static map<Command*, cl_event> eventMap;
 static map<Command*, list<cl_event>> waitListMap;
 
+// Queues that have been released, but still have commands
+static list<cl_command_queue> releasedQueues;
+
 void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
                   cl_uint numEvents, const cl_event* waitList,
                   cl_event* eventOut)
@@ -39,6 +43,7 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
 
   // Enqueue command
   Event* event = queue->queue->enqueue(cmd);
+  queue->numCommands++;
 
   // Create event objects
   cl_event _event = new _cl_event;
@@ -129,5 +134,59 @@ void asyncQueueRelease(Command* cmd)
     clReleaseEvent(*waitItr);
   }
   waitListMap.erase(cmd);
+
+  // Delete queue if this was the last command of a released queue
+  cl_command_queue queue = event->queue;
   clReleaseEvent(event);
+  queue->numCommands--;
+  asyncQueueDestroy(queue);
+}
+
+void asyncQueueFlush(cl_command_queue queue)
+{
+  while (Command* cmd = queue->queue->executeNext())
+  {
+    asyncQueueRelease(cmd);
+    delete cmd;
+  }
+}
+
+void asyncQueueDestroy(cl_command_queue queue)
+{
+  if (queue->refCount)
+  {
+    return;
+  }
+
+  releasedQueues.remove(queue);
+  if (queue->numCommands)
+  {
+    // Commands that are waiting for user events are executed later
+    releasedQueues.push_back(queue);
+    return;
+  }
+
+  delete queue->queue;
+  clReleaseContext(queue->context);
+  delete queue;
+}
+
+void asyncQueueFlushReleased()
+{
+  list<cl_command_queue> queues = releasedQueues;
+  for (cl_command_queue queue : queues)
+  {
+    // Skip queues that were deleted while flushing another one
+    if (find(releasedQueues.begin(), releasedQueues.end(), queue) ==
+        releasedQueues.end())
+    {
+      continue;
+    }
+
+    // Keep queue alive while its commands are executed
+    queue->refCount++;
+    asyncQueueFlush(queue);
+    queue->refCount--;
+    asyncQueueDestroy(queue);
+  }
 }
diff --git a/src/runtime/async_queue.h b/src/runtime/async_queue.h
index 0ad3e8a..eff554d 100644
--- a/src/runtime/async_queue.h
+++ b/src/runtime/async_queue.h
@@ -16,3 +16,10 @@ extern void asyncEnqueue(cl_command_queue queue, cl_command_type type,
 extern void asyncQueueRetain(oclgrind::Command* cmd, cl_mem mem);
 extern void asyncQueueRetain(oclgrind::Command* cmd, cl_kernel);
 extern void asyncQueueRelease(oclgrind::Command* cmd);
+
+// Execute all commands that are not waiting for user events
+extern void asyncQueueFlush(cl_command_queue queue);
+// Delete a queue that has been released, unless it still has commands
+extern void asyncQueueDestroy(cl_command_queue queue);
+// Flush released queues that still have commands
+extern void asyncQueueFlushReleased();
diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index 3b996f7..163b4c3 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -185,6 +185,7 @@ struct _cl_command_queue
   std::vector<cl_queue_properties> properties_array;
   oclgrind::Queue* queue;
   unsigned int refCount;
+  unsigned int numCommands; // Number of commands that have not been released
 };
 
 struct _cl_mem
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 324d9a6..2aa405d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1401,6 +1401,7 @@ clCreateCommandQueue(cl_context context, cl_device_id device,
   queue->properties = properties;
   queue->context = context;
   queue->refCount = 1;
+  queue->numCommands = 0;
 
   clRetainContext(context);
 
@@ -1443,15 +1444,15 @@ clReleaseCommandQueue(cl_command_queue command_queue) CL_API_SUFFIX__VERSION_1_0
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
 
+  if (command_queue->refCount == 1)
+  {
+    asyncQueueFlush(command_queue);
+  }
+
   if (--command_queue->refCount == 0)
   {
-    // TODO: Retain/release queue from async thread
-    // TODO: Spec states that this function performs an implicit flush,
-    // so maybe we are OK to delete queue here?
-    clFinish(command_queue);
-    delete command_queue->queue;
-    clReleaseContext(command_queue->context);
-    delete command_queue;
+    // The queue is deleted once all of its commands have finished
+    asyncQueueDestroy(command_queue);
   }
 
   return CL_SUCCESS;
@@ -4197,6 +4198,8 @@ CL_API_ENTRY cl_int CL_API_CALL clSetUserEventStatus(
   }
   clReleaseEvent(event);
 
+  asyncQueueFlushReleased();
+
   return CL_SUCCESS;
 }
 
@@ -4306,11 +4309,7 @@ CL_API_ENTRY cl_int CL_API_CALL clFlush(cl_command_queue command_queue)
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
 
-  // Execute all commands that are not waiting for user events
-  while (oclgrind::Command* cmd = command_queue->queue->executeNext())
-  {
-    releaseCommand(cmd);
-  }
+  asyncQueueFlush(command_queue);
 
   return CL_SUCCESS;
 }
@@ -6569,6 +6568,7 @@ CL_API_ENTRY cl_command_queue CL_API_CALL clCreateCommandQueueWithProperties(
   queue->properties = props;
   queue->context = context;
   queue->refCount = 1;
+  queue->numCommands = 0;
   if (properties)
   {
     queue->properties_array.assign(properties, properties + numProperties);
-- 
2.43.0


From 85ebc1a29af530c799708ee65125dac1e51fb39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:44 +0000
Subject: [PATCH 124/141] fix: initialise the reference count of samplers
 created with properties

---
 src/runtime/runtime.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2aa405d..00fc544 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -6803,12 +6803,15 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
   sampler->addressMode = addressing_mode;
   sampler->filterMode = filter_mode;
   sampler->sampler = bitfield;
+  sampler->refCount = 1;
   if (sampler_properties)
   {
     sampler->properties.assign(sampler_properties,
                                sampler_properties + numProperties);
   }
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
-- 
2.43.0


From 699e94ddfe06a9db328c8c859da6e36564286c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:21 +0000
Subject: [PATCH 125/141] fix: every release of a queue flushes it

---
 src/runtime/runtime.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 00fc544..bfc6ecc 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1444,10 +1444,7 @@ clReleaseCommandQueue(cl_command_queue command_queue) CL_API_SUFFIX__VERSION_1_0
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
 
-  if (command_queue->refCount == 1)
-  {
-    asyncQueueFlush(command_queue);
-  }
+  asyncQueueFlush(command_queue);
 
   if (--command_queue->refCount == 0)
   {
-- 
2.43.0


From efd7c9a6f64f0b4a0a5912caa5a462283b56cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:21 +0000
Subject: [PATCH 126/141] fix: flushed commands execute once their user events
 are set

---
 src/runtime/async_queue.cpp | 44 ++++++++++++++++++-------------------
 src/runtime/async_queue.h   |  4 ++--
 src/runtime/runtime.cpp     |  2 +-
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index afd7a7e..c404a9b 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -26,8 +26,9 @@ static map<Command*, cl_kernel> kernelMap;
 static map<Command*, cl_event> eventMap;
 static map<Command*, list<cl_event>> waitListMap;
 
-// Queues that have been released, but still have commands
-static list<cl_command_queue> releasedQueues;
+// Queues that have been flushed, but still have commands that were waiting for
+// user events
+static list<cl_command_queue> flushedQueues;
 
 void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
                   cl_uint numEvents, const cl_event* waitList,
@@ -144,49 +145,48 @@ void asyncQueueRelease(Command* cmd)
 
 void asyncQueueFlush(cl_command_queue queue)
 {
+  // Keep queue alive while its commands are executed
+  queue->refCount++;
   while (Command* cmd = queue->queue->executeNext())
   {
     asyncQueueRelease(cmd);
     delete cmd;
   }
-}
+  queue->refCount--;
 
-void asyncQueueDestroy(cl_command_queue queue)
-{
-  if (queue->refCount)
+  // Commands that are waiting for user events are executed later
+  flushedQueues.remove(queue);
+  if (queue->numCommands)
   {
-    return;
+    flushedQueues.push_back(queue);
   }
 
-  releasedQueues.remove(queue);
-  if (queue->numCommands)
+  asyncQueueDestroy(queue);
+}
+
+void asyncQueueDestroy(cl_command_queue queue)
+{
+  if (queue->refCount || queue->numCommands)
   {
-    // Commands that are waiting for user events are executed later
-    releasedQueues.push_back(queue);
     return;
   }
 
+  flushedQueues.remove(queue);
   delete queue->queue;
   clReleaseContext(queue->context);
   delete queue;
 }
 
-void asyncQueueFlushReleased()
+void asyncQueueFlushPending()
 {
-  list<cl_command_queue> queues = releasedQueues;
+  list<cl_command_queue> queues = flushedQueues;
   for (cl_command_queue queue : queues)
   {
     // Skip queues that were deleted while flushing another one
-    if (find(releasedQueues.begin(), releasedQueues.end(), queue) ==
-        releasedQueues.end())
+    if (find(flushedQueues.begin(), flushedQueues.end(), queue) !=
+        flushedQueues.end())
     {
-      continue;
+      asyncQueueFlush(queue);
     }
-
-    // Keep queue alive while its commands are executed
-    queue->refCount++;
-    asyncQueueFlush(queue);
-    queue->refCount--;
-    asyncQueueDestroy(queue);
   }
 }
diff --git a/src/runtime/async_queue.h b/src/runtime/async_queue.h
index eff554d..6b52c83 100644
--- a/src/runtime/async_queue.h
+++ b/src/runtime/async_queue.h
@@ -21,5 +21,5 @@ extern void asyncQueueRelease(oclgrind::Command* cmd);
 extern void asyncQueueFlush(cl_command_queue queue);
 // Delete a queue that has been released, unless it still has commands
 extern void asyncQueueDestroy(cl_command_queue queue);
-// Flush released queues that still have commands
-extern void asyncQueueFlushReleased();
+// Flush queues again that have been flushed, but still have commands
+extern void asyncQueueFlushPending();
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index bfc6ecc..a7385d1 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4195,7 +4195,7 @@ CL_API_ENTRY cl_int CL_API_CALL clSetUserEventStatus(
   }
   clReleaseEvent(event);
 
-  asyncQueueFlushReleased();
+  asyncQueueFlushPending();
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From 1bf6dfbdd8210c1b7bb631da1355f88ff6f442e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 127/141] fix: do not execute commands when a user event is set

---
 src/runtime/async_queue.cpp | 30 +++++++++++++++---------------
 src/runtime/async_queue.h   |  6 ++++--
 src/runtime/runtime.cpp     |  8 ++++++--
 3 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index c404a9b..2d14f32 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -26,9 +26,9 @@ static map<Command*, cl_kernel> kernelMap;
 static map<Command*, cl_event> eventMap;
 static map<Command*, list<cl_event>> waitListMap;
 
-// Queues that have been flushed, but still have commands that were waiting for
+// Queues that have been released, but still have commands that were waiting for
 // user events
-static list<cl_command_queue> flushedQueues;
+static list<cl_command_queue> releasedQueues;
 
 void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
                   cl_uint numEvents, const cl_event* waitList,
@@ -154,37 +154,37 @@ void asyncQueueFlush(cl_command_queue queue)
   }
   queue->refCount--;
 
-  // Commands that are waiting for user events are executed later
-  flushedQueues.remove(queue);
-  if (queue->numCommands)
-  {
-    flushedQueues.push_back(queue);
-  }
-
   asyncQueueDestroy(queue);
 }
 
 void asyncQueueDestroy(cl_command_queue queue)
 {
-  if (queue->refCount || queue->numCommands)
+  if (queue->refCount)
+  {
+    return;
+  }
+
+  releasedQueues.remove(queue);
+  if (queue->numCommands)
   {
+    // Commands that are waiting for user events are executed later
+    releasedQueues.push_back(queue);
     return;
   }
 
-  flushedQueues.remove(queue);
   delete queue->queue;
   clReleaseContext(queue->context);
   delete queue;
 }
 
-void asyncQueueFlushPending()
+void asyncQueueFlushReleased()
 {
-  list<cl_command_queue> queues = flushedQueues;
+  list<cl_command_queue> queues = releasedQueues;
   for (cl_command_queue queue : queues)
   {
     // Skip queues that were deleted while flushing another one
-    if (find(flushedQueues.begin(), flushedQueues.end(), queue) !=
-        flushedQueues.end())
+    if (find(releasedQueues.begin(), releasedQueues.end(), queue) !=
+        releasedQueues.end())
     {
       asyncQueueFlush(queue);
     }
diff --git a/src/runtime/async_queue.h b/src/runtime/async_queue.h
index 6b52c83..1769349 100644
--- a/src/runtime/async_queue.h
+++ b/src/runtime/async_queue.h
@@ -21,5 +21,7 @@ extern void asyncQueueRelease(oclgrind::Command* cmd);
 extern void asyncQueueFlush(cl_command_queue queue);
 // Delete a queue that has been released, unless it still has commands
 extern void asyncQueueDestroy(cl_command_queue queue);
-// Flush queues again that have been flushed, but still have commands
-extern void asyncQueueFlushPending();
+// Execute commands of released queues that no longer wait for user events.
+// Setting a user event does not do that, as other threads may do so while this
+// one waits for a command.
+extern void asyncQueueFlushReleased();
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a7385d1..93e36db 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1445,6 +1445,7 @@ clReleaseCommandQueue(cl_command_queue command_queue) CL_API_SUFFIX__VERSION_1_0
   }
 
   asyncQueueFlush(command_queue);
+  asyncQueueFlushReleased();
 
   if (--command_queue->refCount == 0)
   {
@@ -3976,6 +3977,8 @@ CL_API_ENTRY cl_int CL_API_CALL clWaitForEvents(
     }
   }
 
+  asyncQueueFlushReleased();
+
   // Loop until all events complete
   bool complete = false;
   while (!complete)
@@ -4195,8 +4198,6 @@ CL_API_ENTRY cl_int CL_API_CALL clSetUserEventStatus(
   }
   clReleaseEvent(event);
 
-  asyncQueueFlushPending();
-
   return CL_SUCCESS;
 }
 
@@ -4307,6 +4308,7 @@ CL_API_ENTRY cl_int CL_API_CALL clFlush(cl_command_queue command_queue)
   }
 
   asyncQueueFlush(command_queue);
+  asyncQueueFlushReleased();
 
   return CL_SUCCESS;
 }
@@ -4328,6 +4330,8 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
     releaseCommand(command_queue->queue->executeNext());
   }
 
+  asyncQueueFlushReleased();
+
   return CL_SUCCESS;
 }
 
-- 
2.43.0


From 962de74bef265a05a3fc356906dcf84d2dd73e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:01 +0000
Subject: [PATCH 128/141] fix: the debugger resets a SIGINT handler it did not
 replace

---
 src/plugins/InteractiveDebugger.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index b9b2f1a..6a64dc9 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -48,11 +48,22 @@ using namespace std;
 static bool sigintBreak = false;
 #if !defined(_WIN32) || defined(__MINGW32__)
 static struct sigaction m_oldSignalHandler;
+static bool m_signalHandlerInstalled = false;
 void handleSignal(int s)
 {
   if (s == SIGINT)
     sigintBreak = true;
 }
+
+static void restoreSignalHandler()
+{
+  // Only if it was replaced: nothing has been saved otherwise
+  if (m_signalHandlerInstalled)
+  {
+    sigaction(SIGINT, &m_oldSignalHandler, NULL);
+    m_signalHandlerInstalled = false;
+  }
+}
 #endif
 
 InteractiveDebugger::InteractiveDebugger(const Context* context)
@@ -94,7 +105,7 @@ void InteractiveDebugger::instructionExecuted(
 
 #if !defined(_WIN32) || defined(__MINGW32__)
   // Restore old signal handler
-  sigaction(SIGINT, &m_oldSignalHandler, NULL);
+  restoreSignalHandler();
 #endif
 
   m_forceBreak = false;
@@ -207,7 +218,7 @@ void InteractiveDebugger::kernelEnd(const KernelInvocation* kernelInvocation)
 
 #if !defined(_WIN32) || defined(__MINGW32__)
   // Restore old signal handler
-  sigaction(SIGINT, &m_oldSignalHandler, NULL);
+  restoreSignalHandler();
 #endif
 }
 
@@ -434,7 +445,11 @@ bool InteractiveDebugger::cont(vector<string> args)
   sigHandler.sa_handler = handleSignal;
   sigemptyset(&sigHandler.sa_mask);
   sigHandler.sa_flags = 0;
-  sigaction(SIGINT, &sigHandler, &m_oldSignalHandler);
+  if (!m_signalHandlerInstalled)
+  {
+    sigaction(SIGINT, &sigHandler, &m_oldSignalHandler);
+    m_signalHandlerInstalled = true;
+  }
 #endif
 
   m_continue = true;
@@ -855,7 +870,7 @@ bool InteractiveDebugger::quit(vector<string> args)
 {
 #if !defined(_WIN32) || defined(__MINGW32__)
   // Restore old signal handler
-  sigaction(SIGINT, &m_oldSignalHandler, NULL);
+  restoreSignalHandler();
 #endif
 
   m_running = false;
-- 
2.43.0


From 335af48721a4c92c45b24a5a71698faf0ecb5598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:15 +0000
Subject: [PATCH 129/141] fix: the workitem command of the debugger with more
 than three IDs

---
 src/plugins/InteractiveDebugger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index 6a64dc9..5ce3fd2 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -906,6 +906,12 @@ bool InteractiveDebugger::step(vector<string> args)
 
 bool InteractiveDebugger::workitem(vector<string> args)
 {
+  if (args.size() > 4)
+  {
+    cout << "Invalid number of arguments." << endl;
+    return false;
+  }
+
   // TODO: Take offsets into account?
   Size3 gid(0, 0, 0);
   for (unsigned i = 1; i < args.size(); i++)
-- 
2.43.0


From 1912ee01273a0931044adc5a449bd3bc984fb27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 130/141] fix: the workitem command of the debugger ignores the
 global offset

---
 src/plugins/InteractiveDebugger.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index 5ce3fd2..076a892 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -912,14 +912,16 @@ bool InteractiveDebugger::workitem(vector<string> args)
     return false;
   }
 
-  // TODO: Take offsets into account?
-  Size3 gid(0, 0, 0);
+  const Size3 offset = m_kernelInvocation->getGlobalOffset();
+  Size3 gid = offset;
   for (unsigned i = 1; i < args.size(); i++)
   {
     // Parse argument as a target line number
     istringstream ss(args[i]);
     ss >> gid[i - 1];
-    if (!ss.eof() || gid[i - 1] >= m_kernelInvocation->getGlobalSize()[i - 1])
+    if (!ss.eof() || gid[i - 1] < offset[i - 1] ||
+        gid[i - 1] - offset[i - 1] >=
+          m_kernelInvocation->getGlobalSize()[i - 1])
     {
       cout << "Invalid global ID." << endl;
       return false;
@@ -929,7 +931,8 @@ bool InteractiveDebugger::workitem(vector<string> args)
   // Ugly const_cast since this operation actually changes something about
   // the simulation. This goes against the idea that plugins are entirely
   // passive.
-  if (!const_cast<KernelInvocation*>(m_kernelInvocation)->switchWorkItem(gid))
+  if (!const_cast<KernelInvocation*>(m_kernelInvocation)->switchWorkItem(
+        Size3(gid.x - offset.x, gid.y - offset.y, gid.z - offset.z)))
   {
     cout << "Work-item has already finished, unable to load state." << endl;
     return false;
-- 
2.43.0


From 95badfa938c106f3f84add48561eef664515dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 131/141] fix: work-items the debugger switches to are not in a
 remainder work-group

---
 src/core/KernelInvocation.cpp | 29 ++++++++++++++++++-----------
 src/core/KernelInvocation.h   |  1 +
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index b6a6ca5..8d3b3ed 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -173,6 +173,20 @@ void KernelInvocation::run()
   }
 }
 
+Size3 KernelInvocation::getWorkGroupSize(Size3 wgid) const
+{
+  Size3 wgsize = m_localSize;
+
+  // Handle remainder work-groups
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (wgsize[i] * (wgid[i] + 1) > m_globalSize[i])
+      wgsize[i] = m_globalSize[i] % wgsize[i];
+  }
+
+  return wgsize;
+}
+
 int KernelInvocation::getWorkerID() const
 {
   return workerState.id;
@@ -203,16 +217,8 @@ void KernelInvocation::runWorker(int id)
           break;
 
         Size3 wgid = m_workGroups[index];
-        Size3 wgsize = m_localSize;
-
-        // Handle remainder work-groups
-        for (unsigned i = 0; i < 3; i++)
-        {
-          if (wgsize[i] * (wgid[i] + 1) > m_globalSize[i])
-            wgsize[i] = m_globalSize[i] % wgsize[i];
-        }
-
-        workerState.workGroup = new WorkGroup(this, wgid, wgsize);
+        workerState.workGroup =
+          new WorkGroup(this, wgid, getWorkGroupSize(wgid));
         m_context->notifyWorkGroupBegin(workerState.workGroup);
       }
 
@@ -302,7 +308,8 @@ bool KernelInvocation::switchWorkItem(const Size3 gid)
     {
       if (group == *pItr)
       {
-        workerState.workGroup = new WorkGroup(this, group);
+        workerState.workGroup =
+          new WorkGroup(this, group, getWorkGroupSize(group));
         m_context->notifyWorkGroupBegin(workerState.workGroup);
         found = true;
 
diff --git a/src/core/KernelInvocation.h b/src/core/KernelInvocation.h
index ef03c8e..90f9388 100644
--- a/src/core/KernelInvocation.h
+++ b/src/core/KernelInvocation.h
@@ -55,6 +55,7 @@ private:
   std::list<WorkGroup*> m_runningGroups;
 
   // Worker threads
+  Size3 getWorkGroupSize(Size3 wgid) const;
   void runWorker(int id);
   unsigned m_numWorkers;
 };
-- 
2.43.0


From 450447cc035ce9012a478501ececd1d697b34ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:59 +0000
Subject: [PATCH 132/141] fix: resume a work-group that was at a barrier when
 the debugger left it

---
 src/core/KernelInvocation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index 8d3b3ed..6395e72 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -224,6 +224,12 @@ void KernelInvocation::runWorker(int id)
 
       // Execute work-group
       workerState.workItem = workerState.workGroup->getNextWorkItem();
+      if (!workerState.workItem && workerState.workGroup->hasBarrier())
+      {
+        // Every work-item was at a barrier when the debugger switched away
+        workerState.workGroup->clearBarrier();
+        workerState.workItem = workerState.workGroup->getNextWorkItem();
+      }
       while (workerState.workItem)
       {
         // Run work-item until complete or at barrier
-- 
2.43.0


From 65e3842cbfe3ec8f29ea5aa0180a37c8da8a2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:09 +0000
Subject: [PATCH 133/141] fix: address checks overflow for huge sizes

---
 src/core/Memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index ef75e92..c146699 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -398,7 +398,8 @@ bool Memory::isAddressValid(size_t address, size_t size) const
   size_t buffer = extractBuffer(address);
   size_t offset = extractOffset(address);
   if (buffer == 0 || buffer >= m_memory.size() || !m_memory[buffer] ||
-      offset + size > m_memory[buffer]->size)
+      size > m_memory[buffer]->size ||
+      offset > m_memory[buffer]->size - size)
   {
     return false;
   }
-- 
2.43.0


From 0e55ae36a4a3a850df8b6b56c5402d5bc16c447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:52 +0000
Subject: [PATCH 134/141] fix: the debugger prints variables of other functions
 and blocks

---
 src/core/WorkItem.cpp         | 30 +++++++++++++++++++++++-------
 src/core/WorkItem.h           |  3 +--
 src/core/WorkItemBuiltins.cpp |  4 ++--
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 2f69bcd..29161af 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -394,7 +394,7 @@ void WorkItem::execute(const llvm::Instruction* instruction)
       {
         const llvm::Value* value = dbgVar->getValue();
         const llvm::DILocalVariable* var = dbgVar->getVariable();
-        m_variables[var->getName().str()] = {value, var};
+        m_variables[var] = value;
       }
     }
   }
@@ -563,13 +563,29 @@ void WorkItem::printExpression(string expr) const
   const llvm::Value* baseValue = NULL;
   const llvm::DIVariable* divar = NULL;
 
-  // Check private variables
-  VariableMap::const_iterator itr;
-  itr = m_variables.find(basename);
-  if (itr != m_variables.end())
+  // Get innermost scope at current position
+  const llvm::Instruction* position = m_state == FINISHED
+                                        ? m_position->currBlock->getTerminator()
+                                        : &*m_position->currInst;
+  const llvm::DILocalScope* scope = position->getFunction()->getSubprogram();
+  if (const llvm::DILocation* location = position->getDebugLoc())
+    scope = location->getScope();
+
+  // Check private variables of each enclosing scope
+  while (scope && !baseValue)
   {
-    baseValue = itr->second.first;
-    divar = itr->second.second;
+    VariableMap::const_iterator itr;
+    for (itr = m_variables.begin(); itr != m_variables.end(); itr++)
+    {
+      if (itr->first->getName() == basename &&
+          itr->first->getScope()->getNonLexicalBlockFileScope() ==
+            scope->getNonLexicalBlockFileScope())
+      {
+        divar = itr->first;
+        baseValue = itr->second;
+      }
+    }
+    scope = llvm::dyn_cast<llvm::DILocalScope>(scope->getScope());
   }
 
   // Check global variables
diff --git a/src/core/WorkItem.h b/src/core/WorkItem.h
index 42999fe..a80f066 100644
--- a/src/core/WorkItem.h
+++ b/src/core/WorkItem.h
@@ -181,8 +181,7 @@ private:
 #undef INSTRUCTION
 
 private:
-  typedef std::map<std::string,
-                   std::pair<const llvm::Value*, const llvm::DILocalVariable*>>
+  typedef std::map<const llvm::DILocalVariable*, const llvm::Value*>
     VariableMap;
 
   size_t m_globalIndex;
diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index bcc5ef9..86eeb8c 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3929,7 +3929,7 @@ class WorkItemBuiltins
     const llvm::Value* addr = dbgInst->getAddress();
 
     const llvm::DILocalVariable* var = dbgInst->getVariable();
-    workItem->m_variables[var->getName().str()] = {addr, var};
+    workItem->m_variables[var] = addr;
   }
 
   DEFINE_BUILTIN(llvm_dbg_value)
@@ -3941,7 +3941,7 @@ class WorkItemBuiltins
     // uint64_t offset = dbgInst->getOffset();
 
     const llvm::DILocalVariable* var = dbgInst->getVariable();
-    workItem->m_variables[var->getName().str()] = {value, var};
+    workItem->m_variables[var] = value;
   }
 
   DEFINE_BUILTIN(llvm_lifetime_start)
-- 
2.43.0


From f81d95ae53b28cef83db91f43182aee54127c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:03 +0000
Subject: [PATCH 135/141] fix: the debugger prints unsigned values as signed

---
 src/core/WorkItem.cpp | 28 +++++++++++++++++++++++++++-
 src/core/common.cpp   | 27 ++++++++++++++++++++-------
 src/core/common.h     |  3 ++-
 3 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 29161af..7cf9041 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -542,6 +542,32 @@ static llvm::Type* getLLVMType(const llvm::DIType* type,
   }
   return nullptr;
 }
+
+// Whether a type is, or is made up of, unsigned integers
+static bool isUnsignedType(const llvm::Metadata* md)
+{
+  while (md)
+  {
+    if (auto* basic = llvm::dyn_cast<llvm::DIBasicType>(md))
+    {
+      return basic->getSignedness() ==
+             llvm::DIBasicType::Signedness::Unsigned;
+    }
+    else if (auto* derived = llvm::dyn_cast<llvm::DIDerivedType>(md))
+    {
+      md = derived->getRawBaseType();
+    }
+    else if (auto* composite = llvm::dyn_cast<llvm::DICompositeType>(md))
+    {
+      md = composite->getRawBaseType();
+    }
+    else
+    {
+      break;
+    }
+  }
+  return false;
+}
 } // namespace
 
 void WorkItem::printExpression(string expr) const
@@ -780,7 +806,7 @@ void WorkItem::printExpression(string expr) const
     }
   }
 
-  printTypedData(type, data);
+  printTypedData(type, data, isUnsignedType(mdtype));
 }
 
 bool WorkItem::printValue(const llvm::Value* value) const
diff --git a/src/core/common.cpp b/src/core/common.cpp
index d53cac4..8af6440 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -786,7 +786,8 @@ double now()
 #endif
 }
 
-void printTypedData(const llvm::Type* type, const unsigned char* data)
+void printTypedData(const llvm::Type* type, const unsigned char* data,
+                    bool isUnsigned)
 {
   // TODO: Interpret other types (array, struct)
   unsigned size = getTypeSize(type);
@@ -803,16 +804,28 @@ void printTypedData(const llvm::Type* type, const unsigned char* data)
     switch (size)
     {
     case 1:
-      cout << (int)*(char*)data;
+      if (isUnsigned)
+        cout << (int)*data;
+      else
+        cout << (int)*(char*)data;
       break;
     case 2:
-      cout << *(short*)data;
+      if (isUnsigned)
+        cout << *(unsigned short*)data;
+      else
+        cout << *(short*)data;
       break;
     case 4:
-      cout << *(int*)data;
+      if (isUnsigned)
+        cout << *(unsigned int*)data;
+      else
+        cout << *(int*)data;
       break;
     case 8:
-      cout << *(long*)data;
+      if (isUnsigned)
+        cout << *(unsigned long*)data;
+      else
+        cout << *(long*)data;
       break;
     default:
       cout << "(invalid integer size)";
@@ -830,7 +843,7 @@ void printTypedData(const llvm::Type* type, const unsigned char* data)
       {
         cout << ",";
       }
-      printTypedData(elemType, data + i * getTypeSize(elemType));
+      printTypedData(elemType, data + i * getTypeSize(elemType), isUnsigned);
     }
     cout << ")";
     break;
@@ -847,7 +860,7 @@ void printTypedData(const llvm::Type* type, const unsigned char* data)
     {
       if (i > 0)
         cout << ",";
-      printTypedData(elemType, data + i * elemSize);
+      printTypedData(elemType, data + i * elemSize, isUnsigned);
     }
     cout << "}";
     break;
diff --git a/src/core/common.h b/src/core/common.h
index f1d6cbe..c72a077 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -201,7 +201,8 @@ bool isVector3(const llvm::Value* value);
 double now();
 
 // Print data in a human readable format (according to its type)
-void printTypedData(const llvm::Type* type, const unsigned char* data);
+void printTypedData(const llvm::Type* type, const unsigned char* data,
+                    bool isUnsigned = false);
 
 // Resolve a constant pointer, using a set of known constant values
 size_t resolveConstantPointer(const llvm::Value* ptr,
-- 
2.43.0


From 13ac703e25be3bc764f0ad9a5509196c60e7f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 136/141] fix: memory and pointers printed by the debugger
 leave the output in hexadecimal

---
 src/core/common.cpp                 | 3 ++-
 src/plugins/InteractiveDebugger.cpp | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index 8af6440..31f5d16 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -849,7 +849,7 @@ void printTypedData(const llvm::Type* type, const unsigned char* data,
     break;
   }
   case llvm::Type::PointerTyID:
-    cout << "0x" << hex << *(size_t*)data;
+    cout << "0x" << hex << *(size_t*)data << dec;
     break;
   case llvm::Type::ArrayTyID:
   {
@@ -871,6 +871,7 @@ void printTypedData(const llvm::Type* type, const unsigned char* data,
     {
       cout << setw(2) << (int)data[i];
     }
+    cout << dec;
   }
 }
 
diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index 076a892..1435814 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -756,7 +756,10 @@ bool InteractiveDebugger::mem(vector<string> args)
   // If no arguments, dump memory
   if (args.size() == 1)
   {
+    ios format(NULL);
+    format.copyfmt(cout);
     memory->dump();
+    cout.copyfmt(format);
     return false;
   }
   else if (args.size() > 3)
@@ -796,8 +799,10 @@ bool InteractiveDebugger::mem(vector<string> args)
   }
 
   // Output data
+  ios format(NULL);
+  format.copyfmt(cout);
   unsigned char* data = (unsigned char*)memory->getPointer(address);
-  for (unsigned i = 0; i < size; i++)
+  for (size_t i = 0; i < size; i++)
   {
     if (i % 4 == 0)
     {
@@ -808,6 +813,7 @@ bool InteractiveDebugger::mem(vector<string> args)
     cout << " " << hex << uppercase << setw(2) << setfill('0') << (int)data[i];
   }
   cout << endl << endl;
+  cout.copyfmt(format);
 
   return false;
 }
-- 
2.43.0


From 08810246f26d34b06c48d2c3d4c9b41bca98e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:50 +0000
Subject: [PATCH 137/141] fix: the debugger accepts line numbers that do not
 exist

---
 src/plugins/InteractiveDebugger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index 1435814..99500df 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -418,7 +418,7 @@ bool InteractiveDebugger::brk(vector<string> args)
     // Parse argument as a target line number
     istringstream ss(args[1]);
     ss >> lineNum;
-    if (!ss.eof() || !lineNum || lineNum > m_program->getNumSourceLines() + 1)
+    if (!ss.eof() || !lineNum || lineNum > m_program->getNumSourceLines())
     {
       cout << "Invalid line number." << endl;
       return false;
@@ -691,7 +691,7 @@ bool InteractiveDebugger::list(vector<string> args)
       // Parse argument as a target line number
       istringstream ss(args[1]);
       ss >> start;
-      if (!ss.eof())
+      if (!ss.eof() || start > m_program->getNumSourceLines())
       {
         cout << "Invalid line number." << endl;
         return false;
-- 
2.43.0


From 161c9fd453a46124793e2cd872ea745ce4cfda98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:04 +0000
Subject: [PATCH 138/141] fix: debugger help for the short memory commands

---
 src/plugins/InteractiveDebugger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index 99500df..69f9dbb 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -563,11 +563,11 @@ bool InteractiveDebugger::help(vector<string> args)
            args[1] == "gm" || args[1] == "lm" || args[1] == "pm")
   {
     cout << "Examine contents of ";
-    if (args[1] == "gmem")
+    if (args[1] == "gmem" || args[1] == "gm")
       cout << "global";
-    if (args[1] == "lmem")
+    if (args[1] == "lmem" || args[1] == "lm")
       cout << "local";
-    if (args[1] == "pmem")
+    if (args[1] == "pmem" || args[1] == "pm")
       cout << "private";
     cout << " memory." << endl
          << "With no arguments, dumps entire contents of memory." << endl
-- 
2.43.0


From 70f2610c6eb77091e86be761137cd70a24ec74aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:19 +0000
Subject: [PATCH 139/141] fix: the debugger counts a call as made before it
 leaves the calling line

---
 src/plugins/InteractiveDebugger.cpp | 23 +++++++++++++++++++----
 src/plugins/InteractiveDebugger.h   |  1 +
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index 69f9dbb..3750e48 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -112,7 +112,7 @@ void InteractiveDebugger::instructionExecuted(
   sigintBreak = false;
 
   // Print function if changed
-  if (m_previousDepth != workItem->getCallStack().size() &&
+  if (m_previousDepth != getCallDepth(workItem) &&
       workItem->getState() != WorkItem::FINISHED)
   {
     cout << "In function ";
@@ -232,6 +232,19 @@ void InteractiveDebugger::log(MessageType type, const char* message)
 //// Utility Functions ////
 ///////////////////////////
 
+size_t InteractiveDebugger::getCallDepth(const WorkItem* workItem) const
+{
+  const stack<const llvm::Instruction*>& callStack = workItem->getCallStack();
+
+  // A call that has just been executed is on the call stack, but it is still
+  // the current instruction
+  if (!callStack.empty() && workItem->getState() != WorkItem::FINISHED &&
+      callStack.top() == workItem->getCurrentInstruction())
+    return callStack.size() - 1;
+
+  return callStack.size();
+}
+
 size_t InteractiveDebugger::getCurrentLineNumber() const
 {
   const WorkItem* workItem = m_kernelInvocation->getCurrentWorkItem();
@@ -367,7 +380,7 @@ bool InteractiveDebugger::shouldShowPrompt(const WorkItem* workItem)
     return true;
 
   size_t line = getCurrentLineNumber();
-  if (m_next && workItem->getCallStack().size() > m_previousDepth)
+  if (m_next && getCallDepth(workItem) > m_previousDepth)
     return false;
   if (!line || line == m_previousLine)
     return false;
@@ -388,6 +401,8 @@ bool InteractiveDebugger::backtrace(vector<string> args)
   }
 
   stack<const llvm::Instruction*> callStack = workItem->getCallStack();
+  while (callStack.size() > getCallDepth(workItem))
+    callStack.pop();
 
   // Print current instruction
   cout << "#" << callStack.size() << " ";
@@ -839,7 +854,7 @@ bool InteractiveDebugger::next(vector<string> args)
   }
 
   // Step until we return to the same depth
-  m_previousDepth = workItem->getCallStack().size();
+  m_previousDepth = getCallDepth(workItem);
   m_previousLine = getCurrentLineNumber();
   m_next = true;
 
@@ -904,7 +919,7 @@ bool InteractiveDebugger::step(vector<string> args)
   }
 
   // Save current position
-  m_previousDepth = workItem->getCallStack().size();
+  m_previousDepth = getCallDepth(workItem);
   m_previousLine = getCurrentLineNumber();
 
   return true;
diff --git a/src/plugins/InteractiveDebugger.h b/src/plugins/InteractiveDebugger.h
index 312c23e..d6b606f 100644
--- a/src/plugins/InteractiveDebugger.h
+++ b/src/plugins/InteractiveDebugger.h
@@ -40,6 +40,7 @@ private:
   const Program* m_program;
   const KernelInvocation* m_kernelInvocation;
 
+  size_t getCallDepth(const WorkItem* workItem) const;
   size_t getCurrentLineNumber() const;
   size_t getLineNumber(const llvm::Instruction* instruction) const;
   bool hasHitBreakpoint();
-- 
2.43.0


From 4e6fb80d7aafe03c4d4f90d4853e11797db8a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:06 +0000
Subject: [PATCH 140/141] fix: clGetKernelArgInfo keeps "struct" in type names
 that look like images

---
 src/core/Kernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 335aeb6..333a897 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -255,7 +255,7 @@ const llvm::StringRef Kernel::getArgumentTypeName(unsigned int index) const
 
   llvm::StringRef name = llvm::dyn_cast<llvm::MDString>(md)->getString();
   size_t imgStart = name.find(" image");
-  if (imgStart != llvm::StringRef::npos)
+  if (isImageArgument(index) && imgStart != llvm::StringRef::npos)
   {
     name = name.substr(imgStart + 1);
   }
-- 
2.43.0


From 7a9e6542879536e01b2142f538f808f8c7876a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:10 +0000
Subject: [PATCH 141/141] fix: the uninitialised-data checker accepts address
 space casts

---
 src/plugins/Uninitialized.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index fe1de60..ada7be5 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1164,6 +1164,7 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
 
     break;
   }
+  case llvm::Instruction::AddrSpaceCast:
   case llvm::Instruction::BitCast:
   {
     TypedValue shadow =
-- 
2.43.0

