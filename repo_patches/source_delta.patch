From 427fe4a1de09de251f16f69cf7882f53b089032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 01/46] fix: i64.div_u fails when the quotient is 2^63 or more

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index ddb7bdd..78d9b63 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2307,7 +2307,7 @@ class Machine:
                 case pywasm.opcode.i64_div_u:
                     b = self.stack.value.pop().into_u64()
                     a = self.stack.value.pop().into_u64()
-                    c = ValInst.from_i64(pywasm.arith.u64.div(a, b))
+                    c = ValInst.from_u64(pywasm.arith.u64.div(a, b))
                     self.stack.value.append(c)
                 case pywasm.opcode.i64_rem_s:
                     b = self.stack.value.pop().into_i64()
-- 
2.43.0


From 0f6500328bd85b3a9317698744355a11eb3d20a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 02/46] fix: float rounding loses the sign of zero and leaves
 signaling nans

---
 pywasm/arith.py | 20 ++++++++++++++++++++
 pywasm/core.py  | 32 ++++++++++++++++----------------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index ce54dee..2c29189 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -1,6 +1,7 @@
 import ctypes
 import math
 import struct
+import typing
 
 
 class I:
@@ -182,6 +183,25 @@ class F64:
     def fit(self, n: float) -> float:
         return n
 
+    def round(self, a: float, func: typing.Callable[[float], int]) -> float:
+        # Infinities stay as they are and the addition turns a signaling nan into a quiet one. Otherwise the result has
+        # the sign of the operand, even if it is zero.
+        if not math.isfinite(a):
+            return a + 0.0
+        return math.copysign(float(func(a)), a)
+
+    def ceil(self, a: float) -> float:
+        return self.round(a, math.ceil)
+
+    def floor(self, a: float) -> float:
+        return self.round(a, math.floor)
+
+    def trunc(self, a: float) -> float:
+        return self.round(a, math.trunc)
+
+    def nearest(self, a: float) -> float:
+        return self.round(a, round)
+
     def div(self, a: float, b: float) -> float:
         match b:
             case 0:
diff --git a/pywasm/core.py b/pywasm/core.py
index 78d9b63..7bb6be8 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2371,22 +2371,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_ceil:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = pywasm.arith.f64.ceil(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_floor:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = pywasm.arith.f64.floor(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_trunc:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = pywasm.arith.f64.trunc(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_nearest:
                     a = self.stack.value.pop().into_f32()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = pywasm.arith.f64.nearest(a)
                     c = ValInst.from_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32_sqrt:
@@ -2444,22 +2444,22 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f64_ceil:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.ceil(a))
+                    b = pywasm.arith.f64.ceil(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_floor:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.floor(a))
+                    b = pywasm.arith.f64.floor(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_trunc:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(math.trunc(a))
+                    b = pywasm.arith.f64.trunc(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_nearest:
                     a = self.stack.value.pop().into_f64()
-                    b = a if math.isnan(a) or math.isinf(a) else float(round(a))
+                    b = pywasm.arith.f64.nearest(a)
                     c = ValInst.from_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_sqrt:
@@ -3368,22 +3368,22 @@ class Machine:
                     self.stack.value.append(e)
                 case pywasm.opcode.f32x4_ceil:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [pywasm.arith.f64.ceil(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_floor:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [pywasm.arith.f64.floor(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_trunc:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [pywasm.arith.f64.trunc(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_nearest:
                     a = self.stack.value.pop().into_v128_f32()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [pywasm.arith.f64.nearest(e) for e in a]
                     c = ValInst.from_v128_f32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_shl:
@@ -3439,12 +3439,12 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_ceil:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.ceil(e)) for e in a]
+                    b = [pywasm.arith.f64.ceil(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64x2_floor:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.floor(e)) for e in a]
+                    b = [pywasm.arith.f64.floor(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_min_s:
@@ -3473,7 +3473,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_trunc:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(math.trunc(e)) for e in a]
+                    b = [pywasm.arith.f64.trunc(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i8x16_avgr_u:
@@ -3614,7 +3614,7 @@ class Machine:
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_nearest:
                     a = self.stack.value.pop().into_v128_f64()
-                    b = [e if math.isnan(e) or math.isinf(e) else float(round(e)) for e in a]
+                    b = [pywasm.arith.f64.nearest(e) for e in a]
                     c = ValInst.from_v128_f64(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.i16x8_mul:
-- 
2.43.0


From a6c490836e41d8997e377114fbb229d06cd28a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 03/46] fix: float min and max of zeros with different signs,
 and of signaling nans

---
 pywasm/arith.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index 2c29189..9f50ba7 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -215,18 +215,18 @@ class F64:
 
     def min(self, a: float, b: float) -> float:
         c = min(a, b)
-        if math.isnan(a):
-            c = a
-        if math.isnan(b):
-            c = b
+        if math.isnan(a) or math.isnan(b):
+            c = a + b
+        if a == 0 and b == 0:
+            c = a if math.copysign(1, a) < 0 else b
         return c
 
     def max(self, a: float, b: float) -> float:
         c = max(a, b)
-        if math.isnan(a):
-            c = a
-        if math.isnan(b):
-            c = b
+        if math.isnan(a) or math.isnan(b):
+            c = a + b
+        if a == 0 and b == 0:
+            c = b if math.copysign(1, a) < 0 else a
         return c
 
 
-- 
2.43.0


From 28662726da250e368492eb69a7bc1d2123430970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 04/46] fix: f32x4 lanes that overflow raise OverflowError
 instead of becoming infinite

---
 pywasm/arith.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index 9f50ba7..ddbd066 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -154,7 +154,7 @@ class F32:
         return struct.unpack('f', data)[0]
 
     def into_bytearray(self, n: float) -> bytearray:
-        return bytearray(struct.pack('f', n))
+        return bytearray(struct.pack('f', self.fit(n)))
 
     def fit(self, n: float) -> float:
         return ctypes.c_float(n).value
-- 
2.43.0


From b1b50584628dc6d478994a1d72eb651403923496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 05/46] fix: f32.convert_i64_s and f32.convert_i64_u round
 twice

---
 pywasm/arith.py | 9 +++++++++
 pywasm/core.py  | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pywasm/arith.py b/pywasm/arith.py
index ddbd066..3de5c0f 100644
--- a/pywasm/arith.py
+++ b/pywasm/arith.py
@@ -159,6 +159,15 @@ class F32:
     def fit(self, n: float) -> float:
         return ctypes.c_float(n).value
 
+    def convert(self, n: int) -> float:
+        # An integer that has more bits than a double would be rounded twice, first to double and then to float. Keep
+        # the bits that fit in a double and let the last of them say whether anything was lost.
+        s = max(abs(n).bit_length() - 53, 0)
+        m = abs(n) >> s << s
+        if m != abs(n):
+            m = m | (1 << s)
+        return self.fit(math.copysign(float(m), n))
+
     def div(self, a: float, b: float) -> float:
         return self.fit(f64.div(a, b))
 
diff --git a/pywasm/core.py b/pywasm/core.py
index 7bb6be8..123d6bf 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2575,11 +2575,11 @@ class Machine:
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_s:
                     a = self.stack.value.pop().into_i64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.convert(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_convert_i64_u:
                     a = self.stack.value.pop().into_u64()
-                    b = ValInst.from_f32(float(a))
+                    b = ValInst.from_f32(pywasm.arith.f32.convert(a))
                     self.stack.value.append(b)
                 case pywasm.opcode.f32_demote_f64:
                     a = self.stack.value.pop().into_f64()
-- 
2.43.0


From f52ce8748b0e780ef0d248dae60d26504d6d2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 06/46] fix: f32 sign and selection instructions change the
 bits of signaling nans

---
 pywasm/core.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 123d6bf..99d0ed8 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -2428,9 +2428,10 @@ class Machine:
                     d = ValInst.from_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32_copysign:
-                    b = self.stack.value.pop().into_f32()
-                    a = self.stack.value.pop().into_f32()
-                    c = ValInst.from_f32(math.copysign(a, b))
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    c = ValInst(ValType.f32(), a.data.copy())
+                    c.data[3] = (a.data[3] & 0x7f) | (b.data[3] & 0x80)
                     self.stack.value.append(c)
                 case pywasm.opcode.f64_abs:
                     a = self.stack.value.pop()
@@ -3936,14 +3937,14 @@ class Machine:
                     d = ValInst.from_v128_u64(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_abs:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [abs(e) for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e & 0x7fffffff for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_neg:
-                    a = self.stack.value.pop().into_v128_f32()
-                    b = [-e for e in a]
-                    c = ValInst.from_v128_f32(b)
+                    a = self.stack.value.pop().into_v128_u32()
+                    b = [e ^ 0x80000000 for e in a]
+                    c = ValInst.from_v128_u32(b)
                     self.stack.value.append(c)
                 case pywasm.opcode.f32x4_sqrt:
                     a = self.stack.value.pop().into_v128_f32()
@@ -3987,16 +3988,20 @@ class Machine:
                     d = ValInst.from_v128_f32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmin:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [min(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    x, y = a.into_v128_f32(), b.into_v128_f32()
+                    p, q = a.into_v128_u32(), b.into_v128_u32()
+                    c = [q[i] if y[i] < x[i] else p[i] for i in range(4)]
+                    d = ValInst.from_v128_u32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f32x4_pmax:
-                    b = self.stack.value.pop().into_v128_f32()
-                    a = self.stack.value.pop().into_v128_f32()
-                    c = [max(a[i], b[i]) for i in range(4)]
-                    d = ValInst.from_v128_f32(c)
+                    b = self.stack.value.pop()
+                    a = self.stack.value.pop()
+                    x, y = a.into_v128_f32(), b.into_v128_f32()
+                    p, q = a.into_v128_u32(), b.into_v128_u32()
+                    c = [q[i] if x[i] < y[i] else p[i] for i in range(4)]
+                    d = ValInst.from_v128_u32(c)
                     self.stack.value.append(d)
                 case pywasm.opcode.f64x2_abs:
                     a = self.stack.value.pop().into_v128_f64()
-- 
2.43.0


From 6791847f445e94294820fba9f7fbf7cda91ef79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 07/46] fix: a branch to the outermost label of a called
 function does not leave its frame

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 99d0ed8..60e8245 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1764,7 +1764,7 @@ class Machine:
                 ))
                 self.stack.label.append(Label(
                     nret,
-                    len(self.stack.frame),
+                    len(self.stack.frame) - 1,
                     len(self.stack.value),
                     3,
                     func.code.expr.data,
-- 
2.43.0


From 4d38d2b4f45f2962fe7ad2fca7e506cec3d0b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 08/46] fix: after a trap every later invocation and
 instantiation fails

---
 pywasm/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 60e8245..ae275e1 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1602,6 +1602,8 @@ class Machine:
         return inst
 
     def instance(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
+        # A trap leaves the stack as it was at that time.
+        self.stack = Stack()
         assert len(module.imps) == len(extern)
         for a, b in zip(module.imps, extern):
             assert a.kind == b.kind
@@ -1699,6 +1701,8 @@ class Machine:
         return newmod
 
     def invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
+        # A trap leaves the stack as it was at that time.
+        self.stack = Stack()
         func = self.store.func[addr]
         assert func.kind == 0x00
         for a, b in zip(func.type.args, args):
-- 
2.43.0


From c1b27a305c74ba74eeb25bb76e3ba5295ff8a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 09/46] fix: a declared maximum of zero counts as no maximum

---
 pywasm/core.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index ae275e1..5e28a10 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -815,26 +815,26 @@ class FuncDesc:
 
 
 class Limits:
-    # Limits are encoded with a preceding flag indicating whether a maximum is present.
+    # Limits are encoded with a preceding flag indicating whether a maximum is present. If it is not, m is None.
 
-    def __init__(self, n: int, m: int) -> typing.Self:
+    def __init__(self, n: int, m: typing.Optional[int]) -> typing.Self:
         self.n = n
         self.m = m
 
     def __repr__(self) -> str:
-        m = 'inf' if self.m == 0 else repr(self.m)
+        m = 'inf' if self.m is None else repr(self.m)
         return f'[{self.n}, {m}]'
 
     def suit(self, value: typing.Self) -> bool:
         c1 = self.n >= value.n
-        c2 = value.m == 0
-        c3 = self.m != 0 and value.m != 0 and self.m <= value.m
+        c2 = value.m is None
+        c3 = self.m is not None and value.m is not None and self.m <= value.m
         return c1 and (c2 or c3)
 
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         flag = ord(r.read(1))
-        return cls(pywasm.leb128.u.decode_reader(r)[0],  pywasm.leb128.u.decode_reader(r)[0] if flag else 0x00)
+        return cls(pywasm.leb128.u.decode_reader(r)[0],  pywasm.leb128.u.decode_reader(r)[0] if flag else None)
 
 
 class MemType:
@@ -894,7 +894,7 @@ class MemInst:
         return self.data[addr:addr+size].copy()
 
     def grow(self, n: int) -> None:
-        if self.type.limits.m:
+        if self.type.limits.m is not None:
             assert self.size + n <= self.type.limits.m
         assert self.size + n <= 65536
         self.data.extend(bytearray(n * 64 * 1024))
@@ -962,7 +962,7 @@ class TableInst:
         self.grow(type.limits.n, ValInst.zero(self.type.type))
 
     def grow(self, n: int, v: ValInst) -> None:
-        if self.type.limits.m:
+        if self.type.limits.m is not None:
             assert self.size + n <= self.type.limits.m
         assert v.type == self.type.type
         self.elem.extend([v for _ in range(n)])
@@ -1996,7 +1996,7 @@ class Machine:
                     rets = -1
                     # Limit memory size to 64m.
                     cnda = size + incr <= 1024
-                    cndb = mems.type.limits.m == 0 or size + incr <= mems.type.limits.m
+                    cndb = mems.type.limits.m is None or size + incr <= mems.type.limits.m
                     if cnda and cndb:
                         rets = size
                         mems.grow(incr)
@@ -2779,7 +2779,7 @@ class Machine:
                     init = self.stack.value.pop()
                     rets = -1
                     cnda = size + incr <= 1024
-                    cndb = tabl.type.limits.m == 0 or size + incr <= tabl.type.limits.m
+                    cndb = tabl.type.limits.m is None or size + incr <= tabl.type.limits.m
                     if cnda and cndb:
                         rets = size
                         tabl.grow(incr, init)
-- 
2.43.0


From 0b7e34c2e361a400c9d57db277903b583a3b854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 10/46] fix: dropping a data segment empties it in the decoded
 module and in its other instances

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 5e28a10..54c2c05 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1585,7 +1585,7 @@ class Machine:
             addr = self.store.allocate_elem(e.type, elemin[i])
             inst.elem.append(addr)
         for i, e in enumerate(module.data):
-            addr = self.store.allocate_data(e.init)
+            addr = self.store.allocate_data(e.init.copy())
             inst.data.append(addr)
         for _, e in enumerate(module.exps):
             expi = ExportInst(e.name, Extern(e.kind, 0))
-- 
2.43.0


From 8421c0d378ac95df13efc85f6dc4bf05741f9099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 11/46] fix: an exported host function cannot be invoked

---
 pywasm/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 54c2c05..c4a38e9 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1704,11 +1704,15 @@ class Machine:
         # A trap leaves the stack as it was at that time.
         self.stack = Stack()
         func = self.store.func[addr]
-        assert func.kind == 0x00
         for a, b in zip(func.type.args, args):
             assert a == b.type
         self.stack.frame.append(Frame(ModuleInst(), LocalsInst([]), 0, 0, 0))
         pywasm.log.debugln('invocate', addr, args)
+        if func.kind == 0x01:
+            # A host function that a module has imported and exported again.
+            self.stack.value.extend(args)
+            self.evaluate_call(addr)
+            return [self.stack.value.pop() for _ in range(len(func.type.rets))][::-1]
         locals = LocalsInst(args)
         for e in func.code.locals:
             locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
-- 
2.43.0


From 69c88da252e2026cedfe680aed1c6524c523d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 12/46] fix: null references cannot cross between wasm and the
 host

---
 pywasm/core.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index c4a38e9..9dae439 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -205,7 +205,8 @@ class ValInst:
         return cls(type, bytearray(struct.pack('<i', n)) + bytearray([0x01]) + bytearray(cls.blen - 5))
 
     @classmethod
-    def from_all(cls, type: ValType, n: typing.Union[int, float, bytearray]) -> typing.Self:
+    def from_all(cls, type: ValType, n: typing.Union[int, float, bytearray, None]) -> typing.Self:
+        # A null reference is None.
         match type.data:
             case 0x7f:
                 return cls.from_i32(n)
@@ -218,9 +219,9 @@ class ValInst:
             case 0x7b:
                 return cls.from_v128(n)
             case 0x70:
-                return cls.from_ref(type, n)
+                return cls.zero(type) if n is None else cls.from_ref(type, n)
             case 0x6f:
-                return cls.from_ref(type, n)
+                return cls.zero(type) if n is None else cls.from_ref(type, n)
             case _:
                 assert 0
 
@@ -279,7 +280,8 @@ class ValInst:
         assert self.data[4] == 0x01
         return self.into_i32()
 
-    def into_all(self) -> typing.Union[int, float, bytearray]:
+    def into_all(self) -> typing.Union[int, float, bytearray, None]:
+        # A null reference is None.
         match self.type.data:
             case 0x7f:
                 return self.into_i32()
@@ -292,9 +294,9 @@ class ValInst:
             case 0x7b:
                 return self.into_v128()
             case 0x70:
-                return self.into_ref()
+                return self.into_ref() if self.data[4] != 0x00 else None
             case 0x6f:
-                return self.into_ref()
+                return self.into_ref() if self.data[4] != 0x00 else None
             case _:
                 assert 0
 
-- 
2.43.0


From 52fcb4bd9a03f3beee94be090d31fb823214e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 13/46] fix: sections after the thirty-second are ignored

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 9dae439..3d42489 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1318,7 +1318,7 @@ class ModuleDesc:
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
 
-        for _ in range(32):
+        while True:
             section_id_byte = r.read(1)
             if not section_id_byte:
                 break
-- 
2.43.0


From 3bb4c86d68ff932324b1def4187b588ce76e3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 14/46] fix: undefined types in block, select and ref.null
 instructions are accepted

---
 pywasm/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 3d42489..c5eeb85 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -332,7 +332,9 @@ class Bype:
         if n in [0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f]:
             return cls(0x01, n)
         r.seek(-1, 1)
-        return cls(0x02, pywasm.leb128.i.decode_reader(r)[0])
+        n = pywasm.leb128.i.decode_reader(r)[0]
+        assert n >= 0
+        return cls(0x02, n)
 
 
 class Inst:
@@ -414,7 +416,7 @@ class Inst:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.select_type:
-                o.args.append([pywasm.leb128.u.decode_reader(r)[0] for _ in range(pywasm.leb128.u.decode_reader(r)[0])])
+                o.args.append([ValType.from_reader(r).data for _ in range(pywasm.leb128.u.decode_reader(r)[0])])
             case pywasm.opcode.local_get:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.local_set:
@@ -537,7 +539,7 @@ class Inst:
             case pywasm.opcode.f64_const:
                 o.args.append(struct.unpack('<q', r.read(8))[0])
             case pywasm.opcode.ref_null:
-                o.args.append(ord(r.read(1)))
+                o.args.append(ValType.from_reader(r).data)
             case pywasm.opcode.ref_func:
                 o.args.append(pywasm.leb128.u.decode_reader(r)[0])
             case pywasm.opcode.memory_init:
-- 
2.43.0


From 7aaf828a27a8be6780f974a8755e17e827a22743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 15/46] fix: modules whose functions have no bodies are
 accepted

---
 pywasm/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index c5eeb85..92d4674 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1319,6 +1319,7 @@ class ModuleDesc:
         star: int = -1
         imps: typing.List[Import] = []
         exps: typing.List[ExportDesc] = []
+        code: int = 0
 
         while True:
             section_id_byte = r.read(1)
@@ -1379,7 +1380,8 @@ class ModuleDesc:
                         elem.append(desc)
                         pywasm.log.debugln('section elem', desc)
                 case 0x0a:
-                    for i in range(pywasm.leb128.u.decode_reader(section_reader)[0]):
+                    code = pywasm.leb128.u.decode_reader(section_reader)[0]
+                    for i in range(code):
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
                         desc = FuncDesc.from_reader_code(io.BytesIO(section_reader.read(size)))
                         func[i].locals = desc.locals
@@ -1395,6 +1397,8 @@ class ModuleDesc:
                     n = pywasm.leb128.u.decode_reader(section_reader)[0]
                     pywasm.log.debugln('section data count', n)
 
+        # Every function declared in the function section has a body in the code section.
+        assert code == len(func)
         return cls(type, func, tabl, mems, glob, elem, data, star, imps, exps)
 
 
-- 
2.43.0


From 1df95433a7faed60f487ef080353c9d53c28f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 16/46] fix: data segments, bodies and custom names that are
 cut short are accepted

---
 pywasm/core.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 92d4674..acfe0e3 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1033,7 +1033,9 @@ class Custom:
     @classmethod
     def from_reader(cls, r: typing.BinaryIO) -> typing.Self:
         n = pywasm.leb128.u.decode_reader(r)[0]
-        return cls(r.read(n).decode(), bytearray(r.read(-1)))
+        name = r.read(n)
+        assert len(name) == n
+        return cls(name.decode(), bytearray(r.read(-1)))
 
 
 class Import:
@@ -1253,15 +1255,19 @@ class DataDesc:
             case 0x00:
                 midx = 0
                 offset = Expr.from_reader(r)
-                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
+                n = pywasm.leb128.u.decode_reader(r)[0]
+                init = bytearray(r.read(n))
             case 0x01:
                 midx = 0
                 offset = Expr([])
-                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
+                n = pywasm.leb128.u.decode_reader(r)[0]
+                init = bytearray(r.read(n))
             case 0x02:
                 midx = pywasm.leb128.u.decode_reader(r)[0]
                 offset = Expr.from_reader(r)
-                init = bytearray(r.read(pywasm.leb128.u.decode_reader(r)[0]))
+                n = pywasm.leb128.u.decode_reader(r)[0]
+                init = bytearray(r.read(n))
+        assert len(init) == n
         return cls(kind, midx, offset, init)
 
 
@@ -1383,7 +1389,9 @@ class ModuleDesc:
                     code = pywasm.leb128.u.decode_reader(section_reader)[0]
                     for i in range(code):
                         size = pywasm.leb128.u.decode_reader(section_reader)[0]
-                        desc = FuncDesc.from_reader_code(io.BytesIO(section_reader.read(size)))
+                        body = section_reader.read(size)
+                        assert len(body) == size
+                        desc = FuncDesc.from_reader_code(io.BytesIO(body))
                         func[i].locals = desc.locals
                         func[i].expr = desc.expr
                         pywasm.log.debugln('section code', desc)
-- 
2.43.0


From 126d62f53c9923e1a9d85f7420c118a9c0eb097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 17/46] fix: invoking the name of an exported memory, table or
 global runs an unrelated function

---
 pywasm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index acfe0e3..0bc71a1 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -4198,7 +4198,9 @@ class Runtime:
     ) -> typing.List[int | float | bytearray]:
         # Once a module has been instantiated, any exported function can be invoked externally via its function address
         # in the store and an appropriate list of argument values.
-        addr = [e for e in module.exps if e.name == func][0].data.data
+        inst = [e for e in module.exps if e.name == func][0].data
+        assert inst.kind == 0x00
+        addr = inst.data
         func = self.machine.store.func[addr]
         assert len(func.type.args) == len(args)
         args = [ValInst.from_all(a, b) for a, b in zip(func.type.args, args)]
-- 
2.43.0


From 186543ee5315e0660afcfe547ab16b1fee76a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 18/46] fix: invoking a function through the machine extends
 the caller's argument list

---
 pywasm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 0bc71a1..4463389 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1729,7 +1729,7 @@ class Machine:
             self.stack.value.extend(args)
             self.evaluate_call(addr)
             return [self.stack.value.pop() for _ in range(len(func.type.rets))][::-1]
-        locals = LocalsInst(args)
+        locals = LocalsInst(args.copy())
         for e in func.code.locals:
             locals.data.extend([ValInst.zero(e.type) for _ in range(e.n)])
         self.stack.frame.append(Frame(func.module, locals, len(func.type.rets), 0, 0))
-- 
2.43.0


From caf0134e9f11a5ff38a6cf486e89ade0f11692c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 19/46] fix: host accesses outside a memory extend it or reach
 its other end

---
 pywasm/core.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pywasm/core.py b/pywasm/core.py
index 4463389..7a9babf 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -876,25 +876,38 @@ class MemInst:
         self.size = 0
         self.grow(type.limits.n)
 
+    def area(self, addr: int, size: int) -> None:
+        # Any access has to lie entirely within the bounds of the memory.
+        assert 0 <= addr
+        assert 0 <= size
+        assert addr + size <= len(self.data)
+
     def get_i32(self, addr: int) -> int:
+        self.area(addr, 4)
         return struct.unpack('<i', self.data[addr:addr+4])[0]
 
     def get_i64(self, addr: int) -> int:
+        self.area(addr, 8)
         return struct.unpack('<q', self.data[addr:addr+8])[0]
 
     def get_u8(self, addr: int) -> int:
+        self.area(addr, 1)
         return self.data[addr]
 
     def get_u16(self, addr: int) -> int:
+        self.area(addr, 2)
         return struct.unpack('<H', self.data[addr:addr+2])[0]
 
     def get_u32(self, addr: int) -> int:
+        self.area(addr, 4)
         return struct.unpack('<I', self.data[addr:addr+4])[0]
 
     def get_u64(self, addr: int) -> int:
+        self.area(addr, 8)
         return struct.unpack('<Q', self.data[addr:addr+8])[0]
 
     def get(self, addr: int, size: int) -> bytearray:
+        self.area(addr, size)
         return self.data[addr:addr+size].copy()
 
     def grow(self, n: int) -> None:
@@ -905,25 +918,32 @@ class MemInst:
         self.size += n
 
     def put_i32(self, addr: int, data: int) -> None:
+        self.area(addr, 4)
         self.data[addr:addr+4] = struct.pack('<i', data)
 
     def put_i64(self, addr: int, data: int) -> None:
+        self.area(addr, 8)
         self.data[addr:addr+8] = struct.pack('<q', data)
 
     def put_u8(self, addr: int, data: int) -> None:
+        self.area(addr, 1)
         self.data[addr] = data
 
     def put_u16(self, addr: int, data: int) -> None:
+        self.area(addr, 2)
         self.data[addr:addr+2] = struct.pack('<H', data)
 
     def put_u32(self, addr: int, data: int) -> None:
+        self.area(addr, 4)
         self.data[addr:addr+4] = struct.pack('<I', data)
 
     def put_u64(self, addr: int, data: int) -> None:
+        self.area(addr, 8)
         self.data[addr:addr+8] = struct.pack('<Q', data)
 
     def put(self, addr: int, data: bytearray) -> None:
         assert isinstance(data, bytearray)
+        self.area(addr, len(data))
         self.data[addr:addr+len(data)] = data.copy()
 
     def suit(self, l: Limits) -> bool:
-- 
2.43.0


From 1de7d3cbafe3325cffa2021d8ba2d7a442c42fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 20/46] fix: host errors during a WASI call surface as host
 exceptions

---
 pywasm/wasi.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d4243e3..6f94254 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1,4 +1,5 @@
 import dataclasses
+import errno
 import fcntl
 import os
 import platform
@@ -554,7 +555,7 @@ class Preview1:
         runtime.imports['wasi_snapshot_preview1'] = {}
         for e in vec:
             funkype = pywasm.core.FuncType(e[1], e[2])
-            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, e[3])
+            runtime.imports['wasi_snapshot_preview1'][e[0]] = runtime.allocate_func_host(funkype, self.help_call(e[3]))
 
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
@@ -973,6 +974,23 @@ class Preview1:
     def help_badf(self, fd: int) -> bool:
         return fd < 0 or fd >= len(self.fd) or self.fd[fd].wasm_status != self.FILE_STATUS_OPENED
 
+    def help_call(self, func: typing.Callable) -> typing.Callable:
+        # Failures of the host while it performs a call are reported to the guest as error codes.
+        def call(m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
+            try:
+                return func(m, args)
+            except UnicodeError:
+                return [self.ERRNO_ILSEQ]
+            except OSError as e:
+                return [self.help_errno(e)]
+        return call
+
+    def help_errno(self, e: OSError) -> int:
+        for k, v in vars(Preview1).items():
+            if k.startswith('ERRNO_') and getattr(errno, 'E' + k[6:], None) == e.errno:
+                return v
+        return self.ERRNO_IO
+
     def help_escp(self, root: str, name: str) -> bool:
         return not os.path.normpath(os.path.join(root, name)).startswith(root)
 
-- 
2.43.0


From 83fb01b548ce651c19bbabd1a16eacdac8a8f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 21/46] fix: opened files have rights their directory does not
 pass on

---
 pywasm/wasi.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6f94254..fb33254 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1180,11 +1180,16 @@ class Preview1:
             return [self.ERRNO_ILSEQ]
         if self.help_escp(file.host_name, name):
             return [self.ERRNO_PERM]
+        # A new descriptor has at most the rights its directory passes on.
+        rights_base = args[5] & file.wasm_rights_root
+        rights_root = args[6] & file.wasm_rights_root
         flag = 0
         if args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW == 0:
             flag |= os.O_NOFOLLOW
         if args[4] & self.OFLAGS_CREAT:
             flag |= os.O_CREAT
+            if self.help_perm(args[0], self.RIGHTS_PATH_CREATE_FILE):
+                return [self.ERRNO_NOTCAPABLE]
         if args[4] & self.OFLAGS_DIRECTORY:
             flag |= os.O_DIRECTORY
         if args[4] & self.OFLAGS_EXCL:
@@ -1193,11 +1198,11 @@ class Preview1:
             flag |= os.O_TRUNC
             if file.wasm_rights_base & self.RIGHTS_PATH_FILESTAT_SET_SIZE == 0:
                 return [self.ERRNO_PERM]
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ:
             flag |= os.O_RDONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_WRITE:
             flag |= os.O_WRONLY
-        if args[5] & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
+        if rights_base & self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE == self.RIGHTS_FD_READ + self.RIGHTS_FD_WRITE:
             flag |= os.O_RDWR
         if args[7] & self.FDFLAGS_APPEND:
             flag |= os.O_APPEND
@@ -1218,8 +1223,6 @@ class Preview1:
             if platform.system().lower() == 'linux' and e.errno == 40:
                 return [self.ERRNO_LOOP]
             raise e
-        rights_base = args[5]
-        rights_root = args[6]
         # Drectory does not have the seek right.
         if os.path.isdir(host_fd):
             void = self.RIGHTS_FD_SEEK
-- 
2.43.0


From 97f2cebd9902c3e0cfeaee96ad67046a8e23b6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 22/46] fix: guest paths reach files outside of the preopened
 directories

---
 pywasm/wasi.py | 126 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 83 insertions(+), 43 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index fb33254..7236869 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1,3 +1,4 @@
+import contextlib
 import dataclasses
 import errno
 import fcntl
@@ -991,8 +992,9 @@ class Preview1:
                 return v
         return self.ERRNO_IO
 
-    def help_escp(self, root: str, name: str) -> bool:
-        return not os.path.normpath(os.path.join(root, name)).startswith(root)
+    def help_escp(self, name: str) -> bool:
+        name = os.path.normpath(name)
+        return os.path.isabs(name) or name.split('/')[0] == '..'
 
     def help_wasm_type(self, info: os.stat_result) -> int:
         match info.st_mode:
@@ -1036,6 +1038,53 @@ class Preview1:
             case _:
                 return 0
 
+    @contextlib.contextmanager
+    def help_walk(self, file: File, name: str, foll: int) -> typing.Generator[typing.Tuple[int, str], None, None]:
+        # Resolve a path without ever leaving the directory it starts from. Yields the directory that holds the last
+        # component, and the last component. The host never gets to follow a symbolic link, they are expanded here.
+        if '\0' in name:
+            raise OSError(errno.EILSEQ, os.strerror(errno.EILSEQ))
+        if name == '':
+            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT))
+        flag = getattr(os, 'O_PATH', os.O_RDONLY) | os.O_DIRECTORY | os.O_NOFOLLOW
+        base = '.'
+        dirs = [file.host_fd]
+        hops = 0
+        try:
+            while name:
+                if name.startswith('/'):
+                    raise OSError(errno.EPERM, os.strerror(errno.EPERM))
+                head, sepa, name = name.partition('/')
+                name = name.lstrip('/')
+                if head == '.':
+                    base = '.'
+                    continue
+                if head == '..':
+                    if len(dirs) == 1:
+                        raise OSError(errno.EPERM, os.strerror(errno.EPERM))
+                    os.close(dirs.pop())
+                    base = '.'
+                    continue
+                if name or foll:
+                    try:
+                        link = os.readlink(head, dir_fd=dirs[-1])
+                    except OSError:
+                        link = ''
+                    if link:
+                        hops += 1
+                        if hops > 40:
+                            raise OSError(errno.ELOOP, os.strerror(errno.ELOOP))
+                        name = link + sepa + name
+                        continue
+                if name:
+                    dirs.append(os.open(head, flag, dir_fd=dirs[-1]))
+                else:
+                    base = head + sepa
+            yield dirs[-1], base
+        finally:
+            for e in dirs[1:]:
+                os.close(e)
+
     def main(self, runtime: pywasm.core.Runtime, module: pywasm.core.ModuleInst) -> int:
         # Attempt to begin execution of instance as a wasi command by invoking its _start() export. If instance does
         # not contain a _start() export, then an exception is thrown.
@@ -1070,10 +1119,9 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
         try:
-            os.mkdir(name, dir_fd=file.host_fd)
+            with self.help_walk(file, name, 0) as (root, base):
+                os.mkdir(base, dir_fd=root)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         return [self.ERRNO_SUCCESS]
@@ -1088,10 +1136,9 @@ class Preview1:
         file = self.fd[args[0]]
         flag = args[1]
         name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
         try:
-            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+            with self.help_walk(file, name, flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW or name.endswith('/')) as (root, base):
+                info = os.stat(base, dir_fd=root, follow_symlinks=False)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         mems.put_u64(args[4], 1)
@@ -1118,9 +1165,9 @@ class Preview1:
         file = self.fd[args[0]]
         flag = args[1]
         name = mems.get(args[2], args[3]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
-        info = os.stat(name, dir_fd=file.host_fd)
+        foll = flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW or name.endswith('/')
+        with self.help_walk(file, name, foll) as (root, base):
+            info = os.stat(base, dir_fd=root, follow_symlinks=False)
         atim = info.st_atime_ns
         if args[6] & self.FSTFLAGS_ATIM:
             atim = args[4]
@@ -1132,7 +1179,8 @@ class Preview1:
         if args[6] & self.FSTFLAGS_MTIM_NOW:
             mtim = time.time_ns()
         try:
-            os.utime(name, ns=(atim, mtim), dir_fd=file.host_fd, follow_symlinks=flag & self.LOOKUPFLAGS_SYMLINK_FOLLOW)
+            with self.help_walk(file, name, foll) as (root, base):
+                os.utime(base, ns=(atim, mtim), dir_fd=root, follow_symlinks=False)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         return [self.ERRNO_SUCCESS]
@@ -1150,13 +1198,11 @@ class Preview1:
         dest = self.fd[args[4]]
         stem_name = mems.get(args[2], args[3]).decode()
         dest_name = mems.get(args[5], args[6]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
-            return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
-            return [self.ERRNO_PERM]
         foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
         try:
-            os.link(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd, follow_symlinks=foll)
+            with self.help_walk(stem, stem_name, foll or stem_name.endswith('/')) as (stem_root, stem_base):
+                with self.help_walk(dest, dest_name, 0) as (dest_root, dest_base):
+                    os.link(stem_base, dest_base, src_dir_fd=stem_root, dst_dir_fd=dest_root, follow_symlinks=False)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         except FileNotFoundError:
@@ -1176,16 +1222,13 @@ class Preview1:
         name = mems.get(args[2], args[3]).decode()
         wasm_name = os.path.normpath(os.path.join(file.wasm_name, name))
         host_name = os.path.normpath(os.path.join(file.host_name, name))
-        if '\0' in name:
-            return [self.ERRNO_ILSEQ]
-        if self.help_escp(file.host_name, name):
-            return [self.ERRNO_PERM]
         # A new descriptor has at most the rights its directory passes on.
         rights_base = args[5] & file.wasm_rights_root
         rights_root = args[6] & file.wasm_rights_root
-        flag = 0
-        if args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW == 0:
-            flag |= os.O_NOFOLLOW
+        flag = os.O_NOFOLLOW
+        foll = args[1] & self.LOOKUPFLAGS_SYMLINK_FOLLOW
+        if args[4] & self.OFLAGS_CREAT and args[4] & self.OFLAGS_EXCL:
+            foll = 0
         if args[4] & self.OFLAGS_CREAT:
             flag |= os.O_CREAT
             if self.help_perm(args[0], self.RIGHTS_PATH_CREATE_FILE):
@@ -1208,7 +1251,8 @@ class Preview1:
             flag |= os.O_APPEND
         wasm_fd = len(self.fd)
         try:
-            host_fd = os.open(name, flag, 0o644, dir_fd=self.fd[args[0]].host_fd)
+            with self.help_walk(file, name, foll or name.endswith('/')) as (root, base):
+                host_fd = os.open(base, flag, 0o644, dir_fd=root)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         except FileNotFoundError:
@@ -1274,10 +1318,9 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
         try:
-            data = os.readlink(name, dir_fd=file.host_fd)
+            with self.help_walk(file, name, name.endswith('/')) as (root, base):
+                data = os.readlink(base, dir_fd=root)
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         size = min(len(data), args[4])
@@ -1294,10 +1337,9 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
         try:
-            os.rmdir(name, dir_fd=file.host_fd)
+            with self.help_walk(file, name, 0) as (root, base):
+                os.rmdir(base, dir_fd=root)
         except NotADirectoryError:
             return [self.ERRNO_NOTDIR]
         except OSError as e:
@@ -1321,12 +1363,10 @@ class Preview1:
         dest = self.fd[args[3]]
         stem_name = mems.get(args[1], args[2]).decode()
         dest_name = mems.get(args[4], args[5]).decode()
-        if self.help_escp(stem.wasm_name, stem_name):
-            return [self.ERRNO_PERM]
-        if self.help_escp(dest.wasm_name, dest_name):
-            return [self.ERRNO_PERM]
         try:
-            os.rename(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd)
+            with self.help_walk(stem, stem_name, 0) as (stem_root, stem_base):
+                with self.help_walk(dest, dest_name, 0) as (dest_root, dest_base):
+                    os.rename(stem_base, dest_base, src_dir_fd=stem_root, dst_dir_fd=dest_root)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         except FileNotFoundError:
@@ -1353,12 +1393,13 @@ class Preview1:
         file = self.fd[args[2]]
         stem = mems.get(args[0], args[1]).decode()
         dest = mems.get(args[3], args[4]).decode()
-        if self.help_escp(file.wasm_name, stem):
-            return [self.ERRNO_PERM]
-        if self.help_escp(file.wasm_name, dest):
+        if '\0' in stem:
+            return [self.ERRNO_ILSEQ]
+        if self.help_escp(os.path.join(os.path.dirname(dest), stem)):
             return [self.ERRNO_PERM]
         try:
-            os.symlink(stem, dest, dir_fd=file.host_fd)
+            with self.help_walk(file, dest, 0) as (root, base):
+                os.symlink(stem, base, dir_fd=root)
         except FileExistsError:
             return [self.ERRNO_EXIST]
         except FileNotFoundError:
@@ -1376,10 +1417,9 @@ class Preview1:
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
         name = mems.get(args[1], args[2]).decode()
-        if self.help_escp(file.wasm_name, name):
-            return [self.ERRNO_PERM]
         try:
-            os.unlink(name, dir_fd=file.host_fd)
+            with self.help_walk(file, name, 0) as (root, base):
+                os.unlink(base, dir_fd=root)
         except IsADirectoryError:
             return [self.ERRNO_ISDIR]
         except NotADirectoryError:
-- 
2.43.0


From 96f293d411c0535c0a5aa45301785316ff7ea6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 23/46] fix: sizes and pointers of arguments and variables
 count characters instead of bytes

---
 pywasm/wasi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 7236869..385f52a 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -490,7 +490,7 @@ class Preview1:
             mems.put_u32(argv, argv_buf)
             argv += 4
             mems.put(argv_buf, bytearray(e.encode()))
-            argv_buf += len(e)
+            argv_buf += len(e.encode())
             mems.put_u8(argv_buf, 0)
             argv_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -499,7 +499,7 @@ class Preview1:
         # Return command-line argument data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.args))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.args]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.args]))
         return [self.ERRNO_SUCCESS]
 
     def bind(self, runtime: pywasm.core.Runtime) -> None:
@@ -580,7 +580,7 @@ class Preview1:
             mems.put_u32(environ, environ_buf)
             environ += 4
             mems.put(environ_buf, bytearray(e.encode()))
-            environ_buf += len(e)
+            environ_buf += len(e.encode())
             mems.put_u8(environ_buf, 0)
             environ_buf += 1
         return [self.ERRNO_SUCCESS]
@@ -589,7 +589,7 @@ class Preview1:
         # Return environment variable data sizes.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u32(args[0], len(self.envs))
-        mems.put_u32(args[1], sum([len(e) + 1 for e in self.envs]))
+        mems.put_u32(args[1], sum([len(e.encode()) + 1 for e in self.envs]))
         return [self.ERRNO_SUCCESS]
 
     def fd_advise(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From f624232cb9672258d361d85c5070ae74925485ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 24/46] fix: the non-blocking flag of a descriptor cannot be
 changed

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 385f52a..5cc510f 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -656,7 +656,7 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_FDSTAT_SET_FLAGS):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_APPEND
+        fyes = self.FDFLAGS_APPEND | self.FDFLAGS_NONBLOCK
         if file.wasm_flag ^ args[1] | fyes != fyes:
             # Only support changing the NONBLOCK or APPEND flags.
             return [self.ERRNO_INVAL]
-- 
2.43.0


From 159511c76c30d85a673c62da0ecef5e763a74f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 25/46] fix: attributes of an open file are those of another
 file after a rename or unlink

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 5cc510f..6f7f4a7 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -695,7 +695,7 @@ class Preview1:
             return [self.ERRNO_NOTCAPABLE]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        info = os.stat(file.host_name)
+        info = os.fstat(file.host_fd)
         mems.put_u64(args[1], 1)
         mems.put_u64(args[1] + 8, info.st_ino)
         mems.put_u8(args[1] + 16, file.wasm_type)
-- 
2.43.0


From f85a95f63d1298c17bed2c01c2e1a6d843c17532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 26/46] fix: setting the modification time of a descriptor to
 now sets it to the given value

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6f7f4a7..11ed535 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -739,7 +739,7 @@ class Preview1:
         if args[3] & self.FSTFLAGS_MTIM:
             mtim = args[2]
         if args[3] & self.FSTFLAGS_MTIM_NOW:
-            mtim = args[2]
+            mtim = time.time_ns()
         os.utime(file.host_fd, ns=(atim, mtim))
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From b085f19273fc1b9b1903c4db888cc6fda5f3c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 27/46] fix: reads stop at the first empty buffer

---
 pywasm/wasi.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 11ed535..8136e47 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -760,8 +760,6 @@ class Preview1:
             elem_ptr = mems.get_u32(iovs_ptr)
             elem_len = mems.get_u32(iovs_ptr + 4)
             data = os.pread(file.host_fd, elem_len, offs)
-            if len(data) == 0:
-                break
             mems.put(elem_ptr, bytearray(data))
             iovs_ptr += 8
             offs += len(data)
@@ -836,8 +834,6 @@ class Preview1:
                 lambda: os.read(file.host_fd, elem_len),
                 lambda: file.pipe.read(elem_len),
             ][self.help_pipe(args[0])]()
-            if len(data) == 0:
-                break
             mems.put(elem_ptr, bytearray(data))
             iovs_ptr += 8
             size += len(data)
-- 
2.43.0


From 4daeabb03397cbbc3fd40d66e9b810e843d2e26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 28/46] fix: a failing seek moves the offset, and host specific
 seeks are accepted

---
 pywasm/wasi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 8136e47..440367b 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -908,10 +908,9 @@ class Preview1:
         assert self.WHENCE_END == os.SEEK_END
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
-        ocur = os.lseek(file.host_fd, 0, args[2])
-        # Seek before byte 0 is an error though.
-        if ocur + args[1] < 0:
+        if args[2] not in [self.WHENCE_SET, self.WHENCE_CUR, self.WHENCE_END]:
             return [self.ERRNO_INVAL]
+        # Seek before byte 0 is an error though, which leaves the offset alone.
         offs = os.lseek(file.host_fd, args[1], args[2])
         mems.put_u64(args[3], offs)
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 50d4897ac23065cbec45c0ea41ec63b7aef34946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 29/46] fix: listing a directory follows symbolic links, counts
 characters and uses stale names

---
 pywasm/wasi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 440367b..4a20614 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -853,12 +853,13 @@ class Preview1:
         dirent = args[1]
         buflen = args[2]
         bufend = dirent + buflen
-        cookie = args[3]
+        cookie = args[3] & 0xffffffffffffffff
         result = ['.', '..', *sorted(os.listdir(file.host_fd))]
         for name in result[cookie:]:
             if dirent + 24 > bufend:
                 break
-            info = os.stat(os.path.normpath(os.path.join(file.host_name, name)))
+            info = os.stat(name, dir_fd=file.host_fd, follow_symlinks=False)
+            name = os.fsencode(name)
             mems.put_u64(dirent, cookie + 1)
             mems.put_u64(dirent + 8, info.st_ino)
             mems.put_u32(dirent + 16, len(name))
@@ -866,7 +867,7 @@ class Preview1:
             dirent += 24
             if dirent + len(name) > bufend:
                 break
-            mems.put(dirent, bytearray(name.encode()))
+            mems.put(dirent, bytearray(name))
             dirent += len(name)
             cookie += 1
         mems.put_u32(args[4], dirent - args[1] if cookie >= len(result) else buflen)
-- 
2.43.0


From da379c94b4945fda593a956e8d208cfd873b6446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 30/46] fix: renumbering a descriptor to itself closes it, and
 pipes stop working under other numbers

---
 pywasm/wasi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 4a20614..bea3aee 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -876,6 +876,8 @@ class Preview1:
     def fd_renumber(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         if self.help_badf(args[0]) or self.help_badf(args[1]):
             return [self.ERRNO_BADF]
+        if args[0] == args[1]:
+            return [self.ERRNO_SUCCESS]
         stem = self.fd[args[0]]
         dest = self.fd[args[1]]
         if dest.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
@@ -1016,7 +1018,7 @@ class Preview1:
         return self.fd[fd].wasm_rights_base & perm == 0
 
     def help_pipe(self, fd: int) -> bool:
-        return fd < 3 and self.fd[fd].pipe is not None
+        return self.fd[fd].pipe is not None
 
     def help_sock(self, fd: int) -> bool:
         return self.fd[fd].wasm_type not in [self.FILETYPE_SOCKET_DGRAM, self.FILETYPE_SOCKET_STREAM]
-- 
2.43.0


From 26a1829948c6d1b744a006fa1e84770ea8132f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 31/46] fix: the size of a link target counts characters
 instead of bytes

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index bea3aee..1546167 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1318,11 +1318,11 @@ class Preview1:
         name = mems.get(args[1], args[2]).decode()
         try:
             with self.help_walk(file, name, name.endswith('/')) as (root, base):
-                data = os.readlink(base, dir_fd=root)
+                data = os.fsencode(os.readlink(base, dir_fd=root))
         except FileNotFoundError:
             return [self.ERRNO_NOENT]
         size = min(len(data), args[4])
-        mems.put(args[3], bytearray(data[:size].encode()))
+        mems.put(args[3], bytearray(data[:size]))
         mems.put_u32(args[5], size)
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From ad2e31202f3b400e519a74db7939f248c5eed719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 32/46] fix: descriptors that are not preopened report prestat

---
 pywasm/wasi.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 1546167..a4c9e24 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -409,6 +409,7 @@ class Preview1:
         wasm_rights_root: int
         wasm_status: int
         wasm_type: int
+        wasm_root: bool = False
 
     def __init__(self, args: typing.List[str], dirs: typing.Dict[str, str], envs: typing.Dict[str, str]):
         self.args = args
@@ -474,6 +475,7 @@ class Preview1:
                 wasm_rights_root=0b00001111111111111111111111111111,
                 wasm_status=self.FILE_STATUS_OPENED,
                 wasm_type=self.FILETYPE_DIRECTORY,
+                wasm_root=True,
             ))
         # By default, when wasi applications call proc_exit(), wasi.main() will return with the exit code specified
         # rather than terminating the process. Setting this option to 0 will cause the python process to exit with the
@@ -770,7 +772,7 @@ class Preview1:
 
     def fd_prestat_dir_name(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or not self.fd[args[0]].wasm_root:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -782,7 +784,7 @@ class Preview1:
 
     def fd_prestat_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return a description of the given preopened file descriptor.
-        if self.help_badf(args[0]) or args[0] - 2 > len(self.dirs):
+        if self.help_badf(args[0]) or not self.fd[args[0]].wasm_root:
             return [self.ERRNO_BADF]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         file = self.fd[args[0]]
@@ -894,6 +896,7 @@ class Preview1:
         dest.wasm_rights_root = stem.wasm_rights_root
         dest.wasm_status = stem.wasm_status
         dest.wasm_type = stem.wasm_type
+        dest.wasm_root = stem.wasm_root
         stem.host_status = self.FILE_STATUS_CLOSED
         stem.wasm_status = self.FILE_STATUS_CLOSED
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From 9e7d3a5ec615f885dac7fe01ef39bec993c945d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 33/46] fix: allocating fills the memory of the host

---
 pywasm/wasi.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index a4c9e24..6c44287 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -611,13 +611,12 @@ class Preview1:
         if self.help_perm(args[0], self.RIGHTS_FD_ALLOCATE):
             return [self.ERRNO_NOTCAPABLE]
         file = self.fd[args[0]]
-        size = args[1] + args[2] - os.stat(file.host_fd).st_size
-        if size <= 0:
+        size = args[1] + args[2]
+        if args[1] < 0 or args[2] < 0 or size > 0x7fffffffffffffff:
+            return [self.ERRNO_INVAL]
+        if size <= os.stat(file.host_fd).st_size:
             return [self.ERRNO_SUCCESS]
-        offs = os.lseek(file.host_fd, 0, os.SEEK_CUR)
-        os.lseek(file.host_fd, 0, os.SEEK_END)
-        os.write(file.host_fd, bytearray(size))
-        os.lseek(file.host_fd, offs, os.SEEK_SET)
+        os.ftruncate(file.host_fd, size)
         return [self.ERRNO_SUCCESS]
 
     def fd_close(self, _: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From 3800d4113a9d4641857f5633de647dfa0dcb873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 34/46] fix: unknown clocks have a time and a resolution

---
 pywasm/wasi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 6c44287..f07dabb 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -562,12 +562,16 @@ class Preview1:
 
     def clock_res_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the resolution of a clock.
+        if args[0] not in range(4):
+            return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u64(args[1], 1)
         return [self.ERRNO_SUCCESS]
 
     def clock_time_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Return the time value of a clock.
+        if args[0] not in range(4):
+            return [self.ERRNO_INVAL]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
         mems.put_u64(args[2], self.help_time(args[0]))
         return [self.ERRNO_SUCCESS]
-- 
2.43.0


From a9edf198a2a0ee6b0e1b40b5bc6840d86d603069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 35/46] fix: polling returns too early, too late or without any
 event

---
 pywasm/wasi.py | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f07dabb..d550f86 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1439,6 +1439,8 @@ class Preview1:
         nsub = args[2]
         nout = args[3]
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        if nsub <= 0:
+            return [self.ERRNO_INVAL]
         csub = []
         rsub = []
         wsub = []
@@ -1449,13 +1451,17 @@ class Preview1:
             eype = mems.get_u8(addr + 8)
             match eype:
                 case self.EVENTTYPE_CLOCK:
-                    ckid = mems.get_u64(addr + 16)
+                    ckid = mems.get_u32(addr + 16)
+                    if ckid not in range(4):
+                        return [self.ERRNO_INVAL]
+                    # Processor time does not pass while waiting for it.
+                    if ckid not in [self.CLOCKID_REALTIME, self.CLOCKID_MONOTONIC]:
+                        return [self.ERRNO_NOTSUP]
                     nval = mems.get_u64(addr + 24)
                     flag = mems.get_u32(addr + 40)
                     ctim = self.help_time(ckid)
-                    delt = ctim - nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else nval
                     ends = nval if flag & self.SUBCLOCKFLAGS_SUBSCRIPTION_CLOCK_ABSTIME else ctim + nval
-                    csub.append([userdata, ckid, delt, ends])
+                    csub.append([userdata, ckid, ends])
                 case self.EVENTTYPE_FD_READ:
                     file = mems.get_u32(addr + 16)
                     if self.help_badf(file):
@@ -1470,19 +1476,32 @@ class Preview1:
                     if self.help_perm(file, self.RIGHTS_POLL_FD_READWRITE):
                         return [self.ERRNO_NOTCAPABLE]
                     wsub.append([userdata, file])
-        # Calculate minimum timeout.
-        delt = 8
-        if csub:
-            delt = min([e[2] for e in csub]) / 1000000000.0
-        ryes, wyes, _ = select.select(
-            [self.fd[fd].host_fd for _, fd in rsub],
-            [self.fd[fd].host_fd for _, fd in wsub],
-            [],
-            delt,
-        )
+                case _:
+                    return [self.ERRNO_INVAL]
+        # Pipes are always ready.
+        rbuf = [self.fd[fd].host_fd for _, fd in rsub if self.help_pipe(fd)]
+        wbuf = [self.fd[fd].host_fd for _, fd in wsub if self.help_pipe(fd)]
+        while True:
+            # Calculate minimum timeout.
+            delt = None
+            if csub:
+                delt = min([e[2] - self.help_time(e[1]) for e in csub]) / 1000000000.0
+                delt = min(max(delt, 0), 3600)
+            if rbuf or wbuf:
+                delt = 0
+            ryes, wyes, _ = select.select(
+                [self.fd[fd].host_fd for _, fd in rsub if not self.help_pipe(fd)],
+                [self.fd[fd].host_fd for _, fd in wsub if not self.help_pipe(fd)],
+                [],
+                delt,
+            )
+            ryes += rbuf
+            wyes += wbuf
+            if ryes or wyes or any([self.help_time(e[1]) >= e[2] for e in csub]):
+                break
         neve = 0
         for e in csub:
-            if self.help_time(e[1]) < e[3]:
+            if self.help_time(e[1]) < e[2]:
                 continue
             mems.put_u64(outs, e[0])
             mems.put_u16(outs + 8, self.ERRNO_SUCCESS)
-- 
2.43.0


From c83f57d55c24262485b57a84e453292dcc7b393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 36/46] fix: buffers outside of the guest memory are accepted
 while the data is short

---
 pywasm/wasi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index d550f86..ae3f2db 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -764,6 +764,7 @@ class Preview1:
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
             elem_len = mems.get_u32(iovs_ptr + 4)
+            mems.area(elem_ptr, elem_len)
             data = os.pread(file.host_fd, elem_len, offs)
             mems.put(elem_ptr, bytearray(data))
             iovs_ptr += 8
@@ -835,6 +836,7 @@ class Preview1:
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
             elem_len = mems.get_u32(iovs_ptr + 4)
+            mems.area(elem_ptr, elem_len)
             data = [
                 lambda: os.read(file.host_fd, elem_len),
                 lambda: file.pipe.read(elem_len),
@@ -1614,6 +1616,7 @@ class Preview1:
         size_all = 0
         for _ in range(iovs_len):
             elem_len = mems.get_u32(iovs_ptr + 4)
+            mems.area(mems.get_u32(iovs_ptr), elem_len)
             size_all += elem_len
             iovs_ptr += 8
         try:
-- 
2.43.0


From 24918f5ab7605aabd82094f183ef50d44fdf73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 37/46] fix: descriptors can be used after the program ended

---
 pywasm/wasi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index ae3f2db..bc83168 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1115,6 +1115,7 @@ class Preview1:
                 if e.host_status != self.FILE_STATUS_CLOSED:
                     os.close(e.host_fd)
                     e.host_status = self.FILE_STATUS_CLOSED
+                    e.wasm_status = self.FILE_STATUS_CLOSED
 
     def path_create_directory(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Create a directory.
-- 
2.43.0


From 22a3cf0b3ba69f4c8c651c103194d8b3c1abf457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 38/46] fix: host descriptors of opened devices and of
 renumbered standard streams are never closed

---
 pywasm/wasi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index bc83168..2053e19 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -477,6 +477,8 @@ class Preview1:
                 wasm_type=self.FILETYPE_DIRECTORY,
                 wasm_root=True,
             ))
+        # The standard streams of the host stay open.
+        self.host_stdio = [e.host_fd for e in self.fd[:3]]
         # By default, when wasi applications call proc_exit(), wasi.main() will return with the exit code specified
         # rather than terminating the process. Setting this option to 0 will cause the python process to exit with the
         # specified exit code instead.
@@ -628,7 +630,7 @@ class Preview1:
         if self.help_badf(args[0]):
             return [self.ERRNO_BADF]
         file = self.fd[args[0]]
-        if file.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
+        if file.host_fd not in self.host_stdio:
             os.close(file.host_fd)
             file.host_status = self.FILE_STATUS_CLOSED
         file.wasm_status = self.FILE_STATUS_CLOSED
@@ -887,7 +889,7 @@ class Preview1:
             return [self.ERRNO_SUCCESS]
         stem = self.fd[args[0]]
         dest = self.fd[args[1]]
-        if dest.wasm_type != self.FILETYPE_CHARACTER_DEVICE:
+        if dest.host_fd not in self.host_stdio:
             os.close(dest.host_fd)
         dest.host_fd = stem.host_fd
         dest.host_flag = stem.host_flag
@@ -1109,8 +1111,8 @@ class Preview1:
             for e in self.fd[self.FD_STDOUT: self.FD_STDERR + 1]:
                 if e.pipe:
                     e.pipe.seek(0)
-            for e in self.fd[self.FD_STDERR + 1:]:
-                if e.wasm_type == self.FILETYPE_CHARACTER_DEVICE:
+            for e in self.fd:
+                if e.host_fd in self.host_stdio:
                     continue
                 if e.host_status != self.FILE_STATUS_CLOSED:
                     os.close(e.host_fd)
-- 
2.43.0


From 8380357e6f3b98c5de0d643984d7c5e095c7063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 39/46] fix: accepting a connection raises a host exception

---
 pywasm/wasi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 2053e19..da55788 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1574,10 +1574,11 @@ class Preview1:
         if args[1] & self.FDFLAGS_NONBLOCK:
             sock.setblocking(False)
         conn, _ = sock.accept()
-        host_fd = conn.fileno()
+        host_fd = conn.detach()
         wasm_fd = len(self.fd)
         self.fd.append(self.File(
             host_fd=host_fd,
+            host_flag=file.host_flag,
             host_name=file.host_name,
             host_status=self.FILE_STATUS_OPENED,
             pipe=None,
-- 
2.43.0


From 72536bd20e33d1b01440b8b688b4412016867d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 40/46] fix: accepting a non-blocking connection makes the
 listening socket non-blocking instead

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index da55788..06b80b3 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1571,9 +1571,9 @@ class Preview1:
             self.FILETYPE_SOCKET_DGRAM: socket.SOCK_DGRAM,
         }[file.wasm_type]
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
-        if args[1] & self.FDFLAGS_NONBLOCK:
-            sock.setblocking(False)
         conn, _ = sock.accept()
+        if args[1] & self.FDFLAGS_NONBLOCK:
+            conn.setblocking(False)
         host_fd = conn.detach()
         wasm_fd = len(self.fd)
         self.fd.append(self.File(
-- 
2.43.0


From 7d077f90df26b711067d746ee82624179351586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 41/46] fix: data received from a socket is reported as
 truncated whenever a buffer is not filled

---
 pywasm/wasi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 06b80b3..db2d415 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1624,7 +1624,7 @@ class Preview1:
             size_all += elem_len
             iovs_ptr += 8
         try:
-            data = sock.recv(size_all, ri_flags)
+            data, _, flag, _ = sock.recvmsg(size_all, 0, ri_flags)
         except BrokenPipeError:
             return [self.ERRNO_PIPE]
         data_len = len(data)
@@ -1644,7 +1644,7 @@ class Preview1:
                 mems.put(elem_ptr, bytearray(data[offs:offs + size]))
                 offs += size
             iovs_ptr += 8
-        if data_len < size_all:
+        if flag & socket.MSG_TRUNC:
             ro_flags |= self.ROFLAGS_RECV_DATA_TRUNCATED
         mems.put_u32(args[4], data_len)
         mems.put_u32(args[5], ro_flags)
-- 
2.43.0


From eb1ca33e35ccfdb008036aedf407555b2c0724eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 42/46] fix: receiving from a socket writes two bytes past its
 output flags

---
 pywasm/wasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index db2d415..f8ef7d3 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1647,7 +1647,7 @@ class Preview1:
         if flag & socket.MSG_TRUNC:
             ro_flags |= self.ROFLAGS_RECV_DATA_TRUNCATED
         mems.put_u32(args[4], data_len)
-        mems.put_u32(args[5], ro_flags)
+        mems.put_u16(args[5], ro_flags)
         return [self.ERRNO_SUCCESS]
 
     def sock_send(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
-- 
2.43.0


From cb110061d744d39f64a11eb9a05e2685d5e13854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 43/46] fix: random data of any size is produced before its
 buffer is checked

---
 pywasm/wasi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index f8ef7d3..ae6d6ad 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -1548,6 +1548,7 @@ class Preview1:
     def random_get(self, m: pywasm.core.Machine, args: typing.List[int]) -> typing.List[int]:
         # Write high-quality random data into a buffer.
         mems = m.store.mems[m.stack.frame[-1].module.mems[0]]
+        mems.area(args[0], args[1])
         mems.put(args[0], bytearray(random.randbytes(args[1])))
         return [self.ERRNO_SUCCESS]
 
-- 
2.43.0


From bbec6334a678ba6ea2783a17723fc276310cf813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 44/46] fix: reading into several buffers blocks, or loses
 data, although some data has been read

---
 pywasm/wasi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index ae6d6ad..90ea1b4 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -839,6 +839,10 @@ class Preview1:
             elem_ptr = mems.get_u32(iovs_ptr)
             elem_len = mems.get_u32(iovs_ptr + 4)
             mems.area(elem_ptr, elem_len)
+            if size > 0 and not self.help_pipe(args[0]) and file.wasm_type != self.FILETYPE_REGULAR_FILE:
+                # Only wait for the first data.
+                if not select.select([file.host_fd], [], [], 0)[0]:
+                    break
             data = [
                 lambda: os.read(file.host_fd, elem_len),
                 lambda: file.pipe.read(elem_len),
-- 
2.43.0


From 140b9587bf0f70267674344d77350aa30725ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 45/46] fix: a scatter/gather list of 2^31 entries or more is
 taken for an empty one

---
 pywasm/wasi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pywasm/wasi.py b/pywasm/wasi.py
index 90ea1b4..240a239 100644
--- a/pywasm/wasi.py
+++ b/pywasm/wasi.py
@@ -762,6 +762,7 @@ class Preview1:
         file = self.fd[args[0]]
         iovs_ptr = args[1]
         iovs_len = args[2]
+        mems.area(iovs_ptr, iovs_len * 8)
         offs = args[3]
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
@@ -811,6 +812,7 @@ class Preview1:
         file = self.fd[args[0]]
         iovs_ptr = args[1]
         iovs_len = args[2]
+        mems.area(iovs_ptr, iovs_len * 8)
         data = bytearray()
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
@@ -834,6 +836,7 @@ class Preview1:
         file = self.fd[args[0]]
         iovs_ptr = args[1]
         iovs_len = args[2]
+        mems.area(iovs_ptr, iovs_len * 8)
         size = 0
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
@@ -970,6 +973,7 @@ class Preview1:
         file = self.fd[args[0]]
         iovs_ptr = args[1]
         iovs_len = args[2]
+        mems.area(iovs_ptr, iovs_len * 8)
         data = bytearray()
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
@@ -1615,6 +1619,7 @@ class Preview1:
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
         iovs_ptr = args[1]
         iovs_len = args[2]
+        mems.area(iovs_ptr, iovs_len * 8)
         ro_flags = 0
         ri_flags = 0
         if args[3] & self.RIFLAGS_RECV_PEEK:
@@ -1672,6 +1677,7 @@ class Preview1:
         sock = socket.fromfd(file.host_fd, socket.AF_INET, kype)
         iovs_ptr = args[1]
         iovs_len = args[2]
+        mems.area(iovs_ptr, iovs_len * 8)
         data = bytearray()
         for _ in range(iovs_len):
             elem_ptr = mems.get_u32(iovs_ptr)
-- 
2.43.0


From 48923c0274ed11111c75c9c73fc55a545e808f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 46/46] fix: a host function that calls back into the runtime
 destroys the state of its caller

---
 pywasm/core.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pywasm/core.py b/pywasm/core.py
index 7a9babf..1b8fd4a 100644
--- a/pywasm/core.py
+++ b/pywasm/core.py
@@ -1,4 +1,5 @@
 import ctypes
+import functools
 import io
 import math
 import pywasm.arith
@@ -1578,6 +1579,19 @@ class Stack:
         self.frame: typing.List[Frame] = []
 
 
+def on_own_stack(f: typing.Callable) -> typing.Callable:
+    # A trap leaves a stack as it was at that time, and a host function may be in the middle of a call.
+    @functools.wraps(f)
+    def wrapper(self: 'Machine', *args: typing.Any, **kwds: typing.Any) -> typing.Any:
+        stack = self.stack
+        self.stack = Stack()
+        try:
+            return f(self, *args, **kwds)
+        finally:
+            self.stack = stack
+    return wrapper
+
+
 class Machine:
     # Execution behavior is defined in terms of an abstract machine that models the program state. It includes a stack,
     # which records operand values and control constructs, and an abstract store containing global state.
@@ -1637,9 +1651,8 @@ class Machine:
             inst.exps.append(expi)
         return inst
 
+    @on_own_stack
     def instance(self, module: ModuleDesc, extern: typing.List[Extern]) -> ModuleInst:
-        # A trap leaves the stack as it was at that time.
-        self.stack = Stack()
         assert len(module.imps) == len(extern)
         for a, b in zip(module.imps, extern):
             assert a.kind == b.kind
@@ -1736,9 +1749,8 @@ class Machine:
         self.stack.frame.pop()
         return newmod
 
+    @on_own_stack
     def invocate(self, addr: int, args: typing.List[ValInst]) -> typing.List[ValInst]:
-        # A trap leaves the stack as it was at that time.
-        self.stack = Stack()
         func = self.store.func[addr]
         for a, b in zip(func.type.args, args):
             assert a == b.type
-- 
2.43.0

