From 6bacdd03ce1a9f4725ceaf45bdcdcfdae34f512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:33 +0000
Subject: [PATCH 01/15] fix: LutCache.lut_by_name truncated named LUTs with
 more than two inputs

The cache built every named table with two inputs, so the entry for the
three-input 'cmux' lost rows 4 to 7.
---
 jaxite/jaxite_bool/lut.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxite/jaxite_bool/lut.py b/jaxite/jaxite_bool/lut.py
index f4c7a01..df326de 100644
--- a/jaxite/jaxite_bool/lut.py
+++ b/jaxite/jaxite_bool/lut.py
@@ -136,8 +136,10 @@ class LutCache:
           f'Unknown gate name "{name}". Use `get_lut` or else use a '
           f'named 2-bit gate from {list(FUNC_NAME_TO_LUT2.keys())}'
       )
-    key = FUNC_NAME_TO_LUT2[name].truth_table
-    return self.lut(num_inputs=2, lut_as_int=key)
+    named_lut = FUNC_NAME_TO_LUT2[name]
+    return self.lut(
+        num_inputs=named_lut.num_inputs, lut_as_int=named_lut.truth_table
+    )
 
   def lut_poly(self, num_inputs: int, lut_as_int: int) -> rlwe.RlweCiphertext:
     return self.lut(num_inputs, lut_as_int).as_rlwe_test_polynomial(
-- 
2.43.0


From 21802aad4d74b91a70a93ae727d41a2aacd11d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:33 +0000
Subject: [PATCH 02/15] fix: test polynomial encoding accepted a coefficient
 one above its range

A coefficient equal to 2^(message + padding bits) was accepted and silently
shifted out to zero.
---
 jaxite/jaxite_cggi/encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/encoding.py b/jaxite/jaxite_cggi/encoding.py
index 28597ea..b6d155d 100644
--- a/jaxite/jaxite_cggi/encoding.py
+++ b/jaxite/jaxite_cggi/encoding.py
@@ -97,7 +97,9 @@ def encode(
   if test_polynomial_encoding:
     # The test polynomial encoding needs to consider both message and padding
     # bits.
-    message_max = 2**(params.padding_bit_length + params.message_bit_length)
+    message_max = (
+        2 ** (params.padding_bit_length + params.message_bit_length) - 1
+    )
   message_min = dtype(params.message_min)
   if (msg_arr > message_max).any() or (msg_arr < message_min).any():
     raise ValueError(
-- 
2.43.0


From 39ba199888c33549d58ae349ee847c6458bf35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:33 +0000
Subject: [PATCH 03/15] fix: bit_slice_to_bytes dropped the high bit of every
 byte

The byte was emitted before its last bit was stored, so bit 7 of each byte
was that of the previous byte.
---
 jaxite/jaxite_bool/type_converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_bool/type_converters.py b/jaxite/jaxite_bool/type_converters.py
index 4d1ceba..710542e 100644
--- a/jaxite/jaxite_bool/type_converters.py
+++ b/jaxite/jaxite_bool/type_converters.py
@@ -52,9 +52,9 @@ def bit_slice_to_bytes(bit_slice: List[bool]) -> bytes:
 
   char_bit_slice: List[bool] = [False] * 8
   for i, entry in enumerate(bit_slice):
+    char_bit_slice[i % 8] = entry
     if (i + 1) % 8 == 0:
       result.append(bit_slice_to_u8(char_bit_slice))
-    char_bit_slice[i % 8] = entry
 
   return bytes(result)
 
-- 
2.43.0


From f7be08c879fc42258b94eff0487e1d542f8c98db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:12 +0000
Subject: [PATCH 04/15] fix: signed decomposition produced the digit B when a
 carry met digit B-1

The carry was read off bit B/2 of digit+carry, which is clear when that sum is
exactly B, so the digit B was emitted although digits are specified to lie in
[-B/2, B/2).
---
 jaxite/jaxite_cggi/decomposition.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jaxite/jaxite_cggi/decomposition.py b/jaxite/jaxite_cggi/decomposition.py
index 6695858..6bec2ea 100644
--- a/jaxite/jaxite_cggi/decomposition.py
+++ b/jaxite/jaxite_cggi/decomposition.py
@@ -192,20 +192,17 @@ def signed_decomposition(
   for i in range(len(result)):
     unsigned_digit = ((x >> (i * base_log)) & digit_mask) + carry
 
-    # This mask tests for whether a digit is >= B/2, and hence requires a shift
-    # and carry propagation
-    carry_mask = unsigned_digit & base_over_2_threshold
+    # The carry is 1 exactly when the digit is >= B/2. Note that the digit may
+    # equal B, because of the carry from the previous digit.
+    carry = (unsigned_digit + base_over_2_threshold) >> base_log
 
     # a tricky way to optionally shift by B. The result is re-cast as a uint32,
     # but this is OK because future arithmetic operations as uint32 will wrap
     # around and treat 2**32-1 properly as -1.
     signed_digit = jnp.uint32(
-        jnp.int32(unsigned_digit) - jnp.int32(carry_mask << 1)
+        jnp.int32(unsigned_digit) - jnp.int32(carry << base_log)
     )
 
-    # convert the carry mask to a 0/1 bit to carry to the next digit
-    carry = carry_mask >> (base_log - 1)
-
     result = result.at[i].set(signed_digit)
 
   # reversed because the digits are computed from least-significant bit to
-- 
2.43.0


From 42c490308dc9d90d000860287c33b6ab885b18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:26 +0000
Subject: [PATCH 05/15] fix: negate RNS values that have zero residues

---
 jaxite_ec/finite_field.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jaxite_ec/finite_field.py b/jaxite_ec/finite_field.py
index 81d25f8..1690fc1 100644
--- a/jaxite_ec/finite_field.py
+++ b/jaxite_ec/finite_field.py
@@ -881,8 +881,11 @@ def negate_rns_for_var_add(
   """
   moduli_sub = jnp.array(moduli_sub, dtype=jnp.uint32)
 
+  # 2^16 - a in 32 bits: for a zero residue this is 2^16, not 0.
   return jnp.add(
-      jnp.negative(value_a.astype(jnp.uint16)).astype(jnp.uint32),
+      jnp.subtract(
+          jnp.uint32(1 << 16), value_a.astype(jnp.uint16).astype(jnp.uint32)
+      ),
       moduli_sub,
   )
 
@@ -916,12 +919,11 @@ def negate_rns_for_var_add_zero_check(
   moduli_sub = jnp.array(moduli_sub, dtype=jnp.uint32)
   a = value_a.astype(jnp.uint16)
 
-  # Compute two's complement negation: for nonzero a, jnp.negative(a) computes
-  # (2^16 - a).
-  neg = jnp.negative(a).astype(jnp.uint32)
+  # 2^16 - a in 32 bits: for a zero residue this is 2^16, not 0.
+  neg = jnp.subtract(jnp.uint32(1 << 16), a.astype(jnp.uint32))
 
-  # Build a branchless mask: 0 if a==0, 1 otherwise.
-  mask = (a != 0).astype(jnp.uint32)
+  # Build a branchless mask: 0 if all residues of the value are 0, 1 otherwise.
+  mask = jnp.any(a != 0, axis=-1, keepdims=True).astype(jnp.uint32)
 
   # For nonzero a: (2^16 - a) + moduli_sub; for zero: m + 0 multiplied by 0
   # gives 0.
-- 
2.43.0


From 11649bfdbcf8ba864a93e71004c996a34c845f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:26 +0000
Subject: [PATCH 06/15] fix: let field element copies take the value zero

---
 jaxite_ec/algorithm/finite_field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index 6a3ea36..8f1e7ef 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -60,7 +60,7 @@ class FiniteFieldElement:
         FiniteFieldElement: A deep copy of the current finite field element.
     """
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(int(self.value))
     else:
       obj.value = BigInt(value)
@@ -181,7 +181,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(self.value)
     else:
       if reduction:
@@ -291,7 +291,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(self.value)
     else:
       if reduction:
-- 
2.43.0


From f39dfe4cb3fc365d025f6e914de90e138e0d410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:26 +0000
Subject: [PATCH 07/15] fix: reduce Barrett and Montgomery sums equal to the
 prime

---
 jaxite_ec/algorithm/finite_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index 8f1e7ef..c5755b0 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -142,7 +142,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
     if self.prime != other.prime:
       raise ValueError("Cannot add two numbers in different Fields")
     result = self.value + other.value
-    if result > self.prime:
+    if result >= self.prime:
       result -= self.prime
     new_instance = self.copy()
     new_instance.value = result
@@ -241,7 +241,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
       raise ValueError("Cannot add two numbers in different Fields")
     assert other.montgomeryized
     result = self.value + other.value
-    if result > self.prime:
+    if result >= self.prime:
       result -= self.prime
     new_instance = self.copy()
     new_instance.value = result
-- 
2.43.0


From f02192c04580401250fff824df94bdff278bab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:14 +0000
Subject: [PATCH 08/15] fix: make the affine reference coordinate system usable

---
 jaxite_ec/algorithm/elliptic_curve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 0ff77cf..11a59e6 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -222,7 +222,8 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
   def double_general(self, point_a: ECPoint[FieldEle]):
     x1 = point_a[0]
     y1 = point_a[1]
-    slope = (x1 * x1 * 3 + self.a) / (y1 * 2)
+    xx = x1 * x1
+    slope = (xx + xx + xx + self.a) / (y1 + y1)
     cx = slope * slope - x1 - x1
     cy = slope * (x1 - cx) - y1
     return ECPoint[FieldEle]([cx, cy], self)
@@ -264,8 +265,6 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
         formal_coordinates.append(coordinate)
       else:
         formal_coordinates.append(self.ff_zero.copy(coordinate))
-    if coordinate_length == 2:
-      assert len(formal_coordinates) == 3
     return formal_coordinates
 
 
-- 
2.43.0


From 48d86be39b9c5ca7bcbb89f091b52819c25f0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:15 +0000
Subject: [PATCH 09/15] fix: merge Pippenger windows whose sum is the blank
 point

---
 jaxite_ec/pippenger.py     | 18 ++++++++++++++++--
 jaxite_ec/pippenger_rns.py | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/jaxite_ec/pippenger.py b/jaxite_ec/pippenger.py
index 63d5372..59b695c 100644
--- a/jaxite_ec/pippenger.py
+++ b/jaxite_ec/pippenger.py
@@ -236,6 +236,20 @@ def padd_with_zero_and_pdul_check(
   return reuslt_3
 
 
+def padd_with_blank_check(partial_sum, single_point):
+  """Padd two points, either of which may be blank (ZZ is literally zero)."""
+  _, batch_dim, _ = partial_sum.shape
+  new_partial_sum = jec.padd_lazy_xyzz_pack(partial_sum, single_point)
+  cond_ps_blank = jnp.all(partial_sum[2] == 0, axis=-1).reshape(
+      1, batch_dim, 1
+  )
+  cond_sp_blank = jnp.all(single_point[2] == 0, axis=-1).reshape(
+      1, batch_dim, 1
+  )
+  result = jnp.where(cond_sp_blank, partial_sum, new_partial_sum)
+  return jnp.where(cond_ps_blank, single_point, result)
+
+
 def bucket_accumulation_algorithm(
     all_buckets: jnp.ndarray,
     all_points: jnp.ndarray,
@@ -431,7 +445,7 @@ def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
   for w in range(window_dim - 2, -1, -1):
     for _ in range(slice_length):
       result = jec.pdul_lazy_xyzz_pack(result)
-    result = jec.padd_lazy_xyzz_pack(
+    result = padd_with_blank_check(
         result,
         window_sum[:, w, :].reshape(
             (coordinate_dim, 1, util.U16_EXT_CHUNK_NUM)
@@ -456,7 +470,7 @@ def window_merge_scan_algorithm(window_sum: jnp.ndarray, slice_length: int):
 
   def scan_body(result, window_sum):
     result = jax.lax.fori_loop(0, slice_length, fori_loop_body, result)
-    result = jec.padd_lazy_xyzz_pack(
+    result = padd_with_blank_check(
         result, window_sum.reshape((coordinate_dim, 1, util.U16_EXT_CHUNK_NUM))
     )
     return result, None
diff --git a/jaxite_ec/pippenger_rns.py b/jaxite_ec/pippenger_rns.py
index fd27be3..2fb4850 100644
--- a/jaxite_ec/pippenger_rns.py
+++ b/jaxite_ec/pippenger_rns.py
@@ -236,6 +236,20 @@ def padd_with_zero_and_pdul_check(
   return reuslt_3
 
 
+def padd_with_blank_check(partial_sum, single_point):
+  """Padd two points, either of which may be blank (ZZ is literally zero)."""
+  _, batch_dim, _ = partial_sum.shape
+  new_partial_sum = jec.padd_rns_xyzz_pack(partial_sum, single_point)
+  cond_ps_blank = jnp.all(partial_sum[2] == 0, axis=-1).reshape(
+      1, batch_dim, 1
+  )
+  cond_sp_blank = jnp.all(single_point[2] == 0, axis=-1).reshape(
+      1, batch_dim, 1
+  )
+  result = jnp.where(cond_sp_blank, partial_sum, new_partial_sum)
+  return jnp.where(cond_ps_blank, single_point, result)
+
+
 def bucket_accumulation_algorithm(
     all_buckets: jnp.ndarray,
     all_points: jnp.ndarray,
@@ -431,7 +445,7 @@ def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
   for w in range(window_dim - 2, -1, -1):
     for _ in range(slice_length):
       result = jec.pdul_rns_xyzz_pack(result)
-    result = jec.padd_rns_xyzz_pack(
+    result = padd_with_blank_check(
         result,
         window_sum[:, w, :].reshape((coordinate_dim, 1, util.NUM_MODULI)),
     )
@@ -454,7 +468,7 @@ def window_merge_scan_algorithm(window_sum: jnp.ndarray, slice_length: int):
 
   def scan_body(result, window_sum):
     result = jax.lax.fori_loop(0, slice_length, fori_loop_body, result)
-    result = jec.padd_rns_xyzz_pack(
+    result = padd_with_blank_check(
         result, window_sum.reshape((coordinate_dim, 1, util.NUM_MODULI))
     )
     return result, None
-- 
2.43.0


From 39503aec64fd8a257d46883d3a0b1d2e88df394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:24 +0000
Subject: [PATCH 10/15] fix: start every twisted MSM from blank buckets

---
 jaxite_ec/pippenger.py     | 10 ++++++++++
 jaxite_ec/pippenger_rns.py |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/jaxite_ec/pippenger.py b/jaxite_ec/pippenger.py
index 59b695c..baf2fee 100644
--- a/jaxite_ec/pippenger.py
+++ b/jaxite_ec/pippenger.py
@@ -957,6 +957,11 @@ class MSMPippengerTwisted:
     # Initial internal selection from the scalar
     self.scalars = scalars
     self.msm_length = len(scalars)
+    # Start from blank buckets, so that an object can be initialized again.
+    self.all_buckets = jnp.broadcast_to(
+        self.blank_point.reshape(self.coordinate_num, 1, 1, -1),
+        self.all_buckets.shape,
+    )
 
     # Convert high-precision points into a vector of low-precision chunks
     self.points = [
@@ -1217,6 +1222,11 @@ class MSMPippengerTwistedSigned:
     # Initial internal selection from the scalar
     self.scalars = scalars
     self.msm_length = len(scalars)
+    # Start from blank buckets, so that an object can be initialized again.
+    self.all_buckets = jnp.broadcast_to(
+        self.blank_point.reshape(self.coordinate_num, 1, 1, -1),
+        self.all_buckets.shape,
+    )
 
     # Convert high-precision points into a vector of low-precision chunks
     self.points = [
diff --git a/jaxite_ec/pippenger_rns.py b/jaxite_ec/pippenger_rns.py
index 2fb4850..41da097 100644
--- a/jaxite_ec/pippenger_rns.py
+++ b/jaxite_ec/pippenger_rns.py
@@ -955,6 +955,11 @@ class MSMPippengerTwisted:
     # Initial internal selection from the scalar
     self.scalars = scalars
     self.msm_length = len(scalars)
+    # Start from blank buckets, so that an object can be initialized again.
+    self.all_buckets = jnp.broadcast_to(
+        self.blank_point.reshape(self.coordinate_num, 1, 1, -1),
+        self.all_buckets.shape,
+    )
 
     # Convert high-precision points into a vector of low-precision chunks
     self.points = [
-- 
2.43.0


From 5333e017c4eb44c1f2d57eac975b7a9be38d2da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:49 +0000
Subject: [PATCH 11/15] fix: compute the Barrett constant with integer division

floor(2**s / m) rounds 2**s / m to a double first; for some 31-bit moduli
(e.g. 1824726041) it rounds up and the reduction of m*m - 1 underflows.
---
 jaxite/jaxite_ckks/barrett.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/barrett.py b/jaxite/jaxite_ckks/barrett.py
index d2653b2..c5e9a77 100644
--- a/jaxite/jaxite_ckks/barrett.py
+++ b/jaxite/jaxite_ckks/barrett.py
@@ -57,7 +57,7 @@ def precompute_barrett_constants(
   barrett_s = [2 * math.ceil(math.log2(m)) for m in moduli]
   barrett_w = [min(s, 32) for s in barrett_s]
   barrett_s_w = [s - w for s, w in zip(barrett_s, barrett_w)]
-  barrett_m = [math.floor(2**s / m) for s, m in zip(barrett_s, moduli)]
+  barrett_m = [2**s // m for s, m in zip(barrett_s, moduli)]
 
   return BarrettConstants(
       m=jnp.array(barrett_m, dtype=jnp.uint64),
-- 
2.43.0


From 96246fd64d7b61f8fd920c871c9da8a71b0e6a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:49 +0000
Subject: [PATCH 12/15] fix: enable 64-bit types in the CKKS modules that
 compute with uint64

barrett (and add, which uses it) and rns relied on another module having
switched jax_enable_x64 on; imported alone, modular_reduction silently
computed in 32 bits and to_jnp_array could not hold residues over 32 bits.
---
 jaxite/jaxite_ckks/barrett.py | 3 +++
 jaxite/jaxite_ckks/rns.py     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/jaxite/jaxite_ckks/barrett.py b/jaxite/jaxite_ckks/barrett.py
index c5e9a77..c0cc157 100644
--- a/jaxite/jaxite_ckks/barrett.py
+++ b/jaxite/jaxite_ckks/barrett.py
@@ -10,6 +10,9 @@ import math
 import jax
 import jax.numpy as jnp
 
+# Enable 64-bit precision for large integer arithmetic
+jax.config.update("jax_enable_x64", True)
+
 
 @jax.tree_util.register_pytree_node_class
 @dataclasses.dataclass(frozen=True)
diff --git a/jaxite/jaxite_ckks/rns.py b/jaxite/jaxite_ckks/rns.py
index b19e068..9a9d1a0 100644
--- a/jaxite/jaxite_ckks/rns.py
+++ b/jaxite/jaxite_ckks/rns.py
@@ -7,9 +7,13 @@ Assume:
 
 import dataclasses
 
+import jax
 import jax.numpy as jnp
 from jaxite.jaxite_ckks import rns_utils
 
+# Enable 64-bit precision for large integer arithmetic
+jax.config.update('jax_enable_x64', True)
+
 
 def _mod_exp(x: int, n: int, q: int) -> int:
   """Returns x^n mod q."""
-- 
2.43.0


From 60d214b19bbe3b0da7e3806928d5e42ae34b1e42 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 13/15] fix: reduce the centred last limb before the unsigned
 product in rescaling

---
 jaxite/jaxite_ckks/rescale.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaxite/jaxite_ckks/rescale.py b/jaxite/jaxite_ckks/rescale.py
index c713101..cf2f24d 100644
--- a/jaxite/jaxite_ckks/rescale.py
+++ b/jaxite/jaxite_ckks/rescale.py
@@ -184,9 +184,10 @@ class Rescale:
       switched = jnp.where(
           last_limb_coeffs < threshold,
           last_limb_coeffs,
-          jnp.array(remaining_moduli, jnp.int64).reshape(1, 1, -1)
-          - int(last_modulus)
-          + last_limb_coeffs.astype(jnp.int64),
+          # The difference may lie below -q_i when the dropped modulus is more
+          # than twice q_i, so reduce it before the unsigned product.
+          (last_limb_coeffs.astype(jnp.int64) - int(last_modulus))
+          % jnp.array(remaining_moduli, jnp.int64).reshape(1, 1, -1),
       )
 
       # Multiply by gammas
-- 
2.43.0


From df76d5a6e27433dbfa491c9c4a779b2219504851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:41 +0000
Subject: [PATCH 14/15] fix: support special-moduli products beyond 64 bits in
 muxed rotation keys

---
 jaxite/jaxite_ckks/key_gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/key_gen.py b/jaxite/jaxite_ckks/key_gen.py
index 85aafda..0ed54d1 100644
--- a/jaxite/jaxite_ckks/key_gen.py
+++ b/jaxite/jaxite_ckks/key_gen.py
@@ -282,7 +282,9 @@ def gen_hmuxrot_key(
     dest_sk_ext = sk_ext
 
   p_val = math.prod(p_limbs)
-  scaled_val0 = (p_val * beta) % all_moduli_u64
+  scaled_val0 = np.array(
+      [p_val * beta % q for q in all_moduli], dtype=np.uint64
+  ).reshape(1, -1)
 
   # key0 is a key-switching key from beta * sk(X^{5^{-j}}) to sk.
   g = pow(5, -j, 2 * degree)
-- 
2.43.0


From 043f49f22743825ef349e5c834d4024a485d818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:59 +0000
Subject: [PATCH 15/15] fix: smul_as_dense_gemv_bat_jax counted the overflowing
 block twice

---
 jaxite/jaxite_cggi/matrix_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jaxite/jaxite_cggi/matrix_utils.py b/jaxite/jaxite_cggi/matrix_utils.py
index 4f92f1f..c752c77 100644
--- a/jaxite/jaxite_cggi/matrix_utils.py
+++ b/jaxite/jaxite_cggi/matrix_utils.py
@@ -497,9 +497,10 @@ def smul_as_dense_gemv_bat_jax(x, q=4294967291):
           [x_dtype[1], x_dtype[0], 0, 0],
           [x_dtype[2], x_dtype[1], x_dtype[0], 0],
           [x_dtype[3], x_dtype[2], x_dtype[1], x_dtype[0]],
-          [0, x_dtype[3], x_dtype[2], x_dtype[1]],
-          [0, 0, x_dtype[3], x_dtype[2]],
-          [0, 0, 0, x_dtype[3]],
+          # the bottom block is projected onto the rows above in the loop below
+          [0, 0, 0, 0],
+          [0, 0, 0, 0],
+          [0, 0, 0, 0],
       ],
       dtype=jnp.uint16,
   )
-- 
2.43.0

