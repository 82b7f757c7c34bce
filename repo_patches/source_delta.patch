From 1a3c3f5defb5beeb12bec3fef7e504855ddedb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 01/55] fix: induction from SO(2) to O(2) crashed on the
 removed np.float alias

---
 e2cnn/group/groups/o2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 13051e9..06df144 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -445,7 +445,7 @@ class O2(Group):
             
             size = P.size
             
-            v = np.zeros((repr.size, size), dtype=np.float)
+            v = np.zeros((repr.size, size), dtype=float)
 
             def build_commuting_matrix(rho, t):
                 k = rho.attributes["frequency"]
-- 
2.43.0


From c8ebca1a3f0fa2ab9dd063d2ba272b81e49abf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:35 +0000
Subject: [PATCH 02/55] fix: G-space basis caches ignored Laplacian power,
 discretization and the representations' content

---
 e2cnn/gspaces/r2/general_r2.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index b0f6f8a..e59619b 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -114,16 +114,16 @@ class GeneralOnR2(GSpace):
         key["rings"] = tuple(rings)
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._basis_generator(in_repr, out_repr, rings, sigma, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     def build_diffop_basis(self,
                            in_repr: Representation,
@@ -185,18 +185,20 @@ class GeneralOnR2(GSpace):
         
         # build the key
         key = dict(**kwargs)
+        key["max_power"] = max_power
+        key["discretization"] = discretization
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._diffop_basis_generator(in_repr, out_repr, max_power, discretization, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
     
     @abstractmethod
     def _basis_generator(self,
-- 
2.43.0


From 0cde0a7e3f847e6854bc0057ebd78734eeb7d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:06 +0000
Subject: [PATCH 03/55] fix: dihedral and O(2) kernel bases with different
 reflection axes compared equal

---
 e2cnn/kernels/irreps_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index f4af163..493ee43 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -881,7 +881,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -1063,7 +1063,7 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
-- 
2.43.0


From 27ac0a724d28bf96c10fd4ddf9b0b8a8149342ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:16 +0000
Subject: [PATCH 04/55] fix: differential-operator bases with different axes or
 discretizations compared equal

---
 e2cnn/diffops/irreps_basis.py    | 6 +++---
 e2cnn/diffops/steerable_basis.py | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 2077fab..49c9d30 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -579,9 +579,9 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
         return attr
 
     def __eq__(self, other):
-        if not isinstance(other, R2DiscreteRotationsSolution):
+        if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -888,7 +888,7 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
diff --git a/e2cnn/diffops/steerable_basis.py b/e2cnn/diffops/steerable_basis.py
index 1823bed..5a7f8b3 100644
--- a/e2cnn/diffops/steerable_basis.py
+++ b/e2cnn/diffops/steerable_basis.py
@@ -240,6 +240,8 @@ class SteerableDiffopBasis(DiffopBasis):
             return False
         elif self.in_repr != other.in_repr or self.out_repr != other.out_repr:
             return False
+        elif self.disc != other.disc:
+            return False
         else:
             sbk1 = sorted(self.irreps_bases.keys())
             sbk2 = sorted(other.irreps_bases.keys())
-- 
2.43.0


From 3e4447ca89cd58b78e956187f57981eff1b21f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:16 +0000
Subject: [PATCH 05/55] fix: G-spaces with different reflection axes compared
 equal

---
 e2cnn/gspaces/r2/flip2d_on_r2.py    | 2 +-
 e2cnn/gspaces/r2/fliprot2d_on_r2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/gspaces/r2/flip2d_on_r2.py b/e2cnn/gspaces/r2/flip2d_on_r2.py
index eddcbfc..712f9aa 100644
--- a/e2cnn/gspaces/r2/flip2d_on_r2.py
+++ b/e2cnn/gspaces/r2/flip2d_on_r2.py
@@ -196,7 +196,7 @@ class Flip2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, Flip2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and self.axis == other.axis
         else:
             return False
 
diff --git a/e2cnn/gspaces/r2/fliprot2d_on_r2.py b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
index 4702c21..4738dd9 100644
--- a/e2cnn/gspaces/r2/fliprot2d_on_r2.py
+++ b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
@@ -295,7 +295,7 @@ class FlipRot2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, FlipRot2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and self.axis == other.axis
         else:
             return False
     
-- 
2.43.0


From b92c16c680ac5fcbcafc3fb29eb656cf847128ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:58 +0000
Subject: [PATCH 06/55] fix: out-of-range field indices of a GeometricTensor
 returned other fields

---
 e2cnn/nn/geometric_tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 457fb07..1d2bc8e 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -470,6 +470,8 @@ class GeometricTensor:
         for i in range(len(expanded_idxs)):
             if isinstance(expanded_idxs[i], int):
                 idx = expanded_idxs[i]
+                if i == 1 and not -idx_max[i] <= idx < idx_max[i]:
+                    raise IndexError(f"Field index {idx} is out of range for a tensor with {idx_max[i]} fields")
                 if idx < 0:
                     # convert a negative index into a positive index
                     idx = idx_max[i] + idx
@@ -486,8 +488,7 @@ class GeometricTensor:
             # contiguous slice over the channels.
             # The slice will start from the first channel of the first field and will stop at the last channel
             # of the last field
-            start = expanded_idxs[1].start if expanded_idxs[1].start is not None else 0
-            stop = expanded_idxs[1].stop if expanded_idxs[1].stop is not None else len(self.type)
+            start, stop, _ = expanded_idxs[1].indices(len(self.type))
             channel_idxs = slice(
                 self.type.fields_start[start],
                 self.type.fields_end[stop-1],
-- 
2.43.0


From e3eb0d0fa8410cb1507b5b5e8832a829dd28fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 07/55] fix: GeometricTensor.split appended to the caller's
 list of breaks

---
 e2cnn/nn/geometric_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 1d2bc8e..ef31516 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -277,7 +277,7 @@ class GeometricTensor:
         if breaks is None:
             breaks = list(range(1, len(self.type)))
             
-        breaks.append(len(self.type))
+        breaks = list(breaks) + [len(self.type)]
         
         # final list of tensors
         tensors = []
-- 
2.43.0


From 0e8ff789356bbb8c96a772630589f0c12593566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:27 +0000
Subject: [PATCH 08/55] fix: restricting O(2) irreps to a continuous subgroup
 failed for irreps built after the subgroup

---
 e2cnn/group/groups/o2group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 06df144..84d5b39 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -258,7 +258,7 @@ class O2(Group):
         if id[0] is not None and id[1] == -1:
             
             change_of_basis = np.eye(irr.size)
-            irreps.append(irr.name)
+            irreps.append(sg.irrep(irr.attributes["flip_frequency"], irr.attributes["frequency"]).name)
 
             if irr.size == 2:
                 f = irr.attributes["frequency"]
@@ -266,7 +266,7 @@ class O2(Group):
 
         elif id[0] is None and id[1] == -1:
             f = irr.attributes["frequency"]
-            irreps.append(f"irrep_{f}")
+            irreps.append(sg.irrep(f).name)
             change_of_basis = np.eye(irr.size)
             
         elif id[0] is not None and id[1] == 1:
-- 
2.43.0


From e801fc9e12013d3cf49d29af9e41e20a0f951299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:27 +0000
Subject: [PATCH 09/55] fix: restriction maps from SO(2)/O(2) returned integers
 outside the finite subgroup

---
 e2cnn/group/groups/o2group.py  | 4 ++--
 e2cnn/group/groups/so2group.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 84d5b39..e965800 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -209,7 +209,7 @@ class O2(Group):
                 # child_mapping = lambda e, order=order: None if (e[0] != 0 or not divides(2.*np.pi/order, e[1])) else \
                 #                                        int(round(e[1] * order / (2.*np.pi)))
                 child_mapping = lambda e, order=order: None if (e[0] != 0 or not utils.cycle_isclose(e[1], 0., 2.*np.pi/order)) else \
-                    int(round(e[1] * order / (2.*np.pi)))
+                    int(round(e[1] * order / (2.*np.pi))) % order
 
             elif id[0] is not None and id[1] > 1:
                 # take the elements of the group generated by "2pi/order" and "2pi/k f"
@@ -217,7 +217,7 @@ class O2(Group):
 
                 parent_mapping = lambda e, order=order, axis=axis: (e[0], e[1] * 2. * np.pi / order + e[0]*axis)
                 child_mapping = lambda e, order=order, axis=axis: None if not utils.cycle_isclose(e[1] - e[0]*axis, 0., 2.*np.pi/order) else \
-                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))))
+                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))) % order)
             else:
                 raise ValueError(f"id '{id}' not recognized")
 
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index 62e0542..db9755b 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -143,7 +143,7 @@ class SO2(Group):
             sg = CyclicGroup(order)
             parent_mapping = lambda e, order=order: e*2*np.pi/order
             # child_mapping = lambda e, order=order: None if divmod(e, 2.*np.pi/order)[1] > 1e-15 else int(round(e * order / (2.*np.pi)))
-            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi)))
+            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi))) % order
 
             self._subgroups[id] = sg, parent_mapping, child_mapping
     
-- 
2.43.0


From 5ba4f26abc7a65c93eccf5aea4b86991bb36dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:59 +0000
Subject: [PATCH 10/55] fix: output shape prediction of convolutions failed for
 a pair of paddings

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 6 ++++--
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 51c760b..fbe9a1b 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -400,8 +400,10 @@ class R2Conv(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ph, pw = self.padding if isinstance(self.padding, tuple) else (self.padding, self.padding)
+        
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1b63ae2..74b897d 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -505,8 +505,10 @@ class R2Diffop(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ph, pw = self.padding if isinstance(self.padding, tuple) else (self.padding, self.padding)
+        
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From 4c9d5717fafade9c0fc4d64b5b3b941726e19e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:24 +0000
Subject: [PATCH 11/55] fix: output shape prediction of the transposed
 convolution used the formula of the plain convolution

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 2abfea9..e086e0e 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -250,8 +250,8 @@ class R2ConvTransposed(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ho = (hi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
+        wo = (wi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From 00dbff799f09f1d0414a46bdfe42b5458fd06b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:24 +0000
Subject: [PATCH 12/55] fix: exporting a transposed convolution dropped
 output_padding

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index e086e0e..c91fbae 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -369,6 +369,7 @@ class R2ConvTransposed(EquivariantModule):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
-- 
2.43.0


From 3f97d94e49d62edf4aee1f2d80dc88f8ff0f40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:24 +0000
Subject: [PATCH 13/55] fix: exporting a pointwise max-pooling dropped
 ceil_mode

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index cbc9e92..af9250d 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -138,7 +138,7 @@ class PointwiseMaxPool(EquivariantModule):
     
         self.eval()
     
-        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode).eval()
 
 
 class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
-- 
2.43.0


From 05e9f70eb89a0a172cea9328227a267e970c1871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:24 +0000
Subject: [PATCH 14/55] fix: output shape prediction of the pointwise
 average-pooling read a missing attribute

---
 e2cnn/nn/modules/pooling/pointwise_avg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_avg.py b/e2cnn/nn/modules/pooling/pointwise_avg.py
index ce26012..f76a7f6 100644
--- a/e2cnn/nn/modules/pooling/pointwise_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_avg.py
@@ -102,8 +102,8 @@ class PointwiseAvgPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+        ho = (hi + 2 * self.padding[0] - self.kernel_size[0]) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.kernel_size[1]) / self.stride[1] + 1
         
         if self.ceil_mode:
             ho = math.ceil(ho)
-- 
2.43.0


From 146878a4964a92cfadfa58102f06277407ca59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:24 +0000
Subject: [PATCH 15/55] fix: output shape prediction with ceil_mode counted
 windows starting in the right padding

---
 e2cnn/nn/modules/pooling/pointwise_avg.py | 5 +++++
 e2cnn/nn/modules/pooling/pointwise_max.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/e2cnn/nn/modules/pooling/pointwise_avg.py b/e2cnn/nn/modules/pooling/pointwise_avg.py
index f76a7f6..930f542 100644
--- a/e2cnn/nn/modules/pooling/pointwise_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_avg.py
@@ -108,6 +108,11 @@ class PointwiseAvgPool(EquivariantModule):
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # the last window has to start inside the (left-padded) input
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index af9250d..9c7775d 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -119,6 +119,11 @@ class PointwiseMaxPool(EquivariantModule):
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # the last window has to start inside the (left-padded) input
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
-- 
2.43.0


From d5967e0c2febdbe48b4fc20996193fdc827906e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:24 +0000
Subject: [PATCH 16/55] fix: output shape prediction of the antialiased
 max-pooling ignored the padding of the blur and misused ceil_mode

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index 9c7775d..b2b437a 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -240,6 +240,18 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type)
 
+    def evaluate_output_shape(self, input_shape: Tuple[int, int, int, int]) -> Tuple[int, int, int, int]:
+        assert len(input_shape) == 4
+        assert input_shape[1] == self.in_type.size
+
+        b, c, hi, wi = input_shape
+
+        # the dense max-pooling and the strided blurring are both padded
+        ho = (hi + 4 * self.padding[0] - self.kernel_size[0]) // self.stride[0] + 1
+        wo = (wi + 4 * self.padding[1] - self.kernel_size[1]) // self.stride[1] + 1
+
+        return b, self.out_type.size, ho, wo
+
     def export(self):
         r"""
         Export this module to a normal PyTorch :class:`torch.nn.MaxPool2d` module and set to "eval" mode.
-- 
2.43.0


From 654e8442a34535a24d314cc648dfd47052ec8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:25 +0000
Subject: [PATCH 17/55] fix: output shape prediction of adaptive poolings
 returned nested tuples

---
 e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py | 2 +-
 e2cnn/nn/modules/pooling/pointwise_adaptive_max.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
index e44d2a9..b12d034 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveAvgPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return b, self.out_type.size, self.output_size[0], self.output_size[1]
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
index 403b611..f545229 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveMaxPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return b, self.out_type.size, self.output_size[0], self.output_size[1]
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
-- 
2.43.0


From 52377bfe3b43d0c3400bb31d63d6beb0d40170a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:39 +0000
Subject: [PATCH 18/55] fix: norm max-pooling crashed with ceil_mode

---
 e2cnn/nn/modules/pooling/norm_max.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index 41113a0..c23f997 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -221,10 +221,20 @@ class NormMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = math.floor(
-            (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1)
-        wo = math.floor(
-            (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1)
+        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+
+        if self.ceil_mode:
+            ho = math.ceil(ho)
+            wo = math.ceil(wo)
+            # the last window has to start inside the (left-padded) input
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
+        else:
+            ho = math.floor(ho)
+            wo = math.floor(wo)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From 05ea577608e874ef50193f81557fb28bce126048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 19/55] fix: in-place field dropout did nothing on
 non-contiguous fields

---
 e2cnn/nn/modules/dropout/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 9082c0d..1ff4d57 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -154,9 +154,12 @@ class FieldDropout(EquivariantModule):
                     output[:, indices[0]:indices[1], ...] = out.view(shape)
             else:
                 # otherwise we have to use indexing
+                # (indexing builds a copy, so the result needs to be written back also when working in-place)
                 out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
-                if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
+                if self.inplace:
+                    input[:, indices, ...] = out.view(shape)
+                else:
                     output[:, indices, ...] = out.view(shape)
             
         if self.inplace:
-- 
2.43.0


From 662178d9df0de1cb5f56c486093fbd65daac9395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 20/55] fix: output shape prediction of MultipleModule passed
 the branches' shapes positionally

---
 e2cnn/nn/modules/multiple_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index b417951..5cdb067 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -126,7 +126,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
-- 
2.43.0


From 20013064787e28a0833c34a4824c018a7a922a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 21/55] fix: MergeModule modified the list of modules passed by
 the caller

---
 e2cnn/nn/modules/merge_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 5350d6e..c39fd5e 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -41,6 +41,9 @@ class MergeModule(EquivariantModule):
         
         labels = []
         
+        # copy the list, to not modify the one passed by the user
+        modules = list(modules)
+        
         for i in range(len(modules)):
             if isinstance(modules[i][1], str):
                 modules[i] = (modules[i][0], [modules[i][1]])
-- 
2.43.0


From 5b85023f617d86ed6349d5a34f1862f008160b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 22/55] fix: BranchingModule rejected the documented reshuffle
 level 3

---
 e2cnn/nn/modules/branching_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/branching_module.py b/e2cnn/nn/modules/branching_module.py
index 339b13a..b230b21 100644
--- a/e2cnn/nn/modules/branching_module.py
+++ b/e2cnn/nn/modules/branching_module.py
@@ -63,7 +63,7 @@ class BranchingModule(EquivariantModule):
         
         assert isinstance(in_type.gspace, GeneralOnR2)
         
-        assert 0 <= reshuffle < 3
+        assert 0 <= reshuffle <= 3
         
         super(BranchingModule, self).__init__()
         
-- 
2.43.0


From 5a3cc6c0d15ada6aa8c138e6d246e919f505ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 23/55] fix: ReshuffleModule accepted lists with repeated
 indices

---
 e2cnn/nn/modules/reshuffle_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/reshuffle_module.py b/e2cnn/nn/modules/reshuffle_module.py
index 7aac8d6..7d022e5 100644
--- a/e2cnn/nn/modules/reshuffle_module.py
+++ b/e2cnn/nn/modules/reshuffle_module.py
@@ -38,7 +38,7 @@ class ReshuffleModule(EquivariantModule):
         super(ReshuffleModule, self).__init__()
         
         # check if it is actually a permutation of the fields
-        assert set(permutation) == set(range(0, len(in_type.representations)))
+        assert sorted(permutation) == list(range(0, len(in_type.representations)))
         
         self.space = in_type.gspace
         self.in_type = in_type
-- 
2.43.0


From b6c00595a2804dc0b7c90bb5630ffe8d8010abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 24/55] fix: exporting an upsampling layer dropped its output
 size

---
 e2cnn/nn/modules/r2upsampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/nn/modules/r2upsampling.py b/e2cnn/nn/modules/r2upsampling.py
index 7d82754..9a776f4 100644
--- a/e2cnn/nn/modules/r2upsampling.py
+++ b/e2cnn/nn/modules/r2upsampling.py
@@ -201,12 +201,14 @@ class R2Upsampling(EquivariantModule):
         
         if self._align_corners is not None:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
                 align_corners=self._align_corners
             )
         else:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
             )
-- 
2.43.0


From 775fc9d8ae3a22d57f8e8b3e5afa55ee3e36b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 25/55] fix: loading the diffops cache discarded its content

---
 e2cnn/diffops/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index 8a0ffe5..8d4b057 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -40,7 +40,7 @@ def load_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
     if os.path.exists(path):
         print("Loading cached Diffops")
         with open(path, "rb") as f:
-            _DIFFOP_CACHE = pickle.load(f)
+            _DIFFOP_CACHE.update(pickle.load(f))
     else:
         print("Diffop cache not found, skipping")
 
-- 
2.43.0


From e6c6e88a3cd55fc19c76f8573de4ff51e9a63256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 26/55] fix: finite-difference stencils were rotated by 90
 degrees, breaking the equivariance to reflections

---
 e2cnn/diffops/basis.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index e23ad7f..efc41af 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -132,17 +132,24 @@ class DiffopBasis(Basis):
         assert points.shape[0] == 2
         num_points = points.shape[1]
 
+        # finite differences are returned with the first axis of the grid running along x;
+        # the filter has to be rotated to match the layout of ``points`` (see get_grid_coords)
+        grid_shape = (len(np.unique(points[0])), len(np.unique(points[1])))
+
         basis = np.empty((np.sum(mask), ) + self.shape + (num_points, ))
         for k, element in enumerate(coefficients):
             for i in range(self.shape[0]):
                 for j in range(self.shape[1]):
-                    basis[k, i, j] = discretize_homogeneous_polynomial(
+                    stencil = discretize_homogeneous_polynomial(
                         points,
                         element[i, j],
                         self.disc.smoothing,
                         phi=self.disc.phi,
                         method=self.disc.method,
                     )
+                    if self.disc.method == "fd":
+                        stencil = np.rot90(stencil.reshape(grid_shape), 1).reshape(-1)
+                    basis[k, i, j] = stencil
 
         # Finally, we move the len_basis axis to the third position
         basis = basis.transpose(1, 2, 0, 3)
-- 
2.43.0


From 01bcf02f632788b3c549a8fcdc26ad5de984fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 27/55] fix: byte masks made the basis expansion crash on
 current PyTorch

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 53d4ea2..a13c30c 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -57,12 +57,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         # and filter out the basis elements discarded by the filter
         sampled_basis = torch.Tensor(basis.sample_masked(points, mask=mask)).permute(2, 0, 1, 3)
 
-        # DEPRECATED FROM PyTorch 1.2
-        # PyTorch 1.2 suggests using BoolTensor instead of ByteTensor for boolean indexing
-        # but BoolTensor have been introduced only in PyTorch 1.2
-        # Hence, for the moment we use ByteTensor
-        mask = mask.astype(np.uint8)
-        mask = torch.tensor(mask)
+        mask = torch.tensor(mask, dtype=torch.bool)
 
         # normalize the basis
         sizes = torch.tensor(sizes, dtype=sampled_basis.dtype)
@@ -77,7 +72,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         sampled_basis = sampled_basis[norms, ...]
         
         full_mask = torch.zeros_like(mask)
-        full_mask[mask] = norms.to(torch.uint8)
+        full_mask[mask] = norms
         self._mask = full_mask
 
         self.attributes = [attr for b, attr in enumerate(attributes) if norms[b]]
-- 
2.43.0


From ed8992124bd298e26d4de378ba918e52989009ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:52 +0000
Subject: [PATCH 28/55] fix: storing the diffops cache in the current directory
 failed

---
 e2cnn/diffops/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index 8d4b057..5d0bfde 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -56,7 +56,8 @@ def store_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
         
     """
     directory = os.path.dirname(path)
-    os.makedirs(directory, exist_ok=True)
+    if directory:
+        os.makedirs(directory, exist_ok=True)
     with open(path, "w+b") as f:
         pickle.dump(_DIFFOP_CACHE, f)
 
-- 
2.43.0


From da06fcef088ffef546f0f41d62e062bf6e6ef393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:00 +0000
Subject: [PATCH 29/55] fix: decompose finite-group representations reliably

The decomposition missed part of the intertwiner space for groups with more
than 10 elements (truncated SVD) and the optimiser could divide by zero.
---
 e2cnn/group/representation.py | 92 ++++++++++-------------------------
 1 file changed, 27 insertions(+), 65 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 1647f25..350d63d 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -993,24 +993,9 @@ def build_induced_representation(group: e2cnn.group.Group,
 ########################################################################################################################
 
 from scipy import linalg, sparse
-import scipy.sparse.linalg as slinalg
 from scipy.sparse import find
 
 
-try:
-    import pymanopt
-    from pymanopt.manifolds import Euclidean
-    from pymanopt.solvers import TrustRegions
-    
-except ImportError:
-    pymanopt = None
-    
-try:
-    import autograd.numpy as anp
-except ImportError:
-    anp = None
-
-
 def direct_sum_factory(irreps: List[e2cnn.group.IrreducibleRepresentation],
                        change_of_basis: np.ndarray,
                        change_of_basis_inv: np.ndarray = None
@@ -1075,7 +1060,7 @@ def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
     """
     Compute _bases for the Kernel space of the matrix A.
 
-    If ``use_sparse`` is ``True``, :meth:`scipy.sparse.linalg.svds` is used;
+    If ``use_sparse`` is ``True``, the eigenvectors of :math:`A^T A` are computed with :meth:`scipy.linalg.eigh`;
     otherwise, :meth:`scipy.linalg.svd` is used.
 
     Moreover, if the input is a sparse matrix, ``use_sparse`` has to be set to ``True``.
@@ -1090,9 +1075,12 @@ def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
 
     """
     if use_sparse:
-        u, s, vh = slinalg.svds(A, k=min(A.shape) - 1)
-    else:
-        u, s, vh = linalg.svd(A)
+        # a truncated SVD misses part of the kernel: it is spanned by the eigenvectors of `A^T A` with null eigenvalue
+        # (the eigenvalues are the squared singular values)
+        w, v = linalg.eigh((A.T @ A).toarray())
+        return v[:, w <= math.sqrt(eps)]
+    
+    u, s, vh = linalg.svd(A)
     
     # print(u.shape, s.shape, vh.shape)
     # print(min(s))
@@ -1102,52 +1090,26 @@ def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
 
 def find_orthogonal_matrix(basis: np.ndarray, shape):
     
-    if pymanopt is None:
-        raise ImportError("Missing optional 'pymanopt' dependency. Install 'pymanopt' to use this function")
-    
-    if anp is None:
-        raise ImportError("Missing optional 'autograd' dependency. Install 'autograd' to use this function")
-
-    manifold = Euclidean(basis.shape[1])
-    
-    def cost(X):
-        d = anp.dot(basis, X).reshape(shape, order='F')
-        return anp.sum(
-            anp.square(anp.dot(d, d.T) - anp.eye(*shape)) +
-            anp.square(anp.dot(d.T, d) - anp.eye(*shape))
-        )
-    
-    problem = pymanopt.Problem(manifold=manifold, cost=cost)
-    
-    # solver = TrustRegions(use_rand=True, miniter=10, mingradnorm=1e-10)
-    # solver = ParticleSwarm(populationsize=500, maxcostevals=10000, logverbosity=0)
-    # solver = ParticleSwarm(logverbosity=0)
-    
-    import os, sys
-    
-    old_stdout = sys.stdout
-    sys.stdout = open(os.devnull, 'w')
-    #
-    # Xopt = solver.solve(problem)
-    # c = cost(Xopt)
-    # print('PSO, Final Error:', c)
-    #
-    # x = Xopt
-    
-    solver = TrustRegions(mingradnorm=1e-10, logverbosity=0)
-    
-    Xopt = solver.solve(problem)  # , x=x) #, Delta_bar=np.sqrt(basis.shape[1])*2)
-    
-    c = cost(Xopt)
-    
-    sys.stdout = old_stdout  # sys.__stdout__
-    
-    # print('TrustRegions, Final Error:', c)
-    # print('Weights:', Xopt)
-    
-    D = np.dot(basis, Xopt).reshape(shape, order='F')
-    
-    return D, c
+    # The columns of `basis` span the (vectorized) matrices intertwining two representations.
+    # If these are orthogonal, the orthogonal factor in the polar decomposition of an invertible intertwiner is an
+    # intertwiner, too. A random intertwiner is almost surely invertible; sample a few and pick the best conditioned one.
+    best = None
+    for _ in range(10):
+        X = np.dot(basis, np.random.randn(basis.shape[1])).reshape(shape, order='F')
+        sv = linalg.svd(X, compute_uv=False)
+        if best is None or sv[-1] / sv[0] > best[0]:
+            best = sv[-1] / sv[0], X
+    
+    D = best[1]
+    u, s, vh = linalg.svd(D)
+    U = np.dot(u, vh)
+    
+    # when the representation is not orthogonal, `U` is not an intertwiner; then, keep `D`
+    v = U.reshape(-1, order='F')
+    if np.allclose(np.dot(basis, np.dot(basis.T, v)), v):
+        D = U
+    
+    return D, np.sum(np.square(np.dot(D, D.T) - np.eye(*shape)) + np.square(np.dot(D.T, D) - np.eye(*shape)))
 
 
 def compute_change_of_basis(representation: Dict[Any, np.matrix],
-- 
2.43.0


From 39d3c7afab64440ae84a7b32ad1019c69d011140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:55 +0000
Subject: [PATCH 30/55] fix: maximum_offset alone duplicated or lost kernels
 between one-dimensional irreps

---
 e2cnn/diffops/irreps_basis.py | 4 ++--
 e2cnn/kernels/irreps_basis.py | 4 ++--
 e2cnn/kernels/utils.py        | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 49c9d30..f04f55a 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -262,7 +262,7 @@ class R2DiscreteRotationsSolution(DiffopBasis):
 
             for invert in range(2):
 
-                k = self.m - self.n
+                k = abs(self.m - self.n)
 
                 # for each available frequency offset, build the corresponding basis vector
                 for t in offset_iterator(k, self.N, self.max_offset, self.max_frequency, non_negative=True):
@@ -492,7 +492,7 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
             
             self.invert = ((self.fi + self.fo) % 2)
             
-            k = self.m - self.n
+            k = abs(self.m - self.n)
             
             # for each available frequency offset, build the corresponding basis vector
             for t in offset_iterator(k, self.N, self.max_offset, self.max_frequency, non_negative=True):
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index 493ee43..28fb4e0 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -329,7 +329,7 @@ class R2DiscreteRotationsSolution(IrrepBasis):
 
             for gamma in [0., np.pi / 2]:
         
-                k = self.m - self.n
+                k = abs(self.m - self.n)
         
                 # for each available frequency offset, build the corresponding basis vector
                 for t in offset_iterator(k, self.N, self.max_offset, self.max_frequency, non_negative=True):
@@ -776,7 +776,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
             self.gamma = ((self.fi + self.fo) % 2) * np.pi/2
             mus = []
             
-            k = self.m - self.n
+            k = abs(self.m - self.n)
             
             # for each available frequency offset, build the corresponding basis vector
             for t in offset_iterator(k, self.N, self.max_offset, self.max_frequency, non_negative=True):
diff --git a/e2cnn/kernels/utils.py b/e2cnn/kernels/utils.py
index 37c19a4..cbbf078 100644
--- a/e2cnn/kernels/utils.py
+++ b/e2cnn/kernels/utils.py
@@ -34,7 +34,7 @@ def offset_iterator(base_frequency, N, maximum_offset=None, maximum_frequency=No
             min_offset = (minimum_frequency - base_frequency) / N
             max_offset = (maximum_frequency - base_frequency) / N
         else:
-            min_offset = -10000
+            min_offset = -base_frequency / N if non_negative else -10000
             max_offset = 10000
             
         if maximum_offset is not None:
-- 
2.43.0


From a0df06c9f6f498274a65f7b1a9f8276404723b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:09 +0000
Subject: [PATCH 31/55] fix: converting a convolution to another type changed
 the other layers sharing its basis

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index a13c30c..546c990 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -4,6 +4,8 @@ from .basisexpansion import BasisExpansion
 
 from typing import Callable, Dict, List, Iterable, Union
 
+import copy
+
 import torch
 import numpy as np
 
@@ -174,7 +176,12 @@ def block_basisexpansion(basis: Basis,
         if key not in _stored_filters:
             _stored_filters[key] = SingleBlockBasisExpansion(basis, points, basis_filter)
         
-        return _stored_filters[key]
+        # each layer owns its module (only the tensors are shared), such that converting a layer to another type or
+        # moving it to another device doesn't affect the other layers
+        block_expansion = copy.copy(_stored_filters[key])
+        block_expansion._buffers = block_expansion._buffers.copy()
+        
+        return block_expansion
     
     else:
         return SingleBlockBasisExpansion(basis, points, basis_filter)
-- 
2.43.0


From d904f2f2d0c506fdc88209436cc091f9dcc4bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:59 +0000
Subject: [PATCH 32/55] fix: convolutions between several field types failed in
 double precision

---
 e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index 21e7b20..9602b99 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -329,7 +329,7 @@ class BlocksBasisExpansion(BasisExpansion):
         else:
         
             # build the tensor which will contain te filter
-            _filter = torch.zeros(self._output_size, self._input_size, self.S, device=weights.device)
+            _filter = torch.zeros(self._output_size, self._input_size, self.S, device=weights.device, dtype=weights.dtype)
 
             # iterate through all input-output field representations pairs
             for io_pair in self._representations_pairs:
-- 
2.43.0


From 837a5de2805f36ef11e96664a6625854578833b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:10 +0000
Subject: [PATCH 33/55] fix: convolutions in evaluation mode could not be
 deep-copied

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 4 ++--
 e2cnn/nn/modules/r2_conv/r2convolution.py             | 4 ++--
 e2cnn/nn/modules/r2_conv/r2diffop.py                  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index c91fbae..830e9d6 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -236,9 +236,9 @@ class R2ConvTransposed(EquivariantModule):
     
             _filter, _bias = self.expand_parameters()
             
-            self.register_buffer("filter", _filter)
+            self.register_buffer("filter", _filter.detach())
             if _bias is not None:
-                self.register_buffer("expanded_bias", _bias)
+                self.register_buffer("expanded_bias", _bias.detach())
             else:
                 self.expanded_bias = None
 
diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index fbe9a1b..3d0b6d3 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -386,9 +386,9 @@ class R2Conv(EquivariantModule):
             
             _filter, _bias = self.expand_parameters()
     
-            self.register_buffer("filter", _filter)
+            self.register_buffer("filter", _filter.detach())
             if _bias is not None:
-                self.register_buffer("expanded_bias", _bias)
+                self.register_buffer("expanded_bias", _bias.detach())
             else:
                 self.expanded_bias = None
 
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 74b897d..d20e6d4 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -491,9 +491,9 @@ class R2Diffop(EquivariantModule):
             
             _filter, _bias = self.expand_parameters()
     
-            self.register_buffer("filter", _filter)
+            self.register_buffer("filter", _filter.detach())
             if _bias is not None:
-                self.register_buffer("expanded_bias", _bias)
+                self.register_buffer("expanded_bias", _bias.detach())
             else:
                 self.expanded_bias = None
 
-- 
2.43.0


From 1541a89dd221918dcb21a16c7a5bb046253f913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:10 +0000
Subject: [PATCH 34/55] fix: exported convolutions shared their filter with the
 original layer

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 4 ++--
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 3d0b6d3..fb3d2cf 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -541,9 +541,9 @@ class R2Conv(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index d20e6d4..cd0ad95 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -646,9 +646,9 @@ class R2Diffop(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
-- 
2.43.0


From d35b727ff0f2698be0f7f908333a2155efa47f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:10 +0000
Subject: [PATCH 35/55] fix: exported transposed convolution did not keep
 double precision

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 830e9d6..33ba921 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -376,9 +376,9 @@ class R2ConvTransposed(EquivariantModule):
                                        bias=has_bias)
         
         # set the filter and the bias
-        conv.weight.data[:] = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data[:] = _bias.data
+            conv.bias.data = _bias.data.clone()
     
         return conv
 
-- 
2.43.0


From dc2fa9a9e218c772e88f8313dd9d9261f303e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:48 +0000
Subject: [PATCH 36/55] fix: export refused non-zero padding modes on PyTorch
 2.0-2.4

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index fb3d2cf..50d4e29 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -513,7 +513,7 @@ class R2Conv(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index cd0ad95..1e9408d 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -618,7 +618,7 @@ class R2Diffop(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
-- 
2.43.0


From 4b095ec661a74f1ee6fc63b2170222764c63707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:19 +0000
Subject: [PATCH 37/55] fix: loading the state of some convolutions failed
 (index buffers with overlapping memory)

---
 e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index 9602b99..0a0e7b1 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -138,8 +138,8 @@ class BlocksBasisExpansion(BasisExpansion):
 
             else:
                 out_indices, in_indices = torch.meshgrid([_out_indices[io_pair[1]], _in_indices[io_pair[0]]])
-                in_indices = in_indices.reshape(-1)
-                out_indices = out_indices.reshape(-1)
+                in_indices = in_indices.reshape(-1).contiguous()
+                out_indices = out_indices.reshape(-1).contiguous()
                 
                 # register the indices tensors and the bases tensors as parameters of this module
                 self.register_buffer('in_indices_{}'.format(io_pair), in_indices)
-- 
2.43.0


From 49d30faf0bc2ccb7817f8030c7c5279c6e653d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:49 +0000
Subject: [PATCH 38/55] fix: nonlinearities, invariant maps and merging
 returned single precision for double precision inputs

---
 e2cnn/nn/modules/invariantmaps/gpool.py           | 2 +-
 e2cnn/nn/modules/invariantmaps/induced_norm.py    | 2 +-
 e2cnn/nn/modules/invariantmaps/norm.py            | 2 +-
 e2cnn/nn/modules/merge_module.py                  | 3 ++-
 e2cnn/nn/modules/nonlinearities/concatenated.py   | 2 +-
 e2cnn/nn/modules/nonlinearities/gated1.py         | 2 +-
 e2cnn/nn/modules/nonlinearities/gated2.py         | 2 +-
 e2cnn/nn/modules/nonlinearities/induced_gated1.py | 2 +-
 e2cnn/nn/modules/nonlinearities/vectorfield.py    | 4 ++--
 9 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/e2cnn/nn/modules/invariantmaps/gpool.py b/e2cnn/nn/modules/invariantmaps/gpool.py
index 0b6a822..283d6f5 100644
--- a/e2cnn/nn/modules/invariantmaps/gpool.py
+++ b/e2cnn/nn/modules/invariantmaps/gpool.py
@@ -97,7 +97,7 @@ class GroupPooling(EquivariantModule):
         input = input.tensor
         b, c, h, w = input.shape
         
-        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=torch.float)
+        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=input.dtype)
         
         for s, contiguous in self._contiguous.items():
             
diff --git a/e2cnn/nn/modules/invariantmaps/induced_norm.py b/e2cnn/nn/modules/invariantmaps/induced_norm.py
index d0f514c..f5f7596 100644
--- a/e2cnn/nn/modules/invariantmaps/induced_norm.py
+++ b/e2cnn/nn/modules/invariantmaps/induced_norm.py
@@ -117,7 +117,7 @@ class InducedNormPool(EquivariantModule):
         input = input.tensor
         b, c, h, w = input.shape
         
-        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=torch.float)
+        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=input.dtype)
         
         for id, contiguous in self._contiguous.items():
             size, subfield_size = id
diff --git a/e2cnn/nn/modules/invariantmaps/norm.py b/e2cnn/nn/modules/invariantmaps/norm.py
index 92d1482..a86d87b 100644
--- a/e2cnn/nn/modules/invariantmaps/norm.py
+++ b/e2cnn/nn/modules/invariantmaps/norm.py
@@ -84,7 +84,7 @@ class NormPool(EquivariantModule):
         input = input.tensor
         b, c, h, w = input.shape
         
-        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=torch.float)
+        output = torch.empty(self.evaluate_output_shape(input.shape), device=input.device, dtype=input.dtype)
         
         for s, contiguous in self._contiguous.items():
             
diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index c39fd5e..4fc9145 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -92,9 +92,10 @@ class MergeModule(EquivariantModule):
         out_shape = self.evaluate_output_shape(**{l: t.tensor.shape for l, t in input.items()})
         
         device = list(input.values())[0].tensor.device
+        dtype = list(input.values())[0].tensor.dtype
         
         # pre-allocate the output tensor
-        output = torch.empty(out_shape, dtype=torch.float, device=device)
+        output = torch.empty(out_shape, dtype=dtype, device=device)
         
         last_channel = 0
         # iterate through the modules
diff --git a/e2cnn/nn/modules/nonlinearities/concatenated.py b/e2cnn/nn/modules/nonlinearities/concatenated.py
index 4df1959..2ebfa8a 100644
--- a/e2cnn/nn/modules/nonlinearities/concatenated.py
+++ b/e2cnn/nn/modules/nonlinearities/concatenated.py
@@ -69,7 +69,7 @@ class ConcatenatedNonLinearity(EquivariantModule):
         b, c, w, h = input.tensor.shape
         
         # build the output tensor
-        output = torch.empty(b, 2 * c, w, h, dtype=torch.float, device=input.tensor.device)
+        output = torch.empty(b, 2 * c, w, h, dtype=input.tensor.dtype, device=input.tensor.device)
         
         # each channels is transformed to 2 channels:
         # first, apply the non-linearity to its value
diff --git a/e2cnn/nn/modules/nonlinearities/gated1.py b/e2cnn/nn/modules/nonlinearities/gated1.py
index f764698..a97929b 100644
--- a/e2cnn/nn/modules/nonlinearities/gated1.py
+++ b/e2cnn/nn/modules/nonlinearities/gated1.py
@@ -205,7 +205,7 @@ class GatedNonLinearity1(EquivariantModule):
         b, c, h, w = input.shape
         
         # build the output tensor
-        output = torch.empty(b, self.out_type.size, h, w, dtype=torch.float, device=self.bias.device)
+        output = torch.empty(b, self.out_type.size, h, w, dtype=input.dtype, device=self.bias.device)
 
         if not self.drop_gates:
             # copy the gates in the output
diff --git a/e2cnn/nn/modules/nonlinearities/gated2.py b/e2cnn/nn/modules/nonlinearities/gated2.py
index 841b6d8..3dbb0bf 100644
--- a/e2cnn/nn/modules/nonlinearities/gated2.py
+++ b/e2cnn/nn/modules/nonlinearities/gated2.py
@@ -159,7 +159,7 @@ class GatedNonLinearity2(EquivariantModule):
         b, c, h, w = input.shape
         
         # build the output tensor
-        output = torch.empty(b, self.out_type.size, h, w, dtype=torch.float, device=self.bias.device)
+        output = torch.empty(b, self.out_type.size, h, w, dtype=input.dtype, device=self.bias.device)
 
         next_gate = 0
         
diff --git a/e2cnn/nn/modules/nonlinearities/induced_gated1.py b/e2cnn/nn/modules/nonlinearities/induced_gated1.py
index 9bd166b..8802419 100644
--- a/e2cnn/nn/modules/nonlinearities/induced_gated1.py
+++ b/e2cnn/nn/modules/nonlinearities/induced_gated1.py
@@ -218,7 +218,7 @@ class InducedGatedNonLinearity1(EquivariantModule):
         gates = torch.sigmoid(gates.view(b, -1, self.quotient_size, h, w ) - self.bias)
 
         # build the output tensor
-        output = torch.empty(b, self.out_type.size, h, w, dtype=torch.float, device=self.bias.device)
+        output = torch.empty(b, self.out_type.size, h, w, dtype=input.dtype, device=self.bias.device)
 
         if not self.drop_gates:
             # copy the gates in the output
diff --git a/e2cnn/nn/modules/nonlinearities/vectorfield.py b/e2cnn/nn/modules/nonlinearities/vectorfield.py
index 41054b6..2479deb 100644
--- a/e2cnn/nn/modules/nonlinearities/vectorfield.py
+++ b/e2cnn/nn/modules/nonlinearities/vectorfield.py
@@ -79,10 +79,10 @@ class VectorFieldNonLinearity(EquivariantModule):
         max_activations = torch.relu_(max_activations)
         
         # compute the angles from the index of the maximum activation in the field
-        max_angles = argmaxes.to(dtype=torch.float) * base_angle
+        max_angles = argmaxes.to(dtype=input.tensor.dtype) * base_angle
         
         # build the output tensor
-        output = torch.empty(b, self.out_type.size, h, w, dtype=torch.float, device=input.tensor.device)
+        output = torch.empty(b, self.out_type.size, h, w, dtype=input.tensor.dtype, device=input.tensor.device)
         
         # to build the output vectors, take the cosine and the sine of the argmax angle
         # and multiply the 2-dimensional vector by the activation value
-- 
2.43.0


From b94f00b77b62930a4f3001385e83fb7f9c5f371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:53 +0000
Subject: [PATCH 39/55] fix: the vector-field non-linearity failed with two
 rotations

---
 e2cnn/nn/modules/nonlinearities/vectorfield.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/nonlinearities/vectorfield.py b/e2cnn/nn/modules/nonlinearities/vectorfield.py
index 2479deb..8b50f2b 100644
--- a/e2cnn/nn/modules/nonlinearities/vectorfield.py
+++ b/e2cnn/nn/modules/nonlinearities/vectorfield.py
@@ -2,6 +2,7 @@
 from e2cnn.gspaces import *
 from e2cnn.nn import FieldType
 from e2cnn.nn import GeometricTensor
+from e2cnn.group import directsum
 
 from ..equivariant_module import EquivariantModule
 
@@ -46,7 +47,11 @@ class VectorFieldNonLinearity(EquivariantModule):
         self.in_type = in_type
         
         # build the output representation substituting each input field with a rotation representation with frequency 1
-        self.out_type = FieldType(self.space, [self.space.representations['irrep_1']] * len(in_type))
+        rotation = self.space.representations['irrep_1']
+        if rotation.size == 1:
+            # with only 2 rotations, the frequency 1 acts on 2-dimensional vectors by changing the sign of both entries
+            rotation = directsum([rotation, rotation], name='irrep_1+irrep_1')
+        self.out_type = FieldType(self.space, [rotation] * len(in_type))
         
         # the number of rotations associated with the group action
         self._rotations = self.space.fibergroup.order()
-- 
2.43.0


From 5fc2fadef85ff415c7fe685612bc37aa6cd69d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:30 +0000
Subject: [PATCH 40/55] fix: resetting a norm batch-normalization without
 affine parameters failed

---
 e2cnn/nn/modules/batchnormalization/induced_norm.py | 7 ++++---
 e2cnn/nn/modules/batchnormalization/norm.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/induced_norm.py b/e2cnn/nn/modules/batchnormalization/induced_norm.py
index d3996ba..888b4da 100644
--- a/e2cnn/nn/modules/batchnormalization/induced_norm.py
+++ b/e2cnn/nn/modules/batchnormalization/induced_norm.py
@@ -152,9 +152,10 @@ class InducedNormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
diff --git a/e2cnn/nn/modules/batchnormalization/norm.py b/e2cnn/nn/modules/batchnormalization/norm.py
index f952953..4bb22d0 100644
--- a/e2cnn/nn/modules/batchnormalization/norm.py
+++ b/e2cnn/nn/modules/batchnormalization/norm.py
@@ -139,9 +139,10 @@ class NormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.uniform_()
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From bb31681e3d1e956aa35a20611bd80c3f493aed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:40 +0000
Subject: [PATCH 41/55] fix: norm max-pooling returned single precision for
 double precision inputs

---
 e2cnn/nn/modules/pooling/norm_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index c23f997..645c131 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -146,7 +146,7 @@ class NormMaxPool(EquivariantModule):
         n = input.tensor ** 2
         
         # pre-allocate the output tensor
-        output = torch.empty(b, c, ho, wo, device=input.tensor.device)
+        output = torch.empty(b, c, ho, wo, dtype=input.tensor.dtype, device=input.tensor.device)
         
         # reshape the input to merge the spatial dimensions
         input = input.tensor.reshape(b, c, -1)
-- 
2.43.0


From 57210ff98208d7c474e031d80fcd7ddc327af7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:57 +0000
Subject: [PATCH 42/55] fix: GNormBatchNorm failed on several fields of a
 representation with a change of basis

---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 5dfbc52..1ad0dd5 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -257,9 +257,9 @@ class GNormBatchNorm(EquivariantModule):
                 normalized = torch.einsum("ds,bcsxy->bcdxy", (cob, normalized))
                 
             if not self._contiguous[name]:
-                output[:, indices, ...] = normalized.view(b, -1, h, w)
+                output[:, indices, ...] = normalized.reshape(b, -1, h, w)
             else:
-                output[:, indices[0]:indices[1], ...] = normalized.view(b, -1, h, w)
+                output[:, indices[0]:indices[1], ...] = normalized.reshape(b, -1, h, w)
 
             # if self._contiguous[name]:
             #     slice2 = output[:, indices[0]:indices[1], ...]
-- 
2.43.0


From 1378bb0b459ded75af8aa9758152144c4189fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:38 +0000
Subject: [PATCH 43/55] fix: field dropout with probability one returned NaN

---
 e2cnn/nn/modules/dropout/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 1ff4d57..cb5444a 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -32,11 +32,14 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
         mask = mask.uniform_() > p
         mask = mask.to(torch.float)
         
+        # if p = 1 everything is dropped
+        scale = 1. / (1. - p) if p < 1. else 0.
+        
         if inplace:
-            input *= mask / (1. - p)
+            input *= mask * scale
             return input
         else:
-            return input * mask / (1. - p)
+            return input * (mask * scale)
     else:
         return input
 
-- 
2.43.0


From ce25a66364b0b1aad9c2be0ce78aa6e96dda22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:42 +0000
Subject: [PATCH 44/55] fix: a new grouped convolution could not load the bias
 saved in evaluation mode

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2convolution.py             | 2 +-
 e2cnn/nn/modules/r2_conv/r2diffop.py                  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 33ba921..4810718 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -145,7 +145,7 @@ class R2ConvTransposed(EquivariantModule):
                 
                 self.register_buffer("bias_expansion", bias_expansion)
                 self.bias = Parameter(torch.zeros(trivials), requires_grad=True)
-                self.register_buffer("expanded_bias", torch.zeros(out_type.size))
+                self.register_buffer("expanded_bias", torch.zeros(self.out_type.size))
             else:
                 self.bias = None
                 self.expanded_bias = None
diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 50d4e29..eba3df6 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -231,7 +231,7 @@ class R2Conv(EquivariantModule):
                 
                 self.register_buffer("bias_expansion", bias_expansion)
                 self.bias = Parameter(torch.zeros(trivials), requires_grad=True)
-                self.register_buffer("expanded_bias", torch.zeros(out_type.size))
+                self.register_buffer("expanded_bias", torch.zeros(self.out_type.size))
             else:
                 self.bias = None
                 self.expanded_bias = None
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1e9408d..db8bc44 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -331,7 +331,7 @@ class R2Diffop(EquivariantModule):
                 
                 self.register_buffer("bias_expansion", bias_expansion)
                 self.bias = Parameter(torch.zeros(trivials), requires_grad=True)
-                self.register_buffer("expanded_bias", torch.zeros(out_type.size))
+                self.register_buffer("expanded_bias", torch.zeros(self.out_type.size))
             else:
                 self.bias = None
                 self.expanded_bias = None
-- 
2.43.0


From 15a411bbd7cf61b4620b00166cd2c3942d6b72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:58 +0000
Subject: [PATCH 45/55] fix: a field type changed when the list it was built
 from was modified later

---
 e2cnn/nn/field_type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index da617b9..94bbdb1 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -74,7 +74,8 @@ class FieldType:
         self.gspace = gspace
         
         # list: List of representations of each feature field composing the feature space of this type
-        self.representations = representations
+        # (a copy, such that later changes to the input list do not affect this type)
+        self.representations = list(representations)
         
         # int: size of the field associated to this type.
         # as the representation associated to the field is the direct sum of the representations
-- 
2.43.0


From 52f5c6edcf4e1a89d87c3f36534cf14e401183a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:58 +0000
Subject: [PATCH 46/55] fix: an out of range batch or spatial index of a
 GeometricTensor was not refused

---
 e2cnn/nn/geometric_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index ef31516..84d9b12 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -470,8 +470,8 @@ class GeometricTensor:
         for i in range(len(expanded_idxs)):
             if isinstance(expanded_idxs[i], int):
                 idx = expanded_idxs[i]
-                if i == 1 and not -idx_max[i] <= idx < idx_max[i]:
-                    raise IndexError(f"Field index {idx} is out of range for a tensor with {idx_max[i]} fields")
+                if not -idx_max[i] <= idx < idx_max[i]:
+                    raise IndexError(f"Index {idx} is out of range for axis {i} with size {idx_max[i]}")
                 if idx < 0:
                     # convert a negative index into a positive index
                     idx = idx_max[i] + idx
-- 
2.43.0


From 08c1e97ac0931021428aff36457f426e24f6c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:58 +0000
Subject: [PATCH 47/55] fix: MultipleModule refused a one-element list of
 labels

---
 e2cnn/nn/modules/multiple_module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index 5cdb067..b3dfff3 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -92,8 +92,11 @@ class MultipleModule(EquivariantModule):
             if isinstance(l, str):
                 assert module.in_type == self.branching.out_type[l], f"Label {l}, branch class and module ({module}) class don't match:\n [{module.in_type}] \n [{self.branching.out_type[l]}]\n"
             else:
+                # a module with a single input has only one type, rather than a tuple of types
+                in_types = module.in_type if isinstance(module.in_type, tuple) else (module.in_type,)
+                assert len(in_types) == len(l), f"Module ({module}) takes {len(in_types)} inputs but {len(l)} labels were passed"
                 for i, lb in enumerate(l):
-                    assert module.in_type[i] == self.branching.out_type[lb], f"Label {lb}, branch class and module ({module}) class [{i}] don't match: \n [{module.in_type[i]}] \n [{self.branching.out_type[lb]}]\n"
+                    assert in_types[i] == self.branching.out_type[lb], f"Label {lb}, branch class and module ({module}) class [{i}] don't match: \n [{in_types[i]}] \n [{self.branching.out_type[lb]}]\n"
         
         self.merging = MergeModule(modules)
         
-- 
2.43.0


From e5c6bbc3c7797a7d5035da9a192e0774ed402be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:58 +0000
Subject: [PATCH 48/55] fix: MergeModule failed when its first module takes
 several inputs

---
 e2cnn/nn/modules/merge_module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 4fc9145..c0ea280 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -55,7 +55,9 @@ class MergeModule(EquivariantModule):
             labels += modules[i][1]
         
         self.in_type = None
-        self.gspace = modules[0][0].in_type.gspace
+        first_type = modules[0][0].in_type
+        # modules with multiple inputs have a tuple of input types
+        self.gspace = first_type[0].gspace if isinstance(first_type, tuple) else first_type.gspace
         
         out_repr = []
         
-- 
2.43.0


From e553efa07dd70576413341e373123a6ef7dae998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:48 +0000
Subject: [PATCH 49/55] fix: a double precision InnerBatchNorm was exported to
 single precision

---
 e2cnn/nn/modules/batchnormalization/inner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/batchnormalization/inner.py b/e2cnn/nn/modules/batchnormalization/inner.py
index 145d36d..8b1c16d 100644
--- a/e2cnn/nn/modules/batchnormalization/inner.py
+++ b/e2cnn/nn/modules/batchnormalization/inner.py
@@ -198,9 +198,12 @@ class InnerBatchNorm(EquivariantModule):
             
             n = self._nfields[s]
             
+            # use the same device and precision of this module
+            batchnorm.to(bn.running_mean)
+            
             batchnorm.running_var.data[start:end] = bn.running_var.data.view(n, 1).expand(n, s).reshape(-1)
             batchnorm.running_mean.data[start:end] = bn.running_mean.data.view(n, 1).expand(n, s).reshape(-1)
-            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data
+            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data.clone()
 
             if num_batches_tracked is None:
                 num_batches_tracked = bn.num_batches_tracked.data
-- 
2.43.0


From 5e10ef03e01af6953836f750c3d385805924ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:48 +0000
Subject: [PATCH 50/55] fix: the exported anti-aliased max-pooling did not
 follow changes of precision

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index b2b437a..0955486 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -271,7 +271,8 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
 class FixedConv2D(torch.nn.Module):
     def __init__(self, filter:torch.Tensor, stride, _pad):
         super(FixedConv2D, self).__init__()
-        self._filter = filter
+        # a buffer follows the module when this is moved to another device or precision
+        self.register_buffer('_filter', filter.clone())
         self._stride = stride
         self._pad = _pad
 
-- 
2.43.0


From 74fda8db731e408814a82f9e5960d1d6950c75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:19 +0000
Subject: [PATCH 51/55] fix: right-angle rotations of large rotation groups
 were interpolated, losing border pixels

---
 e2cnn/gspaces/r2/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/gspaces/r2/utils.py b/e2cnn/gspaces/r2/utils.py
index 126bfef..f58894d 100644
--- a/e2cnn/gspaces/r2/utils.py
+++ b/e2cnn/gspaces/r2/utils.py
@@ -6,11 +6,11 @@ from scipy.ndimage import rotate
 
 def rotate_array(x, angle):
     k = 2 * angle / np.pi
-    if k.is_integer():
+    if np.isclose(k, np.rint(k), rtol=0., atol=1e-9):
         # Rotations by 180 and 270 degrees seem to be not perfect using `ndimage.rotate` and can therefore
         # make some tests fail.
         # For this reason, we use `np.rot90` to perform rotations by multiples of 90 degrees without interpolation
-        return np.rot90(x, k, axes=(-2, -1))
+        return np.rot90(x, int(np.rint(k)), axes=(-2, -1))
     else:
         return rotate(x, angle * 180.0 / np.pi, (-2, -1), reshape=False, order=2)
 
-- 
2.43.0


From 73c40b7ba99243197f99198bdcb1b39b6e8a4da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:19 +0000
Subject: [PATCH 52/55] fix: transforming double-precision tensors dropped them
 to single precision or raised

---
 e2cnn/nn/field_type.py       | 3 ++-
 e2cnn/nn/geometric_tensor.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index 94bbdb1..a726474 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -238,7 +238,8 @@ class FieldType:
             
         transformed = self.gspace.featurefield_action(input.detach().cpu().numpy(), self.representation, element)
         transformed = np.ascontiguousarray(transformed)
-        return torch.from_numpy(transformed.astype(np.float32)).to(device=input.device)
+        dtype = input.dtype if input.is_floating_point() else torch.float32
+        return torch.from_numpy(transformed.astype(np.float64)).to(device=input.device, dtype=dtype)
 
     def restrict(self, id) -> 'FieldType':
         r"""
diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 84d9b12..86e424d 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -360,7 +360,7 @@ class GeometricTensor:
             the transformed tensor
 
         """
-        rho = torch.FloatTensor(self.type.representation(element))
+        rho = torch.tensor(self.type.representation(element), dtype=self.tensor.dtype, device=self.tensor.device)
         data = torch.einsum("oi,bihw->bohw", (rho, self.tensor.contiguous())).contiguous()
         return GeometricTensor(data, self.type)
     
-- 
2.43.0


From 967579fae34818f28cafdd6fa31b73a0205e2eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:05 +0000
Subject: [PATCH 53/55] fix: reject out-of-range integer indices only where
 they silently selected other entries (an empty selection stays one)

---
 e2cnn/nn/geometric_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 86e424d..a3dcc30 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -470,7 +470,7 @@ class GeometricTensor:
         for i in range(len(expanded_idxs)):
             if isinstance(expanded_idxs[i], int):
                 idx = expanded_idxs[i]
-                if not -idx_max[i] <= idx < idx_max[i]:
+                if idx < -idx_max[i] or (i == 1 and idx >= idx_max[i]):
                     raise IndexError(f"Index {idx} is out of range for axis {i} with size {idx_max[i]}")
                 if idx < 0:
                     # convert a negative index into a positive index
-- 
2.43.0


From a54bf80d8cb67f121d3c692d51fc14a095ea5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:21 +0000
Subject: [PATCH 54/55] fix: comparing equally named representations of
 different size raised ValueError

---
 e2cnn/group/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 350d63d..50b5b25 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -331,8 +331,8 @@ class Representation:
         
         return (self.name == other.name
                 and self.group == other.group
-                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.irreps == other.irreps
+                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.supported_nonlinearities == other.supported_nonlinearities)
     
     def __repr__(self) -> str:
-- 
2.43.0


From 09473a0b209b0236e27f437843df19ca82a5d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:21 +0000
Subject: [PATCH 55/55] fix: restricting a field type confused different
 representations with the same name

---
 e2cnn/nn/field_type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index a726474..b5a8bf6 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -268,10 +268,10 @@ class FieldType:
         # restrict each different base representation in the fiber representation
         restricted_reprs = {}
         for r in self._unique_representations:
-            restricted_reprs[r.name] = self.gspace.fibergroup.restrict_representation(id, r)
+            restricted_reprs[r] = self.gspace.fibergroup.restrict_representation(id, r)
     
         # for each field, retrieve the corresponding restricted representation
-        fields = [restricted_reprs[r.name] for r in self.representations]
+        fields = [restricted_reprs[r] for r in self.representations]
     
         # build the restricted fiber representation
         rrepr = FieldType(subspace, fields)
-- 
2.43.0

