From 288f297196eef6d0f5d08f41c1077ac8a43d63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 01/45] fix: keep by-row scaling of a one-dimensional state
 when loading a ScaleTransformer

---
 src/opinf/pre/_shiftscale.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 38e953d..c28344b 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -634,6 +634,7 @@ class ScaleTransformer(TransformerTemplate):
             meta.attrs["name"] = str(self.name)
             if (n := self.state_dimension) is not None:
                 meta.attrs["state_dimension"] = n
+            meta.attrs["byrow"] = self.byrow
             scaler = self.scaler if self.byrow else [self.scaler]
             hf.create_dataset("scaler", data=scaler)
 
@@ -643,7 +644,8 @@ class ScaleTransformer(TransformerTemplate):
             meta = hf["meta"]
             name = meta.attrs["name"]
             scaler = hf["scaler"][:]
-            if scaler.shape == (1,):
+            byrow = "byrow" in meta.attrs and bool(meta.attrs["byrow"])
+            if scaler.shape == (1,) and not byrow:
                 scaler = scaler[0]
             out = cls(scaler, name=(None if name == "None" else name))
             if not out.byrow and "state_dimension" in meta.attrs:
-- 
2.43.0


From 75f94b973b6a181c4873d2445a55d0db7f6a8713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 02/45] fix: restore the default name when loading a
 TransformerPipeline

---
 src/opinf/pre/_multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 77fd728..e415cb6 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -169,7 +169,7 @@ class TransformerPipeline(TransformerTemplate):
                 for i in range(num_transformers)
             ]
 
-            return cls(transformers, name=name)
+            return cls(transformers, name=(None if name == "None" else name))
 
 
 # Vertical joining ============================================================
-- 
2.43.0


From 66bd3d4c6e700a72691035fb1faa62aa191940f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 03/45] fix: save basis weights stored in any scipy.sparse
 format

---
 src/opinf/basis/_linear.py | 15 ++++++++++++---
 src/opinf/basis/_pod.py    |  6 ++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 4334ff3..f3ad171 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -20,6 +20,17 @@ requires_entries = utils.requires2(
 )
 
 
+def _densify_weights(weights):
+    """Dense representation of a weight matrix for HDF5 storage: the diagonal
+    if the weights are stored as a diagonal array, else the full matrix.
+    """
+    if not sparse.issparse(weights):
+        return weights
+    if weights.format == "dia" and list(weights.offsets) == [0]:
+        return weights.data[0]
+    return weights.toarray()
+
+
 class LinearBasis(BasisTemplate):
     r"""Linear low-dimensional state approximation.
 
@@ -266,9 +277,7 @@ class LinearBasis(BasisTemplate):
                 meta.attrs["name"] = self.name
             hf.create_dataset("entries", data=self.entries)
             if (w := self.weights) is not None:
-                if isinstance(w, sparse.dia_array):
-                    w = w.data[0]
-                hf.create_dataset("weights", data=w)
+                hf.create_dataset("weights", data=_densify_weights(w))
 
     @classmethod
     def load(cls, loadfile: str):
diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 8a549f1..c31a016 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -20,7 +20,7 @@ import matplotlib.pyplot as plt
 
 from .. import errors, utils
 from ._base import BasisTemplate
-from ._linear import LinearBasis
+from ._linear import LinearBasis, _densify_weights
 
 
 # Helper functions ============================================================
@@ -980,9 +980,7 @@ class PODBasis(LinearBasis):
                 )
 
             if (w := self.weights) is not None:
-                if isinstance(w, sparse.dia_array):
-                    w = w.data[0]
-                hf.create_dataset("weights", data=w)
+                hf.create_dataset("weights", data=_densify_weights(w))
 
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
-- 
2.43.0


From 5715d93cc9425c7871951c8f4d62902100ecf2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 04/45] fix: save a PODBasis that has no right singular vectors

---
 src/opinf/basis/_pod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index c31a016..f96e3b5 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -985,7 +985,8 @@ class PODBasis(LinearBasis):
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
-                hf.create_dataset("rightvecs", data=self.rightvecs)
+                if self.rightvecs is not None:
+                    hf.create_dataset("rightvecs", data=self.rightvecs)
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1025,7 +1026,8 @@ class PODBasis(LinearBasis):
                         kwargs["num_vectors"] = r
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
-                kwargs["rightvecs"] = hf["rightvecs"][:, :r]
+                if "rightvecs" in hf:
+                    kwargs["rightvecs"] = hf["rightvecs"][:, :r]
                 return cls.from_svd(**kwargs)
 
             return cls(**kwargs)
-- 
2.43.0


From e6b578908f8815c786888bfe5cdff57a55dbd8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 05/45] fix: restore the reduced state dimension when loading a
 PODBasis

---
 src/opinf/basis/_pod.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index f96e3b5..0686cd3 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -983,6 +983,9 @@ class PODBasis(LinearBasis):
                 hf.create_dataset("weights", data=_densify_weights(w))
 
             if self.leftvecs is not None:
+                meta.attrs["reduced_state_dimension"] = (
+                    self.reduced_state_dimension
+                )
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
                 if self.rightvecs is not None:
@@ -1023,12 +1026,22 @@ class PODBasis(LinearBasis):
                 if (r := max_vectors) is not None:
                     r = min(r, hf["leftvecs"].shape[1])
                     if "num_vectors" in kwargs:
-                        kwargs["num_vectors"] = r
+                        kwargs["num_vectors"] = min(kwargs["num_vectors"], r)
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
                 if "rightvecs" in hf:
                     kwargs["rightvecs"] = hf["rightvecs"][:, :r]
-                return cls.from_svd(**kwargs)
+                basis = cls.from_svd(**kwargs)
+
+                # The dimension may have been changed after it was selected.
+                if "reduced_state_dimension" in attrs:
+                    r = min(
+                        attrs["reduced_state_dimension"],
+                        basis.max_vectors,
+                    )
+                    if r != basis.reduced_state_dimension:
+                        basis.reduced_state_dimension = r
+                return basis
 
             return cls(**kwargs)
 
-- 
2.43.0


From 9dc31f9238f7b7e5ac9924cf9effae5a41f42a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 06/45] fix: draw whole operator rows from a loaded
 OperatorPosterior

---
 src/opinf/roms/_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index d0dad63..392c136 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -156,7 +156,7 @@ class OperatorPosterior:
         Ohat : (r, d) ndarray
             Operator matrix sampled from :math:`p(\Ohat)`.
         """
-        ohats = [rv.rvs()[0] for rv in self.randomvariables]
+        ohats = [np.atleast_2d(rv.rvs())[0] for rv in self.randomvariables]
         return np.array(ohats) if self.__rvsasarray else ohats
 
     # Model persistance -------------------------------------------------------
-- 
2.43.0


From da456ec32c77326163b4eec495210f3d82e3da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 07/45] fix: save a TruncatedSVDSolver whose number of modes is
 not chosen yet

---
 src/opinf/lstsq/_tsvd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 2432800..660099c 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -183,7 +183,8 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             self._save_dict(hf, "options")
-            hf.create_dataset("num_svdmodes", data=[self.num_svdmodes])
+            if self.num_svdmodes is not None:
+                hf.create_dataset("num_svdmodes", data=[self.num_svdmodes])
             if self.data_matrix is not None:
                 hf.create_dataset("data_matrix", data=self.data_matrix)
                 hf.create_dataset("lhs_matrix", data=self.lhs_matrix)
@@ -207,7 +208,9 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             options = cls._load_dict(hf, "options")
-            num_svdmodes = int(hf["num_svdmodes"][0])
+            num_svdmodes = None
+            if "num_svdmodes" in hf:
+                num_svdmodes = int(hf["num_svdmodes"][0])
             solver = cls(num_svdmodes, lapack_driver=options["lapack_driver"])
             if "data_matrix" in hf:
                 D = hf["data_matrix"][:]
-- 
2.43.0


From 25eb052e7531468423660ddf2bb672f9c84995dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 08/45] fix: let TruncatedSVDSolver.fit() start from the
 requested number of modes every time

---
 src/opinf/lstsq/_tsvd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 660099c..cad803d 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -75,7 +75,9 @@ class TruncatedSVDSolver(SolverTemplate):
     @num_svdmodes.setter
     def num_svdmodes(self, nmodes: int):
         """Set the number of columns."""
+        requested = nmodes
         if nmodes is None:
+            self.__requested = None
             self.__nmodes = self.max_modes
             return
 
@@ -88,6 +90,7 @@ class TruncatedSVDSolver(SolverTemplate):
                 nmodes = d + nmodes
             if nmodes > d:
                 raise ValueError(f"only {d} SVD modes available")
+        self.__requested = requested
         self.__nmodes = nmodes
 
     @property
@@ -129,9 +132,10 @@ class TruncatedSVDSolver(SolverTemplate):
         self._ZPhi = self.lhs_matrix @ Phi
         self._SinvPsiT = PsiT / svals.reshape((-1, 1))
 
-        # Reset num_svdmodes.
+        # Reset num_svdmodes (from the requested number, not from the number
+        # of modes that a previous call to fit() settled on).
         d = self._ZPhi.shape[1]
-        if (n := self.num_svdmodes) is None:
+        if (n := self.__requested) is None:
             n = d
         if n <= 0:
             n = d + n
@@ -223,10 +227,11 @@ class TruncatedSVDSolver(SolverTemplate):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            num_svdmodes=self.num_svdmodes,
+            num_svdmodes=self.__requested,
             lapack_driver=self.options["lapack_driver"],
         )
         if self.data_matrix is not None:
+            solver.__nmodes = self.__nmodes
             SolverTemplate.fit(solver, self.data_matrix, self.lhs_matrix)
             for attr in ("_svals", "_ZPhi", "_SinvPsiT"):
                 setattr(solver, attr, getattr(self, attr))
-- 
2.43.0


From a36405d5ccaacae456c4f093bfd535a222b54b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 09/45] fix: keep the parameter dimension when projecting an
 affine operator

---
 src/opinf/operators/_affine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index eb8ee04..12767e7 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -306,7 +306,7 @@ class _AffineOperator(ParametricOpInfOperator):
         op : operator
             New object of the same class as ``self``.
         """
-        return self.__class__(
+        op = self.__class__(
             coeffs=self.coeffs,
             nterms=self.nterms,
             entries=[
@@ -315,6 +315,9 @@ class _AffineOperator(ParametricOpInfOperator):
             ],
             fromblock=False,
         )
+        if self.parameter_dimension is not None:
+            op.parameter_dimension = self.parameter_dimension
+        return op
 
     # Operator inference ------------------------------------------------------
     def operator_dimension(self, s: int, r: int, m: int) -> int:
-- 
2.43.0


From 5566e82721d047e8de6ee124451148d8008da486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 10/45] fix: sort the data points of every cubic-spline
 operator, also in copies and loaded operators

---
 src/opinf/operators/_interpolate.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 629d199..572fcc1 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -267,12 +267,15 @@ class _InterpOperator(ParametricOpInfOperator):
             if InterpolatorClass is None:
                 if (dim := params.ndim) == 1:
                     InterpolatorClass = spinterp.CubicSpline
-                    paramsort = np.argsort(params)
-                    params = params[paramsort]
-                    entries = self.entries[paramsort]
                 elif dim == 2:
                     InterpolatorClass = spinterp.LinearNDInterpolator
 
+            # Cubic splines need ordered data points.
+            if InterpolatorClass is spinterp.CubicSpline:
+                paramsort = np.argsort(params)
+                params = params[paramsort]
+                entries = self.entries[paramsort]
+
             # Do the interpolation.
             self.__interpolator = InterpolatorClass(params, entries)
 
-- 
2.43.0


From 04fbe1a430a2ee86b4886f31906da0f1a1ec2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 11/45] fix: give PolynomialOperator its Jacobian instead of
 zero

---
 src/opinf/operators/_polynomial_operator.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 7d2c4e3..9371c07 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -1,4 +1,4 @@
-# from .. import utils
+from .. import utils
 from ._base import OpInfOperator
 
 import numpy as np
@@ -221,6 +221,25 @@ class PolynomialOperator(OpInfOperator):
         )
         return self.entries @ restricted_kronecker_product
 
+    @utils.requires("entries")
+    def jacobian(self, state: np.ndarray, input_=None) -> np.ndarray:
+        """Construct the state Jacobian of the operator."""
+        state = np.atleast_1d(state)
+        r = self.state_dimension
+        if self.polynomial_order == 0:
+            return np.zeros((r, r))
+
+        # Differentiate the condensed Kronecker products one by one.
+        kept = self.nonredudant_entries
+        product, derivative = state, np.eye(r)
+        for i in range(2, self.polynomial_order + 1):
+            derivative = (
+                np.kron(np.eye(r), product.reshape(-1, 1))
+                + np.kron(state.reshape(-1, 1), derivative)
+            )[kept[i]]
+            product = np.kron(state, product)[kept[i]]
+        return self.entries @ derivative
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From 75999c5856f104414cce2326356e04a2c70b36d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 12/45] fix: copy, save and load PolynomialOperator with its
 polynomial order

---
 src/opinf/operators/_polynomial_operator.py | 26 +++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 9371c07..59b206c 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -240,6 +240,32 @@ class PolynomialOperator(OpInfOperator):
             product = np.kron(state, product)[kept[i]]
         return self.entries @ derivative
 
+    # Model persistence -------------------------------------------------------
+    def copy(self):
+        """Return a copy of the operator."""
+        entries = self.entries.copy() if self.entries is not None else None
+        return self.__class__(self.polynomial_order, entries)
+
+    def save(self, savefile: str, overwrite: bool = False) -> None:
+        """Save the operator to an HDF5 file."""
+        with utils.hdf5_savehandle(savefile, overwrite) as hf:
+            OpInfOperator.save(self, hf)
+            hf["meta"].attrs["polynomial_order"] = self.polynomial_order
+
+    @classmethod
+    def load(cls, loadfile: str):
+        """Load an operator from an HDF5 file."""
+        with utils.hdf5_loadhandle(loadfile) as hf:
+            if (ClassName := hf["meta"].attrs["class"]) != cls.__name__:
+                raise TypeError(
+                    f"file '{loadfile}' contains '{ClassName}' "
+                    f"object, use '{ClassName}.load()"
+                )
+            return cls(
+                int(hf["meta"].attrs["polynomial_order"]),
+                hf["entries"][:] if "entries" in hf else None,
+            )
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From 2c557b1bcc74fe5c12bc749ca94eab27a1c8d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 13/45] fix: subtract known operators once when fitting an
 interpolated model

---
 src/opinf/models/mono/_parametric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 9e109a1..b0543b4 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1133,7 +1133,7 @@ class _InterpModel(_ParametricModel):
         (
             parameters_,
             states_,
-            lhs_,
+            _,
             inputs_,
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
         n_datasets = len(parameters)
@@ -1150,9 +1150,10 @@ class _InterpModel(_ParametricModel):
                 ],
                 solver=self.solver.copy(),
             )
+            # The submodel subtracts its known operators from the LHS.
             model_i._fit_solver(
                 states_[i],
-                lhs_[i],
+                lhs[i],
                 inputs_[i],
             )
             nonparametric_models.append(model_i)
-- 
2.43.0


From ffc33f0423782b49fb497a60cefbcd6bfbd8f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 14/45] fix: fit parametric models that contain known
 interpolated operators

---
 src/opinf/models/mono/_parametric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index b0543b4..f965735 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -275,7 +275,8 @@ class _ParametricModel(_OpInfModel):
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
 
         # Set training_parameters for interpolatory operators.
-        for op in self.operators:
+        for ell in self._indices_of_operators_to_infer:
+            op = self.operators[ell]
             if oputils.is_interpolated(op):
                 op.set_training_parameters(parameters_)
 
-- 
2.43.0


From 172b62ebffd009e97556c016980b4f7ff0a0d68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 15/45] fix: keep the solver and the operators to infer when
 copying a model

---
 src/opinf/models/mono/_base.py       | 14 ++++++++++++--
 src/opinf/models/mono/_parametric.py | 19 +++++++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index c21e056..3b6456c 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -316,8 +316,18 @@ class _Model(abc.ABC):
     # Model persistence -------------------------------------------------------
     def copy(self):
         """Make a copy of the model."""
-        sol = self.solver.copy() if self.solver is not None else None
-        return self.__class__([op.copy() for op in self.operators], solver=sol)
+        model = self.__class__([op.copy() for op in self.operators])
+        # Operators that have been inferred can be inferred again.
+        model._indices_of_operators_to_infer = list(
+            self._indices_of_operators_to_infer
+        )
+        model._indices_of_known_operators = list(
+            self._indices_of_known_operators
+        )
+        model._fully_intrusive = self._fully_intrusive
+        model.solver = self.solver.copy() if self.solver is not None else None
+        model.__r, model.__m = self.__r, self.__m
+        return model
 
 
 class _OpInfModel(_Model):
diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index f965735..74448c7 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -29,6 +29,7 @@ class _ParametricModel(_OpInfModel):
     """Base class for parametric monolithic models."""
 
     _ModelClass = NotImplemented  # Must be specified by child classes.
+    __s = None  # Number of training parameter values.
 
     # ModelClass properties ---------------------------------------------------
     @property
@@ -392,6 +393,13 @@ class _ParametricModel(_OpInfModel):
         self._fit_solver(parameters, states, lhs, inputs)
         return self.refit()
 
+    # Model persistence -------------------------------------------------------
+    def copy(self):
+        """Return a copy of the model."""
+        model = _OpInfModel.copy(self)
+        model.__p, model.__s = self.__p, self.__s
+        return model
+
     # Parametric evaluation ---------------------------------------------------
     def evaluate(self, parameter):
         """Construct a nonparametric model by fixing the parameter value.
@@ -1312,10 +1320,13 @@ class _InterpModel(_ParametricModel):
 
     def copy(self):
         """Make a copy of the model."""
-        return self.__class__(
-            operators=[op.copy() for op in self.operators],
-            InterpolatorClass=self.__InterpolatorClass,
-        )
+        model = _ParametricModel.copy(self)
+        model.__InterpolatorClass = self.__InterpolatorClass
+        if self._submodels is not None:
+            model._submodels = [mdl.copy() for mdl in self._submodels]
+            model.solvers = [mdl.solver for mdl in model._submodels]
+            model._training_parameters = self._training_parameters
+        return model
 
 
 class InterpDiscreteModel(_ParametricDiscreteMixin, _InterpModel):
-- 
2.43.0


From f328f9528f32c3cec867ba857e3a1215d439bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 16/45] fix: save and load operators with sparse entries

---
 src/opinf/operators/_base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index c4c7db2..e5eaff9 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -12,6 +12,7 @@ __all__ = [
 import os
 import abc
 import copy
+import h5py
 import types
 import numpy as np
 import scipy.linalg as la
@@ -796,7 +797,9 @@ class OpInfOperator(OperatorTemplate):
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             meta = hf.create_dataset("meta", shape=(0,))
             meta.attrs["class"] = self.__class__.__name__
-            if self.entries is not None:
+            if sparse.issparse(self.entries):
+                utils.save_sparray(hf.create_group("entries"), self.entries)
+            elif self.entries is not None:
                 hf.create_dataset("entries", data=self.entries)
 
     @classmethod
@@ -816,7 +819,14 @@ class OpInfOperator(OperatorTemplate):
                     f"file '{loadfile}' contains '{ClassName}' "
                     f"object, use '{ClassName}.load()"
                 )
-            return cls(hf["entries"][:] if "entries" in hf else None)
+            entries = None
+            if "entries" in hf:
+                entries = hf["entries"]
+                if isinstance(entries, h5py.Dataset):
+                    entries = entries[:]
+                else:
+                    entries = utils.load_sparray(entries)
+            return cls(entries)
 
     # Verification ------------------------------------------------------------
     def verify(
-- 
2.43.0


From 17fad970953e792d72681e7e7c51cb24b17980cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 17/45] fix: load sparse arrays as sparse arrays, not sparse
 matrices

---
 src/opinf/utils/_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/utils/_hdf5.py b/src/opinf/utils/_hdf5.py
index 5de10ff..bf3e583 100644
--- a/src/opinf/utils/_hdf5.py
+++ b/src/opinf/utils/_hdf5.py
@@ -232,7 +232,7 @@ def load_sparray(group: h5py.Group) -> sparse.sparray:
       (np.int32(0), np.int32(5))    12.0
       (np.int32(4), np.int32(1))    123.456
     """
-    A = sparse.coo_matrix(
+    A = sparse.coo_array(
         (group["data"], (group["row"], group["col"])),
         shape=group.attrs["shape"],
     )
-- 
2.43.0


From 8715e9c890f8a37a48f6b87e83f49baf70ec0750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 18/45] fix: keep the interpolator class when loading an
 interpolated model

---
 src/opinf/models/mono/_parametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 74448c7..cdacd22 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1308,7 +1308,7 @@ class _InterpModel(_ParametricModel):
                 ops.append(OpClass.load(gp, InterpolatorClass))
 
             # Construct the model.
-            model = cls(ops)
+            model = cls(ops, InterpolatorClass=InterpolatorClass)
             model._indices_of_operators_to_infer = indices_infer
             model._indices_of_known_operators = indices_known
             if r := int(hf["meta"].attrs["r"]):
-- 
2.43.0


From ffb091f7af94f30168329830eed6e656f136cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 19/45] fix: load affine operators whose coefficients are given
 by their number

---
 src/opinf/operators/_affine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index 12767e7..886ff95 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -502,7 +502,8 @@ class _AffineOperator(ParametricOpInfOperator):
 
             op = cls(coeffs, nterms=nterms, entries=entries, fromblock=False)
 
-            if (key := "parameter_dimension") in hf["meta"].attrs:
+            key = "parameter_dimension"
+            if op.parameter_dimension is None and key in hf["meta"].attrs:
                 op.parameter_dimension = int(hf["meta"].attrs[key])
             return op
 
-- 
2.43.0


From a4cb5f8cacd6b0371cb3bbee94270c1aae5caffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 20/45] fix: PolynomialLifter keeps a non-integer scalar order

---
 src/opinf/lift/_polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 6e9374b..5053a0c 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -100,7 +100,7 @@ class PolynomialLifter(LifterTemplate):
     def orders(self, ps: tuple):
         """Set the polynomial orders."""
         if isinstance(ps, numbers.Number):
-            ps = (int(ps),)
+            ps = (ps,)
         for p in ps:
             if not isinstance(p, numbers.Number):
                 raise TypeError("'orders' must be a sequence of numbers")
-- 
2.43.0


From 78676837b06d8fbd954203847de411a532eca0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 21/45] fix: PolynomialLifter.lift_ddts() is zero, not nan, for
 order 0 at zero states

---
 src/opinf/lift/_polynomial.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 5053a0c..426a35e 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -161,7 +161,14 @@ class PolynomialLifter(LifterTemplate):
             Time derivatives of the learning variables.
         """
         return np.concatenate(
-            [p * states ** (p - 1) * ddts for p in self.__orders]
+            [
+                (
+                    np.zeros_like(ddts)
+                    if p == 0
+                    else p * states ** (p - 1) * ddts
+                )
+                for p in self.__orders
+            ]
         )
 
     def unlift(self, lifted_states):
-- 
2.43.0


From 25c1efe40bc8713de9ffc9e841778fc9b789af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 22/45] fix: ddt_uniform() does not truncate the derivatives of
 integer snapshots

---
 src/opinf/ddt/_finite_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index d7491c2..fa88f07 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -1047,7 +1047,7 @@ def ddt_uniform(states, dt, order=2):
     if not np.isscalar(dt):
         raise TypeError("time step dt must be a scalar (e.g., float)")
 
-    ddts = np.empty_like(states)
+    ddts = np.empty_like(states, dtype=np.result_type(states, 1.0))
 
     if order == 2:
         # TODO: Does this next line do what the rest does?
-- 
2.43.0


From 9e02f9dc91427c95023280941e7a62db1c3d344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 23/45] fix: ConstantOperator.apply() does not truncate for
 integer states

---
 src/opinf/operators/_nonparametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index 84f892c..dda56d7 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -112,7 +112,7 @@ class ConstantOperator(OpInfOperator):
         if self.entries.shape[0] == 1:
             if state is None or np.isscalar(state):  # r = k = 1.
                 return self.entries[0]
-            return np.full_like(state, self.entries[0])  # r = 1, k > 1.
+            return np.full(np.shape(state), self.entries[0])  # r = 1, k > 1.
         # if state is None or np.ndim(state) == 1:
         #     return self.entries
         if np.ndim(state) == 2:  # r, k > 1.
-- 
2.43.0


From 117486b26df876a9f123b08a86f52dd6867349b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 24/45] fix: models evaluate rhs() and jacobian() at integer
 states

---
 src/opinf/models/mono/_nonparametric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 3f99e50..f5e2a59 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -356,7 +356,8 @@ class _NonparametricModel(_OpInfModel):
         out : (r,) ndarray
             Evaluation of the right-hand side of the model.
         """
-        out = np.zeros_like(state)
+        dtype = np.result_type(np.asarray(state), 1.0)
+        out = np.zeros_like(state, dtype=dtype)
         for op in self.operators:
             out += op.apply(state, input_)
         return out
@@ -385,7 +386,8 @@ class _NonparametricModel(_OpInfModel):
             State Jacobian of the right-hand side of the model.
         """
         r = self.state_dimension
-        out = np.zeros_like(state, shape=(r, r))
+        dtype = np.result_type(np.asarray(state), 1.0)
+        out = np.zeros_like(state, dtype=dtype, shape=(r, r))
         for op in self.operators:
             out += op.jacobian(state, input_)
         return out
-- 
2.43.0


From 0454df2a16514784c2011a943564234634eb767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 25/45] fix: operators do not return their own entries from
 apply() and jacobian()

---
 src/opinf/operators/_nonparametric.py       | 4 ++--
 src/opinf/operators/_polynomial_operator.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index dda56d7..e0d7822 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -117,7 +117,7 @@ class ConstantOperator(OpInfOperator):
         #     return self.entries
         if np.ndim(state) == 2:  # r, k > 1.
             return np.outer(self.entries, np.ones(state.shape[-1]))
-        return self.entries  # r > 1, k = 1.
+        return self.entries.copy()  # r > 1, k = 1.
 
     @utils.requires("entries")
     def galerkin(self, Vr, Wr=None):
@@ -297,7 +297,7 @@ class LinearOperator(OpInfOperator):
         jac : (r, r) ndarray
             State Jacobian :math:`\Ahat`.
         """
-        return self.entries
+        return self.entries.copy()
 
     @utils.requires("entries")
     def galerkin(self, Vr, Wr=None):
diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 59b206c..32aada2 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -204,8 +204,8 @@ class PolynomialOperator(OpInfOperator):
             if np.ndim(state) == 2:  # r, k > 1.
                 return np.outer(self.entries, np.ones(state.shape[-1]))
             if np.ndim(self.entries) == 2:
-                return self.entries[:, 0]
-            return self.entries
+                return self.entries[:, 0].copy()
+            return self.entries.copy()
         # note: no need to go through the trouble of identifying the
         # non-redundant indices
 
-- 
2.43.0


From 02679cbbeace1e6539397542c874d8268b1ea730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 26/45] fix: TotalLeastSquaresSolver.solve() does not return
 its stored solution

---
 src/opinf/lstsq/_total.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_total.py b/src/opinf/lstsq/_total.py
index 253954d..5a0686b 100644
--- a/src/opinf/lstsq/_total.py
+++ b/src/opinf/lstsq/_total.py
@@ -121,7 +121,7 @@ class TotalLeastSquaresSolver(SolverTemplate):
         Ohat : (r, d) ndarray
             Operator matrix :math:`\Ohat` (not its transpose!).
         """
-        return self._Ohat
+        return self._Ohat.copy()
 
     # Post-processing ---------------------------------------------------------
     @property
-- 
2.43.0


From c01cd33b3b90ff31166fc659cf2b613fc9665fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 27/45] fix: PODBasis residual_energy and projection_error
 choose the smallest dimension that satisfies them

---
 src/opinf/basis/_pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 0686cd3..a345b6d 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -578,7 +578,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "residual_energy":
-            r = np.count_nonzero(1 - energy >= value) + 1
+            r = np.count_nonzero(1 - energy > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "residual energy is being estimated from only "
@@ -586,7 +586,7 @@ class PODBasis(LinearBasis):
                     errors.OpInfWarning,
                 )
         elif criterion == "projection_error":
-            r = np.count_nonzero(np.sqrt(1 - energy) >= value) + 1
+            r = np.count_nonzero(np.sqrt(1 - energy) > value) + 1
             if self.__energy_is_being_estimated:
                 warnings.warn(
                     "projection error is being estimated from only "
-- 
2.43.0


From 7a7ecf0508270e093ba7829c12fc18e31871b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 28/45] fix: TikhonovDecoupledSolver.solve() passes its options
 on to the least-squares solver

---
 src/opinf/lstsq/_tikhonov.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 02ef0c7..a59ea86 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -1211,7 +1211,9 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         for i, Gamma in enumerate(self.regularizer):
             if self.method == "lstsq":
                 Dpad = np.vstack((self.data_matrix, Gamma))
-                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i])[0]
+                Ohat[i] = la.lstsq(
+                    Dpad, self._ZtPad[:, i], **self.options
+                )[0]
             elif self.method == "normal":
                 regD = self._DtD + Gamma.T @ Gamma
                 Ohat[i] = la.solve(regD, self._DtZt[:, i], assume_a="pos")
-- 
2.43.0


From 88f7c33fb2af13b91a1c9156dc8da6439e0ac209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 29/45] fix: regcond() counts the zero singular values of an
 underdetermined data matrix

---
 src/opinf/lstsq/_tikhonov.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index a59ea86..2d87f71 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -380,6 +380,14 @@ class L2Solver(_BaseRegularizedSolver):
         """
         return self._svals.max() / self._svals.min()
 
+    def _padded_svals2(self):
+        """Eigenvalues of D^T D: the squared singular values of the data
+        matrix, plus zeros if there are fewer of them than columns.
+        """
+        svals2 = np.zeros(self.d)
+        svals2[: self._svals.size] = self._svals**2
+        return svals2
+
     @_require_trained
     def regcond(self) -> float:
         r"""Compute the :math:`2`-norm condition number of the regularized
@@ -392,7 +400,7 @@ class L2Solver(_BaseRegularizedSolver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer**2
+        svals2 = self._padded_svals2() + self.regularizer**2
         return np.sqrt(svals2.max() / svals2.min())
 
     @_require_trained
@@ -617,7 +625,8 @@ class L2DecoupledSolver(L2Solver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer.reshape((-1, 1)) ** 2
+        regs2 = self.regularizer.reshape((-1, 1)) ** 2
+        svals2 = self._padded_svals2() + regs2
         return np.sqrt(svals2.max(axis=1) / svals2.min(axis=1))
 
     def regresidual(self, Ohat: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 5c7dc4d45781d051af353174ff530f534878db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 30/45] fix: solvers reject a bad regularizer or problem size
 without storing it

---
 src/opinf/lstsq/_base.py     | 10 ++++++++
 src/opinf/lstsq/_tikhonov.py | 47 +++++++++++++++++++++---------------
 src/opinf/lstsq/_total.py    | 12 +++++----
 3 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/src/opinf/lstsq/_base.py b/src/opinf/lstsq/_base.py
index 2a6c483..82426e9 100644
--- a/src/opinf/lstsq/_base.py
+++ b/src/opinf/lstsq/_base.py
@@ -175,11 +175,21 @@ class SolverTemplate(abc.ABC):
                 f"(lhs_matrix.shape[-1] = {k1} != {k2} = data_matrix.shape[0])"
             )
 
+        # Let subclasses reject the problem before anything is stored.
+        k, d = data_matrix.shape
+        self._check_problem_size(k, d, lhs_matrix.shape[0])
+
         self.__D = data_matrix
         self.__Z = lhs_matrix
 
         return self
 
+    def _check_problem_size(self, k: int, d: int, r: int) -> None:
+        """Raise a ValueError if the solver cannot be trained with a
+        (k, d) data matrix and an (r, k) left-hand side matrix.
+        """
+        pass
+
     @abc.abstractmethod
     def solve(self) -> np.ndarray:
         r"""Solve the Operator Inference regression.
diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 2d87f71..67bf415 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -514,8 +514,9 @@ class L2DecoupledSolver(L2Solver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.r,)):
+    @staticmethod
+    def _check_regularizer_shape(regs, r):
+        if (shape1 := regs.shape) != (shape2 := (r,)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (r,)"
             )
@@ -538,9 +539,13 @@ class L2DecoupledSolver(L2Solver):
                 raise ValueError(
                     "regularization constants must be nonnegative"
                 )
+            if self.r is not None:
+                self._check_regularizer_shape(regs, self.r)
         self.__regs = regs
-        if self.r is not None and regs is not None:
-            self._check_regularizer_shape()
+
+    def _check_problem_size(self, k, d, r):
+        if self.regularizer is not None:
+            self._check_regularizer_shape(self.regularizer, r)
 
     # Main methods ------------------------------------------------------------
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
@@ -555,10 +560,7 @@ class L2DecoupledSolver(L2Solver):
             "Left-hand side" data matrix :math:`\Z` (not its transpose!).
             If one-dimensional, assume :math:`r = 1`.
         """
-        L2Solver.fit(self, data_matrix, lhs_matrix)
-        if self.regularizer is not None:
-            self._check_regularizer_shape()
-        return self
+        return L2Solver.fit(self, data_matrix, lhs_matrix)
 
     def posterior(self):
         r"""Solve the Bayesian operator inference regression, constructing the
@@ -753,8 +755,9 @@ class TikhonovSolver(_BaseRegularizedSolver):
             [SolverTemplate.__str__(self), f"regularizer: {regstr}", spstr]
         )
 
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.d, self.d)):
+    @staticmethod
+    def _check_regularizer_shape(G, d, r):
+        if (shape1 := G.shape) != (shape2 := (d, d)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (d, d)"
             )
@@ -782,10 +785,14 @@ class TikhonovSolver(_BaseRegularizedSolver):
                     )
                 G = np.diag(G)
 
+            if self.d is not None:
+                self._check_regularizer_shape(G, self.d, self.r)
+
         self.__reg = G
 
-        if self.d is not None and G is not None:
-            self._check_regularizer_shape()
+    def _check_problem_size(self, k, d, r):
+        if self.regularizer is not None:
+            self._check_regularizer_shape(self.regularizer, d, r)
 
     @classmethod
     def get_operator_regularizer(
@@ -930,8 +937,6 @@ class TikhonovSolver(_BaseRegularizedSolver):
             "Left-hand side" data matrix :math:`\Z` (not its transpose!).
         """
         _BaseRegularizedSolver.fit(self, data_matrix, lhs_matrix)
-        if self.regularizer is not None:
-            self._check_regularizer_shape()
         D, Z = self.data_matrix, self.lhs_matrix
 
         # Pad lhs matrix for "svd" solve.
@@ -1160,12 +1165,13 @@ class TikhonovDecoupledSolver(TikhonovSolver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
+    @staticmethod
+    def _check_regularizer_shape(Gs, d, r):
         """Check that the regularizer has the correct shape."""
-        if len(self.regularizer) != self.r:
+        if len(Gs) != r:
             raise ValueError("len(regularizer) != r")
-        for i, G in enumerate(self.regularizer):
-            if (shape1 := G.shape) != (shape2 := (self.d, self.d)):
+        for i, G in enumerate(Gs):
+            if (shape1 := G.shape) != (shape2 := (d, d)):
                 raise ValueError(
                     f"regularizer[{i}].shape = {shape1} != {shape2} = (d, d)"
                 )
@@ -1198,9 +1204,10 @@ class TikhonovDecoupledSolver(TikhonovSolver):
                     G = np.diag(G)
                 regs.append(G)
 
+            if self.d is not None:
+                self._check_regularizer_shape(regs, self.d, self.r)
+
         self.__regs = regs
-        if self.d is not None and Gs is not None:
-            self._check_regularizer_shape()
 
     # Main methods ------------------------------------------------------------
     @_require_trained
diff --git a/src/opinf/lstsq/_total.py b/src/opinf/lstsq/_total.py
index 5a0686b..e6b4cdb 100644
--- a/src/opinf/lstsq/_total.py
+++ b/src/opinf/lstsq/_total.py
@@ -75,6 +75,13 @@ class TotalLeastSquaresSolver(SolverTemplate):
         return start + f"\n  SVD solver: scipy.linalg.svd({kwargs})"
 
     # Main methods ------------------------------------------------------------
+    def _check_problem_size(self, k, d, r):
+        if k < d + r:
+            raise ValueError(
+                "total least-squares system is underdetermined, k > d + r "
+                f"is required (k = {k}, d = {d}, r = {r})"
+            )
+
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions, compute the singular value decomposition of
         the data matrix, and solve the problem.
@@ -88,11 +95,6 @@ class TotalLeastSquaresSolver(SolverTemplate):
             If one-dimensional, assume :math:`r = 1`.
         """
         SolverTemplate.fit(self, data_matrix, lhs_matrix)
-        if self.k < self.d + self.r:
-            raise ValueError(
-                "total least-squares system is underdetermined, k > d + r "
-                f"is required (k = {self.k}, d = {self.d}, r = {self.r})"
-            )
 
         # Compute the SVD of the concatenation [D Z^T].
         D_Zt = np.hstack((self.data_matrix, self.lhs_matrix.T))
-- 
2.43.0


From 079c69959da852832d15d4a9c37a025ae36907ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 31/45] fix: models reject invalid operators without changing
 dimensions

---
 src/opinf/models/mono/_base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index 3b6456c..a7f802c 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -74,12 +74,12 @@ class _Model(abc.ABC):
         """Set the operators."""
         if self._isvalidoperator(ops):
             ops = [ops]
-        if len(ops) == 0 or ops is None:
+        if ops is None or len(ops) == 0:
             raise ValueError("at least one operator required")
 
         toinfer = []  # Operators to infer (no entries yet).
         known = []  # Operators whose entries are set.
-        self._has_inputs = False  # Whether any operators use inputs.
+        hasinputs = False  # Whether any operators use inputs.
         ops = list(ops)
         for i in range(len(ops)):
             op = ops[i]
@@ -99,13 +99,17 @@ class _Model(abc.ABC):
             else:
                 known.append(i)
             if oputils.has_inputs(op):
-                self._has_inputs = True
+                hasinputs = True
         self._check_operator_types_unique([ops[i] for i in toinfer])
 
+        r = self._check_state_dimension_consistency(ops)
+        m = self._check_input_dimension_consistency(ops)
+
         # Store attributes.
-        self.__r = self._check_state_dimension_consistency(ops)
-        self.__m = self._check_input_dimension_consistency(ops)
+        self.__r = r
+        self.__m = m
         self.__operators = ops
+        self._has_inputs = hasinputs
         self._indices_of_operators_to_infer = toinfer
         self._indices_of_known_operators = known
         self._fully_intrusive = len(toinfer) == 0
-- 
2.43.0


From 287e0b1489a81182613d6b0bafb9262b412a4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 32/45] fix: an untrained PolynomialOperator cannot be applied

---
 src/opinf/operators/_polynomial_operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 32aada2..389ef20 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -189,6 +189,7 @@ class PolynomialOperator(OpInfOperator):
                 kept[p]
             ]
 
+    @utils.requires("entries")
     def apply(self, state: np.ndarray, input_=None) -> np.ndarray:
         r"""Apply the operator to the given state. Input is not used.
         See OpInfOperator.apply for description.
-- 
2.43.0


From 4b65c264183253112cd97e04f932e9f471af98ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:57 +0000
Subject: [PATCH 33/45] fix: TimedBlock restores the signal handler and the
 stream it replaced

---
 src/opinf/utils/_timer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index af7e39f..c8aa853 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -104,7 +104,6 @@ class TimedBlock:
         """Store print/log message."""
         if not message:
             message = ""
-        self.__original_stdout = sys.stdout
         self.__new_buffer = None
         self.__front = "\n" if message.endswith("\n") else ""
         self.message = "" if message is None else message.rstrip()
@@ -135,13 +134,17 @@ class TimedBlock:
 
     def __enter__(self):
         """Print the message and record the current time."""
+        if self.timelimit is not None:
+            self.__original_handler = signal.signal(
+                signal.SIGALRM, self._signal_handler
+            )
         if self.rebuffer:
+            self.__original_stdout = sys.stdout
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
             print(f"{self.message}...", end=self.__front, flush=True)
         self._tic = time.process_time()
         if self.timelimit is not None:
-            signal.signal(signal.SIGALRM, self._signal_handler)
             signal.alarm(self.timelimit)
         return self
 
@@ -150,6 +153,9 @@ class TimedBlock:
         self._toc = time.process_time()
         if self.timelimit is not None:
             signal.alarm(0)
+            signal.signal(
+                signal.SIGALRM, self.__original_handler or signal.SIG_DFL
+            )
         elapsed = self._toc - self._tic
         if exc_type:  # Report an exception if present.
             if self.timelimit is not None and exc_type is TimeoutError:
-- 
2.43.0


From feff6c5662dd09246eff83e1d93ae568b03e88ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:45 +0000
Subject: [PATCH 34/45] fix: reset the solver before a regularization search

---
 src/opinf/roms/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index e9448ca..ba28817 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -671,7 +671,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time.
@@ -894,7 +894,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time and get compressed training data.
-- 
2.43.0


From b4847a1a74b0f8f20ca424bfcce3eb139c10fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 35/45] fix: refuse training data with differing numbers of
 trajectories

---
 src/opinf/roms/_base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index ba28817..96662fe 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -378,6 +378,14 @@ class _BaseROM(abc.ABC):
         inputs : list of s (m, k_i) ndarrays or None
             Processed input training data.
         """
+        # Check that there is data for each trajectory.
+        for data, label in ((lhs, "lhs"), (inputs, "input")):
+            if data is not None and len(data) != len(states):
+                raise errors.DimensionalityError(
+                    f"{len(states)} state trajectories but "
+                    f"{len(data)} {label} trajectories detected"
+                )
+
         # Lifting.
         if self.lifter is not None:
             if lhs is not None:
-- 
2.43.0


From a6be79fd6314c37ea4b5cb81d4aa3bde90ae48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 36/45] fix: check the shape of time derivatives in
 ShiftTransformer

---
 src/opinf/pre/_shiftscale.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index c28344b..080b786 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -301,6 +301,7 @@ class ShiftTransformer(TransformerTemplate):
         ValueError
             If the ``ddts`` do not align with the :attr:`state_dimension`.
         """
+        self._check_shape(ddts)
         return ddts if inplace else ddts.copy()
 
     def inverse_transform(self, states_shifted, inplace=False, locs=None):
-- 
2.43.0


From c994064f79ca5e04a98e0ba65fcd7db985087c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 37/45] fix: refuse mismatched numbers of time domains or
 inputs in fit_regselect_continuous()

---
 src/opinf/roms/_base.py  | 8 ++++++++
 src/opinf/roms/_bayes.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index 96662fe..5f29a3b 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -654,6 +654,10 @@ class _BaseROM(abc.ABC):
         # Validate arguments.
         if np.isscalar(train_time_domains[0]):
             train_time_domains = [train_time_domains] * len(states)
+        if len(train_time_domains) != len(states):
+            raise errors.DimensionalityError(
+                "train_time_domains and states not aligned"
+            )
         for t, Q in zip(train_time_domains, states):
             if t.shape != (Q.shape[1],):
                 raise errors.DimensionalityError(
@@ -662,6 +666,10 @@ class _BaseROM(abc.ABC):
         if input_functions is not None:
             if callable(input_functions):  # one global input function.
                 input_functions = [input_functions] * len(states)
+            if len(input_functions) != len(states):
+                raise errors.DimensionalityError(
+                    "input_functions and states not aligned"
+                )
             if not callable(input_functions[0]):
                 raise TypeError(
                     "argument 'input_functions' must be sequence of callables"
diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 392c136..d715911 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -269,6 +269,10 @@ class _BayesianROMMixin:
         # Validate arguments.
         if np.isscalar(train_time_domains[0]):
             train_time_domains = [train_time_domains] * len(states)
+        if len(train_time_domains) != len(states):
+            raise errors.DimensionalityError(
+                "train_time_domains and states not aligned"
+            )
         for t, Q in zip(train_time_domains, states):
             if t.shape != (Q.shape[1],):
                 raise errors.DimensionalityError(
@@ -277,6 +281,10 @@ class _BayesianROMMixin:
         if input_functions is not None:
             if callable(input_functions):  # one global input function.
                 input_functions = [input_functions] * len(states)
+            if len(input_functions) != len(states):
+                raise errors.DimensionalityError(
+                    "input_functions and states not aligned"
+                )
             if not callable(input_functions[0]):
                 raise TypeError(
                     "argument 'input_functions' must be sequence of callables"
-- 
2.43.0


From a7d54384a4aa7176cb525c9816dea43f73a00e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 38/45] fix: compare verify() derivatives at the estimated
 snapshots' times

---
 src/opinf/ddt/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index bca7c1a..afbe094 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -283,7 +283,7 @@ class DerivativeEstimatorTemplate(abc.ABC):
 
             # Use new states to infer the indices of the returns.
             start = np.argmin(
-                la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
+                la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
             )
             s = slice(start, start + Q_est.shape[1])
             truth = dQdt[:, s]
-- 
2.43.0


From a5e94dadc1d867d6a37e8a0fecb4cbfa2d1c0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 39/45] fix: restore the time domain when estimate() fails in
 verify()

---
 src/opinf/ddt/_base.py          | 6 ++++--
 src/opinf/ddt/_interpolation.py | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index afbe094..b0107b5 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -279,7 +279,10 @@ class DerivativeEstimatorTemplate(abc.ABC):
             self.__t = t
 
             # Call the derivative estimator.
-            Q_est, dQdt_est = self.estimate(Q, None)
+            try:
+                Q_est, dQdt_est = self.estimate(Q, None)
+            finally:
+                self.__t = time_domain  # Restore original time domain.
 
             # Use new states to infer the indices of the returns.
             start = np.argmin(
@@ -325,6 +328,5 @@ class DerivativeEstimatorTemplate(abc.ABC):
                 for dt, err in zip(dts, estimation_errors[name]):
                     print(f"dt = {dt:.1e}:\terror = {err:.4e}")
 
-        self.__t = time_domain  # Restore original time domain.
         if return_errors:
             return estimation_errors
diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index a6177c1..7390c3e 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -238,6 +238,7 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
     def verify(self, plot=False, return_errors=False):
         new_time_domain = self.__t2
         self.__t2 = None
-        out = super().verify(plot, return_errors)
-        self.__t2 = new_time_domain
-        return out
+        try:
+            return super().verify(plot, return_errors)
+        finally:
+            self.__t2 = new_time_domain
-- 
2.43.0


From b779c2580c51a1158a182b86a213c9dc5ef2c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 40/45] fix: refuse num_svdmodes that discard more modes than
 there are

---
 src/opinf/lstsq/_tsvd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index cad803d..8b32098 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -88,7 +88,7 @@ class TruncatedSVDSolver(SolverTemplate):
             d = self.max_modes
             if nmodes <= 0:
                 nmodes = d + nmodes
-            if nmodes > d:
+            if nmodes < 0 or nmodes > d:
                 raise ValueError(f"only {d} SVD modes available")
         self.__requested = requested
         self.__nmodes = nmodes
@@ -139,6 +139,13 @@ class TruncatedSVDSolver(SolverTemplate):
             n = d
         if n <= 0:
             n = d + n
+        if n < 0:
+            warnings.warn(
+                f"only {d} SVD modes available, "
+                f"setting num_svdmodes=0 (was {n - d})",
+                errors.OpInfWarning,
+            )
+            n = 0
         if n > d:
             warnings.warn(
                 f"only {d} SVD modes available, "
-- 
2.43.0


From f0f34a4d0893c8c43fae3457bcd8b1b07870088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 41/45] fix: accept a tuple of transformers in
 TransformerPipeline

---
 src/opinf/pre/_multi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index e415cb6..fb368f9 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -42,10 +42,9 @@ class TransformerPipeline(TransformerTemplate):
         """Set the transformers."""
         super().__init__(name=name)
 
-        if isinstance(transformers, list):
-            transformers = tuple(transformers)
-        else:
+        if not isinstance(transformers, (list, tuple)):
             raise TypeError("'transformers' should be a list or tuple")
+        transformers = tuple(transformers)
 
         statedims = set()
         for i, tf in enumerate(transformers):
-- 
2.43.0


From 3cb5e4a679363b45b7358d4ca77a906007785755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 42/45] fix: compare all weights in LinearBasis.__eq__()

---
 src/opinf/basis/_linear.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index f3ad171..ff47162 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -253,9 +253,8 @@ class LinearBasis(BasisTemplate):
         if (w1 := self.weights) is not None:
             if (w2 := other.weights) is None:
                 return False
-            if sparse.issparse(w1) and sparse.issparse(w2):
-                w1, w2 = w1.data[0], w2.data[0]
-            if not np.allclose(w1, w2):
+            w1, w2 = _densify_weights(w1), _densify_weights(w2)
+            if w1.shape != w2.shape or not np.allclose(w1, w2):
                 return False
         return np.all(self.entries == other.entries)
 
-- 
2.43.0


From 37fdeff5a4deb2740d6a9131f3c90f1580e712d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 43/45] fix: ShiftScaleTransformer.__eq__() is symmetric for
 untrained objects

---
 src/opinf/pre/_shiftscale.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 080b786..fb75600 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -978,9 +978,11 @@ class ShiftScaleTransformer(TransformerTemplate):
                 return False
         if self.state_dimension != other.state_dimension:
             return False
+        if (self.mean_ is None) != (other.mean_ is None):
+            return False
+        if (self.scale_ is None) != (other.scale_ is None):
+            return False
         if self.centering and self.mean_ is not None:
-            if other.mean_ is None:
-                return False
             if not np.all(self.mean_ == other.mean_):
                 return False
         if self.scaling and self.scale_ is not None:
-- 
2.43.0


From 9cf78e4c1531ec7825109cfcd1fa0a08af16dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 44/45] fix: compare polynomial orders in
 PolynomialOperator.__eq__()

---
 src/opinf/operators/_polynomial_operator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 389ef20..52819b4 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -63,6 +63,16 @@ class PolynomialOperator(OpInfOperator):
 
         super().__init__(entries=entries)
 
+    def __eq__(self, other):
+        """Two operators are equal if they have the same polynomial order
+        and the same ``entries`` array.
+        """
+        return (
+            isinstance(other, self.__class__)
+            and self.polynomial_order == other.polynomial_order
+            and super().__eq__(other)
+        )
+
     def operator_dimension(self, r: int, m=None) -> int:
         """
         computes the number of non-redundant terms in a vector of length r
-- 
2.43.0


From b052966533ffe948ee1db36c90e0bd2807ace528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:07 +0000
Subject: [PATCH 45/45] fix: refuse to add operators of different sizes, add
 polynomial operators

---
 src/opinf/operators/_base.py                |  9 ++++++++-
 src/opinf/operators/_polynomial_operator.py | 14 ++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index e5eaff9..b15fe5e 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -621,6 +621,7 @@ class OpInfOperator(OperatorTemplate):
             return np.all(self.entries == other.entries)
         return True
 
+    @utils.requires("entries")
     def __add__(self, other):
         """Nonparametric operators are linear in their entries."""
         if (ocls := other.__class__) is not (scls := self.__class__):
@@ -628,7 +629,13 @@ class OpInfOperator(OperatorTemplate):
                 f"can't add object of type '{ocls.__name__}' "
                 f"to object of type '{scls.__name__}'"
             )
-        return scls(self.entries + other.entries)
+        if self.shape != other.shape:
+            raise errors.DimensionalityError(
+                f"can't add operators of shapes {self.shape} and {other.shape}"
+            )
+        op = self.copy()
+        op.set_entries(self.entries + other.entries)
+        return op
 
     def __str__(self):
         out = OperatorTemplate.__str__(self)
diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 52819b4..46efa54 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -73,6 +73,20 @@ class PolynomialOperator(OpInfOperator):
             and super().__eq__(other)
         )
 
+    def __add__(self, other):
+        """Polynomial operators of the same order are linear in their
+        entries.
+        """
+        if (
+            isinstance(other, self.__class__)
+            and self.polynomial_order != other.polynomial_order
+        ):
+            raise ValueError(
+                "can't add operators of polynomial orders "
+                f"{self.polynomial_order} and {other.polynomial_order}"
+            )
+        return super().__add__(other)
+
     def operator_dimension(self, r: int, m=None) -> int:
         """
         computes the number of non-redundant terms in a vector of length r
-- 
2.43.0

