From 2d0eee1f773ec7d2f3d8b71c797d9305e1616628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 01/55] fix: write saved files atomically so that a failed save
 keeps the old data

---
 src/opinf/utils/_hdf5.py | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/opinf/utils/_hdf5.py b/src/opinf/utils/_hdf5.py
index 5de10ff..03381cf 100644
--- a/src/opinf/utils/_hdf5.py
+++ b/src/opinf/utils/_hdf5.py
@@ -10,7 +10,10 @@ __all__ = [
 
 import os
 import h5py
+import shutil
 import warnings
+import threading
+import contextlib
 import scipy.sparse as sparse
 
 from .. import errors
@@ -35,6 +38,8 @@ class _hdf5_filehandle:
         Only applies when ``mode = "save"``.
     """
 
+    _tempfile = None  # File being written by an unfinished save.
+
     def __init__(self, filename, mode, overwrite=False):
         """Open the file handle."""
         if isinstance(filename, h5py.HLObject):
@@ -51,7 +56,21 @@ class _hdf5_filehandle:
                 )
             if os.path.isfile(filename) and not overwrite:
                 raise FileExistsError(f"{filename} (overwrite=True to ignore)")
-            self.file_handle = h5py.File(filename, "w")
+            # Write to a temporary file next to the target and move it into
+            # place when it is complete, so that an unfinished save never
+            # destroys or replaces existing data. A new target is reserved
+            # with an empty file (which cannot be loaded) in the meantime.
+            self._target = os.path.realpath(filename)
+            self._tempfile = (
+                f"{self._target}.{os.getpid()}-{threading.get_ident()}.tmp"
+            )
+            try:
+                self.file_handle = h5py.File(self._tempfile, "w")
+                if not os.path.isfile(self._target):
+                    open(self._target, "x").close()
+            except BaseException:
+                self._discard_tempfile()
+                raise
             self.close_when_done = True
 
         elif mode == "load":
@@ -71,10 +90,26 @@ class _hdf5_filehandle:
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Close the file if needed."""
         if self.close_when_done:
-            self.file_handle.close()
+            try:
+                self.file_handle.close()
+                if self._tempfile is not None and exc_type is None:
+                    shutil.copymode(self._target, self._tempfile)
+                    os.replace(self._tempfile, self._target)
+                    self._tempfile = None
+            finally:
+                self._discard_tempfile()
         if exc_type:
             raise
 
+    def _discard_tempfile(self):
+        """Remove the temporary file of an unfinished save, if any."""
+        if (handle := getattr(self, "file_handle", None)) is not None:
+            with contextlib.suppress(Exception):
+                handle.close()
+        if self._tempfile is not None:
+            with contextlib.suppress(OSError):
+                os.remove(self._tempfile)
+
 
 class hdf5_savehandle(_hdf5_filehandle):
     """Get a handle to an open HDF5 file to write to.
-- 
2.43.0


From 8d6c40c7c343b252b2cca59c0eedc1c9cbb714bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 02/55] fix: report load errors that carry no message

---
 src/opinf/utils/_hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/utils/_hdf5.py b/src/opinf/utils/_hdf5.py
index 03381cf..20365ae 100644
--- a/src/opinf/utils/_hdf5.py
+++ b/src/opinf/utils/_hdf5.py
@@ -160,7 +160,8 @@ class hdf5_loadhandle(_hdf5_filehandle):
         except errors.LoadfileFormatError:
             raise
         except Exception as ex:
-            raise errors.LoadfileFormatError(ex.args[0]) from ex
+            message = ex.args[0] if ex.args else repr(ex)
+            raise errors.LoadfileFormatError(message) from ex
 
 
 # Other tools =================================================================
-- 
2.43.0


From 24d07314ecf2397a639c7135e77eb79202dd9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 03/55] fix: save and load operators with sparse entries

---
 src/opinf/operators/_base.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index c4c7db2..8fd62a4 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -12,6 +12,7 @@ __all__ = [
 import os
 import abc
 import copy
+import h5py
 import types
 import numpy as np
 import scipy.linalg as la
@@ -796,9 +797,20 @@ class OpInfOperator(OperatorTemplate):
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             meta = hf.create_dataset("meta", shape=(0,))
             meta.attrs["class"] = self.__class__.__name__
-            if self.entries is not None:
+            if sparse.issparse(self.entries):
+                utils.save_sparray(hf.create_group("entries"), self.entries)
+            elif self.entries is not None:
                 hf.create_dataset("entries", data=self.entries)
 
+    @staticmethod
+    def _load_entries(hf):
+        """Get the operator entries from an open HDF5 file (or group)."""
+        if "entries" not in hf:
+            return None
+        if isinstance(entries := hf["entries"], h5py.Group):
+            return utils.load_sparray(entries)
+        return entries[:]
+
     @classmethod
     def load(cls, loadfile: str):
         """Load an operator from an HDF5 file.
@@ -816,7 +828,7 @@ class OpInfOperator(OperatorTemplate):
                     f"file '{loadfile}' contains '{ClassName}' "
                     f"object, use '{ClassName}.load()"
                 )
-            return cls(hf["entries"][:] if "entries" in hf else None)
+            return cls(cls._load_entries(hf))
 
     # Verification ------------------------------------------------------------
     def verify(
-- 
2.43.0


From 94c5bcc2234adb0380ad0c31b5e52e5f80b2b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 04/55] fix: copy, save, and load PolynomialOperator objects

---
 src/opinf/operators/_polynomial_operator.py | 41 ++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 7d2c4e3..ebeb5cb 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -1,4 +1,4 @@
-# from .. import utils
+from .. import utils
 from ._base import OpInfOperator
 
 import numpy as np
@@ -233,3 +233,42 @@ class PolynomialOperator(OpInfOperator):
             PolynomialOperator.keptIndices_p(r=self.state_dimension, p=i)
             for i in range(self.polynomial_order + 1)
         ]
+
+    # Model persistence -------------------------------------------------------
+    def copy(self):
+        """Return a copy of the operator."""
+        entries = self.entries.copy() if self.entries is not None else None
+        return self.__class__(self.polynomial_order, entries)
+
+    def save(self, savefile: str, overwrite: bool = False) -> None:
+        """Save the operator to an HDF5 file.
+
+        Parameters
+        ----------
+        savefile : str
+            Path of the file to save the operator in.
+        overwrite : bool
+            If ``True``, overwrite the file if it already exists. If ``False``
+            (default), raise a ``FileExistsError`` if the file already exists.
+        """
+        with utils.hdf5_savehandle(savefile, overwrite) as hf:
+            OpInfOperator.save(self, hf)
+            hf["meta"].attrs["polynomial_order"] = self.polynomial_order
+
+    @classmethod
+    def load(cls, loadfile: str):
+        """Load an operator from an HDF5 file.
+
+        Parameters
+        ----------
+        loadfile : str
+            Path to the file where the operator was stored via :meth:`save()`.
+        """
+        with utils.hdf5_loadhandle(loadfile) as hf:
+            if (ClassName := hf["meta"].attrs["class"]) != cls.__name__:
+                raise TypeError(
+                    f"file '{loadfile}' contains '{ClassName}' "
+                    f"object, use '{ClassName}.load()"
+                )
+            order = int(hf["meta"].attrs["polynomial_order"])
+            return cls(order, cls._load_entries(hf))
-- 
2.43.0


From 012369814299279cb5270277bf13ac246b5d6777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 05/55] fix: keep the default interpolator choice when
 refitting or copying

---
 src/opinf/operators/_interpolate.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/opinf/operators/_interpolate.py b/src/opinf/operators/_interpolate.py
index 629d199..8f194ae 100644
--- a/src/opinf/operators/_interpolate.py
+++ b/src/opinf/operators/_interpolate.py
@@ -264,18 +264,20 @@ class _InterpOperator(ParametricOpInfOperator):
             entries = self.entries
 
             # Default interpolator classes.
-            if InterpolatorClass is None:
+            Interpolator = InterpolatorClass
+            if Interpolator is None:
                 if (dim := params.ndim) == 1:
-                    InterpolatorClass = spinterp.CubicSpline
+                    Interpolator = spinterp.CubicSpline
                     paramsort = np.argsort(params)
                     params = params[paramsort]
                     entries = self.entries[paramsort]
                 elif dim == 2:
-                    InterpolatorClass = spinterp.LinearNDInterpolator
+                    Interpolator = spinterp.LinearNDInterpolator
 
             # Do the interpolation.
-            self.__interpolator = InterpolatorClass(params, entries)
+            self.__interpolator = Interpolator(params, entries)
 
+        # Store the choice, not the default class that replaces None above.
         self.__InterpolatorClass = InterpolatorClass
 
     # Magic methods -----------------------------------------------------------
-- 
2.43.0


From 436258e24e0ab94807fb11aca2de8ed9e785b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 06/55] fix: discard the data of a failed solver calibration

---
 src/opinf/lstsq/_base.py     | 18 ++++++++++++++++++
 src/opinf/lstsq/_tikhonov.py |  6 +++++-
 src/opinf/lstsq/_total.py    |  3 ++-
 src/opinf/lstsq/_tsvd.py     |  3 ++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/opinf/lstsq/_base.py b/src/opinf/lstsq/_base.py
index 2a6c483..47f74d6 100644
--- a/src/opinf/lstsq/_base.py
+++ b/src/opinf/lstsq/_base.py
@@ -11,6 +11,7 @@ import os
 import abc
 import copy
 import warnings
+import functools
 import numpy as np
 import scipy.linalg as la
 
@@ -23,6 +24,23 @@ _require_trained = utils.requires2(
 )
 
 
+def _untrain_on_failure(fit):
+    """Decorator for ``fit()``: if the calibration is not completed, discard
+    the new data so that data from different calibrations are never mixed.
+    """
+
+    @functools.wraps(fit)
+    def _fit(self, data_matrix, lhs_matrix):
+        try:
+            return fit(self, data_matrix, lhs_matrix)
+        except BaseException:
+            if self.data_matrix is data_matrix:
+                SolverTemplate.reset(self)
+            raise
+
+    return _fit
+
+
 def lstsq_size(modelform, r, m=0, affines=None) -> int:
     r"""Compute the number of columns in the operator matrix :math:`\Ohat` in
     the Operator Inference least-squares problem. This is also the number of
diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 02ef0c7..4509da7 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -17,7 +17,7 @@ import scipy.sparse as sparse
 
 from .. import errors, utils
 from ..operators import _utils as oputils
-from ._base import SolverTemplate, _require_trained
+from ._base import SolverTemplate, _require_trained, _untrain_on_failure
 
 
 def _symmetrize(A):
@@ -63,6 +63,7 @@ class _BaseRegularizedSolver(SolverTemplate):
         raise NotImplementedError  # pragma: no cover
 
     # Main methods ------------------------------------------------------------
+    @_untrain_on_failure
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and save the data matrices.
 
@@ -289,6 +290,7 @@ class L2Solver(_BaseRegularizedSolver):
         )
 
     # Main methods ------------------------------------------------------------
+    @_untrain_on_failure
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and compute the singular value decomposition of
         the data matrix in preparation to solve the least-squares problem.
@@ -535,6 +537,7 @@ class L2DecoupledSolver(L2Solver):
             self._check_regularizer_shape()
 
     # Main methods ------------------------------------------------------------
+    @_untrain_on_failure
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and compute the singular value decomposition of
         the data matrix in preparation to solve the least-squares problem.
@@ -909,6 +912,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
         self.__method = method
 
     # Main routines -----------------------------------------------------------
+    @_untrain_on_failure
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions and precompute quantities in preparation to
         solve the least-squares problem.
diff --git a/src/opinf/lstsq/_total.py b/src/opinf/lstsq/_total.py
index 253954d..563a333 100644
--- a/src/opinf/lstsq/_total.py
+++ b/src/opinf/lstsq/_total.py
@@ -10,7 +10,7 @@ import numpy as np
 import scipy.linalg as la
 
 from .. import utils
-from ._base import SolverTemplate, _require_trained
+from ._base import SolverTemplate, _require_trained, _untrain_on_failure
 
 
 class TotalLeastSquaresSolver(SolverTemplate):
@@ -75,6 +75,7 @@ class TotalLeastSquaresSolver(SolverTemplate):
         return start + f"\n  SVD solver: scipy.linalg.svd({kwargs})"
 
     # Main methods ------------------------------------------------------------
+    @_untrain_on_failure
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         r"""Verify dimensions, compute the singular value decomposition of
         the data matrix, and solve the problem.
diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 2432800..c0dcf8c 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -11,7 +11,7 @@ import numpy as np
 import scipy.linalg as la
 
 from .. import errors, utils
-from ._base import SolverTemplate, _require_trained
+from ._base import SolverTemplate, _require_trained, _untrain_on_failure
 
 
 class TruncatedSVDSolver(SolverTemplate):
@@ -120,6 +120,7 @@ class TruncatedSVDSolver(SolverTemplate):
         return f"{start}\n  " + "\n  ".join(out)
 
     # Main methods ------------------------------------------------------------
+    @_untrain_on_failure
     def fit(self, data_matrix: np.ndarray, lhs_matrix: np.ndarray):
         """Save data matrices and prepare to solve the regression problem."""
         SolverTemplate.fit(self, data_matrix, lhs_matrix)
-- 
2.43.0


From 394557a59033c89f5f2b81b1d8baaf56d67b0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 07/55] fix: keep the old solver regularizer when a new one is
 rejected

---
 src/opinf/lstsq/_tikhonov.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 4509da7..d679494 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -508,8 +508,8 @@ class L2DecoupledSolver(L2Solver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.r,)):
+    def _check_regularizer_shape(self, regularizer):
+        if (shape1 := regularizer.shape) != (shape2 := (self.r,)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (r,)"
             )
@@ -532,9 +532,9 @@ class L2DecoupledSolver(L2Solver):
                 raise ValueError(
                     "regularization constants must be nonnegative"
                 )
-        self.__regs = regs
         if self.r is not None and regs is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(regs)
+        self.__regs = regs
 
     # Main methods ------------------------------------------------------------
     @_untrain_on_failure
@@ -552,7 +552,7 @@ class L2DecoupledSolver(L2Solver):
         """
         L2Solver.fit(self, data_matrix, lhs_matrix)
         if self.regularizer is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(self.regularizer)
         return self
 
     def posterior(self):
@@ -747,8 +747,8 @@ class TikhonovSolver(_BaseRegularizedSolver):
             [SolverTemplate.__str__(self), f"regularizer: {regstr}", spstr]
         )
 
-    def _check_regularizer_shape(self):
-        if (shape1 := self.regularizer.shape) != (shape2 := (self.d, self.d)):
+    def _check_regularizer_shape(self, regularizer):
+        if (shape1 := regularizer.shape) != (shape2 := (self.d, self.d)):
             raise errors.DimensionalityError(
                 f"regularizer.shape = {shape1} != {shape2} = (d, d)"
             )
@@ -776,10 +776,10 @@ class TikhonovSolver(_BaseRegularizedSolver):
                     )
                 G = np.diag(G)
 
-        self.__reg = G
-
         if self.d is not None and G is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(G)
+
+        self.__reg = G
 
     @classmethod
     def get_operator_regularizer(
@@ -926,7 +926,7 @@ class TikhonovSolver(_BaseRegularizedSolver):
         """
         _BaseRegularizedSolver.fit(self, data_matrix, lhs_matrix)
         if self.regularizer is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(self.regularizer)
         D, Z = self.data_matrix, self.lhs_matrix
 
         # Pad lhs matrix for "svd" solve.
@@ -1155,11 +1155,11 @@ class TikhonovDecoupledSolver(TikhonovSolver):
     """
 
     # Properties --------------------------------------------------------------
-    def _check_regularizer_shape(self):
+    def _check_regularizer_shape(self, regularizer):
         """Check that the regularizer has the correct shape."""
-        if len(self.regularizer) != self.r:
+        if len(regularizer) != self.r:
             raise ValueError("len(regularizer) != r")
-        for i, G in enumerate(self.regularizer):
+        for i, G in enumerate(regularizer):
             if (shape1 := G.shape) != (shape2 := (self.d, self.d)):
                 raise ValueError(
                     f"regularizer[{i}].shape = {shape1} != {shape2} = (d, d)"
@@ -1193,9 +1193,9 @@ class TikhonovDecoupledSolver(TikhonovSolver):
                     G = np.diag(G)
                 regs.append(G)
 
-        self.__regs = regs
         if self.d is not None and Gs is not None:
-            self._check_regularizer_shape()
+            self._check_regularizer_shape(regs)
+        self.__regs = regs
 
     # Main methods ------------------------------------------------------------
     @_require_trained
-- 
2.43.0


From 8244dcb9445c482bb0ca4b36f822b831bbeaf2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 08/55] fix: use the solver options in
 TikhonovDecoupledSolver.solve()

---
 src/opinf/lstsq/_tikhonov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index d679494..6efdd16 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -1215,7 +1215,7 @@ class TikhonovDecoupledSolver(TikhonovSolver):
         for i, Gamma in enumerate(self.regularizer):
             if self.method == "lstsq":
                 Dpad = np.vstack((self.data_matrix, Gamma))
-                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i])[0]
+                Ohat[i] = la.lstsq(Dpad, self._ZtPad[:, i], **self.options)[0]
             elif self.method == "normal":
                 regD = self._DtD + Gamma.T @ Gamma
                 Ohat[i] = la.solve(regD, self._DtZt[:, i], assume_a="pos")
-- 
2.43.0


From faae8263a163df1da8dc56947027a3a2e5b76819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 09/55] fix: resolve num_svdmodes for the current data of a
 TruncatedSVDSolver

---
 src/opinf/lstsq/_tsvd.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index c0dcf8c..7e7c459 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -70,13 +70,18 @@ class TruncatedSVDSolver(SolverTemplate):
     @property
     def num_svdmodes(self) -> int:
         """Number of singular value decomposition modes to retain."""
-        return self.__nmodes
+        n, d = self.__nmodes, self.max_modes
+        if d is None:
+            return n
+        if n is None:
+            return d
+        return min(n, d) if n > 0 else d + n
 
     @num_svdmodes.setter
     def num_svdmodes(self, nmodes: int):
         """Set the number of columns."""
         if nmodes is None:
-            self.__nmodes = self.max_modes
+            self.__nmodes = None
             return
 
         if not isinstance(nmodes, int):
@@ -84,8 +89,6 @@ class TruncatedSVDSolver(SolverTemplate):
 
         if self.data_matrix is not None:
             d = self.max_modes
-            if nmodes <= 0:
-                nmodes = d + nmodes
             if nmodes > d:
                 raise ValueError(f"only {d} SVD modes available")
         self.__nmodes = nmodes
@@ -130,20 +133,14 @@ class TruncatedSVDSolver(SolverTemplate):
         self._ZPhi = self.lhs_matrix @ Phi
         self._SinvPsiT = PsiT / svals.reshape((-1, 1))
 
-        # Reset num_svdmodes.
-        d = self._ZPhi.shape[1]
-        if (n := self.num_svdmodes) is None:
-            n = d
-        if n <= 0:
-            n = d + n
-        if n > d:
+        # Check num_svdmodes.
+        d, n = self.max_modes, self.__nmodes
+        if n is not None and n > d:
             warnings.warn(
                 f"only {d} SVD modes available, "
                 f"setting num_svdmodes={d} (was {n})",
                 errors.OpInfWarning,
             )
-            n = d
-        self.__nmodes = n
 
         return self
 
@@ -184,7 +181,8 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_savehandle(savefile, overwrite) as hf:
             self._save_dict(hf, "options")
-            hf.create_dataset("num_svdmodes", data=[self.num_svdmodes])
+            if self.__nmodes is not None:
+                hf.create_dataset("num_svdmodes", data=[self.__nmodes])
             if self.data_matrix is not None:
                 hf.create_dataset("data_matrix", data=self.data_matrix)
                 hf.create_dataset("lhs_matrix", data=self.lhs_matrix)
@@ -208,7 +206,9 @@ class TruncatedSVDSolver(SolverTemplate):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             options = cls._load_dict(hf, "options")
-            num_svdmodes = int(hf["num_svdmodes"][0])
+            num_svdmodes = None
+            if "num_svdmodes" in hf:
+                num_svdmodes = int(hf["num_svdmodes"][0])
             solver = cls(num_svdmodes, lapack_driver=options["lapack_driver"])
             if "data_matrix" in hf:
                 D = hf["data_matrix"][:]
@@ -221,7 +221,7 @@ class TruncatedSVDSolver(SolverTemplate):
     def copy(self):
         """Make a copy of the solver."""
         solver = self.__class__(
-            num_svdmodes=self.num_svdmodes,
+            num_svdmodes=self.__nmodes,
             lapack_driver=self.options["lapack_driver"],
         )
         if self.data_matrix is not None:
-- 
2.43.0


From 0a5aba79b7ca7b1ded4b4409afce9455c70d2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 10/55] fix: save and load bases with sparse weights

---
 src/opinf/basis/_linear.py | 29 +++++++++++++++++++++++------
 src/opinf/basis/_pod.py    |  8 ++------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 4334ff3..791f33b 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -5,6 +5,7 @@ __all__ = [
     "LinearBasis",
 ]
 
+import h5py
 import warnings
 import numpy as np
 import scipy.sparse as sparse
@@ -265,10 +266,7 @@ class LinearBasis(BasisTemplate):
                 meta = hf.create_dataset("meta", shape=(0,))
                 meta.attrs["name"] = self.name
             hf.create_dataset("entries", data=self.entries)
-            if (w := self.weights) is not None:
-                if isinstance(w, sparse.dia_array):
-                    w = w.data[0]
-                hf.create_dataset("weights", data=w)
+            self._save_weights(hf)
 
     @classmethod
     def load(cls, loadfile: str):
@@ -288,5 +286,24 @@ class LinearBasis(BasisTemplate):
             if "meta" in hf:
                 name = hf["meta"].attrs["name"]
             entries = hf["entries"][:]
-            weights = hf["weights"][:] if "weights" in hf else None
-            return cls(entries, weights, name=name)
+            return cls(entries, cls._load_weights(hf), name=name)
+
+    def _save_weights(self, hf):
+        """Write the weights, if there are any, to an open HDF5 file."""
+        if (w := self.weights) is None:
+            return
+        if isinstance(w, sparse.dia_array) and np.all(w.offsets == 0):
+            w = w.data[0]
+        if sparse.issparse(w):
+            utils.save_sparray(hf.create_group("weights"), w)
+        else:
+            hf.create_dataset("weights", data=w)
+
+    @staticmethod
+    def _load_weights(hf):
+        """Read the weights, if there are any, from an open HDF5 file."""
+        if "weights" not in hf:
+            return None
+        if isinstance(w := hf["weights"], h5py.Group):
+            return utils.load_sparray(w)
+        return w[:]
diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 8a549f1..aae4b17 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -979,10 +979,7 @@ class PODBasis(LinearBasis):
                     data=[self.__max_vectors_desired],
                 )
 
-            if (w := self.weights) is not None:
-                if isinstance(w, sparse.dia_array):
-                    w = w.data[0]
-                hf.create_dataset("weights", data=w)
+            self._save_weights(hf)
 
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
@@ -1017,8 +1014,7 @@ class PODBasis(LinearBasis):
             if "max_vectors" in hf:
                 kwargs["max_vectors"] = hf["max_vectors"][0]
 
-            if "weights" in hf:
-                kwargs["weights"] = hf["weights"][:]
+            kwargs["weights"] = cls._load_weights(hf)
 
             if "leftvecs" in hf:
                 if (r := max_vectors) is not None:
-- 
2.43.0


From 6b9a60feef95d99842f0dc1069d4e771cecd2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 11/55] fix: save a PODBasis that has no right singular vectors

---
 src/opinf/basis/_pod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index aae4b17..a876d7f 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -984,7 +984,8 @@ class PODBasis(LinearBasis):
             if self.leftvecs is not None:
                 hf.create_dataset("leftvecs", data=self.leftvecs)
                 hf.create_dataset("svdvals", data=self.svdvals)
-                hf.create_dataset("rightvecs", data=self.rightvecs)
+                if self.rightvecs is not None:
+                    hf.create_dataset("rightvecs", data=self.rightvecs)
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1023,7 +1024,8 @@ class PODBasis(LinearBasis):
                         kwargs["num_vectors"] = r
                 kwargs["leftvecs"] = hf["leftvecs"][:, :r]
                 kwargs["svdvals"] = hf["svdvals"][:]
-                kwargs["rightvecs"] = hf["rightvecs"][:, :r]
+                if "rightvecs" in hf:
+                    kwargs["rightvecs"] = hf["rightvecs"][:, :r]
                 return cls.from_svd(**kwargs)
 
             return cls(**kwargs)
-- 
2.43.0


From 1824865802cb21909c9950e352051ddf9b0b3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 12/55] fix: save the reduced dimension of a PODBasis

---
 src/opinf/basis/_pod.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index a876d7f..c9f113e 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -986,6 +986,7 @@ class PODBasis(LinearBasis):
                 hf.create_dataset("svdvals", data=self.svdvals)
                 if self.rightvecs is not None:
                     hf.create_dataset("rightvecs", data=self.rightvecs)
+                hf["leftvecs"].attrs["r"] = self.reduced_state_dimension
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1026,7 +1027,13 @@ class PODBasis(LinearBasis):
                 kwargs["svdvals"] = hf["svdvals"][:]
                 if "rightvecs" in hf:
                     kwargs["rightvecs"] = hf["rightvecs"][:, :r]
-                return cls.from_svd(**kwargs)
+                basis = cls.from_svd(**kwargs)
+                if "r" in hf["leftvecs"].attrs:
+                    basis.reduced_state_dimension = min(
+                        hf["leftvecs"].attrs["r"],
+                        basis.max_vectors,
+                    )
+                return basis
 
             return cls(**kwargs)
 
-- 
2.43.0


From 39715867e7a49b94b19d8a054603d3952107b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 13/55] fix: load an unnamed TransformerPipeline without a name

---
 src/opinf/pre/_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 77fd728..549c7e4 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -156,7 +156,7 @@ class TransformerPipeline(TransformerTemplate):
         """
         with utils.hdf5_loadhandle(loadfile) as hf:
             meta = hf["meta"]
-            name = str(meta.attrs["name"])
+            name = meta.attrs["name"]
             num_transformers = int(meta.attrs["num_transformers"])
             if (nclasses := len(TransformerClasses)) != num_transformers:
                 raise ValueError(
@@ -169,7 +169,7 @@ class TransformerPipeline(TransformerTemplate):
                 for i in range(num_transformers)
             ]
 
-            return cls(transformers, name=name)
+            return cls(transformers, name=(None if name == "None" else name))
 
 
 # Vertical joining ============================================================
-- 
2.43.0


From 4596c4f692555aac7b34f1ceffdbef7568679959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 14/55] fix: load a ScaleTransformer with one scaler per row as
 such

---
 src/opinf/pre/_shiftscale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index 38e953d..e837e46 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -634,6 +634,7 @@ class ScaleTransformer(TransformerTemplate):
             meta.attrs["name"] = str(self.name)
             if (n := self.state_dimension) is not None:
                 meta.attrs["state_dimension"] = n
+            meta.attrs["byrow"] = self.byrow
             scaler = self.scaler if self.byrow else [self.scaler]
             hf.create_dataset("scaler", data=scaler)
 
@@ -643,7 +644,7 @@ class ScaleTransformer(TransformerTemplate):
             meta = hf["meta"]
             name = meta.attrs["name"]
             scaler = hf["scaler"][:]
-            if scaler.shape == (1,):
+            if not meta.attrs.get("byrow", scaler.shape != (1,)):
                 scaler = scaler[0]
             out = cls(scaler, name=(None if name == "None" else name))
             if not out.byrow and "state_dimension" in meta.attrs:
-- 
2.43.0


From 31af5b401b5a77fcda983855a87666f34409527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 15/55] fix: reinstate the previous alarm and handler after a
 TimedBlock

---
 src/opinf/utils/_timer.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index af7e39f..f9aae7d 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -141,15 +141,30 @@ class TimedBlock:
             print(f"{self.message}...", end=self.__front, flush=True)
         self._tic = time.process_time()
         if self.timelimit is not None:
-            signal.signal(signal.SIGALRM, self._signal_handler)
-            signal.alarm(self.timelimit)
+            self.__old_handler = signal.signal(
+                signal.SIGALRM, self._signal_handler
+            )
+            self.__old_alarm = signal.alarm(0)
+            self.__alarm = self.timelimit
+            if self.__old_alarm and self.__old_handler is self._signal_handler:
+                # The time limit of an enclosing block also applies here.
+                self.__alarm = min(self.timelimit, self.__old_alarm)
+            signal.alarm(self.__alarm)
         return self
 
+    def _reset_alarm(self):
+        """Cancel the time limit and reinstate the alarm set before it."""
+        elapsed = self.__alarm - signal.alarm(0)
+        if self.__old_handler is not None:
+            signal.signal(signal.SIGALRM, self.__old_handler)
+        if self.__old_alarm:
+            signal.alarm(max(self.__old_alarm - elapsed, 1))
+
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Calculate and report the elapsed time."""
         self._toc = time.process_time()
         if self.timelimit is not None:
-            signal.alarm(0)
+            self._reset_alarm()
         elapsed = self._toc - self._tic
         if exc_type:  # Report an exception if present.
             if self.timelimit is not None and exc_type is TimeoutError:
-- 
2.43.0


From 3ee6161b726257e05484e7a46222ec4ab024d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 16/55] fix: measure elapsed time instead of processor time in
 TimedBlock

---
 src/opinf/utils/_timer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index f9aae7d..86c4237 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -139,7 +139,7 @@ class TimedBlock:
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
             print(f"{self.message}...", end=self.__front, flush=True)
-        self._tic = time.process_time()
+        self._tic = time.perf_counter()
         if self.timelimit is not None:
             self.__old_handler = signal.signal(
                 signal.SIGALRM, self._signal_handler
@@ -162,7 +162,7 @@ class TimedBlock:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Calculate and report the elapsed time."""
-        self._toc = time.process_time()
+        self._toc = time.perf_counter()
         if self.timelimit is not None:
             self._reset_alarm()
         elapsed = self._toc - self._tic
-- 
2.43.0


From 06f97215e27adcc3feb851f78ca274994328a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 17/55] fix: restore the standard output that was replaced by a
 TimedBlock

---
 src/opinf/utils/_timer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index 86c4237..a282ff7 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -104,7 +104,7 @@ class TimedBlock:
         """Store print/log message."""
         if not message:
             message = ""
-        self.__original_stdout = sys.stdout
+        self.__original_stdout = None
         self.__new_buffer = None
         self.__front = "\n" if message.endswith("\n") else ""
         self.message = "" if message is None else message.rstrip()
@@ -136,6 +136,7 @@ class TimedBlock:
     def __enter__(self):
         """Print the message and record the current time."""
         if self.rebuffer:
+            self.__original_stdout = sys.stdout
             sys.stdout = self.__new_buffer = io.StringIO()
         if self.verbose:
             print(f"{self.message}...", end=self.__front, flush=True)
-- 
2.43.0


From 4ece98660f8b8f6c51a0f99ad6117fe6e5bf3aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 18/55] fix: restore the time domain when derivative estimator
 verification fails

---
 src/opinf/ddt/_base.py | 46 ++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index bca7c1a..4388208 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -271,28 +271,31 @@ class DerivativeEstimatorTemplate(abc.ABC):
         estimation_errors["dts"] = dts
 
         t_base = np.arange(1001)
-        for dt in dts:
-            # Construct test cases.
-            t = 1 + (dt * t_base)
-            Q = np.array([test[1](t) for test in self.__tests])
-            dQdt = np.array([test[2](t) for test in self.__tests])
-            self.__t = t
-
-            # Call the derivative estimator.
-            Q_est, dQdt_est = self.estimate(Q, None)
-
-            # Use new states to infer the indices of the returns.
-            start = np.argmin(
-                la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
-            )
-            s = slice(start, start + Q_est.shape[1])
-            truth = dQdt[:, s]
+        try:
+            for dt in dts:
+                # Construct test cases.
+                t = 1 + (dt * t_base)
+                Q = np.array([test[1](t) for test in self.__tests])
+                dQdt = np.array([test[2](t) for test in self.__tests])
+                self.__t = t
+
+                # Call the derivative estimator.
+                Q_est, dQdt_est = self.estimate(Q, None)
+
+                # Use new states to infer the indices of the returns.
+                start = np.argmin(
+                    la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
+                )
+                s = slice(start, start + Q_est.shape[1])
+                truth = dQdt[:, s]
 
-            # Calculate the relative error of the time derivative estimate.
-            denom = la.norm(truth, axis=1)
-            errs = la.norm(dQdt_est - truth, axis=1) / denom
-            for test, err in zip(self.__tests, errs):
-                estimation_errors[test[0]].append(err)
+                # Calculate the relative error of the time derivative estimate.
+                denom = la.norm(truth, axis=1)
+                errs = la.norm(dQdt_est - truth, axis=1) / denom
+                for test, err in zip(self.__tests, errs):
+                    estimation_errors[test[0]].append(err)
+        finally:
+            self.__t = time_domain  # Restore original time domain.
 
         if plot:
             _, ax = plt.subplots(1, 1)
@@ -325,6 +328,5 @@ class DerivativeEstimatorTemplate(abc.ABC):
                 for dt, err in zip(dts, estimation_errors[name]):
                     print(f"dt = {dt:.1e}:\terror = {err:.4e}")
 
-        self.__t = time_domain  # Restore original time domain.
         if return_errors:
             return estimation_errors
-- 
2.43.0


From 83420df214cb955af9136776f296e874f89d37ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 19/55] fix: do not write or delete files of the user in
 verify()

---
 src/opinf/lstsq/_base.py     | 47 +++++++++++++++++-------------------
 src/opinf/operators/_base.py | 11 ++++-----
 2 files changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/opinf/lstsq/_base.py b/src/opinf/lstsq/_base.py
index 47f74d6..4453be7 100644
--- a/src/opinf/lstsq/_base.py
+++ b/src/opinf/lstsq/_base.py
@@ -10,6 +10,7 @@ __all__ = [
 import os
 import abc
 import copy
+import tempfile
 import warnings
 import functools
 import numpy as np
@@ -324,8 +325,6 @@ class SolverTemplate(abc.ABC):
         if self.data_matrix is None:
             return print("cannot verify solve() before calling fit()")
 
-        tempfile = "_solververification.h5"
-
         def _make_copy(solver):
             newsolver = solver.copy()
             if (s2cls := newsolver.__class__) is not (scls := self.__class__):
@@ -345,30 +344,28 @@ class SolverTemplate(abc.ABC):
                     f"{operation} does not preserve the result of solve()"
                 )
 
-        try:
-            # Verify solve().
-            Ohat = self.solve()
-            if (shape1 := Ohat.shape) != (shape2 := (self.r, self.d)):
-                raise errors.VerificationError(
-                    "solve() did not return array of shape (r, d) "
-                    f"(expected {shape2}, got {shape1})"
-                )
+        # Verify solve().
+        Ohat = self.solve()
+        if (shape1 := Ohat.shape) != (shape2 := (self.r, self.d)):
+            raise errors.VerificationError(
+                "solve() did not return array of shape (r, d) "
+                f"(expected {shape2}, got {shape1})"
+            )
+
+        # Verify copy().
+        self2 = _make_copy(self)
+        _check_equality(self, self2, Ohat, "copy()")
+        print("solve() is consistent with problem dimensions")
 
-            # Verify copy().
-            self2 = _make_copy(self)
-            _check_equality(self, self2, Ohat, "copy()")
-            print("solve() is consistent with problem dimensions")
-
-            # Verify save()/load().
-            try:
-                self2.save(tempfile, overwrite=True)
-                self3 = self2.load(tempfile)
-                _check_equality(self2, self3, Ohat, "save()/load()")
-            except NotImplementedError:
-                print("save() and/or load() not implemented")
-        finally:
-            if os.path.isfile(tempfile):
-                os.remove(tempfile)
+        # Verify save()/load().
+        try:
+            with tempfile.TemporaryDirectory() as tempdir:
+                savefile = os.path.join(tempdir, "solver.h5")
+                self2.save(savefile)
+                self3 = self2.load(savefile)
+            _check_equality(self2, self3, Ohat, "save()/load()")
+        except NotImplementedError:
+            print("save() and/or load() not implemented")
 
 
 class PlainSolver(SolverTemplate):
diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 8fd62a4..813f116 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -14,6 +14,7 @@ import abc
 import copy
 import h5py
 import types
+import tempfile
 import numpy as np
 import scipy.linalg as la
 import scipy.sparse as sparse
@@ -464,10 +465,11 @@ class OperatorTemplate(abc.ABC):
         print("copy() preserves the results of apply()")
 
         # Verify save()/load() - - - - - - - - - - - - - - - - - - - - - - - -
-        tempfile = "_operatorverification.h5"
         try:
-            self.save(tempfile)
-            out = self.load(tempfile)
+            with tempfile.TemporaryDirectory() as tempdir:
+                savefile = os.path.join(tempdir, "operator.h5")
+                self.save(savefile)
+                out = self.load(savefile)
         except NotImplementedError:  # pragma: no cover
             print("save() and/or load() not implemented")
         else:
@@ -493,9 +495,6 @@ class OperatorTemplate(abc.ABC):
                         "save()/load() does not preserve the result of apply()"
                     )
             print("save()/load() preserves the results of apply()")
-        finally:
-            if os.path.isfile(tempfile):  # pragma: no cover
-                os.remove(tempfile)
 
 
 def is_nonparametric(obj) -> bool:
-- 
2.43.0


From 5d5ccb3289a28ddb22d20a0869926e8e6813e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 20/55] fix: reset the solver at the start of a regularization
 selection

---
 src/opinf/roms/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index e9448ca..ba28817 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -671,7 +671,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time.
@@ -894,7 +894,7 @@ class _BaseROM(abc.ABC):
 
         # Reset the solver (in case the basis dimension changed between calls).
         interp = modutils.is_interpolatory(self.model)
-        if hasattr(self.model, "reset"):
+        if hasattr(self.model.solver, "reset"):
             self.model.solver.reset()
 
         # Fit the model for the first time and get compressed training data.
-- 
2.43.0


From fabe7d5ede738845fb95c870cb7020527eb970dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 21/55] fix: draw whole operator rows from a loaded
 OperatorPosterior

---
 src/opinf/roms/_bayes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index d0dad63..74239ae 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -156,7 +156,9 @@ class OperatorPosterior:
         Ohat : (r, d) ndarray
             Operator matrix sampled from :math:`p(\Ohat)`.
         """
-        ohats = [rv.rvs()[0] for rv in self.randomvariables]
+        ohats = [
+            np.reshape(rv.rvs(), rv.mean.shape) for rv in self.randomvariables
+        ]
         return np.array(ohats) if self.__rvsasarray else ohats
 
     # Model persistance -------------------------------------------------------
-- 
2.43.0


From 0a2ab5c9cbe1d8d568afde50e3842d102e249cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 22/55] fix: keep the parameter dimension unset when an affine
 evaluation fails

---
 src/opinf/operators/_affine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index eb8ee04..575e0dd 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -247,14 +247,16 @@ class _AffineOperator(ParametricOpInfOperator):
         op : nonparametric :mod:`opinf.operators` operator
             Nonparametric operator corresponding to the parameter value.
         """
-        if self.parameter_dimension is None:
-            self._set_parameter_dimension_from_values([parameter])
-        self._check_parametervalue_dimension(parameter)
+        if self.parameter_dimension is not None:
+            self._check_parametervalue_dimension(parameter)
         theta_mus = self.coeffs(parameter)
         if self.nterms == 1 and np.isscalar(theta_mus):
             theta_mus = [theta_mus]
         entries = sum([tm * A for tm, A in zip(theta_mus, self.entries)])
-        return self._OperatorClass(entries)
+        operator = self._OperatorClass(entries)
+        if self.parameter_dimension is None:
+            self._set_parameter_dimension_from_values([parameter])
+        return operator
 
     # Dimensionality reduction ------------------------------------------------
     @utils.requires("entries")
-- 
2.43.0


From e02c19115e2986e5b73ca9f8a77dad0407459839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 23/55] fix: load affine operators with integer coefficients

---
 src/opinf/operators/_affine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/operators/_affine.py b/src/opinf/operators/_affine.py
index 575e0dd..9ff2167 100644
--- a/src/opinf/operators/_affine.py
+++ b/src/opinf/operators/_affine.py
@@ -501,7 +501,10 @@ class _AffineOperator(ParametricOpInfOperator):
 
             op = cls(coeffs, nterms=nterms, entries=entries, fromblock=False)
 
-            if (key := "parameter_dimension") in hf["meta"].attrs:
+            if (
+                op.parameter_dimension is None
+                and (key := "parameter_dimension") in hf["meta"].attrs
+            ):
                 op.parameter_dimension = int(hf["meta"].attrs[key])
             return op
 
-- 
2.43.0


From fc65ded6d32d169736fb1ef0c2d5ec1273304831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 24/55] fix: save the dimensions of a PODBasis that is not
 trained

---
 src/opinf/basis/_pod.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index c9f113e..616f129 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -987,6 +987,10 @@ class PODBasis(LinearBasis):
                 if self.rightvecs is not None:
                     hf.create_dataset("rightvecs", data=self.rightvecs)
                 hf["leftvecs"].attrs["r"] = self.reduced_state_dimension
+            else:
+                for key, dim in zip("nr", self.shape):
+                    if dim is not None:
+                        meta.attrs[key] = dim
 
     @classmethod
     def load(cls, loadfile, max_vectors=None):
@@ -1035,7 +1039,12 @@ class PODBasis(LinearBasis):
                     )
                 return basis
 
-            return cls(**kwargs)
+            basis = cls(**kwargs)
+            if "n" in attrs:
+                BasisTemplate.full_state_dimension.fset(basis, attrs["n"])
+            if "r" in attrs:
+                BasisTemplate.reduced_state_dimension.fset(basis, attrs["r"])
+            return basis
 
 
 # Functional API ==============================================================
-- 
2.43.0


From ff76f3c8d374ca6d6e6f53cb751e829b7d862b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 25/55] fix: count the zero singular values in regcond() of
 underdetermined problems

---
 src/opinf/lstsq/_tikhonov.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index 6efdd16..cdd6f15 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -382,6 +382,10 @@ class L2Solver(_BaseRegularizedSolver):
         """
         return self._svals.max() / self._svals.min()
 
+    def _padded_svals(self):
+        """Singular values of the data matrix, one for each column."""
+        return np.pad(self._svals, (0, self.d - self._svals.size))
+
     @_require_trained
     def regcond(self) -> float:
         r"""Compute the :math:`2`-norm condition number of the regularized
@@ -394,7 +398,7 @@ class L2Solver(_BaseRegularizedSolver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer**2
+        svals2 = self._padded_svals() ** 2 + self.regularizer**2
         return np.sqrt(svals2.max() / svals2.min())
 
     @_require_trained
@@ -620,7 +624,8 @@ class L2DecoupledSolver(L2Solver):
         """
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
-        svals2 = self._svals**2 + self.regularizer.reshape((-1, 1)) ** 2
+        regs2 = self.regularizer.reshape((-1, 1)) ** 2
+        svals2 = self._padded_svals() ** 2 + regs2
         return np.sqrt(svals2.max(axis=1) / svals2.min(axis=1))
 
     def regresidual(self, Ohat: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 6fb09cf9e3c7b6039c71c4fe97c67d766b49c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 26/55] fix: compute the Jacobian of a PolynomialOperator

The inherited OperatorTemplate.jacobian() returns zero, so models with a
PolynomialOperator had a wrong Jacobian.
---
 src/opinf/operators/_polynomial_operator.py | 27 +++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index ebeb5cb..19ede1a 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -221,6 +221,33 @@ class PolynomialOperator(OpInfOperator):
         )
         return self.entries @ restricted_kronecker_product
 
+    def jacobian(self, state: np.ndarray, input_=None) -> np.ndarray:
+        r"""Construct the state Jacobian of the operator. Input is not used.
+        See OperatorTemplate.jacobian for description.
+        """
+        state = np.atleast_1d(state)
+        r = self.state_dimension
+        if state.shape[0] != r:
+            raise ValueError(
+                f"Expected state of dimension r={r}. "
+                + f"Got state.shape={state.shape}"
+            )
+
+        # constant
+        if self.polynomial_order == 0:
+            return np.zeros((r, r))
+
+        # derivative of the restricted Kronecker product (product rule)
+        kept = self.nonredudant_entries
+        power, derivative = state, np.eye(r)
+        for p in range(2, self.polynomial_order + 1):
+            derivative = (
+                np.kron(np.eye(r), power.reshape((-1, 1)))
+                + np.kron(state.reshape((-1, 1)), derivative)
+            )[kept[p]]
+            power = np.kron(state, power)[kept[p]]
+        return self.entries @ derivative
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From efb8b7b5b331c1cf7a4c016eb022b037b5b4e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 27/55] fix: keep the smallest valid eigenvalue in
 method_of_snapshots()

The threshold was the absolute value of the smallest eigenvalue also when
that eigenvalue is positive, so a valid mode was always dropped.
---
 src/opinf/basis/_pod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 616f129..ece36ed 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -99,7 +99,8 @@ def method_of_snapshots(
     -----
     If, due to numerical precision errors, :func:`scipy.linalg.eigh` returns
     any negative eigenvalues, then ``minthresh`` is increased to the absolute
-    value of the most negative eigenvalue.
+    value of the most negative eigenvalue. Eigenvalues that cannot be
+    distinguished from round-off in the largest one are truncated as well.
     """
     state_dimension, n_states = states.shape
     if n_states > state_dimension:
@@ -122,8 +123,9 @@ def method_of_snapshots(
 
     # By definition the Gramian is symmetric positive semi-definite.
     # If any eigenvalues are smaller than zero, they are only measuring
-    # numerical error and can be truncated.
-    positives = eigvals > max(minthresh, abs(np.min(eigvals)))
+    # numerical error and can be truncated, as can those below round-off level.
+    roundoff = 10 * max(states.shape) * np.finfo(float).eps * eigvals[0]
+    positives = eigvals > max(minthresh, -np.min(eigvals), roundoff)
     eigvecs = eigvecs[:, positives]
     eigvals = eigvals[positives]
 
-- 
2.43.0


From d621161d517488693a5ae56d34db85a3220f0915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 28/55] fix: weighted PODBasis whose svdsolver is changed
 before fit()

Switching from method-of-snapshots to another solver raised an
AttributeError, the square root of the weights was never computed.
---
 src/opinf/basis/_pod.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index ece36ed..9d362b5 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -288,23 +288,30 @@ class PODBasis(LinearBasis):
         self.__residual_energy = None
 
         # Store weights (separate from LinearBasis.__weights)
+        self.__sqrt_weights = None
         if (
             weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
-            if weights.ndim == 1:
-                self.__sqrt_weights = np.sqrt(weights)
-            else:  # (weights.ndim == 2, checked by LinearBasis)
-                if sparse.issparse(weights):
-                    weights = weights.toarray()
-                if weights.shape[0] > 100:  # pragma: no cover
-                    warnings.warn(
-                        "computing the square root of a large weight matrix, "
-                        "consider using svdsolver='method-of-snapshots'",
-                        errors.OpInfWarning,
-                    )
-                self.__sqrt_weights = la.sqrtm(weights)
-                self.__sqrt_weights_cho = la.cho_factor(self.__sqrt_weights)
+            self._set_sqrt_weights()
+
+    def _set_sqrt_weights(self):
+        """Compute the square root of the weights."""
+        weights = self.weights
+        if weights.ndim == 1:
+            self.__sqrt_weights = np.sqrt(weights)
+        else:  # (weights.ndim == 2, checked by LinearBasis)
+            if sparse.issparse(weights):
+                weights = weights.toarray()
+            if weights.shape[0] > 100:  # pragma: no cover
+                warnings.warn(
+                    "computing the square root of a large weight matrix, "
+                    "consider using svdsolver='method-of-snapshots'",
+                    errors.OpInfWarning,
+                )
+            sqrt_weights = la.sqrtm(weights)
+            self.__sqrt_weights_cho = la.cho_factor(sqrt_weights)
+            self.__sqrt_weights = sqrt_weights
 
     @classmethod
     def from_svd(
@@ -702,6 +709,8 @@ class PODBasis(LinearBasis):
             self.weights is not None
             and self.__svdsolverlabel != "method-of-snapshots"
         ):
+            if self.__sqrt_weights is None:  # svdsolver was changed
+                self._set_sqrt_weights()
             if states.shape[0] != (nW := self.__sqrt_weights.shape[0]):
                 raise errors.DimensionalityError(
                     f"states not aligned with weights, should have {nW:d} rows"
-- 
2.43.0


From b7605eeabc23c8931aefb5de3e46961d6d758d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 29/55] fix: restore the new time domain when derivative
 estimator verification fails

InterpDerivativeEstimator.verify() lost new_time_domain if the verification
raised an exception.
---
 src/opinf/ddt/_interpolation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index a6177c1..7390c3e 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -238,6 +238,7 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
     def verify(self, plot=False, return_errors=False):
         new_time_domain = self.__t2
         self.__t2 = None
-        out = super().verify(plot, return_errors)
-        self.__t2 = new_time_domain
-        return out
+        try:
+            return super().verify(plot, return_errors)
+        finally:
+            self.__t2 = new_time_domain
-- 
2.43.0


From 51db357479ca12522cebaae3ed0b12ad656ca98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 30/55] fix: restore standard output when a TimedBlock cannot
 be entered or rebuffer changes meanwhile

---
 src/opinf/utils/_timer.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index a282ff7..3264f6d 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -129,7 +129,9 @@ class TimedBlock:
         raise TimeoutError("timed out!")
 
     def _reset_stdout(self):
-        text = self.__new_buffer.getvalue()
+        if self.__new_buffer is None:
+            return
+        text, self.__new_buffer = self.__new_buffer.getvalue(), None
         sys.stdout = self.__original_stdout
         print(text, end="", flush=True)
 
@@ -142,9 +144,13 @@ class TimedBlock:
             print(f"{self.message}...", end=self.__front, flush=True)
         self._tic = time.perf_counter()
         if self.timelimit is not None:
-            self.__old_handler = signal.signal(
-                signal.SIGALRM, self._signal_handler
-            )
+            try:
+                self.__old_handler = signal.signal(
+                    signal.SIGALRM, self._signal_handler
+                )
+            except ValueError:  # Signals only work in the main thread.
+                self._reset_stdout()
+                raise
             self.__old_alarm = signal.alarm(0)
             self.__alarm = self.timelimit
             if self.__old_alarm and self.__old_handler is self._signal_handler:
@@ -173,8 +179,7 @@ class TimedBlock:
                     print(flush=True)
                 report = f"TIMED OUT after {elapsed:.2f} s."
                 logging.info(f"{self.message}...{report}")
-                if self.rebuffer:
-                    self._reset_stdout()
+                self._reset_stdout()
                 raise TimeoutError(report)
             print(f"{exc_type.__name__}: {exc_value}")
             logging.info(self.message)
@@ -182,16 +187,14 @@ class TimedBlock:
                 f"({exc_type.__name__}) {exc_value} "
                 f"(raised after {elapsed:.6f} s)"
             )
-            if self.rebuffer:
-                self._reset_stdout()
+            self._reset_stdout()
             raise
         else:  # If no exception, report execution time.
             if self.verbose and self.message:
                 print(f"done in {elapsed:.2f} s.", flush=True, end=self.__back)
             logging.info(f"{self.message}...done in {elapsed:.6f} s.")
         self.__elapsed = elapsed
-        if self.rebuffer:
-            self._reset_stdout()
+        self._reset_stdout()
         return
 
     @classmethod
-- 
2.43.0


From 3040d44ebd718c89c0f95b663387368c22a50b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 31/55] fix: keep fractions of seconds of the alarms around a
 TimedBlock

---
 src/opinf/utils/_timer.py | 44 ++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/opinf/utils/_timer.py b/src/opinf/utils/_timer.py
index 3264f6d..f864f10 100644
--- a/src/opinf/utils/_timer.py
+++ b/src/opinf/utils/_timer.py
@@ -145,33 +145,49 @@ class TimedBlock:
         self._tic = time.perf_counter()
         if self.timelimit is not None:
             try:
-                self.__old_handler = signal.signal(
-                    signal.SIGALRM, self._signal_handler
-                )
+                self._set_alarm()
             except ValueError:  # Signals only work in the main thread.
                 self._reset_stdout()
                 raise
-            self.__old_alarm = signal.alarm(0)
-            self.__alarm = self.timelimit
-            if self.__old_alarm and self.__old_handler is self._signal_handler:
-                # The time limit of an enclosing block also applies here.
-                self.__alarm = min(self.timelimit, self.__old_alarm)
-            signal.alarm(self.__alarm)
         return self
 
+    def _set_alarm(self):
+        """Start the time limit and remember the alarm set before it."""
+        self.__old_handler = signal.signal(
+            signal.SIGALRM, self._signal_handler
+        )
+        self.__old_alarm = signal.setitimer(signal.ITIMER_REAL, 0)
+        self.__old_alarm_time = time.perf_counter()
+        limit, remaining = self.timelimit, self.__old_alarm[0]
+        if remaining and self.__old_handler is self._signal_handler:
+            # The time limit of an enclosing block also applies here.
+            limit = min(limit, remaining)
+        signal.setitimer(signal.ITIMER_REAL, limit)
+
     def _reset_alarm(self):
-        """Cancel the time limit and reinstate the alarm set before it."""
-        elapsed = self.__alarm - signal.alarm(0)
+        """Reinstate the alarm that was set before the time limit."""
         if self.__old_handler is not None:
             signal.signal(signal.SIGALRM, self.__old_handler)
-        if self.__old_alarm:
-            signal.alarm(max(self.__old_alarm - elapsed, 1))
+        remaining, interval = self.__old_alarm
+        if remaining:
+            elapsed = time.perf_counter() - self.__old_alarm_time
+            signal.setitimer(
+                signal.ITIMER_REAL, max(remaining - elapsed, 1e-6), interval
+            )
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Calculate and report the elapsed time."""
         self._toc = time.perf_counter()
-        if self.timelimit is not None:
+        if self.timelimit is None:
+            return self._report(exc_type, exc_value)
+        signal.setitimer(signal.ITIMER_REAL, 0)
+        try:
+            return self._report(exc_type, exc_value)
+        finally:
             self._reset_alarm()
+
+    def _report(self, exc_type, exc_value):
+        """Report the elapsed time or the exception raised in the block."""
         elapsed = self._toc - self._tic
         if exc_type:  # Report an exception if present.
             if self.timelimit is not None and exc_type is TimeoutError:
-- 
2.43.0


From c43a4b91fd1eb7a75d7e9c0cda7f0e26ce3f13b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 32/55] fix: mixed finite differences of integer snapshots are
 not truncated to integers

---
 src/opinf/ddt/_finite_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index d7491c2..f9b3a49 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -1047,7 +1047,7 @@ def ddt_uniform(states, dt, order=2):
     if not np.isscalar(dt):
         raise TypeError("time step dt must be a scalar (e.g., float)")
 
-    ddts = np.empty_like(states)
+    ddts = np.empty(states.shape, dtype=np.result_type(states, float))
 
     if order == 2:
         # TODO: Does this next line do what the rest does?
-- 
2.43.0


From 1f95b1999b2a2ddb25550b43840ccfca34d3b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 33/55] fix: nonuniform time domains with tiny time steps are
 refused, too

---
 src/opinf/ddt/_finite_difference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_finite_difference.py b/src/opinf/ddt/_finite_difference.py
index f9b3a49..2c380cb 100644
--- a/src/opinf/ddt/_finite_difference.py
+++ b/src/opinf/ddt/_finite_difference.py
@@ -826,7 +826,8 @@ class UniformFiniteDifferencer(DerivativeEstimatorTemplate):
 
         # Check for uniform spacing.
         diffs = np.diff(time_domain)
-        if not np.allclose(diffs, diffs[0]):
+        atol = min(1e-8, abs(diffs[0]) / 100)  # (small time steps)
+        if not np.allclose(diffs, diffs[0], atol=atol):
             raise ValueError("time domain must be uniformly spaced")
 
         # Set the finite difference scheme.
-- 
2.43.0


From c0562c26a4eb7b12c476779fac415eefb1b7b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 34/55] fix: verify() of derivative estimators compares with
 the truth at the same times

---
 src/opinf/ddt/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/ddt/_base.py b/src/opinf/ddt/_base.py
index 4388208..f979e1d 100644
--- a/src/opinf/ddt/_base.py
+++ b/src/opinf/ddt/_base.py
@@ -284,7 +284,7 @@ class DerivativeEstimatorTemplate(abc.ABC):
 
                 # Use new states to infer the indices of the returns.
                 start = np.argmin(
-                    la.norm(Q - Q_est[:, 0].reshape((-1, 1))), axis=0
+                    la.norm(Q - Q_est[:, 0].reshape((-1, 1)), axis=0)
                 )
                 s = slice(start, start + Q_est.shape[1])
                 truth = dQdt[:, s]
-- 
2.43.0


From 1f51bec71e211cfd956d60b1e58da1dac384e5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 35/55] fix: InterpDerivativeEstimator.mask() works for arrays
 of any dimension

---
 src/opinf/ddt/_interpolation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/opinf/ddt/_interpolation.py b/src/opinf/ddt/_interpolation.py
index 7390c3e..819a863 100644
--- a/src/opinf/ddt/_interpolation.py
+++ b/src/opinf/ddt/_interpolation.py
@@ -226,13 +226,14 @@ class InterpDerivativeEstimator(DerivativeEstimatorTemplate):
         if self.new_time_domain is None:
             return arr
 
-        # Interpolate to the new time domain.
+        # Interpolate to the new time domain (the last axis is time).
         statespline = self.InterpolatorClass(
             self.time_domain,
-            arr,
+            np.reshape(arr, (-1, arr.shape[-1])),
             **self.options,
         )
-        return statespline(self.new_time_domain)
+        new_arr = statespline(self.new_time_domain)
+        return np.reshape(new_arr, arr.shape[:-1] + (-1,))
 
     # Verification ------------------------------------------------------------
     def verify(self, plot=False, return_errors=False):
-- 
2.43.0


From 7aadcbc7fc11e1cdd65e847fa37357185bf27cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 36/55] fix: a single polynomial order need not be an integer

---
 src/opinf/lift/_polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 6e9374b..5053a0c 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -100,7 +100,7 @@ class PolynomialLifter(LifterTemplate):
     def orders(self, ps: tuple):
         """Set the polynomial orders."""
         if isinstance(ps, numbers.Number):
-            ps = (int(ps),)
+            ps = (ps,)
         for p in ps:
             if not isinstance(p, numbers.Number):
                 raise TypeError("'orders' must be a sequence of numbers")
-- 
2.43.0


From 8b38e85ea8b583282c185567c30f9ef0eb19ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 37/55] fix: the derivative of a constant lifted variable is
 zero also where the state is zero

---
 src/opinf/lift/_polynomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opinf/lift/_polynomial.py b/src/opinf/lift/_polynomial.py
index 5053a0c..7a8b093 100644
--- a/src/opinf/lift/_polynomial.py
+++ b/src/opinf/lift/_polynomial.py
@@ -161,7 +161,10 @@ class PolynomialLifter(LifterTemplate):
             Time derivatives of the learning variables.
         """
         return np.concatenate(
-            [p * states ** (p - 1) * ddts for p in self.__orders]
+            [
+                p * states ** (p - 1) * ddts if p != 0 else 0 * ddts
+                for p in self.__orders
+            ]
         )
 
     def unlift(self, lifted_states):
-- 
2.43.0


From 81ad163411be1b510d150ea04a0b34948860386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 38/55] fix: copies of interpolatory models keep the solver

---
 src/opinf/models/mono/_parametric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 9e109a1..32dc389 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1310,8 +1310,10 @@ class _InterpModel(_ParametricModel):
 
     def copy(self):
         """Make a copy of the model."""
+        sol = self.solver.copy() if self.solver is not None else None
         return self.__class__(
             operators=[op.copy() for op in self.operators],
+            solver=sol,
             InterpolatorClass=self.__InterpolatorClass,
         )
 
-- 
2.43.0


From 2ada5d1c22f0a6197a5737ac647685d1dfff8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 39/55] fix: parametric models may contain known interpolatory
 operators

---
 src/opinf/models/mono/_parametric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index 32dc389..d4e1554 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -274,8 +274,9 @@ class _ParametricModel(_OpInfModel):
             inputs_,
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
 
-        # Set training_parameters for interpolatory operators.
-        for op in self.operators:
+        # Set training_parameters for interpolatory operators to be inferred.
+        for i in self._indices_of_operators_to_infer:
+            op = self.operators[i]
             if oputils.is_interpolated(op):
                 op.set_training_parameters(parameters_)
 
-- 
2.43.0


From 62abe383e6d113d261eb0a4ffa151c26a46fdbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 40/55] fix: known operators of interpolatory models are used
 once and kept

---
 src/opinf/models/mono/_parametric.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/opinf/models/mono/_parametric.py b/src/opinf/models/mono/_parametric.py
index d4e1554..0c1014b 100644
--- a/src/opinf/models/mono/_parametric.py
+++ b/src/opinf/models/mono/_parametric.py
@@ -1139,22 +1139,21 @@ class _InterpModel(_ParametricModel):
         ) = self._process_fit_arguments(parameters, states, lhs, inputs)
         n_datasets = len(parameters)
 
-        # Distribute training data to individual OpInf problems.
+        # Distribute training data to individual OpInf problems. The known
+        # operators are already accounted for in the left-hand side data.
         nonparametric_models = []
         for i in range(n_datasets):
             model_i = self._ModelFitClass(
                 operators=[
-                    op._OperatorClass(
-                        op.entries[i] if op.entries is not None else None
-                    )
-                    for op in self.operators
+                    self.operators[ell]._OperatorClass()
+                    for ell in self._indices_of_operators_to_infer
                 ],
                 solver=self.solver.copy(),
             )
             model_i._fit_solver(
                 states_[i],
                 lhs_[i],
-                inputs_[i],
+                inputs_[i] if model_i._has_inputs else None,
             )
             nonparametric_models.append(model_i)
 
@@ -1173,11 +1172,12 @@ class _InterpModel(_ParametricModel):
             submodel.refit()
 
         # Interpolate the resulting operators.
-        for ell, op in enumerate(self.operators):
+        for i, ell in enumerate(self._indices_of_operators_to_infer):
+            op = self.operators[ell]
             op._clear()
             op.set_training_parameters(self._training_parameters)
             op.set_entries(
-                [mdl.operators[ell].entries for mdl in self._submodels]
+                [mdl.operators[i].entries for mdl in self._submodels]
             )
 
         return self
-- 
2.43.0


From 3f6d3e63180da0bb3a846875707883717720c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 41/55] fix: projecting an uncalibrated model keeps its solver

---
 src/opinf/models/mono/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opinf/models/mono/_base.py b/src/opinf/models/mono/_base.py
index c21e056..78dbd48 100644
--- a/src/opinf/models/mono/_base.py
+++ b/src/opinf/models/mono/_base.py
@@ -280,6 +280,9 @@ class _Model(abc.ABC):
             Reduced-order model obtained from (Petrov-)Galerkin projection.
         """
         # TODO: preserve the _to_infer indices?
+        sol = None
+        if any(oputils.is_uncalibrated(op) for op in self.operators):
+            sol = self.solver.copy()
         return self.__class__(
             [
                 (
@@ -288,7 +291,8 @@ class _Model(abc.ABC):
                     else old_op.galerkin(Vr, Wr)
                 )
                 for old_op in self.operators
-            ]
+            ],
+            solver=sol,
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 70f23c5d66816c39bc0220c6dea5220a849c9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 42/55] fix: interrupted fits of PlainSolver do not mix
 training data

---
 src/opinf/lstsq/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opinf/lstsq/_base.py b/src/opinf/lstsq/_base.py
index 4453be7..8c3351d 100644
--- a/src/opinf/lstsq/_base.py
+++ b/src/opinf/lstsq/_base.py
@@ -406,6 +406,7 @@ class PlainSolver(SolverTemplate):
         return start + f"\n  solver: scipy.linalg.lstsq({kwargs})"
 
     # Main methods ------------------------------------------------------------
+    @_untrain_on_failure
     def fit(self, data_matrix, lhs_matrix):
         r"""Verify dimensions and save the data matrices.
 
-- 
2.43.0


From 0d90557a3c06a044c2b3b2a844a6bfa85ac9842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 43/55] fix: posteriors can be compared with other objects

---
 src/opinf/roms/_bayes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/roms/_bayes.py b/src/opinf/roms/_bayes.py
index 74239ae..3e7b4a2 100644
--- a/src/opinf/roms/_bayes.py
+++ b/src/opinf/roms/_bayes.py
@@ -136,6 +136,8 @@ class OperatorPosterior:
         return [rv.cov for rv in self.randomvariables]
 
     def __eq__(self, other):
+        if not isinstance(other, self.__class__):
+            return False
         if self.nrows != other.nrows:
             return False
         for m1, m2 in zip(self.means, other.means):
-- 
2.43.0


From 2536d2ca30a8bea99dcc4735049713da91e9accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 44/55] fix: multivariable bases and transformers can be
 compared with any object

---
 src/opinf/basis/_multi.py | 2 +-
 src/opinf/pre/_multi.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/basis/_multi.py b/src/opinf/basis/_multi.py
index a4e59bf..ac9d30b 100644
--- a/src/opinf/basis/_multi.py
+++ b/src/opinf/basis/_multi.py
@@ -153,7 +153,7 @@ class BasisMulti:
 
     def __eq__(self, other) -> bool:
         """Test two BasisMulti objects for equality."""
-        if not (
+        if not isinstance(other, BasisMulti) or not (
             isinstance(other, self.__class__)
             or isinstance(self, other.__class__)
         ):
diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index 549c7e4..e11363f 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -444,7 +444,7 @@ class TransformerMulti:
 
     def __eq__(self, other) -> bool:
         """Test two TransformerMulti objects for equality."""
-        if not (
+        if not isinstance(other, TransformerMulti) or not (
             isinstance(other, self.__class__)
             or isinstance(self, other.__class__)
         ):
-- 
2.43.0


From 403b80e942929e4100c10fb943bcda0cfca02116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 45/55] fix: equality of bases considers all sparse weights

---
 src/opinf/basis/_linear.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/opinf/basis/_linear.py b/src/opinf/basis/_linear.py
index 791f33b..b10359e 100644
--- a/src/opinf/basis/_linear.py
+++ b/src/opinf/basis/_linear.py
@@ -238,15 +238,23 @@ class LinearBasis(BasisTemplate):
             return False
         if self.shape != other.shape:
             return False
-        if self.weights is None and other.weights is not None:
+        w1, w2 = self.weights, other.weights
+        if (w1 is None) != (w2 is None):
             return False
-        if (w1 := self.weights) is not None:
-            if (w2 := other.weights) is None:
+        if w1 is not None:
+            if w1.shape != w2.shape:
                 return False
             if sparse.issparse(w1) and sparse.issparse(w2):
-                w1, w2 = w1.data[0], w2.data[0]
-            if not np.allclose(w1, w2):
-                return False
+                # Same criterion as np.allclose(w1, w2).
+                excess = abs(w1 - w2) - 1e-5 * abs(w2)
+                if excess.tocsr().max() > 1e-8:
+                    return False
+            else:
+                w1, w2 = [
+                    w.toarray() if sparse.issparse(w) else w for w in (w1, w2)
+                ]
+                if not np.allclose(w1, w2):
+                    return False
         return np.all(self.entries == other.entries)
 
     def save(self, savefile: str, overwrite: bool = False):
-- 
2.43.0


From 1950f37df1893fb17f5d197093543804f0a385e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 46/55] fix: equality of operators with sparse entries

---
 src/opinf/operators/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opinf/operators/_base.py b/src/opinf/operators/_base.py
index 813f116..12c02f5 100644
--- a/src/opinf/operators/_base.py
+++ b/src/opinf/operators/_base.py
@@ -617,6 +617,10 @@ class OpInfOperator(OperatorTemplate):
         if self.entries is not None:
             if self.shape != other.shape:
                 return False
+            if sparse.issparse(self.entries) and sparse.issparse(
+                other.entries
+            ):
+                return (self.entries != other.entries).nnz == 0
             return np.all(self.entries == other.entries)
         return True
 
-- 
2.43.0


From 6f3da3931047e9638e27e5a3233bd4b47bee20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 47/55] fix: equality of partially set ShiftScaleTransformers
 is symmetric

---
 src/opinf/pre/_shiftscale.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/opinf/pre/_shiftscale.py b/src/opinf/pre/_shiftscale.py
index e837e46..0622913 100644
--- a/src/opinf/pre/_shiftscale.py
+++ b/src/opinf/pre/_shiftscale.py
@@ -976,18 +976,13 @@ class ShiftScaleTransformer(TransformerTemplate):
                 return False
         if self.state_dimension != other.state_dimension:
             return False
-        if self.centering and self.mean_ is not None:
-            if other.mean_ is None:
-                return False
-            if not np.all(self.mean_ == other.mean_):
-                return False
-        if self.scaling and self.scale_ is not None:
-            for attr in ("scale_", "shift_"):
-                if (oat := getattr(other, attr)) is None:
-                    return False
-                if not np.all(getattr(self, attr) == oat):
-                    return False
-        return True
+        attrs = ["mean_"] if self.centering else []
+        if self.scaling:
+            attrs += ["scale_", "shift_"]
+        return all(
+            np.array_equal(getattr(self, attr), getattr(other, attr))
+            for attr in attrs
+        )
 
     # Printing ----------------------------------------------------------------
     @staticmethod
-- 
2.43.0


From df57759c1ede2c13c2dd24791a4121595eae2a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 48/55] fix: equality of PolynomialOperators considers the
 order

---
 src/opinf/operators/_polynomial_operator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index 19ede1a..a747eda 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -248,6 +248,16 @@ class PolynomialOperator(OpInfOperator):
             power = np.kron(state, power)[kept[p]]
         return self.entries @ derivative
 
+    # Magic methods -----------------------------------------------------------
+    def __eq__(self, other):
+        """Two PolynomialOperators are equal if they have the same order and
+        the same ``entries`` array.
+        """
+        return (
+            super().__eq__(other)
+            and self.polynomial_order == other.polynomial_order
+        )
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From bb422f6542fab3bff242bc6947f878aaa62ada45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 49/55] fix: PolynomialOperators can be added

---
 src/opinf/operators/_polynomial_operator.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/opinf/operators/_polynomial_operator.py b/src/opinf/operators/_polynomial_operator.py
index a747eda..d400899 100644
--- a/src/opinf/operators/_polynomial_operator.py
+++ b/src/opinf/operators/_polynomial_operator.py
@@ -258,6 +258,20 @@ class PolynomialOperator(OpInfOperator):
             and self.polynomial_order == other.polynomial_order
         )
 
+    def __add__(self, other):
+        """Polynomial operators of the same order are linear in their entries.
+        """
+        if (ocls := other.__class__) is not (scls := self.__class__):
+            raise TypeError(
+                f"can't add object of type '{ocls.__name__}' "
+                f"to object of type '{scls.__name__}'"
+            )
+        if (p1 := self.polynomial_order) != (p2 := other.polynomial_order):
+            raise ValueError(
+                f"can't add operators of polynomial orders {p1} and {p2}"
+            )
+        return scls(p1, self.entries + other.entries)
+
     # Properties --------------------------------------------------------------
     @property
     def nonredudant_entries(self) -> list:
-- 
2.43.0


From b9d19b4efa19f1c0aa571973d8978d9155da62de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:49 +0000
Subject: [PATCH 50/55] fix: a pipeline with a transformer that cannot
 transform derivatives returns NotImplemented

---
 src/opinf/pre/_multi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opinf/pre/_multi.py b/src/opinf/pre/_multi.py
index e11363f..eb2e2b9 100644
--- a/src/opinf/pre/_multi.py
+++ b/src/opinf/pre/_multi.py
@@ -107,6 +107,8 @@ class TransformerPipeline(TransformerTemplate):
         func = getattr(self.transformers[0], method)
         Y = func(states, inplace=inplace, **kwargs)
         for tf in self.transformers[1:]:
+            if Y is NotImplemented:
+                break
             func = getattr(tf, method)
             Y = func(Y, inplace=True, **kwargs)
         return Y
-- 
2.43.0


From f1240d4cf972666ba15e8c59fa29c41f36af81bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:49 +0000
Subject: [PATCH 51/55] fix: rank-deficient data without regularization have
 the minimum-norm solution

---
 src/opinf/lstsq/_tikhonov.py | 8 +++++++-
 src/opinf/lstsq/_tsvd.py     | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/opinf/lstsq/_tikhonov.py b/src/opinf/lstsq/_tikhonov.py
index cdd6f15..2cfaf77 100644
--- a/src/opinf/lstsq/_tikhonov.py
+++ b/src/opinf/lstsq/_tikhonov.py
@@ -324,7 +324,13 @@ class L2Solver(_BaseRegularizedSolver):
         if self.regularizer is None:
             raise AttributeError("solver regularizer not set")
         svals = self._svals.reshape((-1, 1))
-        svals_inv = svals / (svals**2 + self.regularizer**2)
+        denominator = svals**2 + self.regularizer**2
+        # Without regularization, rank-deficient data leave some directions
+        # undetermined: as in the minimum-norm solution, do not use them.
+        roundoff = np.finfo(float).eps * max(self.k, self.d) * svals.max()
+        undetermined = (svals <= roundoff) & (denominator <= roundoff**2)
+        denominator[undetermined] = np.inf
+        svals_inv = svals / denominator
         return (self._ZPhi * svals_inv.T) @ self._PsiT
 
     def posterior(self):
diff --git a/src/opinf/lstsq/_tsvd.py b/src/opinf/lstsq/_tsvd.py
index 7e7c459..ba7be1a 100644
--- a/src/opinf/lstsq/_tsvd.py
+++ b/src/opinf/lstsq/_tsvd.py
@@ -131,7 +131,11 @@ class TruncatedSVDSolver(SolverTemplate):
         Phi, svals, PsiT = la.svd(self.data_matrix, **self.options)
         self._svals = svals
         self._ZPhi = self.lhs_matrix @ Phi
-        self._SinvPsiT = PsiT / svals.reshape((-1, 1))
+        # Rank-deficient data leave some directions undetermined: as in the
+        # minimum-norm solution, do not use them.
+        roundoff = np.finfo(float).eps * max(self.k, self.d) * svals.max()
+        divisors = np.where(svals > roundoff, svals, np.inf)
+        self._SinvPsiT = PsiT / divisors.reshape((-1, 1))
 
         # Check num_svdmodes.
         d, n = self.max_modes, self.__nmodes
-- 
2.43.0


From c82c3e726bc0949708441106b03d73d8fd20160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:49 +0000
Subject: [PATCH 52/55] fix: svdval_decay() accepts singular values of an
 integer type

---
 src/opinf/basis/_pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/basis/_pod.py b/src/opinf/basis/_pod.py
index 9d362b5..0e846a5 100644
--- a/src/opinf/basis/_pod.py
+++ b/src/opinf/basis/_pod.py
@@ -1163,7 +1163,7 @@ def svdval_decay(
         Number of singular values greater than the cutoff value(s).
     """
     singular_values = np.sort(singular_values)[::-1]
-    singular_values /= singular_values[0]
+    singular_values = singular_values / singular_values[0]
 
     # Calculate the number of singular values above the cutoff value(s).
     if threshold:
-- 
2.43.0


From 1922ebf73b7f14af50d2decfee9e2070f5f3e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:49 +0000
Subject: [PATCH 53/55] fix: recognize constant training trajectories up to
 rounding when selecting a regularization

---
 src/opinf/roms/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opinf/roms/_base.py b/src/opinf/roms/_base.py
index ba28817..5f0865b 100644
--- a/src/opinf/roms/_base.py
+++ b/src/opinf/roms/_base.py
@@ -462,8 +462,10 @@ class _BaseROM(abc.ABC):
             stability_margin * np.abs(Q - qbar).max()
             for Q, qbar in zip(states, shifts)
         ]
-        for ell, lim in enumerate(limits):
-            if lim == 0:  # pragma: no cover
+        for ell, (Q, lim) in enumerate(zip(states, limits)):
+            # NOTE: the mean of constant data is only exact up to rounding.
+            roundoff = 100 * np.finfo(float).eps * np.abs(Q).max()
+            if lim <= stability_margin * roundoff:  # pragma: no cover
                 warnings.warn(
                     "ignoring stability limit"
                     f" for constant training trajectory {ell}",
-- 
2.43.0


From f9ac1a5b6698d7d6d7ea4cc98e800e0fe839daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 54/55] fix: constant operator of dimension one returns its
 entry for states of integers

---
 src/opinf/operators/_nonparametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opinf/operators/_nonparametric.py b/src/opinf/operators/_nonparametric.py
index 84f892c..dda56d7 100644
--- a/src/opinf/operators/_nonparametric.py
+++ b/src/opinf/operators/_nonparametric.py
@@ -112,7 +112,7 @@ class ConstantOperator(OpInfOperator):
         if self.entries.shape[0] == 1:
             if state is None or np.isscalar(state):  # r = k = 1.
                 return self.entries[0]
-            return np.full_like(state, self.entries[0])  # r = 1, k > 1.
+            return np.full(np.shape(state), self.entries[0])  # r = 1, k > 1.
         # if state is None or np.ndim(state) == 1:
         #     return self.entries
         if np.ndim(state) == 2:  # r, k > 1.
-- 
2.43.0


From 2c6a9c21e3cfbffb29b3b7078f8537e875f23631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:02 +0000
Subject: [PATCH 55/55] fix: right-hand side and Jacobian of a model at states
 of integers

---
 src/opinf/models/mono/_nonparametric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opinf/models/mono/_nonparametric.py b/src/opinf/models/mono/_nonparametric.py
index 3f99e50..a6b3804 100644
--- a/src/opinf/models/mono/_nonparametric.py
+++ b/src/opinf/models/mono/_nonparametric.py
@@ -356,7 +356,7 @@ class _NonparametricModel(_OpInfModel):
         out : (r,) ndarray
             Evaluation of the right-hand side of the model.
         """
-        out = np.zeros_like(state)
+        out = np.zeros_like(state, dtype=np.result_type(state, float))
         for op in self.operators:
             out += op.apply(state, input_)
         return out
@@ -385,7 +385,7 @@ class _NonparametricModel(_OpInfModel):
             State Jacobian of the right-hand side of the model.
         """
         r = self.state_dimension
-        out = np.zeros_like(state, shape=(r, r))
+        out = np.zeros((r, r), dtype=np.result_type(state, float))
         for op in self.operators:
             out += op.jacobian(state, input_)
         return out
-- 
2.43.0

