From 03dfa9d3c59a074a47816954d69c4f9ac9a409ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 01/22] fix: stable test-function derivatives for high orders
 (legendre_special, jacobi_plain)

Differentiating the monomial coefficients loses all accuracy from order ~30 on
(errors of 1e2 at order 40, 1e7 at order 50); use the Jacobi derivative identities.
---
 fastvpinns/FE/basis_2d_QN_Jacobi.py           | 13 +++++++++----
 fastvpinns/FE/basis_2d_QN_Legendre_Special.py | 12 +++++-------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/fastvpinns/FE/basis_2d_QN_Jacobi.py b/fastvpinns/FE/basis_2d_QN_Jacobi.py
index ad043bb..2754ac5 100644
--- a/fastvpinns/FE/basis_2d_QN_Jacobi.py
+++ b/fastvpinns/FE/basis_2d_QN_Jacobi.py
@@ -74,10 +74,15 @@ class Basis2DQNJacobi(BasisFunction2D):
         :raises Exception: If an unknown error occurs during the computation.
         """
         x = np.array(x, dtype=np.float64)
-        if k == 1:
-            return jacobi(n, a, b).deriv()(x)
-        if k == 2:
-            return jacobi(n, a, b).deriv(2)(x)
+        # The k-th derivative of a Jacobi polynomial is a multiple of a Jacobi polynomial of degree n-k.
+        # (Differentiating the monomial coefficients is numerically unstable for large n)
+        if k in (1, 2):
+            if n < k:
+                return np.zeros_like(x)
+            factor = 0.5 * (n + a + b + 1)
+            if k == 2:
+                factor *= 0.5 * (n + a + b + 2)
+            return factor * self.jacobi_wrapper(n - k, a + k, b + k, x)
         else:
             print(f"Invalid derivative order {k} in {__name__}.")
             raise ValueError("Derivative order should be 1 or 2.")
diff --git a/fastvpinns/FE/basis_2d_QN_Legendre_Special.py b/fastvpinns/FE/basis_2d_QN_Legendre_Special.py
index 9404036..54c1934 100644
--- a/fastvpinns/FE/basis_2d_QN_Legendre_Special.py
+++ b/fastvpinns/FE/basis_2d_QN_Legendre_Special.py
@@ -10,7 +10,7 @@ known_issues: None
 import numpy as np
 
 # import the legendre polynomials
-from scipy.special import legendre
+from scipy.special import jacobi, legendre
 import matplotlib.pyplot as plt
 
 from .basis_function_2d import BasisFunction2D
@@ -71,9 +71,8 @@ class Basis2DQNLegendreSpecial(BasisFunction2D):
         """
         test_total = []
         for n in range(1, n_test + 1):
-            obj1 = legendre(n + 1).deriv()
-            obj2 = legendre(n - 1).deriv()
-            test = obj1(x) - obj2(x)
+            # P'_{n+1} - P'_{n-1} = (2n+1) P_n (stable for large n, unlike poly1d derivatives)
+            test = (2 * n + 1) * legendre(n)(x)
             test_total.append(test)
         return np.asarray(test_total)
 
@@ -90,9 +89,8 @@ class Basis2DQNLegendreSpecial(BasisFunction2D):
         """
         test_total = []
         for n in range(1, n_test + 1):
-            obj1 = legendre(n + 1).deriv(2)
-            obj2 = legendre(n - 1).deriv(2)
-            test = obj1(x) - obj2(x)
+            # P''_{n+1} - P''_{n-1} = (2n+1) P'_n, where P'_n = (n+1)/2 P^{(1,1)}_{n-1}
+            test = (2 * n + 1) * (n + 1) / 2 * jacobi(n - 1, 1, 1)(x)
 
             test_total.append(test)
         return np.asarray(test_total)
-- 
2.43.0


From 4f79a65ef407877444c03a9dbe3e39064a441bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 02/22] fix: take boundary tags from the edge block of the mesh
 file

The references of the first cell block were used, so a .mesh file which lists its
quadrilaterals before its edges got wrong boundary tags or an IndexError.
---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index e042ccf..b102b92 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -161,7 +161,7 @@ class Geometry_2D(Geometry):
         )
 
         # now Get the physical tag of the boundary edges
-        boundary_tags = self.mesh.cell_data["medit:ref"][0]
+        boundary_tags = self.mesh.cell_data_dict["medit:ref"]["line"]
 
         # Generate a Dictionary of boundary tags and boundary coordinates
         # Keys will be the boundary tags and values will be the list of coordinates
-- 
2.43.0


From 234f72a6dfd47243b32ad991a08b313110fe9740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 03/22] fix: lhs boundary sampling stays on the boundary edge

x and y were sampled independently, so points of any edge that is not parallel to
an axis were spread over the edge's bounding box.
---
 fastvpinns/Geometry/geometry_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index b102b92..1c221f5 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -177,9 +177,9 @@ class Geometry_2D(Geometry):
                 new_points = np.linspace(p1, p2, pow(2, boundary_point_refinement_level) + 1)
             elif bd_sampling_method == "lhs":
                 # take the current point and next point and then perform a uniform sampling
-                new_points = lhs(2, pow(2, boundary_point_refinement_level) + 1)
-                new_points[:, 0] = new_points[:, 0] * (p2[0] - p1[0]) + p1[0]
-                new_points[:, 1] = new_points[:, 1] * (p2[1] - p1[1]) + p1[1]
+                # one sample parameter per point, so that the points lie on the edge
+                t = lhs(1, pow(2, boundary_point_refinement_level) + 1)
+                new_points = p1[0:2] + t * (p2[0:2] - p1[0:2])
             else:
                 print(
                     f"Invalid sampling method {bd_sampling_method} in {self.__class__.__name__} from {__name__}."
-- 
2.43.0


From 92c896f2a7a66918f5c4d91776b95a1225dc0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 04/22] fix: internal mesh object gets point indices as
 connectivity

The cell coordinates themselves were passed as the connectivity.
---
 fastvpinns/Geometry/geometry_2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 1c221f5..c25b28b 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -287,7 +287,10 @@ class Geometry_2D(Geometry):
             cells[i] = cell[np.argsort(angles)]
 
         # generate a meshio mesh object using the cells
-        self.mesh = meshio.Mesh(points=cells.reshape(-1, 2), cells=[("quad", cells.reshape(-1, 4))])
+        self.mesh = meshio.Mesh(
+            points=cells.reshape(-1, 2),
+            cells=[("quad", np.arange(4 * cells.shape[0]).reshape(-1, 4))],
+        )
 
         # lets generate the boundary points, this function will return a dictionary of boundary points
         # the keys will be the boundary tags and values will be the list of boundary points
-- 
2.43.0


From 199ca88d23b67463807a7941d37670b5679d4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 05/22] fix: mesh plot handles any number of boundary tags and
 counts points once

More than 15 tags ran past the marker list, and each tag's first point was counted twice.
---
 fastvpinns/FE/fespace2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 53e3727..10f591a 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -321,9 +321,9 @@ class Fespace2D(Fespace):
             x = np.append(x, x[0])
             y = np.append(y, y[0])
 
-            bound_dof += x.shape[0]
+            bound_dof += bound_pts.shape[0]
 
-            plt.scatter(x, y, marker=marker_list[i + 1], s=2, label=f"Bd-id : {bound_id}")
+            plt.scatter(x, y, marker=marker_list[(i + 1) % len(marker_list)], s=2, label=f"Bd-id : {bound_id}")
 
         self.total_boundary_dofs = bound_dof
 
-- 
2.43.0


From 582727ff59bf871c62097628880e32825dd51ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 06/22] fix: parameter conversion does not overwrite the user's
 dictionary

A dictionary which the example returns again later was changed to tensors of the first
handler's dtype, which a second handler of another dtype then could not convert.
---
 fastvpinns/data/datahandler2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/data/datahandler2d.py b/fastvpinns/data/datahandler2d.py
index 6b1474d..1bd5a9f 100644
--- a/fastvpinns/data/datahandler2d.py
+++ b/fastvpinns/data/datahandler2d.py
@@ -155,7 +155,7 @@ class DataHandler2D(DataHandler):
         :rtype: dict
         """
         # get the dictionary of bilinear parameters
-        bilinear_params_dict = function()
+        bilinear_params_dict = dict(function())
 
         # loop over all keys and convert the values to tensors
         for key in bilinear_params_dict.keys():
@@ -209,7 +209,7 @@ class DataHandler2D(DataHandler):
         """
         # loop over all keys and convert the values to tensors
 
-        inverse_params_dict = inverse_params_dict_function()
+        inverse_params_dict = dict(inverse_params_dict_function())
 
         for key in inverse_params_dict.keys():
             inverse_params_dict[key] = tf.constant(inverse_params_dict[key], dtype=self.dtype)
-- 
2.43.0


From a5dfda00553c888884d0f0874cacec647f350209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 07/22] fix: learning rate schedule honours the documented
 staircase flag

All four models read or documented learning_rate['staircase'] but always used staircase=True.
---
 fastvpinns/model/model.py                | 6 ++++--
 fastvpinns/model/model_hard.py           | 6 ++++--
 fastvpinns/model/model_inverse.py        | 6 ++++--
 fastvpinns/model/model_inverse_domain.py | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index d3cb516..b14b5e9 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -132,11 +132,13 @@ class DenseModel(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate,
+                decay_steps,
+                decay_rate,
+                staircase=learning_rate_dict.get("staircase", True),
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 3af0338..a606700 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -153,11 +153,13 @@ class DenseModel_Hard(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        staircase = learning_rate_dict["staircase"]
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate,
+                decay_steps,
+                decay_rate,
+                staircase=learning_rate_dict.get("staircase", True),
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 6309e46..64ee52c 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -144,11 +144,13 @@ class DenseModel_Inverse(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        staircase = learning_rate_dict["staircase"]
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate,
+                decay_steps,
+                decay_rate,
+                staircase=learning_rate_dict.get("staircase", True),
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 61e78d7..577d5ef 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -129,11 +129,13 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate,
+                decay_steps,
+                decay_rate,
+                staircase=learning_rate_dict.get("staircase", True),
             )
         else:
             learning_rate_fn = initial_learning_rate
-- 
2.43.0


From f2fb885cc25d8a31b85e66aa47f37b049c180bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 08/22] fix: double precision models evaluate the network at
 double precision points

Keras casts the inputs of a model to float32 by default, so a tf.float64 model rounded
every collocation and boundary point to single precision, and a hard constraint which
combines the inputs with the network output failed with a dtype error in float64.
---
 fastvpinns/model/model.py                | 2 +-
 fastvpinns/model/model_hard.py           | 4 ++--
 fastvpinns/model/model_inverse.py        | 2 +-
 fastvpinns/model/model_inverse_domain.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index b14b5e9..49bc92e 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -60,7 +60,7 @@ class DenseModel(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel, self).__init__()
+        super(DenseModel, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index a606700..b15fb69 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -75,7 +75,7 @@ class DenseModel_Hard(tf.keras.Model):
         hessian=False,
         hard_constraint_function=None,
     ):
-        super(DenseModel_Hard, self).__init__()
+        super(DenseModel_Hard, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
@@ -225,7 +225,7 @@ class DenseModel_Hard(tf.keras.Model):
         for layer in self.layer_list:
             x = layer(x)
 
-        x = self.hard_constraint_function(inputs, x)
+        x = self.hard_constraint_function(tf.cast(inputs, self.tensor_dtype), x)
 
         return x
 
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 64ee52c..3dcb327 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -54,7 +54,7 @@ class DenseModel_Inverse(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse, self).__init__()
+        super(DenseModel_Inverse, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 577d5ef..5469067 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -52,7 +52,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse_Domain, self).__init__()
+        super(DenseModel_Inverse_Domain, self).__init__(autocast=False)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
-- 
2.43.0


From 60840378366810015aa351ccf38e4c8729235f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 09/22] fix: the hard-constraint model's configuration includes
 its constraint

A model recreated from get_config() silently lost the constraint.
---
 fastvpinns/model/model_hard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index b15fb69..8ff39f1 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -252,6 +252,7 @@ class DenseModel_Hard(tf.keras.Model):
                 "hessian": self.hessian,
                 "layer_dims": self.layer_dims,
                 "tensor_dtype": self.tensor_dtype,
+                "hard_constraint_function": self.hard_constraint_function,
             }
         )
 
-- 
2.43.0


From 6ea4721cc25523797518b9b0d78d2c9cdc259f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 10/22] fix: hyperparameter tuner runs on machines without a
 GPU

Every trial failed with a division by zero, and no job was requested from the study.
---
 fastvpinns/hyperparameter_tuning/optuna_tuner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/hyperparameter_tuning/optuna_tuner.py b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
index af4ebcb..9c7ef0e 100644
--- a/fastvpinns/hyperparameter_tuning/optuna_tuner.py
+++ b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
@@ -40,6 +40,9 @@ class OptunaTuner:
         Wrapper function to run the objective function on a specific GPU.
         """
 
+        if not self.gpus:
+            return objective(trial, self.n_epochs)
+
         gpu_id = trial.number % len(self.gpus)
         with tf.device(f'/device:GPU:{gpu_id}'):
             return objective(trial, self.n_epochs)
@@ -52,7 +55,9 @@ class OptunaTuner:
             load_if_exists=True,
         )
         study.optimize(
-            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus), self.n_jobs)
+            self.objective_wrapper,
+            n_trials=self.n_trials,
+            n_jobs=min(len(self.gpus), self.n_jobs) or 1,
         )
 
         print("Best trial:")
-- 
2.43.0


From 7165d2d8370a0d04eb7e18878e6b56046d01e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 11/22] fix: finite element setup works whichever module was
 imported first

---
 fastvpinns/FE/fe2d_setup_main.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fastvpinns/FE/fe2d_setup_main.py b/fastvpinns/FE/fe2d_setup_main.py
index 1326fb0..5d5c3c8 100644
--- a/fastvpinns/FE/fe2d_setup_main.py
+++ b/fastvpinns/FE/fe2d_setup_main.py
@@ -18,6 +18,14 @@ from .quadratureformulas_quad2d import *
 # import base class for FE transformation
 from .fe_transformation_2d import *
 
+# the names used below, also when one of these modules was the first one to be imported
+from .basis_2d_QN_Legendre import Basis2DQNLegendre
+from .basis_2d_QN_Legendre_Special import Basis2DQNLegendreSpecial
+from .basis_2d_QN_Chebyshev_2 import Basis2DQNChebyshev2
+from .basis_2d_QN_Jacobi import Basis2DQNJacobi
+from .quad_affine import QuadAffin
+from .quad_bilinear import QuadBilinear
+
 
 class FE2DSetupMain:
     """
-- 
2.43.0


From aa64d05a4e419efe7f65ec3b6b19fc15136cb9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 12/22] fix: mesh files of dimension 2 can be read

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index c25b28b..d8f1cb8 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -157,7 +157,7 @@ class Geometry_2D(Geometry):
 
         # Number of Existing Boundary points
         print(
-            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1,3)).shape[0] * 0.5 + 1}"
+            f"[INFO] : Number of Bound points before refinement = {np.unique(boundary_coordinates.reshape(-1, boundary_coordinates.shape[-1])).shape[0] * 0.5 + 1}"
         )
 
         # now Get the physical tag of the boundary edges
-- 
2.43.0


From f4124a2616d43eced120613a1182ee74701de1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 13/22] fix: the constant-coefficient inverse
 convection-diffusion loss accepts the arguments the inverse model passes

---
 fastvpinns/physics/cd2d_inverse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastvpinns/physics/cd2d_inverse.py b/fastvpinns/physics/cd2d_inverse.py
index 073bdba..1da19d8 100644
--- a/fastvpinns/physics/cd2d_inverse.py
+++ b/fastvpinns/physics/cd2d_inverse.py
@@ -23,8 +23,8 @@ def pde_loss_cd2d(
     pred_grad_x_nn,
     pred_grad_y_nn,
     forcing_function,
-    bilinear_params_dict,
-    inverse_param_dict,
+    bilinear_params,
+    inverse_params_dict,
 ):  # pragma: no cover
     """
     Calculates and returns the loss for the  CD2D problem Inverse (constant)
@@ -43,10 +43,10 @@ def pde_loss_cd2d(
     :type pred_grad_y_nn: tf.Tensor
     :param forcing_function: The forcing function used in the PDE.
     :type forcing_function: function
-    :param bilinear_params_dict: The dictionary containing the bilinear parameters.
-    :type bilinear_params_dict: dict
-    :param inverse_param_dict: The dictionary containing the parameters for the inverse problem.
-    :type inverse_param_dict: dict
+    :param bilinear_params: The dictionary containing the bilinear parameters.
+    :type bilinear_params: dict
+    :param inverse_params_dict: The dictionary containing the parameters for the inverse problem.
+    :type inverse_params_dict: dict
 
     :return: The calculated loss.
     :rtype: tf.Tensor
@@ -61,7 +61,7 @@ def pde_loss_cd2d(
     pde_diffusion_y = tf.transpose(tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn))
 
     # eps * ∫ (du/dx. dv/dx + du/dy. dv/dy) dΩ
-    pde_diffusion = inverse_param_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
+    pde_diffusion = inverse_params_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
 
     # ∫du/dx. v dΩ
     conv_x = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_x_nn))
@@ -70,11 +70,11 @@ def pde_loss_cd2d(
     conv_y = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_y_nn))
 
     # # b(x) * ∫du/dx. v dΩ + b(y) * ∫du/dy. v dΩ
-    conv = bilinear_params_dict["b_x"] * conv_x + bilinear_params_dict["b_y"] * conv_y
+    conv = bilinear_params["b_x"] * conv_x + bilinear_params["b_y"] * conv_y
 
     # reaction term
     # ∫c.u.v dΩ
-    reaction = bilinear_params_dict["c"] * tf.transpose(
+    reaction = bilinear_params["c"] * tf.transpose(
         tf.linalg.matvec(test_shape_val_mat, pred_nn)
     )
 
-- 
2.43.0


From f76cb7373e3f2a72784362a648ca2c668f00cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 14/22] fix: inverse models do not share their unknown
 parameters through the caller's dictionary

---
 fastvpinns/model/model_inverse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 3dcb327..f320004 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -70,7 +70,8 @@ class DenseModel_Inverse(tf.keras.Model):
         self.sensor_values = sensor_list[1]
 
         # inverse params dict
-        self.inverse_params_dict = inverse_params_dict
+        # own copy: the values are replaced by variables of this model
+        self.inverse_params_dict = dict(inverse_params_dict)
 
         # Conver all the values within inverse_params_dict to trainable variables
         for key, value in self.inverse_params_dict.items():
-- 
2.43.0


From 14ebaf45bda3e73685338fdd6d8c40ecd787e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 15/22] fix: cell residual plot attaches its colour bar to the
 plot's axes

---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index d8f1cb8..709d3cf 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -559,7 +559,7 @@ class Geometry_2D(Geometry):
 
         sm = plt.cm.ScalarMappable(cmap=colormap, norm=norm)
         sm.set_array([])
-        plt.colorbar(sm)
+        plt.colorbar(sm, ax=plt.gca())
 
         # output filename
         output_filename = Path(f"{self.output_folder}/{filename}_{epoch}.png")
-- 
2.43.0


From 58bf8994fa8a1e4b0556d5085e10ea292e5ddd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 16/22] fix: the gauss-jacobi rule works at every supported
 order (orders above 1024 overflowed in polynomial coefficients that are not
 needed)

---
 fastvpinns/FE/quadratureformulas_quad2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/FE/quadratureformulas_quad2d.py b/fastvpinns/FE/quadratureformulas_quad2d.py
index 32807fc..ba491ab 100644
--- a/fastvpinns/FE/quadratureformulas_quad2d.py
+++ b/fastvpinns/FE/quadratureformulas_quad2d.py
@@ -13,7 +13,7 @@ Dependencies: numpy, scipy
 """
 
 import numpy as np
-from scipy.special import roots_legendre, roots_jacobi, jacobi, gamma
+from scipy.special import roots_legendre, roots_jacobi, eval_jacobi, gamma
 from scipy.special import legendre
 from scipy.special import eval_legendre, legendre
 
@@ -82,7 +82,7 @@ class Quadratureformulas_Quad2D(Quadratureformulas):
 
                 x = np.array(x, dtype=np.float64)
 
-                return jacobi(n, a, b)(x)
+                return eval_jacobi(n, a, b, x)
 
             # Weight coefficients
             def GaussLobattoJacobiWeights(Q: int, a, b):
-- 
2.43.0


From c69bab980908cfda5cd1dfc7357c30ae96de32ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 17/22] fix: example programs train the network architecture
 given in their input file

---
 examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py | 2 +-
 .../complex_mesh/poisson2d/main_poisson2d.py                    | 2 +-
 .../hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py | 2 +-
 .../uniform_mesh/helmholtz_2d/main_helmholtz.py                 | 2 +-
 .../uniform_mesh/poisson_2d/main_poisson2d.py                   | 2 +-
 examples/optuna_examples/main.py                                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py b/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
index a079b1a..55b7ec9 100644
--- a/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
+++ b/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
@@ -156,7 +156,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py b/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
index a079b1a..55b7ec9 100644
--- a/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
+++ b/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
@@ -156,7 +156,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
index 1e6f304..3a884cd 100644
--- a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
+++ b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
@@ -169,7 +169,7 @@ if __name__ == "__main__":
         return ansatz * x
 
     model = DenseModel_Hard(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
index be73765..8a5289f 100644
--- a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
+++ b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
@@ -151,7 +151,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_helmholtz,
diff --git a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
index 9b36508..792bac8 100644
--- a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
+++ b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
@@ -151,7 +151,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/optuna_examples/main.py b/examples/optuna_examples/main.py
index 2e93710..614dd41 100644
--- a/examples/optuna_examples/main.py
+++ b/examples/optuna_examples/main.py
@@ -202,7 +202,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=[2, 30, 30, 30, 1],
+        layer_dims=i_model_architecture,
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
-- 
2.43.0


From 10f129c3912a65f63643d7737b45c9325a97e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 18/22] fix: example programs plot grids of test points which
 are not square

---
 .../forward_problems_2d/complex_mesh/USA/utility.py  |  2 +-
 .../forward_problems_2d/complex_mesh/cd2d/utility.py |  2 +-
 .../complex_mesh/cd2d_gear/utility.py                |  2 +-
 .../complex_mesh/helmholtz2d/utility.py              |  2 +-
 .../complex_mesh/poisson2d/utility.py                |  2 +-
 .../poisson_2d/main_poisson2d_hard.py                |  6 +++---
 .../hard_boundary_constraints/poisson_2d/utility.py  |  2 +-
 .../uniform_mesh/helmholtz_2d/main_helmholtz.py      |  6 +++---
 .../uniform_mesh/helmholtz_2d/utility.py             |  2 +-
 .../uniform_mesh/poisson_2d/main_poisson2d.py        |  6 +++---
 .../uniform_mesh/poisson_2d/utility.py               |  2 +-
 .../const_inverse_poisson2d/main_inverse.py          | 10 +++++-----
 .../const_inverse_poisson2d/utility.py               |  2 +-
 .../USA/main_inverse_domain_usa.py                   | 12 ++++++------
 .../circle/main_inverse_domain_circle.py             | 12 ++++++------
 examples/optuna_examples/main.py                     |  6 +++---
 examples/optuna_examples/utility.py                  |  2 +-
 17 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/examples/forward_problems_2d/complex_mesh/USA/utility.py b/examples/forward_problems_2d/complex_mesh/USA/utility.py
index 794a0ea..72530cd 100644
--- a/examples/forward_problems_2d/complex_mesh/USA/utility.py
+++ b/examples/forward_problems_2d/complex_mesh/USA/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/complex_mesh/cd2d/utility.py b/examples/forward_problems_2d/complex_mesh/cd2d/utility.py
index 794a0ea..72530cd 100644
--- a/examples/forward_problems_2d/complex_mesh/cd2d/utility.py
+++ b/examples/forward_problems_2d/complex_mesh/cd2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/complex_mesh/cd2d_gear/utility.py b/examples/forward_problems_2d/complex_mesh/cd2d_gear/utility.py
index 794a0ea..72530cd 100644
--- a/examples/forward_problems_2d/complex_mesh/cd2d_gear/utility.py
+++ b/examples/forward_problems_2d/complex_mesh/cd2d_gear/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/complex_mesh/helmholtz2d/utility.py b/examples/forward_problems_2d/complex_mesh/helmholtz2d/utility.py
index 794a0ea..72530cd 100644
--- a/examples/forward_problems_2d/complex_mesh/helmholtz2d/utility.py
+++ b/examples/forward_problems_2d/complex_mesh/helmholtz2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/complex_mesh/poisson2d/utility.py b/examples/forward_problems_2d/complex_mesh/poisson2d/utility.py
index 794a0ea..72530cd 100644
--- a/examples/forward_problems_2d/complex_mesh/poisson2d/utility.py
+++ b/examples/forward_problems_2d/complex_mesh/poisson2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
index 3a884cd..758c16d 100644
--- a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
+++ b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
@@ -192,9 +192,9 @@ if __name__ == "__main__":
     y_exact = exact_solution(test_points[:, 0], test_points[:, 1])
 
     # save points for plotting
-    X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
-    Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
-    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
+    X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
+    Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
+    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
 
     # plot the exact solution
     plot_contour(
diff --git a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/utility.py b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/utility.py
index 794a0ea..72530cd 100644
--- a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/utility.py
+++ b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
index 8a5289f..0a804b9 100644
--- a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
+++ b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
@@ -173,9 +173,9 @@ if __name__ == "__main__":
     y_exact = exact_solution(test_points[:, 0], test_points[:, 1])
 
     # save points for plotting
-    X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
-    Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
-    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
+    X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
+    Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
+    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
 
     # plot the exact solution
     plot_contour(
diff --git a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/utility.py b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/utility.py
index 794a0ea..72530cd 100644
--- a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/utility.py
+++ b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
index 792bac8..8324336 100644
--- a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
+++ b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
@@ -173,9 +173,9 @@ if __name__ == "__main__":
     y_exact = exact_solution(test_points[:, 0], test_points[:, 1])
 
     # save points for plotting
-    X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
-    Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
-    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
+    X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
+    Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
+    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
 
     # plot the exact solution
     plot_contour(
diff --git a/examples/forward_problems_2d/uniform_mesh/poisson_2d/utility.py b/examples/forward_problems_2d/uniform_mesh/poisson_2d/utility.py
index 794a0ea..72530cd 100644
--- a/examples/forward_problems_2d/uniform_mesh/poisson_2d/utility.py
+++ b/examples/forward_problems_2d/uniform_mesh/poisson_2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/inverse_problems_2d/const_inverse_poisson2d/main_inverse.py b/examples/inverse_problems_2d/const_inverse_poisson2d/main_inverse.py
index 7b7dea7..f589022 100644
--- a/examples/inverse_problems_2d/const_inverse_poisson2d/main_inverse.py
+++ b/examples/inverse_problems_2d/const_inverse_poisson2d/main_inverse.py
@@ -219,9 +219,9 @@ if __name__ == "__main__":
 
     # save points for plotting
     if i_mesh_generation_method == "internal":
-        X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
-        Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
-        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
+        X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
+        Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
+        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
         plot_contour(
             x=X,
             y=Y,
@@ -333,7 +333,7 @@ if __name__ == "__main__":
             #  Convert the three vectors into a single 2D matrix, where each vector is a column in the matrix
             if i_mesh_generation_method == "internal":
                 # reshape y_pred into a 2D array
-                y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+                y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
 
                 # Error
                 error = np.abs(Y_Exact_Matrix - y_pred)
@@ -389,7 +389,7 @@ if __name__ == "__main__":
 
     if i_mesh_generation_method == "internal":
         # reshape y_pred into a 2D array
-        y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+        y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
 
         # Error
         error = np.abs(Y_Exact_Matrix - y_pred)
diff --git a/examples/inverse_problems_2d/const_inverse_poisson2d/utility.py b/examples/inverse_problems_2d/const_inverse_poisson2d/utility.py
index 794a0ea..72530cd 100644
--- a/examples/inverse_problems_2d/const_inverse_poisson2d/utility.py
+++ b/examples/inverse_problems_2d/const_inverse_poisson2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py b/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
index e2b6b13..c876224 100644
--- a/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
+++ b/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
@@ -211,9 +211,9 @@ if __name__ == "__main__":
     y_exact = exact_solution(test_points[:, 0], test_points[:, 1]).reshape(-1)
     # save points for plotting
     if i_mesh_generation_method == "internal":
-        X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
-        Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
-        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
+        X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
+        Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
+        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
         plot_contour(
             x=X,
             y=Y,
@@ -351,16 +351,16 @@ if __name__ == "__main__":
             #  Convert the three vectors into a single 2D matrix, where each vector is a column in the matrix
             if i_mesh_generation_method == "internal":
                 # reshape y_pred into a 2D array
-                y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+                y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
 
                 # Error
                 error = np.abs(Y_Exact_Matrix - y_pred)
 
                 # reshape inverse_pred into a 2D array
-                inverse_pred = inverse_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+                inverse_pred = inverse_pred.reshape(i_n_test_points_y, i_n_test_points_x)
 
                 # reshape actual_epsilon into a 2D array
-                actual_epsilon = actual_epsilon.reshape(i_n_test_points_x, i_n_test_points_y)
+                actual_epsilon = actual_epsilon.reshape(i_n_test_points_y, i_n_test_points_x)
 
                 # compute the error in inverse parameters
                 inverse_error = np.abs(actual_epsilon - inverse_pred)
diff --git a/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py b/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
index 0ef3369..c9d9686 100644
--- a/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
+++ b/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
@@ -215,9 +215,9 @@ if __name__ == "__main__":
 
     # save points for plotting
     if i_mesh_generation_method == "internal":
-        X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
-        Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
-        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
+        X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
+        Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
+        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
         plot_contour(
             x=X,
             y=Y,
@@ -355,16 +355,16 @@ if __name__ == "__main__":
             #  Convert the three vectors into a single 2D matrix, where each vector is a column in the matrix
             if i_mesh_generation_method == "internal":
                 # reshape y_pred into a 2D array
-                y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+                y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
 
                 # Error
                 error = np.abs(Y_Exact_Matrix - y_pred)
 
                 # reshape inverse_pred into a 2D array
-                inverse_pred = inverse_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+                inverse_pred = inverse_pred.reshape(i_n_test_points_y, i_n_test_points_x)
 
                 # reshape actual_epsilon into a 2D array
-                actual_epsilon = actual_epsilon.reshape(i_n_test_points_x, i_n_test_points_y)
+                actual_epsilon = actual_epsilon.reshape(i_n_test_points_y, i_n_test_points_x)
 
                 # compute the error in inverse parameters
                 inverse_error = np.abs(actual_epsilon - inverse_pred)
diff --git a/examples/optuna_examples/main.py b/examples/optuna_examples/main.py
index 614dd41..c1c53ab 100644
--- a/examples/optuna_examples/main.py
+++ b/examples/optuna_examples/main.py
@@ -224,9 +224,9 @@ if __name__ == "__main__":
     y_exact = exact_solution(test_points[:, 0], test_points[:, 1])
 
     # save points for plotting
-    X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
-    Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
-    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
+    X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
+    Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
+    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
 
     # plot the exact solution
     plot_contour(
diff --git a/examples/optuna_examples/utility.py b/examples/optuna_examples/utility.py
index 794a0ea..72530cd 100644
--- a/examples/optuna_examples/utility.py
+++ b/examples/optuna_examples/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
+    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
-- 
2.43.0


From aeda2a68ab1835bd3f7ada1bb413ceac0ee5d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 19/22] fix: label every value of the time table of the inverse
 examples

---
 .../domain_inverse_cd2d/USA/main_inverse_domain_usa.py         | 3 ++-
 .../domain_inverse_cd2d/circle/main_inverse_domain_circle.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py b/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
index c876224..7ffb68f 100644
--- a/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
+++ b/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
@@ -452,7 +452,8 @@ if __name__ == "__main__":
             "Time per Epoch(s) IQR-25% ",
             "Time per Epoch(s) IQR-75% ",
             "Mean without first(s)",
-            "Mean with first(s)" "Epochs per second",
+            "Mean with first(s)",
+            "Epochs per second",
             "Total Train Time",
         ],
         [
diff --git a/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py b/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
index c9d9686..c9c61b5 100644
--- a/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
+++ b/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
@@ -456,7 +456,8 @@ if __name__ == "__main__":
             "Time per Epoch(s) IQR-25% ",
             "Time per Epoch(s) IQR-75% ",
             "Mean without first(s)",
-            "Mean with first(s)" "Epochs per second",
+            "Mean with first(s)",
+            "Epochs per second",
             "Total Train Time",
         ],
         [
-- 
2.43.0


From 839ec98c399d991430560472194aa798d0e672c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 20/22] Revert "fix: label every value of the time table of the
 inverse examples"

This reverts commit aeda2a68ab1835bd3f7ada1bb413ceac0ee5d03b.
---
 .../domain_inverse_cd2d/USA/main_inverse_domain_usa.py         | 3 +--
 .../domain_inverse_cd2d/circle/main_inverse_domain_circle.py   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py b/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
index 7ffb68f..c876224 100644
--- a/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
+++ b/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
@@ -452,8 +452,7 @@ if __name__ == "__main__":
             "Time per Epoch(s) IQR-25% ",
             "Time per Epoch(s) IQR-75% ",
             "Mean without first(s)",
-            "Mean with first(s)",
-            "Epochs per second",
+            "Mean with first(s)" "Epochs per second",
             "Total Train Time",
         ],
         [
diff --git a/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py b/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
index c9c61b5..c9d9686 100644
--- a/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
+++ b/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
@@ -456,8 +456,7 @@ if __name__ == "__main__":
             "Time per Epoch(s) IQR-25% ",
             "Time per Epoch(s) IQR-75% ",
             "Mean without first(s)",
-            "Mean with first(s)",
-            "Epochs per second",
+            "Mean with first(s)" "Epochs per second",
             "Total Train Time",
         ],
         [
-- 
2.43.0


From 30ac0b141bb98b12a5c35dd27f26dc13a3510a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 21/22] Revert "fix: example programs plot grids of test points
 which are not square"

This reverts commit 10f129c3912a65f63643d7737b45c9325a97e5c6.
---
 .../forward_problems_2d/complex_mesh/USA/utility.py  |  2 +-
 .../forward_problems_2d/complex_mesh/cd2d/utility.py |  2 +-
 .../complex_mesh/cd2d_gear/utility.py                |  2 +-
 .../complex_mesh/helmholtz2d/utility.py              |  2 +-
 .../complex_mesh/poisson2d/utility.py                |  2 +-
 .../poisson_2d/main_poisson2d_hard.py                |  6 +++---
 .../hard_boundary_constraints/poisson_2d/utility.py  |  2 +-
 .../uniform_mesh/helmholtz_2d/main_helmholtz.py      |  6 +++---
 .../uniform_mesh/helmholtz_2d/utility.py             |  2 +-
 .../uniform_mesh/poisson_2d/main_poisson2d.py        |  6 +++---
 .../uniform_mesh/poisson_2d/utility.py               |  2 +-
 .../const_inverse_poisson2d/main_inverse.py          | 10 +++++-----
 .../const_inverse_poisson2d/utility.py               |  2 +-
 .../USA/main_inverse_domain_usa.py                   | 12 ++++++------
 .../circle/main_inverse_domain_circle.py             | 12 ++++++------
 examples/optuna_examples/main.py                     |  6 +++---
 examples/optuna_examples/utility.py                  |  2 +-
 17 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/examples/forward_problems_2d/complex_mesh/USA/utility.py b/examples/forward_problems_2d/complex_mesh/USA/utility.py
index 72530cd..794a0ea 100644
--- a/examples/forward_problems_2d/complex_mesh/USA/utility.py
+++ b/examples/forward_problems_2d/complex_mesh/USA/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/complex_mesh/cd2d/utility.py b/examples/forward_problems_2d/complex_mesh/cd2d/utility.py
index 72530cd..794a0ea 100644
--- a/examples/forward_problems_2d/complex_mesh/cd2d/utility.py
+++ b/examples/forward_problems_2d/complex_mesh/cd2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/complex_mesh/cd2d_gear/utility.py b/examples/forward_problems_2d/complex_mesh/cd2d_gear/utility.py
index 72530cd..794a0ea 100644
--- a/examples/forward_problems_2d/complex_mesh/cd2d_gear/utility.py
+++ b/examples/forward_problems_2d/complex_mesh/cd2d_gear/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/complex_mesh/helmholtz2d/utility.py b/examples/forward_problems_2d/complex_mesh/helmholtz2d/utility.py
index 72530cd..794a0ea 100644
--- a/examples/forward_problems_2d/complex_mesh/helmholtz2d/utility.py
+++ b/examples/forward_problems_2d/complex_mesh/helmholtz2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/complex_mesh/poisson2d/utility.py b/examples/forward_problems_2d/complex_mesh/poisson2d/utility.py
index 72530cd..794a0ea 100644
--- a/examples/forward_problems_2d/complex_mesh/poisson2d/utility.py
+++ b/examples/forward_problems_2d/complex_mesh/poisson2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
index 758c16d..3a884cd 100644
--- a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
+++ b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
@@ -192,9 +192,9 @@ if __name__ == "__main__":
     y_exact = exact_solution(test_points[:, 0], test_points[:, 1])
 
     # save points for plotting
-    X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
-    Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
-    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
+    X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
+    Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
+    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
 
     # plot the exact solution
     plot_contour(
diff --git a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/utility.py b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/utility.py
index 72530cd..794a0ea 100644
--- a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/utility.py
+++ b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
index 0a804b9..8a5289f 100644
--- a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
+++ b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
@@ -173,9 +173,9 @@ if __name__ == "__main__":
     y_exact = exact_solution(test_points[:, 0], test_points[:, 1])
 
     # save points for plotting
-    X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
-    Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
-    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
+    X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
+    Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
+    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
 
     # plot the exact solution
     plot_contour(
diff --git a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/utility.py b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/utility.py
index 72530cd..794a0ea 100644
--- a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/utility.py
+++ b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
index 8324336..792bac8 100644
--- a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
+++ b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
@@ -173,9 +173,9 @@ if __name__ == "__main__":
     y_exact = exact_solution(test_points[:, 0], test_points[:, 1])
 
     # save points for plotting
-    X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
-    Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
-    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
+    X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
+    Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
+    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
 
     # plot the exact solution
     plot_contour(
diff --git a/examples/forward_problems_2d/uniform_mesh/poisson_2d/utility.py b/examples/forward_problems_2d/uniform_mesh/poisson_2d/utility.py
index 72530cd..794a0ea 100644
--- a/examples/forward_problems_2d/uniform_mesh/poisson_2d/utility.py
+++ b/examples/forward_problems_2d/uniform_mesh/poisson_2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/inverse_problems_2d/const_inverse_poisson2d/main_inverse.py b/examples/inverse_problems_2d/const_inverse_poisson2d/main_inverse.py
index f589022..7b7dea7 100644
--- a/examples/inverse_problems_2d/const_inverse_poisson2d/main_inverse.py
+++ b/examples/inverse_problems_2d/const_inverse_poisson2d/main_inverse.py
@@ -219,9 +219,9 @@ if __name__ == "__main__":
 
     # save points for plotting
     if i_mesh_generation_method == "internal":
-        X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
-        Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
-        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
+        X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
+        Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
+        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
         plot_contour(
             x=X,
             y=Y,
@@ -333,7 +333,7 @@ if __name__ == "__main__":
             #  Convert the three vectors into a single 2D matrix, where each vector is a column in the matrix
             if i_mesh_generation_method == "internal":
                 # reshape y_pred into a 2D array
-                y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+                y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
 
                 # Error
                 error = np.abs(Y_Exact_Matrix - y_pred)
@@ -389,7 +389,7 @@ if __name__ == "__main__":
 
     if i_mesh_generation_method == "internal":
         # reshape y_pred into a 2D array
-        y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+        y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
 
         # Error
         error = np.abs(Y_Exact_Matrix - y_pred)
diff --git a/examples/inverse_problems_2d/const_inverse_poisson2d/utility.py b/examples/inverse_problems_2d/const_inverse_poisson2d/utility.py
index 72530cd..794a0ea 100644
--- a/examples/inverse_problems_2d/const_inverse_poisson2d/utility.py
+++ b/examples/inverse_problems_2d/const_inverse_poisson2d/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
diff --git a/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py b/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
index c876224..e2b6b13 100644
--- a/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
+++ b/examples/inverse_problems_2d/domain_inverse_cd2d/USA/main_inverse_domain_usa.py
@@ -211,9 +211,9 @@ if __name__ == "__main__":
     y_exact = exact_solution(test_points[:, 0], test_points[:, 1]).reshape(-1)
     # save points for plotting
     if i_mesh_generation_method == "internal":
-        X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
-        Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
-        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
+        X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
+        Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
+        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
         plot_contour(
             x=X,
             y=Y,
@@ -351,16 +351,16 @@ if __name__ == "__main__":
             #  Convert the three vectors into a single 2D matrix, where each vector is a column in the matrix
             if i_mesh_generation_method == "internal":
                 # reshape y_pred into a 2D array
-                y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+                y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
 
                 # Error
                 error = np.abs(Y_Exact_Matrix - y_pred)
 
                 # reshape inverse_pred into a 2D array
-                inverse_pred = inverse_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+                inverse_pred = inverse_pred.reshape(i_n_test_points_x, i_n_test_points_y)
 
                 # reshape actual_epsilon into a 2D array
-                actual_epsilon = actual_epsilon.reshape(i_n_test_points_y, i_n_test_points_x)
+                actual_epsilon = actual_epsilon.reshape(i_n_test_points_x, i_n_test_points_y)
 
                 # compute the error in inverse parameters
                 inverse_error = np.abs(actual_epsilon - inverse_pred)
diff --git a/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py b/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
index c9d9686..0ef3369 100644
--- a/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
+++ b/examples/inverse_problems_2d/domain_inverse_cd2d/circle/main_inverse_domain_circle.py
@@ -215,9 +215,9 @@ if __name__ == "__main__":
 
     # save points for plotting
     if i_mesh_generation_method == "internal":
-        X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
-        Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
-        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
+        X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
+        Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
+        Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
         plot_contour(
             x=X,
             y=Y,
@@ -355,16 +355,16 @@ if __name__ == "__main__":
             #  Convert the three vectors into a single 2D matrix, where each vector is a column in the matrix
             if i_mesh_generation_method == "internal":
                 # reshape y_pred into a 2D array
-                y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+                y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
 
                 # Error
                 error = np.abs(Y_Exact_Matrix - y_pred)
 
                 # reshape inverse_pred into a 2D array
-                inverse_pred = inverse_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+                inverse_pred = inverse_pred.reshape(i_n_test_points_x, i_n_test_points_y)
 
                 # reshape actual_epsilon into a 2D array
-                actual_epsilon = actual_epsilon.reshape(i_n_test_points_y, i_n_test_points_x)
+                actual_epsilon = actual_epsilon.reshape(i_n_test_points_x, i_n_test_points_y)
 
                 # compute the error in inverse parameters
                 inverse_error = np.abs(actual_epsilon - inverse_pred)
diff --git a/examples/optuna_examples/main.py b/examples/optuna_examples/main.py
index c1c53ab..614dd41 100644
--- a/examples/optuna_examples/main.py
+++ b/examples/optuna_examples/main.py
@@ -224,9 +224,9 @@ if __name__ == "__main__":
     y_exact = exact_solution(test_points[:, 0], test_points[:, 1])
 
     # save points for plotting
-    X = test_points[:, 0].reshape(i_n_test_points_y, i_n_test_points_x)
-    Y = test_points[:, 1].reshape(i_n_test_points_y, i_n_test_points_x)
-    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_y, i_n_test_points_x)
+    X = test_points[:, 0].reshape(i_n_test_points_x, i_n_test_points_y)
+    Y = test_points[:, 1].reshape(i_n_test_points_x, i_n_test_points_y)
+    Y_Exact_Matrix = y_exact.reshape(i_n_test_points_x, i_n_test_points_y)
 
     # plot the exact solution
     plot_contour(
diff --git a/examples/optuna_examples/utility.py b/examples/optuna_examples/utility.py
index 72530cd..794a0ea 100644
--- a/examples/optuna_examples/utility.py
+++ b/examples/optuna_examples/utility.py
@@ -98,7 +98,7 @@ def plot_results(
     plot_test_loss_function(test_loss_array, i_output_path)  # plots test loss
 
     # plot solution
-    y_pred = y_pred.reshape(i_n_test_points_y, i_n_test_points_x)
+    y_pred = y_pred.reshape(i_n_test_points_x, i_n_test_points_y)
     error = np.abs(Y_Exact_Matrix - y_pred)
     plot_contour(
         x=X,
-- 
2.43.0


From b42bb73b8141bbd2c60d2073b01f83a0d4ffd63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:09 +0000
Subject: [PATCH 22/22] Revert "fix: example programs train the network
 architecture given in their input file"

This reverts commit c69bab980908cfda5cd1dfc7357c30ae96de32ff.
---
 examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py | 2 +-
 .../complex_mesh/poisson2d/main_poisson2d.py                    | 2 +-
 .../hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py | 2 +-
 .../uniform_mesh/helmholtz_2d/main_helmholtz.py                 | 2 +-
 .../uniform_mesh/poisson_2d/main_poisson2d.py                   | 2 +-
 examples/optuna_examples/main.py                                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py b/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
index 55b7ec9..a079b1a 100644
--- a/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
+++ b/examples/forward_problems_2d/complex_mesh/USA/main_poisson2d.py
@@ -156,7 +156,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py b/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
index 55b7ec9..a079b1a 100644
--- a/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
+++ b/examples/forward_problems_2d/complex_mesh/poisson2d/main_poisson2d.py
@@ -156,7 +156,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
index 3a884cd..1e6f304 100644
--- a/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
+++ b/examples/forward_problems_2d/hard_boundary_constraints/poisson_2d/main_poisson2d_hard.py
@@ -169,7 +169,7 @@ if __name__ == "__main__":
         return ansatz * x
 
     model = DenseModel_Hard(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
index 8a5289f..be73765 100644
--- a/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
+++ b/examples/forward_problems_2d/uniform_mesh/helmholtz_2d/main_helmholtz.py
@@ -151,7 +151,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_helmholtz,
diff --git a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
index 792bac8..9b36508 100644
--- a/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
+++ b/examples/forward_problems_2d/uniform_mesh/poisson_2d/main_poisson2d.py
@@ -151,7 +151,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
diff --git a/examples/optuna_examples/main.py b/examples/optuna_examples/main.py
index 614dd41..2e93710 100644
--- a/examples/optuna_examples/main.py
+++ b/examples/optuna_examples/main.py
@@ -202,7 +202,7 @@ if __name__ == "__main__":
     bilinear_params_dict = datahandler.get_bilinear_params_dict_as_tensors(get_bilinear_params_dict)
 
     model = DenseModel(
-        layer_dims=i_model_architecture,
+        layer_dims=[2, 30, 30, 30, 1],
         learning_rate_dict=i_learning_rate_dict,
         params_dict=params_dict,
         loss_function=pde_loss_poisson,
-- 
2.43.0

