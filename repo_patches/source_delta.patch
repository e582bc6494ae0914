From 0b723dd99146b486cb25cb3093d9cf200056871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 01/47] fix: keep negative Fourier components of patterned
 layers

The small-value cut-off compared signed components with 1e-14, so every
Fourier coefficient of the permittivity with negative real and non-positive
imaginary part was dropped and the solver lost energy conservation.
---
 nidn/trcwa/utils/fft_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index df91d0b..9f8482e 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -32,7 +32,7 @@ def Epsilon_fft(dN, eps_grid, G):
     # Set very small components to zero for torch
     for i in range(eps2.shape[0]):
         for j in range(eps2.shape[1]):
-            if eps2[i][j].real < 1e-14 and eps2[i][j].imag < 1e-14:
+            if eps2[i][j].real.abs() < 1e-14 and eps2[i][j].imag.abs() < 1e-14:
                 eps2[i][j] = 0 + 0j
 
     return epsinv, eps2
-- 
2.43.0


From 3f92046e75c1a1174374c2f53d25ddded2f25a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 02/47] fix: read patterned eps grids with Nx=1 or Nx=3
 correctly

With Nx=3 the grid tensor was mistaken for a list of three anisotropic
components, with Nx=1 and Ny>1 the x dimension was squeezed away.
---
 nidn/trcwa/init_trcwa.py | 5 +++--
 nidn/trcwa/trcwa.py      | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/nidn/trcwa/init_trcwa.py b/nidn/trcwa/init_trcwa.py
index 5a56ddb..fbf38a4 100644
--- a/nidn/trcwa/init_trcwa.py
+++ b/nidn/trcwa/init_trcwa.py
@@ -20,8 +20,9 @@ def _init_trcwa(eps_grid, target_frequency, run_cfg):
     Nx, Ny, N_layers = eps_grid.shape[0:3]
 
     # Squeeze out Nx=1, Ny=1 dimension (for uniform layer)
-    eps_grid = eps_grid.squeeze(0)  # squeeze X
-    eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
+    if Nx == 1 and Ny == 1:
+        eps_grid = eps_grid.squeeze(0)  # squeeze X
+        eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
 
     # Adding a small imaginary part to the frequency to avoid singularities in RCWA
     # See page 2 of arxiv.org/pdf/2005.04840v1.pdf
diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 3b25b61..894c0d5 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -227,7 +227,11 @@ class TRCWA:
             Ny = self.GridLayer_Nxy_list[ptri][1]
             dN = 1.0 / Nx / Ny
 
-            if len(ep_all) == 3 and ep_all[0].ndim > 0:
+            if (
+                not torch.is_tensor(ep_all)
+                and len(ep_all) == 3
+                and ep_all[0].ndim > 0
+            ):
                 ep_grid = [
                     torch.reshape(ep_all[0][ptr : ptr + Nx * Ny], [Nx, Ny]),
                     torch.reshape(ep_all[1][ptr : ptr + Nx * Ny], [Nx, Ny]),
-- 
2.43.0


From dd724c61a3581a545e5d2418434362526ebf2cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 03/47] fix: keep the zeroth order for TRCWA_NG=1

The circular truncation returned no order at all.
---
 nidn/trcwa/utils/kbloch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index fc7f0dd..4822452 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -135,7 +135,8 @@ def Gsel_circular(nG, Lk1, Lk2):
     for i in range(nGtmp - 1, -1, -1):
         if torch.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-    nG = i
+    # always keep the zeroth order
+    nG = max(i, 1)
 
     # final G
     G = torch.zeros((nG, 2), dtype=int)
-- 
2.43.0


From d63c0e6616b2a4b9c5ef687ed35c4b27148f705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 04/47] fix: renormalize R and T in the loss by the same sum

T was divided by the sum with the already renormalized R, so R+T did not
become 1.
---
 nidn/training/losses/spectrum_loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/training/losses/spectrum_loss.py b/nidn/training/losses/spectrum_loss.py
index 8f36ded..3dff3d8 100644
--- a/nidn/training/losses/spectrum_loss.py
+++ b/nidn/training/losses/spectrum_loss.py
@@ -47,8 +47,9 @@ def _spectrum_loss_fn(
             logger.warning(
                 f"R+T>1 for freq={freq:.4f}. Renormalizing this point in the loss..."
             )
-            prod_R = prod_R / (prod_R + prod_T)
-            prod_T = prod_T / (prod_R + prod_T)
+            prod_sum = prod_R + prod_T
+            prod_R = prod_R / prod_sum
+            prod_T = prod_T / prod_sum
             renormalized = True
 
         # Accumulate losses
-- 
2.43.0


From 48f84edfc90699bcc88e92a5cb5db0417e76c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 05/47] fix: return the best physical model from training

Iterations with renormalized (R+T>1) spectra raised the bar without being
stored, so the best physical model could be lost; and the initial best state
was an alias of the live parameters, so recovering from a ValueError before
the first improvement reloaded nothing.
---
 nidn/training/run_training.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index c746fbc..92cc9cf 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -94,8 +94,9 @@ def run_training(
     weighted_average = deque([], maxlen=20)
 
     # And store the best results
-    best_loss = np.inf
-    run_cfg.best_model_state_dict = run_cfg.model.state_dict()
+    # (renormalized, loss) so that unphysical results never beat physical ones
+    best = (True, np.inf)
+    run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
     logger.trace("Starting training...")
     # Training Loop
@@ -155,14 +156,13 @@ def run_training(
             )
         # We store the model if it has the lowest loss yet
         # (this is to avoid losing good results during a run that goes wild)
-        if loss < best_loss:
-            best_loss = loss
+        if (renormalized, loss.item()) < best:
+            best = (renormalized, loss.item())
             logger.info(
                 f"###  New Best={loss.item():<6.4f} with SpectrumLoss={spectrum_loss:<6.4f} ### L1={L1err.detach().item():.4f}"
             )
-            if not renormalized:
-                logger.debug("Saving model state...")
-                run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
+            logger.debug("Saving model state...")
+            run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
         # Update the loss trend indicators
         weighted_average.append(loss.item())
-- 
2.43.0


From 58cb94e4c842d9df1a6bd43b8c94163daca74c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 06/47] fix: keep the frequency dimension of the materials for
 N_freq=1

squeeze() also dropped the frequency (or a single material's) dimension.
---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 3054c26..5991026 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -79,7 +79,7 @@ class MaterialCollection:
 
         # Create a single tensor of all materials
         logger.trace("Creating material tensor")
-        self.epsilon_matrix = torch.stack(eps_list).squeeze()  # .cuda()
+        self.epsilon_matrix = torch.stack(eps_list).squeeze(-1)  # .cuda()
         self.N_materials = len(self.material_names)
 
     def _load_material_data(self, name):
-- 
2.43.0


From c24fada41436b1a2fdb63c06d95a793828d541ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 07/47] fix: map the network output onto the whole imaginary
 eps range

The offset imag_min_eps was missing, so for imag_min_eps != 0 part of the
allowed range could not be reached.
---
 nidn/training/model/model_to_eps_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 85da34a..0804ead 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -195,7 +195,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
         # second half imaginary
         eps.imag = out[:, :, :, run_cfg.N_freq :]
-        eps.imag = (eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)).clip(
+        eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
+        eps.imag = (eps.imag + run_cfg.imag_min_eps).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
         )
 
-- 
2.43.0


From dbf7fc1b4807144963287f41b9a056239166c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 08/47] fix: apply avoid_zero_eps to voxel models and after
 adding noise

Both could still return epsilon values (close to) zero.
---
 nidn/training/model/model_to_eps_grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 0804ead..e8e9b04 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -190,9 +190,6 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
             run_cfg.real_min_eps, run_cfg.real_max_eps
         )
 
-        if run_cfg.avoid_zero_eps:
-            _avoid_zero_eps(eps)
-
         # second half imaginary
         eps.imag = out[:, :, :, run_cfg.N_freq :]
         eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
@@ -217,6 +214,9 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
         eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
 
+    if run_cfg.avoid_zero_eps:
+        _avoid_zero_eps(eps)
+
     return eps
 
 
-- 
2.43.0


From efb839874485fc20736840b9050c7fb0d58e97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 09/47] fix: ricker signal of the FDTD point source

A typo left the source value undefined.
---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index 6713223..df9ea76 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -112,7 +112,7 @@ class PointSource:
             # By experimental value, the ricker wavelet signal converges to zero after 6 times the grid points per wavelength, so just set the source-signal to zero after this
             t1 = self.grid_points_per_wavelength * 6
             if q < t1:
-                vsrcect = self.amplitude * _ricker(
+                src = self.amplitude * _ricker(
                     q, self.grid_points_per_wavelength, 1, self.courant
                 )
             else:
-- 
2.43.0


From ec4f6f644ba5d05eb2eefaee26d5b57507f1a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 10/47] fix: NERF models with 3 or 4 hidden layers

The skip connection was fed into the output layer or returned.
---
 nidn/training/utils/nerf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/utils/nerf.py b/nidn/training/utils/nerf.py
index 0f5ab59..323c536 100644
--- a/nidn/training/utils/nerf.py
+++ b/nidn/training/utils/nerf.py
@@ -56,7 +56,8 @@ class NERF(nn.Module):
         # compute all other layers and apply skip where requested
         for layer_idx in range(1, len(self.net)):
             out = self.net[layer_idx].forward(out)
-            if layer_idx in self.skip:
+            # only hidden layers consume the skip connection, not the output layer
+            if layer_idx in self.skip and layer_idx < len(self.net) - 2:
                 out = torch.cat([out, identity], dim=1)
 
         return out
-- 
2.43.0


From 3a37284f7a2e07ee8821793d786cf3c8ae5c8b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 11/47] fix: print_cfg for values without a format
 specification

Models, state dicts and None raised a TypeError (and booleans were printed
as integers).
---
 nidn/utils/print_cfg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nidn/utils/print_cfg.py b/nidn/utils/print_cfg.py
index ac040b7..b9d05a4 100644
--- a/nidn/utils/print_cfg.py
+++ b/nidn/utils/print_cfg.py
@@ -21,8 +21,8 @@ def print_cfg(cfg: DotMap):
             print()
         else:
             if idx % 3 == 2:
-                print(f"{key:<23}: {value:<15}|")
+                print(f"{key:<23}: {str(value):<15}|")
             else:
-                print(f"{key:<23}: {value:<15}|", end="")
+                print(f"{key:<23}: {str(value):<15}|", end="")
         idx += 1
     print()
-- 
2.43.0


From c9bbe43e0849959de1871ab5c8bc0f0f69295c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 12/47] fix: do not overwrite a run saved within the same
 second

---
 nidn/training/save_run.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nidn/training/save_run.py b/nidn/training/save_run.py
index 8c6a74b..bb684c1 100644
--- a/nidn/training/save_run.py
+++ b/nidn/training/save_run.py
@@ -20,7 +20,13 @@ def save_run(run_cfg, subfolder=""):
     # Create subfolder if it does not exist
     Path("../results/" + subfolder + "/").mkdir(parents=True, exist_ok=True)
 
-    filename = "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string + "_run.pk"
+    base = "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string
+    filename = base + "_run.pk"
+    # Never overwrite a run saved within the same second
+    counter = 1
+    while Path(filename).exists():
+        filename = base + "_" + str(counter) + "_run.pk"
+        counter += 1
 
     logger.info("Saving run to file: {}".format(filename))
     with open(filename, "wb") as handle:
-- 
2.43.0


From 181f72f31c8cc2bb4a5ed8b5e4f5a2e236d4afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 13/47] fix: plot_model_grid_per_freq for fewer than four
 frequencies

---
 nidn/plots/plot_model_grid_per_freq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nidn/plots/plot_model_grid_per_freq.py b/nidn/plots/plot_model_grid_per_freq.py
index 41041b2..a131a6b 100644
--- a/nidn/plots/plot_model_grid_per_freq.py
+++ b/nidn/plots/plot_model_grid_per_freq.py
@@ -5,17 +5,19 @@ from ..utils.convert_units import freq_to_wl
 from ..training.model.model_to_eps_grid import model_to_eps_grid
 
 
-def plot_model_grid_per_freq(run_cfg, freq_idx=[0, 1, 2, 3], save_path=None):
+def plot_model_grid_per_freq(run_cfg, freq_idx=None, save_path=None):
     """Plots the real and imaginary part of the permittivity in two separate plots for
     frequencies in target_frequencies defined by freq_idx. Optionally saves it.
 
     Args:
         run_cfg (dict): The run configuration.
-        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to [0, 1, 2, 3].
+        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to None, then the (up to) four first ones are plotted.
         save_path (str, optional): Folder to save the plot in. Defaults to None, then the plot will not be saved.
     """
     Nx, Ny, N_layers = run_cfg.Nx, run_cfg.Ny, run_cfg.N_layers
     eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
+    if freq_idx is None:
+        freq_idx = list(range(min(4, run_cfg.N_freq)))
 
     x = torch.linspace(-1, 1, Nx)
     y = torch.linspace(-1, 1, Ny)
-- 
2.43.0


From 655a79ca7c83544010e057e199d713381cbec08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 14/47] fix: FDTD signals of exactly two windows

They leave a single chunk after merging, and no change between chunks to
take the maximum of.
---
 .../calculate_transmission_reflection_coefficients.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
index 723e9d3..db1cdb1 100644
--- a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
+++ b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
@@ -309,7 +309,7 @@ def _eliminate_transient_part(signal, wavelength, cfg, is_freespace=False, plot=
 
     # Check signal is still long enough
     signal_length = len(signal)
-    if signal_length < 2 * window_size:
+    if signal_length <= 2 * window_size:
         logger.error(
             "FDTD Signal is too short to compute R,T,A. Please increase FDTD_niter in the config. Aborting transient removal."
         )
-- 
2.43.0


From bed0ad4be4708028b066c55fc99ffbd882fe56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 15/47] fix: reject negative thicknesses, source positions and
 target spectra

all(list) > 0 compares a bool with 0 and never noticed negative entries.
(The entries of TRCWA_L_grid, which may be zero, are checked separately.)
---
 nidn/utils/validate_config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index de54dc8..3abc538 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -153,7 +153,6 @@ def _check_value_ranges(cfg: DotMap):
         raise RuntimeError(f"TRCWA_L_grid dim0 must be ordered from high to low")
 
     all_positive_list_keys = [
-        "TRCWA_L_grid",
         "PER_LAYER_THICKNESS",
         "FDTD_grid",
         "FDTD_source_position",
@@ -164,10 +163,10 @@ def _check_value_ranges(cfg: DotMap):
     ]
 
     for key in all_positive_list_keys:
-        if key in cfg.keys() and not (all(cfg[key]) > 0.0):
+        if key in cfg.keys() and not all(val > 0.0 for val in cfg[key]):
             raise RuntimeError(f"All elements in {key} must be a positive integer")
     for key in all_positive_or_zero_list_keys:
-        if not (all(cfg[key]) >= 0.0):
+        if not all(val >= 0.0 for val in cfg[key]):
             raise RuntimeError(
                 f"All elements in {key} must be a positive integer or zero"
             )
-- 
2.43.0


From b46abbc2e8b8699acd94ca600bd96061c6c3e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 16/47] fix: reject unknown solvers

compute_spectrum silently returned None.
---
 nidn/utils/compute_spectrum.py | 2 ++
 nidn/utils/validate_config.py  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/nidn/utils/compute_spectrum.py b/nidn/utils/compute_spectrum.py
index 8b339bd..c3de9de 100644
--- a/nidn/utils/compute_spectrum.py
+++ b/nidn/utils/compute_spectrum.py
@@ -25,3 +25,5 @@ def compute_spectrum(eps_grid, cfg, validate_cfg=True):
     elif cfg.solver == "TRCWA":
         logger.debug("Using TRCWA solver to find spectrum")
         return compute_spectrum_trcwa(eps_grid, cfg)
+    else:
+        raise RuntimeError(f"solver must be either 'FDTD' or 'TRCWA'")
diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index 3abc538..b8835cd 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -188,6 +188,9 @@ def _check_value_ranges(cfg: DotMap):
     ):
         raise RuntimeError(f"PER_LAYER_THICKNESS must have length 1 or N_layers")
 
+    if not cfg.solver in ["FDTD", "TRCWA"]:
+        raise RuntimeError(f"solver must be either 'FDTD' or 'TRCWA'")
+
     if not (cfg.freq_distribution == "linear" or cfg.freq_distribution == "log"):
         raise RuntimeError(f"freq_distribution must be either 'linear' or 'log'")
 
-- 
2.43.0


From e3513abdb406567e288597ccdf81c68ddf79d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 17/47] fix: reject non-positive wavelengths

---
 nidn/utils/validate_config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index b8835cd..6e45983 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -110,6 +110,9 @@ def _check_value_ranges(cfg: DotMap):
     if not (cfg.imag_min_eps <= cfg.imag_max_eps):
         raise RuntimeError(f"imag_min_eps must be less than or equal to imag_max_eps")
 
+    if not (cfg.physical_wavelength_range[0] > 0):
+        raise RuntimeError(f"physical_wavelength_range must be positive")
+
     if not (cfg.physical_wavelength_range[0] < cfg.physical_wavelength_range[1]):
         raise RuntimeError(
             f"physical_wavelength_range must be ordered from low to high"
-- 
2.43.0


From 9dbe6f3487adce6cf2da58345adf90dcfa1c2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 18/47] fix: place FDTD point sources inside the y-periodic
 grid

The default source position lies outside of the three cells in y-direction,
which raised an IndexError for FDTD_source_type = "point".
---
 nidn/fdtd_integration/init_fdtd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/init_fdtd.py b/nidn/fdtd_integration/init_fdtd.py
index ef4ab8f..7a033a6 100644
--- a/nidn/fdtd_integration/init_fdtd.py
+++ b/nidn/fdtd_integration/init_fdtd.py
@@ -79,7 +79,8 @@ def init_fdtd(cfg: DotMap, include_object, wavelength, permittivity):
     )
 
     source_x = (cfg.FDTD_source_position[0] * cfg.FDTD_grid_scaling).int()
-    source_y = (cfg.FDTD_source_position[1] * cfg.FDTD_grid_scaling).int()
+    # The grid is periodic in y-direction
+    source_y = (cfg.FDTD_source_position[1] * cfg.FDTD_grid_scaling).int() % y_grid_size
 
     logger.trace(
         "Placing source at "
-- 
2.43.0


From bd96b369db546ecae3e75c562cebafe47529acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:54 +0000
Subject: [PATCH 19/47] fix: reject NaN permittivities in the FDTD solver

A NaN in the imaginary part alone went through the simulation and made the
loss and then all model parameters NaN. As in the TRCWA solver, a ValueError
is raised now, which training handles by going back to the best model.
---
 nidn/fdtd_integration/compute_spectrum_fdtd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nidn/fdtd_integration/compute_spectrum_fdtd.py b/nidn/fdtd_integration/compute_spectrum_fdtd.py
index 772ed26..851a99d 100644
--- a/nidn/fdtd_integration/compute_spectrum_fdtd.py
+++ b/nidn/fdtd_integration/compute_spectrum_fdtd.py
@@ -22,9 +22,16 @@ def compute_spectrum_fdtd(permittivity, cfg: DotMap):
         permitivity (torch.tensor): Array of permittivity for each layer
         cfg (DotMap): Configurations needed to perform the simulations
 
+    Raises:
+        ValueError: Raises an error if the permittivity contains NaN values
+
     Returns:
         tuple[array, array]: Transmission spectrum and reflection spectrum
     """
+    # Check for NaNs in permittivity
+    if torch.any(torch.isnan(permittivity)):
+        raise ValueError("Model output became NaN...", permittivity)
+
     transmission_spectrum = []
     reflection_spectrum = []
     physical_wavelengths, _ = get_frequency_points(cfg)
-- 
2.43.0


From 22b1fb51ed0cdb28294e916bc8e8b2189aecbb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:54 +0000
Subject: [PATCH 20/47] fix: report too few FDTD time steps in training

The ValueError for a signal that never reaches the detector was taken for a
NaN failure in run_training, which then silently skipped every iteration.
---
 .../calculate_transmission_reflection_coefficients.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
index db1cdb1..d3519a6 100644
--- a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
+++ b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
@@ -105,7 +105,8 @@ def _mean_square(tensor):
 
 def _check_for_all_zero_signal(signals):
     if _mean_square(signals[0]) <= 1e-15:
-        raise ValueError(
+        # No ValueError, as those are caught in training to avoid NaNs crashing the training
+        raise RuntimeError(
             "The free-space signal is all zero. Increase the number of FDTD_niter to ensure that the signal reaches the detector."
         )
 
-- 
2.43.0


From 08b10486d80e473612a630e3f84aabed3e88eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:00 +0000
Subject: [PATCH 21/47] fix: use the network output at each frequency for that
 frequency's eps

The (real, imag) outputs of the network were flattened together with the
frequencies, so that the first half of the frequencies determined all real
and the second half all imaginary parts.
---
 nidn/training/model/model_to_eps_grid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index e8e9b04..a84a979 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -163,9 +163,9 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
     else:
 
         # Reshape the output to have a 4D tensor again
-        # Note we ouput real and imaginary parts separatly, hence 2*N_freq
+        # Note we ouput real and imaginary parts separatly, hence the last dimension
         out = out.reshape(
-            Nx_undersampled, Ny_undersampled, run_cfg.N_layers, 2 * run_cfg.N_freq
+            Nx_undersampled, Ny_undersampled, run_cfg.N_layers, run_cfg.N_freq, 2
         )
 
         # Oversample the created eps grid
@@ -179,8 +179,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
 
         # Net out is [0,1] thus we transform to desired real and imaginary ranges
-        # first half contains real entries
-        eps.real = out[:, :, :, 0 : run_cfg.N_freq]
+        # first output is the real part
+        eps.real = out[..., 0]
 
         # scale up to [0 , (max-min_eps)]
         eps.real = eps.real * (run_cfg.real_max_eps - run_cfg.real_min_eps)
@@ -190,8 +190,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
             run_cfg.real_min_eps, run_cfg.real_max_eps
         )
 
-        # second half imaginary
-        eps.imag = out[:, :, :, run_cfg.N_freq :]
+        # second output is the imaginary part
+        eps.imag = out[..., 1]
         eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         eps.imag = (eps.imag + run_cfg.imag_min_eps).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
-- 
2.43.0


From 723907401c5543620eb9bc591abac7bcabfe466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:46 +0000
Subject: [PATCH 22/47] fix: training of regression models with noise

The noise was added to the epsilon grid in place, which made the backward
pass fail in every training with add_noise.
---
 nidn/training/model/model_to_eps_grid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index a84a979..dd8726d 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -199,20 +199,22 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
     # Adds noise scaled to desired eps range times noise_scale
     if run_cfg.add_noise:
-        eps.real += (
+        noise = (
             (torch.randn_like(eps.real) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.real_max_eps - run_cfg.real_min_eps)
         )
-        eps.real = eps.real.clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
-        eps.imag += (
+        # not in place, the gradient of clip needs its input
+        eps.real = (eps.real + noise).clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
+        noise = (
             (torch.randn_like(eps.imag) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         )
-        eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
+        # not in place, the gradient of clip needs its input
+        eps.imag = (eps.imag + noise).clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
 
     if run_cfg.avoid_zero_eps:
         _avoid_zero_eps(eps)
-- 
2.43.0


From 35682d71cd34c47e95e5279ddd50531f8c2133a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 23/47] fix: load the materials in alphabetical order

The order of glob results depends on the file system, so that equal
classification configs gave different designs on different machines.
---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 5991026..0b951e3 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -57,7 +57,7 @@ class MaterialCollection:
         logger.trace(f"Loading materials from folder: {self.materials_folder}")
 
         # Load materials data
-        files = glob(self.materials_folder + "/*.csv")
+        files = sorted(glob(self.materials_folder + "/*.csv"))
         logger.debug("Found the following files")
         logger.debug(files)
 
-- 
2.43.0


From f7d706cf1e8ee923ac11629d09ad8da8ad9f25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:55 +0000
Subject: [PATCH 24/47] fix: do not overwrite the plots of batch runs with the
 same name

---
 nidn/scripts/run_cfgs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nidn/scripts/run_cfgs.py b/nidn/scripts/run_cfgs.py
index a757422..bb9e826 100644
--- a/nidn/scripts/run_cfgs.py
+++ b/nidn/scripts/run_cfgs.py
@@ -55,6 +55,11 @@ if __name__ == "__main__":
 
         logger.info("Storing results...")
         subfolder_name = cfg.name + "_" + dt_string
+        # Runs with the same name must not share a folder
+        counter = 1
+        while os.path.exists("../results/" + result_folder_name + "/" + subfolder_name):
+            subfolder_name = cfg.name + "_" + dt_string + "_" + str(counter)
+            counter += 1
         nidn.save_run(cfg, result_folder_name + "/" + subfolder_name + "/")
         nidn.save_all_plots(
             cfg, "../results/" + result_folder_name + "/" + subfolder_name + "/"
-- 
2.43.0


From 34f1045f421b5c0c06b87320275f37c4020683cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:41 +0000
Subject: [PATCH 25/47] fix: allow names for arbitrary FDTD point sources

---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index df9ea76..b061ac1 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -616,7 +616,7 @@ class SoftArbitraryPointSource:
         self.x, self.y, self.z = grid._handle_tuple((x, y, z))
 
         if self.name is not None:
-            detector_name += "_I"
+            detector_name = self.name + "_I"
         else:
             detector_name = None
 
-- 
2.43.0


From ed08109fa83630f8dea4fabbd0c892ed5fc3c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:05 +0000
Subject: [PATCH 26/47] fix: absorbing FDTD objects that are one cell thick

---
 nidn/fdtd/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd/objects.py b/nidn/fdtd/objects.py
index d85eb8d..e06fd1f 100644
--- a/nidn/fdtd/objects.py
+++ b/nidn/fdtd/objects.py
@@ -199,7 +199,9 @@ class AbsorbingObject(Object):
             * self.grid.grid_spacing
             * ETA_0
         )
-        self.grid.absorption_factor[x, y, z, :] = self.absorption_factor
+        self.grid.absorption_factor[
+            self.x, self.y, self.z
+        ] = self.absorption_factor
 
     def update_E(self, curl_H):
         """custom update equations for inside the absorbing object
-- 
2.43.0


From a005935731d156e224e556aecf6f0d32ea2c1be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:25 +0000
Subject: [PATCH 27/47] fix: plot_model_grid_per_freq for more than four
 frequencies

---
 nidn/plots/plot_model_grid_per_freq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nidn/plots/plot_model_grid_per_freq.py b/nidn/plots/plot_model_grid_per_freq.py
index a131a6b..4360189 100644
--- a/nidn/plots/plot_model_grid_per_freq.py
+++ b/nidn/plots/plot_model_grid_per_freq.py
@@ -43,7 +43,9 @@ def plot_model_grid_per_freq(run_cfg, freq_idx=None, save_path=None):
 
         re_or_im_idx = 0
         for real_or_imag in [material_id_real, material_id_imag]:
-            ax = fig.add_subplot(421 + re_or_im_idx + idx * 2, projection="3d")
+            ax = fig.add_subplot(
+                max(4, len(freq_idx)), 2, 1 + re_or_im_idx + idx * 2, projection="3d"
+            )
             ax.view_init(elev=25, azim=100)
             vmin, vmax = min_eps_real, max_eps_real
             if re_or_im_idx > 0:
-- 
2.43.0


From 5c4060cf3babbd69465938d878bdf19c89d00e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:04 +0000
Subject: [PATCH 28/47] fix: interior fields and volume integrals of TRCWA
 (torch functions that do not exist)

---
 nidn/trcwa/trcwa.py          | 16 +++++++++-------
 nidn/trcwa/utils/fft_funs.py |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 894c0d5..17655c9 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -280,7 +280,7 @@ class TRCWA:
         # patterned layer
         elif self.id_list[i][0] == 1:
             if component == "zz":
-                epk = torch.inv(self.Patterned_epinv_list[self.id_list[i][2]])
+                epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
             elif component == "xx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
             elif component == "xy":
@@ -455,7 +455,7 @@ class TRCWA:
         ai0, bi0 = self.GetAmplitudes_noTranslate(which_layer)
         # ai, bi = self.GetAmplitudes(which_layer,z_offset)
 
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             zl = [z_offset]
         else:
             zl = z_offset
@@ -508,7 +508,7 @@ class TRCWA:
             torch.tensor: Tensor containing the field amplitudes [[Ex,Ey,Ez], [Hx,Hy,Hz]] in Fourier space for each z-offset
         """
 
-        if torch.isinstance(Nxy, type(None)):
+        if Nxy is None:
             Nxy = self.GridLayer_Nxy_list[self.id_list[which_layer][3]]
         Nx = Nxy[0]
         Ny = Nxy[1]
@@ -528,7 +528,7 @@ class TRCWA:
             hy = get_ifft(Nx, Ny, fh[1], self.G)
             hz = get_ifft(Nx, Ny, fh[2], self.G)
             eh.append([[ex, ey, ez], [hx, hy, hz]])
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             eh = eh[0]
         return eh
 
@@ -553,7 +553,9 @@ class TRCWA:
         phi = self.phi_list[which_layer]
 
         if self.id_list[which_layer][0] == 0:
-            epinv = 1.0 / self.Uniform_ep_list[self.id_list[which_layer][2]]
+            epinv = (
+                torch_eye(self.nG) / self.Uniform_ep_list[self.id_list[which_layer][2]]
+            )
         else:
             epinv = self.Patterned_epinv_list[self.id_list[which_layer][2]]
 
@@ -866,7 +868,7 @@ def SolveInterior(which_layer, a0, bN, q_list, phi_list, kp_list, thickness_list
     )
 
     # tmp = inv(1-S12*pS21)
-    tmp = torch.inv(torch_eye(nG2) - torch_dot(S12, pS21))
+    tmp = torch.inverse(torch_eye(nG2) - torch_dot(S12, pS21))
     # ai = tmp * (S11 a0 + S12 pS22 bN)
     ai = torch_dot(tmp, torch_dot(S11, a0) + torch_dot(S12, torch_dot(pS22, bN)))
     # bi = pS21 ai + pS22 bN
@@ -993,6 +995,6 @@ def Gmeshgrid(x):
     qj = []
     for i in range(N):
         qj.append(x)
-    qj = torch.tensor(qj)
+    qj = torch.stack(qj)
     qi = torch_transpose(qj)
     return qi, qj
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index 9f8482e..ec0bf1f 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -83,5 +83,5 @@ def get_ifft(Nx, Ny, s_in, G):
         stmp[x, y] = 1.0
         s0 = s0 + s_in[i] * stmp
 
-    s_out = torch.ifft2(s0) / dN
+    s_out = torch.fft.ifft2(s0) / dN
     return s_out
-- 
2.43.0


From 8672d997591363c14fcc5c41357902f03835d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:04 +0000
Subject: [PATCH 29/47] fix: order of conjugated modes in TRCWA.Volume_integral

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 17655c9..dbcb7a3 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -574,7 +574,7 @@ class TRCWA:
 
         Mt = Matrix_zintegral(q, self.thickness_list[which_layer])
         # overall
-        abM = abMatrix * Mt
+        abM = abMatrix * torch_transpose(Mt)
 
         # F matrix
         Faxy = torch_dot(torch_dot(kp, phi), torch.diag(1.0 / self.omega / q))
-- 
2.43.0


From 1d598aedf89a20312f831f0bbd75207ee813b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:04 +0000
Subject: [PATCH 30/47] fix: x and y densities exchanged in
 TRCWA.Volume_integral

---
 nidn/trcwa/trcwa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index dbcb7a3..337fcbe 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -586,12 +586,12 @@ class TRCWA:
         tmp2 = torch.vstack((-Faxy, Faz))
         F = torch.hstack((tmp1, tmp2))
 
-        # consider Mtotal
+        # consider Mtotal; the rows of F are (-Ey, Ex, Ez)
         Mzeros = torch.zeros_like(Mx)
         Mtotal = torch.vstack(
             (
-                torch.hstack((Mx, Mzeros, Mzeros)),
-                torch.hstack((Mzeros, My, Mzeros)),
+                torch.hstack((My, Mzeros, Mzeros)),
+                torch.hstack((Mzeros, Mx, Mzeros)),
                 torch.hstack((Mzeros, Mzeros, Mz)),
             )
         )
-- 
2.43.0


From 4b8e7cb9328739414c3406d77d27bf3916a90a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:04 +0000
Subject: [PATCH 31/47] fix: volume integrals of TRCWA layers with equal
 wavenumbers

---
 nidn/trcwa/trcwa.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 337fcbe..17b7733 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -935,18 +935,17 @@ def GetZPoyntingFlux(ai, bi, omega, kp, phi, q, byorder=0):
     return forward, backward
 
 
-def Matrix_zintegral(q, thickness, shift=1e-12):
+def Matrix_zintegral(q, thickness, shift=1e-9):
     """Generate matrix for z-integral.
 
     Args:
         q ():
         thickness (float): Thickness of the layer of interest.
-        shift (float, optional):               . Defaults to 1e-12.
+        shift (float, optional): Wavenumbers that differ by less are treated as equal. Defaults to 1e-9.
 
     Returns:
         torch.tensor: Matrix for z-integral
     """
-    nG2 = len(q)
     qi, qj = Gmeshgrid(q)
 
     # # Maa = \int exp(i q_i z)^* exp(i q_j z)
@@ -964,16 +963,20 @@ def Matrix_zintegral(q, thickness, shift=1e-12):
     # Mab = (np.exp(1j*qj*thickness)-np.exp(-1j*np.conj(qi)*thickness))/1j/(qj+np.conj(qi))
 
     # M = t exp(0.5it (qj-qi^*)) sinc(0.5d (sjqj-siqi^*), note in python sinc = sin(pi x)/pi x
-    qij = qj - torch.conj(qi) + torch_eye(nG2) * shift
+    qij = qj - torch.conj(qi)
+    qij = torch.where(torch.abs(qij) < shift, torch.full_like(qij, shift), qij)
     Maa = (torch.exp(1j * qij * thickness) - 1) / 1j / qij  # this is more robust
     # Maa = thickness * np.exp(0.5j*thickness*qij) * np.sinc(0.5*thickness*qij/np.pi)
 
     qij2 = qj + torch.conj(qi)
     # Mab = thickness * np.exp(0.5j*thickness*qij) * np.sinc(0.5*thickness*qij2/np.pi)
-    Mab = (
+    equal = torch.abs(qij2) < shift
+    Mab = torch.where(
+        equal,
+        thickness * torch.exp(1j * qj * thickness),
         (torch.exp(1j * qj * thickness) - torch.exp(-1j * torch.conj(qi) * thickness))
         / 1j
-        / qij2
+        / torch.where(equal, torch.ones_like(qij2), qij2),
     )
 
     tmp1 = torch.vstack((Maa, Mab))
-- 
2.43.0


From ca4786715da95f6d818ae89adf7ba72f61dbfd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:04 +0000
Subject: [PATCH 32/47] fix: TRCWA.Return_eps gave the mirrored permittivity
 profile

---
 nidn/trcwa/trcwa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 17b7733..05cd2f8 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -290,7 +290,8 @@ class TRCWA:
             elif component == "yy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
 
-            return get_ifft(Nx, Ny, epk[0, :], self.G)
+            # column of the zeroth order: Fourier coefficients at G
+            return get_ifft(Nx, Ny, epk[:, 0], self.G)
 
     def RT_Solve(self, normalize=0, byorder=0):
         """
-- 
2.43.0


From fb3ecca6403cb413334216a45eddc42532fb59a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:04 +0000
Subject: [PATCH 33/47] fix: x and y permittivities exchanged in anisotropic
 TRCWA layers

---
 nidn/trcwa/trcwa.py          | 11 ++++++-----
 nidn/trcwa/utils/fft_funs.py |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 05cd2f8..9657d2c 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -281,13 +281,14 @@ class TRCWA:
         elif self.id_list[i][0] == 1:
             if component == "zz":
                 epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
-            elif component == "xx":
+            # ep2 acts on (-Ey, Ex)
+            elif component == "yy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
-            elif component == "xy":
-                epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, self.nG :]
             elif component == "yx":
-                epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, : self.nG]
-            elif component == "yy":
+                epk = -self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, self.nG :]
+            elif component == "xy":
+                epk = -self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, : self.nG]
+            elif component == "xx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
 
             # column of the zeroth order: Fourier coefficients at G
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index ec0bf1f..8f53a9f 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -15,8 +15,9 @@ def Epsilon_fft(dN, eps_grid, G):
         epsz_fft = get_conv(dN, eps_grid[2], G)
         epsinv = torch.inverse(epsz_fft)
 
-        tmp1 = torch.vstack((epsx_fft, torch.zeros_like(epsx_fft)))
-        tmp2 = torch.vstack((torch.zeros_like(epsx_fft), epsy_fft))
+        # eps2 acts on (-Ey, Ex)
+        tmp1 = torch.vstack((epsy_fft, torch.zeros_like(epsx_fft)))
+        tmp2 = torch.vstack((torch.zeros_like(epsx_fft), epsx_fft))
         eps2 = torch.hstack((tmp1, tmp2))
 
     elif eps_grid[0].ndim == 1:
-- 
2.43.0


From 44911a162a9cc5b5664ee2edbc067b8bbb76a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:04 +0000
Subject: [PATCH 34/47] fix: parallelogram truncation of TRCWA (torch functions
 of plain numbers)

---
 nidn/trcwa/utils/kbloch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index 4822452..05312dc 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -61,13 +61,13 @@ def Gsel_parallelogramic(nG, Lk1, Lk2):
     v = torch.norm(Lk2)
     uv = torch.dot(Lk1, Lk2)
 
-    NGroot = int(torch.sqrt(nG))
-    if torch.mod(NGroot, 2) == 0:
+    NGroot = int(np.sqrt(nG))
+    if NGroot % 2 == 0:
         NGroot -= 1
 
     M = NGroot // 2
 
-    xG = range(-M, NGroot - M)
+    xG = torch.tensor(range(-M, NGroot - M))
     G1, G2 = torch.meshgrid(xG, xG, indexing="ij")
     G1 = G1.flatten()
     G2 = G2.flatten()
-- 
2.43.0


From 38a10b4c74f4c2c42a5687c24d840f30b31464b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 35/47] fix: current detectors counted a loop of the cell above
 twice

---
 nidn/fdtd/detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/detectors.py b/nidn/fdtd/detectors.py
index f0f9998..4bc4e48 100644
--- a/nidn/fdtd/detectors.py
+++ b/nidn/fdtd/detectors.py
@@ -454,7 +454,7 @@ class CurrentDetector:
             (self.grid.H[px, py - 1, pz - 1, FDTD_X])
             - (self.grid.H[px, py, pz - 1, FDTD_X])
         ) * self.grid.grid_spacing
-        current_vector_2 += (
+        current_vector_2 = (
             (self.grid.H[px, py, pz - 1, FDTD_Y])
             - (self.grid.H[px - 1, py, pz - 1, FDTD_Y])
         ) * self.grid.grid_spacing
-- 
2.43.0


From 39682fe600bf3a3bf41d79ee5cce59269c7af303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 36/47] fix: point sources drawn at the wrong place in the zx
 picture

---
 nidn/fdtd/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/visualization.py b/nidn/fdtd/visualization.py
index 50bb92d..25c38e5 100644
--- a/nidn/fdtd/visualization.py
+++ b/nidn/fdtd/visualization.py
@@ -159,7 +159,7 @@ def visualize(
                 _y = source.z
             elif y is not None:
                 _x = source.z
-                _y = source.y
+                _y = source.x
             elif z is not None:
                 _x = source.x
                 _y = source.y
-- 
2.43.0


From ec7b55bc09e0dd2609c6014125d24ae74258b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 37/47] fix: numpy conversion of tensors that carry gradients

---
 nidn/fdtd/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nidn/fdtd/backend.py b/nidn/fdtd/backend.py
index 08d72f1..b4fb83d 100644
--- a/nidn/fdtd/backend.py
+++ b/nidn/fdtd/backend.py
@@ -168,7 +168,7 @@ if TORCH_AVAILABLE:
         def numpy(self, arr):
             """convert the array to numpy array"""
             if torch.is_tensor(arr):
-                return arr.numpy()
+                return arr.detach().numpy()
             else:
                 return numpy.asarray(arr)
 
@@ -199,7 +199,7 @@ if TORCH_AVAILABLE:
             def numpy(self, arr):
                 """convert the array to numpy array"""
                 if torch.is_tensor(arr):
-                    return arr.cpu().numpy()
+                    return arr.detach().cpu().numpy()
                 else:
                     return numpy.asarray(arr)
 
-- 
2.43.0


From 3191907b7af373a9dc9065409594bbf9cf7bfb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 38/47] fix: failing ffmpeg left the process in another working
 directory

---
 nidn/fdtd/grid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 4bd9001..91f1377 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -474,10 +474,11 @@ class Grid:
                     "fdtd_sim_video_" + self.full_sim_name + ".mp4",
                 ]
             )
-        except (FileNotFoundError, CalledProcessError):
-            raise CalledProcessError(
+        except (FileNotFoundError, CalledProcessError) as error:
+            chdir(cwd)
+            raise RuntimeError(
                 "Error when calling ffmpeg. Is ffmpeg installed and available in your path?"
-            )
+            ) from error
         if delete_frames:  # delete frames
             for file_name in glob("*.png"):
                 remove(file_name)
-- 
2.43.0


From 6c696afc2bf8e1a370dc48f88af07456d400fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 39/47] fix: objects placed at the last cell (-1) had no effect

---
 nidn/fdtd/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd/objects.py b/nidn/fdtd/objects.py
index e06fd1f..7008e29 100644
--- a/nidn/fdtd/objects.py
+++ b/nidn/fdtd/objects.py
@@ -91,7 +91,8 @@ class Object:
     def _handle_slice(self, s: ListOrSlice, max_index: int = None) -> slice:
         if isinstance(s, list):
             if len(s) == 1:
-                return slice(s[0], s[0] + 1, None)
+                start = s[0] if s[0] >= 0 else max_index + s[0]
+                return slice(start, start + 1, None)
             raise IndexError(
                 "One can only use slices or single indices to index the grid for an Object"
             )
-- 
2.43.0


From 4824b2bbccdcacee40d375c563b806f6bbab954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 40/47] fix: plane sources placed at the last cell (-1) had no
 effect

---
 nidn/fdtd/sources.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index b061ac1..1b9e6d0 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -429,21 +429,21 @@ class PlaneSource:
         if not isinstance(x, slice):
             if isinstance(x, list):
                 (x,) = x
-            x = slice(
-                self.grid._handle_distance(x), self.grid._handle_distance(x) + 1, None
-            )
+            x = self.grid._handle_distance(x)
+            x = x if x >= 0 else self.grid.Nx + x
+            x = slice(x, x + 1, None)
         if not isinstance(y, slice):
             if isinstance(y, list):
                 (y,) = y
-            y = slice(
-                self.grid._handle_distance(y), self.grid._handle_distance(y) + 1, None
-            )
+            y = self.grid._handle_distance(y)
+            y = y if y >= 0 else self.grid.Ny + y
+            y = slice(y, y + 1, None)
         if not isinstance(z, slice):
             if isinstance(z, list):
                 (z,) = z
-            z = slice(
-                self.grid._handle_distance(z), self.grid._handle_distance(z) + 1, None
-            )
+            z = self.grid._handle_distance(z)
+            z = z if z >= 0 else self.grid.Nz + z
+            z = slice(z, z + 1, None)
 
         # if we get here, we can assume slices:
         x0 = self.grid._handle_distance(x.start if x.start is not None else 0)
-- 
2.43.0


From 7fd23c0e71a9b0b18df716117b8776d555d750cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:47 +0000
Subject: [PATCH 41/47] fix: slanted lines could get a grid point too many, or
 one a cell off, from rounding in linspace

---
 nidn/fdtd/backend.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nidn/fdtd/backend.py b/nidn/fdtd/backend.py
index b4fb83d..21e76a7 100644
--- a/nidn/fdtd/backend.py
+++ b/nidn/fdtd/backend.py
@@ -147,7 +147,9 @@ if TORCH_AVAILABLE:
             delta = (stop - start) / float(num - float(endpoint))
             if not delta:
                 return self.array([start] * num)
-            return torch.arange(start, stop + 0.5 * float(endpoint) * delta, delta)
+            return start + (stop - start) * torch.arange(num) / float(
+                num - float(endpoint)
+            )
 
         arange = staticmethod(torch.arange)
         """ create a range of values """
@@ -208,9 +210,9 @@ if TORCH_AVAILABLE:
                 delta = (stop - start) / float(num - float(endpoint))
                 if not delta:
                     return self.array([start] * num)
-                return torch.arange(
-                    start, stop + 0.5 * float(endpoint) * delta, delta, device="cuda"
-                )
+                return start + (stop - start) * torch.arange(
+                    num, device="cuda"
+                ) / float(num - float(endpoint))
 
 
 ## Default Backend
-- 
2.43.0


From f48e3837cbdce3ad7a4a49f48ec6acecf64d1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:47 +0000
Subject: [PATCH 42/47] fix: runs saved at the same time under one name could
 overwrite each other

---
 nidn/training/save_run.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nidn/training/save_run.py b/nidn/training/save_run.py
index bb684c1..44774a3 100644
--- a/nidn/training/save_run.py
+++ b/nidn/training/save_run.py
@@ -24,10 +24,15 @@ def save_run(run_cfg, subfolder=""):
     filename = base + "_run.pk"
     # Never overwrite a run saved within the same second
     counter = 1
-    while Path(filename).exists():
-        filename = base + "_" + str(counter) + "_run.pk"
-        counter += 1
+    handle = None
+    while handle is None:
+        try:
+            # Creates the file, fails if it exists
+            handle = open(filename, "xb")
+        except FileExistsError:
+            filename = base + "_" + str(counter) + "_run.pk"
+            counter += 1
 
     logger.info("Saving run to file: {}".format(filename))
-    with open(filename, "wb") as handle:
+    with handle:
         pk.dump(run_cfg, handle, protocol=pk.HIGHEST_PROTOCOL)
-- 
2.43.0


From d3b7f18f0ee4687851ac157cd47d96ab3d8a62c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:47 +0000
Subject: [PATCH 43/47] fix: batch script found no configurations in folders
 with pattern characters in their names

---
 nidn/scripts/run_cfgs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nidn/scripts/run_cfgs.py b/nidn/scripts/run_cfgs.py
index bb9e826..b441a87 100644
--- a/nidn/scripts/run_cfgs.py
+++ b/nidn/scripts/run_cfgs.py
@@ -4,7 +4,7 @@ from datetime import datetime
 
 from dotmap import DotMap
 import toml
-from glob import glob
+from glob import glob, escape
 from loguru import logger
 
 sys.path.append("../")
@@ -27,7 +27,7 @@ if __name__ == "__main__":
     target_filepath = sys.argv[1]
 
     # Find all cfg files in the target filepath
-    cfg_filepaths = glob(target_filepath + "/*.toml")
+    cfg_filepaths = glob(escape(target_filepath) + "/*.toml")
 
     logger.info("Found {} cfg files in {}".format(len(cfg_filepaths), target_filepath))
 
-- 
2.43.0


From ae8fb23716ea760be8fdf51dc2a41a292cf51c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:45 +0000
Subject: [PATCH 44/47] fix: durations of a whole number of time steps, given
 in seconds, could run one step less

---
 nidn/fdtd/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 91f1377..d82c576 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -258,7 +258,8 @@ class Grid:
 
         """
         if isinstance(total_time, float):
-            total_time /= self.time_step
+            # The small offset keeps rounding errors of the division from costing a step
+            total_time = total_time / self.time_step + 1e-6
         time = range(0, int(total_time), 1)
         if progress_bar:
             time = tqdm(time)
-- 
2.43.0


From 841b0e159ab50e95f1bd809ebc4178b741c8890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:03 +0000
Subject: [PATCH 45/47] fix: numpy numbers as places, periods and durations
 were taken in the wrong unit

---
 nidn/fdtd/grid.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index d82c576..77309dc 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -13,6 +13,7 @@ from os import path, makedirs, chdir, remove
 from subprocess import check_call, CalledProcessError
 from glob import glob
 from datetime import datetime
+from numbers import Integral, Real
 
 # 3rd party
 from tqdm import tqdm
@@ -171,15 +172,15 @@ class Grid:
 
     def _handle_distance(self, distance: Number) -> int:
         """transform a distance to an integer number of gridpoints"""
-        if not isinstance(distance, int):
+        if not isinstance(distance, Integral):
             return int(float(distance) / self.grid_spacing + 0.5)
-        return distance
+        return int(distance)
 
     def _handle_time(self, time: Number) -> int:
         """transform a time value to an integer number of timesteps"""
-        if not isinstance(time, int):
+        if not isinstance(time, Integral):
             return int(float(time) / self.time_step + 0.5)
-        return time
+        return int(time)
 
     def _handle_tuple(
         self, shape: Tuple[Number, Number, Number]
@@ -198,16 +199,9 @@ class Grid:
 
     def _handle_slice(self, s: slice) -> slice:
         """validate the slice and transform possibly float values to ints"""
-        start = (
-            s.start
-            if not isinstance(s.start, float)
-            else self._handle_distance(s.start)
-        )
-        stop = (
-            s.stop if not isinstance(s.stop, float) else self._handle_distance(s.stop)
-        )
-        step = (
-            s.step if not isinstance(s.step, float) else self._handle_distance(s.step)
+        start, stop, step = (
+            self._handle_distance(v) if isinstance(v, Real) else v
+            for v in (s.start, s.stop, s.step)
         )
         return slice(start, stop, step)
 
@@ -257,7 +251,7 @@ class Grid:
                 simulation
 
         """
-        if isinstance(total_time, float):
+        if isinstance(total_time, Real) and not isinstance(total_time, Integral):
             # The small offset keeps rounding errors of the division from costing a step
             total_time = total_time / self.time_step + 1e-6
         time = range(0, int(total_time), 1)
-- 
2.43.0


From 2d9c1a1e57774d6867608647f8faa4ea1300ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:03 +0000
Subject: [PATCH 46/47] fix: simulations saved within the same second shared a
 folder and overwrote each other's data

---
 nidn/fdtd/grid.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 77309dc..05b9aee 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -430,8 +430,16 @@ class Grid:
         self.folder = os.path.abspath(path.join("fdtd_output", folder))
         # storing timestamp title for self.generate_video
         self.full_sim_name = full_sim_name
-        makedirs(self.folder, exist_ok=True)
-        return self.folder
+        # Simulations saved within the same second must not share a folder
+        counter = 1
+        base = self.folder
+        while True:
+            try:
+                makedirs(self.folder)
+                return self.folder
+            except FileExistsError:
+                self.folder = base + "_" + str(counter)
+                counter += 1
 
     def generate_video(self, delete_frames=False):
         """Compiles frames into a video
-- 
2.43.0


From b3c5006460e456daebcaf008c3fd9d78c4fce2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:18 +0000
Subject: [PATCH 47/47] fix: thickness reported for layers after the first was
 not the simulated one

---
 nidn/utils/validate_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index 6e45983..b7d0232 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -30,8 +30,8 @@ def _check_grid_scale(cfg):
         UNIT_MAGNITUDE / scale_in_wl,
         cfg.FDTD_min_gridpoints_per_unit_magnitude,
     )
+    x_start = cfg.FDTD_pml_thickness + cfg.FDTD_free_space_distance
     for i, thickness in enumerate(cfg.PER_LAYER_THICKNESS):
-        x_start = cfg.FDTD_pml_thickness + cfg.FDTD_free_space_distance
         x_end = x_start + thickness
         size = int(scaling * x_end) - int(scaling * x_start)
         if thickness != size / scaling:
@@ -40,6 +40,7 @@ def _check_grid_scale(cfg):
                 f"Due to the grid resolution, the thickness of layer {i + 1} is set to {downscaled:.3f} µm"
                 + f"instead of the specified {thickness} µm"
             )
+        x_start = x_end
 
 
 def _check_for_keys(cfg: DotMap):
-- 
2.43.0

