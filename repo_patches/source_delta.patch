From a056628c290cdc3b6daff6e99e9fbc9c295d83d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 01/49] fix: promote integer room sizes, positions and
 trajectories to floating point

Integer inputs made the whole simulation run in int64: reflection coefficients
and positions were truncated and the response was wrong or all zero.
---
 src/torchrir/models/room.py     | 6 +++---
 src/torchrir/sim/ism/helpers.py | 4 ++--
 src/torchrir/sim/ism/prepare.py | 6 +++---
 src/torchrir/util/tensor.py     | 9 ++++++++-
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index 3dec243..af08ab0 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -8,7 +8,7 @@ from typing import Optional, Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor, ensure_dim
+from ..util.tensor import as_tensor, ensure_dim, ensure_floating
 
 
 @dataclass(frozen=True)
@@ -212,7 +212,7 @@ def _validate_orientation(
 
 
 def _normalize_entity_positions(positions: Tensor, *, name: str) -> Tensor:
-    pos = as_tensor(positions)
+    pos = ensure_floating(as_tensor(positions))
     if pos.ndim == 1:
         pos = pos.unsqueeze(0)
     if pos.ndim != 2 or pos.shape[1] not in (2, 3):
@@ -231,6 +231,6 @@ def _normalize_entity_orientation(
 ) -> Optional[Tensor]:
     if orientation is None:
         return None
-    ori = as_tensor(orientation)
+    ori = ensure_floating(as_tensor(orientation))
     _validate_orientation(ori, n_entities=n_entities, dim=dim, name=name)
     return ori
diff --git a/src/torchrir/sim/ism/helpers.py b/src/torchrir/sim/ism/helpers.py
index 7a8a4ad..518849b 100644
--- a/src/torchrir/sim/ism/helpers.py
+++ b/src/torchrir/sim/ism/helpers.py
@@ -10,7 +10,7 @@ from torch import Tensor
 from ...models import MicrophoneArray, Room, Source
 from ...util.acoustics import estimate_beta_from_t60
 from ...util.orientation import normalize_orientation, orientation_to_unit
-from ...util.tensor import as_tensor
+from ...util.tensor import as_tensor, ensure_floating
 
 
 def _prepare_entities(
@@ -35,7 +35,7 @@ def _prepare_entities(
             ori = orientation[0] if which == "source" else orientation[1]
         else:
             ori = orientation
-    pos = as_tensor(pos, device=device, dtype=dtype)
+    pos = ensure_floating(as_tensor(pos, device=device, dtype=dtype))
     if ori is not None:
         ori = as_tensor(ori, device=device, dtype=dtype)
     return pos, ori
diff --git a/src/torchrir/sim/ism/prepare.py b/src/torchrir/sim/ism/prepare.py
index 3afce79..12f3fc9 100644
--- a/src/torchrir/sim/ism/prepare.py
+++ b/src/torchrir/sim/ism/prepare.py
@@ -9,7 +9,7 @@ from torch import Tensor
 
 from ...models import MicrophoneArray, Room, Source
 from ...util.device import infer_device_dtype, resolve_device
-from ...util.tensor import as_tensor, ensure_dim
+from ...util.tensor import as_tensor, ensure_dim, ensure_floating
 from .helpers import _prepare_entities
 
 
@@ -84,8 +84,8 @@ def _prepare_dynamic_tensors(
     if isinstance(device, str):
         device = resolve_device(device)
 
-    src_traj = as_tensor(src_traj, device=device, dtype=dtype)
-    mic_traj = as_tensor(mic_traj, device=device, dtype=dtype)
+    src_traj = ensure_floating(as_tensor(src_traj, device=device, dtype=dtype))
+    mic_traj = ensure_floating(as_tensor(mic_traj, device=device, dtype=dtype))
     device, dtype = infer_device_dtype(
         src_traj, mic_traj, room.size, device=device, dtype=dtype
     )
diff --git a/src/torchrir/util/tensor.py b/src/torchrir/util/tensor.py
index 4e7da48..7c7d94e 100644
--- a/src/torchrir/util/tensor.py
+++ b/src/torchrir/util/tensor.py
@@ -29,11 +29,18 @@ def as_tensor(
     return torch.as_tensor(value, device=device, dtype=dtype)
 
 
+def ensure_floating(value: Tensor) -> Tensor:
+    """Promote integer tensors to the default floating dtype."""
+    if value.is_floating_point() or value.is_complex():
+        return value
+    return value.to(torch.get_default_dtype())
+
+
 def ensure_dim(size: Tensor) -> Tensor:
     """Validate room size dimensionality (2D or 3D)."""
     if size.ndim != 1 or size.numel() not in (2, 3):
         raise ValueError("room size must be a 1D tensor of length 2 or 3")
-    return size
+    return ensure_floating(size)
 
 
 def extend_size(size: Tensor, dim: int) -> Tensor:
-- 
2.43.0


From e7ca1420b2169332389c3fefe751fa440a85d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 02/49] fix: mirror the source orientation of reflected image
 sources

A source's directivity was evaluated with the unreflected orientation for every
image, so reflections left the source in the wrong direction and responses were
not reciprocal.
---
 src/torchrir/sim/ism/contributions.py | 12 ++++++++----
 src/torchrir/sim/ism/images.py        |  6 ++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/sim/ism/contributions.py b/src/torchrir/sim/ism/contributions.py
index 66517f7..bb84c81 100644
--- a/src/torchrir/sim/ism/contributions.py
+++ b/src/torchrir/sim/ism/contributions.py
@@ -10,7 +10,11 @@ from torch import Tensor
 from ..directivity import directivity_gain
 from ...models import Room
 from .helpers import _cos_between
-from .images import _image_positions, _image_positions_batch
+from .images import (
+    _image_orientations,
+    _image_positions,
+    _image_positions_batch,
+)
 
 
 def _compute_image_contributions(
@@ -40,7 +44,7 @@ def _compute_image_contributions(
     if src_pattern != "omni":
         if src_dir is None:
             raise ValueError("source orientation required for non-omni directivity")
-        cos_theta = _cos_between(vec, src_dir)
+        cos_theta = _cos_between(vec, _image_orientations(src_dir, n_vec))
         gain = gain * directivity_gain(src_pattern, cos_theta)
     if mic_pattern != "omni":
         if mic_dir is None:
@@ -79,7 +83,7 @@ def _compute_image_contributions_batch(
     if src_pattern != "omni":
         if src_dirs is None:
             raise ValueError("source orientation required for non-omni directivity")
-        src_dirs = src_dirs[:, None, None, :]
+        src_dirs = _image_orientations(src_dirs, n_vec)[:, None, :, :]
         cos_theta = _cos_between(vec, src_dirs)
         gain = gain * directivity_gain(src_pattern, cos_theta)
     if mic_pattern != "omni":
@@ -127,7 +131,7 @@ def _compute_image_contributions_time_batch(
     if src_pattern != "omni":
         if src_dirs is None:
             raise ValueError("source orientation required for non-omni directivity")
-        src_dirs_b = src_dirs[None, :, None, None, :]
+        src_dirs_b = _image_orientations(src_dirs, n_vec)[None, :, None, :, :]
         cos_theta = _cos_between(vec, src_dirs_b)
         gain = gain * directivity_gain(src_pattern, cos_theta)
     if mic_pattern != "omni":
diff --git a/src/torchrir/sim/ism/images.py b/src/torchrir/sim/ism/images.py
index 7a7ef67..e60870c 100644
--- a/src/torchrir/sim/ism/images.py
+++ b/src/torchrir/sim/ism/images.py
@@ -47,6 +47,12 @@ def _image_positions_batch(src_pos: Tensor, room_size: Tensor, n_vec: Tensor) ->
     return base[None, :, :] + sign[None, :, :] * src_pos[:, None, :]
 
 
+def _image_orientations(src_dirs: Tensor, n_vec: Tensor) -> Tensor:
+    """Mirror source orientations along the axes reflected an odd number of times."""
+    sign = torch.where((n_vec % 2) == 0, 1.0, -1.0).to(dtype=src_dirs.dtype)
+    return src_dirs.unsqueeze(-2) * sign
+
+
 def _reflection_coefficients(n_vec: Tensor, beta: Tensor) -> Tensor:
     """Compute reflection coefficients for each image source."""
     dim = n_vec.shape[1]
-- 
2.43.0


From 3b6b2496fafcf992d4de3aeafdd56c4f1c45c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 03/49] fix: pass entity orientations to dynamic simulations in
 ISMSimulator

Directional dynamic scenes raised 'orientation required' although the scene's
sources and microphones had orientations; static scenes used them.
---
 src/torchrir/sim/simulators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/sim/simulators.py b/src/torchrir/sim/simulators.py
index c48ecd7..795756a 100644
--- a/src/torchrir/sim/simulators.py
+++ b/src/torchrir/sim/simulators.py
@@ -76,6 +76,10 @@ class ISMSimulator:
                 nsample=self.nsample,
                 tmax=self.tmax,
                 directivity=self.directivity,
+                orientation=(
+                    normalized_scene.sources.orientation,
+                    normalized_scene.mics.orientation,
+                ),
                 config=cfg,
                 device=self.device,
                 dtype=self.dtype,
-- 
2.43.0


From 08eca91d156e6eadad0bc1231812609b800c01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 04/49] fix: reject microphone orientations whose count does
 not match

Sources were checked; microphones raised RuntimeError or silently used the
wrong orientations through broadcasting.
---
 src/torchrir/sim/ism/api.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/sim/ism/api.py b/src/torchrir/sim/ism/api.py
index b10ea98..9e23d86 100644
--- a/src/torchrir/sim/ism/api.py
+++ b/src/torchrir/sim/ism/api.py
@@ -82,15 +82,17 @@ def simulate_rir(
     n_vec = _image_source_indices(max_order, dim, device=device, nb_img=nb_img)
     refl = _reflection_coefficients(n_vec, beta)
 
+    n_src = src_pos.shape[0]
+    n_mic = mic_pos.shape[0]
     src_pattern, mic_pattern = split_directivity(directivity)
     mic_dir = None
     if mic_pattern != "omni":
         if mic_ori is None:
             raise ValueError("mic orientation required for non-omni directivity")
         mic_dir = orientation_to_unit(mic_ori, dim)
+        if mic_dir.ndim > 1 and mic_dir.shape != (n_mic, dim):
+            raise ValueError("mic orientation must match number of mics")
 
-    n_src = src_pos.shape[0]
-    n_mic = mic_pos.shape[0]
     rir = torch.zeros((n_src, n_mic, nsample), device=device, dtype=dtype)
     fdl = cfg.frac_delay_length
     fdl2 = (fdl - 1) // 2
@@ -183,15 +185,17 @@ def simulate_dynamic_rir(
     n_vec = _image_source_indices(max_order, dim, device=device, nb_img=nb_img)
     refl = _reflection_coefficients(n_vec, beta)
 
+    n_src = src_traj.shape[1]
+    n_mic = mic_traj.shape[1]
     src_pattern, mic_pattern = split_directivity(directivity)
     mic_dir = None
     if mic_pattern != "omni":
         if mic_ori is None:
             raise ValueError("mic orientation required for non-omni directivity")
         mic_dir = orientation_to_unit(mic_ori, dim)
+        if mic_dir.ndim > 1 and mic_dir.shape != (n_mic, dim):
+            raise ValueError("mic orientation must match number of mics")
 
-    n_src = src_traj.shape[1]
-    n_mic = mic_traj.shape[1]
     rirs = torch.zeros(
         (src_traj.shape[0], n_src, n_mic, nsample), device=device, dtype=dtype
     )
-- 
2.43.0


From 4dab83614c7d76bdb83c3880f1544f8f28dd477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 05/49] fix: avoid NaN responses for coincident directional
 source and microphone

---
 src/torchrir/sim/ism/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/sim/ism/helpers.py b/src/torchrir/sim/ism/helpers.py
index 518849b..a13bb3b 100644
--- a/src/torchrir/sim/ism/helpers.py
+++ b/src/torchrir/sim/ism/helpers.py
@@ -76,5 +76,5 @@ def _select_orientation(orientation: Tensor, idx: int, count: int, dim: int) ->
 def _cos_between(vec: Tensor, orientation: Tensor) -> Tensor:
     """Compute cosine between direction vectors and orientation."""
     orientation = normalize_orientation(orientation)
-    unit = vec / torch.linalg.norm(vec, dim=-1, keepdim=True)
+    unit = normalize_orientation(vec)
     return torch.sum(unit * orientation, dim=-1)
-- 
2.43.0


From 5bdfcff3f9159998bff5993123961e5a8dcab4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 06/49] fix: treat every spelling of omni as non-directional

'OMNI' and 'omnidirectional' demanded an orientation.
---
 src/torchrir/sim/directivity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/directivity.py b/src/torchrir/sim/directivity.py
index ab44109..b89a5ee 100644
--- a/src/torchrir/sim/directivity.py
+++ b/src/torchrir/sim/directivity.py
@@ -29,5 +29,11 @@ def split_directivity(directivity: str | tuple[str, str]) -> tuple[str, str]:
     if isinstance(directivity, (list, tuple)):
         if len(directivity) != 2:
             raise ValueError("directivity tuple must have length 2")
-        return directivity[0], directivity[1]
-    return directivity, directivity
+        return _canonical_omni(directivity[0]), _canonical_omni(directivity[1])
+    pattern = _canonical_omni(directivity)
+    return pattern, pattern
+
+
+def _canonical_omni(pattern: str) -> str:
+    """Map every spelling of the omnidirectional pattern to "omni"."""
+    return "omni" if pattern.lower() in ("omni", "omnidirectional") else pattern
-- 
2.43.0


From da3b123c8762169fc7be527590bdec4a871066eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 07/49] fix: reject negative image counts with ValueError

---
 src/torchrir/sim/ism/images.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/sim/ism/images.py b/src/torchrir/sim/ism/images.py
index e60870c..e7cfe00 100644
--- a/src/torchrir/sim/ism/images.py
+++ b/src/torchrir/sim/ism/images.py
@@ -22,6 +22,8 @@ def _image_source_indices(
         nb = as_tensor(nb_img, device=device, dtype=torch.int64)
         if nb.numel() != dim:
             raise ValueError("nb_img must match room dimension")
+        if torch.any(nb < 0):
+            raise ValueError("nb_img must be non-negative")
         ranges = [torch.arange(-n, n + 1, device=device, dtype=torch.int64) for n in nb]
         grids = torch.meshgrid(*ranges, indexing="ij")
         return torch.stack([g.reshape(-1) for g in grids], dim=-1)
-- 
2.43.0


From 6d848d9079a16e5d49969cac3dbd9564b26a1c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 08/49] fix: do not replace the last sample when tdiff lies
 beyond the response

---
 src/torchrir/sim/ism/diffuse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/ism/diffuse.py b/src/torchrir/sim/ism/diffuse.py
index 7344676..69251ea 100644
--- a/src/torchrir/sim/ism/diffuse.py
+++ b/src/torchrir/sim/ism/diffuse.py
@@ -23,8 +23,8 @@ def _apply_diffuse_tail(
 ) -> Tensor:
     """Apply a diffuse reverberation tail after tdiff."""
     nsample = rir.shape[-1]
-    tdiff_idx = min(nsample - 1, int(math.floor(tdiff * room.fs)))
-    if tdiff_idx <= 0:
+    tdiff_idx = int(math.floor(tdiff * room.fs))
+    if tdiff_idx <= 0 or tdiff_idx >= nsample:
         return rir
     tail_len = nsample - tdiff_idx
     t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / room.fs
-- 
2.43.0


From d7139ada83ace90c9d39ee2450183e7857ae18b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 09/49] fix: reject NaN sample rate, speed of sound and T60 in
 Room

---
 src/torchrir/models/room.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index af08ab0..11adbc1 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -35,13 +35,13 @@ class Room:
         if torch.any(size <= 0):
             raise ValueError("room size must be strictly positive")
         object.__setattr__(self, "size", size)
-        if self.fs <= 0:
+        if not self.fs > 0:
             raise ValueError("fs must be positive")
-        if self.c <= 0:
+        if not self.c > 0:
             raise ValueError("c must be positive")
         if self.beta is not None and self.t60 is not None:
             raise ValueError("beta and t60 are mutually exclusive")
-        if self.t60 is not None and self.t60 <= 0:
+        if self.t60 is not None and not self.t60 > 0:
             raise ValueError("t60 must be positive")
         if self.beta is not None:
             beta = as_tensor(self.beta, dtype=size.dtype).view(-1)
-- 
2.43.0


From a16738ab4c5101c25b054a378f0dbe97970c36ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 10/49] fix: promote integer array centres to floating point

---
 src/torchrir/geometry/arrays.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 9c8f75f..bfb60af 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -8,7 +8,7 @@ from typing import Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor
+from ..util.tensor import as_tensor, ensure_floating
 
 
 def binaural_array(
@@ -19,7 +19,7 @@ def binaural_array(
     dtype: torch.dtype | None = None,
 ) -> Tensor:
     """Create a two-mic binaural layout around a center point."""
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     dim = center_t.numel()
     offset_vec = torch.zeros((dim,), device=center_t.device, dtype=center_t.dtype)
     offset_vec[0] = offset
@@ -43,7 +43,7 @@ def linear_array(
         raise ValueError("num must be positive")
     if spacing <= 0:
         raise ValueError("spacing must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     dim = center_t.numel()
     if direction is None:
         if axis < 0 or axis >= dim:
@@ -82,7 +82,7 @@ def circular_array(
         raise ValueError("num must be positive")
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     dim = center_t.numel()
 
     angles = torch.linspace(
@@ -139,7 +139,7 @@ def polyhedron_array(
     """Create a regular polyhedron microphone array (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     if center_t.numel() != 3:
         raise ValueError("polyhedron arrays require 3D centers")
     vertices = _polyhedron_vertices(kind, device=center_t.device, dtype=center_t.dtype)
@@ -159,7 +159,7 @@ def eigenmike_em32(
     """Create the mh acoustics Eigenmike em32 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em32 requires a 3D center")
     theta_deg = torch.tensor(
@@ -257,7 +257,7 @@ def eigenmike_em64(
     """Create the mh acoustics Eigenmike em64 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em64 requires a 3D center")
     theta_deg = torch.tensor(
-- 
2.43.0


From 2217a2b822b1638c6b47be916e9f4c761213cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 11/49] fix: handle array normals pointing along the negative
 reference axis

---
 src/torchrir/geometry/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index bfb60af..5151447 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -413,7 +413,7 @@ def _basis_from_normal(normal: Tensor) -> tuple[Tensor, Tensor]:
         raise ValueError("normal must be a 3D vector")
     n = normal / torch.linalg.norm(normal)
     ref = torch.tensor([1.0, 0.0, 0.0], device=normal.device, dtype=normal.dtype)
-    if torch.allclose(n, ref):
+    if torch.allclose(n.abs(), ref):
         ref = torch.tensor([0.0, 1.0, 0.0], device=normal.device, dtype=normal.dtype)
     basis_x = torch.cross(n, ref)
     basis_x = basis_x / torch.linalg.norm(basis_x)
-- 
2.43.0


From 87107a68948bc67824feddcfc795cc2ce4567213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 12/49] fix: linear_trajectory with a single step returns the
 start point

---
 src/torchrir/geometry/trajectories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/trajectories.py b/src/torchrir/geometry/trajectories.py
index 1affd23..4822305 100644
--- a/src/torchrir/geometry/trajectories.py
+++ b/src/torchrir/geometry/trajectories.py
@@ -8,7 +8,9 @@ from torch import Tensor
 
 def linear_trajectory(start: Tensor, end: Tensor, steps: int) -> Tensor:
     """Create a linear trajectory between start and end."""
+    if steps <= 0:
+        raise ValueError("steps must be positive")
     return torch.stack(
-        [start + (end - start) * t / (steps - 1) for t in range(steps)],
+        [start + (end - start) * t / max(steps - 1, 1) for t in range(steps)],
         dim=0,
     )
-- 
2.43.0


From d66d6850f49d4123ce7aee22de54c280ba4da8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 13/49] fix: compute exact microphone spacing for arrays above
 25 microphones

---
 src/torchrir/io/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/io/metadata.py b/src/torchrir/io/metadata.py
index e851224..d803dd9 100644
--- a/src/torchrir/io/metadata.py
+++ b/src/torchrir/io/metadata.py
@@ -192,7 +192,9 @@ def _array_attributes(mics: MicrophoneArray) -> ArrayAttributes:
     center = pos.mean(dim=0)
     spacing = None
     if n_mic >= 2:
-        dists = torch.cdist(pos, pos)
+        dists = torch.cdist(
+            pos, pos, compute_mode="donot_use_mm_for_euclid_dist"
+        )
         dists = dists[dists > 0]
         if dists.numel() > 0:
             spacing = float(dists.min().item())
-- 
2.43.0


From 66a860c6930b87e8b9d6906d7d3c3cf24335562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 14/49] fix: validate hop and source counts in dynamic
 convolution

---
 src/torchrir/signal/dynamic.py  | 6 +++++-
 src/torchrir/signal/internal.py | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 2b8da0d..e8f568f 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -13,7 +13,7 @@ from typing import Optional
 import torch
 from torch import Tensor
 
-from .internal import _ensure_dynamic_rirs, _ensure_signal
+from .internal import _ensure_dynamic_rirs, _ensure_signal, _match_source_count
 from .static import fft_convolve
 
 
@@ -49,6 +49,8 @@ class DynamicConvolver:
         if self.mode == "hop":
             if self.hop is None:
                 raise ValueError("hop must be provided for hop mode")
+            if self.hop <= 0:
+                raise ValueError("hop must be positive")
             return _convolve_dynamic_hop(signal, rirs, self.hop)
         return _convolve_dynamic_trajectory(
             signal, rirs, timestamps=self.timestamps, fs=self.fs
@@ -58,6 +60,7 @@ class DynamicConvolver:
 def _convolve_dynamic_hop(signal: Tensor, rirs: Tensor, hop: int) -> Tensor:
     signal = _ensure_signal(signal)
     rirs = _ensure_dynamic_rirs(rirs, signal)
+    signal = _match_source_count(signal, rirs.shape[1])
     return _convolve_dynamic_rir_hop(signal, rirs, hop)
 
 
@@ -70,6 +73,7 @@ def _convolve_dynamic_trajectory(
 ) -> Tensor:
     signal = _ensure_signal(signal)
     rirs = _ensure_dynamic_rirs(rirs, signal)
+    signal = _match_source_count(signal, rirs.shape[1])
     return _convolve_dynamic_rir_trajectory(signal, rirs, timestamps=timestamps, fs=fs)
 
 
diff --git a/src/torchrir/signal/internal.py b/src/torchrir/signal/internal.py
index faca6e5..b91603b 100644
--- a/src/torchrir/signal/internal.py
+++ b/src/torchrir/signal/internal.py
@@ -14,6 +14,13 @@ def _ensure_signal(signal: Tensor) -> Tensor:
     raise ValueError("signal must have shape (n_samples,) or (n_src, n_samples)")
 
 
+def _match_source_count(signal: Tensor, n_src: int) -> Tensor:
+    """Share a single signal between sources; reject any other count mismatch."""
+    if signal.shape[0] not in (1, n_src):
+        raise ValueError("signal source count does not match rirs")
+    return signal.expand(n_src, -1)
+
+
 def _ensure_static_rirs(rirs: Tensor) -> Tensor:
     """Normalize static RIR shapes to (n_src, n_mic, rir_len)."""
     if rirs.ndim == 1:
-- 
2.43.0


From 72f942e9b18d8f04189a4248f161065635d82722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 15/49] fix: reject decreasing or out-of-range timestamps in
 dynamic convolution

---
 src/torchrir/signal/dynamic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index e8f568f..ab606d3 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -124,6 +124,10 @@ def _convolve_dynamic_rir_trajectory(
         if ts[0].item() != 0:
             raise ValueError("first timestamp must be 0")
         w_ini = (ts * fs).to(torch.long)
+        if torch.any(w_ini[1:] < w_ini[:-1]) or w_ini[-1].item() > n_samples:
+            raise ValueError(
+                "timestamps must be non-decreasing and lie within the signal"
+            )
     else:
         step_fs = n_samples / t_steps
         ts_dtype = torch.float32 if signal.device.type == "mps" else torch.float64
-- 
2.43.0


From e970b2e8b1a4f7a44a7a99f41d3ab393d58e8384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 16/49] fix: let later setup_logging calls update level and
 format

---
 src/torchrir/logging.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 5d2692c..32f45a0 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -39,6 +39,10 @@ class LoggingConfig:
         return replace(self, **kwargs)
 
 
+class _TorchrirHandler(logging.StreamHandler):
+    """Handler installed by setup_logging and updated by later calls."""
+
+
 def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.Logger:
     """Configure and return the base torchrir logger.
 
@@ -52,11 +56,13 @@ def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.L
     level = config.resolve_level()
     logger.setLevel(level)
     logger.propagate = config.propagate
+    own = [h for h in logger.handlers if isinstance(h, _TorchrirHandler)]
     if not logger.handlers:
-        handler = logging.StreamHandler()
+        own = [_TorchrirHandler()]
+        logger.addHandler(own[0])
+    for handler in own:
         handler.setLevel(level)
         handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))
-        logger.addHandler(handler)
     return logger
 
 
-- 
2.43.0


From 9b26d924202b6b9c659091566c301fcbe9457a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 17/49] fix: namespace logger names that merely start with
 torchrir

---
 src/torchrir/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 32f45a0..5dc2ac5 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -76,7 +76,7 @@ def get_logger(name: Optional[str] = None) -> logging.Logger:
     """
     if not name:
         return logging.getLogger("torchrir")
-    if name.startswith("torchrir"):
+    if name == "torchrir" or name.startswith("torchrir."):
         return logging.getLogger(name)
     return logging.getLogger(f"torchrir.{name}")
 
-- 
2.43.0


From 1c1cb94a3fef68a3ebbbe3fe07b58792e45ee4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 18/49] fix: resolve device strings case-insensitively and fall
 back for mps indices

---
 src/torchrir/util/device.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/util/device.py b/src/torchrir/util/device.py
index 4df5f00..2784c3b 100644
--- a/src/torchrir/util/device.py
+++ b/src/torchrir/util/device.py
@@ -41,18 +41,18 @@ def resolve_device(
 
     if dev.startswith("cuda"):
         if torch.cuda.is_available():
-            return torch.device(device)
+            return torch.device(dev)
         warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
-    if dev == "mps":
+    if dev.startswith("mps"):
         if torch.backends.mps.is_available():
-            return torch.device("mps")
+            return torch.device(dev)
         warnings.warn("MPS not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
     if dev == "cpu":
         return torch.device("cpu")
 
-    return torch.device(device)
+    return torch.device(dev)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 23b7173911dc6d0c0ef2899303427cbe2db2d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 19/49] fix: write WAV data for every accepted wav spelling

---
 src/torchrir/io/__init__.py | 8 ++++++--
 src/torchrir/io/audio.py    | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/io/__init__.py b/src/torchrir/io/__init__.py
index b695348..88e0ef3 100644
--- a/src/torchrir/io/__init__.py
+++ b/src/torchrir/io/__init__.py
@@ -28,7 +28,7 @@ class AudioBackend:
 
     name: str
     load: Callable[[Path, str], Tuple[Tensor, int]]
-    save: Callable[[Path, Tensor, int, bool, float, str | None], None]
+    save: Callable[..., None]
     info: Callable[[Path], AudioInfo]
 
 
@@ -43,6 +43,7 @@ def _soundfile_save(
     normalize: bool,
     peak: float,
     subtype: str | None,
+    format: str | None = None,
 ) -> None:
     _save_audio(
         path,
@@ -51,6 +52,7 @@ def _soundfile_save(
         normalize=normalize,
         peak=peak,
         subtype=subtype,
+        format=format,
     )
 
 
@@ -153,7 +155,9 @@ def save_wav(
             "Use torchrir.io.audio.save_audio for non-wav formats."
         )
     backend_impl = _resolve_backend(backend)
-    backend_impl.save(path, audio, sample_rate, normalize, peak, subtype)
+    backend_impl.save(
+        path, audio, sample_rate, normalize, peak, subtype, format="WAV"
+    )
 
 
 def info_wav(
diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2a9ea63..37557de 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -104,10 +104,14 @@ def _save_audio(
     normalize: bool = True,
     peak: float = 1.0,
     subtype: str | None = None,
+    format: str | None = None,
 ) -> None:
     """Save a mono or multi-channel audio file to disk."""
     import soundfile as sf
 
+    if format is None and path.suffix.lower() == ".wave":
+        format = "WAV"
+
     audio = audio.detach().cpu().to(torch.float32)
     if normalize:
         if peak <= 0:
@@ -120,7 +124,7 @@ def _save_audio(
     if subtype is None:
         # Backward-compatible fallback for tensors that carry custom attrs.
         subtype = getattr(audio, "_torchrir_subtype", None)
-    sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)
+    sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype, format=format)
 
 
 def save(
-- 
2.43.0


From 87a42b27c1366c8a197d2efebcf99130b87f7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 20/49] fix: recognise channel-first audio with more than eight
 channels

---
 src/torchrir/io/audio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 37557de..a35d230 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -119,7 +119,7 @@ def _save_audio(
         max_val = float(audio.abs().max().item()) if audio.numel() else 0.0
         if max_val > 0:
             audio = audio / max_val * peak
-    if audio.ndim == 2 and audio.shape[0] <= 8:
+    if audio.ndim == 2 and (audio.shape[0] <= 8 or audio.shape[0] < audio.shape[1]):
         audio = audio.transpose(0, 1)
     if subtype is None:
         # Backward-compatible fallback for tensors that carry custom attrs.
-- 
2.43.0


From b84c9989a4301bc8c8ac673c5182b1d0704b64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 21/49] fix: keep out-of-range samples when normalisation is
 off

---
 src/torchrir/io/audio.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index a35d230..bfe235c 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -124,6 +124,15 @@ def _save_audio(
     if subtype is None:
         # Backward-compatible fallback for tensors that carry custom attrs.
         subtype = getattr(audio, "_torchrir_subtype", None)
+    if (
+        subtype is None
+        and not normalize
+        and (format or path.suffix.lstrip(".")).lower() in {"wav", "wave"}
+        and audio.numel()
+        and float(audio.abs().max().item()) > 1.0
+    ):
+        # The default 16-bit subtype would clip; keep out-of-range values.
+        subtype = "FLOAT"
     sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype, format=format)
 
 
-- 
2.43.0


From 7ad89abd28e4e855adb2870559452ee3578206e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 22/49] fix: iterate LibriSpeech transcripts in a deterministic
 order

---
 src/torchrir/datasets/librispeech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index ee10fbd..6347fc6 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -101,7 +101,7 @@ class LibriSpeechDataset(BaseDataset):
         search_root = (
             self._speaker_dir if self._speaker_dir is not None else self._subset_dir
         )
-        for trans_path in search_root.rglob("*.trans.txt"):
+        for trans_path in sorted(search_root.rglob("*.trans.txt")):
             chapter_dir = trans_path.parent
             speaker_id = chapter_dir.parent.name
             chapter_id = chapter_dir.name
-- 
2.43.0


From f29a6da6a6a19d6669639d4ed838c1cb14c01dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 23/49] fix: fall back to the sentence speaker in DatasetItem

---
 src/torchrir/datasets/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/datasets/base.py b/src/torchrir/datasets/base.py
index 7d646d5..b1c8ff1 100644
--- a/src/torchrir/datasets/base.py
+++ b/src/torchrir/datasets/base.py
@@ -60,6 +60,8 @@ class BaseDataset(Dataset[DatasetItem]):
         sentence = sentences[idx]
         audio, sample_rate = self.load_audio(sentence.utterance_id)
         speaker = getattr(self, "speaker", None)
+        if speaker is None:
+            speaker = getattr(sentence, "speaker_id", None)
         text = getattr(sentence, "text", None)
         return DatasetItem(
             audio=audio,
-- 
2.43.0


From d08f7fa47276a6cc4f4f9b833743e4495df001ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 24/49] fix: report corrupt compressed archives as archive
 errors

---
 src/torchrir/datasets/librispeech.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 6347fc6..25f4187 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Tuple
@@ -143,7 +144,7 @@ class LibriSpeechDataset(BaseDataset):
             try:
                 with tarfile.open(archive_path, "r:gz") as tar:
                     safe_extractall(tar, self.root)
-            except (tarfile.ReadError, EOFError, OSError) as exc:
+            except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
-- 
2.43.0


From d8e49cfe611577e88ff3849c609a14c94b0e3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 25/49] fix: extract archives into a staging directory before
 publishing them

---
 src/torchrir/datasets/_archive.py    | 28 ++++++++++++++++++++++++++++
 src/torchrir/datasets/cmu_arctic.py  |  6 +++---
 src/torchrir/datasets/librispeech.py |  6 +++---
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index 469032c..452b2a7 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import os
+import shutil
 import tarfile
 from pathlib import Path
 
@@ -19,3 +20,30 @@ def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
             raise ValueError(f"unsafe archive member path: {member.name}")
 
     tar.extractall(root)
+
+
+def extract_staged(tar: tarfile.TarFile, dest: Path) -> None:
+    """Extract into a staging directory and move the result into place when complete.
+
+    An interrupted or failing extraction leaves only the staging directory behind,
+    which the next attempt removes, so a partial tree never looks like a dataset.
+    """
+    staging = dest / ".torchrir-extract"
+    if staging.exists():
+        shutil.rmtree(staging)
+    staging.mkdir(parents=True)
+    try:
+        safe_extractall(tar, staging)
+        _merge_into(staging, dest)
+    finally:
+        shutil.rmtree(staging, ignore_errors=True)
+
+
+def _merge_into(src: Path, dest: Path) -> None:
+    """Move the entries of src into dest, descending only into existing directories."""
+    for entry in src.iterdir():
+        target = dest / entry.name
+        if entry.is_dir() and target.is_dir():
+            _merge_into(entry, target)
+        else:
+            entry.replace(target)
diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index c59f12a..79b3be1 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -12,7 +12,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_staged
 from .base import BaseDataset
 from ..io.audio import load
 
@@ -114,14 +114,14 @@ class CmuArcticDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                    extract_staged(tar, self._base_dir)
             except (tarfile.ReadError, EOFError, OSError) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                    extract_staged(tar, self._base_dir)
 
     def sentences(self) -> List[CmuArcticSentence]:
         """Parse all sentence metadata."""
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 25f4187..bba6909 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -13,7 +13,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_staged
 from .base import BaseDataset
 from ..io.audio import load_audio
 
@@ -143,14 +143,14 @@ class LibriSpeechDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                    extract_staged(tar, self.root)
             except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                    extract_staged(tar, self.root)
 
     def attribution_info(self) -> DatasetAttribution:
         """Return attribution and license information for LibriSpeech."""
-- 
2.43.0


From 483ee3b1061ed88a1b5d58c68d76bf5c806f1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 26/49] fix: keep the mixture of built scenes below clipping

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ac3c1b6..423a94a 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -407,7 +407,8 @@ def _load_fixed_length_signal(
 def _normalize_sources(
     stems: list[np.ndarray], *, peak_limit: float = 0.99
 ) -> list[np.ndarray]:
-    peak = max(float(np.max(np.abs(stem))) for stem in stems)
+    mixture = np.sum(np.stack(stems, axis=0), axis=0)
+    peak = max(float(np.max(np.abs(stem))) for stem in [*stems, mixture])
     if peak <= 0.0 or peak <= peak_limit:
         return stems
     scale = peak_limit / peak
-- 
2.43.0


From 2be87bcdc3a86df6a94f78c59980cafb32f2d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 27/49] fix: delete an overwritten dataset only once the new
 one can be built

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 46 ++++++++++++---------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 423a94a..4e7a8b3 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -507,8 +507,6 @@ def build_dynamic_cmu_arctic_dataset(
             raise FileExistsError(
                 f"Dataset root already exists: {dataset_root}. Use overwrite=True."
             )
-        shutil.rmtree(dataset_root)
-    dataset_root.mkdir(parents=True, exist_ok=True)
 
     rng = np.random.default_rng(seed)
     rng_py = random.Random(seed)
@@ -557,10 +555,9 @@ def build_dynamic_cmu_arctic_dataset(
     )
     convolver = DynamicConvolver(mode="trajectory")
 
-    for scene_idx in range(n_scenes):
-        scene_id = f"scene_{scene_idx:04d}"
-        scene_dir = dataset_root / scene_id
-        scene_dir.mkdir(parents=True, exist_ok=True)
+    # Place every scene before touching the output: infeasible requests fail here.
+    placements = []
+    for _ in range(n_scenes):
         if randomize_mic_center:
             scene_mic_center = _sample_random_mic_center(
                 rng=rng,
@@ -571,6 +568,25 @@ def build_dynamic_cmu_arctic_dataset(
             )
         else:
             scene_mic_center = np.asarray(mic_center_arr, dtype=np.float64)
+        positions = _build_constrained_source_positions(
+            rng=rng,
+            room_size=room_size_arr,
+            mic_center=scene_mic_center,
+            margin=source_margin_arr,
+            n_sources=n_sources,
+            n_moving_sources=n_moving_sources,
+            duration_sec=float(duration_sec),
+            move_start_ratio=move_start_ratio,
+            move_end_ratio=move_end_ratio,
+            moving_speed_min=moving_speed_min,
+            moving_speed_max=moving_speed_max,
+            min_radius_m=min_source_distance_m,
+        )
+        placements.append((scene_mic_center, positions))
+
+    for scene_idx, (scene_mic_center, positions) in enumerate(placements):
+        scene_id = f"scene_{scene_idx:04d}"
+        scene_dir = dataset_root / scene_id
         mic_positions = base_mic_positions + scene_mic_center[None, :]
         mics = MicrophoneArray.from_positions(
             mic_positions.tolist(), dtype=torch.float64
@@ -601,20 +617,7 @@ def build_dynamic_cmu_arctic_dataset(
             angular_velocity_rad_s,
             turn_direction,
             moving_indices,
-        ) = _build_constrained_source_positions(
-            rng=rng,
-            room_size=room_size_arr,
-            mic_center=scene_mic_center,
-            margin=source_margin_arr,
-            n_sources=n_sources,
-            n_moving_sources=n_moving_sources,
-            duration_sec=float(duration_sec),
-            move_start_ratio=move_start_ratio,
-            move_end_ratio=move_end_ratio,
-            moving_speed_min=moving_speed_min,
-            moving_speed_max=moving_speed_max,
-            min_radius_m=min_source_distance_m,
-        )
+        ) = positions
 
         src_traj_np = _build_source_trajectory(
             starts=starts,
@@ -660,6 +663,9 @@ def build_dynamic_cmu_arctic_dataset(
         stems = _normalize_sources(stems)
         mix = np.sum(np.stack(stems, axis=0), axis=0)
 
+        if scene_idx == 0 and dataset_root.exists():
+            shutil.rmtree(dataset_root)
+        scene_dir.mkdir(parents=True, exist_ok=True)
         for src_idx, stem in enumerate(stems):
             sf.write(scene_dir / f"source_{src_idx:02d}.wav", stem, sample_rate)
         mixture_path = scene_dir / "mixture.wav"
-- 
2.43.0


From 495d29dbe35e05981aedc8803d39dd2cc136e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 28/49] fix: refuse to build a dataset over its own corpus

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 4e7a8b3..794534d 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -502,6 +502,10 @@ def build_dynamic_cmu_arctic_dataset(
     move_start_sec = float(duration_sec) * move_start_ratio
     move_end_sec = float(duration_sec) * move_end_ratio
 
+    corpus = cmu_root.expanduser().resolve()
+    output = dataset_root.expanduser().resolve()
+    if output == corpus or output in corpus.parents:
+        raise ValueError("dataset_root must not contain cmu_root")
     if dataset_root.exists():
         if not overwrite:
             raise FileExistsError(
-- 
2.43.0


From c89070d5b964fa133cf8995d1a11cc5824dcc2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 29/49] fix: reject microphone arrays that do not fit inside
 the room

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 794534d..6a0a77f 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -572,6 +572,9 @@ def build_dynamic_cmu_arctic_dataset(
             )
         else:
             scene_mic_center = np.asarray(mic_center_arr, dtype=np.float64)
+        mics_at = base_mic_positions + scene_mic_center[None, :]
+        if np.any(mics_at < 0.0) or np.any(mics_at > room_size_arr):
+            raise ValueError("The microphone array does not fit inside the room.")
         positions = _build_constrained_source_positions(
             rng=rng,
             room_size=room_size_arr,
-- 
2.43.0


From 26f28b483e873f16061a3d1604d80e1045905fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 30/49] fix: label sources in 3D animations

---
 src/torchrir/viz/animation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index c333e6f..fcf1b22 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -217,7 +217,8 @@ def _build_scene_animation(
     source_texts = []
     if annotate_sources:
         for idx in range(view_src_traj.shape[1]):
-            text = ax.text(0.0, 0.0, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
+            origin = (0.0,) * view_dim
+            text = ax.text(*origin, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
             source_texts.append(text)
 
     ax.legend(loc="best", fontsize=_VIDEO_FONT_SIZE_PT)
-- 
2.43.0


From 8fe61834ef17ece67c281b89c93cc687f8020ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 31/49] fix: close figures when saving a plot or animation
 fails

---
 src/torchrir/viz/animation.py | 14 +++++++++-----
 src/torchrir/viz/utils.py     | 14 ++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index fcf1b22..09a8547 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -69,8 +69,10 @@ def animate_scene_gif(
         annotate_sources=annotate_sources,
         annotation_lines=annotation_lines,
     )
-    anim.save(out_path, writer="pillow", fps=fps_out)
-    plt.close(fig)
+    try:
+        anim.save(out_path, writer="pillow", fps=fps_out)
+    finally:
+        plt.close(fig)
     return out_path
 
 
@@ -124,9 +126,11 @@ def animate_scene_mp4(
         annotation_lines=annotation_lines,
         figsize=_MP4_FIGSIZE_INCHES,
     )
-    writer = FFMpegWriter(fps=fps_out)
-    anim.save(out_path, writer=writer, dpi=_MP4_DPI)
-    plt.close(fig)
+    try:
+        writer = FFMpegWriter(fps=fps_out)
+        anim.save(out_path, writer=writer, dpi=_MP4_DPI)
+    finally:
+        plt.close(fig)
 
     if mux_audio and mixture_path is not None:
         _add_stereo_audio_to_mp4(
diff --git a/src/torchrir/viz/utils.py b/src/torchrir/viz/utils.py
index e9dba86..ac8f91c 100644
--- a/src/torchrir/viz/utils.py
+++ b/src/torchrir/viz/utils.py
@@ -76,12 +76,14 @@ def _save_axes(ax: Any, path: Path, *, show: bool) -> None:
     import matplotlib.pyplot as plt
 
     fig = ax.figure
-    fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
-    fig.tight_layout()
-    fig.savefig(path, dpi=_STATIC_SAVE_DPI)
-    if show:
-        plt.show()
-    plt.close(fig)
+    try:
+        fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
+        fig.tight_layout()
+        fig.savefig(path, dpi=_STATIC_SAVE_DPI)
+        if show:
+            plt.show()
+    finally:
+        plt.close(fig)
 
 
 def _add_axes_annotation(
-- 
2.43.0


From 498b0a2015abcdfa3c566fd758fdc4a3b4ef0a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 32/49] fix: plot integer trajectories

---
 src/torchrir/viz/scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/viz/scene.py b/src/torchrir/viz/scene.py
index 1743c24..da3205f 100644
--- a/src/torchrir/viz/scene.py
+++ b/src/torchrir/viz/scene.py
@@ -8,7 +8,7 @@ import torch
 from torch import Tensor
 
 from ..models import MicrophoneArray, Room, Source
-from ..util.tensor import as_tensor, ensure_dim
+from ..util.tensor import as_tensor, ensure_dim, ensure_floating
 from .utils import _add_axes_annotation, _ensure_default_mpl_style
 
 _MIC_COLOR = "tab:orange"
@@ -260,7 +260,7 @@ def _scatter_positions(
 
 def _as_trajectory(traj: Tensor | Sequence) -> Tensor:
     """Validate and normalize a trajectory tensor."""
-    traj = as_tensor(traj)
+    traj = ensure_floating(as_tensor(traj))
     if traj.ndim != 3:
         raise ValueError("trajectory must be of shape (T, N, dim)")
     return traj
-- 
2.43.0


From 62d803cda4b3eff65213fc549d9dc4ef727c01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:09 +0000
Subject: [PATCH 33/49] fix: use the configured directivity when none is passed

---
 src/torchrir/sim/ism/api.py    | 4 ++--
 src/torchrir/sim/simulators.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/sim/ism/api.py b/src/torchrir/sim/ism/api.py
index 9e23d86..32d9516 100644
--- a/src/torchrir/sim/ism/api.py
+++ b/src/torchrir/sim/ism/api.py
@@ -40,7 +40,7 @@ def simulate_rir(
     nsample: Optional[int] = None,
     tmax: Optional[float] = None,
     tdiff: Optional[float] = None,
-    directivity: str | tuple[str, str] | None = "omni",
+    directivity: str | tuple[str, str] | None = None,
     orientation: Optional[Tensor | tuple[Tensor, Tensor]] = None,
     config: Optional[SimulationConfig] = None,
     device: Optional[torch.device | str] = None,
@@ -144,7 +144,7 @@ def simulate_dynamic_rir(
     nb_img: Optional[Tensor | Tuple[int, ...]] = None,
     nsample: Optional[int] = None,
     tmax: Optional[float] = None,
-    directivity: str | tuple[str, str] | None = "omni",
+    directivity: str | tuple[str, str] | None = None,
     orientation: Optional[Tensor | tuple[Tensor, Tensor]] = None,
     config: Optional[SimulationConfig] = None,
     device: Optional[torch.device | str] = None,
diff --git a/src/torchrir/sim/simulators.py b/src/torchrir/sim/simulators.py
index 795756a..f3d08e9 100644
--- a/src/torchrir/sim/simulators.py
+++ b/src/torchrir/sim/simulators.py
@@ -35,7 +35,7 @@ class ISMSimulator:
     max_order: int
     tmax: float | None = None
     nsample: int | None = None
-    directivity: str | tuple[str, str] | None = "omni"
+    directivity: str | tuple[str, str] | None = None
     nb_img: torch.Tensor | tuple[int, ...] | None = None
     device: torch.device | str | None = None
     dtype: torch.dtype | None = None
-- 
2.43.0


From ecb73ef6e74aec4784d244c46757daa58d971282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 34/49] fix: reject sampling margins that do not fit inside the
 room

---
 src/torchrir/geometry/sampling.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 2725621..bf7798e 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -9,6 +9,17 @@ import torch
 from torch import Tensor
 
 
+def _sampling_bounds(
+    room_size: Tensor, margin: float
+) -> tuple[List[float], List[float]]:
+    """Per-axis sampling interval that keeps the margin from every wall."""
+    low = [margin] * room_size.numel()
+    high = [float(length) - margin for length in room_size.tolist()]
+    if any(lo > hi for lo, hi in zip(low, high)):
+        raise ValueError("margin does not fit inside the room")
+    return low, high
+
+
 def sample_positions(
     *,
     num: int,
@@ -18,8 +29,7 @@ def sample_positions(
 ) -> Tensor:
     """Sample random positions within a room with a safety margin."""
     dim = room_size.numel()
-    low = [margin] * dim
-    high = [float(room_size[i].item()) - margin for i in range(dim)]
+    low, high = _sampling_bounds(room_size, margin)
     coords: List[List[float]] = []
     for _ in range(num):
         point = [rng.uniform(low[i], high[i]) for i in range(dim)]
@@ -65,8 +75,7 @@ def sample_positions_min_distance(
     center = center.to(dtype=torch.float32).reshape(-1)
     if center.numel() != dim:
         raise ValueError("center dimension must match room_size.")
-    low = [margin] * dim
-    high = [float(room_size[i].item()) - margin for i in range(dim)]
+    low, high = _sampling_bounds(room_size, margin)
     coords: List[List[float]] = []
     attempts = 0
     while len(coords) < num and attempts < max_attempts:
-- 
2.43.0


From af3f7ffd6d6a22a867a18ce2516ee352fe3829bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 35/49] fix: honour a height range that allows a single height

---
 src/torchrir/geometry/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index bf7798e..709bd01 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -52,7 +52,7 @@ def sample_positions_with_z_range(
     z_min, z_max = z_range
     z_low = max(margin, float(z_min))
     z_high = min(float(room_size[2].item()) - margin, float(z_max))
-    if z_high <= z_low:
+    if z_high < z_low:
         return positions
     z_vals = [rng.uniform(z_low, z_high) for _ in range(num)]
     positions[:, 2] = torch.tensor(z_vals, dtype=positions.dtype)
@@ -85,7 +85,7 @@ def sample_positions_min_distance(
             z_min, z_max = z_range
             z_low = max(margin, float(z_min))
             z_high = min(float(room_size[2].item()) - margin, float(z_max))
-            if z_high > z_low:
+            if z_high >= z_low:
                 point[2] = rng.uniform(z_low, z_high)
         dist = torch.linalg.norm(torch.tensor(point) - center).item()
         if dist >= min_distance:
-- 
2.43.0


From f04f20f6fad1635b8a2458cb4f25735b9520bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:49 +0000
Subject: [PATCH 36/49] fix: clamp positions in rooms given with integer sizes

---
 src/torchrir/geometry/sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 709bd01..fc14a84 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -8,6 +8,8 @@ from typing import List
 import torch
 from torch import Tensor
 
+from ..util.tensor import ensure_floating
+
 
 def _sampling_bounds(
     room_size: Tensor, margin: float
@@ -99,6 +101,7 @@ def clamp_positions(
     positions: Tensor, room_size: Tensor, margin: float = 0.1
 ) -> Tensor:
     """Clamp positions to remain inside the room with a margin."""
+    room_size = ensure_floating(room_size)
     min_v = torch.full_like(room_size, margin)
     max_v = room_size - margin
     return torch.max(torch.min(positions, max_v), min_v)
-- 
2.43.0


From d930e5eace20dff399f8b34db4a359a2b0893a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:46 +0000
Subject: [PATCH 37/49] fix: let the content, not the file name, decide the
 format when loading audio

---
 src/torchrir/io/audio.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index bfe235c..fcbedbe 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -36,8 +36,10 @@ def _load_audio_data(path: Path, *, caller: str) -> AudioData:
     """Load an audio file and return explicit audio + metadata."""
     import soundfile as sf
 
-    info = sf.info(str(path))
-    audio, sample_rate = sf.read(str(path), dtype="float32", always_2d=True)
+    # Opened by descriptor: the content decides the format, not the file name.
+    with open(path, "rb") as f, sf.SoundFile(f.fileno(), closefd=False) as info:
+        audio = info.read(dtype="float32", always_2d=True)
+        sample_rate = info.samplerate
     audio_t = torch.from_numpy(audio)
     if audio_t.shape[1] > 1:
         warnings.warn(
@@ -220,12 +222,12 @@ def info_audio(path: Path) -> AudioInfo:
     """Return metadata for an audio file (wav/flac/other supported by soundfile)."""
     import soundfile as sf
 
-    info = sf.info(str(path))
-    return AudioInfo(
-        sample_rate=info.samplerate,
-        num_frames=info.frames,
-        num_channels=info.channels,
-        format=info.format,
-        subtype=info.subtype,
-        duration=float(info.duration),
-    )
+    with open(path, "rb") as f, sf.SoundFile(f.fileno(), closefd=False) as info:
+        return AudioInfo(
+            sample_rate=info.samplerate,
+            num_frames=info.frames,
+            num_channels=info.channels,
+            format=info.format,
+            subtype=info.subtype,
+            duration=float(info.frames) / info.samplerate,
+        )
-- 
2.43.0


From 4a90ce70718a23b05ea3eebf92e985478a237183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:50 +0000
Subject: [PATCH 38/49] fix: check archive members against links already in the
 destination

---
 src/torchrir/datasets/_archive.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index 452b2a7..ac76ec9 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -11,6 +11,12 @@ from pathlib import Path
 def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
     """Extract a tar archive while rejecting unsafe paths and links."""
     root = dest.resolve()
+    _check_members(tar, root)
+    tar.extractall(root)
+
+
+def _check_members(tar: tarfile.TarFile, root: Path) -> None:
+    """Raise ValueError when a member is a link or would be written outside root."""
     for member in tar.getmembers():
         if member.issym() or member.islnk():
             raise ValueError(f"archive contains links, which are not allowed: {member.name}")
@@ -19,8 +25,6 @@ def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
         if os.path.commonpath([str(root), str(target)]) != str(root):
             raise ValueError(f"unsafe archive member path: {member.name}")
 
-    tar.extractall(root)
-
 
 def extract_staged(tar: tarfile.TarFile, dest: Path) -> None:
     """Extract into a staging directory and move the result into place when complete.
@@ -28,6 +32,7 @@ def extract_staged(tar: tarfile.TarFile, dest: Path) -> None:
     An interrupted or failing extraction leaves only the staging directory behind,
     which the next attempt removes, so a partial tree never looks like a dataset.
     """
+    _check_members(tar, dest.resolve())
     staging = dest / ".torchrir-extract"
     if staging.exists():
         shutil.rmtree(staging)
-- 
2.43.0


From b9d7af30b704c898fbda32530e6521674caf69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 39/49] fix: download nothing when the dataset is already
 extracted

---
 src/torchrir/datasets/cmu_arctic.py  | 2 ++
 src/torchrir/datasets/librispeech.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index 79b3be1..e485ea4 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -103,6 +103,8 @@ class CmuArcticDataset(BaseDataset):
 
     def _download_and_extract(self) -> None:
         """Download and extract the speaker archive if needed."""
+        if self._dataset_dir.exists():
+            return
         self._base_dir.mkdir(parents=True, exist_ok=True)
         archive_path = self._base_dir / self._archive_name
         url = f"{BASE_URL}/{self._archive_name}"
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index bba6909..3011fc6 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -132,6 +132,8 @@ class LibriSpeechDataset(BaseDataset):
 
     def _download_and_extract(self) -> None:
         """Download and extract the subset archive if needed."""
+        if self._subset_dir.exists():
+            return
         self.root.mkdir(parents=True, exist_ok=True)
         archive_path = self.root / self._archive_name
         url = f"{BASE_URL}/{self._archive_name}"
-- 
2.43.0


From d4f507cb3f5483f4041ee10e936c1358ce229457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:59 +0000
Subject: [PATCH 40/49] fix: verify the archive checksum before publishing the
 extracted dataset

---
 src/torchrir/datasets/_archive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index ac76ec9..10a42a3 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -39,6 +39,9 @@ def extract_staged(tar: tarfile.TarFile, dest: Path) -> None:
     staging.mkdir(parents=True)
     try:
         safe_extractall(tar, staging)
+        # Read to the end of the compressed stream so that its checksum is verified.
+        while tar.fileobj is not None and tar.fileobj.read(1024 * 1024):
+            pass
         _merge_into(staging, dest)
     finally:
         shutil.rmtree(staging, ignore_errors=True)
-- 
2.43.0


From 409e9733ffef7a50bfe92ff4ae24093fd081f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 41/49] fix: keep cached filter constants usable for autograd
 after inference-mode calls

---
 src/torchrir/sim/ism/accumulate.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/torchrir/sim/ism/accumulate.py b/src/torchrir/sim/ism/accumulate.py
index 6529d0d..a3bb85d 100644
--- a/src/torchrir/sim/ism/accumulate.py
+++ b/src/torchrir/sim/ism/accumulate.py
@@ -128,7 +128,8 @@ def _get_fdl_grid(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Tens
     key = (fdl, str(device), dtype)
     cached = _FDL_GRID_CACHE.get(key)
     if cached is None:
-        cached = torch.arange(fdl, device=device, dtype=dtype)
+        with torch.inference_mode(False):
+            cached = torch.arange(fdl, device=device, dtype=dtype)
         _FDL_GRID_CACHE[key] = cached
     return cached
 
@@ -138,7 +139,8 @@ def _get_fdl_offsets(fdl: int, *, device: torch.device) -> Tensor:
     cached = _FDL_OFFSETS_CACHE.get(key)
     if cached is None:
         fdl2 = (fdl - 1) // 2
-        cached = torch.arange(fdl, device=device, dtype=torch.int64) - fdl2
+        with torch.inference_mode(False):
+            cached = torch.arange(fdl, device=device, dtype=torch.int64) - fdl2
         _FDL_OFFSETS_CACHE[key] = cached
     return cached
 
@@ -147,7 +149,8 @@ def _get_fdl_window(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Te
     key = (fdl, str(device), dtype)
     cached = _FDL_WINDOW_CACHE.get(key)
     if cached is None:
-        cached = torch.hann_window(fdl, periodic=False, device=device, dtype=dtype)
+        with torch.inference_mode(False):
+            cached = torch.hann_window(fdl, periodic=False, device=device, dtype=dtype)
         _FDL_WINDOW_CACHE[key] = cached
     return cached
 
@@ -162,7 +165,8 @@ def _get_sinc_lut(
         return cached
     fdl2 = (fdl - 1) // 2
     lut_size = (fdl + 1) * lut_gran + 1
-    n = torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size, device=device, dtype=dtype)
-    cached = torch.sinc(n)
+    with torch.inference_mode(False):
+        n = torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size, device=device, dtype=dtype)
+        cached = torch.sinc(n)
     _SINC_LUT_CACHE[key] = cached
     return cached
-- 
2.43.0


From 99724ccd1a88b67b6c3c99e635f94c3e4714375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 42/49] fix: refuse to build a dataset over the speaker folders
 it reads

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 6a0a77f..3f1e196 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -519,6 +519,9 @@ def build_dynamic_cmu_arctic_dataset(
     sample_rate: int | None = None
     for speaker in speakers_list:
         ds = CmuArcticDataset(root=cmu_root, speaker=speaker, download=download_cmu)
+        for part in (ds.audio_dir.resolve(), ds.text_path.parent.resolve()):
+            if output == part or output in part.parents:
+                raise ValueError("dataset_root must not contain the corpus")
         dataset_cache[speaker] = ds
         test_ids = ds.available_sentences()
         if not test_ids:
-- 
2.43.0


From 01ab256f74235d98fb058c9bb60b82cb952314c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:56 +0000
Subject: [PATCH 43/49] fix: overlap check takes the literal paths the builder
 writes to

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 3f1e196..b49cb6b 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -502,8 +502,8 @@ def build_dynamic_cmu_arctic_dataset(
     move_start_sec = float(duration_sec) * move_start_ratio
     move_end_sec = float(duration_sec) * move_end_ratio
 
-    corpus = cmu_root.expanduser().resolve()
-    output = dataset_root.expanduser().resolve()
+    corpus = cmu_root.resolve()
+    output = dataset_root.resolve()
     if output == corpus or output in corpus.parents:
         raise ValueError("dataset_root must not contain cmu_root")
     if dataset_root.exists():
-- 
2.43.0


From 3712c97f5086c9c772c968bf68553e7dc96c439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 44/49] fix: load_dataset_sources rejects durations without a
 sample

---
 src/torchrir/datasets/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/datasets/utils.py b/src/torchrir/datasets/utils.py
index 75b1940..ad4a4a6 100644
--- a/src/torchrir/datasets/utils.py
+++ b/src/torchrir/datasets/utils.py
@@ -82,6 +82,8 @@ def load_dataset_sources(
             if fs is None:
                 fs = sample_rate
                 target_samples = int(duration_s * fs)
+                if target_samples <= 0:
+                    raise ValueError("duration_s must cover at least one sample")
             elif sample_rate != fs:
                 raise ValueError(
                     f"sample rate mismatch: expected {fs}, got {sample_rate} for {speaker}"
-- 
2.43.0


From 176f3ce09c54746432a74109f8fc869fb3136fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 45/49] fix: load_dataset_sources does not loop forever on
 empty recordings

---
 src/torchrir/datasets/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/datasets/utils.py b/src/torchrir/datasets/utils.py
index ad4a4a6..52d8f1c 100644
--- a/src/torchrir/datasets/utils.py
+++ b/src/torchrir/datasets/utils.py
@@ -74,6 +74,8 @@ def load_dataset_sources(
 
         while target_samples is None or total < target_samples:
             if idx >= len(sentences):
+                if total == 0:
+                    raise RuntimeError(f"no audio samples for speaker {speaker}")
                 rng.shuffle(sentences)
                 idx = 0
             sentence = sentences[idx]
-- 
2.43.0


From 74fe1e8dd4e574b5da85076a10852c49b2efc481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 46/49] fix: dataset building does not loop forever on empty
 recordings

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index b49cb6b..9a2977c 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -391,6 +391,8 @@ def _load_fixed_length_signal(
 
     while total < target_samples:
         if idx >= len(local):
+            if total == 0:
+                raise RuntimeError("No audio samples in selected speaker dataset")
             rng_py.shuffle(local)
             idx = 0
         sentence = local[idx]
-- 
2.43.0


From 2ba2891d2b8dd6004a7b948caec2774c0634f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 47/49] fix: dataset building rejects utterances recorded at
 another rate

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 9a2977c..bfd8ee7 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -376,6 +376,7 @@ def _load_fixed_length_signal(
     dataset: CmuArcticDataset,
     *,
     target_samples: int,
+    sample_rate: int,
     rng_py: random.Random,
 ) -> tuple[torch.Tensor, list[str]]:
     sentences = list(dataset.available_sentences())
@@ -397,7 +398,12 @@ def _load_fixed_length_signal(
             idx = 0
         sentence = local[idx]
         idx += 1
-        waveform, _ = dataset.load_audio(sentence.utterance_id)
+        waveform, sr = dataset.load_audio(sentence.utterance_id)
+        if int(sr) != sample_rate:
+            raise ValueError(
+                f"Sample rate mismatch for {sentence.utterance_id}: "
+                f"expected {sample_rate}, got {int(sr)}"
+            )
         chunks.append(torch.as_tensor(waveform).reshape(-1))
         utterance_ids.append(sentence.utterance_id)
         total += int(chunks[-1].numel())
@@ -613,6 +619,7 @@ def build_dynamic_cmu_arctic_dataset(
             signal, utterance_ids = _load_fixed_length_signal(
                 dataset,
                 target_samples=target_samples,
+                sample_rate=sample_rate,
                 rng_py=rng_py,
             )
             source_signals.append(signal)
-- 
2.43.0


From c45d1eb6509abe63945180fd2eb104e1c3cf4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 48/49] fix: a movie whose audio cannot be added stays silent
 and leaves no temporary files

---
 src/torchrir/viz/animation.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 09a8547..b6ea48b 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -345,8 +345,6 @@ def _add_stereo_audio_to_mp4(
 
     tmp_audio = video_path.with_name(video_path.stem + "_tmp_audio.wav")
     tmp_video = video_path.with_name(video_path.stem + "_tmp_mux.mp4")
-    sf.write(tmp_audio, stereo, int(sample_rate))
-
     cmd = [
         ffmpeg,
         "-y",
@@ -365,7 +363,22 @@ def _add_stereo_audio_to_mp4(
         "-shortest",
         str(tmp_video),
     ]
-    result = subprocess.run(cmd, check=False, capture_output=True, text=True)
+    try:
+        sf.write(tmp_audio, stereo, int(sample_rate))
+        _mux_audio(cmd, tmp_video, video_path)
+    finally:
+        if tmp_audio.exists():
+            tmp_audio.unlink()
+        if tmp_video.exists():
+            tmp_video.unlink()
+
+
+def _mux_audio(cmd: list[str], tmp_video: Path, video_path: Path) -> None:
+    try:
+        result = subprocess.run(cmd, check=False, capture_output=True, text=True)
+    except OSError as exc:
+        LOGGER.warning("Failed to mux audio into %s: %s", video_path.name, exc)
+        return
     if result.returncode != 0:
         LOGGER.warning(
             "Failed to mux audio into %s: %s",
@@ -374,8 +387,3 @@ def _add_stereo_audio_to_mp4(
         )
     else:
         tmp_video.replace(video_path)
-
-    if tmp_audio.exists():
-        tmp_audio.unlink()
-    if tmp_video.exists():
-        tmp_video.unlink()
-- 
2.43.0


From 47e4ae2b50c5bd1c6debc1456e3ebd6927dc30d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 49/49] fix: messages of the encoder need not be valid text

---
 src/torchrir/viz/animation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index b6ea48b..5057544 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -375,7 +375,9 @@ def _add_stereo_audio_to_mp4(
 
 def _mux_audio(cmd: list[str], tmp_video: Path, video_path: Path) -> None:
     try:
-        result = subprocess.run(cmd, check=False, capture_output=True, text=True)
+        result = subprocess.run(
+            cmd, check=False, capture_output=True, text=True, errors="replace"
+        )
     except OSError as exc:
         LOGGER.warning("Failed to mux audio into %s: %s", video_path.name, exc)
         return
-- 
2.43.0

