From 6410fd1cd22f35d5a182072c567477a014c7946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 01/24] fix: round number of gridpoints instead of truncating

Resolutions like 360/49*... whose floating-point quotient lies just below an
integer produced a grid with one longitude/latitude too few.
---
 src/barotropic/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 315f60f..f54ef61 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -49,8 +49,8 @@ class Grid:
         # Setup longitude and latitude grid. Make sure longitude 0° is not
         # repeated and that both latitudes 90° and -90° exist. Latitudes start
         # at the North pole, which is the convention used by pyspharm.
-        self.nlon = int(360. / resolution)
-        self.nlat = int(180. / resolution) + 1
+        self.nlon = round(360. / resolution)
+        self.nlat = round(180. / resolution) + 1
         self.lon = np.linspace( 0., 360., self.nlon, endpoint=False)
         self.lat = np.linspace(90., -90., self.nlat, endpoint=True)
         self.lon2, self.lat2 = np.meshgrid(self.lon, self.lat)
-- 
2.43.0


From e846e4e81a3f3a85a5e4d9152350734a38a569db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 02/24] fix: Grid.vorticity_divergence raised NameError

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index f54ef61..2965d8a 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -268,7 +268,7 @@ class Grid:
         Returns:
             Tuple of gridded (vorticity, divergence) fields.
         """
-        vort, div = vorticity_divergence_spectral(u, v)
+        vort, div = self.vorticity_divergence_spectral(u, v)
         return self.to_grid(vort), self.to_grid(div)
 
     def vorticity_divergence_spectral(self, u, v):
-- 
2.43.0


From b30dfece51fa500dc56678b8d8a08012fe6a12f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 03/24] fix: Grid.equivalent_latitude failed for scalar areas

---
 src/barotropic/grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 2965d8a..b1250af 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -591,8 +591,7 @@ class Grid:
         # Calculate argument of arcsin
         sine = 1. - 0.5 * area / np.pi / self.rsphere**2
         # Make sure argument of arcsin is in [-1, 1]
-        sine[sine >=  1] =  1
-        sine[sine <= -1] = -1
+        sine = np.clip(sine, -1., 1.)
         # Equivalent latitude in degrees
         return np.rad2deg(np.arcsin(sine))
 
-- 
2.43.0


From 32a166dbd304918844c2dc44ab4ff3e252eaeae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 04/24] fix: comparing a Grid to another type raised
 AttributeError

---
 src/barotropic/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index b1250af..c5bb26b 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -84,6 +84,8 @@ class Grid:
         return formatting.grid_repr(self)
 
     def __eq__(self, other):
+        if not isinstance(other, Grid):
+            return NotImplemented
         return (
             self.shape == other.shape
             and np.isclose(self.rsphere, other.rsphere)
-- 
2.43.0


From 4ea37da2841f1a3f45195910d41b7f2ade79ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 05/24] fix: equal grids could have different hashes

---
 src/barotropic/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index c5bb26b..6bb7452 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -94,7 +94,9 @@ class Grid:
         )
 
     def __hash__(self):
-        return hash((self.shape, self.rsphere, self.omega, self._ntrunc))
+        # Only include exactly compared properties, so that equal grids (radius
+        # and rotation are compared with a tolerance) have equal hashes
+        return hash((self.shape, self._ntrunc))
 
     @property
     def shape(self):
-- 
2.43.0


From 631c380de6b099c28a6f5b35f5f7d7162499ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 06/24] fix: filter_by_wavenumber used a window function
 removed from scipy.signal

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0e3e01c..f88d828 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -216,7 +216,7 @@ def filter_by_wavenumber(field, wavenumber):
             convs.append(np.zeros_like(field))
             continue
         # Obtain the normalized Hann window for the current width
-        hann = scipy.signal.hann(width)
+        hann = scipy.signal.windows.hann(width)
         hann = hann / np.sum(hann)
         # Apply window along the zonal axis
         convs.append(scipy.signal.convolve2d(field, hann[None,:], mode="same", boundary="wrap"))
-- 
2.43.0


From 7b06567a06b7a64ef341d3946dae4a328ed9bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 07/24] fix: dominant_wavenumber_fourier ignored the offset of
 the wavenumber range

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f88d828..f40f0da 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -116,7 +116,7 @@ def dominant_wavenumber_fourier(field, grid, smooth=("boxcar", 10), wavenumber_r
     # Compute Fourier power spectrum and determine wavenumber with maximum
     # power in the specified wavenumber range
     power = np.abs(np.fft.rfft(field, axis=_ZONAL)) ** 2
-    k_dom = np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
+    k_dom = k_min + np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
     # Apply smoothing if desired
     return k_dom if smooth is None else grid.filter_meridional(k_dom, *smooth)
 
-- 
2.43.0


From 693a97781643c0cc1fd6b40cb05e1a9b0b8dddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 08/24] fix: count save_every from the start time of the
 integration

Integrations starting at a time later than zero saved every time step until
the save counter had caught up with the start time.
---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e480e8e..dc2e8ad 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -78,7 +78,7 @@ class BarotropicModel:
         state, state_new = state_init, state
         # Save model states during the integration
         states = [state]
-        t_save = save_every
+        t_save = state_init.time + save_every if save_every > 0 else None
         # Integrate one step further than requested so Robert-Asselin filter is
         # applied to model state at the end
         while state.time < tend:
-- 
2.43.0


From 35cd3c3c2eaa91fe21c52c05c923290a88499658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 09/24] fix: run returned a list instead of a StateList if
 there is nothing to integrate

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index dc2e8ad..a134c28 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -71,7 +71,7 @@ class BarotropicModel:
 
         """
         if tend < state_init.time:
-            return state_init, [state_init]
+            return state_init, StateList([state_init])
         # First integration with Euler forward step (multistep leapfrog scheme
         # requires initialization)
         state = self.euler(state_init, dt)
-- 
2.43.0


From ff022ef13ca2a7be598cdc8eeb1a4fd527b40b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 10/24] fix: numeric times of imported states were
 0-dimensional arrays

---
 src/barotropic/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 9188ad8..16a3154 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -333,7 +333,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         # back to fill value
         time = time_fill
         if var_map["time"] in field.coords:
-            time = field.coords[var_map["time"]].values
+            time = field.coords[var_map["time"]].values[()]
             # Convert numpy datetime type into a regular datetime instance
             if isinstance(time, np.datetime64):
                 # https://stackoverflow.com/questions/13703720/, but
-- 
2.43.0


From af9c5c079733bd08d489d8ad614ca559ffe24e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 11/24] fix: waveguide bound was NaN south of a negative
 infinite wavenumber

---
 src/barotropic/diagnostics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f40f0da..0a7b2be 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -352,7 +352,12 @@ def extract_ks_waveguides(ks_or_state, k, grid=None):
             active = False
         # Waveguide starts if ks exceeds k
         elif not active and ks_s > k:
-            start = lat_n if np.isinf(ks_s) else lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
+            if np.isinf(ks_s):
+                start = lat_n
+            elif np.isinf(ks_n):
+                start = lat_n + grid.dlat
+            else:
+                start = lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
             active = True
     # Last waveguide must end at south pole
     if active:
-- 
2.43.0


From fcd7c530ac85925a95b5409b7e8995042d86a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 12/24] fix: solve_poisson ignored the global mean for nonzero
 op_add

---
 src/barotropic/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 6bb7452..cf7c930 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -384,6 +384,9 @@ class Grid:
         """:py:meth:`solve_poisson` with spectral in- and output fields."""
         solution = np.zeros_like(rhs_spec)
         solution[1:] = -rhs_spec[1:] / (self._laplacian_eigenvalues[1:] + op_add)
+        # The global mean is only undetermined without the constant term
+        if op_add != 0.:
+            solution[0] = -rhs_spec[0] / op_add
         return solution
 
     def solve_diffusion(self, field_grid, coeff, dt, order=1):
-- 
2.43.0


From f9df05997423add03291618df7d07b889c34c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 13/24] fix: reject datasets whose coordinates are offset from
 those of the Grid

Fields on e.g. longitudes -180 to 180 were accepted, but placed at the wrong
longitudes of the created states.
---
 src/barotropic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 16a3154..5a74101 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -269,6 +269,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert np.isclose(dlon, dlons).all(), "lon spacing is not regular"
     assert dlon > 0, "lon coordinate must be increasing (W to E)"
     assert np.isclose(lon[-1] - lon[0], 360. - dlon), "lon coordinate irregular at periodic boundary"
+    assert np.isclose(lon[0] + 360., 360.), "lon coordinate must start at the 0° meridian"
 
     # Verify latitude coordinate
     if var_map["lat"] is None:
@@ -281,6 +282,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     dlat = dlats[0]
     assert np.isclose(dlat, dlats).all(), "lat spacing is not regular"
     assert dlat < 0, "lat coordinate must be decreasing (N to S)"
+    assert np.isclose(lat[0], 90.), "lat coordinate must start at the North Pole"
     assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
 
     # Instanciate Grid that matches dataset coordinates
-- 
2.43.0


From 05f49109b4dde7eba812d43817f4877329b01fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 14/24] =?UTF-8?q?fix:=20roll=5Flon=20selected=20the=20wron?=
 =?UTF-8?q?g=20meridian=20for=20centers=20just=20west=20of=200=C2=B0?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 2957e88..1296ad1 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -75,7 +75,7 @@ def roll_lon(lon, center=180):
     """
     center = center % 360
     cur_mid = lon.size // 2
-    new_mid = np.argmin(np.abs(lon - center))
+    new_mid = np.argmin(np.abs((lon - center + 180) % 360 - 180))
     shift = cur_mid - new_mid
     return partial(np.roll, shift=shift, axis=_ZONAL), partial(configure_lon_x, offset=lon[shift])
 
-- 
2.43.0


From 2b73ecaba7f2c83423035106846de91c3f4a7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 15/24] fix: meridional interpolation gave NaN for nodes at the
 South Pole

---
 src/barotropic/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index cf7c930..ca0abd5 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -688,6 +688,10 @@ class Grid:
         """
         assert 1 <= field.ndim <= 2
         assert len(pole_values) == 2
+        # Nodes at the poles are superseded by the given pole values (duplicate
+        # nodes would result in NaN values)
+        inner = np.abs(lat) < 90.
+        lat, field = np.asarray(lat)[inner], field[inner]
         pad = (1, 1) if field.ndim == 1 else ((1, 1), (0, 0))
         axis = -1    if field.ndim == 1 else MERIDIONAL
         x = np.pad(lat, pad_width=(1, 1), mode="constant", constant_values=(90., -90.))
-- 
2.43.0


From ef6d17296825ea931a4af27029f719a8897b1c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:05 +0000
Subject: [PATCH 16/24] fix: State.add_wind ignored the state's own wind when
 adding a (u,v)-tuple

---
 src/barotropic/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 628d87c..90cd5b5 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -113,6 +113,8 @@ class State:
             u, v = other
             assert self.grid.shape == u.shape
             assert self.grid.shape == v.shape
+            u = self.u + u
+            v = self.v + v
         return State.from_wind(self.grid, self.time, u, v)
 
     def add_vorticity(self, other):
-- 
2.43.0


From 2095684930598484d195e9967fa5d2d619881686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 17/24] fix: grids with clearly different slow rotation rates
 compared equal

---
 src/barotropic/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index ca0abd5..a7ba257 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -89,7 +89,9 @@ class Grid:
         return (
             self.shape == other.shape
             and np.isclose(self.rsphere, other.rsphere)
-            and np.isclose(self.omega, other.omega)
+            # Rotation rates are so small that the default absolute tolerance
+            # of isclose would accept clearly different values
+            and np.isclose(self.omega, other.omega, atol=0.)
             and self._ntrunc == other._ntrunc
         )
 
-- 
2.43.0


From 790b3588c7d306e3698a22bc5bee8424c485c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 18/24] fix: allow copying and pickling of StateList

---
 src/barotropic/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 90cd5b5..5a74233 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -464,6 +464,10 @@ class StateList(collections.abc.Sequence):
         # from the invocation on every State in the StateList. Separate
         # attributes and methods by checking if the (unbound) method exists on
         # the State class.
+        # Never broadcast special methods: copy and pickle look these up, even
+        # on instances whose states are not available yet.
+        if name.startswith("__"):
+            raise AttributeError(f"{type(self).__name__} has no attribute {name}")
         attr = getattr(State, name, None)
         if callable(attr):
             return functools.partial(self.map, attr)
-- 
2.43.0


From 01a10a5981a0d6d1f113e90d1c4b7779df5b2ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 19/24] fix: return an empty dataset for any empty iterable of
 states

---
 src/barotropic/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 5a74101..b175586 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -65,14 +65,14 @@ def as_dataset(states, fields=("u", "v"), concat_dim="time"):
     """
     import xarray as xr
     from . import __version__
-    # Empty input
-    if not states:
-        return xr.Dataset()
     # Compatibility for single-state input
     if isinstance(states, State):
         states = [states]
     # Convert into state collection for accessors and basic integrity checks
     states = StateList(states)
+    # Empty input (only decidable after conversion for general iterables)
+    if not states:
+        return xr.Dataset()
     # Extract basic coordinates
     coords = dict()
     coords["latitude"] = xr.DataArray(states.grid.lat, dims=["latitude"], attrs={
-- 
2.43.0


From 5fa5bdce6ae94ed1f1b889519ac37ca7e362b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 20/24] fix: only import datasets whose latitudes include the
 South Pole

---
 src/barotropic/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index b175586..719991b 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -283,6 +283,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert np.isclose(dlat, dlats).all(), "lat spacing is not regular"
     assert dlat < 0, "lat coordinate must be decreasing (N to S)"
     assert np.isclose(lat[0], 90.), "lat coordinate must start at the North Pole"
+    assert np.isclose(lat[-1], -90.), "lat coordinate must end at the South Pole"
     assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
 
     # Instanciate Grid that matches dataset coordinates
-- 
2.43.0


From d164508a680ae20e2b9114321b907cdd7932a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:43 +0000
Subject: [PATCH 21/24] fix: import datasets with repeated or missing
 coordinate values

---
 src/barotropic/io.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 719991b..aacdf44 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -300,8 +300,8 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         # data, and select matching v field during construction of the State
         def as_state(t, da):
             u = da.values
-            # Select matching meridional wind field (dims_flatten assigned below)
-            v = ds[var_map["v"]].sel({ dim: da.coords[dim] for dim in dims_flatten }).values
+            # Select matching meridional wind field (selection assigned below)
+            v = ds[var_map["v"]].isel(selection).values
             return State.from_wind(grid, t, u, v)
     # States from relative vorticity
     elif var_map["vo"] is not None:
@@ -323,15 +323,17 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     # Only 1-dimensional StateList output supported, so all dimensions other
     # than lon and lat are flattened
     dims_flatten = data.dims[:-2]
-    dims_values = [data.coords[dim].values for dim in dims_flatten]
+    # Select by position because coordinate values are not necessarily unique
+    dims_indices = [range(data.sizes[dim]) for dim in dims_flatten]
 
     states = []
     # Because itertools.product returns an empty tuple when called without any
-    # arguments (here: when dims_values is empty), this also covers the case of
+    # arguments (here: when dims_indices is empty), this also covers the case of
     # single field input with no flattened dimensions
-    for selection in itertools.product(*dims_values):
+    for indices in itertools.product(*dims_indices):
+        selection = dict(zip(dims_flatten, indices))
         # Extract the current lon-lat field
-        field = data.sel(dict(zip(dims_flatten, selection)))
+        field = data.isel(selection)
         # Try to use time value from coordinates if possible, otherwise fall
         # back to fill value
         time = time_fill
-- 
2.43.0


From 7869621ada04f323fa7c073ee974d9d9524b0a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 22/24] fix: move wind vectors with the map of the summary plot

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 1296ad1..8b471c7 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -177,7 +177,7 @@ def summary(state, figsize=(11, 7), hemisphere="both", center_lon=180, pv_cmap="
     fig.colorbar(pvc, ax=ax12)
     n_vectors = 13 if hemisphere == "both" else 21
     if not (np.linalg.norm(state.u) == 0. and np.linalg.norm(state.v) == 0.):
-        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, state.u, state.v, n_vectors))
+        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, roll(state.u), roll(state.v), n_vectors))
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("PV [$10^{-4} \\mathrm{s}^{-1}$] and wind vectors", loc="left")
-- 
2.43.0


From d9600aaa50302bfd9815484c369d36c863631505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 23/24] fix: plot presets failed for states with constant PV

---
 src/barotropic/plot.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 8b471c7..5d3fb98 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -241,7 +241,8 @@ def wave_activity(state, figsize=(11, 7), hemisphere="both", center_lon=180, fal
     devpvc = ax12.contourf(grid.lon2, grid.lat2, roll(devpv), levels=symmetric_levels(devpv, 10), cmap="RdBu")
     devpvb = fig.colorbar(devpvc, ax=ax12)
     pv_levels = np.linspace(np.min(pv), np.max(pv), 10 if hemisphere == "both" else 14)[1:-1]
-    ax12.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
+    if np.all(np.diff(pv_levels) > 0.):
+        ax12.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("deviation from equiv. lat. PV [$10^{-4} \\mathrm{s}^{-1}$] and PV", loc="left")
@@ -254,7 +255,8 @@ def wave_activity(state, figsize=(11, 7), hemisphere="both", center_lon=180, fal
     # Panel: FALWA
     wac = ax22.contourf(grid.lon2, grid.lat2, roll(state.falwa), cmap=falwa_cmap)
     fig.colorbar(wac, ax=ax22)
-    ax22.contour(grid.lon2, grid.lat2, roll(pv), linestyles="-", colors="k", levels=pv_levels)
+    if np.all(np.diff(pv_levels) > 0.):
+        ax22.contour(grid.lon2, grid.lat2, roll(pv), linestyles="-", colors="k", levels=pv_levels)
     configure_lon_x(ax22)
     configure_lat_y(ax22, hemisphere)
     ax22.set_title("FALWA [$\\mathrm{m} \\mathrm{s}^{-1}$] and PV", loc="left")
@@ -299,6 +301,9 @@ def rwp_diagnostics(state, figsize=(8, 10.5), hemisphere="both", center_lon=180,
     ffalwa = diagnostics.filter_by_wavenumber(state.falwa, 2*dwn)
     if rwp_max is None:
         rwp_max = max(np.max(env), np.max(ffalwa))
+        # No activity at all, any range will do
+        if rwp_max == 0.:
+            rwp_max = 1.
     rwp_levels = np.linspace(0, rwp_max, 6)
     # RWP envelope and streamfunction
     ax2.set_title("RWP envelope [$\\mathrm{m} \\mathrm{s}^{-1}$] and streamfunction", loc="left")
@@ -314,7 +319,8 @@ def rwp_diagnostics(state, figsize=(8, 10.5), hemisphere="both", center_lon=180,
     fig.colorbar(ctf, ax=ax3)
     pv = state.pv
     pv_levels = np.linspace(np.min(pv), np.max(pv), 10 if hemisphere == "both" else 14)[1:-1]
-    ax3.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
+    if np.all(np.diff(pv_levels) > 0.):
+        ax3.contour(grid.lon2, grid.lat2, roll(pv), colors="k", linestyles="-", levels=pv_levels)
     # Common styling
     for ax in (ax1, ax2, ax3):
         configure_lon_x(ax)
-- 
2.43.0


From 7b9628f75102af7b1af8e121f59b99ee23ce4ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 24/24] fix: text representation of empty regions

---
 src/barotropic/formatting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/formatting.py b/src/barotropic/formatting.py
index 98ed87c..a4aca68 100644
--- a/src/barotropic/formatting.py
+++ b/src/barotropic/formatting.py
@@ -50,9 +50,12 @@ def grid_region_repr(region):
     out[4] += " EQ"
     out[8] += " 90°S"
     out.append("    0°E              180°E")
+    # Regions without any gridpoints have no bounds
+    lat_range = "{:6.2f} to {:6.2f} °N".format(*region.lat[[-1,0]]) if region.lat.size else "empty"
+    lon_range = "{:6.2f} to {:6.2f} °E".format(*region.lon[[0,-1]]) if region.lon.size else "empty"
     return "\n".join([
-        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*region.lat[[-1,0]], region.shape[0]),
-        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*region.lon[[0,-1]], region.shape[1]),
+        "Region {} (nlat = {})".format(lat_range, region.shape[0]),
+        "       {} (nlon = {})".format(lon_range, region.shape[1]),
         "", *out, "",
         "of {}".format(repr(region._grid))
     ])
-- 
2.43.0

