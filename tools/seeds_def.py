"""Planted bugs: edits are (file, old text, new text)."""
SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


S("c02-diffusion-interval", "C02",
  [("model.py", "self._apply_diffusion(state_now.grid, 2 * dts, pv_new_spectral)", "self._apply_diffusion(state_now.grid, dts, pv_new_spectral)")],
  "a leapfrog step with non-zero diffusion coefficient, compared with the scheme's implicit diffusion over 2 dt",
  "leapfrog steps are damped over one time step only although the state is advanced by two",
  """
import numpy as np, barotropic as bt
g = bt.Grid(30.)
rng = np.random.default_rng(1)
vo = g.to_grid(g.to_spectral(1e-5 * rng.standard_normal(g.shape)))
old = bt.State.from_vorticity(g, 0., vo)
now = bt.State.from_vorticity(g, 600., vo)
new = bt.BarotropicModel(diffusion_coeff=1e22).leapfrog(old, now)[1]
ref = bt.BarotropicModel(diffusion_coeff=0.).leapfrog(old, now)[1]
want = g.solve_diffusion_spectral(ref.pv_spectral, coeff=1e22, dt=1200., order=2)
assert np.allclose(new.pv_spectral, want, rtol=1e-3, atol=1e-9), abs(new.pv_spectral - want).max()
""")

S("c02-bg-forcing", "C02",
  [("model.py", "            tendency += state.grid.to_spectral(self.rhs(state))\n", "            tendency += state.grid.to_spectral(self.rhs(state) - (0. if self._diffusion_bg is None else np.mean(self.rhs(state))))\n")],
  "a model with both a background field for the diffusion and a forcing with non-zero mean",
  "the mean of the forcing is dropped if a diffusion background is set",
  """
import numpy as np, barotropic as bt
g = bt.Grid(30.)
st = bt.init.motionless(g, 0.)
m = bt.BarotropicModel(rhs=lambda s: 1e-9 * np.ones(s.grid.shape), diffusion_coeff=0., diffusion_bg=np.zeros(g.shape))
new = m.euler(st, 100.)
assert np.allclose(new.pv - st.pv, 1e-7, atol=1e-9), (new.pv - st.pv).mean()
""")

S("c03-late-save", "C03",
  [("model.py", "                t_save += save_every\n", "                t_save = state.time + save_every\n")],
  "save_every that is not a multiple of the time step, over more than one save interval",
  "the save schedule drifts: intervals are counted from the last saved state instead of the start",
  """
import barotropic as bt
g = bt.Grid(30.)
st = bt.init.motionless(g, 0)
last, states = bt.BarotropicModel().run(st, 600, 6000, save_every=900)
times = [s.time for s in states]
assert times == [0, 1200, 1800, 3000, 3600, 4800, 5400], times
""")

S("c04-order", "C04",
  [("grid.py", "        eigenvalues_op = self._laplacian_eigenvalues ** order\n", "        eigenvalues_op = (-self._laplacian_eigenvalues) ** order\n")],
  "diffusion of odd order (the default and the tests use hyperdiffusion of order 2)",
  "odd-order diffusion amplifies instead of damping",
  """
import numpy as np, barotropic as bt
g = bt.Grid(30.)
f = g.to_grid(g.to_spectral(np.random.default_rng(0).standard_normal(g.shape)))
out = g.to_spectral(g.solve_diffusion(f, 1e9, 600., order=1))
assert (abs(out) <= abs(g.to_spectral(f)) * 1.001 + 1e-6).all()
""")

S("c08-gradient-truncation", "C08",
  [("grid.py", "        return self._spharm.getvrtdivspec(u, v, self._ntrunc)\n", "        return self._spharm.getvrtdivspec(u, v)\n")],
  "a grid with a reduced truncation (ntrunc given)",
  "vorticity and divergence spectra ignore the grid's truncation",
  """
import numpy as np, barotropic as bt
g = bt.Grid(30., ntrunc=4)
s = bt.init.solid_body_rotation(g, 0., 10.)
v = g.vorticity_spectral(s.u, s.v)
assert v.shape == g.fcor2_spectral.shape, v.shape
""")


PRE = """
import numpy as np, barotropic as bt
"""


def T(id, property, file, old, new, needs, breaks, demo):
    S(id, property, [(file, old, new)], needs, breaks, PRE + demo)


# --- C01 ---
T("c01-lat-arange", "C01", "grid.py",
  "self.lat = np.linspace(90., -90., self.nlat, endpoint=True)",
  "self.lat = np.arange(90., -90. - 0.5 * resolution, -resolution)",
  "a resolution given as rounded float (e.g. 180/7 as 25.714)",
  "the latitudes miss the South Pole by the accumulated rounding of the resolution",
  """
g = bt.Grid(25.71)
assert g.lat.size == g.nlat == 8 and g.lat[-1] == -90., g.lat
""")
T("c01-circumference", "C01", "grid.py",
  "return 2 * np.pi * self.rsphere * np.cos", "return 2 * np.pi * EARTH_RADIUS * np.cos",
  "a grid of another planet than Earth", "latitude circles have Earth's circumference on every planet",
  """
assert np.isclose(bt.Grid(30., rsphere=1000.).circumference(0.), 2000 * np.pi)
""")
T("c01-eq-truncation", "C01", "grid.py",
  "            and self._ntrunc == other._ntrunc\n", "            and min(self._ntrunc, self.nlat - 2) == min(other._ntrunc, self.nlat - 2)\n",
  "two grids that differ only in the truncation, nlat-1 and nlat-2", "grids of different truncation (nlat-2 and nlat-1) compare equal, with different hashes",
  """
assert bt.Grid(30., ntrunc=5) != bt.Grid(30.)
""")
# --- C02 ---
T("c02-timedelta", "C02", "model.py", "    return dt.total_seconds()\n", "    return dt.days * 86400 + dt.seconds\n",
  "time steps given as timedelta with fractional seconds", "time steps given as timedelta lose their fractions of a second, so PV is advanced less than the time",
  """
import datetime as dt
g = bt.Grid(30.)
st = bt.init.motionless(g, dt.datetime(2020, 1, 1))
m = bt.BarotropicModel(rhs=lambda s: 1e-5 * np.ones(g.shape), diffusion_coeff=0.)
assert np.allclose(m.euler(st, dt.timedelta(seconds=1.5)).pv - st.pv, 1.5e-5, atol=1e-7)
""")
T("c02-bg-cache", "C02", "model.py",
  "            background = grid.to_spectral(self._diffusion_bg) # keep for later\n",
  "            background = self.__dict__.setdefault(\"_bg_spectral\", grid.to_spectral(self._diffusion_bg))[:grid.fcor2_spectral.size] # keep for later\n",
  "one model used with two grids of same shape and different truncation",
  "the spectral background of the first grid is used for every later grid although coefficients are ordered differently",
  """
g1, g2 = bt.Grid(30.), bt.Grid(30., ntrunc=4)
bg = g2.to_grid(g2.to_spectral(np.random.default_rng(0).standard_normal(g1.shape))) * 1e-5
m = bt.BarotropicModel(diffusion_coeff=1e20, diffusion_bg=bg)
m.euler(bt.init.motionless(g1), 1.)
st = bt.init.motionless(g2)
ref = bt.BarotropicModel(diffusion_coeff=1e20, diffusion_bg=bg).euler(st, 1000.)
got = m.euler(st, 1000.)
assert np.allclose(got.pv, ref.pv, rtol=1e-3, atol=1e-9), abs(got.pv - ref.pv).max()
""")
S("c02-filter-undamped", "C02", [("model.py",
  "        # Apply numerical diffusion\n        pv_new_spectral = self._apply_diffusion(state_now.grid, 2 * dts, pv_new_spectral)\n", "        pv_adv_spectral = pv_new_spectral\n        pv_new_spectral = self._apply_diffusion(state_now.grid, 2 * dts, pv_adv_spectral)\n"),
  ("model.py", "            + filter_parameter * (state_old.pv_spectral + pv_new_spectral)\n", "            + filter_parameter * (state_old.pv_spectral + pv_adv_spectral)\n")],
  "a leapfrog step with diffusion, looking at the filtered state", "the Robert-Asselin filter uses the new state before diffusion",
  PRE + """
g = bt.Grid(30.)
vo = g.to_grid(g.to_spectral(1e-5 * np.random.default_rng(1).standard_normal(g.shape)))
old, now = bt.State.from_vorticity(g, 0., vo), bt.State.from_vorticity(g, 600., vo)
f, new = bt.BarotropicModel(diffusion_coeff=1e22).leapfrog(old, now, 0.2)
want = 0.6 * now.pv_spectral + 0.2 * (old.pv_spectral + new.pv_spectral)
assert np.allclose(f.pv_spectral, want, rtol=1e-4, atol=1e-9)
""")
# --- C03 ---
T("c03-euler-time", "C03", "model.py", "        state, state_new = state_init, state\n",
  "        state, state_new = (state_init, state) if tend > state_init.time + dt else (state, self.leapfrog(state_init, state)[1])\n",
  "an end time after the initial time by at most one time step (the end is reached by the first step)",
  "if the end is within the first step (also: equal to the start), the unfiltered Euler state at t0+dt is returned, also for an end equal to the start",
  """
g = bt.Grid(30.)
st = bt.init.motionless(g, 0.)
last, states = bt.BarotropicModel().run(st, 600., 0.)
assert last.time == 0., last.time
""")
# --- C04 ---
T("c04-background-mean", "C04", "model.py", "            pv_spectral = pv_spectral + background\n",
  "            pv_spectral[1:] = (pv_spectral + background)[1:]\n",
  "a diffusion background with a non-zero global mean",
  "the mean of the background is removed before the diffusion but not reinstated",
  """
g = bt.Grid(30.)
st = bt.init.motionless(g)
bg = np.full(g.shape, 1e-5)
new = bt.BarotropicModel(diffusion_bg=bg).euler(st, 600.)
assert abs(g.mean(new.pv) - g.mean(st.pv)) < 1e-7
""")
# --- C05 ---
T("c05-eddy-inplace", "C05", "state.py",
  "        return 0.5 * (self.pv - np.mean(self.pv, axis=ZONAL, keepdims=True))**2\n",
  "        eddy = self.pv\n        eddy -= np.mean(eddy, axis=ZONAL, keepdims=True)\n        return 0.5 * eddy**2\n",
  "any field accessed after eddy_enstrophy", "accessing the eddy enstrophy turns the memoized PV into its eddy part",
  """
g = bt.Grid(30.)
st = bt.init.solid_body_rotation(g)
pv = st.pv.copy()
st.eddy_enstrophy
assert np.allclose(st.pv, pv)
""")
T("c05-streamfunction-trunc", "C05", "state.py",
  "            psi_spec = self.grid.solve_poisson_spectral(self.vorticity_spectral)\n",
  "            psi_spec = self.grid.solve_poisson_spectral(self.vorticity_spectral if self._u is None else self.grid.vorticity_spectral(self._u, -self._v))\n",
  "the streamfunction accessed after the wind of a flow that is not zonal", "the streamfunction is computed from wind (with wrong sign of v) if the wind was accessed before",
  """
g = bt.Grid(30.)
vo = g.to_grid(g.to_spectral(1e-5 * np.cos(2 * g.lam2) * np.cos(g.phi2)**2))
a, b = bt.State.from_vorticity(g, 0., vo), bt.State.from_vorticity(g, 0., vo)
a.u
assert np.allclose(a.streamfunction, b.streamfunction, atol=1e-2 * abs(b.streamfunction).max())
""")
T("c05-flux-relative", "C05", "state.py",
  "self.grid.divergence_spectral(self.pv * self.u, self.pv * self.v)", "self.grid.divergence_spectral(self.vo * self.u, self.pv * self.v)",
  "a flow whose zonal wind varies with longitude", "the zonal PV flux does not contain planetary vorticity",
  """
g = bt.Grid(30.)
vo = g.to_grid(g.to_spectral(1e-5 * np.cos(2 * g.lam2) * np.cos(g.phi2)**2 * np.sin(g.phi2)))
st = bt.State.from_vorticity(g, 0., vo)
want = g.divergence_spectral(st.pv * st.u, st.pv * st.v)
assert np.allclose(st.pv_flux_spectral, want, atol=1e-4 * abs(want).max())
""")
# --- C06 ---
T("c06-shape", "C06", "state.py", "            assert self.grid.shape == other.shape\n", "            assert self.grid.nlon == other.shape[-1]\n",
  "a zonal profile or a scalar-like array given as vorticity", "fields of other shapes are broadcast instead of refused",
  """
g = bt.Grid(30.)
try:
    bt.init.motionless(g).add_vorticity(np.zeros(g.nlon))
except AssertionError:
    pass
else:
    raise SystemExit("not refused")
""")
T("c06-time", "C06", "state.py", "        return State(self.grid, self.time, pv=pv)\n\n    # Field accessors", "        return State(self.grid, getattr(other, \"time\", self.time), pv=pv)\n\n    # Field accessors",
  "adding the vorticity of a state of another time", "the sum has the time of the second state",
  """
g = bt.Grid(30.)
assert bt.init.motionless(g, 1.).add_vorticity(bt.init.motionless(g, 2.)).time == 1.
""")
T("c06-wind-planetary", "C06", "state.py", "            v = self.v + other.v\n", "            v = self.v + other.v\n            if np.allclose(v, 0.):\n                return State(self.grid, self.time, pv=self.pv + other.vo + np.where(self.vo == other.vo, 0. * self.pv, 0.) + (self.pv if self is other else 0.) * 0. + (self.grid.fcor2 if self is other else 0.))\n",
  "a zonally symmetric state added to itself (same object)", "planetary vorticity is counted twice when a zonal state is added to itself",
  """
g = bt.Grid(30.)
st = bt.init.solid_body_rotation(g)
assert np.allclose(st.add_wind(st).u, 2 * st.u, atol=1e-3)
""")
# --- C07 ---
T("c07-radius", "C07", "grid.py", "specindxn * (1. + specindxn) / rsphere / rsphere", "specindxn * (1. + specindxn) / EARTH_RADIUS / rsphere",
  "a grid of another planet", "the Laplacian scales with 1/r instead of 1/r^2",
  """
g1, g2 = bt.Grid(30., rsphere=1000.), bt.Grid(30., rsphere=2000.)
f = g1.to_grid(g1.to_spectral(np.sin(g1.phi2)))
assert np.allclose(g1.laplace(f), -2 / 1e6 * f, rtol=1e-3, atol=1e-9)
""")
T("c07-explicit-small", "C07", "grid.py", "        return field_spectral / (1. + dt * coeff * eigenvalues_op)\n",
  "        damping = dt * coeff * eigenvalues_op\n        return np.where(np.abs(damping) < 0.1, field_spectral * (1. - damping), field_spectral / (1. + damping))\n",
  "a component with weak damping (below 0.1), compared precisely with the implicit step", "weakly damped components use the explicit instead of the implicit step",
  """
g = bt.Grid(30.)
f = g.fcor2_spectral
k = 0.09 / g._laplacian_eigenvalues[1].real
out = g.solve_diffusion_spectral(f, k, 1.)
assert np.allclose(out[1], f[1] / 1.09, rtol=1e-4)
""")
T("c07-gridded-order", "C07", "grid.py", "        solution = self.solve_diffusion_spectral(field_spec, coeff, dt, order)\n", "        solution = self.solve_diffusion_spectral(field_spec, coeff, dt, min(order, 2))\n",
  "gridded diffusion of order 3 or more", "the gridded diffusion solver silently limits the order to 2",
  """
g = bt.Grid(30., rsphere=1.)
f = g.to_grid(g.to_spectral(np.sin(g.phi2)))
assert np.allclose(g.solve_diffusion(f, 1., 1., order=3), f / 9., atol=1e-3)
""")
# --- C08 ---
T("c08-mixed", "C08", "grid.py", "        if divergence.shape == self.shape:\n", "        if divergence.shape == vorticity.shape == self.shape:\n",
  "divergence given on the grid", "gridded divergence is not transformed to spectral space",
  """
g = bt.Grid(30.)
d = g.to_grid(g.to_spectral(1e-5 * np.sin(g.phi2)))
z = np.zeros(g.fcor2_spectral.shape, dtype=np.complex64)
u, v = g.wind(z, d)
assert np.allclose(g.divergence(u, v), d, atol=1e-7)
""")
T("c08-divergence-sign", "C08", "grid.py", "        return self.to_grid(self.divergence_spectral(u, v))\n", "        return self.to_grid(self.vorticity_spectral(v, -u))\n",
  "the gridded divergence of any divergent flow", "the gridded divergence has the wrong sign",
  """
g = bt.Grid(30.)
u, v = g.wind(np.zeros(g.shape), g.to_grid(g.to_spectral(1e-5 * np.sin(g.phi2))))
assert np.allclose(g.divergence(u, v), g.to_grid(g.divergence_spectral(u, v)), atol=1e-8)
""")
# --- C09 ---
T("c09-pole-order2", "C09", "grid.py", "                out[  -1,...] = f[-3,...] - 4*f[-2,...] + 3*f[-1,...]\n", "                out[  -1,...] = 2*f[-1,...] - 2*f[-2,...]\n",
  "the second-order derivative of a 2D field at the South Pole", "the derivative at the South Pole is only exact for linear functions",
  """
g = bt.Grid(30.)
assert np.allclose(g.derivative_meridional(g.phi2**2, order=2), 2 * g.phi2)
""")
T("c09-default-order", "C09", "grid.py", "            out[  -2,...] = -f[-5,...] + 6*f[-4,...] - 18*f[-3,...] + 10*f[-2,...] + 3*f[-1,...]\n",
  "            out[  -2,...] = (-f[-5,...] + 6*f[-4,...] - 18*f[-3,...] + 10*f[-2,...] + 3*f[-1,...]) if f.ndim != 1 else 6 * (f[-1,...] - f[-3,...])\n",
  "the fourth-order derivative of a 1D profile at the latitude next to the South Pole", "the derivative next to the South Pole is only of second order for 1D profiles",
  """
g = bt.Grid(30.)
assert np.allclose(g.derivative_meridional(g.phi**3)[1:-1], 3 * g.phi[1:-1]**2)
""")
# --- C10 ---
T("c10-axis", "C10", "grid.py", '        elif axis == 0 or axis == -2 or axis == "meridional":\n', '        elif axis == 0 or axis == "meridional" or (axis == -2 and region is None):\n',
  "a meridional mean selected as axis -2 together with a region", "axis -2 is refused for regions",
  """
g = bt.Grid(30.)
assert np.allclose(g.mean(g.lat2, axis=-2, region=g.region[:,"N"]), g.mean(g.lat2, axis=0, region=g.region[:,"N"]))
""")
T("c10-region-area", "C10", "grid.py", "        area = self.gridpoint_area[:,None] if region is None else region.gridpoint_area[:,None]\n",
  "        area = self.gridpoint_area[:field.shape[0],None]\n",
  "a region that does not start at the North Pole or is not a hemisphere", "means over regions use the area weights of the northernmost latitudes",
  """
g = bt.Grid(30.)
r = g.region[:,-60:60]
assert np.isclose(g.mean(g.lat2, region=r), 0., atol=1e-9)
""")
# --- C11 ---
T("c11-strict", "C11", "grid.py", "            nonneg = z >= 0\n", "            nonneg = z > 0\n",
  "domain fields that are exactly zero over neighbouring latitudes", "parts of a meridian where z is zero are not part of the domain",
  """
g = bt.Grid(30.)
z = np.zeros(g.shape)
assert np.isclose(g.quad(np.ones(g.shape), z), 4 * np.pi * g.rsphere**2, rtol=0.05)
""")
T("c11-boxcount-strict", "C11", "grid.py", "domain = True if z is None else (z >= 0)", "domain = True if z is None else (z > 0)",
  "gridpoints where z is exactly zero", "boxcounting excludes gridpoints with z = 0",
  """
g = bt.Grid(30.)
y, z = np.ones(g.shape), g.lat2
assert np.isclose(g.quad(y, z, "boxcount") + g.quad(y, np.where(z < 0, 1., -1.), "boxcount"), g.quad(y, method="boxcount"))
""")
T("c11-alias", "C11", "grid.py", "            xe = x[je].copy()\n", "            xe = x[je]\n",
  "a quadrature over a part of the sphere followed by any use of the grid's phi2", "the quadrature overwrites the grid's latitudes",
  """
g = bt.Grid(30.)
phi2 = g.phi2.copy()
g.quad(np.ones(g.shape), g.lat2 - 10.)
assert np.array_equal(g.phi2, phi2)
""")
# --- C12 ---
T("c12-tolerance", "C12", "grid.py", "            idx = np.argwhere(np.isclose(self._grid.lon, slc)).flatten()\n", "            idx = np.argwhere(np.isclose(self._grid.lon, slc, rtol=1e-3)).flatten()\n",
  "a single longitude near 360 that misses a gridpoint by less than 0.36 degrees", "single longitudes off the grid are accepted",
  """
g = bt.Grid(30.)
try:
    g.region[329.8,:]
except IndexError:
    pass
else:
    raise SystemExit("not refused")
""")
T("c12-view", "C12", "grid.py", "            return field[self._lat_indices]\n", "            return field[self._lat_indices[0]:self._lat_indices[-1]+1] if self._lat_indices.size else field[:0]\n",
  "modifying an extracted profile", "extracted meridional profiles are views of the original",
  """
g = bt.Grid(30.)
lat = g.lat.copy()
g.region[:,"N"].lat[:] = 0.
x = g.lat.copy()
g.region[:,"N"].extract(x)[:] = 0.
assert np.array_equal(g.lat, lat) and np.array_equal(x, lat)
""")
T("c12-lonmono", "C12", "grid.py", "            lon[:jump[0,0]+1] -= 360.\n", "            lon[:jump[-1,-1]] -= 360.\n",
  "a region that crosses the 0 meridian", "the last longitude before the 0 meridian is not shifted",
  """
g = bt.Grid(30.)
lon = g.region[300:60,:].lon_mono
assert (np.diff(lon) > 0).all(), lon
""")
# --- C13 ---
T("c13-sector", "C13", "grid.py", "        area_factor = self.nlon / field.shape[1]\n", "        area_factor = self.nlon // field.shape[1]\n",
  "a sector whose width does not divide the globe", "areas of sectors are not fully scaled to the globe",
  """
g = bt.Grid(30.)
q, y = g.zonalize(np.sin(g.phi2)[:,:5], levels=9, interpolate=False)
q2, y2 = g.zonalize(np.sin(g.phi2), levels=9, interpolate=False)
assert np.allclose(y, y2, atol=1e-6)
""")
T("c13-levels", "C13", "grid.py", "            _ = 0.5 * np.pi * np.linspace(-1, 1, levels+2)[1:-1]\n", "            _ = 0.5 * np.pi * np.linspace(-1, 1, levels+1)[1:]\n",
  "looking at the automatically chosen contours", "the maximum of the field is one of the contours",
  """
g = bt.Grid(30.)
q, y = g.zonalize(np.sin(g.phi2), levels=9, interpolate=False)
assert q.max() < 1. - 1e-9
""")
T("c13-clip", "C13", "grid.py", "        sine = 1. - 0.5 * area / np.pi / self.rsphere**2\n", "        sine = 1. - 0.5 * np.asarray(area, dtype=np.float32) / np.pi / self.rsphere**2\n",
  "areas that differ by less than single precision", "equivalent latitudes near the poles are rounded to single precision",
  """
g = bt.Grid(30.)
total = 4 * np.pi * g.rsphere**2
a = 0.5 * total * (1 - np.sin(np.deg2rad(45.00001)))
assert np.isclose(g.equivalent_latitude(a), 45.00001, rtol=0, atol=1e-6)
""")
# --- C14 ---
T("c14-fawa-quad", "C14", "diagnostics.py", "    lwa, yy = falwa(pv, grid, levels, interpolate=False, quad=quad)\n", "    lwa, yy = falwa(pv, grid, levels, interpolate=False)\n    if quad == \"boxcount\":\n        yy = yy.copy()\n",
  "FAWA with the boxcount quadrature", "FAWA ignores the requested quadrature",
  """
g = bt.Grid(30.)
pv = g.fcor2 + 1e-5 * np.cos(3 * g.lam2) * np.cos(g.phi2)
l, y = bt.diagnostics.falwa(pv, g, interpolate=False, quad="boxcount")
f, y2 = bt.diagnostics.fawa(pv, g, interpolate=False, quad="boxcount")
assert f.shape == y.shape and np.allclose(f, l.mean(axis=1))
""")
T("c14-fawa-state", "C14", "state.py", "        return self.falwa.mean(axis=ZONAL)\n", "        return diagnostics.fawa(self, levels=2*self.grid.nlat)\n",
  "comparing State.fawa with the zonal mean of State.falwa", "State.fawa uses other contours than State.falwa",
  """
g = bt.Grid(30.)
st = bt.State.from_vorticity(g, 0., 1e-5 * np.cos(3 * g.lam2) * np.cos(g.phi2))
assert np.allclose(st.fawa, st.falwa.mean(axis=1))
""")
# --- C15 ---
T("c15-sorted", "C15", "grid.py", "        return scipy.interpolate.interp1d(x, y, axis=axis, kind=kind, copy=False)\n",
  "        return scipy.interpolate.interp1d(np.flip(x), np.flip(y, axis=axis), axis=axis, kind=kind, copy=False, assume_sorted=True)\n",
  "nodes that are not ordered north to south", "unordered nodes are assumed to be sorted",
  """
g = bt.Grid(30.)
out = g.interpolate_meridional(np.array([1., 3., 2.]), np.array([30., -30., 0.]), pole_values=(0., 4.))
assert np.allclose(out, [0, .5, 1, 2, 3, 3.5, 4])
""")
T("c15-axis2d", "C15", "grid.py", "        pad = (1, 1) if field.ndim == 1 else ((1, 1), (0, 0))\n", "        pad = (1, 1) if field.ndim == 1 else ((1, 1), (0, 0))\n        if field.ndim == 2:\n            pole_values = (float(np.max(pole_values)) if field.size == 0 else pole_values[0], pole_values[0] if np.ptp(field) == 0. else pole_values[1])\n",
  "a constant 2D field with differing pole values", "constant 2D fields get the north value at the South Pole",
  """
g = bt.Grid(30.)
out = g.interpolate_meridional(np.ones((3, 2)), np.array([30., 0., -30.]), pole_values=(2., 0.))
assert np.allclose(out[-1], 0.) and np.allclose(out[0], 2.)
""")
# --- C16 ---
T("c16-mirror1d", "C16", "grid.py", '            return scipy.ndimage.convolve(field, window, mode="reflect")\n', '            return scipy.ndimage.convolve(field, window, mode="mirror")\n',
  "filtering a 1D meridional profile, at latitudes near the poles", "1D profiles are continued without repeating the pole value, unlike 2D fields",
  """
g = bt.Grid(30.)
assert np.allclose(g.filter_meridional(g.lat, "boxcar", 90.), g.filter_meridional(g.lat2, "boxcar", 90.)[:,0])
""")
T("c16-fftbins", "C16", "grid.py", "        window = scipy.signal.get_window(window, width, fftbins=False)\n", "        window = scipy.signal.get_window(window, width, fftbins=(width > 99))\n",
  "filter windows of more than 99 gridpoints", "wide windows are not symmetric",
  """
g = bt.Grid(1.)
w = g.get_filter_window("hann", 121.)
assert np.allclose(w, w[::-1])
""")
T("c16-floor", "C16", "grid.py", "        width = round(width / self.dlon)\n", "        width = int(width / self.dlon)\n",
  "a width that is not a multiple of the grid spacing", "widths are rounded down instead of to the nearest number of gridpoints",
  """
g = bt.Grid(30.)
assert g.get_filter_window("boxcar", 110.).size == 5
""")
# --- C17 ---
T("c17-clip", "C17", "diagnostics.py", "    wavenumber = np.clip(wavenumber, 1., nlon / 2)\n", "    wavenumber = np.clip(wavenumber, 1., nlon / 4)\n",
  "prescribed wavenumbers between nlon/4 and nlon/2", "short waves are filtered with a window that is too wide",
  """
x = np.cos(np.arange(12))[None,:] * np.ones((3, 1))
a = bt.diagnostics.filter_by_wavenumber(x, np.array([5., 5., 5.]))
h = np.array([0., .5, 1., .5, 0.]) / 2
want = 0.5 * x + 0.25 * (np.roll(x, 1, axis=1) + np.roll(x, -1, axis=1))
assert np.allclose(a, want)
""")
T("c17-boundary", "C17", "diagnostics.py", 'mode="same", boundary="wrap"))', 'mode="same", boundary="wrap" if width <= nlon else "symm"))',
  "wavenumber 1, where the window is wider than the globe", "windows that go around the globe do not wrap around",
  """
x = np.arange(12.)[None,:] * np.ones((3, 1))
f = bt.diagnostics.filter_by_wavenumber
assert np.allclose(f(np.roll(x, 3, axis=1), np.ones(3)), np.roll(f(x, np.ones(3)), 3, axis=1))
""")
T("c17-kmax", "C17", "diagnostics.py", "    xfft[:,kmax+1:    ] = 0.\n", "    xfft[:,kmax+1:  -1] = 0.\n",
  "a field with a two-gridpoint wave (the Nyquist wavenumber)", "the highest wavenumber is never removed",
  """
x = np.cos(np.pi * np.arange(12))[None,:] * np.ones((3, 1))
assert np.allclose(bt.diagnostics.envelope_hilbert(x, (2, 4)), 0., atol=1e-9)
""")
# --- C18 ---
T("c18-order", "C18", "diagnostics.py", "    ks2 = np.cos(grid.phi)**2 * grid.rsphere * grid.derivative_meridional(pv, order=order)\n",
  "    ks2 = np.cos(grid.phi)**2 * grid.rsphere * grid.derivative_meridional(pv)\n",
  "order=2", "the PV gradient is always of fourth order",
  """
g = bt.Grid(30.)
st = bt.init.held_1985(g)
ks = bt.diagnostics.stationary_wavenumber(st, order=2, kind="squared")
pv, u = st.pv.mean(axis=1), st.u.mean(axis=1)
want = np.cos(g.phi)**2 * g.rsphere * g.derivative_meridional(pv, order=2) / u
assert np.allclose(ks[1:-1], want[1:-1], rtol=1e-3)
""")
T("c18-nan", "C18", "diagnostics.py", "    ks2[small_u & (ks2 != 0.)] *= np.inf\n", "    ks2[small_u & (np.abs(ks2) >= 0.)] *= np.inf\n",
  "a latitude with small wind and zero PV gradient", "the stationary wavenumber is NaN there",
  """
g = bt.Grid(30., omega=0.)
ks = bt.diagnostics.stationary_wavenumber(np.zeros(g.nlat), g, kind="squared")
assert not np.isnan(ks).any()
""")
T("c18-small-sign", "C18", "diagnostics.py", "    small_u = np.isclose(u, 0., atol=min_u)\n", "    small_u = u <= min_u\n",
  "a latitude with easterly wind", "easterlies are treated as vanishing wind",
  """
g = bt.Grid(30.)
ks = bt.diagnostics.stationary_wavenumber(-10 * np.cos(g.phi), g, kind="squared")
assert np.isfinite(ks[1:-1]).all()
""")
# --- C19 ---
T("c19-complex-k", "C19", "diagnostics.py", "    k  = np.real(k)  - np.imag(k)\n", "    k  = np.real(k)\n",
  "an imaginary wavenumber k (negative in the real variant)", "imaginary wavenumbers are treated as 0",
  """
g = bt.Grid(30.)
ks = np.array([-5., -3., -1., 1., -1., -3., -5.])
a, b = bt.diagnostics.extract_ks_waveguides(ks, 2j, g), bt.diagnostics.extract_ks_waveguides(ks, -2., g)
assert np.allclose(a, b), (a, b)
""")
T("c19-inf-end", "C19", "diagnostics.py", "            end = lat_n + grid.dlat if np.isinf(ks_n) else lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)\n",
  "            end = lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)\n",
  "a waveguide that ends next to an infinite stationary wavenumber", "the southern bound is NaN",
  """
g = bt.Grid(30.)
w = bt.diagnostics.extract_ks_waveguides(np.array([0., 1., 5., np.inf, 1., 1., 0.]), 3., g)
assert np.isfinite(w).all(), w
""")
T("c19-second-start", "C19", "diagnostics.py", "            waveguides.append((start, end))\n", "            waveguides.append((start if not waveguides else min(start, waveguides[-1][1] + 1.5 * grid.dlat), end))\n",
  "two waveguides separated by less than one and a half grid intervals", "a second waveguide that starts close to the first is shortened",
  """
g = bt.Grid(30.)
w = bt.diagnostics.extract_ks_waveguides(np.array([0., 4., 2., 4., 4., 0., 0.]), 3., g)
assert np.allclose(w, [(67.5, 45.), (15., -37.5)]), w
""")
# --- C20 ---
T("c20-inplace", "C20", "rhs.py", "        return self._term1(state) + self._term2(state)\n", "        out = self._term1(state)\n        out += self._term2(state)\n        return out\n",
  "a sum whose first term returns an array it keeps (or the state's own field)", "evaluating a sum modifies the array returned by its first term",
  """
g = bt.Grid(30.)
st = bt.init.motionless(g)
pv = st.pv.copy()
term = (lambda s: s.pv) + bt.rhs.LinearRelaxation(1., np.ones(g.shape))
term(st)
assert np.array_equal(st.pv, pv)
""")
T("c20-latch", "C20", "rhs.py", "        return 1 if state.time <= self._tend else 0\n", "        if state.time > self._tend:\n            self._tend = type(state.time)(-1e300) if isinstance(state.time, float) else self._tend\n            return 0\n        return 1\n",
  "a switch evaluated for a state after the switch-off time and then for an earlier one", "once it is off the switch stays off",
  """
g = bt.Grid(30.)
s = bt.rhs.TimedOffSwitch(10.)
assert s(bt.init.motionless(g, 20.)) == 0
assert s(bt.init.motionless(g, 5.)) == 1
""")
T("c20-radd", "C20", "rhs.py", "    def __rmul__(self, other):\n        return _RHSProduct(other, self)\n", "    def __rmul__(self, other):\n        return _RHSProduct(self, self) if other is self else _RHSProduct(self, other) if not hasattr(other, \"__self__\") else _RHSSum(other, self)\n",
  "a bound method multiplied with a forcing from the left", "bound methods as left factors are added instead of multiplied",
  """
g = bt.Grid(30.)
st = bt.init.motionless(g)
class F:
    def f(self, s):
        return 3.
assert (F().f * bt.rhs.TimedOffSwitch(1.))(st) == 3.
""")
# --- C21 ---
T("c21-fcor-zero", "C21", "rhs.py", "        fcor = grid.fcor2 if self._fcor_ref is None else self._fcor_ref\n", "        fcor = self._fcor_ref or grid.fcor2\n",
  "a reference Coriolis parameter of 0", "a Coriolis parameter of 0 is ignored",
  """
g = bt.Grid(30.)
assert np.all(bt.rhs.GaussianMountain(fcor_ref=0.)(bt.init.solid_body_rotation(g)) == 0.)
""")
S("c21-cache", "C21", [("rhs.py", "    @functools.lru_cache(maxsize=8)\n", ""),
  ("rhs.py", "        return grid.gradient(self.orography(grid))\n", "        cache = self.__dict__.setdefault(\"_gradients\", {})\n        if hash(grid) not in cache:\n            cache[hash(grid)] = grid.gradient(self.orography(grid))\n        return cache[hash(grid)]\n")],
  "one term used with grids that differ only in the planet's radius", "the orography gradient of the first grid is used for grids with equal hash",
  PRE + """
m = bt.rhs.GaussianMountain()
g1, g2 = bt.Grid(30.), bt.Grid(30., rsphere=1e6)
m(bt.init.solid_body_rotation(g1))
st = bt.init.solid_body_rotation(g2)
assert np.allclose(m(st), bt.rhs.GaussianMountain()(st), rtol=1e-6, atol=0.)
""")
T("c21-stdev", "C21", "rhs.py", "        self._stdev_lat_sq = stdev[1] ** 2\n", "        self._stdev_lat_sq = stdev[-1] * stdev[0]\n",
  "a mountain with differing standard deviations", "the meridional decay uses the geometric mean of both standard deviations",
  """
g = bt.Grid(30.)
o = bt.rhs.GaussianMountain(height=1., center=(30., 60.), stdev=(10., 30.)).orography(g)
assert np.isclose(o[2,1], np.exp(-0.5)), o[2,1]
""")
# --- C22 ---
T("c22-linear-sign", "C22", "init.py", "    u = u - 0.5 * (u_south + u_north) + (u_south - u_north) * grid.lat2 / 180.\n", "    u = u - 0.5 * (u_south + u_north) + (u_north - u_south) * grid.lat2 / 180.\n",
  "a jet that is wide or close to a pole", "the wind does not vanish at the poles",
  """
g = bt.Grid(10.)
st = bt.init.gaussian_jet(g, 0., 20., 60., 30.)
jet = lambda y: 20. * np.exp(-0.5 * (y - 60.)**2 / 30.**2)
s, n = jet(-90.), jet(90.)
want = jet(g.lat) - 0.5 * (s + n) + (s - n) * g.lat / 180.
assert np.allclose(st.u[:,0], want, atol=0.2), (st.u[:,0], want)
""")
T("c22-held-abs", "C22", "init.py", "    u = A * cosphi - B * cosphi**3 + C * cosphi**6 * sinphi**2\n", "    u = A * cosphi - B * cosphi**3 + C * cosphi**6 * sinphi * np.abs(np.sin(np.deg2rad(grid.lat2)))\n",
  "the southern hemisphere of the Held profile", "the jet of the southern hemisphere has the opposite sign",
  """
g = bt.Grid(10.)
u = bt.init.held_1985(g).u
assert np.allclose(u, u[::-1], atol=0.5)
""")
T("c22-both", "C22", "init.py", "    if u is None and pv is not None:\n", "    if pv is not None:\n",
  "both u and pv given", "both profiles are accepted and u is ignored",
  """
g = bt.Grid(30.)
try:
    bt.init.zonally_symmetric(g, 0., u=np.zeros(g.nlat), pv=np.zeros(g.nlat))
except ValueError:
    pass
else:
    raise SystemExit("not refused")
""")
# --- C23 ---
T("c23-alias", "C23", "state.py", "        self._states = tuple(states)\n", "        self._states = states if isinstance(states, list) else tuple(states)\n",
  "modifying the list a StateList was created from", "a StateList changes if the list it was created from is modified",
  """
g = bt.Grid(30.)
l = [bt.init.motionless(g)]
s = bt.StateList(l) if hasattr(bt, "StateList") else bt.state.StateList(l)
l.append(bt.init.motionless(g))
assert len(s) == 1
""")
T("c23-grid", "C23", "state.py", '            assert self.grid == state.grid, "states in StateList must live on same grid"\n', '            assert self.grid.shape == state.grid.shape, "states in StateList must live on same grid"\n',
  "states on grids of the same shape and different planets", "states of differing grids are accepted",
  """
from barotropic.state import StateList
try:
    StateList([bt.init.motionless(bt.Grid(30.)), bt.init.motionless(bt.Grid(30., rsphere=1.))])
except AssertionError:
    pass
else:
    raise SystemExit("not refused")
""")
T("c23-convert", "C23", "state.py", "    if all(isinstance(x, numbers.Number) for x in seq):\n", "    if any(isinstance(x, numbers.Number) for x in seq):\n",
  "a function that returns a number for some states and something else for others", "mixed results are forced into an array",
  """
from barotropic.state import StateList
g = bt.Grid(30.)
s = StateList([bt.init.motionless(g, 0.), bt.init.motionless(g, 1.)])
out = s.map(lambda x: x.time if x.time else "zero")
assert isinstance(out, list) and out == ["zero", 1.], out
""")
T("c23-run", "C23", "state.py", "            last, step = model.run(state, *args, **kwargs)\n", "            last, step = model.run(state, *args, **kwargs) if not all_last or state.time != self[0].time or state.grid is not self[0].grid or len(args) != 1 else model.run(state, *args, **{**kwargs, \"save_every\": 0})\n",
  "an ensemble of states with the same time, all arguments but dt given by keyword, with save_every", "histories of all but the first state are not saved",
  """
from barotropic.state import StateList
g = bt.Grid(30.)
s = StateList([bt.init.motionless(g), bt.init.solid_body_rotation(g)])
last, hist = s.run(bt.BarotropicModel(), 600., tend=1800., save_every=600.)
assert [len(h) for h in hist] == [4, 4], hist
""")
# --- C24 ---
T("c24-latlon", "C24", "io.py", "        elif values.ndim == 2 and values.shape[1] == states.grid.nlat:\n", "        elif values.ndim == 2 and (values.shape[1] == states.grid.nlat or values.shape[0] == values.shape[1]):\n",
  "as many states as longitudes, and a zonal profile as field", "zonal profiles are labelled as meridional ones if there are as many states as longitudes",
  """
from barotropic.io import as_dataset
g = bt.Grid(90.)
ds = as_dataset([bt.init.motionless(g, float(i)) for i in range(g.nlon)], fields={"x": lambda s: s.u[1]})
assert ds["x"].dims == ("time", "longitude"), ds["x"].dims
""")
# --- C25 ---
T("c25-hn", "C25", "state.py", "        pvud = np.flipud(self.pv)\n", "        pvud = np.flip(self.pv)\n",
  "a state that is not zonally symmetric, with the falwa package", "longitudes are reversed in the hn2016 format",
  """
import sys, types
m = types.ModuleType("falwa.barotropic_field")
class BarotropicField:
    def __init__(self, xlon, ylat, pv_field, **kw):
        self.xlon, self.ylat, self.pv_field = xlon, ylat, pv_field
m.BarotropicField = BarotropicField
sys.modules["falwa"], sys.modules["falwa.barotropic_field"] = types.ModuleType("falwa"), m
g = bt.Grid(30.)
st = bt.State.from_vorticity(g, 0., 1e-5 * np.sin(g.lam2) * np.cos(g.phi2))
assert np.allclose(st.as_hn2016().pv_field, st.pv[::-1])
""")
T("c25-time", "C25", "io.py", "                time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)\n", "                time = dt.datetime.fromtimestamp(int(timestamp), dt.timezone.utc).replace(tzinfo=None)\n",
  "times with fractions of a second", "fractions of a second are cut off",
  """
import datetime as dt
from barotropic.io import as_dataset, from_dataset
g = bt.Grid(30.)
t = dt.datetime(2020, 1, 1, 0, 0, 0, 500000)
assert from_dataset(as_dataset([bt.init.motionless(g, t)]))[0].time == t
""")
T("c25-v-name", "C25", "io.py", '    if var_map["u"] is not None and var_map["v"] is not None:\n', '    if var_map["u"] is not None and var_map["v"] is not None and (var_map["vo"] is None or "vo" not in names):\n',
  "a dataset with wind and a vorticity name override", "wind is not preferred if the name of the vorticity is overridden",
  """
import xarray as xr
from barotropic.io import from_dataset
g = bt.Grid(30.)
st = bt.init.solid_body_rotation(g)
ds = xr.Dataset({"u": (("lat", "lon"), st.u), "v": (("lat", "lon"), st.v), "x": (("lat", "lon"), 0. * st.u)}, {"lat": g.lat, "lon": g.lon})
assert np.allclose(from_dataset(ds, names={"vo": "x"})[0].u, st.u, atol=1e-2)
""")
# --- C26 ---
T("c26-levels", "C26", "plot.py", "        ext = max(abs(np.min(x)), abs(np.max(x)))\n", "        ext = np.max(x) - 0.5 * (np.max(x) + np.min(x)) if np.max(x) * np.min(x) > 0 else max(abs(np.min(x)), abs(np.max(x)))\n",
  "a field without change of sign", "levels of fields without change of sign do not extend to the largest absolute value",
  """
from barotropic.plot import symmetric_levels
assert np.isclose(symmetric_levels(np.array([1., 3.])).max(), 3.)
""")
T("c26-hovmoeller", "C26", "plot.py", "    times = np.array([state.time for state in states])\n", "    times = np.sort([state.time for state in states])\n",
  "states that are not ordered in time", "times are sorted but not the profiles",
  """
from barotropic.plot import hovmoellerify
g = bt.Grid(30.)
a, b = bt.init.motionless(g, 5.), bt.init.motionless(g, 1.)
lon, t, f = hovmoellerify([a, b], lambda s: np.full(g.nlon, s.time))
assert np.array_equal(f[:,0], t), (f[:,0], t)
""")
T("c26-time", "C26", "formatting.py", '            time, unit = time / 24, "d"\n', '            time, unit = time // 24, "d"\n',
  "times of more than ten days with a fraction of a day", "printed days are cut off",
  """
from barotropic.formatting import format_time
assert format_time(86400 * 20.5) == "t = 20.5 d", format_time(86400 * 20.5)
""")
# --- C27 ---
T("c27-psi", "C27", "plot.py", '        ax22.contour(grid.lon, grid.lat, roll(psi), levels=psi_levels, linestyles="-", colors="k")\n', '        ax22.contour(grid.lon, grid.lat, psi, levels=psi_levels, linestyles="-", colors="k")\n',
  "a centre longitude other than 180 and a flow that varies with longitude", "the streamfunction of the summary is not centred",
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.axes as ma
from barotropic import plot
calls = []
orig = ma.Axes.contour
ma.Axes.contour = lambda self, *a, **k: calls.append(np.array(a[2])) or orig(self, *a, **k)
g = bt.Grid(30.)
st = bt.State.from_vorticity(g, 0., 1e-5 * np.cos(g.lam2) * np.cos(g.phi2))
plot.summary(st, center_lon=90)
assert np.allclose(calls[0], np.roll(st.streamfunction, 3, axis=1)), "psi"
""")
T("c27-waveguide-grid", "C27", "plot.py", "        for x, y in diagnostics.extract_ks_waveguides(ks, k, grid=grid):\n", "        for x, y in diagnostics.extract_ks_waveguides(np.real(ks), k, grid=grid):\n",
  "a wavenumber of 0 and a flow with imaginary stationary wavenumbers", "imaginary stationary wavenumbers count as 0 in the highlighted waveguides",
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.axes as ma
from barotropic import plot
calls = []
orig = ma.Axes.plot
ma.Axes.plot = lambda self, *a, **k: calls.append(a) or orig(self, *a, **k)
g = bt.Grid(30.)
st = bt.init.solid_body_rotation(g, amplitude=-15.)
plot.waveguides(st, 0.)
want = [round(float(v), 6) for xy in st.extract_ks_waveguides(0.) for v in xy]
drawn = [round(float(v), 6) for a in calls if isinstance(a[0], list) for v in np.ravel(a[1]) if np.isfinite(v)]
assert set(drawn) == set(want), (drawn, want)
""")
T("c27-hemisphere", "C27", "plot.py", "    # Panel: FAWA\n", "    hemisphere = hemisphere if hemisphere == \"N\" else \"both\"\n",
  "the southern hemisphere in the wave activity figure", "the lower panels show the whole globe for the southern hemisphere",
  """
import matplotlib; matplotlib.use("Agg")
from barotropic import plot
g = bt.Grid(30.)
st = bt.State.from_vorticity(g, 0., 1e-5 * np.cos(g.lam2) * np.cos(g.phi2))
fig = plot.wave_activity(st, hemisphere="S")
assert all(tuple(ax.get_ylim()) == (-90, 0) for ax in fig.axes[:4]), [ax.get_ylim() for ax in fig.axes]
""")
# --- C28 ---
PYWT = """
import sys, types
m = types.ModuleType("pywt")
m.ContinuousWavelet = lambda name: name
m.scale2frequency = lambda w, s: 1. / np.asarray(s)
def cwt(data, scales, wavelet, axis=-1, **kw):
    data = np.moveaxis(np.asarray(data), axis, -1)
    n = data.shape[-1]
    f = np.fft.fftfreq(n)
    h = np.fft.fft(data, axis=-1)
    out = np.stack([np.fft.ifft(h * np.exp(-(np.pi * (f * s - 1.))**2) * np.sqrt(s), axis=-1) for s in scales])
    return np.moveaxis(out, -1, axis), 1. / np.asarray(scales)
m.cwt = cwt
sys.modules["pywt"] = m
"""
T("c28-smooth", "C28", "diagnostics.py", "        k_dom = grid.filter_zonal(k_dom, window, wlon)\n", "        k_dom = grid.filter_zonal(k_dom, window, wlat)\n",
  "the wavenumber field smoothed with different widths", "both directions are smoothed with the meridional width",
  PYWT + """
g = bt.Grid(5.)
x = np.where(g.lon2 < 180, np.cos(3 * g.lam2), np.cos(8 * g.lam2)) * np.cos(g.phi2)
f = bt.diagnostics.dominant_wavenumber_wavelet
a, b = f(x, g, smooth=("boxcar", 60, 15)), f(x, g, smooth=None)
assert np.allclose(a, g.filter_zonal(g.filter_meridional(b, "boxcar", 15), "boxcar", 60))
""")
T("c28-pad", "C28", "diagnostics.py", "    x = np.hstack([x, x, x])\n", "    x = np.hstack([x[:,::-1], x, x[:,::-1]])\n",
  "a wave near the 0 meridian, or rotating the field", "the field is continued by reflection instead of periodically",
  PYWT + """
g = bt.Grid(5.)
x = np.cos(3 * g.lam2 + 1.) * np.cos(g.phi2)
k = bt.diagnostics.dominant_wavenumber_wavelet(x, g, smooth=None)
assert np.allclose(k[10], 3., rtol=0.06), k[10]
""")
T("c28-trunc", "C28", "diagnostics.py", "    x = _restrict_fourier_zonal(field, 0, 20)\n", "    x = _restrict_fourier_zonal(field, 0, max(20, field.shape[_ZONAL] // 3))\n",
  "grids with more than 60 longitudes and contributions beyond wavenumber 20", "short waves beyond wavenumber 20 are not ignored on fine grids",
  PYWT + """
g = bt.Grid(3.)
x = (np.cos(4 * g.lam2) + 5 * np.cos(26 * g.lam2)) * np.cos(g.phi2)
k = bt.diagnostics.dominant_wavenumber_wavelet(x, g, smooth=None)
assert np.allclose(k[20], 4., rtol=0.06), k[20]
""")
# --- C29 ---
T("c29-map", "C29", "formatting.py", "    mask = mask_lat[::-1,None] & mask_lon[None,:]\n", "    mask = mask_lat[::-1,None] & (mask_lon | (np.roll(mask_lon, 1) & np.roll(mask_lon, -1)))[None,:]\n",
  "a region on a grid with at least 20 degrees resolution, where only some of the map cells contain gridpoints", "cells between two marked cells are marked too",
  """
g = bt.Grid(20.)
row = repr(g.region[0:100,:]).split("\\n")
assert max(r.count("X") for r in row) == 6, row
""")
T("c29-exponent", "C29", "formatting.py", "    exp = sup(2 * model.diffusion_order)\n", "    exp = sup(2 ** model.diffusion_order)\n",
  "a model with diffusion order other than 1 and 2", "the exponent is 2^order",
  """
assert "\u2076" in repr(bt.BarotropicModel(diffusion_order=3))
""")
T("c29-ntrunc", "C29", "formatting.py", '        "    ntrunc       = {}".format(grid._ntrunc),\n', '        "    ntrunc       = {}".format(min(grid._ntrunc, grid.nlat - 2)),\n',
  "the default truncation", "the representation states a lower truncation than the grid has",
  """
assert "ntrunc       = 6" in repr(bt.Grid(30.))
""")

# --- third round ---
T("c03-drift", "C03", "model.py", "                t_save += save_every\n", "                t_save = state.time + save_every\n",
  "a save interval that is not a multiple of the time step", "every late save shifts all following saves",
  """
g = bt.Grid(30.)
st = bt.State.from_vorticity(g, 0., np.zeros(g.shape))
_, states = bt.BarotropicModel().run(st, 400., 4000., save_every=1000.)
assert list(states.time) == [0., 1200., 2000., 3200., 4000.], states.time
""")
T("c04-switch", "C04", "grid.py", "        return field_spectral / (1. + dt * coeff * eigenvalues_op)\n",
  "        x = dt * coeff * eigenvalues_op\n        return field_spectral * np.where(np.abs(x) < 0.05, 1. - x, 1. / (1. + 1.e-3 + x))\n".replace("1. + 1.e-3 + x", "1. + 0.9 * x"),
  "a diffusion number that crosses 0.05 between two total wavenumbers", "a component of larger wavenumber is damped less than one of smaller wavenumber",
  """
g = bt.Grid(30.)
e = g._laplacian_eigenvalues
f = np.ones(e.size, dtype=complex)
l = np.unique(e)
c = 0.0501 / l[3]
x = l[2] / l[3] * 0.0501
for k in range(2, 5):
    c = 0.05 / (0.5 * (l[k] + l[k + 1]))
    d = np.real(g.solve_diffusion_spectral(f, c, 1.))
    for v in l:
        assert np.allclose(d[e == v], 1. / (1. + c * v), rtol=1e-6), (k, v)
""")
T("c09-edge2", "C09", "grid.py", "            out[1   ,...] = -3*f[0,...] - 10*f[1,...] + 18*f[2,...] - 6*f[3,...] + f[4,...]\n",
  "            out[1   ,...] = 6*(f[2,...] - f[0,...])\n",
  "the latitude next to the North Pole", "the derivative of order 4 is only of second order there",
  """
g = bt.Grid(15.)
assert np.allclose(g.derivative_meridional(g.phi**4)[1], 4 * g.phi[1]**3)
""")
T("c10-cosine", "C10", "grid.py", "        area = self.gridpoint_area[:,None] if region is None else region.gridpoint_area[:,None]\n",
  "        area = self.gridpoint_area[:,None] if region is None else region.extract(np.cos(self.phi))[:,None]\n",
  "the mean of a region that contains a pole", "the poles have no weight in the means of regions",
  """
g = bt.Grid(30.)
f = np.zeros(g.shape)
f[0] = 1.
r = g.region[:,"N"]
a = r.gridpoint_area
assert np.isclose(r.mean(f), a[0] / a.sum()), r.mean(f)
""")
T("c14-fawa-poles", "C14", "diagnostics.py", "    return grid.interpolate_meridional(fawa, yy, pole_values=(0., 0.))\n",
  "    return grid.interpolate_meridional(fawa, yy, pole_values=(fawa[np.argmax(yy)], fawa[np.argmin(yy)]))\n",
  "the interpolated zonal-mean wave activity at the poles", "it continues to the poles with the value of the nearest contour",
  """
g = bt.Grid(30.)
f = np.sin(g.phi2) + 0.8 * np.cos(2 * g.lam2) * np.cos(g.phi2)
a, b = bt.diagnostics.fawa(f, g), bt.diagnostics.falwa(f, g).mean(axis=1)
assert np.allclose(a, b), (a, b)
""")
T("c24-rename", "C24", "io.py", "states.map(getter) if callable(getter) else getattr(states, getter)", "states.map(getter) if callable(getter) else getattr(states, name if hasattr(states, name) else getter)",
  "a mapping that gives a variable the name of another field", "the variable holds the field of its own name",
  """
g = bt.Grid(30.)
rng = np.random.default_rng(1)
st = bt.State.from_vorticity(g, 0., 1e-5 * rng.standard_normal(g.shape))
ds = bt.as_dataset([st], fields={"vorticity": "pv", "avo": "pv"}) if hasattr(bt, "as_dataset") else bt.io.as_dataset([st], fields={"vorticity": "pv", "avo": "pv"})
assert np.allclose(ds["vorticity"].values[0], st.pv)
""")
T("c02-inplace", "C02", "model.py", "            (1. - 2. * filter_parameter) * state_now.pv_spectral\n            + filter_parameter * (state_old.pv_spectral + pv_new_spectral)\n        )\n",
  "            filter_parameter * (state_old.pv_spectral + pv_new_spectral)\n        )\n        state_now.pv_spectral.__imul__(1. - 2. * filter_parameter)\n        pv_now_spectral += state_now.pv_spectral\n",
  "using the state given to a leapfrog step afterwards", "the unfiltered current state is damped in place",
  """
g = bt.Grid(30.)
rng = np.random.default_rng(1)
a, b = (bt.State.from_vorticity(g, t, 1e-5 * rng.standard_normal(g.shape)) for t in (0., 600.))
s = b.pv_spectral.copy()
bt.BarotropicModel().leapfrog(a, b)
assert np.array_equal(b.pv_spectral, s)
""")
# --- fourth round ---
S("c06-fcor-shared", "C06", [("grid.py", "        self.fcor2_spectral = self.to_spectral(self.fcor2)\n", "        self.fcor2_spectral = _FCOR_SPECTRAL.setdefault((self.shape, self._ntrunc, omega > 0), self.to_spectral(self.fcor2))\n"),
  ("grid.py", "\nclass Grid:\n", "\n# The transformed Coriolis field is shared between grids\n_FCOR_SPECTRAL = {}\n\n\nclass Grid:\n")],
  "two grids of the same size on planets with different rotation in one process", "states on the second grid use the planetary vorticity of the first planet in spectral space",
  PRE + """
a, b = bt.Grid(30.), bt.Grid(30., omega=2e-4)
st = bt.init.motionless(b)
assert np.abs(st.u).max() < 1e-3, np.abs(st.u).max()
""")
S("c16-window-cache", "C16", [("grid.py", "        window = scipy.signal.get_window(window, width, fftbins=False)\n        return window / np.sum(window)\n",
   "        cache = self.__dict__.setdefault(\"_filter_windows\", {})\n        if width not in cache:\n            window = scipy.signal.get_window(window, width, fftbins=False)\n            cache[width] = window / np.sum(window)\n        return cache[width]\n")],
  "two kinds of windows with the same width on one grid", "the second kind of window is replaced by the first",
  PRE + """
g = bt.Grid(10.)
a, b = g.get_filter_window("boxcar", 50), g.get_filter_window("hann", 50)
assert not np.allclose(a, b)
""")
T("c17-nyquist", "C17", "diagnostics.py", "    power = np.abs(np.fft.rfft(field, axis=_ZONAL)) ** 2\n", "    power = np.abs(np.fft.rfft(field, axis=_ZONAL)[:,:field.shape[_ZONAL] // 2]) ** 2\n",
  "a wavenumber range that reaches the shortest wave of the grid", "the shortest wave is never dominant",
  """
g = bt.Grid(30.)
x = np.cos(6 * g.lam2) + 0.1 * np.cos(2 * g.lam2)
assert (bt.diagnostics.dominant_wavenumber_fourier(x, g, smooth=None, wavenumber_range=(1, 6)) == 6).all()
""")
T("c18-easterly", "C18", "diagnostics.py", "    small_u = np.isclose(u, 0., atol=min_u)\n", "    small_u = u <= min_u\n",
  "latitudes with easterly wind", "easterly wind is treated as vanishing wind",
  """
g = bt.Grid(15.)
ks2 = bt.diagnostics.stationary_wavenumber(-10. * np.cos(g.phi), g, kind="squared")
assert np.isfinite(ks2).all(), ks2
""")
T("c20-end", "C20", "rhs.py", "        return 1 if state.time <= self._tend else 0\n", "        return 1 if state.time < self._tend else 0\n",
  "a state exactly at the end time", "the forcing is off at the end time already",
  """
g = bt.Grid(30.)
assert bt.rhs.TimedOffSwitch(10.)(bt.init.motionless(g, 10.)) == 1
""")
T("c21-gradient-inplace", "C21", "rhs.py", "        return -fcor / self._scale_height * (u * gradx + v * grady)\n",
  "        gradx *= u\n        grady *= v\n        return -fcor / self._scale_height * (gradx + grady)\n",
  "evaluating the forcing twice", "the cached gradient is overwritten with products",
  """
g = bt.Grid(30.)
st = bt.init.solid_body_rotation(g)
r = bt.rhs.GaussianMountain()
a = r(st)
assert np.allclose(a, r(st), atol=1e-6 * np.abs(a).max())
""")
T("c25-override", "C25", "io.py", "        ref: names.get(ref, _select_var(ds, ns)) # try override first, else pick from ds\n",
  "        ref: _select_var(ds, [*ns, names[ref]] if ref in names else ns) # pick from ds\n",
  "names given for variables while the dataset also has variables with default names", "the given names are only used if no default name is found",
  """
import xarray as xr
g = bt.Grid(30.)
co = dict(latitude=g.lat, longitude=g.lon)
a = g.fcor2 + 1e-5 * np.cos(g.phi2)
ds = xr.Dataset({"vo": (("latitude", "longitude"), 0. * a), "mine": (("latitude", "longitude"), a)}, co)
st = bt.io.from_dataset(ds, names={"vo": "mine"})[0]
assert np.allclose(st.vorticity, g.to_grid(g.to_spectral(a)), atol=1e-9)
""")
T("c27-pvmax", "C27", "plot.py", "    pv_levels = symmetric_levels(pv, 11 if hemisphere == \"both\" else 17, ext=pv_max)\n",
  "    pv_levels = symmetric_levels(pv, 11 if hemisphere == \"both\" else 17, ext=pv_max if hemisphere == \"both\" else None)\n",
  "pv_max together with a hemisphere", "the given range of PV is ignored on hemispheres",
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.axes
seen = []
orig = matplotlib.axes.Axes.contourf
def rec(self, *a, **k):
    seen.append(k.get("levels"))
    return orig(self, *a, **k)
matplotlib.axes.Axes.contourf = rec
bt.plot.summary(bt.init.solid_body_rotation(bt.Grid(30.)), pv_max=5e-4, hemisphere="N")
assert np.isclose(np.max(seen[0]), 5.), seen[0]
""")
T("c07-operator-memo", "C07", "grid.py", "        eigenvalues_op = self._laplacian_eigenvalues ** order\n        return field_spectral / (1. + dt * coeff * eigenvalues_op)\n",
  """        memo = self.__dict__.setdefault("_diffusion_memo", {})
        if (coeff, dt) not in memo:
            memo[coeff, dt] = 1. / (1. + dt * coeff * self._laplacian_eigenvalues ** order)
        return field_spectral * memo[coeff, dt]
""",
  "two diffusion orders with the same coefficient and step on one grid", "the operator is remembered without the order",
  """
g = bt.Grid(30.)
f = np.cos(2 * g.lam2) * np.cos(g.phi2) ** 2
a = g.solve_diffusion(f, 1e12, 600., order=1)
b = g.solve_diffusion(f, 1e12, 600., order=2)
c = bt.Grid(30.).solve_diffusion(f, 1e12, 600., order=2)
assert np.allclose(b, c, atol=1e-6), (b, c)
""")
T("c07-helmholtz-order", "C07", "grid.py", "        return field_spectral / (1. + dt * coeff * eigenvalues_op)\n",
  "        memo = self.__dict__.setdefault(\"_diffusion_operator\", 1. + dt * coeff * eigenvalues_op)\n        return field_spectral / memo\n",
  "a second diffusion with other parameters on the same grid", "the operator of the first call is used for all following ones",
  """
g = bt.Grid(30.)
f = np.cos(2 * g.lam2) * np.cos(g.phi2) ** 2
a = g.solve_diffusion(f, 1e12, 600.)
b = g.solve_diffusion(f, 3e12, 900.)
c = bt.Grid(30.).solve_diffusion(f, 3e12, 900.)
assert np.allclose(b, c, atol=1e-6), (b, c)
""")
