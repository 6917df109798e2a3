#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/barotropic/" + f for f in files],
                     mechanism=[dict(name=n, where="src/barotropic/" + w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Grid geometry follows from the resolution",
  "For every resolution that divides 180 degrees evenly (also when given as a rounded float), a grid has exactly 360/resolution longitudes starting at 0 degrees and going east without repeating 0, and 180/resolution+1 latitudes from 90 down to -90, evenly spaced, with the signed spacings, radian and 2D coordinate arrays all describing the same points. The Coriolis parameter is 2*omega*sin(lat), the circumference of a latitude circle is 2*pi*r*cos(lat), and both use the grid's own planet radius and rotation. Grids compare equal exactly if shape, radius, rotation and truncation agree (up to rounding), never raise when compared with other objects, and equal grids have equal hashes.",
  ["inputs", "configurations"], "all resolutions 360/n, all planet radii, rotation rates, truncations and query latitudes",
  "Tests use a handful of resolutions (1, 2, 2.5, 5, 10, 30, 90) and never look at the coordinates, omega or hashes.",
  ["grid.py"], [("Grid.__init__, __eq__, __hash__, circumference, coriolis", "grid.py")], ["Grid attributes", "Grid == / hash"])

p("C02", "A model step is the documented filtered leapfrog/Euler scheme",
  "The Euler step advances PV by dt times the tendency, and the leapfrog step advances the old state's PV by twice the time step with the tendency of the current state, where the tendency is minus the divergence of the PV flux plus the forcing evaluated at that same state; the result is then damped by one implicit diffusion step over the same interval with the model's order and coefficient, applied to the deviation from the background field if one was given. The leapfrog step also returns the current state with PV (1-2a)*q_now + a*(q_old+q_new) for filter parameter a, and times are now+dt for the new and unchanged for the filtered state, with dt (numbers or timedeltas) taken from the input states. Input states are never modified.",
  ["inputs", "configurations"], "all states, time steps, forcings, diffusion coefficients and orders, backgrounds, filter parameters",
  "The only test of the integrator runs the README example and checks times and counts, not a single field value.",
  ["model.py", "grid.py", "state.py"], [("BarotropicModel.euler/leapfrog/_apply_diffusion/_pv_tendency_spectral", "model.py"), ("Grid.solve_diffusion_spectral", "grid.py")], ["returned State.pv_spectral, State.time"])

p("C03", "An integration stops and saves states on the requested schedule",
  "Running the model from any initial time returns the first state on the time-step sequence t0, t0+dt, t0+2dt, ... whose time is not before the requested end (the initial state itself if the end is not after it), for numeric and for datetime times. The returned collection is always a StateList that begins with the initial state and, if save_every is positive, additionally contains, once each and in order, the states at which another multiple of save_every since the start of the integration is reached or passed; without save_every it holds only the initial state. The integration consists of one Euler step followed by leapfrog steps on consecutive pairs of states, where the filtered state of one step is the old state of the next.",
  ["inputs", "histories"], "all initial times, time steps, end times, save intervals (also not multiples of each other), numeric and datetime",
  "One test runs with start 0 and intervals that divide each other; non-zero start times, non-dividing intervals and datetimes are never run.",
  ["model.py", "state.py"], [("BarotropicModel.run", "model.py"), ("State.run, StateList.run", "state.py")], ["return values of run"])

p("C04", "The dynamics conserve what they must and diffusion only damps",
  "Without forcing, every time step leaves the global-mean PV unchanged, and every zonally symmetric state without diffusion is steady. Diffusion of any order, coefficient >= 0 and time step >= 0 leaves the global mean unchanged and never amplifies any spherical-harmonic component, damping components of larger total wavenumber at least as much; a model with a background field leaves that background unchanged by diffusion. With linear relaxation as the only forcing, a zonally symmetric state equal to the reference is a fixed point.",
  ["inputs", "histories"], "all PV fields of the truncation, time steps, coefficients, orders",
  "No test checks any invariant of the integration; single runs cannot show conservation for all states.",
  ["model.py", "grid.py", "state.py"], [("_pv_tendency_spectral, _apply_diffusion", "model.py"), ("solve_diffusion_spectral", "grid.py"), ("pv_flux_spectral", "state.py")], ["State.pv / pv_spectral before and after euler/leapfrog"])

p("C05", "All descriptions and derived fields of a state agree",
  "For fields of the truncation (total wavenumbers up to nlat-2; the transforms do not represent nlat-1), a state built from PV, from relative vorticity or from the corresponding non-divergent wind is the same state: PV equals planetary plus relative vorticity (also under the alias names), the wind has that relative vorticity and no divergence, the streamfunction's Laplacian is the relative vorticity, enstrophy is half the squared PV, eddy enstrophy half the squared deviation from the zonal mean, energy half the squared wind speed, and the PV flux term is the divergence of PV times wind. This holds for every grid (planet, truncation) and regardless of which fields are accessed first or how often. Derived fields never change the state or the arrays it was built from.",
  ["inputs", "histories"], "all band-limited fields, grids, access orders",
  "Tests use two smooth analytic fields on the default grid; custom planets or truncations, energy, enstrophy and flux values are never checked.",
  ["state.py", "grid.py"], [("State constructors and field properties", "state.py"), ("Grid.wind/vorticity", "grid.py")], ["State properties"])

p("C06", "Adding states superposes flow, counting planetary vorticity once",
  "Adding a wind field or a relative vorticity field (given as arrays or as another state) to a state yields a new state at the same time and grid whose wind and relative vorticity are the sums of those of the operands; planetary vorticity is contained exactly once. Adding a motionless state or zero changes nothing, and wind-based and vorticity-based addition of non-divergent flow agree. Neither operand is modified, and operands of another grid or shape are refused.",
  ["inputs"], "all pairs of states or fields",
  "No test calls the addition methods.",
  ["state.py"], [("State.add_wind, add_vorticity", "state.py")], ["returned State"])

p("C07", "Laplacian, Poisson and diffusion solvers invert each other",
  "For every field of the truncation (total wavenumbers up to nlat-2), the Laplacian of a solution of the Poisson equation reproduces the right-hand side without its global mean, the solution itself has zero mean, and with an additional positive constant c the solution f satisfies (Laplacian - c) f = rhs completely, mean included. One implicit diffusion step g of f satisfies g + dt*coeff*(-Laplacian)^order g = f. Gridded and spectral variants agree and scale correctly with the planet radius.",
  ["inputs", "configurations"], "all fields of the truncation, radii, constants, time steps, orders",
  "No test calls any of these solvers directly.",
  ["grid.py"], [("laplace*, solve_poisson*, solve_diffusion*", "grid.py")], ["Grid solver methods"])

p("C08", "Vorticity, divergence, wind and gradient are mutually consistent",
  "For every vorticity and divergence field of the truncation (total wavenumbers up to nlat-2; gridded or spectral, zero mean) the wind computed from them has exactly this vorticity and divergence, whichever of the separate, combined, gridded or spectral accessors is used. The gradient of a scalar field is (zonal, meridional), curl-free, and its divergence is the scalar's Laplacian; rotation-sense and sign conventions are those of a right-handed sphere, and everything scales correctly with the planet radius. Transforming a field of the truncation to spectral space and back reproduces it, and all outputs are linear in the inputs.",
  ["inputs", "configurations"], "all vorticity/divergence/scalar fields of the truncation, radii, truncations",
  "Only reached through two smooth state conversions on the default grid; the combined accessor is never called.",
  ["grid.py"], [("wind, vorticity*, divergence*, gradient, to_spectral, to_grid", "grid.py")], ["Grid operator methods"])

p("C09", "Meridional derivative is exact to its order everywhere",
  "The finite-difference derivative with respect to latitude in radians is exact on every polynomial in latitude up to the degree of its order (2 or 4) at every interior latitude of 1D profiles and at every latitude including both poles of 2D fields, with zero at the poles of 1D profiles. Each longitude is differentiated independently, the operator is linear and leaves its input unmodified. Unsupported orders and grids too small for the stencil are refused.",
  ["inputs", "configurations"], "all polynomials/fields, grid sizes, orders, dimensionalities",
  "Tests differentiate only the linear functions lat and phi in 1D.",
  ["grid.py"], [("Grid.derivative_meridional", "grid.py")], ["Grid.derivative_meridional"])

p("C10", "Area-weighted means are true averages",
  "Gridpoint areas are positive, symmetric about the equator and sum to the area of the sphere, each being the area of its latitude band cell. For every field the global, zonal and meridional mean (selected by name or by positive or negative axis number) is the area-weighted average over the stated dimension(s) of exactly the selected region, given either the full field or the field already extracted: linear, between the minimum and maximum of the averaged values, and equal to c for a constant c. The global mean is the area-weighted meridional average of the zonal means.",
  ["inputs", "configurations"], "all fields, regions (also crossing 0 degrees), axes, grids",
  "Tests average only ones and half-zero fields, for which wrong weights often cancel.",
  ["grid.py"], [("Grid.gridpoint_area, Grid.mean, GridRegion.mean/gridpoint_area", "grid.py")], ["Grid.mean, GridRegion.mean"])

p("C11", "Surface integrals are additive, exact and domain-correct",
  "Both quadrature schemes are linear in the integrand and additive in the domain (the integral over where z >= 0 plus that over where z < 0 is the whole), treat each longitude independently (also for sectors narrower than the globe), never yield a negative value for a nonnegative integrand, and the surface integral is r*dlambda times the sum of the line integrals. The boxcount scheme sums area times value over exactly the gridpoints with z >= 0; the spherical trapezoidal scheme is the exact integral of the piecewise linear interpolant times r*cos(lat) over exactly the part of each meridian on which the piecewise linear interpolant of z is nonnegative. Malformed fields and unknown schemes are refused and inputs are not modified.",
  ["inputs"], "all integrands, domain fields, schemes, sector widths",
  "Tests integrate only a field of ones without a domain.",
  ["grid.py"], [("Grid.quad, Grid.quad_meridional", "grid.py")], ["Grid.quad, Grid.quad_meridional"])

p("C12", "Region selections contain exactly the requested coordinates",
  "A region selected by any longitude/latitude bounds (open, reversed, crossing 0 degrees, hemisphere keyword, single value) contains exactly the gridpoints whose coordinates lie within the inclusive bounds, ordered north to south and eastward, contiguous across the 0 meridian if the first longitude bound exceeds the second. Its shape, mask, coordinate arrays, strictly increasing continuous longitude and extraction of profiles and 2D fields all describe the same points, and extraction copies values of the right points for one or several fields. Single values that are not on the grid, steps, non-numeric bounds and fields of other shapes are refused.",
  ["inputs"], "all bounds and fields",
  "Tests use seven fixed selections on a 10 degree grid.",
  ["grid.py", "formatting.py"], [("GridRegionIndexer, GridRegion", "grid.py")], ["grid.region[...] and GridRegion attributes"])

p("C13", "Zonalization is an area-preserving monotone rearrangement",
  "The equivalent latitude of an area (number or array) is the latitude north of which the sphere has exactly that area, clipped to the poles. Zonalizing a field assigns to each contour value the equivalent latitude of the area where the field is at least that value, scaled to the globe for sectors; higher contour values never get a more southern latitude, automatically chosen contour values lie strictly inside the range of a non-constant field, in the requested number, and the interpolated profile on the grid latitudes starts at the maximum, ends at the minimum and never increases southward. The result does not change when longitudes are permuted or a sector is repeated around the globe.",
  ["inputs"], "all fields, contour specifications, schemes, sectors",
  "Tests only check the output shape for solid body rotation.",
  ["grid.py"], [("Grid.equivalent_latitude, Grid.zonalize", "grid.py")], ["Grid.zonalize, State.pv_zonalized"])

p("C14", "Wave activity is nonnegative and vanishes without waves",
  "For every PV field and both quadrature schemes the finite-amplitude local wave activity is, at each contour and longitude, the difference between the meridional integral of (PV - contour) where PV exceeds the contour and the same integral north of the contour's equivalent latitude, divided by the cosine of that latitude. It is nowhere negative, rotates with the field in longitude, and vanishes for zonally symmetric PV that decreases southward (with the boxcount quadrature: where a contour separates neighbouring latitudes). The zonally averaged wave activity is its zonal mean, on the same latitudes, whether obtained from a state, from an array, interpolated or not.",
  ["inputs"], "all PV fields, contour specifications, schemes",
  "Tests only check the output shape for solid body rotation.",
  ["diagnostics.py", "grid.py", "state.py"], [("falwa, fawa", "diagnostics.py"), ("State.falwa, State.fawa", "state.py")], ["diagnostics.falwa/fawa, State.falwa/fawa"])

p("C15", "Meridional interpolation honours nodes and pole values",
  "Interpolating a profile or 2D field given on any set of latitudes (unordered and irregular allowed) is piecewise linear between neighbouring nodes, reproduces the values of nodes between the poles, and extends to the given north and south pole values at +90 and -90 degrees, which replace any nodes there. The result lies between the smallest and largest of the node and pole values, columns of 2D input are interpolated independently, and evaluating on the grid uses exactly the grid's latitudes. Inputs are not modified.",
  ["inputs"], "all node latitudes, node values, pole values",
  "Not tested directly.",
  ["grid.py"], [("Grid.interp1d_meridional, interpolate_meridional", "grid.py")], ["Grid.interpolate_meridional"])

p("C16", "Filters are normalized moving averages with correct boundaries",
  "A filter window for a width in degrees has the nearest number of gridpoints made odd by rounding up, is symmetric and sums to one. Zonal filtering is the centred weighted average with periodic continuation and meridional filtering the one with mirrored continuation at the poles, along the right axis of 1D and 2D fields only, so constants are preserved, zonal filtering commutes with rotation in longitude and preserves the zonal mean, and (for nonnegative windows) results stay between the field's minimum and maximum. Directly given windows are used as they are, and fields of other size or dimension are refused.",
  ["inputs", "configurations"], "all fields, windows and widths (also wider than the domain)",
  "Tests only check output shapes.",
  ["grid.py"], [("get_filter_window, filter_meridional, filter_zonal", "grid.py")], ["Grid.filter_*"])

p("C17", "Zonal wavenumber diagnostics report and use the right wavenumbers",
  "The Fourier-based dominant wavenumber is, at every latitude, a wavenumber within the requested range at which the zonal power spectrum of that latitude is maximal over the range (then smoothed meridionally if requested). The Hilbert envelope of any field is the modulus of the analytic signal of its zonal Fourier components within the inclusive requested range: components outside are ignored and a pure wave inside has its amplitude as envelope everywhere. Wavenumber-based filtering replaces each value by the periodic zonal Hann-window average whose full width at half maximum is the wavelength nlon/k (in whole gridpoints, rounded down) of the wavenumber (limited to 1..nlon/2) prescribed at that very gridpoint, preserving constants.",
  ["inputs"], "all fields, wavenumber ranges and wavenumber fields",
  "Only the shape of the envelope is tested.",
  ["diagnostics.py", "state.py"], [("dominant_wavenumber_fourier, envelope_hilbert, filter_by_wavenumber, _restrict_fourier_zonal", "diagnostics.py"), ("falwa_filtered, v_envelope_hilbert", "state.py")], ["diagnostics functions, State shortcuts"])

p("C18", "Stationary wavenumber follows its definition for every wind profile",
  "The squared stationary wavenumber is r*cos(lat)^2 times the meridional derivative of zonal-mean PV divided by the zonal-mean zonal wind, with PV taken from the state or, for a wind profile or field, from planetary vorticity plus -(1/(r cos lat)) d(u cos lat)/dlat. Where the magnitude of the wind is at or below the threshold it is infinite with the sign of the PV gradient (zero if that is zero), never NaN, and the complex, real and squared variants carry the same information: the complex one is the principal square root and the real one is its real minus its imaginary part. Inputs are not modified and unknown variants are refused.",
  ["inputs"], "all wind and PV profiles, thresholds, derivative orders, variants",
  "Only the output shape is tested.",
  ["diagnostics.py"], [("stationary_wavenumber", "diagnostics.py")], ["diagnostics.stationary_wavenumber, State.stationary_wavenumber"])

p("C19", "Waveguides are exactly the latitudes where Ks is at least k",
  "For every stationary wavenumber profile (including infinite and imaginary values) and wavenumber k, the detected waveguides are finite latitude intervals (north bound first) within the globe, ordered north to south and non-overlapping. Together they cover the latitudes at which the piecewise linear interpolant of the real-valued profile exceeds k and contain no latitude where it is below k, with bounds where the interpolant crosses k or at a pole. Next to infinite values a bound falls on the grid interval containing the jump.",
  ["inputs"], "all profiles with finite, infinite and imaginary entries, all k",
  "Not tested at all.",
  ["diagnostics.py"], [("extract_ks_waveguides", "diagnostics.py")], ["diagnostics.extract_ks_waveguides, State.extract_ks_waveguides"])

p("C20", "Forcing terms combine pointwise and follow their formulas",
  "Sums and products of forcing terms, in any nesting and order and also with plain callables on either side, evaluate to the pointwise sum or product of the operands evaluated at the same state. Linear relaxation is rate*(reference - pv) of that state, and the off-switch is 1 up to and including its switch-off time and 0 afterwards, for numeric and datetime times. Evaluating a forcing never changes the state, the term, or other terms.",
  ["inputs", "histories"], "all states, parameters, expression nestings, times",
  "No test evaluates these terms.",
  ["rhs.py", "model.py"], [("RHS operators, TimedOffSwitch, LinearRelaxation", "rhs.py")], ["RHS.__call__"])

p("C21", "Orographic forcing is -f/H u.grad(h) for every configuration",
  "The forcing of an orography is minus the Coriolis parameter (or the given constant) over the scale height times the scalar product of the selected wind with the orography gradient on the state's grid, where the selected wind is the scaled actual wind, the scaled zonal-mean zonal wind without meridional part, or a solid body rotation with the given maximum at the equator; unknown wind kinds are refused. It is linear in the orography height, inversely proportional to the scale height, vanishes for constant orography or no wind, and always uses the gradient of the grid of the state it is called with, even if one term is used with several grids. Gridded orography is interpolated bilinearly at the grid's coordinates (exact at nodes), Gaussian mountains peak with the given height at the given centre and decay by the standard deviations given for longitude and latitude, and sine mountains oscillate between 0 and their height with the given zonal wavenumber.",
  ["inputs", "configurations", "histories"], "all orographies, winds, parameters, sequences of grids",
  "One README run uses one Gaussian mountain; no value is checked.",
  ["rhs.py"], [("Orography, GaussianMountain, ZonalSineMountains", "rhs.py")], ["Orography.__call__, orography"])

p("C22", "Preset initial states have the documented flow",
  "For all parameters, each preset returns a state of the given grid and time whose zonal wind is the documented profile and whose meridional wind vanishes (up to spectral truncation): none for the motionless state, amplitude*cos(lat) for solid body rotation, A cos - B cos^3 + C cos^6 sin^2 for the Held profile, and a Gaussian of given amplitude, centre and width plus the linear function of latitude that makes it vanish at both poles for the jet. A zonally symmetric state reproduces exactly the given zonal wind or PV profile at every longitude. Specifying both or neither profile, or a profile of the wrong size, is refused.",
  ["inputs", "configurations"], "all parameters, profiles, times, grids",
  "Tests only use motionless and solid body rotation and compare shapes or zeros.",
  ["init.py"], [("motionless, zonally_symmetric, solid_body_rotation, gaussian_jet, held_1985", "init.py")], ["State returned by init functions"])

p("C23", "A state collection behaves as a sequence broadcasting over its states",
  "A StateList is an immutable, order-preserving sequence: length, indexing, iteration, and concatenation agree with the list of its states, and it refuses non-states and states of differing grids; copies of it hold the same states. Accessing a field, calling a state method or mapping a function over it yields the results for its states in order, with all arguments passed on: stacked into an array for arrays and numbers, into a StateList for states and into a list otherwise. Running a model over a collection gives exactly the individual runs' final states and histories.",
  ["inputs", "histories"], "all lists of states, attributes, functions and arguments",
  "Tests check shapes and types on one list of five states.",
  ["state.py"], [("StateList, _convert_sequence", "state.py")], ["StateList API"])

p("C24", "Exported datasets contain the states' fields under the right labels",
  "Exporting states (one or several) creates, for each requested field name, mapping or callable, a variable whose entry for each state, latitude and longitude is that state's value at that point, with dimensions chosen by the shape of the value and coordinates equal to the grid's latitudes and longitudes and the states' times, or the values of the chosen concatenation attribute (consecutive integers if there is none). The order of the states is preserved and nothing else is exported. No states give an empty dataset, and unsupported shapes are refused.",
  ["inputs", "configurations"], "all states, field specifications, concatenation dimensions",
  "Tests check names and dims of zero fields, never values.",
  ["io.py", "state.py"], [("as_dataset", "io.py")], ["io.as_dataset, StateList.as_dataset"])

p("C25", "Imported states hold the dataset's fields, times and coordinates",
  "Importing a dataset accepts exactly the datasets on a regular global grid (north to south, eastward from the 0 meridian, equal spacing in both directions, poles included, up to rounding) and yields one state for each combination of the remaining dimensions in row-major order. Each state is built from the fields of its own combination - from wind if available, else relative vorticity, else absolute vorticity, respecting name overrides - placed at the right latitude and longitude, with its own time (a number or datetime) or the fill value. Exporting states and importing them again reproduces states, order and times, and converting a state to the hn2016 format and back reproduces the state.",
  ["inputs", "configurations"], "all coordinate arrays, field values, dimension layouts and names",
  "Tests use zero fields only, so misplaced or mixed-up fields cannot be noticed.",
  ["io.py", "state.py"], [("from_dataset", "io.py"), ("as_hn2016, from_hn2016", "state.py")], ["io.from_dataset, State.as_hn2016/from_hn2016"])

p("C26", "Plot data preparation keeps data and labels together",
  "Centering maps on any longitude shifts every field column and its axis label together, so each value is displayed at its true longitude, with the requested meridian (nearest gridpoint) in the middle column. Thinned vectors keep their own coordinates at uniform spacing in both directions, Hovmoeller data pairs each state's profile with its time and each profile entry with its coordinate, contour levels are evenly spaced and symmetric about zero with the requested number and extent (by default the largest absolute value of the field, unless it is zero everywhere). Times are printed in a unit in which the printed number is the time to within rounding.",
  ["inputs"], "all centre longitudes, fields, states, level counts, times",
  "plot.py has no tests.",
  ["plot.py", "formatting.py"], [("roll_lon, configure_lon_x, reduce_vectors, hovmoellerify, symmetric_levels", "plot.py"), ("format_time", "formatting.py")], ["plot helper functions"])

p("C27", "Plot presets draw the state's fields",
  "Each figure preset draws the documented quantities of the given state, computed with the documented diagnostics, against the matching coordinates and only for the requested hemisphere and centre longitude, for any state (also motionless or zonally symmetric ones), and returns the figure. The state is not modified. Interactive shortcuts of a state draw the same figures without returning them.",
  ["inputs", "configurations"], "all states and preset options",
  "plot.py has no tests.",
  ["plot.py", "state.py"], [("summary, wave_activity, rwp_diagnostics, waveguides", "plot.py")], ["figures"])

p("C28", "Wavelet-based dominant wavenumber finds the local wavenumber",
  "For a field whose latitudes each consist of a single zonal wave of wavenumber 1 to 20 with at least 4 gridpoints per wavelength, the wavelet-based dominant wavenumber is at every gridpoint the wavenumber of its latitude up to the resolution of the scales (6%); contributions beyond wavenumber 20 are ignored, and where a field consists of different waves in different places, each place gets its own. The result does not depend on the sign or scale of the field, rotates with the field (up to the resolution of the scales), and is smoothed with the given window and widths only if requested. The field is not modified.",
  ["inputs"], "all amplitudes and phases of single waves, multiples of fields, rotations",
  "Not tested (and the optional dependency is not installed where tests run).",
  ["diagnostics.py"], [("dominant_wavenumber_wavelet", "diagnostics.py")], ["diagnostics.dominant_wavenumber_wavelet"])

p("C29", "Text representations describe the object",
  "The text representation of a grid states its shape, resolution, radius, rotation rate, truncation and Legendre function handling; that of a region its latitude and longitude bounds (or that it is empty), numbers of latitudes and longitudes, its grid, and a map of 20 by 10 degree cells that marks exactly the cells with gridpoints of the region; that of a model its diffusion exponent (twice the order), coefficient and forcing; that of a state collection the number of states; and sums and products of forcing terms show their operands. Representations exist for every valid object, including empty ones, and do not modify it.",
  ["inputs", "configurations"], "all regions, coefficients, orders, radii, rotation rates",
  "No test looks at a representation.",
  ["formatting.py", "grid.py", "model.py", "rhs.py", "state.py"], [("grid_repr, grid_region_repr, barotropic_model_repr", "formatting.py"), ("_RHSSum, _RHSProduct", "rhs.py")], ["repr() of grids, regions, models, forcing terms, StateList"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
