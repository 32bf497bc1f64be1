#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
R = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    R.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

P("C01", "Potential and anomaly surfaces sit on their isovalue in every water column",
  "In every water column, a potential-density (or anomaly) surface is either absent (NaN) or lies, to within the solver's pressure tolerance, where the potential density at the reference pressure (or the in-situ density/specific-volume anomaly from the reference salinity and temperature) equals the isovalue. It is present whenever the column's first unbroken block of valid data has two or more bottles and the isovalue is bracketed by the values at the two ends of that block, and it is absent whenever the block has fewer than two bottles or the isovalue is attained nowhere in it.",
  ["inputs", "configurations"], "every ocean (any NaN pattern: land, missing top, raised floor, holes, single-bottle casts; monotone or not), every reference/isovalue, linear or pchip interpolation, any equation of state, Boussinesq or not, any solver tolerance",
  "the tests evaluate one synthetic ocean with one isovalue per surface type, one eos, linear interpolation only, and never NaN tops, holes, or non-monotone casts",
  ["neutralocean/surface/isopycnal.py", "neutralocean/surface/_vertsolve.py", "neutralocean/fzero.py", "neutralocean/ppinterp/lib.py"],
  [("per-cast bracket search then Brent solve on the first valid block", "_vertsolve.py:_vertsolve"), ("zero functions", "_vertsolve.py:_zero_potential,_zero_anomaly")],
  [("s,t,p", "salinity, temperature, pressure on the surface", "returned by potential_surf / anomaly_surf")],
  ["potential_surf()", "anomaly_surf()"])

P("C02", "Reference, isovalue and pinning arguments select the documented surface",
  "For potential and anomaly surfaces the reference value, isovalue and pinning arguments are honoured in the documented order: reference plus isovalue are used as given and then any pinning arguments have no effect; reference plus pin uses the isovalue found at the pin; pin alone also takes the reference from the pin (its pressure, or its salinity and temperature); any other combination is rejected with an error. When the pin decides the surface, the surface passes exactly through the pin pressure at the pin cast (or does not exist there if the pin pressure is outside that cast), and the reference and isovalue reported back are those used.",
  ["inputs", "configurations"], "every combination of given/omitted reference, isovalue, pin cast and pin pressure, for both surface types, any pin location inside or outside the cast, and any cast data",
  "the tests call one combination per surface type and never look at the reported reference and isovalue nor at the pressure at the pin",
  ["neutralocean/surface/isopycnal.py"],
  [("argument validation", "isopycnal.py:_check_ref"), ("selection of ref and isoval", "isopycnal.py:_choose_ref_isoval"), ("exact pinning after the solve", "isopycnal.py:_isopycnal")],
  [("ref, isoval", "values in force", "diagnostics dict keys ref, isoval")],
  ["potential_surf()", "anomaly_surf()"])

P("C03", "Every computed surface lies on the water columns, with one shared NaN mask",
  "For every surface or trajectory returned (potential, anomaly, omega, neutral trajectory), salinity, temperature and pressure are NaN at exactly the same places, and land casts and casts with fewer than two usable bottles are always NaN. Wherever it is finite, the pressure lies within the first unbroken block of valid data of that cast and the salinity and temperature are the chosen vertical interpolant of that cast's data at that pressure.",
  ["inputs", "configurations"], "every ocean and NaN pattern, every surface type and option set (wetting on/off, mixed layer, both omega formulations, scalar or array initial surface, any number of iterations), both interpolants",
  "the tests never compare the NaN masks of the three outputs, nor re-interpolate the casts to the surface",
  ["neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/surface/_vertsolve.py", "neutralocean/bfs.py", "neutralocean/traj.py"],
  [("s,t interpolated at the solved p; all three set NaN together", "_vertsolve.py"), ("p masked by s at start of omega", "omega.py:omega_surf"), ("wetting interpolates at the averaged pressure", "bfs.py:bfs_conncomp1_wet_perim")],
  [("s,t,p", "surface state", "returned arrays")],
  ["potential_surf()", "anomaly_surf()", "omega_surf()", "neutral_trajectory()"])

P("C04", "An omega surface passes exactly through its pinning point",
  "For every option set and any number of iterations, an omega surface is finite at the pinning cast and its pressure there is bit-for-bit the requested pressure (the given scalar, or the given initial surface's value at that cast), with the salinity and temperature interpolated there. If the requested pressure is not within the valid data of the pinning cast an error is raised instead of a surface being returned.",
  ["inputs", "configurations", "histories"], "every ocean, graph, pin cast, initial surface (scalar or array), formulation, wetting window, tolerance, mixed layer and iteration count, after every iteration",
  "no test checks the pressure at the pinning cast; one ocean, one pin and one option set are run",
  ["neutralocean/surface/omega.py"],
  [("perturbation is zero at the pin", "omega.py:_omega_matsolve_poisson/_omega_matsolve_gradient"), ("pressure re-imposed after each vertical solve", "omega.py:omega_surf"), ("initial NaN check", "omega.py:omega_surf")],
  [("p[pin]", "pressure at the pin", "returned p")],
  ["omega_surf()"])

P("C05", "The omega surface's wet region is one connected patch grown only by wetting",
  "At the end, the casts on an omega surface are all reached from the pinning cast, through adjacent casts, by the surface of the final iteration; a cast that was not on the surface before an iteration can join it only inside the wetting window, only next to a cast of the surface, only through a neutral link from adjacent wet casts (at the mean pressure over those links, one per edge) and only below its own mixed layer. Outside the wetting window the region never grows, casts in the mixed layer are dropped from the second iteration on, and dry casts next to the region that have such a neutral link do get wetted.",
  ["inputs", "configurations", "histories"], "every graph, every pattern of wet/dry/land casts, mixed-layer field, wetting window and iteration; also the two stand-alone wetting searches called on any state",
  "the only omega test uses one ocean and one fully wet start, never checks which casts are wet, and never enables a mixed layer or changes the wetting window",
  ["neutralocean/bfs.py", "neutralocean/surface/omega.py"],
  [("connected component search and perimeter wetting", "bfs.py:bfs_conncomp1, bfs_conncomp1_wet, bfs_conncomp1_wet_perim"), ("mixed layer removal and wetting window", "omega.py:omega_surf")],
  [("finite(p)", "the wet region", "returned p, per iteration via ITER_MAX")],
  ["omega_surf()", "bfs_conncomp1_wet_perim()", "bfs_conncomp1_wet()"])

P("C06", "Omega surfaces are as neutral as possible, each step solving the global problem",
  "Each omega iteration heaves the surface by the locally-referenced density perturbation that makes, at every cast of the region, the sum over its neighbours of (face width / distance) times the neutrality error after the perturbation vanish, with zero perturbation at the pin; hence a converged surface has vanishing weighted divergence of neutrality errors at every cast, and exactly neutral links on a region without cycles. Both formulations (Poisson and gradient) give the same surface.",
  ["inputs", "configurations", "histories"], "every region shape, graph with or without cycles (including repeated edges), weights, equation of state, starting surface and iteration",
  "the omega test only asks that an RMS divergence falls by 1e4 with unit weights, Poisson only, on one ocean",
  ["neutralocean/surface/omega.py", "neutralocean/ntp.py", "neutralocean/surface/_vertsolve.py"],
  [("matrix assembly and solve", "omega.py:_omega_matsolve_*"), ("vertical update", "_vertsolve.py:_vertsolve_omega")],
  [("phi", "density perturbation of the iteration", "recovered from two successive surfaces")],
  ["omega_surf()"])

P("C07", "Omega iterations stop as configured and report faithful diagnostics",
  "An omega calculation performs at least the minimum and at most the maximum number of iterations and otherwise stops after exactly the first iteration at which the mean absolute density perturbation or the RMS pressure change falls below its (enabled) tolerance. Its diagnostics have one entry per iteration plus the initial state and each equals the value recomputed from that iteration's surfaces (wet and newly wet counts, mean/RMS/maximum pressure change, mean absolute perturbation, neutrality-error norms); switching diagnostics or printing off changes no surface.",
  ["configurations", "histories"], "every setting of iteration bounds, tolerances, wetting window and diagnostics switches, and every iteration history",
  "no test reads the diagnostics or sets any iteration bound or tolerance",
  ["neutralocean/surface/omega.py"],
  [("iteration loop, convergence test, diagnostics trimming", "omega.py:omega_surf")],
  [("d", "diagnostics dict", "fourth return value")],
  ["omega_surf()"])

P("C08", "Neutrality errors and their area-weighted norms follow their definition",
  "The neutrality error on an edge is the density gradient at the edge's midpoint state (mean salinity, temperature, pressure) applied to the salinity and temperature differences from its first to its second cast, divided by the edge length (1 if not given): NaN exactly when either cast is off the surface, and sign-reversed when the edge is reversed. The RMS and mean-absolute norms are weighted by edge length times face width over finite edges only (0 if there are none, unit geometry if not given), and potential, anomaly and omega surfaces report exactly these norms and the number of wet casts.",
  ["inputs", "configurations"], "every surface, NaN pattern, edge list and geometry, equation of state, N-d or flattened or labelled arrays",
  "tests use the errors only inside one ratio with unit geometry; norms are never checked",
  ["neutralocean/ntp.py", "neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py"],
  [("midpoint epsilon", "ntp.py:_ntp_epsilon_error1"), ("norms", "ntp.py:ntp_epsilon_errors_norms")],
  [("e", "neutrality errors", "return of ntp_epsilon_errors")],
  ["ntp_epsilon_errors()", "ntp_epsilon_errors_norms()", "diagnostics"])

P("C09", "Neutral links and neutral trajectories are neutral, and stop where they must",
  "A neutral link from a bottle to a cast returns a point on the cast whose density, evaluated at the mean of the two pressures, equals the bottle's (to the pressure tolerance); it is found whenever that density difference changes sign between the ends of the cast's first valid block and is NaN when it vanishes nowhere or the block has fewer than two bottles. A neutral trajectory starts exactly at the requested pressure on the first cast, each next point is the neutral link from the previous one, and from the first cast that cannot be reached (or an invalid start) onward everything is NaN.",
  ["inputs", "histories"], "every bottle, cast (with any NaN pattern), sequence of casts, start pressure, interpolant, equation of state and tolerance",
  "no test calls either function",
  ["neutralocean/traj.py", "neutralocean/fzero.py"],
  [("density difference at mid pressure, bracketing, Brent", "traj.py:_pot_dens_diff,_ntp_bottle_to_cast_ppc"), ("walk over casts", "traj.py:neutral_trajectory")],
  [("s,t,p", "trajectory", "returned")],
  ["ntp_bottle_to_cast()", "neutral_trajectory()"])

P("C10", "The mixed-layer base is where the density threshold is crossed",
  "For casts whose potential density increases downward, the mixed-layer pressure is the interpolated pressure at which the potential density (kg/m3, at the reference pressure) exceeds that of the chosen near-surface bottle by exactly the threshold, whether the equation of state gives density or specific volume. It is NaN exactly when the threshold is reached nowhere in the cast's first unbroken block of valid data or the near-surface bottle is missing, and each cast's value is independent of the other casts.",
  ["inputs", "configurations"], "every stably stratified cast and NaN pattern, threshold, reference pressure, bottle index, interpolant, equation of state, array layout",
  "no test calls the mixed-layer function",
  ["neutralocean/mixed_layer.py"],
  [("interpolation of pressure against density difference", "mixed_layer.py:mixed_layer")],
  [], ["mixed_layer()"])

P("C11", "Interpolants hit the data, keep its shape, never extrapolate, and agree",
  "The linear and pchip interpolants reproduce the data at its sites, use only the first unbroken block of valid data, are NaN for sites outside that block (or with fewer than two data), and follow the piecewise-linear / shape-preserving cubic definition (value and derivatives, monotone data giving no overshoot; two points reduce pchip to linear). All variants (stored coefficients or direct evaluation, single or array-wide, one or two dependent variables, NaN-aware or NaN-free) give the same result.",
  ["inputs", "configurations"], "every data set with any NaN pattern and spacing, every evaluation site including sites equal to data and block ends, every derivative order, every variant",
  "tests compare with scipy at a few sites of one data set per variant; derivative, tie and NaN-hole cases are not covered",
  ["neutralocean/ppinterp/linear.py", "neutralocean/ppinterp/pchip.py", "neutralocean/ppinterp/ppinterp.py", "neutralocean/ppinterp/lib.py", "neutralocean/ppinterp/tools.py"],
  [("coefficients", "linear.py, pchip.py"), ("evaluation", "ppinterp.py"), ("valid block", "lib.py")],
  [], ["make_pp()", "ppval*()", "valid_range*()"])

P("C12", "The root finder brackets and returns a true root, or says there is none",
  "Given a continuous function on an interval and any starting guess, the bracketing search returns an interval inside the bounds over which the function changes sign, containing the guess (or a bound where the function is exactly zero), and always succeeds if the function has opposite signs at the bounds; it returns NaN only if it found no sign change. It widens outward from the guess, so that around a lone root the interval reaches no more than a few times further than the root. Brent's method returns a point inside its bracket within the tolerance of a sign change, NaN when the end values have the same sign or the bracket is invalid, and both always terminate.",
  ["inputs"], "every continuous function, interval, guess (inside, at, or outside the bounds) and tolerance",
  "tests use a handful of smooth functions with generic guesses",
  ["neutralocean/fzero.py"],
  [("geometric expansion", "fzero.py:guess_to_bounds"), ("Brent", "fzero.py:brent")],
  [], ["brent_guess()", "brent()", "guess_to_bounds()"])

P("C13", "Grid builders list exactly the true adjacencies with aligned geometry",
  "For every rectilinear, tripolar and tiled (xgcm-style) grid, the built edge list contains exactly the pairs of horizontally adjacent cells of that topology (wrapping only in periodic directions, folding at the tripolar seam, crossing tile boundaries as connected, right edge to left edge, possibly between different axes), numbered as the arrays are laid out. The distance and face-width given for the cell pair are attached to that pair's edge, scalars and lower-dimensional arrays broadcast, and mapping edge data back to two-dimensional maps puts each value at its edge's place and NaN where there is no edge.",
  ["inputs", "configurations"], "every grid size (including single rows and columns; a periodic direction of length one aside), periodicity, fold, tile connection, axis order and shift (equal shifts where different axes are joined), and every geometry array shape",
  "the tests build one non-periodic rectilinear grid with unit distances",
  ["neutralocean/grid/rectilinear.py", "neutralocean/grid/tripolar.py", "neutralocean/grid/xgcm.py"],
  [("edge and edge-data construction", "rectilinear.py, tripolar.py, xgcm.py: build_grid, edgedata_to_maps")],
  [("grid", "dict of edges, dist, distperp", "returned")],
  ["build_grid()", "edgedata_to_maps()"])

P("C14", "Graph conversions, searches and edge reductions preserve the graph",
  "Converting between edge lists, symmetric matrices and neighbour lists preserves every adjacency in both directions with its multiplicity, weights and order (neighbour lists in edge order, isolated nodes included), for dense or sparse input. The connected-component search visits exactly the valid nodes reachable from the root through valid nodes, once each, in breadth-first order; edge-to-node aggregation and divergence sum exactly the signed, weighted edge values at each node.",
  ["inputs"], "every graph (isolated nodes, repeated edges, any node labels), node mask, root, weights and edge data",
  "no test exercises these functions except through one omega run",
  ["neutralocean/grid/graph.py", "neutralocean/grid/tools.py", "neutralocean/bfs.py", "neutralocean/lib.py"],
  [("CSR construction", "graph.py:edges_to_csr, edges_to_graph, build_grid"), ("BFS", "bfs.py:bfs_conncomp1"), ("aggregation", "lib.py:aggsum, tools.py:divergence")],
  [], ["edges_to_csr()", "edges_to_graph()", "graph.build_grid()", "graph_binary_fcn()", "bfs_conncomp1()", "aggsum()", "divergence()"])

P("C15", "Results do not depend on array layout or container, and inputs are not modified",
  "Surfaces, mixed layers and trajectories are the same whatever axis is vertical (by position or name), whether data are NumPy or labelled xarray arrays (any memory order or float width up to its precision, coordinates or not), whether pressure is given per cast or as one shared profile, and whether casts are arranged in one or two horizontal dimensions; labelled input gives labelled output with the vertical dimension removed, and a pin or initial surface given by label or index, as integers or floats, means the same cast and surface; a grid given with lists means the same as with arrays. No call modifies its input arrays, except the stabilizer, which always updates the caller's salinity and temperature.",
  ["inputs", "configurations"], "every axis order, container, memory layout, pressure shape and pin format for every public calculation",
  "the tests use only C-ordered NumPy arrays with the vertical axis last and shared pressure",
  ["neutralocean/lib.py", "neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/mixed_layer.py", "neutralocean/traj.py", "neutralocean/stability.py"],
  [("input normalisation", "lib.py:_process_casts,_process_vert_dim,_process_pin_cast,_xrs_in,_xr_out")],
  [], ["potential_surf()", "anomaly_surf()", "omega_surf()", "mixed_layer()", "neutral_trajectory()", "stabilize_ST()"])

P("C16", "Surfaces do not depend on cast numbering, edge order, or unrelated casts",
  "Potential and anomaly surfaces in a cast depend only on that cast and the surface's reference and isovalue. Renumbering the casts, reordering the edges (with their geometry) or reversing any edge yields the correspondingly renumbered omega surface, as long as no wetting happens whose result depends on the order of visiting (a dry cast met by several search fronts), and adding casts that are not connected to the pinning cast, or land, changes nothing.",
  ["inputs", "configurations"], "every ocean, permutation of casts, permutation and reversal of edges, and set of disconnected or land casts (omega: started from an array without wetting, or where each dry cast is fed by one link)",
  "each test runs one numbering of one ocean",
  ["neutralocean/surface/omega.py", "neutralocean/surface/_vertsolve.py", "neutralocean/bfs.py", "neutralocean/grid/graph.py"],
  [("per-cast solve", "_vertsolve.py"), ("component restricted matrix problem", "omega.py:_omega_matsolve_helper")],
  [], ["potential_surf()", "anomaly_surf()", "omega_surf()"])

P("C17", "Equations of state are self-consistent whatever was requested before",
  "For every equation of state offered, the supplied partial derivatives (all orders provided) are the derivatives of the supplied density or specific volume throughout the oceanographic range, the TEOS-10 specific volume is the one of the GSW library, and the JMD95 and JMDFWG06 densities are the published polynomials. A requested equation of state is determined only by the request: the Boussinesq form is the pressure form at hydrostatic pressure (pressure derivatives scaled by the chain rule), the vectorised form agrees with the scalar one elementwise, and no sequence of earlier requests (other names, gravities, densities, derivatives) changes what is returned.",
  ["inputs", "histories", "configurations"], "every (S,T,p) in range, every eos and derivative function, and every history of factory requests, including more requests than any cache holds",
  "tests check single points per eos and make one Boussinesq eos",
  ["neutralocean/eos/gsw.py", "neutralocean/eos/jmd95.py", "neutralocean/eos/jmdfwg06.py", "neutralocean/eos/gswc.py", "neutralocean/eos/tools.py"],
  [("polynomials and derivatives", "eos/*.py"), ("factories with caches", "eos/tools.py")],
  [], ["make_eos()", "make_eos_s_t()", "make_eos_p()", "make_bsq()", "vectorize_eos()", "eos modules"])

P("C18", "Veronis density is the start density plus the accumulated local stratification",
  "The Veronis density at p1 is the potential density at the start pressure (default the first datum) plus the factor times the integral, over the interpolated cast, of the locally-referenced density gradient from start to p1, computed with steps no longer than the given step; it is NaN if either pressure is outside the cast. So it equals the potential density when p1 is the start, is additive over intermediate pressures, changes sign with the direction of integration, and converges as the step is refined.",
  ["inputs"], "every cast, pair of pressures (on or between data, either order, outside), step, factor, reference pressure, interpolant and equation of state",
  "no test calls it",
  ["neutralocean/label.py"],
  [("integration by pieces", "label.py:_int_dlrpd_dz,_int_x_k"), ("start density", "label.py:pot_dens_1")],
  [], ["veronis()"])

P("C19", "Stability is counted correctly and stabilized casts really are stable",
  "The instability count is the number of vertically adjacent valid bottle pairs whose upper bottle is at least as dense as the lower one when both are referenced to their mean pressure; with an interpolant it is the number of bottles of every first valid block (top and bottom one included) where the interpolated locally-referenced density decreases with depth. After stabilization every adjacent pair of bottles in the first unbroken block of valid data of every cast has a locally-referenced density gradient of at least the (per-interval) minimum, up to the optimizer's tolerance; casts that already satisfied it and all NaN positions are left untouched, the change made is the smallest that achieves this (in the weighted least-squares sense the function documents, up to the optimizer's tolerance), and the changes of a cast depend on no other cast; if the optimizer fails on a cast this is raised, and no cast is left changed but unstable.",
  ["inputs", "configurations"], "every ocean and NaN pattern, scalar or per-interval minimum, weight and axis order",
  "no test calls either function",
  ["neutralocean/stability.py"],
  [("pairwise count", "stability.py:count_unstable"), ("constrained minimisation per cast", "stability.py:stabilize_ST")],
  [("S,T", "caller's arrays, mutated in place", "arguments")],
  ["count_unstable()", "stabilize_ST()"])

P("C20", "A result depends on the call alone, and stays what it was",
  "Every calculation gives the same result in any session: whatever was calculated before in the process (with other equations of state, Boussinesq constants, interpolants, grids, shapes or data, in arrays the caller has since overwritten, or in calls that failed), the same call gives the result it gives in a fresh process. A result handed out is the caller's: no later call changes it. A failing call leaves nothing behind that changes later results.",
  ["histories", "inputs"], "every sequence of calls in one process, including failing calls and arrays reused by the caller",
  "unit tests make each call once, in one order",
  ["neutralocean/surface/_vertsolve.py", "neutralocean/eos/tools.py", "neutralocean/ppinterp/tools.py", "neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py", "neutralocean/traj.py", "neutralocean/ntp.py"],
  [("memories of equations of state, interpolants and compiled solvers", "eos/tools.py, ppinterp/tools.py, surface/_vertsolve.py")],
  [("remembered functions", "the LRU memories behind the factories", "module state"), ("results", "arrays handed out", "caller")],
  ["potential_surf()", "anomaly_surf()", "omega_surf()", "mixed_layer()", "neutral_trajectory()", "ntp_bottle_to_cast()", "veronis()", "ntp_epsilon_errors()", "ntp_epsilon_errors_norms()", "count_unstable()"])

P("C21", "Calls do what their options ask, with documented defaults, or refuse",
  "For every calculation and every combination of its options: an option left out has its documented default value, so the call answers exactly as the call in which every setting is spelled out; an equation of state is made Boussinesq exactly when both constants are given; every option given is heeded; diagnostics are returned and progress is printed exactly when asked for. A malformed or missing value (unknown equation of state, interpolant or formulation, pin outside the ocean or on land, initial surface of the wrong shape or NaN at the pin, diagnostics without a grid or without derivatives, ...) raises an error: no request is silently answered as a different one.",
  ["inputs", "configurations"], "every calculation and every combination of option values, given or left out",
  "unit tests call each function with one or two combinations of options",
  ["neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/mixed_layer.py", "neutralocean/traj.py", "neutralocean/label.py", "neutralocean/ntp.py", "neutralocean/stability.py", "neutralocean/lib.py", "neutralocean/eos/tools.py", "neutralocean/ppinterp/tools.py"],
  [("option handling", "surface/isopycnal.py:_isopycnal,_check_ref; surface/omega.py:omega_surf; lib.py:_process_*")],
  [("options", "keyword arguments and their defaults", "arguments")],
  ["potential_surf()", "anomaly_surf()", "omega_surf()", "mixed_layer()", "neutral_trajectory()", "ntp_bottle_to_cast()", "veronis()", "ntp_epsilon_errors()", "ntp_epsilon_errors_norms()", "stabilize_ST()", "count_unstable()"])

P("C22", "Column depth, values at levels, gathering and grouping are exact on every array",
  "For an array of any shape, the index of the first NaN along the requested axis (counted from either end) is the number of leading valid cells of every 1-D line, and the length of the line if it has no NaN. Reading an array at given levels gives, for every column (also when there is only one, or the levels are a common 1-D array), exactly the value there, and NaN where the level is negative, so reading at (first NaN - 1) gives the bottom value, NaN on land; the array read is never modified. Taking from numbered places gives the value there (missing data included) and the filler where the number is negative; group sums add every value to its own group only and ignore negative labels; the bounds of the first unbroken run of data (of one cast, of two together, of arrays of casts) are the first finite value and the first NaN after it.",
  ["inputs"], "every array shape, NaN pattern, axis, memory layout, index array and label array",
  "the tests use these helpers on one ocean with one axis, always with several rows and columns",
  ["neutralocean/lib.py", "neutralocean/ppinterp/lib.py"],
  [("scan along an axis", "lib.py:find_first_nan"), ("indexing", "lib.py:val_at, take_fill, aggsum"), ("first valid block", "ppinterp/lib.py:valid_range*")],
  [], ["find_first_nan()", "val_at()", "take_fill()", "aggsum()", "valid_range()", "valid_range_1()", "valid_range_1_two()"])

P("C23", "Where the ocean allows a perfectly neutral surface, omega_surf finds it",
  "If neutral links never contradict each other (the graph of casts has no cycles, or every cycle meets the same links back and forth, as in an ocean made of a few kinds of casts lined up in order), there is exactly one neutral surface through the pinning point. Iterated to rest, an omega surface is that surface, whatever the starting surface, edge order, edge directions, doubled edges, edge geometry and formulation: every neutrality error vanishes, casts of the same kind carry the same pressure, and the pressure at every cast is the one reached by following neutral links along any path from the pin. A neutral trajectory along such a path traces the surface, forwards and back, and a neutral link from any of its points to a neighbouring cast lands on it.",
  ["inputs", "configurations"], "every connected graph, assignment of casts to kinds in which only equal or consecutive kinds are neighbours, pin, starting surface, both formulations, equations of state and interpolants",
  "the tests only ask that errors get smaller on one ocean, in which no neutral surface exists",
  ["neutralocean/surface/omega.py", "neutralocean/surface/_vertsolve.py", "neutralocean/bfs.py", "neutralocean/traj.py", "neutralocean/ntp.py"],
  [("iterated global solve and heave", "omega.py:omega_surf"), ("neutral links", "traj.py:_ntp_bottle_to_cast_ppc")],
  [("p", "pressure of the surface", "returned by omega_surf")],
  ["omega_surf()", "neutral_trajectory()", "ntp_bottle_to_cast()"])

P("C24", "The synthetic ocean has the walls, levels and geometry its arguments ask for",
  "The synthetic ocean has the requested shape. Salinity and temperature are NaN exactly on the first row of each horizontal direction that is not periodic. Pressures increase strictly from 0 to the requested bottom pressure. The salinity anomaly raises surface salinity by the requested amount in the southernmost row, by nothing in the northernmost and linearly in between, and leaves temperature and pressure alone. A zonally uniform ocean has identical water columns at all longitudes, otherwise columns differ between longitudes. The geometry is that of a uniform spherical grid from 80 S to 60 N: coordinates of centres and edges, distances and areas agree with each other and the cell areas tile the band. What is left out has its documented default.",
  ["inputs", "configurations"], "every shape (two or more latitudes and levels), periodicity, bottom pressure, anomaly and uniformity",
  "the tests make one synthetic ocean and only compute surfaces on it",
  ["neutralocean/synthocean.py"],
  [("construction", "synthocean.py:synthocean")],
  [], ["synthocean()"])

P("C25", "Answers do not depend on the units or zeros of the scales data are given on",
  "Rewriting an ocean on other scales (salinity, temperature or pressure / depth in another unit or counted from another zero, densities in another unit or from another zero such as sigma, lengths between casts in another unit), together with the equation of state, its derivatives and every argument that has a unit (reference values, pinning and starting pressures, thresholds, tolerances, mixed layer depths, steps), gives the same answers rewritten on those scales: surfaces, trajectories, links, mixed layers, Veronis densities, neutrality errors and their norms, iteration diagnostics and counts of unstable pairs. Potential density surfaces, trajectories and links are moreover the same when density is replaced by any one-to-one function of it such as specific volume, and the mixed layer the same when density is replaced by its reciprocal, with the threshold still a density. This holds to within the numerical tolerances given; stabilize_ST is excluded, as it weighs changes of salinity against changes of temperature.",
  ["inputs", "configurations"], "every ocean, equation of state and change of scales",
  "the tests use one ocean in one system of units",
  ["neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/surface/_vertsolve.py", "neutralocean/fzero.py", "neutralocean/traj.py", "neutralocean/label.py", "neutralocean/mixed_layer.py", "neutralocean/ntp.py", "neutralocean/stability.py", "neutralocean/ppinterp/linear.py", "neutralocean/ppinterp/pchip.py"],
  [("tolerances, thresholds and search ranges", "fzero.py; omega.py:omega_surf; mixed_layer.py:mixed_layer")],
  [("arguments", "arguments with units", "arguments and returned values")],
  ["potential_surf()", "anomaly_surf()", "omega_surf()", "mixed_layer()", "neutral_trajectory()", "ntp_bottle_to_cast()", "veronis()", "ntp_epsilon_errors()", "ntp_epsilon_errors_norms()", "count_unstable()"])

P("C26", "Where density does not feel pressure, all neutral surfaces are one surface",
  "If pressure (or depth) enters the equation of state not at all, or only by a term alike for all water, and the casts are denser downwards, then all ways of following the water through a point are one and the same surface: the potential density surface at any reference pressure, the anomaly surface for any reference salinity and temperature, the neutral links from any of its points to any cast, the neutral trajectory along any path of casts, and the omega surface, which covers exactly the casts connected to the pin by casts that have that density, whatever it was started from, and has no neutrality error. On that surface the Veronis density is everywhere the density of the surface, and the mixed layer whose threshold is the surface's density minus that of the near-surface bottle ends on it.",
  ["inputs", "configurations"], "every graph of casts, missing data, pin, reference, starting surface, path and equation of state of that kind",
  "the tests look at each kind of surface alone, with equations of state in which no two agree",
  ["neutralocean/surface/isopycnal.py", "neutralocean/surface/omega.py", "neutralocean/surface/_vertsolve.py", "neutralocean/bfs.py", "neutralocean/traj.py", "neutralocean/mixed_layer.py", "neutralocean/label.py", "neutralocean/ntp.py"],
  [("one vertical root per cast", "_vertsolve.py:_vertsolve, _vertsolve_omega; traj.py:_ntp_bottle_to_cast_ppc"), ("wetting", "bfs.py:bfs_conncomp1_wet_perim")],
  [("p", "pressure of the surface", "returned by every calculation")],
  ["potential_surf()", "anomaly_surf()", "omega_surf()", "neutral_trajectory()", "ntp_bottle_to_cast()", "mixed_layer()", "veronis()", "ntp_epsilon_errors()"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in R:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(R), "properties")
