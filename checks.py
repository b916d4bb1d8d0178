"""One entry per property: how much is searched, what is under contract."""
COMMON_ASSUMPTIONS = [
    "The runtime oracle is a search over generated inputs: it decides nothing beyond the cases counted in 'evaluations'.",
]
PROOF_ASSUMPTIONS = [
    "Floating-point arithmetic is treated as real arithmetic; NaN and infinities are outside the domain unless stated.",
    "Python integers are mathematical; C longs are treated as mathematical integers.",
]
CHECKS = {}


def check(pid, quick, thorough, rule, contracts=False, level="exploration", workers=3, technique=None, note="", **kw):
    CHECKS[pid] = dict(quick=quick, thorough=thorough, rule=rule, contracts=contracts, level=level, workers=workers,
                       technique=technique, note=note, **kw)


DED = "contracts on the real functions, discharged by symbolic execution of the instrumented source with canonical forms, Z3 and cvc5"


def proved(note, **kw):
    return dict(contracts=True, level="proof", technique=DED, note=note, assumptions=PROOF_ASSUMPTIONS, **kw)


NT = " A case is non-trivial unless the oracle skips it (outside the precondition, or a tie that rounding decides); distinct by the digest of its input."
check("C01", (2400, 60), (60000, 1500), "Fields on rectilinear and sheared grids from 2x2 (smooth, noise, plateaus equal to the level, saddles), random levels." + NT, **proved("All of cntr.c that one level without mask reaches (data_init, zone_crosser, curve_tracer, cntr_trace, reorder, build_cntr_list_v2, the Python type) and extract_contours, for every grid and field: place and value of each point, cells of consecutive points, ends of the curves. Every loop has a measure that decreases. NumPy and CPython by their contracts."))
check("C02", (2400, 60), (60000, 1500), "Fields on grids from 2x2 (smooth, noise, plateaus, saddles), all above/below patterns." + NT, **proved("The same functions, with the sets of edges visited, drawn and still to be started as ghost state: every crossed edge has one point besides closing ones, nothing else is drawn; start marks and completeness by lemmas (finite sets). NumPy and CPython by their contracts."))
check("C03", (12, 60), (400, 1500), "Batches of 150 fields (shapes from 2x2, NaN and infinities) contoured under AddressSanitizer." + NT, asan=True, **dict(proved("Every access of the same functions is inside its array, memory is freed once, the buffers have room for every point, for any field (values are arbitrary, NaN included). Allocations succeed."), workers=4))
check("C04", (3000, 60), (100000, 1500), "Closed and open polygons, around the reference meridian, across 180 degrees, near the poles." + NT, **proved("Every obligation of area_latlon_polygon for polygons of any size (sums in closed form)."))
check("C05", (3000, 60), (100000, 1500), "Noisy, exact, lattice and rotated ellipses, with translations." + NT, **proved("fit_ellipse for any number of points: the system solved is that of the normal equations; on-conic, semi-axes, angle and translation for every ellipse. numpy.linalg.solve by its contract."))
check("C06", (3000, 60), (100000, 1500), "Pairs of semi-axes, scalars and arrays, equal, zero, swapped." + NT, **proved("eccentricity for all semi-axes."))
check("C07", (450, 60), (20000, 1500), "Pairs of polylines of 1 to 400 points, equal, scaled, degenerate." + NT, **proved("_c, frdist (row by row filling and thinning, invariants for curves of any length), arc_length and compute_similarity; lemmas tie the recursion to couplings."))
check("C08", (2400, 60), (80000, 1500), "Parameter vectors and node sets, zero amplitude, rotations." + NT, **proved("gaussian for all parameters and all node sets."))
check("C09", (300, 60), (12000, 1500), "Eddy-like fields with random ellipses and masks, zero widths." + NT, **proved("Fit_Surface construct_bounds/fit_curve/_fitting and gaussian_residual for grids of any size: the precondition of the optimiser, the bounds of what it returns, the returned surface and the minimised quantity. scipy least_squares by its contract, gaussian by C08."))
check("C10", (3000, 60), (100000, 1500), "Latitudes over [-90, 90], pairs of them." + NT, **proved("approx_RD_lat for every latitude."))
check("C11", (600, 60), (20000, 1500), "Grids with unequal spacings, contours at edges, corners, larger than the margin." + NT, **proved("_get_data_in_contour for every grid and set of nodes (both loops with invariants and measures); _data_in_contour: each vertex gets a closest node of the grid, for rectilinear grids of any size. BallTree by its contract."))
check("C12", (300, 60), (12000, 1500), "Windows with masks, ties, missing data, both signs." + NT, **proved("_mask_data_in_contour for every window, mask and set of vertex nodes; the position stored by _data_in_contour. binary_fill_holes and BallTree by their contracts."))
check("C13", (180, 60), (8000, 1500), "Fields with several eddies, random criteria, NaN regions, one level each." + NT, **proved("_detect_one_level (with check_return_eddies) for any number of contours of any size, any criteria: an arbitrary iteration of its loop, callees by their contracts (functions of the contour)."))
check("C14", (300, 60), (12000, 1500), "Fields with several eddies, every recorded table compared with the measured quantities." + NT, **proved("The attributes of each eddy when it is recorded (_detect_one_level, any number of contours) and the tables made of them (Eddy.__init__, to_dict, to_table, store, discarded) for contours of two or more vertices. pandas as modelled in engine/tables.py."))
check("C15", (300, 60), (12000, 1500), "Sequences of searches over levels and objects in random order." + NT, **proved("eddy_identifier by an invariant on the counter and table it keeps (any number of records), Eddy.exit, and _detect_one_level/check_return_eddies as a step between two reset states."))
check("C16", (600, 60), (20000, 1500), "Pairs of tables of eddies, shared nearest predecessors, ties, gaps in the identifiers." + NT, **proved("_detect_nearest for tables with any number of rows and any identifiers (two layouts of the index). BallTree by its contract."))
check("C17", (300, 60), (12000, 1500), "Lists of tables per level, nested, disjoint, signs." + NT, **proved("_update_better_eddy, _update_counter and _merge_reindex_eddies on tables with any number of rows and eddies (loop over the matches with an invariant, identifiers by induction), and the loop over the levels of _detect_snapshot for any number of levels, its callees by their contracts. The matches are those C16 describes; pandas as modelled in engine/tables.py."))
check("C18", (150, 60), (8000, 1500), "Histories of snapshots with births, deaths, merges, empty snapshots." + NT, **proved("track_online with _update_counter, _rename_eddies_in_time and _merge_reindex_eddies for tables with any number of rows, tracks and new eddies: one step of the history, from any table of the shape the step itself returns (identifiers by induction). _detect_nearest by C16; pandas as modelled in engine/tables.py."))
check("C19", (120, 60), (6000, 1500), "Histories with gaps around ntimes." + NT, **proved("The candidates track_online hands to _detect_nearest (unlink_eddies_in_previous_times), for tables with any number of rows and tracks, any times and any ntimes. pandas (groupby, masks) as modelled in engine/tables.py."))
check("C20", (300, 60), (12000, 1500), "Time windows, save intervals, formats, real and recorded detections." + NT, **proved("time_tracking (its loop, any t0, tf, number of snapshots and pattern of empty ones; linked, or stored as csv, json, hd5), store_snapshot (names and contents of the files) and Printer.timepercentprint; _detect_snapshot and track_online by their contracts (functions of their arguments). pandas as modelled in engine/tables.py."))
check("C21", (300, 60), (12000, 1500), "Fields with NaN, filters, kernels, dimension orders." + NT, **proved("treat_nan, filter_data/_filter_data_, _space_filter and the field part of _detect_snapshot, for every layout of the dimensions, extent, kernel and pattern of missing values, with the frame (nothing of the user written, no shared memory). astropy convolve by its contract."))
check("C22", (300, 60), (12000, 1500), "Datasets with permuted dimensions, names, auxiliary variables, curvilinear grids." + NT, **proved("__init__, identify_coords, _get_dims, _get_vars and check_coords for every order of the dimensions, grid extent and symbolic name of each recognised class; at most two other variables (symbolic names, every choice of their dimensions) besides the tracked one: that count is a bound. Independence of the stored order of the field: C21."))
check("C23", (1200, 60), (40000, 1500), "Sizes, axes of different lengths, random and given positions, reconstruction." + NT, **proved("twoD_Gaussian, pass_args, assemble_field, reconstruct_field, makeGaussian and moveGaussian for every size, margin, number of eddies and number of times (loops with invariants, partial sums as ghost functions)."))
