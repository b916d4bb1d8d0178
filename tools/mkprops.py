#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list, in one readable place)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

T, G, E, U, D, PH = ["trackeddy/%s.py" % n for n in ("trackeddy", "geometry", "eddy", "utils", "decorators", "physics")]
C = "trackeddy/src/cntr.c"
GF, GG = "trackeddy/generator/field_generator.py", "trackeddy/generator/gaussian_field_functions.py"

prop("C01", "Contour vertices are the level crossings of the grid edges",
 "Every vertex of every contour extracted from a finite field lies on a grid edge joining two neighbouring nodes, one with a value above the level and one with a value not above it, at the point obtained by linear interpolation of both coordinates with the same fraction. Consecutive vertices of a contour lie on edges of a common grid cell. A contour either ends at the vertex where it started or has both ends on the outer boundary of the grid.",
 ["inputs"], "all grid sizes from 2x2, all finite fields, all coordinate arrays, all levels",
 "The tests contour a few smooth Gaussians on large square grids and only look at counts of eddies; saddles, ties with the level, one-cell-wide grids and boundary segments are never compared with the definition.",
 [C, G], [("edge walking and interpolation", C + ":zone_crosser"), ("which edges are cut, where the data ends, where to start", C + ":data_init"), ("point reordering for a single level", C + ":reorder, build_cntr_list_v2"), ("wrapper", G + ":extract_contours")],
 ["trackeddy.geometry.extract_contours"])
prop("C02", "Every crossed grid edge is covered by exactly one contour vertex",
 "For a finite field and a level, every grid edge whose two end values lie on different sides of the level (one above it, the other not above it) is crossed by exactly one vertex of exactly one of the extracted contours, apart from the repeated closing vertex of closed contours. No other vertices are produced, so the set of contours is complete and free of duplicates.",
 ["inputs"], "all grid sizes from 2x2, all finite fields, all levels",
 "Completeness over all above/below patterns of a grid cannot be sampled by the smooth fields of the tests, where each level gives one or a few closed curves.",
 [C], [("start-point scan and removal of visited marks", C + ":curve_tracer"), ("marking passes", C + ":zone_crosser"), ("start marks", C + ":data_init")],
 ["trackeddy.geometry.extract_contours"])
prop("C03", "Contour extraction never touches memory outside its arrays",
 "Extracting contours never reads or writes outside the coordinate, field, flag and vertex buffers and never aborts the process, whatever the grid shape (from 2x2), the values of the field (NaN and infinities included) and the level. Every vertex counted in the sizing pass has room in the buffers filled by the second pass.",
 ["inputs"], "all grid shapes from 2x2, all field contents including NaN and infinities, all levels",
 "Out of bounds accesses depend on the walk taken through the grid; the tests exercise few walks and an over-read rarely changes a result.",
 [C], [("index arithmetic on flattened grids", C + ":zone_crosser, data_init, mask_zones"), ("two-pass buffer sizing", C + ":cntr_trace, curve_tracer"), ("point reordering", C + ":reorder")],
 ["trackeddy.geometry.extract_contours"])
prop("C04", "Polygon area is the spherical line integral, positive and orientation-free",
 "The area reported for a contour of (longitude, latitude) points in degrees is, on a sphere of radius 6378.137 km, the absolute value of the sum over its segments of one minus the cosine of the mean angular distance of the segment's two ends to the point (0, 0) times the change of azimuth around that point, each change wrapped into [-180, 180) degrees. It is expressed in square kilometres and is never negative. It does not depend on the direction of traversal as long as no segment turns by exactly half a turn.",
 ["inputs"], "all contours with at least two points, longitudes and latitudes in degrees",
 "The tests never assert an area; a wrong wrap, unit or radius only shows on contours crossing the reference meridian or far from the equator.",
 [G], [("area integral", G + ":area_latlon_polygon")], ["trackeddy.geometry.area_latlon_polygon", "columns area_eddy and radius_eddy"])
prop("C05", "The fitted ellipse is the least-squares conic of the contour points",
 "For points whose least-squares conic a x^2 + b xy + c y^2 + d x + e y = 1 (in coordinates relative to the mean point) is an ellipse, the fitted curve has as many points as the input and, when the smaller of |b/a| and |b/c| exceeds 0.001, all its points lie on that conic; otherwise they lie on the conic obtained by dropping the b term. The reported parameters are the major semi-axis, the minor semi-axis (major >= minor >= 0) and a finite angle, equal to arctan((c - a - sqrt((a - c)^2 + b^2))/b), or 0 or 90 degrees when b is zero. Fitting translated points translates the curve and leaves the parameters unchanged.",
 ["inputs"], "all sets of at least five points determining a conic, elliptic case; every tilt, size, position and aspect ratio",
 "The tests compare the angle of a handful of Gaussian eddies with a tolerance; the curve itself, circles, axis-aligned ellipses and translations are not checked.",
 [G], [("normal equations, rotation to principal axes and back", G + ":fit_ellipse")], ["trackeddy.geometry.fit_ellipse", "columns ellipse_params_a, ellipse_params_b, ellipse_params_theta"])
prop("C06", "Eccentricity is sqrt(1 - b^2/a^2) and lies in [0, 1]",
 "For a major semi-axis a and a minor semi-axis b with |a| >= |b| and a not zero, the eccentricity is sqrt(1 - b^2/a^2), whatever the signs of a and b. It is 0 exactly for circles and never exceeds 1.",
 ["inputs"], "all pairs of axes with |a| >= |b|, a != 0",
 "Only reached through eddies that are nearly circular; elongated or degenerate ellipses are never asserted.",
 [G], [("eccentricity formula", G + ":eccentricity")], ["trackeddy.geometry.eccentricity", "column ellipse_eccen"])
prop("C07", "Curve comparison is the discrete Frechet distance and a score in [0, 1]",
 "The distance between two planar curves is their discrete Frechet distance: the least, over all couplings that advance along both curves without going back, of the largest distance between coupled points; it is symmetric in the two curves, and it is exact whenever one of the curves has at most 300 points (when both are longer both are first thinned, keeping every 2nd, then every 3rd point and so on, until one has at most 300). The similarity of two curves of positive length is 1 - sqrt(2) * distance / sqrt(length1 * length2), replaced by 0 when negative and rounded to four decimals. It therefore lies in [0, 1] and is 1 for identical curves of at most 300 points.",
 ["inputs"], "all pairs of non-empty planar curves, of equal or different numbers of points",
 "The tests only see accept/reject outcomes for Gaussian eddies; the recurrence is never compared with the definition, nor for curves of very different lengths.",
 [G], [("memoised recurrence", G + ":_c"), ("table set up and thinning", G + ":frdist"), ("score", G + ":compute_similarity, arc_length")], ["trackeddy.geometry.frdist", "trackeddy.geometry.compute_similarity", "columns contour_ellipse_error, contour_gaussian_error"])
prop("C08", "The Gaussian surface is the rotated bivariate Gaussian of its parameters",
 "The Gaussian surface with centre (x0, y0), widths sx and sy (non-zero), angle t and given amplitude has, at every point, the value amplitude * exp(-(u^2/(2 sx^2) + v^2/(2 sy^2))) where (u, v) is the offset from the centre expressed along the axes at angle t: u = dx cos t + dy sin t, v = dy cos t - dx sin t, the values being listed in the row-major order of the coordinate arrays. Hence it equals the amplitude at the centre, keeps the sign of the amplitude and never exceeds it in magnitude anywhere.",
 ["inputs"], "all coordinate arrays, amplitudes, centres, non-zero widths and angles",
 "The tests fit surfaces but compare only counts and angles of eddies; the surface's formula for unequal widths and arbitrary tilt is not asserted pointwise.",
 [G], [("surface", G + ":gaussian")], ["trackeddy.geometry.gaussian"])
prop("C09", "The Gaussian fit stays within its stated bounds and is the surface returned",
 "On a grid with non-zero mean spacings, the surface fitted to an eddy has its centre within one mean grid spacing of the extremum in each direction and each ellipse-derived parameter (two widths and angle) within 70 % of its initial value, or within 0.0001 of zero when that initial value is zero; the starting point always lies inside these bounds, so the optimiser accepts it. The surface returned is the Gaussian of the returned five parameters with the eddy's extremum as amplitude, on the same grid as the coordinates. The quantity minimised is the standard deviation times the mean of the absolute differences between data and surface, ignoring missing data.",
 ["inputs"], "all eddies: any sign of coordinates and of angle, increasing or decreasing coordinates, zero parameters",
 "Bounds are exercised with positive coordinates and increasing axes only; negative or zero initial values and decreasing axes decide whether lower and upper bounds are swapped.",
 [G], [("bounds", G + ":Fit_Surface.construct_bounds"), ("optimiser call", G + ":Fit_Surface.fit_curve, gaussian_residual"), ("surface of the solution", G + ":Fit_Surface._fitting")], ["trackeddy.geometry.Fit_Surface", "columns gaussian_params_*"])
prop("C10", "The deformation radius is positive, even in latitude and decreases poleward",
 "The approximate Rossby deformation radius at latitude p is 200 exp(-0.01125 p^2) + 60 exp(-0.0005625 p^2) kilometres. It is therefore positive, at most 260 km, equal for p and -p, and strictly smaller at larger absolute latitude.",
 ["inputs"], "all latitudes",
 "It only acts as an upper limit on eddy size; the tests contain one large eddy and do not sample latitudes.",
 [PH], [("formula", PH + ":approx_RD_lat")], ["trackeddy.physics.approx_RD_lat", "discarding of contours by size"])
prop("C11", "The crop around a contour stays in the grid and contains it with its margin",
 "The rectangle of nodes extracted around a contour from the nodes nearest to its vertices lies inside the grid and, in each direction, reaches from the smallest of those node indices minus the margin to the largest plus the margin, cut only at the edges of the grid; the margin is half of the larger of the two index extents, rounded down, and at least 3. Field, longitudes and latitudes are cropped identically, and the vertex nodes re-expressed in the crop designate the same nodes of the full grid. Each vertex is assigned the node of the grid closest to it in coordinate space.",
 ["inputs"], "all rectilinear grids and contours: touching edges and corners, larger than the grid minus margins, near coordinate zero, elongated, any storage order",
 "The tests place eddies far from the edges on square grids with identical spacing, so swapped axes, clipping and off-by-one margins are invisible.",
 [T], [("window and clipping", T + ":TrackEddy._get_data_in_contour"), ("nearest nodes", T + ":TrackEddy._data_in_contour")], ["columns maxima_x, maxima_y, maxima; data near the contour of an eddy object"])
prop("C12", "Sign, extremum and its position describe the interior of the contour",
 "For an eddy the sign is the sign of the mean of the valid field values over its interior, which consists of the nodes nearest to the vertices together with every node they enclose and of no node outside the region they bound. The reported extremum is the largest interior value for positive sign and the smallest for negative sign (0 for sign zero), missing values excluded. For a non-zero sign the reported position is that of an interior node holding the extremum.",
 ["inputs"], "all fields and contours: missing data, ties, extremum on the boundary, negative eddies on positive levels, non-square windows",
 "Gaussian eddies have one interior extremum at a symmetric position; missing data, asymmetric windows and sign changes are not covered.",
 [U, T], [("fill, mean, signed maximum and its index", U + ":_mask_data_in_contour"), ("index to coordinates", T + ":TrackEddy._data_in_contour")], ["columns eddy_sign, maxima, maxima_x, maxima_y"])
prop("C13", "Every contour gets one verdict, following the identification criteria in order",
 "When one level is searched, each extracted contour that is not practically a single point (its mean vertex is its first one, to a relative 1e-5) is either accepted once or discarded once with the first reason that applies, and no contour makes the search fail: radius of the equal-area circle above max_area times the deformation radius at the latitude of the mean vertex (\"area\"); no fitted ellipse, or areas of contour and ellipse differing by more than 0.1*ellipse_fit of the latter (\"ellipse_area\"); eccentricity above its limit (\"eccentricity\"); contour-ellipse score above ellipse_fit (\"similarity\"); extremum zero (\"eddy_is_island\"). Unless Gaussian fitting is skipped, also: fitted surface without a contour at the level (\"gaussian_fit_failed\"); similarity of eddy contour and surface contour below gaussian_fit (\"gaussian_check\"). Hence every accepted eddy satisfies every criterion and none that satisfies them all is lost.",
 ["inputs", "configurations"], "all fields, levels and identification criteria, with and without Gaussian fitting",
 "The tests use the default criteria on ideal eddies, for which almost every criterion is satisfied by a wide margin; discards are not asserted at all.",
 [T, D, E], [("criteria chain", T + ":TrackEddy._detect_one_level"), ("accumulation of accepted and discarded", D + ":eddy_identifier, " + E + ":Eddy.store, Eddy.discarded")], ["tables of identified and discarded eddies of a level"])
prop("C14", "Recorded eddies carry exactly the measured quantities of their contour",
 "The record of an accepted eddy has one row per contour vertex, holding in order the vertex longitude and latitude, and repeats on every row the level, area, radius, major and minor semi-axes and angle of the ellipse, ellipse score, eccentricity, mean vertex, sign, extremum with its latitude and longitude, the five parameters of the fitted surface (centre, widths, angle) when one was fitted, and the surface score, each under its own column. The record of a discarded contour is one row with reason, level, area, radius, mean vertex, scores, eccentricity and, when they were measured, sign and extremum. No value is altered, swapped or dropped when an eddy is stored.",
 ["inputs"], "all eddies with any numbers of vertices, all combinations of measured and missing quantities",
 "The tests read few columns (counts, angle); a swapped pair of columns such as x/y or a/b is symmetric for the tested circular eddies.",
 [E], [("attribute to column mapping", E + ":Eddy.to_dict"), ("table creation", E + ":Eddy.to_table, store, discarded")], ["pandas tables returned by detection"])
prop("C15", "Eddies of a level are numbered 0..n-1 and nothing leaks between searches",
 "The accepted eddies of one search of a level are identified by 0, 1, ..., n-1 in the order they were found, and the discarded contours are likewise numbered from 0. The result of a search depends only on the field, the level and the settings: it contains nothing from earlier searches, whether these accepted, discarded or found no contours, and leaves nothing for later ones.",
 ["histories", "inputs"], "all sequences of searches over levels, snapshots and independent datasets, including searches that accept nothing",
 "The tests run each detection in a fixed order in which nearly every level with contours accepts one; a search that only discards is not followed by one that is inspected.",
 [D, E], [("counter and table kept on the decorated functions", D + ":eddy_identifier"), ("reset after each level", D + ":check_return_eddies, " + E + ":Eddy.exit")], ["tables of identified and discarded eddies of successive searches"],
 [("store.calls / store.df_store", "number of records and table accumulated since the last reset", D)])
prop("C16", "Eddies are matched only to their nearest predecessor within their own radius",
 "A newly found eddy is matched to a predecessor exactly when that predecessor's extremum is the nearest one to the new eddy's extremum, their great-circle distance on a sphere of radius 6371 km is smaller than the new eddy's radius, and no other new eddy satisfying the same towards that predecessor is closer to it (or as close and earlier in the table). Hence a new eddy has at most one predecessor and a predecessor at most one new eddy. The match is reported by the predecessor's identifier, whatever identifiers are present.",
 ["inputs"], "all pairs of eddy tables: any numbers of eddies, identifiers with gaps, coincident or equidistant extrema, extrema across the date line",
 "In the tests one or two well separated eddies are linked; competing candidates and identifier gaps do not occur.",
 [U], [("nearest neighbour and radius test", U + ":_detect_nearest")], ["trackeddy.utils._detect_nearest", "identifiers of time_tracking results"])
prop("C17", "Merging levels counts every eddy once and keeps the right version of it",
 "When the eddies of one more level are merged into those already found in a snapshot, a new eddy matched to an earlier one replaces all the earlier one's rows under its identifier if both its fit scores are strictly lower, and is dropped otherwise; the unmatched new eddies are added and all other earlier eddies are kept. Every kept eddy retains all its rows unchanged except for its identifier. The identifiers of the result are 0..n-1 and rows are sorted by identifier and vertex index.",
 ["inputs", "histories"], "all tables and sequences of levels, all match patterns",
 "The tests assert the final number of well separated eddies; replaced, dropped and added eddies in one merge, and the fate of their rows, are not asserted.",
 [U, T], [("keep the better version", U + ":_update_better_eddy"), ("renumbering", U + ":_update_counter, _merge_reindex_eddies"), ("level loop", T + ":TrackEddy._detect_snapshot")], ["TrackEddy._detect_snapshot result", "time_tracking result"])
prop("C18", "Linking in time extends tracks without rewriting or colliding with history",
 "When the eddies of a snapshot are linked, each eddy matched to a candidate track receives that track's identifier, and every other eddy receives an identifier never used before by any track, finished or not. No track has two eddies in one snapshot, all earlier rows are kept unchanged with their identifiers, and every row of the snapshot appears exactly once. Identifiers remain 0..n-1 and the table is sorted by identifier, time and vertex index.",
 ["histories"], "all sequences of snapshots: births, deaths, gaps, reappearances, several candidates",
 "The tests track one or two eddies that exist in every snapshot, so no track ends, no identifier can be reused and no history can be rewritten.",
 [U, T], [("candidate selection, renumbering, renaming and merging", U + ":track_online, _update_counter, _rename_eddies_in_time, _merge_reindex_eddies")], ["time_tracking result"])
prop("C19", "A track can be continued only for ntimes snapshots after the last one missed",
 "The candidates for linking the eddies of snapshot t are exactly the tracks whose latest record is at a snapshot no earlier than t - 1 - ntimes, each represented by all the rows of its latest record and no others. Tracks last seen earlier are never continued, and tracks last seen in that window always can be.",
 ["histories", "configurations"], "all histories with gaps of any length and all ntimes >= 0, at the start of a record as well as later",
 "No test has an eddy that disappears, so the memory window is never exercised.",
 [U], [("selection of candidate tracks", U + ":unlink_eddies_in_previous_times")], ["identifiers of time_tracking results after gaps"])
prop("C20", "Time tracking visits the requested snapshots and labels records with their time",
 "Tracking from t0 to tf analyses exactly the snapshots t0, ..., tf-1 in order (through the last snapshot of the dataset when tf is not given), and every record is labelled with the index of the snapshot it was found in. A snapshot without eddies contributes no records and does not interrupt tracking, wherever it occurs. With online linking disabled, each snapshot with eddies is written to its own file identified_eddies_<5-digit index>.<format> in the output path, containing that snapshot's records.",
 ["histories", "configurations"], "all t0 < tf, datasets of any length, any pattern of empty snapshots, online and offline",
 "Every test uses t0=0, an explicit tf, online linking and eddies in all snapshots.",
 [T, U], [("time loop", T + ":TrackEddy.time_tracking"), ("snapshot files", U + ":store_snapshot"), ("progress line", "trackeddy/printfunc.py:Printer.timepercentprint")], ["time_tracking result", "files in out_path"])
prop("C21", "Filters remove the declared mean, treat NaN as asked and leave user data alone",
 "With no filter the tracked field is the snapshot itself; with the space filter it is the snapshot minus its boxcar average (a square of kernel nodes, or kernel+1 if kernel is even, zeros beyond the edges, missing values interpolated), or minus its mean along the x dimension (\"meridional\") or along the y dimension (\"zonal\"). When NaN treatment is on, missing values are replaced by zero before any of this, and otherwise they stay missing when no filter is used. The dataset given by the user is never modified.",
 ["inputs", "configurations"], "all fields with and without missing values, all filter settings, all kernel sizes",
 "Every test switches the filter off and uses complete data.",
 [T, D], [("filter dispatch", D + ":filter_data, " + T + ":TrackEddy._filter_data_"), ("filters", T + ":TrackEddy._space_filter"), ("missing values", T + ":TrackEddy.treat_nan")], ["TrackEddy.data2track after a detection"])
prop("C22", "Grid nodes get their own coordinates, whatever the layout of the dataset",
 "For one-dimensional coordinates, the node in row j and column i of the tracked field has the i-th longitude and the j-th latitude; two-dimensional coordinate variables are used node by node. The results of tracking do not depend on the order in which the dimensions of the variable are stored nor on whether longitude and latitude are stored as coordinates or as data variables, nor on other variables of the dataset even if their names contain lon or lat, provided that those variables do not lie on the horizontal grid or that the longitudes and latitudes are coordinates of the dataset with lon and lat in their names. A dataset mixing one- and two-dimensional coordinates is rejected with ValueError.",
 ["inputs", "configurations"], "all rectangular grids, dimension orders, names recognised as lon/lat/x/y/time, auxiliary variables",
 "All the tests use square grids with equal x and y ranges stored as (time, lat, lon), for which swapped or mixed coordinates go unnoticed.",
 [T], [("recognition of dimensions and variables", T + ":TrackEddy.identify_coords, _get_dims, _get_vars"), ("coordinate arrays", T + ":TrackEddy.check_coords"), ("dimension order", T + ":TrackEddy._detect_snapshot")], ["TrackEddy.X, TrackEddy.Y", "positions in the result tables"])
prop("C23", "Synthetic fields are the sums of the declared Gaussians on the declared grid",
 "An assembled synthetic field is, at each time and node, the sum over its eddies of amplitude * exp(-(u^2/(2 a^2) + v^2/(2 b^2))), with (u, v) the offset from the eddy's centre along axes rotated by minus the eddy's angle (u = dx cos - dy sin, v = dx sin + dy cos), on the grid of len(y)+2*margin rows and len(x)+2*margin columns spanning the range of x and y, each centre being the node of the eddy's location shifted by margin (for modes without random relocation). The moving Gaussian field has, at time t and node (row, column), the value exp(-4 ln 2 ((column - cx)^2 + (row - cy)^2)/fwhm^2) for centre (cx, cy) of time t.",
 ["inputs"], "all numbers of eddies, sizes, margins, rectangular grids, times",
 "The fields are inputs of the tests, on square grids; a scrambled field would silently change what every other test means.",
 [GF, GG], [("eddy surface", GF + ":Generate_field.twoD_Gaussian"), ("sum over eddies and grid", GF + ":Generate_field.assemble_field, pass_args"), ("moving Gaussian", GG + ":makeGaussian, moveGaussian")], ["Generate_field.assemble_field", "makeGaussian", "moveGaussian"])

with open(__file__.rsplit("/", 2)[0] + "/properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
