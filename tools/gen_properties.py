#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here so that it is reviewable)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    P.append(d)
A = "src/api/"
NAIVE = "The existing tests check a few literal arrays; the claim is over all values, all missing-value placements and all shapes within the bound."

p("C01", "Array statistics ignore missing values and match their definitions",
  "For every array, the mean, min, max, sum, count, median, variance and standard deviation reported by the library equal the mathematical definition over exactly the valid (finite, non-missing) values, count is 0 and every other statistic is missing when no value is valid. Per-row statistics of a 2D array equal the statistic of each row. Variance and standard deviation are never negative.",
  "every array content including NaN/infinite entries in any position, every statistic", NAIVE,
  [A+"util.cpp"], [("calc_statistic", A+"util.cpp")], observe=["calc_statistic(vec|vec2, Statistic)"])
p("C02", "Quantiles interpolate the sorted valid values",
  "The quantile of an array at level q in [0,1] is the linear interpolation at rank q*(n-1) of its n sorted valid values: it ignores missing values and the order of the input, equals the minimum at 0 and the maximum at 1, lies between them, and never decreases as q increases. With no valid values, or a missing level, the result is missing; a level outside [0,1] is rejected with an error. The 2D and 3D forms apply this to each row (or cell) with its own level.",
  "every array and level, including missing values, ties, and levels hitting a rank exactly", NAIVE,
  [A+"util.cpp"], [("calc_quantile", A+"util.cpp")])
p("C03", "1D interpolation passes through its nodes and extrapolates flatly",
  "Interpolating a sorted curve returns the exact linear interpolation between the two bracketing nodes, returns the node value at every distinct node, the first (last) value below (above) the curve, the average of the first and last y of the nodes sharing an x, a missing value for a missing x, and an error when the lengths differ. Nodes whose coordinate is missing are left out. The lower and upper index searches return the tightest bracketing nodes.",
  "every sorted curve (with ties) and every query", NAIVE,
  [A+"util.cpp"], [("interpolate", A+"util.cpp"), ("get_lower_index/get_upper_index", A+"util.cpp")])
p("C04", "Fast neighbourhood statistics equal the brute-force definition",
  "For every 2D field, half-width and statistic, the optimised neighbourhood operator gives in every cell the same result as computing the statistic directly over the valid values of the cells inside the square window clipped to the field. Missing cells never contribute, a window without valid values gives missing (0 for a count), and the optimised and brute-force operators agree. A statistic that is not one of the defined ones never ends the process: it is refused with an exception.",
  "every field content, missing-value placement, field shape and half-width, all statistics", "The tests compare a handful of hand-made fields; summed-area/sliding-window bookkeeping errors need particular shape, half-width and missing-placement combinations.",
  [A+"neighbourhood.cpp"], [("summed-area tables", A+"neighbourhood.cpp neighbourhood"), ("row sliding min/max", A+"neighbourhood.cpp")])
p("C05", "Ensemble neighbourhood statistics pool window cells and members",
  "For every 3D field (with an ensemble dimension), half-width and statistic, the neighbourhood operator gives in every cell the statistic over all valid values of all members of all cells in the clipped square window; the optimised and brute-force operators agree with this. An undefined statistic is refused with an exception, not by ending the process.",
  "every field, missing pattern, half-width, ensemble size", NAIVE,
  [A+"neighbourhood.cpp"], [("neighbourhood(vec3)", A+"neighbourhood.cpp"), ("neighbourhood_brute_force(vec3)", A+"neighbourhood.cpp")])
p("C06", "Neighbourhood quantiles are the quantiles of the clipped window",
  "The neighbourhood quantile of a 2D or 3D field is, in every cell, the quantile of the valid values (of all members) in the square window clipped to the field, and missing when the window has no valid value.",
  "every field, missing pattern, level, half-width", NAIVE,
  [A+"neighbourhood.cpp"], [("neighbourhood_quantile", A+"neighbourhood.cpp")])
p("C07", "Approximate neighbourhood quantiles interpolate exceedance fractions",
  "The threshold-based neighbourhood quantile equals, in every cell, interpolating the given level in the curve of the fraction of valid window values at or below each threshold, uses each cell's own level when levels vary in space, and is missing in cells whose window holds no valid value or whose level is missing. Levels outside [0,1] and mismatching level sizes are rejected.",
  "every field, missing pattern, threshold list, level field, half-width and thread schedule", "Tests use fixed fields and a single schedule.",
  [A+"neighbourhood.cpp"], [("neighbourhood_quantile_fast", A+"neighbourhood.cpp")], over=("inputs", "schedules"))
p("C08", "Moving-window statistics cover exactly the requested window",
  "The moving-window operator gives at each position of each row the statistic of the valid values among the positions covered by the window (centred, or ending at the position), clipped at the ends; when edges are set to missing, positions whose window sticks out are missing, and when missing values are kept, any window with a missing value is missing (counts are never missing). An even centred length and a statistic that cannot be used are rejected with an exception. No memory outside the input is read.",
  "every array, missing pattern, length, statistic and flag combination", NAIVE,
  [A+"window.cpp"], [("window", A+"window.cpp")])
p("C09", "Calibration curves interpolate and obey their extrapolation policy",
  "Applying a calibration curve returns the linear interpolation inside the curve's domain and, outside it, exactly the policy asked for: the end value (zero), the end value plus the distance beyond the end (one-to-one), or the continuation of the mean slope or of the outermost segment slope. Within the domain the result never leaves the range of the curve's reference values, and the array forms equal the scalar form element by element; empty or mismatching curves, and inputs needing an undefined policy, are rejected with an exception, never by ending the process.",
  "every curve, forecast and policy pair", NAIVE,
  [A+"curve.cpp"], [("apply_curve", A+"curve.cpp")])
p("C10", "Monotonised curves are non-decreasing sub-curves of their input",
  "Monotonising a curve returns points taken from the input only, whose forecast values never decrease; a curve of valid points already increasing by more than the tolerance (0.1) is returned unchanged, a point that lies above every earlier and below every later point by more than the tolerance is kept, points with a missing coordinate are dropped, and memory outside the input is never read.",
  "every curve including missing points", NAIVE,
  [A+"curve.cpp"], [("monotonize_curve", A+"curve.cpp")])
p("C11", "Quantile-mapping curves pair equal quantiles",
  "The quantile-mapping curve pairs the sorted reference values with the sorted forecast values, or, when levels are requested, the reference and forecast quantiles at each level; both outputs are non-decreasing in the level and independent of the order of the inputs, and unequal lengths or levels outside [0,1] are rejected.",
  "every pair of samples and every set of levels", NAIVE,
  [A+"quantile_mapping.cpp"], [("quantile_mapping_curve", A+"quantile_mapping.cpp")])
p("C12", "Verification scores follow the contingency table",
  "Every threshold score computed from forecasts and observations equals the score of the 2x2 contingency table of exceedances over the valid pairs, each score matches its textbook formula, scores lie in their documented ranges, a degenerate table yields missing rather than an infinite value, and a perfect forecast gets the best possible score.",
  "every contingency table and every sample with missing values", NAIVE,
  [A+"metric_optimizer.cpp"], [("calc_score", A+"metric_optimizer.cpp")])
p("C13", "Spatial index queries return exactly the points in range",
  "For every point set, query and radius, the index returns every point closer than the radius and none beyond it (a point exactly on the radius may count either way), the reported distances are the distances to those points, the neighbour count equals the number returned, the nearest neighbour is a point of minimum distance, the k closest are the k smallest distances (all points when fewer exist), and excluding matches drops only points at zero distance.",
  "every finite point set (with duplicates and ties), query, radius and k", NAIVE,
  [A+"kdtree.cpp", A+"points.cpp", A+"grid.cpp"], [("KDTree", A+"kdtree.cpp"), ("Points", A+"points.cpp"), ("Grid", A+"grid.cpp")])
p("C14", "Points, grids and indices keep their content when copied or subset",
  "A copy or assignment of a point set, grid or spatial index answers every query like the original, in the same coordinate system, and a subset or domain restriction keeps exactly the selected points, with all their attributes, in order and in the same coordinate system. Grid indices map back to the row and column of the point they denote.",
  "every point set, coordinate type, query and index selection", NAIVE,
  [A+"points.cpp", A+"grid.cpp", A+"kdtree.cpp"], [("Points copy", A+"points.cpp"), ("Grid::get_indices", A+"grid.cpp")])
p("C15", "Nearest-neighbour downscaling copies the value of a closest input point",
  "Every output point of nearest-neighbour downscaling holds the value of an input point at minimum distance from it, unchanged (missing values included), for every combination of grid and point inputs and outputs and every ensemble member and time. Mismatching sizes are rejected and an empty output domain gives an empty result.",
  "every geometry and field", NAIVE,
  [A+"nearest.cpp", A+"downscaling.cpp"], [("nearest", A+"nearest.cpp"), ("downscaling", A+"downscaling.cpp")])
p("C16", "Bilinear downscaling is exact at nodes, linear in cells, never overshoots",
  "Bilinear downscaling returns the node value at a grid node and, strictly inside a grid cell, the bilinear interpolation of the cell's four corner values, so it never leaves the range of those corners and reproduces any field linear in the coordinates of a rectangular cell. Outside the grid or next to a missing corner it falls back to the nearest value, and grid and point outputs and ensemble members agree.",
  "every rectangular or rotated cell, corner values, missing pattern and location", NAIVE,
  [A+"bilinear.cpp"], [("bilinear / calcST", A+"bilinear.cpp"), ("Grid::get_box", A+"grid.cpp")])
p("C17", "Constant-gradient downscaling adds gradient times elevation difference",
  "Constant-gradient downscaling equals the downscaled field plus the gradient times the difference between output elevation and downscaled input elevation, for nearest and bilinear base downscalers, grids, points and ensembles; with a zero gradient or equal elevations it equals the base downscaling.",
  "every elevation, field and gradient", NAIVE,
  [A+"simple_gradient.cpp"], [("simple_gradient", A+"simple_gradient.cpp")])
p("C18", "Gradient-field downscaling adds elevation and land-fraction corrections",
  "Downscaling with gradient fields equals the downscaled field plus the downscaled elevation gradient times the elevation difference plus the downscaled land-fraction gradient times the land-fraction difference; an omitted or missing land-fraction contributes nothing, and each ensemble member uses its own values and gradients. Mismatching sizes are rejected.",
  "every elevation, land fraction, field and gradient field", NAIVE,
  [A+"gradient.cpp"], [("full_gradient", A+"gradient.cpp")])
p("C19", "Probability downscaling counts the members passing the local threshold",
  "Probability downscaling gives, at each output point, the fraction of valid members at the nearest input point that satisfy the comparison with that output point's threshold, always between 0 and 1 and missing only when no member is valid; mismatching sizes are rejected.",
  "every ensemble, threshold field, missing pattern and comparison", NAIVE,
  [A+"downscale_probability.cpp"], [("downscale_probability", A+"downscale_probability.cpp")])
p("C20", "Threshold-mask downscaling selects per member before aggregating",
  "Mask-threshold downscaling takes, for each member at the nearest input point, the true-value when the member's threshold value satisfies the comparison with the output point's threshold and the false-value otherwise, and aggregates these members with exactly the requested statistic or quantile, ignoring missing members. A statistic or level that cannot be used is refused with an exception, not by ending the process.",
  "every ensemble, threshold field and comparison", NAIVE,
  [A+"mask_threshold_downscale_consensus.cpp"], [("mask_threshold_downscale_consensus", A+"mask_threshold_downscale_consensus.cpp")])
p("C21", "Smart-neighbour downscaling averages the most similar grid points",
  "Smart downscaling returns at every output point the average of the values at the requested number of input points, taken among those in the structure function's localisation range, with the highest correlation to it, so it lies within the range of those values; points with no candidate become missing. Values of another size than the grid are rejected.",
  "every geometry, elevation, field and number of points", NAIVE,
  [A+"smart.cpp"], [("smart", A+"smart.cpp")])
p("C22", "Optimal interpolation leaves the background where nothing is observed",
  "Optimal interpolation returns the background unchanged, and the background variance unchanged, at every point beyond the structure function's localisation distance from all valid observations; observations with a missing value, background or ratio have no influence at all, and missing background cells stay missing. Mismatching sizes are rejected and an unsolvable system is reported as an exception, never by ending the process.",
  "every background, observation set, missing pattern, geometry", NAIVE,
  [A+"oi.cpp"], [("optimal_interpolation_full", A+"oi.cpp")])
p("C23", "Optimal interpolation computes the linear minimum-variance analysis",
  "With at most the allowed number of observations in range, the analysis equals background plus the optimal gain times the innovations, with the gain built from the background correlations and the observation-to-background variance ratio, and the analysis variance equals the background variance minus the variance explained by the gain. It is therefore independent of the order of the observations, and identical for gridded and pointwise output.",
  "every background, observation, ratio and geometry", NAIVE,
  [A+"oi.cpp"], [("optimal_interpolation_full", A+"oi.cpp")])
p("C24", "Optimal interpolation bounds: variance reduction and clamped increments",
  "The analysis variance never exceeds the background variance and is never negative, and with extrapolation disallowed the analysis increment at a point stays within the range of the innovations of the observations used there, extended to include zero effect only as documented. An observation with a smaller error ratio pulls the collocated analysis closer to it.",
  "every observation set, ratio and background variance", NAIVE,
  [A+"oi.cpp"], [("allow_extrapolation clamp", A+"oi.cpp"), ("analysis_variance", A+"oi.cpp")])
p("C25", "Optimal interpolation uses the most correlated observations",
  "When more observations are in range than allowed, only those with the highest localised correlation to the analysis point are used: observations ranked below the limit have no influence on the result, and a limit of zero means no limit.",
  "every geometry and observation set", NAIVE,
  [A+"oi.cpp"], [("max_points selection", A+"oi.cpp")])
p("C26", "Ensemble optimal interpolation is safe with missing data and out of range",
  "Ensemble-based optimal interpolation returns every member of the background unchanged at points with no valid observation in range, is not influenced by missing observations, leaves missing members out of the statistics, and does not depend on the order of the observations. With extrapolation disallowed a member's increment stays within the range of that member's innovations; mismatching sizes are rejected.",
  "every ensemble, observation set and missing pattern", NAIVE,
  [A+"oi_ensi.cpp"], [("optimal_interpolation_ensi", A+"oi_ensi.cpp")])
p("C27", "Multi-variate ensemble interpolation leaves unobserved points unchanged",
  "The multi-source ensemble interpolation variants return the background ensemble unchanged at points with no observation in range, ignore missing observations, leave missing members as they are without influence on the others, and validate the sizes of all their inputs. The member-by-member variants add to every member a common gain times that member's own innovations, which with static correlations is the optimal interpolation of each member.",
  "every ensemble, observation set and missing pattern", NAIVE,
  [A+"oi_ensi_multi.cpp"], [("optimal_interpolation_ensi_multi_*", A+"oi_ensi_multi.cpp")])
p("C28", "Structure functions are correlations with compact support",
  "Every structure function returns a value between 0 and 1, returns 1 for identical points and 0 beyond its localisation distance, is symmetric in its two points when its length scales are uniform, and decreases with horizontal, vertical and land-fraction separation. Evaluating many points at once, or a copied structure function, gives exactly the same values as evaluating them one by one.",
  "every pair of points and every parameter setting", NAIVE,
  [A+"structure.cpp"], [("StructureFunction and subclasses", A+"structure.cpp")])
p("C29", "Composite structure functions combine their parts as documented",
  "A cross-validating structure function equals its base structure except that it is zero for point pairs closer than the cross-validation distance, in its background form; a multiple structure uses its first structure for the horizontal, its second for the vertical and its third for the land-fraction separation, multiplied together. Spatially varying length scales use the scale at the nearest grid point of the first location.",
  "every pair of points and parameter setting", NAIVE,
  [A+"structure.cpp"], [("CrossValidation", A+"structure.cpp"), ("MultipleStructure", A+"structure.cpp")])
p("C30", "Variable transforms invert each other and preserve order",
  "For every transform, backward(forward(x)) equals x on the transform's domain, forward is non-decreasing, missing values stay missing in both directions, and the 2D and 3D array forms equal the scalar form element by element. The inverse gamma distribution gives, element by element, the quantile of that element's shape and scale at its level for every level from 0 to 1, and rejects with an exception other levels, invalid parameters, mismatching sizes and shapes without computable quantile.",
  "every value in the domain and every transform parameter", NAIVE,
  [A+"transform.cpp", A+"distribution.cpp"], [("gamma_inv", A+"distribution.cpp"), ("Identity/Log/BoxCox", A+"transform.cpp")])
p("C31", "Humidity diagnostics are mutually consistent and in range",
  "The dew point never exceeds the temperature, increases with relative humidity, equals the temperature at saturation to the formula's accuracy (1 K) and is missing without moisture (relative humidity 0 or less); relative humidity lies in [0,1], is 1 when the dew point is at or above the temperature, is monotone in both and recovers the humidity a dew point was computed from (to 0.05); the wet bulb lies between dew point and temperature and equals the temperature at saturation to the formula's accuracy. Missing or infinite inputs give missing outputs, and array forms equal the scalar form and reject unequal lengths.",
  "every temperature, humidity and pressure in physical range", NAIVE,
  [A+"humidity.cpp"], [("dewpoint / relative_humidity / wetbulb", A+"humidity.cpp")])
p("C32", "Pressure reductions are consistent and monotone with elevation",
  "Pressure reduced between equal elevations is unchanged, reducing up and back down restores it, and it decreases with output elevation; sea-level pressure at zero altitude equals the station pressure and, below 50 m and from 50 m up, does not decrease with altitude or with station pressure; it is a number for every humidity from 0 to 1; QNH at zero altitude equals the pressure and increases with pressure and altitude. Missing inputs give missing outputs, except that a missing altitude or temperature, or an unphysical value, raises an error in sea-level pressure (scalar and array form). Array forms equal the scalar form and reject unequal lengths.",
  "every pressure, elevation and temperature in physical range", NAIVE,
  [A+"pressure.cpp", A+"qnh.cpp"], [("pressure / sea_level_pressure", A+"pressure.cpp"), ("qnh", A+"qnh.cpp")])
p("C33", "Wind speed and direction decompose the wind vector",
  "Wind speed is the non-negative norm of the components, at least as large as each of them; wind direction is in [0,360] degrees and is the direction the wind comes from (north 0, east 90), independent of the speed, so that speed and direction reconstruct the components; missing components give missing results, and array forms equal the scalar form, rejecting unequal lengths.",
  "every pair of components", NAIVE,
  [A+"wind.cpp"], [("wind_speed / wind_direction", A+"wind.cpp")])
p("C34", "Missing-value filling changes only missing cells and interpolates linearly",
  "Filling missing values leaves every valid cell unchanged, fills a gap between two valid cells of a row or column by linear interpolation along the lines in which it is bracketed, averaging when both are, never leaving the range of the bracketing values, and leaves unbracketed cells missing.",
  "every field and missing pattern", NAIVE,
  [A+"fill.cpp"], [("fill_missing", A+"fill.cpp")])
p("C35", "Area filling and doping change exactly the cells in range",
  "Filling sets exactly the cells within the radius of some point (or exactly the cells outside all radii) to the value and leaves all others unchanged; doping sets exactly the cells inside the square or circle of a point, subject to the elevation-difference limit, to that point's observation. Mismatching sizes are rejected.",
  "every geometry, radius, field and elevation", NAIVE,
  [A+"fill.cpp", A+"doping.cpp"], [("fill", A+"fill.cpp"), ("doping_square / doping_circle", A+"doping.cpp")])
p("C36", "Gridding aggregates exactly the observations in range of each cell",
  "Gridding gives in each cell the statistic of the valid observations within the radius of the cell, or missing when fewer than the minimum number of observations are in range; nearest-gridding assigns each observation to its nearest cell only, and cells without observations are missing. Gridding to points equals gridding to a grid. Neighbour counts and k-th nearest distances agree with the direct definition, for every combination of grid and point inputs and outputs. Mismatching sizes, negative radii, negative minimum numbers and statistics that cannot be used are rejected with an exception, never by ending the process.",
  "every geometry, radius, value and minimum count", NAIVE,
  [A+"gridding.cpp", A+"count.cpp", A+"distance.cpp"], [("gridding", A+"gridding.cpp"), ("count", A+"count.cpp"), ("distance", A+"distance.cpp")])
p("C37", "Local gradients recover linear relations and fall back to the default",
  "The local gradient of values against a base field equals the true slope when values depend linearly on the base in the window (both methods), equals the least-squares slope (regression) or the slope between a cell with the largest and one with the smallest base (min-max) otherwise, ignores cells where either is missing, and is the default gradient when the window has fewer than the required valid cells, no base range, or too small a base range (range for min-max, standard deviation for regression). Invalid arguments are rejected.",
  "every base and value field, missing pattern, half-width and limit", NAIVE,
  [A+"calc_gradient.cpp"], [("calc_gradient", A+"calc_gradient.cpp")])
p("C38", "Neighbourhood search keeps target cells and averages matching neighbours",
  "The neighbourhood search leaves cells without a search value, or not selected for application, unchanged; otherwise it returns the average of the valid neighbours whose search value is in the target range, or else the value of the neighbour, among those whose search value differs by at least the required amount, whose search value is closest to the target range, or else the unchanged value; it never invents values outside the range of the window. Fields of different sizes are rejected.",
  "every field, search field, range and half-width", NAIVE,
  [A+"neighbourhood_search.cpp"], [("neighbourhood_search", A+"neighbourhood_search.cpp")])
p("C39", "Even quantile thresholds are increasing and drawn from the data",
  "The thresholds computed for approximate quantiles are strictly increasing values of the input, include its minimum and, when more than one is asked for and exists, its maximum, number at most the requested count, and are all the distinct values when at most that many exist.",
  "every array with ties and missing values, every requested count", NAIVE,
  [A+"util.cpp", A+"neighbourhood.cpp"], [("calc_even_quantiles", A+"util.cpp"), ("get_neighbourhood_thresholds", A+"neighbourhood.cpp")])
p("C40", "Parallel operators give the same result for every thread schedule",
  "Every grid operator that is parallelised over cells or rows gives the same result whatever the number of threads and the interleaving: no iteration writes memory that another iteration reads or writes.",
  "every schedule of the parallel loops, over symbolic field values", "Tests run one schedule on tiny grids; a race shows up only under particular interleavings.",
  [A+"neighbourhood.cpp", A+"gridding.cpp", A+"oi.cpp", A+"oi_ensi.cpp", A+"nearest.cpp", A+"bilinear.cpp"], [("omp parallel for loops", A+"*.cpp")], over=("schedules", "inputs"))
p("C41", "Local distribution correction maps towards the local observed distribution",
  "Local distribution correction leaves the background unchanged where too few valid observations are in range, and elsewhere returns a value consistent with quantile mapping between the observed and background samples in range, finite for finite inputs, unaffected by observations with zero correlation or missing values.",
  "every observation set and background", NAIVE,
  [A+"local_distribution_correction.cpp"], [("local_distribution_correction", A+"local_distribution_correction.cpp")])
p("C42", "Neighbourhood scores and optimal thresholds agree with direct scoring",
  "The neighbourhood verification score in each cell equals the score of the contingency table of all points whose nearest cell lies in the window, static point correlations equal the structure function between the points, restricted to the strongest allowed number, and an optimal threshold is either missing or a threshold within the range of the forecasts whose direct score is positive, no worse than at evenly spaced thresholds across that range and better than at its ends; the optimisation curve lists exactly the thresholds that have one. The search for a threshold always ends, also without valid forecasts or with infinite ones. An undefined metric is rejected with an exception.",
  "every geometry, field and observation", NAIVE,
  [A+"neighbourhood_score.cpp", A+"corr_points.cpp", A+"metric_optimizer.cpp"], [("get_optimal_threshold", A+"metric_optimizer.cpp"), ("neighbourhood_score", A+"neighbourhood_score.cpp"), ("staticcorr_points", A+"corr_points.cpp")])
p("C43", "Coordinate conversion and distances are metric",
  "Geodetic coordinates map to points on the sphere of the Earth's radius with the matching latitude and longitude; straight-line and great-circle distances are symmetric, non-negative, zero for identical points, at most half the circumference (great circle), and Cartesian distances are Euclidean; invalid or missing coordinates are rejected.",
  "every pair of coordinates", NAIVE,
  [A+"kdtree.cpp", A+"util.cpp"], [("calc_distance / calc_straight_distance", A+"kdtree.cpp"), ("convert_coordinates", A+"util.cpp")])
CL="src/client/"
p("C44", "Client utilities: distances, interpolation and quantiles",
  "The command-line client's utilities are correct for every input: great-circle and approximate distances are symmetric, non-negative numbers, zero for the same place; validity tests, sorting, logit and inverse logit, degree and radian conversion, statistics and quantiles of arrays agree with their definitions ignoring missing values; linear interpolation reproduces the nodes, stays between neighbouring node values and is constant outside; matrix inverses and least-squares regressions solve their equations.",
  "every value, position and ordering", NAIVE,
  [CL+"Util.cpp"], [("Util::getDistance / calculateStat / interpolate / logit", CL+"Util.cpp")])
p("C45", "Client time operators: windows, accumulation and de-accumulation",
  "The client's window operator gives at each time the chosen statistic of exactly the valid values within the window that lies before, around or after it according to its options, missing where required; accumulation gives the running sum within the given window, de-accumulation gives the differences, and accumulating then de-accumulating restores the field. Each cell and member is treated separately, and missing values never become numbers.",
  "every field of values and missing values, window length and option", NAIVE,
  [CL+"Calibrator/Window.cpp", CL+"Calibrator/Accumulate.cpp", CL+"Calibrator/Deaccumulate.cpp"], [("CalibratorWindow::calibrateCore", CL+"Calibrator/Window.cpp"), ("CalibratorAccumulate::calibrateCore", CL+"Calibrator/Accumulate.cpp"), ("CalibratorDeaccumulate::calibrateCore", CL+"Calibrator/Deaccumulate.cpp")])
p("C46", "Client point operators: clouds, limits, phase, wind and humidity",
  "The client's operators that work cell by cell give, for every time, place and member separately, what they document: cloud cover raised to a minimum where it rains, values limited to a range, values replaced by the class between thresholds, precipitation phase from temperature, sorted members with the valid values first, wind speed, direction and components consistent with each other, pressure reduced to sea level, dew point, relative humidity and wet-bulb temperature in their physical ranges and monotone. The other fields are untouched, and a missing input gives a missing or unchanged value, never a number.",
  "every value and missing value at any cell, member and time", NAIVE,
  [CL+"Calibrator/"+n+".cpp" for n in ("Cloud", "Qc", "Threshold", "Phase", "Sort", "DiagnoseWind", "Qnh", "DiagnoseHumidity")], [("Calibrator"+n+"::calibrateCore", CL+"Calibrator/"+n+".cpp") for n in ("Cloud", "Qc", "Threshold", "Phase", "Sort", "DiagnoseWind", "Qnh", "DiagnoseHumidity")])
p("C47", "Client neighbourhood operator matches direct evaluation",
  "For every field, radius and statistic the client's neighbourhood operator gives at each cell the statistic of exactly the valid values in the square of that radius clipped at the edges, whether the fast or the direct method is used; the approximate method for order statistics stays within the range of the square and is exact for the extremes; each time and member is treated separately, and a radius from a parameter file takes precedence.",
  "every field of values and missing values, radius and statistic", NAIVE,
  [CL+"Calibrator/Neighbourhood.cpp"], [("CalibratorNeighbourhood::calibrateField", CL+"Calibrator/Neighbourhood.cpp")])
p("C48", "Client calibration by parameters: right place, right time, right formula",
  "Calibration that is driven by a parameter file uses at each cell and time the parameters of the nearest place that has them, and applies them by the documented formula: quantile mapping passes through the points of its curve, interpolates inside, extrapolates by its policy and is order-preserving; regression evaluates its polynomial or linear combination; wind-direction factors, masks, overrides and elevations follow their parameters. A missing value or parameter yields a missing or unchanged value, never a number made of the missing code. Training yields the sorted curve or least-squares coefficients of the complete data.",
  "every parameter set, field value, place and time, including missing values and ties", NAIVE,
  [CL+"ParameterFile/ParameterFile.cpp"] + [CL+"Calibrator/"+n+".cpp" for n in ("Qq", "Regression", "WindDirection", "Mask", "Override", "Altitude")], [("ParameterFile::getParameters", CL+"ParameterFile/ParameterFile.cpp")] + [("Calibrator"+n+"::calibrateCore", CL+"Calibrator/"+n+".cpp") for n in ("Qq", "Regression", "WindDirection", "Mask", "Override", "Altitude")])
DS = ("NearestNeighbour", "Bilinear", "Smart", "Pressure", "Gradient", "Upscale", "Bypass")
p("C49", "Client downscaling schemes follow their definitions at every point",
  "Each downscaling scheme of the command-line client gives at every output point, time and member what it documents: the value of the nearest input cell by great circle (also near the poles and across the date line); the bilinear value of the box of cells around the point whatever the orientation of the grid (a point marginally beyond an edge gets the value there), and the nearest value outside it; the nearest pressure moved through the standard atmosphere to the point's elevation; the mean of the cells closest in elevation; the nearest value adjusted by the least-squares elevation gradient and the land gradient within their limits and the variable's domain; the statistic of the cells nearest to each output cell. Missing values, elevations or locations never turn into numbers or abort the run, and the input is untouched.",
  "every field, elevation, land fraction and point position, including missing ones", NAIVE,
  [CL+"Downscaler/"+n+".cpp" for n in DS] + [CL+"Downscaler/Downscaler.cpp", CL+"KDTree.cpp"], [("Downscaler"+n+"::downscaleCore", CL+"Downscaler/"+n+".cpp") for n in DS] + [("KDTree::nearestNeighbour", CL+"KDTree.cpp")])
p("C50", "Client fields and files: what is stored is what is read",
  "A value written to a field is read back at that cell and member and nowhere else. A file gives for every variable and time the field that was last put there, else the stored one, else a missing field, whatever the order in which fields are got, added, initialised or cleared; getting one field never alters another. Coordinates given to a file denote the same places (longitudes in [-180,180]), grids of another size are refused without effect, and the tag that identifies the grid changes exactly when the coordinates do. Reordering an ensemble gives the new values the ranks of the old ones. Places are ordered consistently.",
  "every sequence of operations, position, size and value", NAIVE,
  [CL+"File/File.cpp", CL+"Field.cpp", CL+"Field.h", CL+"Location.cpp", CL+"Parameters.cpp", CL+"Calibrator/Calibrator.cpp"], [("File::getField", CL+"File/File.cpp"), ("File::setLons", CL+"File/File.cpp"), ("Field::getIndex", CL+"Field.h"), ("Calibrator::shuffle", CL+"Calibrator/Calibrator.cpp")])
p("C51", "Client coastal calibration weights land and sea forecasts of the original field",
  "The coastal calibrator gives at every cell, member and time a constant plus a coefficient times the forecast at the cell with the lowest land fraction (or at the cell itself) plus a coefficient times the land-sea gradient between the cells of lowest and highest land fraction within the search square, all taken from the field before calibration, with the gradient left out where the land fractions differ too little or a value is missing. Coefficients are those of the nearest place at the time. A missing forecast gives a missing value and a missing land fraction is ignored. Training minimises the squared error.",
  "every field, set of land fractions, coefficients and missing values", NAIVE,
  [CL+"Calibrator/Coastal.cpp"], [("CalibratorCoastal::calibrateCore", CL+"Calibrator/Coastal.cpp"), ("CalibratorCoastal::train", CL+"Calibrator/Coastal.cpp")])
p("C52", "Client kriging spreads biases by the covariances of places",
  "The kriging calibrator corrects every member at every cell by the sum over all sites of the bias at the time times the kriging weight (inverse of the covariances between sites times the covariances with the cell), added, subtracted, multiplied or divided as asked, with the documented Cressman or Barnes covariances in distance and elevation and no influence beyond the radius or elevation limit. Cross-validation leaves out exactly the site of the highest covariance. The auxiliary variable weights each member by the fraction of its own times within the range. A missing value stays missing, and a site or cell without a position has no influence. Training gives the mean error or ratio of the complete data.",
  "every field, bias, elevation, auxiliary field and missing value", NAIVE,
  [CL+"Calibrator/Kriging.cpp"], [("CalibratorKriging::calibrateCore", CL+"Calibrator/Kriging.cpp"), ("CalibratorKriging::calcCovar", CL+"Calibrator/Kriging.cpp"), ("CalibratorKriging::train", CL+"Calibrator/Kriging.cpp")])
p("C54", "Client optimal interpolation adds the gain times the innovations",
  "The oi calibrator changes every complete member at every cell by the optimal gain (correlations of cell and observations, times the inverse of the correlations between observations plus their error variances) times the difference of observations and that member at the nearest grid point, moved along the elevation gradient if one is given; correlations follow the documented horizontal (gaussian or soar), vertical and land-fraction functions. With enough complete members it gives the local ensemble transform analysis instead, each member limited to the range of its own innovations unless extrapolation is allowed. Used are exactly the valid observations inside the domain, near enough to the terrain and on land if asked, correlated above the minimum, at most the requested number with the highest correlation, and without the best one when cross-validating. Missing values, elevations and land fractions have no influence, and a cell without observations keeps its value.",
  "every field, observation and missing value", NAIVE,
  [CL+"Calibrator/Oi.cpp"], [("CalibratorOi::calibrateCore", CL+"Calibrator/Oi.cpp"), ("CalibratorOi::calcRho", CL+"Calibrator/Oi.cpp")])
p("C55", "Client distribution calibrators give the documented quantiles by rank",
  "The zaga, gaussian and bct calibrators replace a complete ensemble of n members by the n quantiles (k+1/2)/n of the documented distribution, whose parameters are the documented functions of the ensemble mean (limited to maxEnsMean), spread or fraction of small members, taken from the raw values (of the whole neighbourhood if one is asked for) with the parameters of the place and time; the members keep their order. Probabilities and quantiles written by zaga are those of the same distribution, for six-hour sums if asked, and missing where the ensemble is incomplete. The distribution functions are non-decreasing, lie between 0 and 1 and are inverted by the quantile functions. Training of zaga and gaussian maximises the likelihood of exactly the pairs with an observation and a valid member. Incomplete ensembles, missing parameters and arguments out of range give the raw values or no value.",
  "every ensemble, level, threshold and missing value", NAIVE,
  [CL+"Calibrator/"+n+".cpp" for n in ("Zaga", "Gaussian", "Bct")], [("CalibratorZaga::getInvCdf", CL+"Calibrator/Zaga.cpp"), ("CalibratorGaussian::getInvCdf", CL+"Calibrator/Gaussian.cpp"), ("CalibratorBct::getInvCdf", CL+"Calibrator/Bct.cpp"), ("Calibrator::shuffle", CL+"Calibrator/Calibrator.cpp")])
p("C56", "Client NetCDF files: every value is read and written where it belongs",
  "Whatever the order of the dimensions of a NetCDF variable, the client reads for every time, member and place (and level, when one is asked for) the value stored there, scaled by its scale factor and offset, with the file's fill value as missing; places, altitudes, land fractions, times and reference time likewise. Written fields are stored, unscaled, at exactly that time, member, place and level, missing values as the fill value, so that reading the file again gives what was written; other variables, other levels and times that were not changed keep their values.",
  "every order of dimensions, packing, value and missing-value pattern", NAIVE,
  [CL+"File/Netcdf.cpp", CL+"File/File.cpp"], [("FileNetcdf", CL+"File/Netcdf.cpp")])
p("C57", "Client NetCDF parameter files keep parameters with their place and time",
  "A NetCDF parameter file gives for every place and time exactly the coefficients stored there, whatever the order of the dimensions and the names given by options, missing ones as missing; parameters that are written, with any of the naming options and with sets missing for some places and times, are read back the same, at the same places, altitudes and times.",
  "every order of dimensions, coefficient and pattern of missing sets", NAIVE,
  [CL+"ParameterFile/Netcdf.cpp", CL+"NetcdfUtil.cpp"], [("ParameterFileNetcdf", CL+"ParameterFile/Netcdf.cpp")])
p("C58", "Client text files and options give every number at its place",
  "A text parameter file gives every time and place exactly the parameters of its row, whatever the order of its columns, with or without columns for time and place, comment lines or absent rows, and parameters that are written are read back the same at the same times and places; files with rows of different lengths, only part of the place columns, no rows, or several rows without time and place are rejected. Text files and point files give every time (as stored in the file), place and member the value of its row, missing where there is none; a point file that is written is read back the same to the two decimals it is written with; point files without a place, with a latitude beyond the poles, or without times or members are rejected. An option key=value has the value given last, lists have their values in order, options that are not given keep their defaults, required ones are rejected when missing, and options never asked for are reported.",
  "every number in any row and column, every listed layout", NAIVE,
  [CL+"ParameterFile/Text.cpp", CL+"File/Text.cpp", CL+"File/Point.cpp", CL+"Options.cpp", CL+"Options.h"], [("ParameterFileText", CL+"ParameterFile/Text.cpp"), ("FilePoint", CL+"File/Point.cpp"), ("Options", CL+"Options.cpp")])
p("C59", "The client refuses options and parameter files it cannot use",
  "Calibrators and downscalers of the command-line client refuse, with an error and before they change any data, exactly what they cannot use: negative radii, distances and neighbourhood sizes, window lengths below 1, quantile levels outside [0,1] or not given, unrecognised statistics, policies, types, operators, transforms, quantities to diagnose and scheme names, missing required options or input variables' names, threshold, value and equality lists (and extra quantile-mapping points) of different lengths, ranges that are not an ordered pair, latitudes beyond the poles, a missing parameter file where parameters are used, and parameter files that are location (in)dependent or have a number of parameters other than the scheme needs. Every other value is accepted, and schemes that take no parameters run without a parameter file.",
  "every numeric option value, every listed word and combination", NAIVE,
  [CL+"Calibrator/Calibrator.cpp", CL+"Downscaler/Downscaler.cpp"] + [CL+"Calibrator/"+n+".cpp" for n in ("Neighbourhood", "Window", "Kriging", "Zaga", "Gaussian", "Qq", "Threshold", "DiagnoseWind", "DiagnoseHumidity", "Phase")] + [CL+"Downscaler/Upscale.cpp"], [("constructors", CL+"Calibrator/Kriging.cpp"), ("Calibrator::calibrate", CL+"Calibrator/Calibrator.cpp")])
p("C53", "Client results do not depend on the number of threads",
  "Every calibration and downscaling scheme of the command-line client gives the same result for every number of threads and every order in which they run: no iteration of a parallel loop reads or writes memory that another iteration writes.",
  "every interleaving of threads", "data races and order dependence do not show in a test run with few threads and small fields",
  [CL+"Calibrator/"+n+".cpp" for n in ("Neighbourhood", "Kriging", "Coastal", "Window", "Qq", "Regression", "Mask")] + [CL+"Downscaler/"+n+".cpp" for n in ("Bilinear", "Smart", "Gradient", "NearestNeighbour")], [("OpenMP loops", CL+"Calibrator/Neighbourhood.cpp"), ("OpenMP loops", CL+"Downscaler/Gradient.cpp")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P))
