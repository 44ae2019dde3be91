"""Per-property build and reporting data."""
import glob, os
def api(*names):
    return lambda repo: [repo + "/src/api/%s.cpp" % n for n in names if os.path.exists(repo + "/src/api/%s.cpp" % n)]
def api_pool(repo): return sorted(f for f in glob.glob(repo + "/src/api/*.cpp") if os.path.basename(f) != "swig.cpp")
def inc(repo): return [repo + "/include"]
REAL = "real-arithmetic harnesses: float rounding and overflow are ignored (tolerances in the assertions cover rounding); every reported counterexample is re-executed natively in IEEE arithmetic"
SEQ = "parallel loops run on a simulated team of one thread (other teams and schedules are the subject of C40)"
SPECS = {}
NOT_APPLICABLE = {}
def S(prop, harness, srcs, functions, extra=(), budget=(150, 700)):
    SPECS[prop] = dict(harness=[harness] if isinstance(harness, str) else harness, srcs=api(*srcs), pool=api_pool, incs=inc, pre=["gridpp.h"], functions=functions,
        assumptions=[REAL, SEQ, "bounds of each harness as listed under coverage.harnesses"] + list(extra), budget=budget)
def client_pool(repo): return sorted(f for d in ("", "Calibrator/", "Downscaler/", "File/", "ParameterFile/") for f in glob.glob(repo + "/src/client/%s*.cpp" % d))
def client_inc(repo): return [repo + "/src/client"]
def CL(prop, harness, functions, extra=(), budget=(150, 700)):
    """the command-line client (src/client): the whole of it is instrumented and linked as an archive"""
    SPECS[prop] = dict(harness=[harness], srcs=lambda repo: [], pool=client_pool, incs=client_inc, whole=True, libs=["-lnetcdf", "-lgsl", "-lgslcblas"],
        pre=["Util.h", "Options.h", "KDTree.h", "Calibrator/Calibrator.h", "Downscaler/Downscaler.h", "File/File.h", "ParameterFile/ParameterFile.h"], functions=functions,
        assumptions=[REAL, SEQ, "bounds of each harness as listed under coverage.harnesses", "fields are put into an in-memory file (FileFake, ParameterFileSimple or a stand-in): reading and writing of files is outside"][:2 if prop in ("C56", "C57", "C58") else 4] + list(extra), budget=budget)
BASE = ["util", "gridpp", "point", "points", "grid", "kdtree"]
S("C01", "c01_statistics.cpp", BASE, ["gridpp::calc_statistic(vec)", "gridpp::calc_statistic(vec2)", "gridpp::is_valid", "gridpp::calc_quantile"])
S("C02", "c02_quantile.cpp", BASE, ["gridpp::calc_quantile(vec)", "gridpp::calc_quantile(vec2)", "gridpp::calc_quantile(vec3,vec2)"])
S("C03", "c03_interpolate.cpp", BASE, ["gridpp::interpolate(scalar)", "gridpp::interpolate(vec)", "gridpp::get_lower_index", "gridpp::get_upper_index"])
NB = BASE + ["neighbourhood"]
S("C04", "c04_neighbourhood.cpp", NB, ["gridpp::neighbourhood(vec2)", "gridpp::neighbourhood_brute_force(vec2)", "gridpp::calc_statistic"])
S("C05", "c05_neighbourhood_ens.cpp", NB, ["gridpp::neighbourhood(vec3)", "gridpp::neighbourhood_brute_force(vec3)", "gridpp::calc_statistic"])
S("C06", "c06_neighbourhood_quantile.cpp", NB, ["gridpp::neighbourhood_quantile(vec2|vec3)", "gridpp::calc_quantile"])
S("C07", "c07_neighbourhood_quantile_fast.cpp", NB, ["gridpp::neighbourhood_quantile_fast(vec2|vec3, scalar and field levels)", "gridpp::neighbourhood", "gridpp::interpolate"])
S("C08", "c08_window.cpp", BASE + ["window"], ["gridpp::window", "gridpp::calc_statistic"])
S("C09", "c09_curve.cpp", BASE + ["curve"], ["gridpp::apply_curve (scalar, vec, vec2, spatially varying)", "gridpp::interpolate"])
S("C10", "c10_monotonize.cpp", BASE + ["curve"], ["gridpp::monotonize_curve"])
S("C11", "c11_quantile_mapping.cpp", BASE + ["quantile_mapping"], ["gridpp::quantile_mapping_curve"])
S("C12", "c12_scores.cpp", BASE + ["metric_optimizer"], ["gridpp::calc_score (contingency table and array forms)"], ["get_optimal_threshold and metric_optimizer_curve (Brent minimisation) are outside"])
S("C39", "c39_thresholds.cpp", NB, ["gridpp::calc_even_quantiles", "gridpp::get_neighbourhood_thresholds(vec2|vec3)"])
S("C13", "c13_kdtree.cpp", BASE, ["gridpp::KDTree (get_neighbours*, get_num_neighbours, get_closest_neighbours, get_nearest_neighbour; boost r-tree included)", "gridpp::Points queries", "gridpp::Grid queries"], ["at most 4 symbolic points, so the r-tree is a single leaf; splitting of boost's r-tree is outside"])
S("C14", "c14_points.cpp", BASE + ["curve"], ["gridpp::Points (copy, assignment, subset, get_in_domain, get_point)", "gridpp::KDTree copy/assignment", "gridpp::Grid (get_box, get_indices, get_point, to_points, get_2d)", "gridpp::Point"])
S("C15", "c15_nearest.cpp", BASE + ["nearest", "bilinear", "downscaling"], ["gridpp::nearest (8 overloads)", "gridpp::downscaling", "gridpp::KDTree/Grid/Points nearest queries"])
S("C16", "c16_bilinear.cpp", BASE + ["nearest", "bilinear", "downscaling"], ["gridpp::bilinear (4 overloads)", "gridpp::Grid::get_box", "gridpp::point_in_rectangle", "gridpp::downscaling"], ["cell shapes are fixed (listed); queries and values are symbolic"])
DN = BASE + ["nearest", "bilinear", "downscaling"]
S("C17", "c17_simple_gradient.cpp", DN + ["simple_gradient"], ["gridpp::simple_gradient (4 overloads)", "gridpp::downscaling", "gridpp::nearest", "gridpp::bilinear"], ["grid geometry and output locations are fixed (downscaling itself is C15/C16); fields are symbolic"])
S("C18", "c18_full_gradient.cpp", DN + ["gradient"], ["gridpp::full_gradient (4 overloads)", "gridpp::full_gradient_debug", "gridpp::downscaling"], ["grid geometry and output locations are fixed (downscaling itself is C15/C16); fields are symbolic"])
S("C19", "c19_probability.cpp", DN + ["downscale_probability"], ["gridpp::downscale_probability"], ["grid geometry fixed"])
S("C20", "c20_mask.cpp", DN + ["mask_threshold_downscale_consensus"], ["gridpp::mask_threshold_downscale_consensus", "gridpp::mask_threshold_downscale_quantile", "gridpp::calc_statistic", "gridpp::calc_quantile"], ["grid geometry fixed"])
S("C21", "c21_smart.cpp", DN + ["smart", "structure"], ["gridpp::smart", "gridpp::Grid::get_neighbours", "gridpp::BarnesStructure::corr"], ["input grid geometry fixed"])
S("C28", "c28_structure.cpp", BASE + ["structure"], ["Barnes/Cressman/Soar/Toar/Powerlaw/LinearStructure: corr (single and many), corr_background, clone, localization_distance, constructors", "gridpp::StructureFunction::*_rho", "gridpp::KDTree::calc_straight_distance"], ["points lie on a line in the symbolic harnesses; length scales are fixed", "exp is axiomatised (monotone, bounds, tangent lemmas), candidates are confirmed natively"])
S("C29", "c29_composite.cpp", BASE + ["structure"], ["gridpp::CrossValidation", "gridpp::MultipleStructure", "spatially varying Barnes/Soar/Toar/PowerlawStructure: corr, localization_distance, clone", "gridpp::Grid::get_nearest_neighbour"], ["length scales and grids are fixed; separations, cross-validation distance and the first location are symbolic", "exp is axiomatised"])
OI = BASE + ["structure", "oi"]
OIX = ["armadillo's own (header) arithmetic is executed symbolically; BLAS/LAPACK calls go to engine/lapack.cpp in the symbolic build and to the system library in the native replay"]
S("C22", "c22_oi_background.cpp", OI, ["gridpp::optimal_interpolation (grid, points)", "gridpp::optimal_interpolation_full (grid, points)", "gridpp::Points::get_neighbours"], OIX)
S("C23", "c23_oi_analysis.cpp", OI, ["gridpp::optimal_interpolation (grid, points)", "gridpp::optimal_interpolation_full (grid, points)"], OIX)
S("C24", "c24_oi_bounds.cpp", OI, ["gridpp::optimal_interpolation_full (points)"], OIX)
S("C25", "c25_oi_selection.cpp", OI, ["gridpp::optimal_interpolation_full (points)", "std::sort on symbolic correlations"], OIX)
S("C26", "c26_ensi.cpp", BASE + ["structure", "oi_ensi"], ["gridpp::optimal_interpolation_ensi (grid, points)"], OIX + ["the ensemble at the observations and the error standard deviations are fixed except in formula_pair"])
S("C27", "c27_multi.cpp", BASE + ["structure", "oi", "oi_ensi_multi"], ["gridpp::optimal_interpolation_ensi_multi_ebe/_ebesc/_utem (grid, points)"], OIX + ["the correlation ensembles and ratios are fixed"])
S("C30", "c30_transform.cpp", BASE + ["transform", "distribution"], ["gridpp::gamma_inv", "gridpp::Identity/Log/BoxCox/StartedBoxCox/Gamma (forward, backward; scalar, 1D, 2D, 3D)", "gridpp::Transform array forms"], ["transform parameters are fixed (listed)", "log, exp and pow are axiomatised (monotone, inverse pairs, curvature, refined at candidate points)", "boost's gamma and normal distribution functions are replaced by a stand-in pair of strictly increasing functions with their exact inverses: what is decided for Gamma is gridpp's use of them"])
SPECS["C30"]["incs"] = lambda repo: [os.path.dirname(os.path.abspath(__file__)) + "/engine/booststub"] + inc(repo)
S("C31", "c31_humidity.cpp", BASE + ["humidity"], ["gridpp::dewpoint", "gridpp::relative_humidity", "gridpp::wetbulb (scalar and array forms)"], ["exp, log and pow are axiomatised (refined at candidate points)", "some harnesses fix the temperature (listed)"])
S("C32", "c32_pressure.cpp", BASE + ["pressure", "qnh"], ["gridpp::pressure", "gridpp::sea_level_pressure", "gridpp::qnh (scalar and array forms)"], ["exp, log and pow are axiomatised (refined at candidate points)"])
S("C33", "c33_wind.cpp", BASE + ["wind"], ["gridpp::wind_speed", "gridpp::wind_direction (scalar and array forms)"], ["atan2 is axiomatised (quadrants, order, and the identity with sine and cosine)", "the direction of calm wind is checked for the concrete value only"])
S("C34", "c34_fill_missing.cpp", BASE + ["fill"], ["gridpp::fill_missing"])
S("C35", "c35_fill_doping.cpp", BASE + ["fill", "doping"], ["gridpp::fill", "gridpp::doping_square", "gridpp::doping_circle", "gridpp::Grid::get_neighbours/get_nearest_neighbour"], ["cells exactly on a radius, and points equally near to two cells, are outside the claim"])
S("C36", "c36_gridding.cpp", BASE + ["gridding", "count", "distance"], ["gridpp::gridding (grid, points)", "gridpp::gridding_nearest (grid, points)", "gridpp::count (4 overloads)", "gridpp::distance (4 overloads)", "gridpp::calc_statistic"], ["observations exactly on the radius, and equally near to two cells, are outside the claim"])
S("C37", "c37_calc_gradient.cpp", NB + ["calc_gradient"], ["gridpp::calc_gradient (LinearRegression, MinMax)", "gridpp::neighbourhood"])
S("C38", "c38_search.cpp", BASE + ["neighbourhood_search"], ["gridpp::neighbourhood_search"])
S("C40", "c40_parallel.cpp", DN + ["neighbourhood", "window", "calc_gradient", "curve", "simple_gradient", "gradient", "downscale_probability", "mask_threshold_downscale_consensus", "gridding", "count", "distance", "humidity", "pressure", "qnh", "wind", "structure", "oi", "corr_points", "local_distribution_correction", "neighbourhood_score", "metric_optimizer"],
  ["every OpenMP parallel region of src/api reached by the harnesses (outlined loop bodies, as lowered by clang)"], ["the OpenMP runtime is replaced by engine/omp.cpp: simulated teams of 1, 3 (in reverse order) and one thread per iteration; with the last, every load and store of the instrumented code inside a region is recorded per iteration, and a conflict between two iterations (not both inside critical sections or atomic) is reported whatever the schedule", "memory accessed by the precompiled C++ and C libraries is not recorded", "gamma_inv (boost's gamma distribution) is outside"])
SPECS["C40"]["mem"] = True
S("C41", "c41_local_correction.cpp", BASE + ["structure", "local_distribution_correction"], ["gridpp::local_distribution_correction (1D and 2D observations)", "gridpp::interpolate", "std::sort on symbolic values"], ["ties between observations of different correlation, and between background values at the points, are outside the comparison with the reference (covered by the harness `sane`)", "exp is axiomatised"])
S("C42", "c42_score_static.cpp", BASE + ["structure", "corr_points", "neighbourhood", "neighbourhood_score", "gridding", "metric_optimizer"], ["gridpp::neighbourhood_score", "gridpp::calc_score (contingency form)", "gridpp::get_optimal_threshold", "gridpp::metric_optimizer_curve", "gridpp::staticcorr_points", "gridpp::gridding_nearest", "gridpp::neighbourhood"], ["boost's bracketed minimiser is replaced by an arbitrary one that does at least as well as the ends and the middle of its bracket (engine/booststub)", "observations lie at fixed places", "cell means of several observations exactly at the threshold, and ties between correlations, are outside the claim"])
SPECS["C42"]["incs"] = SPECS["C30"]["incs"]
S("C43", "c43_coordinates.cpp", BASE, ["gridpp::convert_coordinates (scalar, array)", "gridpp::KDTree::calc_distance", "gridpp::KDTree::calc_distance_fast", "gridpp::KDTree::calc_straight_distance", "gridpp::KDTree::deg2rad/rad2deg", "gridpp::is_valid_lat/lon", "KDTree, Points and Grid constructors"], ["sine and cosine are axiomatised (range, monotone parts, squares sum to one, Lipschitz), so great-circle lengths are compared with known values at listed places only", "NaN from rounding in acos is checked at listed places only"])
CL("C45", "c45_client_time.cpp", ["CalibratorAccumulate::calibrateCore", "CalibratorDeaccumulate::calibrateCore", "CalibratorWindow (options, calibrateCore)", "Util::calculateStat", "Calibrator::getScheme/calibrate", "File::getField/addField/getEmptyField", "Field"])
CL("C44", "c44_client_util.cpp", ["Util::calculateStat", "Util::getStatType", "Util::interpolate", "Util::getLowerIndex/getUpperIndex", "Util::inverse", "Util::regression", "Util::logit/invLogit", "Util::getDistance"], ["sine and cosine are axiomatised, so lengths are compared with known values at listed places only", "regression: predictors are fixed (listed), observations symbolic"])
CL("C46", "c46_client_pointwise.cpp", ["CalibratorCloud/Qc/Threshold/Phase/Sort/DiagnoseWind/Qnh/DiagnoseHumidity::calibrateCore and constructors", "CalibratorQnh::calcQnh", "CalibratorDiagnoseHumidity::computeDewpoint/computeRh/computeWetbulb", "DownscalerPressure::calcPressure", "Calibrator::getScheme/calibrate", "File::getField/addField", "Options"], ["sine, cosine, exponential, logarithm and power are axiomatised (see DESIGN.md)"])
CL("C47", "c47_client_neighbourhood.cpp", ["CalibratorNeighbourhood (options, calibrateCore, calibrateField: fast, approximate and direct)", "Util::calculateStat", "Field", "ParameterFileSimple"])
CL("C48", "c48_client_parameters.cpp", ["CalibratorQq (calibrateCore, train)", "CalibratorRegression (calibrateCore, train)", "CalibratorWindDirection", "CalibratorMask", "CalibratorOverride", "CalibratorAltitude", "ParameterFile (setParameters, getParameters, getNearestLocation, recomputeTree)", "Parameters", "Location", "KDTree (client)"], ["positions of cells and places are fixed; parameters, elevations and field values are symbolic"])
CL("C49", "c49_client_downscaling.cpp", ["Downscaler::getScheme/downscale/getNearestNeighbour (cache and identical grids included)", "KDTree (client)", "DownscalerNearestNeighbour/Bilinear/Smart/Pressure/Gradient/Upscale/Bypass (options, downscaleCore)", "DownscalerBilinear::downscaleField/downscaleVec/findCoords/bilinear/calcParallelogram/calcGeneral", "Util::calculateStat", "File::getField/setLats/setLons", "Field"], ["places of cells are listed; places of points are listed for the nearest-cell search and symbolic for bilinear interpolation", "averageNeighbourhood of the gradient downscaler is documented but not implemented: outside"])
CL("C51", "c51_client_coastal.cpp", ["CalibratorCoastal (options, calibrateCore, train)", "Util::regression", "Util::calculateStat", "ParameterFile::getParameters", "File::setLandFractions", "Field", "Grid"], ["positions of cells are fixed; products of two unknowns are avoided by holding either the values or the coefficients fixed"])
CL("C52", "c52_client_kriging.cpp", ["CalibratorKriging (options, calibrateCore, calcCovar, train)", "Util::inverse", "Util::getDistance (approximate)", "Util::calculateStat", "ParameterFile::getParameters/getLocations", "Field"], ["places of cells and sites are fixed (biases, values, elevations and auxiliary values are symbolic)", "a site with a missing bias, and factors of 0, are outside"])
CL("C54", "c54_client_oi.cpp", ["CalibratorOi::calibrateCore (single-member and ensemble mode)", "CalibratorOi::calcRho", "ParameterFile::getParameters", "KDTree::getNearestNeighbour"], OIX + ["places, length scales and error variances are fixed (listed); in ensemble mode the ensemble at the observations is fixed", "the Box-Cox transform, spatially correlated observation errors and the bias, delta and num variables are outside"])
CL("C55", "c55_client_distributions.cpp", ["CalibratorZaga::calibrateCore/getInvCdf/getCdf/getP0/getPdf/train/my_f", "CalibratorGaussian::calibrateCore/getInvCdf/getCdf/getPdf/train/my_f", "CalibratorBct::calibrateCore/getInvCdf", "Calibrator::shuffle", "Util::invLogit"], ["boost's gamma, normal and Student t distributions are replaced by stand-in strictly increasing distribution functions with their exact inverses (engine/booststub), different for different parameters: what is decided is the client's use of them", "exp and pow are axiomatised", "of training the likelihood handed to GSL's minimiser is decided; the minimiser itself is outside", "parameters are fixed (listed)"])
SPECS["C55"]["incs"] = lambda repo: [os.path.dirname(os.path.abspath(__file__)) + "/engine/booststub"] + client_inc(repo)
CL("C50", "c50_client_file.cpp", ["Field", "File::getField/addField/initNewVariable/hasVariable/clear", "File::setLats/setLons/setElevs/setLandFractions/getUniqueTag/hasSameDimensions", "FileFake", "Calibrator::shuffle", "Location", "Parameters"], ["after a field has been got without reading, the other times of a stored variable are left open", "ties in shuffled ensembles are outside"])
CL("C56", "c56_client_netcdf.cpp", ["FileNetcdf (constructor, getFieldCore, writeCore, getLatLonVariable, writeAltitude, writeTimes, defineAltitude, ..., isValid)", "File::getField/addField/write/setLats/setLons/setElevs/setTimes", "Variable", "Field"], ["libnetcdf is replaced by an in-memory stand-in with the documented semantics of dimensions, attributes, fill values and hyperslabs (engine/ncstub.h): what is decided is the client's use of it", "variables are stored as float or double (conversion to integers is the library's)"])
CL("C58", "c58_client_text.cpp", ["ParameterFileText (constructor, write, isLocationDependent, getTimes)", "FileText (constructor, getFieldCore)", "FilePoint (constructor, getFieldCore, writeCore)", "Options (addOption(s), getValue(s), getRequiredValue, check, ==)", "ParameterFile::setParameters/getParameters", "Location", "Parameters"], ["numbers are written to and read from text exactly: formatting and its rounding are not modelled (symbolic values travel through the streams as tokens)", "the text around the numbers (keys, headers, order of columns, absent rows) is one of the listed forms"])
CL("C59", "c59_client_options.cpp", ["constructors of every Calibrator and Downscaler with options", "Calibrator::getScheme/calibrate/requiresParameterFile", "Downscaler::getScheme", "Options (getValue(s), getRequiredValue(s))", "Util::getStatType", "checks of parameter and input files at the start of calibrateCore", "ParameterFile::isLocationDependent/getNumParameters"], ["numbers travel through the option text as tokens: their formatting and rounding are not modelled", "words are those listed in the harnesses"])
CL("C57", "c57_client_parameter_netcdf.cpp", ["ParameterFileNetcdf (constructor, write, getGridValues, getNcFloats, getIndex)", "NetcdfUtil", "ParameterFile::setParameters/getParameters/getNearestLocation/initializeEmpty", "Parameters", "Location"], ["libnetcdf is replaced by an in-memory stand-in with the documented semantics of dimensions, attributes, fill values and hyperslabs (engine/ncstub.h): what is decided is the client's use of it", "positions of places are fixed, coefficients are symbolic; times are those from 0 on"])
CL("C53", "c53_client_parallel.cpp", ["every OpenMP parallel region of the client's calibrators, downscalers and KDTree reached by the harnesses (outlined loop bodies, as lowered by clang)"], ["the OpenMP runtime is replaced by engine/omp.cpp: simulated teams of 1, 3 (in reverse order) and one thread per iteration; with the last, every load and store of the instrumented code inside a region is recorded per iteration, and a conflict between two iterations (not both inside critical sections or atomic) is reported whatever the schedule", "memory accessed by the precompiled C++ and C libraries is not recorded", "boost's distributions are replaced by the stand-ins of C55"])
SPECS["C53"]["incs"] = SPECS["C55"]["incs"]
SPECS["C53"]["mem"] = True
