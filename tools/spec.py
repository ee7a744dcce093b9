#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (static text only; the checks do not read it)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/momlevel/"
P = []


def prop(pid, title, statement, text, why, files, mech, over=("inputs",), bound="", note=""):
    P.append(dict(id=pid, title=title, statement=statement, over=list(over), text=text, why=why, files=[S + f for f in files], mech=mech, bound=bound, note=note))


prop("C01", "Density is the Wright equation of state",
     "For every temperature, salinity and pressure the in situ density is the published Wright (1997) rational function, and potential density is the same function at the pressure of the chosen reference depth plus the surface pressure. The result follows the caller's choice of equation of state (names in any case, Wright when none is given, unknown names refused), broadcasts labelled arrays by dimension name, and is missing exactly where an input is. Reference depths outside 0 to 7500 m are refused.",
     "all T in [-3, 40], S in [0, 45], p in [0, 1.2e8] Pa, every pattern of missing values, every reference depth and surface pressure", "tests evaluate one or two points or one random array sum; an error in a term that vanishes or nearly vanishes there, or in the broadcast, is invisible",
     ["eos/wright.py", "derived.py", "util.py"], [("density", "src/momlevel/eos/wright.py density"), ("wrappers", "src/momlevel/derived.py calc_rho, calc_pdens"), ("lookup", "src/momlevel/util.py eos_func_from_str")], ("inputs", "configurations"), "up to 24 free points; 2x2x1x2 labelled arrays")
prop("C02", "Expansion and contraction are the density's own derivatives",
     "For every temperature, salinity and pressure the temperature and salinity derivatives are the exact partial derivatives of the density the same equation of state returns. The thermal expansion coefficient is minus the temperature derivative over the density, the haline contraction coefficient the salinity derivative over the density, for both equations of state, on numbers and on labelled arrays of any dimension layout, missing exactly where an input is.",
     "all points of the physical box, both equations of state, any missing values", "tests compare a handful of values to stored numbers; consistency between derivative and density needs every point",
     ["eos/wright.py", "eos/linear.py", "derived.py"], [("derivatives", "src/momlevel/eos/wright.py drho_dtemp, drho_dsal, alpha, beta"), ("wrappers", "src/momlevel/derived.py calc_alpha, calc_beta")], ("inputs", "configurations"), "up to 16 free points; 2x2x1x2 labelled arrays")
prop("C03", "The linear equation of state is affine and ignores pressure",
     "With the linear equation of state, density is exactly 1000 - 0.2 T + 0.8 S (less the reference density when one is given) for every input, whatever the pressure, even a missing or absent one. Integer and floating point inputs of the same value give the same density, expansion and contraction.",
     "all T, S, pressures, number types, missing values", "tests use a single point or one float array",
     ["eos/linear.py", "derived.py"], [("linear density", "src/momlevel/eos/linear.py")], ("inputs", "configurations"), "up to 32 free points; integer arrays, integer labelled arrays and python ints")
prop("C04", "Layer thicknesses tile the water column",
     "For every vertical grid and every sea floor depth, the thickness of each layer is the part of the layer that lies between the top limit and the sea floor (or the bottom limit if shallower); over land or missing depth it is zero, and it is never negative or larger than the layer. Without limits the thicknesses of a column add up to its depth, capped at the deepest interface; with the fraction option each value is that part divided by the layer's full thickness, missing where there is none. Negative depths, levels or interfaces are refused.",
     "all level and interface positions, depths (missing included), windows", "tests use one fixed grid and compare a sum; ordering of depth relative to every interface has many cases",
     ["derived.py"], [("thickness", "src/momlevel/derived.py calc_dz")], ("inputs", "configurations"), "up to 8 layers, all grids with levels in 0..6000 m; known finding F1 for sea floor and top limit in one cell")
prop("C05", "Local steric height is the depth-integrated density change",
     "For every dataset the local sea level change at each time and column is minus one over the constant density times the sum over levels of layer thickness times the density change from the reference state, evaluated at pressure 1e4 Pa per metre of level depth plus the surface pressure. The returned density change is that same difference, missing exactly where the reference volume or an input is missing; a column whose top reference cell is missing has no height. The caller's constant density, surface pressure (number or map), equation of state and supplied reference state are honoured, and the order of dimensions does not matter.",
     "all fields, vertical grids, depths, masks, options, dimension orders", "tests compare one random dataset's sum with a stored number",
     ["steric.py", "derived.py", "reference.py"], [("steric", "src/momlevel/steric.py steric"), ("thickness", "src/momlevel/derived.py calc_dz"), ("reference", "src/momlevel/reference.py")], ("inputs", "configurations"), "up to 10 levels, 3 times, 2x2 columns")
prop("C06", "Global steric change follows the volume-mean density",
     "For every dataset the global sea level change at each time is the reference volume over the total ocean area, times the natural log of the reference mean density over the mean density at that time, both with the reference volumes as weights; that column height is returned too. Depth and layer interfaces are not needed for it. The change is positive exactly when the volume-mean density falls.",
     "all fields, volumes, areas, masks, options", "tests compare one random dataset's sum with a stored number",
     ["steric.py", "derived.py", "reference.py"], [("global branch", "src/momlevel/steric.py steric"), ("totals", "src/momlevel/derived.py calc_masso, calc_volo, calc_rhoga")], ("inputs", "configurations"), "up to 3 times and 12 cells")
prop("C07", "The reference state is the chosen time level and its own totals",
     "The reference state holds temperature, salinity and volume at exactly the requested time step (the first by default, negative counts from the end), the in situ density of those fields, the area, and total volume, total mass and mean density that equal the sums over its own cells with missing cells counting nothing. It has no time dimension, keeps every spatial dimension even of length one, and passing it back reproduces the result obtained without passing it, with zero change at the time it was taken from.",
     "all fields, masks, time indices, coordinate names", "tests check a few sums of one dataset",
     ["reference.py", "derived.py"], [("setup_reference_state", "src/momlevel/reference.py")], ("inputs", "histories", "configurations"), "up to 3 times, 3 levels, 2x2 columns")
prop("C08", "Thermosteric and halosteric parts isolate their variable",
     "The thermosteric change uses the time-varying temperature with the reference salinity, the halosteric change the reverse; neither depends on later values of the other variable. Both are zero whenever the fields equal the reference, and with the linear equation of state they add up to the steric change. Warming water above 5 degrees raises the thermosteric height and adding salt lowers the halosteric height; asking for a part by option or by its own function is the same.",
     "all fields, masks, reference times, both domains and equations of state", "tests compare three stored sums; independence and additivity are universally quantified",
     ["steric.py"], [("variant selection", "src/momlevel/steric.py steric, thermosteric, halosteric")], ("inputs", "configurations"), "up to 3 times, 4 levels, 2x2 columns")
prop("C09", "Missing data never leaks into other cells or columns",
     "Whatever pattern of temperature, salinity, volume, depth and area is missing, a missing cell contributes nothing to its column, to global mass or volume, or to the area; every other cell and column has exactly the value it would have with any other content in the missing or neighbouring ones. An elementwise diagnostic is missing exactly where one of its inputs is, and present everywhere else.",
     "all missing-value patterns, independently per variable and time", "tests use datasets without missing values or one land mask",
     ["steric.py", "derived.py", "reference.py"], [("masking", "src/momlevel/steric.py steric"), ("sums", "src/momlevel/derived.py calc_masso, calc_volo, calc_dz")], ("inputs",), "up to 2 times, 3 levels, 2x2 columns, every cell free")
prop("C10", "Names of coordinates and variables are the caller's choice",
     "The same data under other names for the time, vertical, interface and horizontal coordinates and variables gives the same numbers under the new names, for every function that accepts such names; a partial mapping changes only the names it lists. Something that is not a mapping is refused.",
     "all data; renamed coordinates across sea level, averaging, trend, seasonal, stratification and vorticity functions", "tests use the default names nearly everywhere",
     ["steric.py", "reference.py", "util.py", "derived.py", "trend.py"], [("default_coords", "src/momlevel/util.py default_coords"), ("renaming", "src/momlevel/steric.py steric")], ("inputs", "configurations"), "one alternative set of names; sizes up to 12 times, 3 levels")
prop("C11", "Annual means weight each month by its true length",
     "For every monthly field and every calendar (no leap, standard, 360 day, Julian, all leap, proleptic) the annual mean of a year is the sum of its monthly values times their days in that calendar over the days of the months present, missing only when all twelve are. Each result is dated at the middle of its year in the same calendar, keeps attributes and other dimensions, and years without exactly twelve months are refused. Every numeric variable of a dataset is averaged this way.",
     "all values and missing months; calendars and years incl. leap and century years, stepwise", "tests sum one dataset in one calendar",
     ["util.py"], [("annual_average", "src/momlevel/util.py annual_average")], ("inputs", "configurations"), "up to 4 years; years 1 to 2400")
prop("C12", "Monthly means average each calendar month of each year",
     "For samples at any dates the monthly mean of a calendar month is the plain mean of the values present in that month of that year, missing only when all are, one result per month that has samples, in time order. Each is dated at the middle of its month in the data's calendar; partial years, gaps and unordered samples are handled, and every numeric variable of a dataset is averaged.",
     "all values and missing patterns; daily, five-day, sparse and unordered samplings in six calendars", "tests sum one dataset",
     ["util.py"], [("monthly_average", "src/momlevel/util.py monthly_average")], ("inputs", "configurations"), "up to 24 samples and 14 months")
prop("C13", "The annual cycle reduces each calendar month across all years",
     "The climatology of a series that covers all calendar months has exactly twelve values, January to December, each the mean, minimum, maximum or standard deviation, as asked, of all values present in that calendar month, whatever month the series starts with. It is dated mid-month in the year given, or the year at the middle of the series, in the data's calendar; other statistics are refused.",
     "all values and missing patterns, start months, record lengths, calendars", "tests check the length and the sum for one dataset",
     ["util.py"], [("annual_cycle", "src/momlevel/util.py annual_cycle")], ("inputs", "configurations"), "12 to 60 months")
prop("C14", "Trends and detrending are ordinary least squares on the data present",
     "The linear trend along the chosen dimension is the least squares line through the values present: its residuals sum to zero and are orthogonal to the axis, per column, whatever is missing, and the slope is expressed in the requested time unit. Detrending subtracts exactly that line (or, in correction mode, only its slope part), leaves missing values missing and everything else (attributes, dimension order, variables without that dimension) untouched; a column without data has no trend.",
     "all values and missing patterns with two or more values present, numeric and calendar axes, units", "tests compare a few fitted numbers",
     ["trend.py"], [("calc_linear_trend, linear_detrend", "src/momlevel/trend.py")], ("inputs", "configurations"), "up to 10 points, 2 columns")
prop("C15", "Trend units convert exactly and trends broadcast to their line",
     "Conversion factors between any two supported time units are the ratio of their lengths (30.417-day months and 365-day years unless the caller says otherwise); unknown units are refused. Spreading a trend over a time axis gives the slope times the time elapsed in the unit the slope carries, counted from 1970 or from the first date when asked, so that fitting in any unit and spreading gives the same line.",
     "all slopes, month and year lengths, unit pairs, axes", "tests check two conversions",
     ["trend.py"], [("time_conversion_factor, broadcast_trend", "src/momlevel/trend.py")], ("inputs", "configurations"), "all 49 unit pairs; axes of 3 to 6 dates")
prop("C16", "The seasonal regression splits data into model and residual",
     "For any record the seasonal model is the least squares fit of a constant, a linear trend in decimal years and annual and semiannual sines and cosines (365-day calendar), column by column, and the residual is the data minus that model. Anything made of those components is explained entirely; a gap in one column leaves the other columns alone and that column without model and residuals (never a fit to an invented value), and dimensions, order and units are kept.",
     "all values; monthly, uneven and short records", "tests compare sums for one series",
     ["trend.py"], [("seasonal_model", "src/momlevel/trend.py seasonal_model")], ("inputs", "configurations"), "up to 14 times, 2x2 columns; no-leap calendar")
prop("C17", "Deseasonalising removes the fitted trend and seasonal cycle",
     "For daily data in any calendar the model is the least squares fit of a constant, a trend and annual and semiannual harmonics in elapsed years, each day counting one over the length of its year, and residuals plus model equal the input. Residuals, model or the six coefficients are returned as asked, per column, for any dimension order and with or without chunking; a column with a gap has no result and leaves the others alone; other requests are refused.",
     "all values; calendars, leap years, layouts, output formats", "tests compare sums for one array",
     ["trend.py"], [("deseason, seasonal_cycle_model", "src/momlevel/trend.py")], ("inputs", "configurations"), "records up to four years with up to 40 free days, 2x2 columns")
prop("C18", "Buoyancy frequency and its repair of unstable layers",
     "The squared buoyancy frequency is gravity times the expansion-weighted temperature gradient minus the contraction-weighted salinity gradient, with second-order differences on any level spacing and each level's own pressure, so that stable water has a positive and unstable water a negative value. The repair replaces every non-positive value by the nearest positive value above it in the same column (1e-8 at the surface), never touches positive values, keeps missing values missing and looks at one column only.",
     "all profiles, level spacings, gravity, surface pressure, missing values", "tests compare one dataset's sum",
     ["derived.py"], [("calc_n2, adjust_negative_n2", "src/momlevel/derived.py")], ("inputs", "configurations"), "3 to 6 levels; known finding F2 (dimension order of the repair)")
prop("C19", "Coriolis parameter, baroclinic wave speed and Rossby radius",
     "The Coriolis parameter is 4 pi per day times the sine of latitude, odd about the equator. The wave speed of a profile is the sum over layers of the repaired buoyancy frequency times thickness over pi, never negative and missing exactly where the top layer is; the Rossby radius is the wave speed over the magnitude of the Coriolis parameter, the same at mirrored latitudes.",
     "all latitudes, profiles (unstable layers included), thicknesses", "tests compare stored sums",
     ["derived.py"], [("calc_coriolis, calc_wave_speed, calc_rossby_rd", "src/momlevel/derived.py")], ("inputs",), "2 to 6 layers; known finding F3 (leading time dimension)")
prop("C20", "Relative vorticity is circulation per area",
     "At each corner the relative vorticity is the eastward difference of northward flux (velocity times its metric) minus the northward difference of eastward flux, over the corner area, with zero flux outside the grid, on symmetric and non-symmetric grids and any dimension order. Solid-body rotation has twice the rotation rate and uniform flow none; missing neighbours give a missing value and a missing input field is refused.",
     "all velocities, metrics, areas, grid layouts", "tests compare one sum",
     ["derived.py", "util.py"], [("calc_rel_vort", "src/momlevel/derived.py"), ("get_xgcm_grid", "src/momlevel/util.py")], ("inputs", "configurations"), "up to 6x7 cells and 2 times")
prop("C21", "Potential vorticity scales absolute vorticity by stratification",
     "Potential vorticity is the stratification, averaged from the four surrounding cells to the corner (or used as given), over gravity times the sum of relative vorticity and Coriolis parameter, in m-1 s-1; in centimetre units it is the magnitude of the same value on the 10^14 cm-1 s-1 scale. Unknown units are refused.",
     "all vorticities, stratifications, gravity, grid layouts, units", "tests compare one sum per unit",
     ["derived.py", "util.py"], [("calc_pv", "src/momlevel/derived.py")], ("inputs", "configurations"), "up to 5x5 cells and 2 levels")
prop("C22", "The stability angle is the Turner angle of the density ratio",
     "At every level the stability angle is the arctangent, in degrees, of (1 + R) / (1 - R) with R the contraction-weighted salinity gradient over the expansion-weighted temperature gradient, with second-order differences on any level spacing and each level's own pressure. It is missing exactly where a needed neighbour is.",
     "all profiles, level spacings, pressures", "tests compare one sum",
     ["derived.py"], [("calc_stability_angle", "src/momlevel/derived.py")], ("inputs", "configurations"), "3 to 5 levels")
prop("C23", "Spiciness is Flament's polynomial",
     "For every temperature and salinity the spiciness is the published 6 x 5 coefficient polynomial in temperature and salinity minus 35, for numbers and arrays of any shape and dimension order, missing exactly where an input is. Fields of mismatched shapes are refused by the bare function.",
     "all T, S, shapes, missing values", "tests check single values",
     ["spice/flament.py", "derived.py"], [("spice", "src/momlevel/spice/flament.py")], ("inputs",), "up to 12 points")
prop("C24", "Grid cell areas are areas on the sphere",
     "For every regular latitude-longitude grid, in either direction, the area of a cell is the squared radius times the longitude spacing times the difference of the sines of its north and south edges; it is positive, and the cells of a grid that covers the globe add up to the surface of the sphere. Labelled input gives a labelled result on the same coordinates in m2.",
     "all grids, spacings, radii", "tests compare one total",
     ["util.py"], [("standard_grid_cell_area", "src/momlevel/util.py")], ("inputs",), "up to 6x6 free grids, 180x4 global grids")
prop("C25", "Locations map to the nearest usable model point",
     "Each location is mapped to the model point with the smallest great-circle distance among the points whose mask is one (all points when there is no mask or it is ignored), and the distance reported is the sphere radius times that angle; longitudes may use any convention. With a threshold exactly the locations whose distance does not exceed it are kept, in their order with their other columns, and a warning, when enabled, names exactly those that are dropped. The model and real coordinates and the grid indices reported are those of the chosen point and the location, under any column names.",
     "all point and location coordinates, thresholds, radii; masks", "tests check distances for one grid and one threshold",
     ["util.py"], [("geolocate_points", "src/momlevel/util.py")], ("inputs", "configurations"), "up to 6 model points and 3 locations, all positions free")
prop("C26", "Tide gauge extraction returns the series at the nearest wet cell",
     "For every gauge in the list (built-in or from a file) the extracted series is exactly the field at the nearest cell whose mask is one; cells with a missing mask count as land and gauges farther than the threshold are left out. Coordinates may be named, passed as arrays, or one-dimensional, and fields and masks may have any dimension order. Each series carries the gauge's name, the field's attributes and the distance; unknown coordinates, files and mask types are refused.",
     "all field values, cell positions, masks, thresholds", "tests sum the series of one regional grid",
     ["tidegauge.py", "util.py"], [("extract_tidegauge, extract_point", "src/momlevel/tidegauge.py"), ("tile_nominal_coords", "src/momlevel/util.py")], ("inputs", "configurations"), "up to 2x2 free cells, 3 gauges; the built-in lists on fixed cells")
prop("C27", "Validation accepts exactly the documented datasets",
     "A dataset is accepted exactly when all required variables are present with their number of dimensions (and, for a reference state, no time coordinate in any capitalisation) and its total area is within two per cent of the real ocean. When not strict an area outside that range only warns, while missing variables and wrong dimensions are still refused; variables requested in addition are required too. The sea level functions apply this rule before computing, and tide gauge inputs of the wrong kind are refused.",
     "all areas (any missing), tolerances, variable subsets, ranks", "tests try a few broken datasets",
     ["util.py", "steric.py"], [("validate_dataset, validate_areacello, validate_tidegauge_data", "src/momlevel/util.py")], ("inputs", "configurations"), "up to 12 cells; subsets of up to two absent variables")
prop("C28", "Inverse barometer height balances surface pressure",
     "The inverse barometer height is minus the surface pressure over gravity times the density of the surface water at that pressure, for any gravity, equation of state and dimension order, missing exactly where an input is. It is negative and falls by about one centimetre per hectopascal.",
     "all T, S, pressure, gravity", "tests compare one sum",
     ["dynamic.py"], [("inverse_barometer", "src/momlevel/dynamic.py")], ("inputs", "configurations"), "up to 48 points")
prop("C29", "No function modifies what it is given",
     "After any call, every dataset, array, table, list and mapping passed in has exactly the values, missing values, dimensions, names, coordinates, attributes and encodings it had before, including the attributes of its coordinates. The one exception is the utility whose purpose is to clear encodings.",
     "all data values and missing patterns, every public function", "tests look at results only, never at their inputs afterwards",
     ["steric.py", "reference.py", "derived.py", "trend.py", "util.py", "tidegauge.py", "dynamic.py"], [("copies", "src/momlevel/util.py geolocate_points; src/momlevel/trend.py deseason, linear_detrend; src/momlevel/derived.py adjust_negative_n2")], ("inputs", "histories"), "small arrays (up to 24 times), one or two calls per function")
prop("C30", "Results carry their names, units, storage type and coordinates",
     "A sea level result holds exactly the requested change and its companion (density change, or reference height) under their documented names and units, with the requested storage type and the input's coordinates with their attributes, time first, plus the reference state used. Every diagnostic carries its documented units. Reordering a dataset's variables or clearing encodings changes nothing but the order or the named encodings; an unknown variant or equation of state and a reference that is not a dataset are refused.",
     "all data; variants, domains, storage types", "tests look at sums and rarely at metadata",
     ["steric.py", "derived.py", "util.py"], [("steric", "src/momlevel/steric.py"), ("alphabetize_dataset, reset_encoding", "src/momlevel/util.py")], ("inputs", "configurations"), "up to 12 times, 3 levels")
prop("C31", "Chunked (lazy) input gives the results of the same data in memory",
     "Splitting the input arrays into chunks along any of the supported dimensions (time, horizontal, levels where no vertical derivative is taken) changes nothing in a result: sea level changes and their reference state, equation-of-state fields, stability, wave speed, vorticity, thickness, calendar averages and cycles, trends, detrended and seasonal series and extracted tide gauge series have the same values, missing values, dimension order, names, coordinates and attributes as for the same data held in memory.",
     "all data values and missing patterns; several chunk layouts per function", "tests chunk almost nothing, and only compare totals",
     ["steric.py", "reference.py", "derived.py", "trend.py", "util.py", "tidegauge.py", "eos/wright.py", "spice/flament.py"], [("map_blocks / apply_ufunc paths", "src/momlevel/derived.py; src/momlevel/trend.py"), ("annual_average, annual_cycle", "src/momlevel/util.py"), ("setup_reference_state", "src/momlevel/reference.py")], ("inputs", "configurations"), "up to 24 times, 3 levels, 2x2 columns; chunks of 1 to 7")
prop("C32", "Results depend on the arguments alone, not on earlier calls",
     "A call returns the same values, missing values, dimensions, names, coordinates, attributes and refusals whatever was called before it in the same process, with whatever other data, options, names, calendars, units, grids or files, and whatever the caller has since done to earlier results. No call changes process-wide settings (library options, floating point error handling, warning filters, environment, working directory, random state).",
     "all data values; listed sequences of calls forwards and backwards, one per family of functions", "each test starts from one call",
     ["steric.py", "reference.py", "derived.py", "trend.py", "util.py", "tidegauge.py", "dynamic.py"], [("module state", "src/momlevel/util.py; src/momlevel/trend.py; src/momlevel/derived.py")], ("histories", "inputs"), "sequences of 7 to 147 calls, up to 24 times, 3 levels, 2x2 columns")

TECH = "symbolic execution of the real functions over symbolic arrays, assertions decided by z3 (SMT) within stated bounds, counterexamples replayed on the unpatched code"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
    run = "/opt/venv/bin/python -W ignore /verif/check.py {} --tier {}"
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore -c \"import sys; sys.path.insert(0, '/verif'); import symlev.engine, symlev.solver; print('ok')\"",
         "checks": [{"property": p["id"], "quick_cmd": run.format(p["id"], "quick"), "thorough_cmd": run.format(p["id"], "thorough"), "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": "model_checking",
                     "level_note": f"Every value of the symbolic inputs within: {p['bound']}. Exact real arithmetic with a relative tolerance in place of floating point; array sizes bounded as stated; library calls (numpy, pandas, xgcm, scikit-learn) by their mathematical meaning, checked against the real ones on path witnesses."} for p in P],
         "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
