"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os
T, U, D = "trikit/triangle.py", "trikit/utils.py", "trikit/datasets/__init__.py"
B, M, S = "trikit/estimators/base.py", "trikit/estimators/mack.py", "trikit/estimators/bootstrap.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Incremental triangles hold exactly the recorded amounts",
  "An incremental triangle built by totri from tabular incremental data has one row per origin and one column per development period, both ascending, and each cell is the sum of every amount recorded for it, whatever the order of the records, the split of a cell over several records, the DataFrame's index, or the presence of other columns. Cells without a recorded amount, or whose amounts are all missing, stay empty (NaN). The only alteration is that a first-development-period cell whose total is zero or negative becomes 1.",
  ["inputs"], "every tabular data set: any row order, record splitting, index, extra columns, missing rows and NaN amounts, sign and magnitude of amounts",
  "The tests build triangles from seven tidy sample files, sorted and with one record per cell, and check sums.",
  [T], [("pivot of grouped records", T+":_BaseTriangle.__init__"), ("first period adjustment", T+":_neg_handler"), ("tabular path", T+":totri")],
  ["totri(...).values", "index/columns"])
p("C02", "Cumulative triangles are running totals with gaps carried forward",
  "A cumulative triangle's cell is the running total of its origin's incremental amounts up to that development period, with a first-period total that is zero or negative shown as 1. A cell with no recorded amount, in a development period already observed for the same or a later origin, repeats the preceding cell of its origin (or is 1 in the first period), so amounts recorded afterwards are neither lost nor double counted. Cells beyond the observed history of every later origin stay empty (NaN).",
  ["inputs"], "every tabular incremental data set, including gaps anywhere in the observed region, negative increments and non-positive first periods",
  "The sample files contain no gaps and arrive in cumulation order, so running totals over unordered or gapped data are never exercised.",
  [T], [("running total", T+":_BaseCumTriangle.__init__"), ("replacement of missing actuals", T+":totri")],
  ["totri(tri_type='cum').values"])
p("C03", "Equivalent inputs give identical triangles",
  "The same losses supplied to totri as tabular incremental, tabular cumulative, triangle-shaped incremental or triangle-shaped cumulative data, in any row or column order and under any field names (which are ignored for triangle-shaped data), give the same incremental triangle and the same cumulative triangle. This also holds when interior cells are missing and for string-typed development headers of triangle-shaped data.",
  ["inputs", "configurations"], "all combinations of data_shape, data_format, tri_type, field names, row/column orders, gap patterns",
  "The tests check only the type of the result and total amounts for the eight combinations on one sorted data set.",
  [T], [("shape and format dispatch", T+":totri")], ["totri(...)"])
p("C04", "Conversions between representations are inverse and conserve amounts",
  "Converting a cumulative triangle to incremental and back, an incremental triangle (whose observed first-period amounts are positive) to cumulative and back, or either to tabular form and back through totri reproduces the triangle; each origin's incremental amounts add up to its latest cumulative amount. Tabular form lists exactly the non-empty cells (or every cell when asked to keep empty ones) once each, ordered by origin then development period, under the triangle's field names.",
  ["inputs", "histories"], "all triangles and chains of to_incr / to_cum / to_tbl / totri conversions",
  "Tests assert only the returned types.",
  [T], [("conversions", T+":to_tbl, to_cum, to_incr")], ["to_tbl", "to_cum", "to_incr"])
p("C05", "Triangle geometry is reported consistently with its cells",
  "The number of cells, origins, development periods, last observed period per origin and last observed origin per period, maturity, the actual/forecast indicator, the latest amounts (jointly, by origin and by development period) and any diagonal of a triangle agree with its non-empty cells. A diagonal offset of k below zero selects, for each origin, the cell k development periods before its latest, and offsets reaching beyond the triangle raise ValueError.",
  ["inputs"], "every regular triangle of any size, labels (including uneven or zero-based periods) and type; last-observed positions and indicators also for non-square development histories",
  "Tests check checksums of these attributes for the 10x10 RAA triangle only.",
  [T], [("cached properties", T+":nbr_cells, triind, rlvi, clvi, latest, maturity, diagonal")],
  ["tri.latest", "tri.rlvi", "tri.clvi", "tri.triind", "tri.maturity", "tri.diagonal()"])
p("C06", "Link ratios and their averages follow their definitions and exclusions",
  "Each link ratio is the next cumulative amount divided by the current one, and the average labelled <type>-<k> (or all-<type>) for a development period is the simple, geometric, medial (all copies of the smallest and largest left out; two values averaged; a single or repeated value itself) or volume-weighted average over the k most recent origins (or all). A link ratio excluded through a2aind is left out of every average, including the volume-weighted one, re-including it restores the averages, and an average with nothing left is NaN rather than an error. Link ratios of zero or below count like any other (the geometric average is 0 with a zero, NaN with a negative among its values), undefined ones (between two amounts of zero) are not included.",
  ["inputs", "histories"], "all triangles, averages and sequences of exclusions and re-inclusions by tuple assignment or in place",
  "Tests compare a handful of averages on RAA; exclusions are never tested.",
  [T], [("averages", T+":a2a_avgs, _simple, _geometric, _medial"), ("exclusion table", T+":a2aind")],
  ["tri.a2a", "tri.a2aind", "tri.a2a_avgs()"])
p("C07", "Link ratio ranks and high/low assignment are order statistics",
  "For each development period the assignment table marks a link ratio +1, -1 or 0 when it is above, below or equal to that period's median, however small the difference. The rank table holds, for each pair of neighbouring periods, the (tie-averaged) ranks of the later period's ratios and of the earlier period's ratios restricted to the same origins.",
  ["inputs"], "all triangles, including ties and nearly equal link ratios",
  "Tests compare one triangle's tables with stored checksums; ties and near-ties never occur.",
  [T], [("assignment", T+":a2a_assignment"), ("ranks", T+":ranked_a2a")], ["tri.a2a_assignment", "tri.ranked_a2a"])
p("C08", "Estimates do not depend on labels or field names",
  "Renaming the fields of the input, shifting or respacing the origin labels, or respacing the development labels (zero-based, in months, unevenly spaced) changes only the labels of every estimator's output, not its numbers: base, Mack and (for a fixed seed) bootstrap estimates, triangle statistics and hypothesis tests are unchanged.",
  ["inputs", "configurations"], "all ascending integer relabelings and field names, all estimators and their options",
  "Only one estimator test uses labels other than 1..n, and field names are tested only for construction.",
  [T, B, M, S], [("label arithmetic for the tail period", B+":_ldfs"), ("tabular field names", T+":to_tbl, latest"), ("first period increments", S+":_bs_forecasts")],
  ["base_cl", "mack_cl", "boot_cl"])
p("C09", "Estimates scale with the currency unit",
  "Multiplying every amount by a positive constant (a change of currency or of units, e.g. thousands or billions) multiplies all amounts in the results by that constant and squared quantities by its square, and leaves factors, coefficients of variation, link ratio statistics, maturities and hypothesis test results unchanged, for the base and Mack estimators with every option and for the bootstrap's fitted triangles and scale parameter.",
  ["inputs", "configurations"], "all triangles and scale factors over many orders of magnitude, including reserves smaller than 1",
  "Tests use fixed data sets at their original scale.",
  [B, M, S], [("process error", M+":_process_error"), ("log-normal parameters", M+":__call__")],
  ["base_cl", "mack_cl", "boot_cl"])
p("C10", "Inputs supplied by the caller are never modified",
  "No operation modifies an object the caller supplied: the data given to totri, factor selections, quantile lists, the triangle on which an estimator, conversion, property or plot is called, or the styling arguments of plots. Results obtained earlier, including recorded simulations and reserve distributions, are likewise not altered by later calls.",
  ["histories", "inputs"], "all operations and sequences of operations",
  "No test compares an argument before and after a call.",
  [T, B, M, S], [("defensive copies", T+":totri"), ("selection handling", B+":__call__"), ("hist", S+":hist")],
  ["deep snapshots of arguments before and after every call"])
p("C11", "Answers do not depend on what was computed before",
  "Whatever properties, estimators, diagnostics, conversions or plots have been invoked on a triangle and in whatever order, each (further) request returns the same answer as on a freshly built triangle holding the same data; repeating a request returns the same answer. Changing link ratio exclusions takes effect on every later estimate and undoing the change restores the earlier answers.",
  ["histories"], "all sequences of accesses on one or several triangles alive at the same time",
  "Every test builds a new triangle and reads each attribute once.",
  [T, M, S], [("lazily cached properties", T+":_BaseTriangle, _BaseCumTriangle"), ("estimator caches", M+":mod_tri, mod_a2aind"), ("result caches", S+":origin_dist, residuals_detail")],
  ["recorded access logs"])
p("C12", "Base chain ladder summary obeys the chain ladder identities",
  "For any selected average and tail factor, the base chain ladder summary shows for each origin its maturity, its latest amount, the product of all selected factors from its maturity on including the tail, the reciprocal of that product as emergence, ultimate = latest x cumulative factor and reserve = ultimate - latest. The total row adds up latest, ultimate and reserve and shows no factor, the attributes of the result mirror the summary, and factors selected by name are that row of the table of averages. Where a selected average is undefined (NaN), so are the cumulative factors, ultimates and reserves it enters, and the total.",
  ["inputs", "configurations"], "all triangles, named averages and tail factors",
  "Tests check totals on one triangle with the default selection.",
  [B], [("summary assembly", B+":BaseChainLadder.__call__, _cldfs, _ultimates, _reserves")], ["base_cl().summary"])
p("C13", "The squared triangle projects every origin to ultimate",
  "The squared triangle of a base chain ladder result equals the observed triangle on observed cells, every later cell is the preceding cell of its origin times the selected factor, and its ultimate column is the last development period times the tail and equals the summary's ultimates. The Mack and bootstrap results' squared triangles obey the same rules with their own factors.",
  ["inputs", "configurations"], "all triangles, selections and tails, all estimators",
  "Tests never inspect the squared triangle.",
  [B], [("projection", B+":_trisqrd")], ["result.trisqrd"])
p("C14", "User-selected development factors are used as given",
  "A sequence of factors of length n-1 (list, tuple, array or Series, the latter matched by development period when labelled by them and by position otherwise) is used unchanged as the age-to-age factors, followed by the tail, whatever the triangle's own link ratios and exclusions; passing the same selection again gives the same result. A sequence of any other length raises ValueError.",
  ["inputs", "histories"], "all factor values, container types, index labelings and lengths",
  "One test passes one array of the correct length.",
  [B], [("selection coercion", B+":BaseChainLadder.__call__")], ["base_cl(sel=...)"])
p("C15", "Mack development parameters match their definitions for every alpha",
  "For alpha 0, 1 and 2 Mack's factors are the averages of link ratios weighted by the alpha-th power of the preceding amount (straight average, volume-weighted, regression through the origin) over the link ratios not excluded, sigma squared per period is the correspondingly weighted sum of squared deviations of the link ratios not excluded over the number of observed link ratios less one (excluded ones counted) with Mack's extrapolation for the final period, and the factor variances are sigma squared over the sum of weights. With alpha 1 the factors, cumulative factors, ultimates and reserves equal the base chain ladder with all-weighted selection, whatever the exclusions.",
  ["inputs", "configurations"], "all triangles with n >= 4, alphas and exclusions",
  "Tests compare checksums for alpha 1 on one triangle.",
  [M], [("factors", M+":_ldfs"), ("variances", M+":_devp_variance, _ldf_variance")], ["mack_cl().ldfs", "devpvar", "ldfvar"])
p("C16", "Mack prediction errors follow Mack's recursion and add up",
  "Each origin's process and parameter error follow the recursive formulae for the variance assumption implied by alpha, their sum is the mean squared error whose square root is the standard error, the total's mean squared error adds the covariance between origins, and cv = standard error / reserve (none for the fully developed oldest origin). Origins that are already fully developed, and periods whose link ratios show no variance, contribute zero without suppressing the others' errors.",
  ["inputs", "configurations"], "all triangles with n >= 4, every alpha",
  "Tests compare checksums for alpha 1 on one triangle.",
  [M], [("process error", M+":_process_error"), ("parameter error", M+":_parameter_error"), ("aggregate", M+":__call__")], ["mack_cl().summary", "process_error", "parameter_error"])
p("C17", "Mack quantiles come from the distribution with the estimated moments",
  "For the normal and log-normal choice, each origin's and the total's reserve distribution has mean equal to its reserve and standard deviation equal to its standard error, and every quantile shown in the summary or returned by get_quantiles is that distribution's quantile at the labelled probability, hence non-decreasing in the probability. An unknown distribution name raises ValueError.",
  ["inputs", "configurations"], "all triangles with positive reserves of any magnitude, alphas, distributions and sets of probabilities",
  "Tests check the sum of two quantiles on one triangle.",
  [M], [("distribution parameters", M+":__call__"), ("get_quantiles", M+":get_quantiles")], ["mack_cl().rvs", "summary", "get_quantiles"])
p("C18", "Development period correlation test is Mack's weighted Spearman test",
  "The statistic returned by devp_corr_test is the average of the Spearman rank correlations between neighbouring development periods' link ratios weighted by n-k-1, and its interval is symmetric about zero with half width z/sqrt((n-2)(n-3)/2), where z bounds the central normal interval of probability p. Independent of earlier calls, of the state of any random generator and of monotone changes that keep the ranks.",
  ["inputs", "configurations"], "all triangles with n >= 4 and p in (0,1)",
  "One reference value is tested.",
  [M, T], [("Spearman table", M+":_spearman_corr_coeffs, devp_corr_test"), ("ranks", T+":ranked_a2a")], ["devp_corr_test"])
p("C19", "Calendar year test is Mack's diagonal count test",
  "cy_effects_test counts on each diagonal of link ratios the ratios below and above their period's median, sums over the diagonals the smaller count, and returns it with the interval mean +- z*sqrt(variance), where mean and variance add Mack's expected value and variance per diagonal and z is the two-sided normal bound for significance p.",
  ["inputs", "configurations"], "all triangles with n >= 4 and p in (0,1), including ties with the median and uneven labels",
  "One reference value is tested.",
  [M, T], [("diagonal counts", M+":_cy_effects_table, cy_effects_test"), ("assignment", T+":a2a_assignment")], ["cy_effects_test"])
p("C20", "Bootstrap fit, residuals and scale follow the over-dispersed Poisson model",
  "The fitted cumulative triangle is the latest diagonal divided back by the all-year weighted factors, the fitted increments its differences, the unscaled residuals (actual - fitted)/sqrt(|fitted|), the scale parameter their sum of squares over the degrees of freedom, the adjusted residuals sqrt(cells/degrees of freedom) times the unscaled, and the sampling pool the non-zero adjusted residuals outside the last origin and last period; residual statistics are those of the residuals. The degrees of freedom are the number of observations less the number of parameters (one per origin and one per development factor).",
  ["inputs"], "all triangles, including negative increments and any labels",
  "Tests compare checksums on RAA; residual statistics are untested.",
  [S], [("fit and residuals", S+":_tri_fit_cum, _resid_us, _resid_adj, _scale_param, _sampling_dist, dof"), ("statistics", S+":residuals_detail")], ["boot_cl() attributes"])
p("C21", "Every bootstrap replicate is a valid resampled and re-projected triangle",
  "In the recorded simulations each replicate covers every origin and development period exactly once; observed cells are fitted + residual x sqrt(|fitted|) with the residual taken from the sampling pool (all members equally likely and independently), cumulated per origin; the replicate's factors are the all-year weighted factors of that pseudo triangle, future cells are its latest amounts times those factors, and ultimates and reserves accumulate the final increments. Nothing in a replicate depends on another replicate.",
  ["inputs", "histories", "configurations"], "all triangles, numbers of simulations, seeds, parametric or not",
  "Tests compare sums over one seeded run with stored values.",
  [S], [("resampling", S+":_bs_samples"), ("refit", S+":_bs_ldfs, _bs_forecasts"), ("reserves", S+":_bs_reserves")], ["boot_cl().sims_data", "boot_cl().reserve_dist"])
p("C22", "Bootstrap process error has the stated gamma distribution",
  "Each future increment of a replicate is drawn from a gamma distribution with mean |projected increment| and variance |projected increment| x scale parameter, carrying the projected increment's sign; draws are independent across cells and replicates, and observed cells receive no process error. Parametric residuals are normal with mean zero and the sampling pool's standard deviation.",
  ["inputs", "configurations"], "all triangles and seeds, distributional statement over the simulated cells",
  "The only distributional evidence in the tests is a stored sum of one seeded run.",
  [S], [("process error", S+":_bs_process_error"), ("parametric residuals", S+":_bs_samples")], ["boot_cl().sims_data"])
p("C23", "Bootstrap summary and quantiles are those of the recorded distribution",
  "The recorded reserve distribution holds one row per simulation for each origin and one for the total, which is the sum over origins. Summary ultimates are means of the simulated ultimates (the oldest origin's its latest amount), reserve = ultimate - latest, standard errors are sample standard deviations of simulated reserves by origin and for the total, and every quantile in the summary or from get_quantiles (any interpolation, optional lower bound) is the empirical quantile of the recorded reserves.",
  ["inputs", "configurations"], "all triangles, numbers of simulations, probabilities, interpolations and lower bounds",
  "Tests check a few sums for the default settings.",
  [S], [("summary", S+":BootstrapChainLadder.__call__"), ("get_quantiles", S+":get_quantiles")], ["boot_cl().summary", "reserve_dist", "origin_dist", "get_quantiles"])
p("C24", "Bootstrap randomness is governed solely by random_state",
  "The same data, options and integer seed (Python or numpy) give identical simulations whatever happened before, different seeds give different simulations, a RandomState in a given state gives identical simulations and is advanced, and without random_state the draws come from numpy's global generator, so numpy.random.seed makes them reproducible. Seeding does not touch the global generator.",
  ["histories", "configurations"], "all seeds, random states, interleavings with other random number use",
  "Tests use one integer seed.",
  [S], [("generator selection", S+":_bs_samples, _bs_process_error")], ["boot_cl(random_state=...)"])
p("C25", "Quantile arguments are validated, ordered and labelled uniformly",
  "Wherever quantiles are requested, a scalar or any sequence of probabilities in [0, 1] is accepted and yields one column per distinct probability in ascending order, labelled by its percentage (e.g. 75% / 97.5% in summaries, 75th / 1st / 11th / 97.5th from get_quantiles); with two_sided each probability q gives the pair (1-q)/2 and (1+q)/2. Any probability outside [0, 1] raises ValueError.",
  ["inputs", "configurations"], "all scalars and sequences of probabilities, for Mack and bootstrap",
  "Tests use only the default probabilities.",
  [B, M, S], [("formatting", B+":_qtls_formatter"), ("requests", M+":get_quantiles"), ("requests", S+":get_quantiles")], ["summary columns", "get_quantiles columns"])
p("C26", "Sample data sets load completely and unaltered",
  "Every name listed by get_datasets loads as the origin, dev and value records of the packaged file, or as the incremental or cumulative triangle of those records when a triangle type is given. Unknown names raise KeyError and unknown triangle types ValueError, and each load returns an independent copy.",
  ["inputs", "histories"], "all names, triangle types and repeated loads",
  "Tests check sums of the values for each data set.",
  [U, D], [("loader", U+":_load, _get_datasets"), ("registry", D+":dataref")], ["load", "get_datasets"])
p("C27", "Loss reserving database queries return exactly the matching losses",
  "load_lrdb returns precisely the records matching the requested line of business, company code, company name (None meaning all) and, by default, only the training half, with the paid or incurred amounts as asked, and as a triangle the sum of those records per cell. Filters matching nothing and invalid loss or triangle types raise ValueError, and the lists of lines and companies are the distinct ones of the database, sorted.",
  ["inputs", "configurations"], "all databases of the documented layout and all filter combinations",
  "The tests use a few combinations and need a file that is not shipped here.",
  [U], [("filters", U+":_load_lrdb"), ("listings", U+":_get_lrdb_lobs, _get_lrdb_specs")], ["load_lrdb", "get_lrdb_lobs", "get_lrdb_specs"])
p("C28", "Development plots draw exactly the triangle and the projections",
  "The combined and faceted triangle plots draw one line per origin through exactly its observed cumulative amounts, and the base chain ladder plot draws per origin the actual amounts and, from the latest one on, the projected amounts up to and including the ultimate, and in total the sums of those projections by development period, each facet carrying its own origin's data and label. Axis limits accommodate any positive amounts.",
  ["inputs", "configurations"], "all triangles, magnitudes, labels and field names, styling options",
  "Plots are not tested at all.",
  [T, B], [("triangle plots", T+":_combined_view, _faceted_view"), ("base plot", B+":plot, _data_transform, _get_yticks")], ["figure artists"])
p("C29", "Mack exhibits draw the estimated distributions, paths and residuals",
  "The Mack plot shows for every origin with an uncertain reserve and for the total the density of its estimated reserve distribution, marked at its mean and requested quantiles with matching labels, in the facet labelled with that origin. The diagnostics show the total reserve's density and mean, each origin's path to ultimate, and the standardized residuals (fitted - actual, scaled by their root mean square within the group) by development period and by origin.",
  ["inputs", "configurations"], "all triangles with n >= 4, distributions, quantiles, alphas",
  "Plots are not tested at all.",
  [M], [("plot", M+":plot, _mack_data_transform"), ("diagnostics", M+":diagnostics, _residuals_by_devp, _residuals_by_origin")], ["figure artists"])
p("C30", "Bootstrap exhibits draw the recorded simulations",
  "The bootstrap plot draws, per origin, the actual amounts, the projected amounts and the lower and upper quantile of the simulated cumulative amounts by development period for the requested two-sided interval; the histograms count every simulated reserve of each origin and of the total and mark its median (not below zero).",
  ["inputs", "configurations"], "all triangles, seeds and interval probabilities",
  "Plots are not tested at all.",
  [S], [("plot", S+":plot, _bs_data_transform, _get_quantiles_by_devp"), ("hist", S+":hist")], ["figure artists"])
p("C31", "Printed triangles and summaries show the stored numbers",
  "The printed form of a triangle shows every origin, development period and cell, and that of a result every row and column of its summary, with amounts rounded to whole units with thousands separators, factors and emergence to five decimals and coefficients of variation to three; printing changes nothing.",
  ["inputs", "configurations"], "all triangles and results of all estimators and options",
  "Printing is not tested.",
  [T, B, M, S], [("formatters", T+":__str__, __repr__"), ("formatters", B+":BaseChainLadderResult.__str__"), ], ["str()", "repr()"])
p("C32", "Triangles behave as DataFrames of their cells",
  "A triangle is a DataFrame: selection, arithmetic, reductions, reshaping, grouping, joins and input/output give what the same operation gives on a plain DataFrame of the same cells and labels, and neither they nor writing to their results alter the triangle. A pickled triangle comes back as the same kind of triangle with the same cells, exclusions and answers.",
  ["inputs", "histories"], "all triangles and all sequences of DataFrame operations",
  "Tests use triangles only through trikit's own methods.",
  [T], [("inheritance", T+":_BaseTriangle"), ("pickling", T+":_metadata")], ["DataFrame methods of a triangle", "pickle", "to_pickle"])
p("C33", "Exhibits are shown or written as asked, in the requested style",
  "Every exhibit is displayed exactly once when no path is given, and otherwise written to that path in the format of its extension without being displayed. Requested colours, axes styles, contexts, numbers of columns, hue_kws and keyword overrides are applied to what they document and change nothing that is drawn from the data; hue_kws of the wrong length are ignored with a warning. No style is left behind for later figures, and figures the caller has open stay open and unaltered.",
  ["inputs", "configurations", "histories"], "all exhibits, triangles, styling options, paths and sequences of exhibits",
  "Plots are not tested at all.",
  [T, B, M, S], [("triangle plots", T+":_combined_view, _faceted_view"), ("base plot", B+":plot"), ("Mack exhibits", M+":plot, diagnostics"), ("bootstrap exhibits", S+":plot, hist")],
  ["figure artists", "files written", "plt.show", "warnings"])
p("C34", "Results report what was asked and computed, consistently across estimators",
  "A result carries its triangle, the options it was requested with (sel, tail, alpha, dist, sims, q, procdist, parametric, interpolation) or their defaults, and its components labelled by the triangle's periods; attributes equal the summary's columns, mse is the squared standard error, and sel equals the factors for overrides. Factors, latest amounts and projections agree between estimators using the same averages, whatever other results exist, and a pickled result reports the same.",
  ["inputs", "configurations", "histories"], "all triangles, estimators, options and sets of results held at once",
  "Tests look at one result with default options at a time and check sums.",
  [B, M, S], [("containers", B+":BaseChainLadderResult, BaseRangeEstimatorResult"), ("containers", M+":MackChainLadderResult"), ("containers", S+":BootstrapChainLadderResult")],
  ["attributes of results"])
p("C35", "Invalid requests are refused and leave everything as it was",
  "Data that is not a DataFrame or lacks a named field, unknown data shapes, data formats and triangle types, unknown averages (KeyError), factor sequences of the wrong length, unknown distributions, process distributions and interpolation rules, diagonal offsets beyond the triangle, exclusions of link ratios that do not exist or with values other than 0 and 1, probabilities outside [0, 1] (ValueError), unknown data sets (KeyError), the bootstrap where a period's development factor is undefined (ValueError) and the unavailable GLM estimator (NotImplementedError) raise instead of yielding a result, and after the refusal the triangle, the data and earlier results are unchanged and later valid requests are answered as if nothing had happened.",
  ["inputs", "configurations", "histories"], "all invalid values of each argument, interleaved with valid requests",
  "Almost no test makes an invalid request.",
  [T, B, M, S, U], [("validation", T+":_validate, totri, diagonal, glm"), ("selection", B+":BaseChainLadder.__call__"), ("distributions", M+":MackChainLadder.__call__"), ("process distribution", S+":_bs_process_error"), ("quantiles", B+":_qtls_formatter")],
  ["exceptions raised", "state of triangle, data and results"])
p("C36", "Analyses of different triangles may run concurrently",
  "Building, excluding, estimating, testing, simulating (with an integer seed), printing and loading in several threads at once, each with its own triangle, possibly built from the same DataFrame, give every thread the answers it gets alone, under every interleaving of the threads.",
  ["inputs", "schedules", "histories"], "all interleavings of analyses of different triangles in threads",
  "The tests are single threaded.",
  [T, B, M, S, U], [("per-object state", T+":_BaseTriangle.__init__"), ("estimators", B+":BaseChainLadder"), ("estimators", S+":BootstrapChainLadder")],
  ["answers in each thread"])
p("C37", "The representation of numbers in the caller's data makes no difference",
  "Amounts held as floats, integers of any width, nullable, decimal or object values, whole-number labels held as integers, floats, nullable or object values, and frames with named or multi-level indices, further columns, read-only storage or a DataFrame subclass give the same triangle of floats and the same answers as plain integers and floats.",
  ["inputs", "configurations"], "all numeric representations of the same labels and amounts, in all shapes and formats",
  "The sample data sets have one representation.",
  [T], [("construction", T+":_BaseTriangle.__init__, _BaseCumTriangle.__init__"), ("tabular and triangle paths", T+":totri"), ("averages by position", T+":a2a_avgs")],
  ["totri", "answers of the triangle"])
p("C38", "Run-off shapes: every origin is estimated from its own maturity, or refused",
  "For histories whose origins stand at any maturities that do not increase from older to younger (more origins than periods, several periods per origin, young origins beyond the first period, rectangles, origins lacking their latest amounts), each average is taken over the origins that reached the next period, base_cl projects every origin from its own maturity with the remaining factors and the tail, boot_cl refits, resamples, redevelops and projects every origin of every replicate from its own maturity and gives fully developed origins no reserve and no error, and mack_cl, whose recursion needs a complete latest diagonal, raises ValueError.",
  ["inputs", "configurations"], "all histories with non-increasing maturities whose oldest origin reaches the last period, all averages, overrides, tails, exclusions and seeds",
  "All tests and sample data sets are complete square run-off triangles.",
  [T, B, M, S], [("averages", T+":a2a_avgs"), ("projection", B+":BaseChainLadder._ultimates, _trisqrd"), ("refusal", M+":MackChainLadder.__call__"), ("replicates", S+":_bs_ldfs, _bs_forecasts, __call__")],
  ["a2a_avgs", "base_cl", "boot_cl", "mack_cl"])
p("C39", "Exhibits of any run-off shape draw each origin from its own maturity",
  "For histories whose origins stand at any non-increasing maturities, the triangle plots draw each origin's observed amounts, the base and bootstrap plots its observed amounts up to its maturity and its projection from there to the ultimate, the total projection adds the origins' projections, the bootstrap bands and histograms show the quantiles and counts of the recorded simulations of that origin.",
  ["inputs", "configurations"], "all histories with non-increasing maturities, factors, tails, seeds, intervals and bin counts",
  "Plots are not tested at all and all sample data sets are complete square run-off triangles.",
  [T, B, S], [("triangle plots", T+":_combined_view, _faceted_view"), ("base plot", B+":BaseChainLadderResult.plot"), ("bootstrap exhibits", S+":plot, hist")],
  ["figure artists"])
p("C40", "Settings of the process neither change answers nor are changed by requests",
  "Triangles, answers, refusals and the data drawn by exhibits do not depend on pandas' options for copying (copy-on-write), chained assignment and display, on ignored or warned floating point conditions, numpy's print options, the state of its global generator, the decimal context, warning filters, matplotlib settings, working directory, locale, time zone, environment or the interpreter's optimisation; and importing the library, constructing, estimating, testing, simulating with a seed, printing, loading and refusing leave all of these, the random generators, the interpreter's hooks, open files and figures and the files of the working directory as they were (exhibits may set matplotlib's settings; the development period correlation test draws from numpy's generator).",
  ["inputs", "configurations", "histories"], "all settings under which pandas and numpy do not turn conditions into exceptions, all triangles and requests",
  "Tests run under default settings and never look at them afterwards.",
  [T, B, M, S, U], [("tables modified in place", S+":_bs_reserves, _bs_data_transform"), ("floating point conditions", T+":a2a"), ("floating point conditions", M+":MackChainLadder"), ("warning filters", B+":plot")],
  ["answers", "pandas options", "numpy settings and generator", "warnings.filters", "process state"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
