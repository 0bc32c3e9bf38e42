"""Writes properties.jsonl and MANIFEST.json.  Run from /verif: python3 tools/mkdocs.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


N, A, F, D, S = ['rdtools/%s.py' % x for x in
                 ('normalization', 'aggregation', 'filtering', 'degradation', 'soiling')]
C, B, AV, CT, PL, U = ['rdtools/%s.py' % x for x in
                       ('analysis_chains', 'bootstrap', 'availability', 'clearsky_temperature',
                        'plotting', 'utilities')]

prop('C01', 'Energy from power is exactly the integral of the measured power',
     'energy_from_power assigns to each (right-labelled) interval exactly the integral of the power '
     'over that interval: held constant back to the previous valid sample for right-labelled power, '
     'linear between samples for instantaneous power, whatever the target frequency (equal, '
     'coarser, calendar months; for a target frequency not coarser than the sampling the power is first interpolated onto '
     'the target grid). Nothing is invented: a step between valid samples longer than '
     'max_timedelta (default: the median time step) contributes nothing, nor does any time before the '
     'first or after the last valid sample; an interval in which nothing is known, or whose end falls '
     'into a hole of the time index longer than max_timedelta, is NaN, and an interval fully covered by '
     'short steps never is. The energies of consecutive covered intervals therefore add up to the '
     'integral over their union.',
     ['inputs', 'configurations'],
     'for every finite power series (any sampling, NaN, gaps, zone), target frequency, '
     'max_timedelta and power type',
     'tests integrate a handful of short series with one gap each; the combination of irregular '
     'sampling, gap position, gap limit, target frequency and time zone is unbounded',
     [N], [('energy_from_power', N), ('_aggregate / _interpolate_series helpers', N),
           ('trapz_aggregate', N)],
     ['return value of rdtools.energy_from_power'])
prop('C02', 'Interpolation never invents data across long gaps or beyond the data',
     'interpolate returns, at every requested timestamp, the straight line between the two valid '
     'neighbouring samples, and exactly the sample value on a sample. It is NaN when the gap '
     'between those neighbours exceeds max_timedelta (default: twice the median valid step) or when '
     'the timestamp is outside the valid data, and only then. Every column of a frame is '
     'interpolated as it would be alone, and the requested index comes back unchanged.',
     ['inputs'],
     'for every sorted series or frame, target index or frequency, max_timedelta and time zone',
     'tests use a few fixed series with one or two gaps; positions of NaN, of targets on and near '
     'samples, and mixed frames are not sampled',
     [N], [('interpolate', N), ('_interpolate_series', N)],
     ['return value of rdtools.interpolate'])
prop('C03', 'Normalized energy is measured energy over modelled energy, interval by interval',
     'normalize_with_expected_power and normalize_with_pvwatts return, for each interval, measured '
     'energy divided by the energy the model predicts for the same interval, together with the '
     'insolation of that interval, on the frequency of the measured series. The PVWatts model is '
     'rated power x POA/reference x (1 + gamma x (Tcell - Tref)), the temperature term present only '
     'when a coefficient is given. Model data coarser than the measurement is interpolated to it '
     'first; an interval with missing energy, model or zero model energy never becomes a finite '
     'number.',
     ['inputs', 'configurations'],
     'for every regular pv power or energy series and model series on the same, finer, coarser, '
     'irregular or partially overlapping index',
     'tests use constant series on two or three grids',
     [N], [('normalize_with_expected_power', N), ('normalize_with_pvwatts', N),
           ('pvwatts_dc_power', N), ('check_series_frequency', N)],
     ['return values of the normalize_* functions'])
prop('C04', 'Clear-sky rescaling is one least-squares factor, and it settles',
     'irradiance_rescale returns the modelled irradiance multiplied by one common positive factor. '
     'With the iterative method the factor is the least-squares factor over the points '
     'measured above 200 W/m2 whose clear-sky index it puts between 0.8 and 1.2 (a fixed point to the '
     'stated tolerance, whatever the starting guess), and failure to settle within max_iterations '
     'raises a ConvergenceError (with max_iterations=0 only a model that is already on scale is accepted, '
     'as it is); the single_opt method returns a least-squares optimum over its own '
     'selection.',
     ['inputs', 'configurations'],
     'for every pair of measured / modelled irradiance series with NaN, clouds, offsets and any '
     'max_iterations, convergence_threshold, csi limits',
     'tests rescale one noisy copy of a signal by a constant',
     [N], [('irradiance_rescale', N)], ['return value of rdtools.irradiance_rescale'])
prop('C05', 'Aggregation is the insolation-weighted mean of the valid points of each bin',
     'aggregation_insol returns, for every calendar bin of the data span, the mean of the normalized '
     'energy of the points in that bin weighted by their insolation; a point with missing energy or '
     'missing insolation counts neither in the numerator nor in the weights, and a bin without '
     'positive weight is NaN. Each point belongs to exactly one bin, days being local calendar days '
     'including across daylight-saving changes. The robust statistics helpers ignore missing and '
     'near-zero values in the same spirit.',
     ['inputs'],
     'for every irregular normalized energy / insolation pair, aggregation frequency and zone',
     'one test with four points and no missing values',
     [A, U], [('aggregation_insol', A), ('robust_quantile/median/mean', U)],
     ['return value of rdtools.aggregation_insol'])
prop('C06', 'Year-on-year degradation is the median of all slopes one calendar year apart',
     'degradation_year_on_year pairs every point with the closest point at or up to 8 days before one calendar '
     'year earlier, computes the slope in percent per 365 days of the (optionally first-year-median '
     'renormalized) values, and returns the median of those slopes; the reported slopes, usage '
     'counts per point and renormalizing factor agree with that pairing. The result does not depend '
     'on row order, does not change when the series is multiplied by a positive constant (recentred), '
     'and recovers an exact linear trend. Data shorter than two years, or without a usable pair, is '
     'refused with a ValueError.',
     ['inputs', 'configurations'],
     'for every series with unique timestamps: daily, weekly, monthly, irregular, holes, NaN, leap '
     'years, zones',
     'tests use one synthetic exponential trend per frequency without holes or NaN',
     [D], [('degradation_year_on_year', D)], ['return value and calc_info'])
prop('C07', 'Degradation uncertainty comes from resampling the reported slopes',
     'The simple method reports percentiles of medians of samples drawn with replacement from the '
     'year-on-year slopes: the confidence interval, exceedance level and probability statements are '
     'those of that distribution, at the level asked for. The circular_block method resamples the '
     'time series in circular blocks of its residuals around its own year-on-year trend line, '
     'reapplies them to that trend, and reports percentiles of the degradation rates of the '
     'resampled series; intervals are ordered, nested in confidence level, and contain the point '
     'distribution median.',
     ['inputs', 'configurations', 'histories'],
     'for every series, confidence level, exceedance probability, number of bootstrap repetitions '
     'and block length, under every random stream',
     'tests compare one seed against one stored interval',
     [D, B], [('degradation_year_on_year uncertainty', D),
              ('_make_time_series_bootstrap_samples', B), ('_construct_confidence_intervals', B)],
     ['returned intervals and exceedance levels'])
prop('C08', 'OLS and classical-decomposition rates are the stated regressions',
     'degradation_ols returns 100 x slope/intercept per year of the ordinary least-squares line '
     'through the data (missing values ignored) with a confidence interval from the propagated '
     'parameter covariance at the requested level. degradation_classical_decomposition does the same '
     'on the 12-month centred moving average and reports the seasonal component and the Mann-Kendall '
     'verdict (with tie correction) of that trend. Irregular data is refused where the method needs '
     'regular data.',
     ['inputs', 'configurations'],
     'for every series with at least the required length, missing values and any confidence level',
     'tests check the trend of one clean synthetic series and never the interval',
     [D], [('degradation_ols', D), ('degradation_classical_decomposition', D),
           ('_mk_test', D), ('_degradation_CI', D)],
     ['return values and calc_info'])
prop('C09', 'Pointwise filters keep exactly the points inside their stated limits',
     'normalized_filter, poa_filter, tcell_filter, csi_filter, quantile_clip_filter, '
     'insolation_filter and hour_angle_filter return a boolean mask on the index of their input that is True '
     'exactly for the points whose value (or clear-sky index, quantile rank, solar hour angle) lies '
     'inside the stated limits, with the documented strictness at the limits. Missing values are '
     'never kept and never raise. The hour angle decision depends on the instant and the place, not '
     'on the time zone the index is expressed in.',
     ['inputs', 'configurations'],
     'for every input series (any index, NaN, infinities, values on the limits) and limits',
     'tests use three to five points per filter',
     [F], [('filter functions', F)], ['returned masks'])
prop('C10', 'Window filters flag exactly the outliers of their own window rule',
     'two_way_window_filter drops a point iff it is farther than outlier_threshold (relative to the '
     '99th percentile) from both the backward and the forward window median, a window with fewer '
     'than five values never condemning it. hampel_filter drops a point iff it is farther than '
     't0 scaled median deviations from its centred window median. directional_tukey_filter keeps a '
     'point iff its deviation from the forward or from the backward window median (of at least five '
     'values) lies inside the Tukey fences, with factor k, of those deviations. Apart from these '
     'record-wide scales (99th percentile, fences) the decision about a point '
     'depends only on values and time distances inside its window.',
     ['inputs', 'configurations'],
     'for every aggregated series (regular or not, holes, NaN, plateaus), window and threshold',
     'tests run each filter on one short series',
     [F], [('two_way_window_filter', F), ('hampel_filter', F), ('directional_tukey_filter', F)],
     ['returned masks'])
prop('C11', 'Clipping filters mark exactly the points their published rule calls clipped',
     'logic_clip_filter and xgboost_clip_filter return a boolean mask on the index they were given '
     'that is False exactly on the points that their published per-day rules (flat tops against the '
     'day\'s own level; the shipped classifier plus the day\'s own clipping range) identify as '
     'clipping, for fixed and tracking systems and any sampling. What happens on one day changes '
     'the verdict on others only through the record-wide levels of the rule (scaling, overall clipping level), multiplying the power by a positive constant changes '
     'nothing, and unusable input (unsorted, too short, unknown mounting) is refused.',
     ['inputs', 'configurations'],
     'for every sorted power series with gaps, missing values, clouds, frozen values, any sampling '
     'interval and mounting type',
     'tests use two or three hand-made series per branch',
     [F], [('logic_clip_filter', F), ('xgboost_clip_filter', F),
           ('_calculate_xgboost_model_features', F), ('_calculate_max_rolling_range', F)],
     ['returned masks'])
prop('C12', 'Clear-sky filtering is the Reno-Hansen test with the stated parameters',
     'The clear-sky filter answers, for every timestamp of either irradiance series, what the '
     'Reno-Hansen detection answers with the documented default, the caller\'s, or (with lookup on '
     'and a known sampling interval) the published interval-dependent parameters interpolated '
     'between 1, 5, 15 and 30 minutes and held constant outside. With model csi it answers the '
     'clear-sky-index rule, and any other model name is refused.',
     ['inputs', 'configurations'],
     'for every pair of measured and clear-sky irradiance on regular grids, sampling interval and '
     'parameter set',
     'tests check that two thresholds give different masks on one day',
     [F], [('clearsky_filter', F), ('pvlib_clearsky_filter', F)], ['returned masks'])
prop('C13', 'The sensor workflow equals its published steps applied one after another',
     'After TrendAnalysis.sensor_analysis the filters, filter components, aggregated performance, '
     'aggregated insolation and results are what one gets by applying the public steps in the '
     'documented order to the inputs: align every input to the pv index, integrate, normalize '
     '(PVWatts with measured or modelled cell temperature, or expected power), keep the points every '
     'configured filter accepts, aggregate by insolation, keep the bins every configured aggregate '
     'filter accepts, then degradation and/or soiling. Each filter is applied iff it is configured, '
     'with exactly the configured parameters; a missing prerequisite or less than two years of data '
     'after filtering is refused with an error instead of a result.',
     ['inputs', 'configurations'],
     'for every combination of inputs, sampling, gaps, filters and their parameters, ad-hoc masks, '
     'aggregation frequency and requested analyses',
     'tests run about ten configurations on one synthetic year of clean data',
     [C], [('TrendAnalysis.__init__', C), ('_sensor_preprocess', C), ('_filter', C),
           ('_aggregated_filter', C), ('_aggregate', C), ('_pvwatts_norm', C)],
     ['attributes of TrendAnalysis and its results'])
prop('C14', 'The clear-sky workflow equals its published steps applied one after another',
     'After TrendAnalysis.set_clearsky and clearsky_analysis the result is what the documented steps '
     'give: modelled clear-sky irradiance is the average of the one-minute model over each interval '
     'at the given place and orientation, rescaled to the measurement; cell temperature follows from '
     'it and the clear-sky ambient temperature without wind; energy is normalized with these, '
     'filtered with the clear-sky filter and the other configured filters, aggregated and analysed. '
     'Quantities the user supplies are used instead of modelled ones. The clear-sky and sensor '
     'workflows on one object do not disturb each other\'s results, in either order, nor on '
     'repetition.',
     ['inputs', 'configurations', 'histories'],
     'for every place, orientation, supplied or modelled quantity, filter configuration and order of '
     'analyses on one object',
     'tests run one or two fixed configurations; the bundled temperature map is absent so modelled '
     'ones cannot even run',
     [C, CT], [('set_clearsky', C), ('_calc_clearsky_poa', C), ('_clearsky_preprocess', C),
               ('_filter', C)],
     ['attributes of TrendAnalysis and its results'])
prop('C15', 'Filter configuration only ever holds valid filter names',
     'Whatever sequence of operations a user performs on the filter configuration of a TrendAnalysis '
     '(assigning, updating, setting defaults, merging, deleting, copying, pickling), it never comes '
     'to contain a name that is not a valid filter: the offending operation raises KeyError and '
     'leaves the configuration as it was. Operations with valid names behave as on an ordinary '
     'dictionary, and configurations of different objects never affect one another.',
     ['histories'],
     'for every finite sequence of dictionary operations, on either configuration, and of whole '
     'replacements',
     'tests try one valid and one invalid assignment and update',
     [C], [('ValidatedFilterDict', C), ('filter_params setters', C)],
     ['contents of filter_params / filter_params_aggregated after each operation'])
prop('C16', 'SRR partitions the record into soiling intervals by its stated criteria',
     'The soiling intervals reported by SRR are consecutive and cover every day between the first and '
     'last valid day (less the first and last interval when trimming), with a new interval starting '
     'exactly at the cleaning events defined by the chosen criterion (upward shifts of the rolling '
     'median beyond the threshold, precipitation, their conjunction within one day, or either) and at both ends '
     'of long outages. An interval is valid iff it is longer than the minimum, its Theil-Sen slope is '
     'not positive and has small enough relative error, and no downward step exceeds the limit; its rate, '
     'confidence bounds and start/end levels are those of the Theil-Sen fit, and invalid intervals have '
     'rate zero. When no interval is valid a NoValidIntervalError is raised.',
     ['inputs', 'configurations'],
     'for every daily performance series with noise, steps, gaps and precipitation, and every '
     'parameter combination',
     'tests compare numbers of one 75-day series',
     [S], [('SRRAnalysis._calc_daily_df', S), ('SRRAnalysis._calc_result_df', S)],
     ['calc_info of soiling_srr'])
prop('C17', 'SRR Monte Carlo profiles obey the chosen cleaning assumption',
     'Every stochastic soiling profile is, on each valid interval, a straight line whose slope is '
     'drawn from that interval\'s confidence range and which starts at 1 (perfect_clean), uniformly '
     'between the previous end and 1 (random_clean) or half-normally below 1 with the inferred '
     'recovery at three sigma (half_norm_clean); on invalid intervals it is a constant between the '
     'preceding end and the following start (1 for perfect_clean). The reported soiling ratio, confidence interval and '
     'exceedance level are the matching percentiles of the insolation-weighted means of exactly '
     'these profiles.',
     ['inputs', 'configurations', 'histories'],
     'for every interval structure (any number and arrangement of valid and invalid intervals), '
     'cleaning assumption, number of repetitions, level and random stream',
     'tests compare percentiles for one seed and one interval structure with three intervals',
     [S], [('SRRAnalysis._calc_monte', S), ('SRRAnalysis.run', S)],
     ['stochastic_soiling_profiles and returned numbers'])
prop('C18', 'Annual soiling ratios and monthly soiling rates summarize what SRR reported',
     'annual_soiling_ratios returns, for each calendar year present, the median and confidence '
     'bounds over realizations of the insolation-weighted mean of the profile in that year. '
     'monthly_soiling_rates returns, for every calendar month, the median and confidence bounds of '
     'rates drawn uniformly from the confidence ranges of the eligible intervals (valid, long '
     'enough, small enough relative error) in proportion to their days in that month, and how many '
     'intervals contributed; months without any are NaN with count 0.',
     ['inputs', 'configurations'],
     'for every list of profiles, insolation series, interval summary and confidence level',
     'tests check one fixed two-year example each',
     [S], [('annual_soiling_ratios', S), ('monthly_soiling_rates', S), ('_count_month_days', S)],
     ['returned data frames'])
prop('C19', 'CODS decomposes the signal consistently and quantifies it consistently',
     'The components returned by a combined degradation and soiling decomposition multiply, with the '
     'residual shift, to the reported model on every day; the soiling ratio does not exceed 1 (unless clipping is off), the '
     'seasonal component repeats every year, and the degradation trend is the straight line of the '
     'reported rate starting at 1. Soiling loss, error and residuals are those of the returned components. '
     'The components are those of the published iteration for the given component order and parameters: cleaning events from '
     'steps of the rolling median of signal and residuals, soiling from a Kalman filter smoothed between them with pruning of false events, '
     'season from STL, trend from year-on-year, first assuming perfect cleaning and then not, until the error stops improving. '
     'The bootstrap fits every combination of the given alternatives, resamples each stationary fit equally often with '
     'perturbed season and parameters drawn between the ends of the alternatives, and reports the soiling ratio of the best initial fit, '
     'and weighted means and ordered percentiles of the accepted bootstrap fits, in percent, also when some fits are unusable or the '
     'soiling signal is small. Known synthetic decompositions are recovered.',
     ['inputs', 'configurations'],
     'for every daily performance series of two years or more with soiling, season, degradation, '
     'noise and missing days, and component order',
     'tests compare stored numbers of one noisy series',
     [S], [('CODSAnalysis.iterative_signal_decomposition', S), ('CODSAnalysis.run_bootstrap', S),
           ('soiling_cods', S)],
     ['result data frames and returned tuples'])
prop('C20', 'Subsystem outage loss is inferred from peers and never exceeds what is possible',
     'For every timestamp the subsystem loss of an availability analysis is zero when every subsystem '
     'is online or the system power shows no shortfall against the online peers scaled by their '
     'relative sizes, and otherwise is the power the offline share would have produced: between zero '
     'and that share, and never lifting the system above a given power limit. Subsystems online are '
     'those above the low threshold; relative sizes are the given ones or the medians against the mean of the '
     'reporting subsystems.',
     ['inputs', 'configurations'],
     'for every set of subsystems, sizes, outages, communication losses, thresholds and limits',
     'tests use three constant subsystems with one outage',
     [AV], [('AvailabilityAnalysis._calc_loss_subsystem', AV)],
     ['loss_subsystem and reporting_mask'])
prop('C21', 'System outages are found, classified and conserved in the availability report',
     'Every maximal stretch during which no subsystem reports in daylight is listed exactly once as an outage, spanning '
     'nights, with its expected energy, its metered energy and the error bounds for its length, and '
     'is real iff the meter shows less than the lower bound (loss = expected - metered), '
     'communications otherwise (loss 0), unknown when the meter cannot tell. The rolled-up lost '
     'production adds up to the reported losses, actual production to the meter, and availability is '
     'actual over actual plus lost in each period.',
     ['inputs', 'configurations'],
     'for every arrangement of outages (day, night, several days, at either end of the data, one '
     'sample long, the whole record) and meter behaviour',
     'tests use one outage of a few hours in the middle of the data',
     [AV], [('_calc_error_distributions', AV), ('_calc_loss_system', AV), ('_combine_losses', AV)],
     ['outage_info, loss_system, loss_total, energy_cumulative_corrected, results'])
prop('C22', 'Clear-sky ambient temperature is the smoothed climate of the right place',
     'For every place on Earth and every local time axis get_clearsky_tamb returns the day/night '
     'monthly climate of the map cell nearest to that place, smoothed with the centred Gaussian window in '
     'days, combined by the daily cosine that peaks at the same solar time at every longitude and '
     'in every time zone. It returns one value per requested timestamp, depends only on the instants and '
     'place (not on the extent or sampling of the request) up to interpolation, and places whose cell has '
     'no data give NaN and a warning.',
     ['inputs'],
     'for every latitude, longitude including the poles and the date line, time axis, sampling and '
     'zone',
     'the two tests need the bundled map (absent here) and check one place',
     [CT], [('get_clearsky_tamb', CT), ('_get_pixel_value', CT), ('_get_temperature', CT)],
     ['return value of get_clearsky_tamb'])
prop('C23', 'Analyses neither modify their inputs nor depend on history',
     'No public function or analysis modifies the series, frames, indexes, dictionaries or lists it '
     'is given, including user-supplied filter masks. Two calls with equal inputs and the same '
     'random seed give equal results, whatever other calls happened before or in between and '
     'whichever object they are made on, and repeating an analysis on one object gives the same '
     'answer again. Stochastic results draw from the global NumPy random stream, so seeding it makes '
     'them reproducible (the circular block bootstrap draws from the generator given by bootstrap_seed, '
     'and from fresh entropy without one); calculations without a random part neither use nor disturb '
     'the stream, and nothing changes process-wide settings.',
     ['inputs', 'histories'],
     'for every public function and every sequence of calls',
     'tests call each function once on fresh inputs and do not look at the inputs afterwards',
     [N, A, F, D, S, C, AV, CT, PL], [('whole package', 'rdtools/')],
     ['arguments before and after each call; results of repeated calls'])
prop('C24', 'Plots show exactly the data and numbers of the analysis',
     'The figures produced for degradation, soiling and availability results contain the data they '
     'claim to show: the plotted points are the (renormalized) inputs at their own timestamps, '
     'histograms contain every slope or rate, trend lines, confidence numbers, outage lines and loss '
     'curves are those of the results passed in. Plotting works for every result an analysis can '
     'produce, including very short ones, respects axis arguments, and changes neither the results '
     'nor the inputs.',
     ['inputs', 'configurations'],
     'for every analysis result and display option',
     'tests only check that a figure object is returned',
     [PL, C, AV], [('plotting functions', PL), ('TrendAnalysis.plot_*', C)],
     ['artists of the returned matplotlib / plotly figures'])
prop('C25', 'Results depend on what the data say, not on how they are written down',
     'Every public function and both TrendAnalysis workflows give the same result for the same data in '
     'another representation: a datetime index in seconds, milliseconds, microseconds or nanoseconds, '
     'whatever the series and their indexes are called, with or without a frequency attribute (where '
     'none is required), the time zone as one library or another names it, values in read-only or '
     'strided memory or as integers, columns in another order. Ratios, masks, rates and intervals do '
     'not change when power, energy or irradiance are given in other units, and quantities scale with '
     'them; the same measurements dated 28 years later give the same result, 28 years later.',
     ['inputs', 'representations'],
     'for every public function, every input and every equivalent representation of it',
     'tests use nanosecond indexes, unnamed series and one unit throughout',
     [N, A, F, D, S, C, AV, CT], [('whole package', 'rdtools/')],
     ['results of the same call on two representations of the same inputs'])

prop('C26', 'Options mean the same however given; left out, their documented default',
     'Calling any public function, TrendAnalysis workflow, AvailabilityAnalysis, soiling or plotting method with an '
     'option left out gives what passing its documented default gives, by keyword or by position in the documented '
     'order; the default a docstring states is the one used. Options given through a wrapper (soiling_srr, '
     'clip_filter, clearsky_filter, the yoy_kwargs and srr_kwargs of the workflows) have the effect they have on '
     'the function it wraps.',
     ['inputs', 'options'],
     'for every public function, every option and every way of giving it',
     'tests call each function with one fixed set of options and compare with recorded numbers',
     [N, A, F, D, S, C, AV, CT], [('whole package', 'rdtools/')],
     ['results of the same call, under the same random state, with options omitted, by keyword, by position, through the wrapper'])

prop('C27', 'Impossible requests are refused and doubtful data announced, exactly then',
     'A request that cannot be answered is refused with an error instead of answered with made-up numbers: options that '
     'are not among the documented ones, inputs on different indexes, irregular or incomplete series where regular ones are '
     'required, less than two years of data, mixed time-zone awareness, filters and workflows without the measurements they '
     'need, plots of analyses that were not run. Data that can be analysed but are doubtful (many excluded points, variable '
     'sampling, missing time zone, 20 % or more of days in invalid soiling intervals, an even day_scale, no temperature '
     'coefficient, ad hoc filters with missing entries or another index, days without insolation, simultaneous losses, '
     'places without climate data) are announced by a warning. Usable requests are neither refused nor announced, and a '
     'refused analysis leaves earlier results as they were.',
     ['inputs', 'options', 'histories'],
     'for every input and option on either side of each documented condition',
     'tests try one bad value per error and never the acceptable neighbour of a limit',
     [N, F, D, S, C, AV, CT], [('input checks and warnings', 'rdtools/')],
     ['exceptions, warnings and stored results of every call'])

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')

NOTES = {}
checks, na = [], []
for p in P:
    pid = p['id']
    if os.path.exists(os.path.join(V, 'rv', 'props', pid.lower() + '.py')):
        src = open(os.path.join(V, 'rv', 'props', pid.lower() + '.py')).read()
        tech = 'runtime monitoring: reference-model monitor over generated and hostile workloads'
        for line in src.splitlines():
            if line.startswith('TECHNIQUE = '):
                tech = eval(line.split('=', 1)[1])
        checks.append({
            'property': pid,
            'quick_cmd': 'bash run.sh %s' % pid,
            'thorough_cmd': 'bash run.sh %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': tech,
            'level': 'exploration',
            'level_note': 'Held on the executions observed, nothing more: the real code from /repo is run on '
                          'generated workloads and an independent oracle judges every result; trusts '
                          'numpy/pandas/scipy/pvlib primitives and the oracle in rv/props/%s.py.' % pid.lower(),
        })
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every property is observable at the public API. '
              'known_findings.jsonl lists known findings and fixed defects.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(checks), 'checks')
