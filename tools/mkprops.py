"""writes /verif/properties.jsonl"""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': ['rdtools/' + f for f in files],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


p('C01', "The caller's data is never modified",
  "No public function, class constructor or analysis method changes an object the caller passed in: series, frames, indexes, dictionaries and lists keep their values, name, index and columns. "
  "This also covers data the user stored in analysis settings (such as a custom filter mask or keyword dictionaries). Only results returned or stored on the analysis object are new.",
  ['inputs', 'configurations'], 'every public entry point, every input object, every option combination and every path, including error paths',
  'Tests compare outputs; very few assert that an input is unchanged afterwards, none over all options and paths. Writes through views or shared buffers only show on particular inputs (e.g. NaN present, name unset).',
  ['degradation.py', 'normalization.py', 'filtering.py', 'aggregation.py', 'soiling.py', 'availability.py', 'analysis_chains.py', 'plotting.py', 'bootstrap.py', 'utilities.py', 'clearsky_temperature.py'],
  [('defensive copies before renaming or editing', 'degradation_year_on_year, _interpolate_series, normalize_with_expected_power'), ('new frames built from inputs', 'SRRAnalysis._calc_daily_df, AvailabilityAnalysis')])

p('C02', 'Results do not depend on earlier calls',
  "A result depends only on the arguments, the documented settings and the random generator: running an analysis again on the same object, after other runs with other options, gives what a fresh object would give. "
  "No call leaves behind module-level, class-level or default-argument state that a later call can observe, and each run replaces the values a previous run stored instead of accumulating onto them.",
  ['histories', 'configurations'], 'every sequence of calls on the same object or module, with any options in between',
  'Each test builds a fresh object and calls a method once; histories with changed options between calls are unbounded.',
  ['analysis_chains.py', 'soiling.py', 'availability.py', 'filtering.py', 'normalization.py', 'degradation.py'],
  [('per-run locals, stored results overwritten', 'SRRAnalysis.run, CODSAnalysis.run_bootstrap, AvailabilityAnalysis.run, TrendAnalysis.sensor_analysis/clearsky_analysis'), ('write-once model cache', 'filtering._load_xgboost_clipping_model')])

p('C03', 'Randomness comes only from the documented, seedable sources',
  "After the user seeds numpy's global generator (and passes the bootstrap seed where offered) every result is reproducible: no call reseeds, replaces or resets that generator, uses another entropy source, or lets the clock, the environment, object identity or set ordering influence a value. "
  "Functions documented as deterministic draw no random numbers, and a bootstrap seed given by the user reaches every resampler. The one documented exception is the circular block resampler, which uses fresh entropy when no seed is given to it.",
  ['inputs', 'configurations', 'schedules'], 'every public entry point, every option, every generator state',
  'Tests fix a seed and compare statistics loosely; order dependence on sets or hidden reseeding shows only for particular inputs or across two calls.',
  ['degradation.py', 'soiling.py', 'bootstrap.py', 'plotting.py', 'filtering.py', 'normalization.py', 'availability.py'],
  [('numpy.random module functions', 'degradation, soiling'), ('seed argument of CircularBlockBootstrap', 'bootstrap._make_time_series_bootstrap_samples')])

p('C04', 'Confidence intervals and exceedance levels are the requested percentiles',
  "For any confidence level L and exceedance probability p, every reported interval is the pair of percentiles 50-L/2 and 50+L/2, lower bound first, and every exceedance level the percentile 100-p, all taken from the same sample distribution as the reported quantity and in its units. "
  "This holds for the regression, year-on-year (both bootstraps), rate-and-recovery soiling, annual and monthly soiling summaries and the combined soiling/degradation analysis.",
  ['inputs', 'configurations'], 'all data, all L in [0,100], all p in [0,100], all uncertainty methods',
  'Tests use the default levels and check that bounds are near a value with wide tolerance, so swapped, halved or mis-scaled percentiles at other levels pass.',
  ['degradation.py', 'bootstrap.py', 'soiling.py'],
  [('percentile extraction', 'degradation._degradation_CI, degradation_year_on_year, bootstrap._construct_confidence_intervals, SRRAnalysis.run, annual_soiling_ratios, monthly_soiling_rates, CODSAnalysis.run_bootstrap')])

p('C05', 'Unrecognised option values are rejected, never silently defaulted',
  "Where an option selects among named alternatives (model, method, cleaning criterion, input type, power type, decomposition type, mounting type, plot case, filter name, target type, decomposition order), any other value makes the call raise an error before a result is returned or stored. "
  "The documented exceptions are the year-on-year uncertainty method, where any other value means no uncertainty, and the degradation method of the combined decomposition, where any other value means year-on-year. A decomposition order is unrecognised when it lacks the soiling component.",
  ['inputs', 'configurations'], 'every option with a closed set of values, every value outside the set, all other inputs',
  'Tests try one bad value for some options; they cannot show that no other value and no other path falls through.',
  ['filtering.py', 'normalization.py', 'soiling.py', 'bootstrap.py', 'analysis_chains.py'],
  [('final else: raise', 'clearsky_filter, clip_filter, irradiance_rescale, _aggregate, normalize_with_expected_power, _calc_daily_df, _calc_monte, _make_time_series_bootstrap_samples, plot_* methods'), ('key validation', 'ValidatedFilterDict')])

p('C06', 'Unusable input is refused with an error instead of producing a number',
  "Inputs that break a documented precondition always raise: less than two years of data (raw or after filtering), non-daily soiling data, no valid soiling interval or year-on-year pair, mismatched availability indexes, mixing time-zone-aware and naive series, irregular series where regularity is required, too long bootstrap blocks, unsorted, too short or non-datetime clipping input, missing irradiance/temperature/clear-sky/power data for the requested analysis or filter. "
  "No result is returned or stored on such a path.",
  ['inputs', 'configurations', 'histories'], 'every input violating a precondition, on every path to a result',
  'Tests raise each error with one hand-made input; a guard bypassed on one branch, moved after use, or comparing the wrong quantity is not sampled.',
  ['degradation.py', 'normalization.py', 'filtering.py', 'soiling.py', 'availability.py', 'analysis_chains.py'],
  [('guards that dominate every normal return', 'degradation_year_on_year, degradation_classical_decomposition, SRRAnalysis.__init__, CODSAnalysis.__init__, AvailabilityAnalysis.__init__, TrendAnalysis._filter_check, interpolate, energy_from_power, _check_series_frequency, _format_clipping_time_series')])

p('C07', 'Row filters keep exactly the rows in the documented range',
  "Each filter's mask is true exactly for the rows its definition selects with the limits and parameters given (or the documented defaults): the range filters strictly inside their bounds, clear-sky index and hour angle inside or on theirs, insolation at or above its quantile, and the rolling-median outlier filters (two-way window, Hampel, directional Tukey) within the stated, symmetric multiple of spread. "
  "Missing values never pass a range filter.",
  ['inputs', 'configurations'], 'every series (any values, gaps, NaN), every parameter value',
  'Tests use a few points with default limits; boundary equality, non-default parameters (e.g. another fence multiplier) and NaN rows are not covered.',
  ['filtering.py', 'utilities.py'],
  [('element-wise comparisons', 'normalized_filter, poa_filter, tcell_filter, csi_filter, hour_angle_filter, insolation_filter'), ('rolling medians and fences', 'two_way_window_filter, hampel_filter, directional_tukey_filter, _tukey_fence'), ('robust statistics', 'utilities.robust_quantile')])

p('C08', 'An analysis applies exactly the filters the user enabled',
  "The rows kept in a trend analysis are exactly those passing every enabled filter: each enabled filter is evaluated with its own parameters on its own quantity (normalized energy, irradiance, cell temperature, power, location, aggregated performance or insolation), a disabled filter has no effect, missing filter values count as rejected, and the user's custom mask is one more condition (its missing values rejected, rows it does not cover kept). "
  "The recorded filter components are those same masks, and unknown filter names cannot be configured by construction, assignment or update.",
  ['configurations', 'inputs', 'histories'], 'every subset of filters, every parameter setting, every custom mask',
  'Two to the number of filters configurations with arbitrary parameters; tests cover the default set and a handful of single changes.',
  ['analysis_chains.py'],
  [('filter dispatch and conjunction', 'TrendAnalysis._filter, TrendAnalysis._aggregated_filter'), ('key validation', 'ValidatedFilterDict')])

p('C09', 'Sensor and clear-sky analyses each use their own data end to end',
  "The sensor analysis is computed from measured irradiance and cell temperature and the clear-sky analysis from the modelled ones; each uses only its own filter, aggregates performance together with the matching insolation over the same filtered rows at the chosen frequency, applies its own aggregated filter, and stores results, performance and insolation under its own case. "
  "Running one never changes the other's results, and a plot for a case shows that case.",
  ['configurations', 'histories', 'inputs'], 'every data set, option set and order of running the two analyses',
  'Both branches are near copies; a crossed variable only matters when the two data sets differ in a way tests do not sample, or when both analyses run on one object.',
  ['analysis_chains.py'],
  [('twin pipelines', 'TrendAnalysis._sensor_preprocess, _clearsky_preprocess, _pvwatts_norm, _aggregate, sensor_analysis, clearsky_analysis, plot_*')])

p('C10', 'Results do not depend on the units of the input',
  "Multiplying the data by any positive constant leaves relative quantities unchanged: the degradation rate and interval (year-on-year with recentering; the regressions always), the soiling ratio, its interval and the interval summary of stochastic rate and recovery with recentering (in the energy and in the insolation), "
  "the availability fraction and outage types (all powers, energies, the low threshold and the system limit scaled together), and the masks of the clipping, two-way window, Hampel, Tukey, insolation-quantile and clear-sky-index filters. It scales robust quantiles, energies, insolation, lost production, regression slopes and the renormalizing factor by the same constant. "
  "No absolute threshold in a unit enters those results.",
  ['inputs'], 'every positive scale factor and every data set',
  'Needs a relation between two runs for all scale factors; tests evaluate single data sets in one unit.',
  ['degradation.py', 'filtering.py', 'utilities.py', 'normalization.py', 'aggregation.py', 'availability.py', 'soiling.py'],
  [('ratios to quantiles and medians', 'robust_quantile, robust_median, two_way_window_filter, degradation_year_on_year, logic_clip_filter, AvailabilityAnalysis')])

p('C11', 'Masks and resampled outputs are aligned with their input timestamps',
  "Every filter returns a boolean mask on exactly the index of the series it filters (one entry per input row, same order; filters of two series take them on one index), and interpolation onto a given index returns exactly that index. "
  "Normalized energy and insolation share one index, and bootstrap samples and the combined decomposition carry the timestamps of the series analysed (leading missing values of a decomposed series aside).",
  ['inputs'], 'every index: irregular, time-zone aware, with gaps, any sampling rate',
  'Tests use regular indexes where a mask computed on a resampled grid happens to match.',
  ['filtering.py', 'normalization.py', 'bootstrap.py', 'soiling.py'],
  [('final reindex to the input index', 'logic_clip_filter, xgboost_clip_filter, _interpolate_series, normalize_with_expected_power')])

p('C12', 'Every option takes effect and reaches the computation unchanged',
  "Every documented parameter of a public function or method can influence its outcome, and a value given to a top-level function arrives unaltered at the like-named option of the routines that implement it (soiling wrappers, analysis keyword dictionaries, filter parameter dictionaries, gap limits and warning thresholds of interpolation and energy calculation, plotting case wrappers). "
  "Defaults agree with the documentation, and those of a wrapper with the defaults of what it wraps.",
  ['configurations', 'inputs'], 'every parameter of every public entry point, every value',
  'An ignored or crossed option is only visible when tests pass a non-default value for it and check an effect; most are never passed.',
  ['soiling.py', 'analysis_chains.py', 'normalization.py', 'filtering.py', 'degradation.py', 'availability.py', 'bootstrap.py', 'plotting.py'],
  [('keyword forwarding', 'soiling_srr, soiling_cods, SRRAnalysis.run, AvailabilityAnalysis.run, TrendAnalysis._yoy_degradation/_srr_soiling/plot_*, interpolate, clip_filter')])

p('C13', 'Energy is power times time, and gaps are never filled silently',
  "Energy computed from power equals the power of each interval times its length in hours, summed over the target interval (right-labelled or trapezoidal as requested), for any sampling and target frequency. "
  "Interpolation and energy never bridge a gap longer than the allowed one (default: the median step for energy, twice the median step for interpolation): values there are missing, while original data points are kept, and excluding more than the warning threshold warns.",
  ['inputs', 'configurations'], 'every sampling pattern, gap pattern, target frequency, gap limit and power type',
  'Tests have a few short regular series; the interaction of irregular steps, gaps and target frequency is unbounded.',
  ['normalization.py'],
  [('gap masks', 'energy_from_power, _aggregate, _interpolate_series, _t_step_nanoseconds')])

p('C14', 'Normalized energy is measured energy over expected energy',
  "Normalized energy is measured energy divided by the expected energy over the same intervals, with insolation the integral of irradiance over them; expected power under the PVWatts model is rated power times irradiance over its reference times one plus the temperature coefficient times the cell temperature excess, the temperature term applying exactly when both coefficient and temperature are given. "
  "Without a rated power, normalization is relative to the robust 95th percentile of the normalized energy; cell temperature derived from ambient uses the selected model's parameters.",
  ['inputs', 'configurations'], 'all series, ratings, references, coefficients (including zero) and input types',
  'Tests fix one rating, reference and coefficient; dropped or swapped terms that vanish for those values pass.',
  ['normalization.py', 'analysis_chains.py'],
  [('model formula', 'pvwatts_dc_power'), ('ratio and union index', 'normalize_with_expected_power, normalize_with_pvwatts, TrendAnalysis._pvwatts_norm, TrendAnalysis._calc_cell_temperature')])

p('C15', 'Aggregated performance is the insolation-weighted mean of its rows',
  "For every aggregation period the aggregated performance is the sum of performance times insolation divided by the sum of insolation over exactly the same rows, so it lies between the smallest and largest row value for non-negative insolation. "
  "A row without a performance value contributes to neither sum.",
  ['inputs', 'configurations'], 'all series including missing values, all aggregation frequencies',
  'Tests use complete data at one frequency, where numerator and denominator rows agree by accident.',
  ['aggregation.py', 'analysis_chains.py'],
  [('weighted sums', 'aggregation_insol, TrendAnalysis._aggregate')])

p('C16', 'The year-on-year rate is the median of relative one-year changes',
  "The degradation rate is the median over all pairs of points one calendar year apart (nearest earlier match within eight days) of the percentage change relative to the recentred first-year level per 365 days, independent of input order and of the uncertainty method. "
  "Recentering divides by the robust median of the first year (or by one when disabled), the factor is reported, and the reported pair values and point-usage counts are those of the pairs used.",
  ['inputs', 'configurations'], 'all series (sampling, gaps, order), all options',
  'Tests check synthetic series with one constant slope, where many wrong pairings give the same median.',
  ['degradation.py', 'utilities.py'],
  [('self merge one year apart', 'degradation_year_on_year')])

p('C17', 'Regression rates are 100 times slope over intercept in percent per year',
  "Ordinary least squares and classical decomposition report 100 times the fitted slope per 365-day year over the intercept at the first timestamp, with slope, intercept, standard errors and residual error of that same fit. "
  "Classical decomposition fits the centred one-year moving average, using only points with half a year of data on both sides, and its trend test classifies that same series.",
  ['inputs'], 'all series with defined frequency, missing data included',
  'Tests check one noiseless slope near unit intercept, where mixed-up terms are numerically close.',
  ['degradation.py'],
  [('design matrix and fit', 'degradation_ols, degradation_classical_decomposition'), ('trend test', '_mk_test')])

p('C18', 'Result dictionaries and tables carry every documented entry',
  "Every documented entry of a returned dictionary or table (degradation and soiling details, interval summaries, availability results and outage records, analysis results) is present on every path that returns it, under its documented name and with the documented meaning, and everything a plotting function or a later analysis step reads is produced by the step before, for every method option. The exceedance level belongs to results computed with an uncertainty method, and the bootstrapped columns of the combined decomposition to those whose soiling signal was large enough (otherwise it warns).",
  ['configurations', 'inputs'], 'every return path and option combination; every producer/consumer pair',
  'Tests index a few keys for the default option; the pairs of producer options and consumers are not enumerated.',
  ['degradation.py', 'soiling.py', 'availability.py', 'analysis_chains.py', 'plotting.py'],
  [('result construction', 'degradation_*, SRRAnalysis.run, CODSAnalysis.run_bootstrap, AvailabilityAnalysis, TrendAnalysis._yoy_degradation/_srr_soiling'), ('consumers', 'plotting.*, monthly_soiling_rates, annual_soiling_ratios')])

p('C19', 'Availability accounting balances and losses are never negative',
  "Total loss is system-outage loss plus subsystem loss; subsystem loss is zero unless downtime is detected, never negative and never exceeds the given plant limit minus production; an outage counts as real loss exactly when metered production is below the lower confidence bound, as unknown when the meter ran backwards by more than five percent of expectation, and otherwise contributes nothing. "
  "Availability is one minus lost over lost plus actual production in each roll-up period, outage losses are spread over the outage in proportion to expected power, and corrected cumulative energy preserves the metered total.",
  ['inputs', 'configurations'], 'all power, energy and expectation series, thresholds, limits, quantiles and roll-up periods',
  'Tests have one synthetic plant per scenario; thresholds, limits and outage positions form an unbounded space.',
  ['availability.py'],
  [('loss formulas', 'AvailabilityAnalysis._calc_loss_subsystem, _calc_error_distributions, _calc_loss_system, _combine_losses')])

p('C20', 'Rate-and-recovery soiling follows its definition',
  "Cleaning events, intervals, fitted rates and Monte Carlo profiles follow the published definition: a cleaning is a rise of the rolling median above the (given or Tukey-inferred) threshold combined with precipitation as the criterion says; intervals failing the slope, error or step limits get zero rate and are invalid; profiles start from a recovery drawn for the chosen cleaning assumption and decline with a rate drawn within the interval's bounds. "
  "The soiling ratio is the insolation-weighted mean of the profile, positive rates are never reported as soiling, and monthly and annual summaries weight by the days and insolation they cover.",
  ['inputs', 'configurations'], 'all daily series, precipitation, thresholds, criteria, cleaning assumptions',
  'Tests compare a seeded result with loose tolerances for default settings; individual limits and criteria hardly move the median.',
  ['soiling.py'],
  [('interval detection and fit', 'SRRAnalysis._calc_daily_df, _calc_result_df'), ('simulation', 'SRRAnalysis._calc_monte'), ('summaries', 'annual_soiling_ratios, monthly_soiling_rates')])

p('C21', 'Combined soiling and degradation decomposition is consistent',
  "In every decomposition the reported model is the product of soiling ratio, seasonal component and degradation trend times the mean residual, the residuals are the input divided by the unscaled product, the soiling loss is the mean of one minus the soiling ratio in percent, and the degradation trend is one plus the reported rate per 365-day year. "
  "With clipping, soiling ratios do not exceed one; bootstrap estimates are averages weighted by the same fit weights, and the returned soiling ratio is one minus the loss fraction.",
  ['inputs', 'configurations'], 'all daily series, decomposition orders, methods, sensitivities',
  'The analysis is slow and stochastic; tests check a few rounded outputs for one data set.',
  ['soiling.py'],
  [('decomposition loop and output assembly', 'CODSAnalysis.iterative_signal_decomposition, run_bootstrap, _Kalman_filter_for_SR, soiling_cods')])

p('C22', 'Iterative fits stop within their limit and never return an unconverged value',
  "Rescaling irradiance iterates until successive factors differ by at most the convergence threshold and raises a convergence error after the given maximum number of iterations; the returned series is the simulated irradiance times the final factor, fitted only on rows within 20 percent of clear sky (and above 200 W/m2 for the iterative method). "
  "The decomposition loops also run at most their stated number of iterations.",
  ['inputs', 'configurations'], 'all irradiance pairs, limits and thresholds',
  'Non-convergence needs special data; one test forces it with one limit.',
  ['normalization.py', 'soiling.py'],
  [('iteration counter and guard', 'irradiance_rescale, CODSAnalysis.iterative_signal_decomposition, _Kalman_filter_for_SR')])

p('C23', 'Clear-sky modelling uses the site and array the user described',
  "Modelled clear-sky irradiance is the plane-of-array total for the given tilt, azimuth, albedo, location and solar position at the analysed timestamps (averaged onto the sensor intervals, first interval undefined, then rescaled to the measured irradiance), and clear-sky ambient temperature is looked up at the given latitude and longitude and follows the documented day/night profile in local solar time. "
  "User-supplied clear-sky series take precedence over modelled ones.",
  ['inputs', 'configurations'], 'all sites, array orientations, time indexes and supplied series',
  'Tests use one site and orientation (and the temperature data file is not available to several of them).',
  ['analysis_chains.py', 'clearsky_temperature.py'],
  [('model calls', 'TrendAnalysis.set_clearsky, _calc_clearsky_poa, _calc_clearsky_tamb'), ('lookup and profile', 'get_clearsky_tamb, _get_temperature, _get_pixel_value')])

p('C24', 'Plots show the numbers they were given',
  "Summary plots draw the renormalized yield (yield divided by the reported factor), the year-on-year values and the trend line starting at one with the reported rate, and label the reported rate and interval bounds in order; soiling plots draw every selected profile and the valid rates in percent; the degradation time-series draws the rolling median and its bootstrap band; availability plots draw each outage's expected energy with its bounds.",
  ['inputs', 'configurations'], 'all result dictionaries, series and plot options',
  'Plot tests only check that a figure object is returned.',
  ['plotting.py', 'analysis_chains.py'],
  [('drawn values', 'degradation_summary_plots, soiling_monte_carlo_plot, soiling_interval_plot, soiling_rate_histogram, availability_summary_plots, degradation_timeseries_plot, tune_filter_plot')])

p('C25', 'Bootstrap samples recombine the fitted model with its own residuals',
  "Each bootstrap sample is the fitted model times (or plus) block-resampled residuals of that same model, residuals being signal divided by (or minus) the model accordingly, with the requested number of samples, block length and seed, and the uncertainty of a rate is evaluated by applying the same estimator to every sample.",
  ['inputs', 'configurations'], 'all signals, models, block lengths, sample counts, both decomposition types',
  'Tests check shapes and a seeded mean for the multiplicative type.',
  ['bootstrap.py', 'degradation.py', 'soiling.py'],
  [('residual resampling', '_make_time_series_bootstrap_samples, _construct_confidence_intervals')])

p('C26', 'Clipping filters flag only plateau rows of the same day',
  "The logic-based clipping filter keeps a row unless its power lies in the day's detected clipping band (or, when more than four percent of rows are clipped and the overall and clipped 99th percentiles agree within half a percent, at or above the overall one), bands being built from rows whose short rolling range is below the given cutoff; the learned filter uses the predictions of the packaged model restricted to the day's clipping band. "
  "A mask value of true always means the row is kept.",
  ['inputs', 'configurations'], 'all power series, sampling rates, mounting types, cutoffs and window sizes',
  'Tests count flagged rows on three synthetic series.',
  ['filtering.py'],
  [('band construction', 'logic_clip_filter, _calculate_max_rolling_range, _apply_overall_clipping_threshold'), ('model features', 'xgboost_clip_filter, _calculate_xgboost_model_features')])

p('C27', 'Degradation and soiling estimates are statistically accurate',
  "For data generated with a known degradation rate or soiling ratio plus noise, the estimates converge to the true values and the confidence intervals have the nominal coverage.",
  ['inputs'], 'all noise levels, seasonal patterns and lengths',
  'Tests check a few synthetic series with tolerances.', ['degradation.py', 'soiling.py'], [('estimators', 'degradation_year_on_year, SRRAnalysis, CODSAnalysis')])

p('C28', 'Clipping detection agrees with true inverter clipping',
  "The clipping filters flag the rows during which the inverter actually clipped and no others.",
  ['inputs'], 'all plants, sampling rates and weather', 'Ground truth needs field data; tests use three synthetic series.', ['filtering.py'], [('heuristics and learned model', 'logic_clip_filter, xgboost_clip_filter')])

p('C29', 'Collapsing cleaning events terminates and leaves one event per group',
  "Collapsing detected cleaning events ends for every input and leaves exactly one event, at the largest metric change, per group of adjacent detections.",
  ['inputs'], 'all detection patterns and metrics', 'The loop ends depending on positions found at run time; tests run it on one data set.', ['soiling.py'], [('island loop', '_collapse_cleaning_events')])

with open('/verif/properties.jsonl', 'w') as fh:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        fh.write(json.dumps(x) + '\n')
print(len(P))
