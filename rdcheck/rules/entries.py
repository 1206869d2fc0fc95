"""Entry points of the package as the user reaches them: every public function, and every public class
through its constructor, settings and methods. Used by the whole-program effect analyses."""
import ast

SERIES = {'energy_normalized', 'insolation', 'pv', 'power_expected', 'poa_global', 'temperature_cell', 'temperature_ambient', 'power',
          'power_ac', 'series', 'energy', 'irrad', 'irrad_sim', 'time_series', 'signal', 'mask', 'normalized_yield', 'power_system', 'loss_total',
          'energy_cumulative', 'poa_global_measured', 'poa_global_clearsky', 'energy_normalized_daily', 'insolation_daily', 'x',
          'precipitation_daily', 'loss_subsystem', 'loss_system', 'temperature_cell_clearsky', 'temperature_ambient_clearsky'}
FRAME = {'soiling_interval_summary', 'power_subsystem', 'outage_info', 'reporting_metrics'}
INDEX = {'times'}
DICT = {'pvwatts_kws', 'yoy_info', 'soiling_info', 'yoy_kwargs', 'srr_kwargs', 'filter_params', 'filter_params_aggregated'}
OPTIONAL = {'temperature_cell', 'power_expected', 'precipitation_daily', 'poa_global_clearsky', 'temperature_cell_clearsky', 'temperature_ambient_clearsky'}


def kind(p):
    if p in SERIES:
        return 'series'
    if p in FRAME:
        return 'frame'
    if p in INDEX:
        return 'index'
    if p in DICT:
        return 'dict'
    return 'opt'


# classes, reached the way a user reaches them
CLASSES = '''
import pandas as pd
from rdtools.analysis_chains import TrendAnalysis
from rdtools.availability import AvailabilityAnalysis
from rdtools import soiling
from rdtools.soiling import SRRAnalysis, CODSAnalysis

def make(pv, poa_global, temperature_cell, temperature_ambient, gamma_pdc, aggregation_freq, pv_input, windspeed, power_expected,
         temperature_model, power_dc_rated, interp_freq, max_timedelta):
    return TrendAnalysis(pv, poa_global=poa_global, temperature_cell=temperature_cell, temperature_ambient=temperature_ambient, gamma_pdc=gamma_pdc,
                         aggregation_freq=aggregation_freq, pv_input=pv_input, windspeed=windspeed, power_expected=power_expected,
                         temperature_model=temperature_model, power_dc_rated=power_dc_rated, interp_freq=interp_freq, max_timedelta=max_timedelta)

def code_TrendAnalysis_sensor(pv: series, poa_global: series, temperature_cell: opt, temperature_ambient: opt, gamma_pdc: opt, aggregation_freq: str,
         pv_input: str, windspeed: opt, power_expected: opt, temperature_model: opt, power_dc_rated: opt, interp_freq: opt, max_timedelta: opt,
         ad_hoc: series, ad_hoc2: series, analyses: opt, yoy_kwargs: dict, srr_kwargs: dict):
    ta = make(pv, poa_global, temperature_cell, temperature_ambient, gamma_pdc, aggregation_freq, pv_input, windspeed, power_expected,
              temperature_model, power_dc_rated, interp_freq, max_timedelta)
    ta.filter_params['ad_hoc_filter'] = ad_hoc
    ta.filter_params_aggregated['ad_hoc_filter'] = ad_hoc2
    ta.sensor_analysis(analyses, yoy_kwargs, srr_kwargs)
    return ta

def code_TrendAnalysis_filters(pv: series, poa_global: series, temperature_cell: series, filter_params: dict, filter_params_aggregated: dict, gamma_pdc: scalar):
    ta = TrendAnalysis(pv, poa_global=poa_global, temperature_cell=temperature_cell, gamma_pdc=gamma_pdc)
    ta.filter_params = filter_params
    ta.filter_params_aggregated = filter_params_aggregated
    ta.sensor_analysis()
    return ta

def code_TrendAnalysis_clearsky(pv: series, poa_global: series, temperature_cell: opt, temperature_ambient: opt, gamma_pdc: opt, aggregation_freq: str,
         windspeed: opt, temperature_model: opt, power_dc_rated: opt, max_timedelta: opt, ad_hoc: series, ad_hoc2: series,
         pvlib_location: opt, pv_azimuth: opt, pv_tilt: opt, poa_global_clearsky: opt, temperature_cell_clearsky: opt,
         temperature_ambient_clearsky: opt, albedo: opt, solar_position_method: str, analyses: opt, yoy_kwargs: dict, srr_kwargs: dict):
    ta = TrendAnalysis(pv, poa_global=poa_global, temperature_cell=temperature_cell, temperature_ambient=temperature_ambient, gamma_pdc=gamma_pdc,
                       aggregation_freq=aggregation_freq, windspeed=windspeed, temperature_model=temperature_model, power_dc_rated=power_dc_rated,
                       max_timedelta=max_timedelta)
    ta.filter_params['ad_hoc_filter'] = ad_hoc
    ta.filter_params_aggregated['ad_hoc_filter'] = ad_hoc2
    ta.set_clearsky(pvlib_location, pv_azimuth, pv_tilt, poa_global_clearsky, temperature_cell_clearsky, temperature_ambient_clearsky, albedo, solar_position_method)
    ta.clearsky_analysis(analyses, yoy_kwargs, srr_kwargs)
    return ta

def code_Availability(power_system: series, power_subsystem: frame, energy_cumulative: series, power_expected: series, low_threshold: opt,
                      relative_sizes: opt, power_system_limit: opt, quantiles: opt, rollup_period: opt):
    aa = AvailabilityAnalysis(power_system, power_subsystem, energy_cumulative, power_expected)
    aa.run(low_threshold, relative_sizes, power_system_limit, quantiles, rollup_period)
    return aa

def code_Availability_plot(power_system: series, power_subsystem: frame, energy_cumulative: series, power_expected: series):
    aa = AvailabilityAnalysis(power_system, power_subsystem, energy_cumulative, power_expected)
    aa.run()
    aa.plot()
    return aa

def code_SRR(energy_normalized_daily: series, insolation_daily: series, precipitation_daily: opt, reps: scalar, day_scale: scalar, clean_threshold: opt,
             trim: bool, method: str, clean_criterion: str, precip_threshold: scalar, min_interval_length: scalar, exceedance_prob: scalar,
             confidence_level: scalar, recenter: bool, max_relative_slope_error: scalar, max_negative_step: scalar, outlier_factor: scalar):
    a = SRRAnalysis(energy_normalized_daily, insolation_daily, precipitation_daily)
    return a.run(reps, day_scale, clean_threshold, trim, method, clean_criterion, precip_threshold, min_interval_length, exceedance_prob,
                 confidence_level, recenter, max_relative_slope_error, max_negative_step, outlier_factor)
'''

# the same classes with the optional data given as series
CLASSES += '''
def code_TrendAnalysis_sensor_all_series(pv: series, poa_global: series, temperature_cell: series, temperature_ambient: series, gamma_pdc: scalar,
         windspeed: series, power_expected: series, power_dc_rated: scalar, interp_freq: opt, max_timedelta: opt, pv_input: str, yoy_kwargs: dict, srr_kwargs: dict):
    ta = TrendAnalysis(pv, poa_global=poa_global, temperature_cell=temperature_cell, temperature_ambient=temperature_ambient, gamma_pdc=gamma_pdc,
                       windspeed=windspeed, power_expected=power_expected, power_dc_rated=power_dc_rated, interp_freq=interp_freq, max_timedelta=max_timedelta,
                       pv_input=pv_input)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'], yoy_kwargs, srr_kwargs)
    return ta

def code_TrendAnalysis_clearsky_all_series(pv: series, poa_global: series, temperature_ambient: series, gamma_pdc: scalar,
         windspeed: series, power_dc_rated: scalar, max_timedelta: opt, pvlib_location: dict, pv_azimuth: series, pv_tilt: series,
         poa_global_clearsky: series, temperature_cell_clearsky: series, temperature_ambient_clearsky: series, albedo: series):
    ta = TrendAnalysis(pv, poa_global=poa_global, temperature_ambient=temperature_ambient, gamma_pdc=gamma_pdc,
                       windspeed=windspeed, power_dc_rated=power_dc_rated, max_timedelta=max_timedelta)
    ta.set_clearsky(pvlib_location, pv_azimuth, pv_tilt, poa_global_clearsky, temperature_cell_clearsky, temperature_ambient_clearsky, albedo)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'])
    return ta

def code_TrendAnalysis_clearsky_modelled(pv: series, poa_global: series, gamma_pdc: scalar, windspeed: series, pvlib_location: dict, pv_azimuth: series,
         pv_tilt: series, temperature_ambient_clearsky: series):
    ta = TrendAnalysis(pv, poa_global=poa_global, gamma_pdc=gamma_pdc, windspeed=windspeed)
    ta.set_clearsky(pvlib_location, pv_azimuth, pv_tilt, temperature_ambient_clearsky=temperature_ambient_clearsky)
    ta.clearsky_analysis()
    return ta

def code_TrendAnalysis_plots(pv: series, poa_global: series, temperature_cell: series, gamma_pdc: scalar, case: str, kw: dict):
    ta = TrendAnalysis(pv, poa_global=poa_global, temperature_cell=temperature_cell, gamma_pdc=gamma_pdc)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    return (ta.plot_degradation_summary('sensor', **kw), ta.plot_soiling_monte_carlo('sensor', **kw), ta.plot_soiling_interval('sensor', **kw),
            ta.plot_soiling_rate_histogram('sensor', **kw), ta.plot_pv_vs_irradiance('sensor', **kw), ta.plot_degradation_timeseries('sensor', **kw))

def code_CODS(energy_normalized_daily: series, order: opt, degradation_method: str, max_iterations: scalar, cleaning_sensitivity: scalar,
              convergence_criterion: scalar, pruning_iterations: scalar, clean_pruning_sensitivity: scalar, soiling_significance: scalar,
              process_noise: scalar, renormalize_SR: opt, ffill: bool, clip_soiling: bool, verbose: bool):
    a = CODSAnalysis(energy_normalized_daily)
    return a.iterative_signal_decomposition(order, degradation_method, max_iterations, cleaning_sensitivity, convergence_criterion, pruning_iterations,
                                            clean_pruning_sensitivity, soiling_significance, process_noise, renormalize_SR, ffill, clip_soiling, verbose)

def code_CODS_bootstrap(energy_normalized_daily: series, reps: scalar, confidence_level: scalar, degradation_method: str, process_noise: scalar,
                        order_alternatives: opt, cleaning_sensitivity_alternatives: opt, clean_pruning_sensitivity_alternatives: opt,
                        forward_fill_alternatives: opt, verbose: bool, kw: dict):
    a = CODSAnalysis(energy_normalized_daily)
    return a.run_bootstrap(reps, confidence_level, degradation_method, process_noise, order_alternatives, cleaning_sensitivity_alternatives,
                           clean_pruning_sensitivity_alternatives, forward_fill_alternatives, verbose, **kw)
'''


def public_functions(prog):
    for mod in prog.mods.values():
        if mod.rel.endswith(('_deprecation.py', '_version.py')) or '/test' in mod.rel:
            continue
        for fn in mod.functions.values():
            if not fn.name.startswith('_'):
                yield mod, fn


def run_function(ctx, fn, types=None, opaque=(), consts=None):
    """analyse fn with every parameter unknown; returns (interp, state, value)"""
    from ..interp import Interp
    it = Interp(ctx.prog)
    it.opaque = set(opaque)
    ty = {p: kind(p) for p in fn.params + fn.kwonly}
    for p in OPTIONAL:
        if p in fn.defaults:
            d = fn.defaults[p]
            if isinstance(d, ast.Constant) and d.value is None and p in ty:
                ty[p] = 'opt'
    ty.update(types or {})
    it.ptypes = {k: v for k, v in ty.items() if v in ('series', 'frame', 'index', 'ndarray', 'scalar')}
    it.nonnull = {k for k, v in ty.items() if v != 'opt'}
    args = {p: (consts or {}).get(p) or it.param(p) for p in fn.params + fn.kwonly}
    if fn.kwarg:
        args['**'] = it.param('**' + fn.kwarg)
    st, v = it.run(fn, args)
    ctx.seen(it)
    return it, st, v
