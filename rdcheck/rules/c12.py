"""Every option takes effect and reaches the computation unchanged."""
import ast
import os
import re
from .. import framework as F
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod, subterms, show
from .. import terms
from ..terms import *
from . import entries as E
from . import chain, c08
EXPLAIN = ('Dependency and forwarding analysis. (1) Every public function, and every public class through its constructor, settings and methods, is analysed with all '
           'arguments symbolic; a parameter on which neither a returned or stored value nor (for reporting options) a drawing, printing, warning or raising action '
           'depends is reported. (2) For each wrapper, the value graph of the wrapper with its implementing routine left uninterpreted must equal a direct call of that '
           'routine with every like-named option passed as given. (3) The call with defaults omitted must equal the call with the documented defaults spelled out, and a '
           'wrapper\'s defaults must equal those of what it wraps and those its documentation states.')
ASSUME = ['a dependency in the value graph is an influence (the analysis does not show that two particular option values give different results)']
RULE_I = 'every documented parameter influences a result or a reported effect'
RULE_F = 'options arrive unaltered at the routine that implements them'
RULE_D = 'defaults of a wrapper agree with the wrapped routine and with the documentation'

# options whose effect is a report (warning, error, print, drawing), not a returned value
REPORTING = {('irradiance_rescale', 'max_iterations'), ('interpolate', 'warning_threshold'), ('tune_filter_plot', 'display_web_browser'), ('soiling_cods', 'verbose')}
DRAWING = {'degradation_summary_plots', 'soiling_monte_carlo_plot', 'soiling_interval_plot', 'soiling_rate_histogram', 'availability_summary_plots',
           'degradation_timeseries_plot', 'tune_filter_plot'}
# a case name selects which results are drawn; it is analysed with a constant
FIXED = {('TrendAnalysis_plots', 'case')}
REPORT_T = {('cods', 'verbose')}
CLASSWHERE = {'sensor': 'rdtools/analysis_chains.py (TrendAnalysis.sensor_analysis)', 'clearsky': 'rdtools/analysis_chains.py (TrendAnalysis.clearsky_analysis)',
              'availability': 'rdtools/availability.py (AvailabilityAnalysis.run)', 'srr': 'rdtools/soiling.py (SRRAnalysis.run)',
              'cods': 'rdtools/soiling.py (CODSAnalysis.iterative_signal_decomposition)'}


# the analysis objects, with what they are documented to provide
OBJECTS = chain.HEAD + '''
from rdtools.availability import AvailabilityAnalysis
from rdtools.soiling import SRRAnalysis, CODSAnalysis, soiling_srr, soiling_cods

def code_sensor(pv: series, poa_global: series, temperature_cell: opt, temperature_ambient: opt, gamma_pdc: opt, aggregation_freq: str, pv_input: str, windspeed: opt,
                power_expected: opt, temperature_model: opt, power_dc_rated: opt, interp_freq: opt, max_timedelta: opt, ad_hoc: series, ad_hoc2: series, analyses: opt,
                yoy_kwargs: dict, srr_kwargs: dict, filters: dict, filters2: dict):
    ta = TrendAnalysis(pv, poa_global=poa_global, temperature_cell=temperature_cell, temperature_ambient=temperature_ambient, gamma_pdc=gamma_pdc,
                       aggregation_freq=aggregation_freq, pv_input=pv_input, windspeed=windspeed, power_expected=power_expected, temperature_model=temperature_model,
                       power_dc_rated=power_dc_rated, interp_freq=interp_freq, max_timedelta=max_timedelta)
    ta.filter_params['ad_hoc_filter'] = ad_hoc
    ta.filter_params['poa_filter'] = filters
    ta.filter_params_aggregated['ad_hoc_filter'] = ad_hoc2
    ta.filter_params_aggregated['two_way_window_filter'] = filters2
    ta.sensor_analysis(analyses, yoy_kwargs, srr_kwargs)
    return ta.results['sensor'], ta.sensor_aggregated_performance

def code_clearsky(pv: series, poa_global: series, gamma_pdc: opt, aggregation_freq: str, temperature_model: opt,
                  power_dc_rated: opt, max_timedelta: opt, interp_freq: opt, ad_hoc: series, ad_hoc2: series, pvlib_location: dict, pv_azimuth: scalar, pv_tilt: scalar,
                  poa_global_clearsky: opt, temperature_cell_clearsky: opt, temperature_ambient_clearsky: opt, albedo: scalar,
                  solar_position_method: str, analyses: opt, yoy_kwargs: dict, srr_kwargs: dict):
    ta = TrendAnalysis(pv, poa_global=poa_global, gamma_pdc=gamma_pdc,
                       aggregation_freq=aggregation_freq, temperature_model=temperature_model, power_dc_rated=power_dc_rated,
                       max_timedelta=max_timedelta, interp_freq=interp_freq)
    ta.filter_params['ad_hoc_filter'] = ad_hoc
    ta.filter_params_aggregated['ad_hoc_filter'] = ad_hoc2
    ta.set_clearsky(pvlib_location, pv_azimuth, pv_tilt, poa_global_clearsky, temperature_cell_clearsky, temperature_ambient_clearsky, albedo, solar_position_method)
    ta.clearsky_analysis(analyses, yoy_kwargs, srr_kwargs)
    return ta.results['clearsky'], ta.clearsky_aggregated_performance

def code_availability(power_system: series, power_subsystem: frame, energy_cumulative: series, power_expected: series, low_threshold: scalar,
                      relative_sizes: series, power_system_limit: scalar, quantiles: opt, rollup_period: str):
    aa = AvailabilityAnalysis(power_system, power_subsystem, energy_cumulative, power_expected)
    aa.run(low_threshold=low_threshold, relative_sizes=relative_sizes, power_system_limit=power_system_limit, quantiles=quantiles, rollup_period=rollup_period)
    return aa.results, aa.loss_total, aa.loss_subsystem, aa.loss_system, aa.outage_info

def code_srr(energy_normalized_daily: series, insolation_daily: series, precipitation_daily: series, reps: scalar, day_scale: scalar, clean_threshold: opt,
             trim: bool, method: str, clean_criterion: str, precip_threshold: scalar, min_interval_length: scalar, exceedance_prob: scalar,
             confidence_level: scalar, recenter: bool, max_relative_slope_error: scalar, max_negative_step: scalar, outlier_factor: scalar):
    a = SRRAnalysis(energy_normalized_daily, insolation_daily, precipitation_daily)
    return a.run(reps=reps, day_scale=day_scale, clean_threshold=clean_threshold, trim=trim, method=method, clean_criterion=clean_criterion,
                 precip_threshold=precip_threshold, min_interval_length=min_interval_length, exceedance_prob=exceedance_prob, confidence_level=confidence_level,
                 recenter=recenter, max_relative_slope_error=max_relative_slope_error, max_negative_step=max_negative_step, outlier_factor=outlier_factor)

def code_cods(energy_normalized_daily: series, order: opt, degradation_method: str, max_iterations: scalar, cleaning_sensitivity: scalar,
              convergence_criterion: scalar, pruning_iterations: scalar, clean_pruning_sensitivity: scalar, soiling_significance: scalar,
              process_noise: scalar, renormalize_SR: opt, ffill: bool, clip_soiling: bool, verbose: bool):
    a = CODSAnalysis(energy_normalized_daily)
    return a.iterative_signal_decomposition(order=order, degradation_method=degradation_method, max_iterations=max_iterations, cleaning_sensitivity=cleaning_sensitivity,
                                            convergence_criterion=convergence_criterion, pruning_iterations=pruning_iterations,
                                            clean_pruning_sensitivity=clean_pruning_sensitivity, soiling_significance=soiling_significance, process_noise=process_noise,
                                            renormalize_SR=renormalize_SR, ffill=ffill, clip_soiling=clip_soiling, verbose=verbose)
'''

FORWARD = chain.HEAD + '''
from rdtools.filtering import clip_filter, clearsky_filter
from rdtools.normalization import normalize_with_pvwatts, pvwatts_dc_power, normalize_with_expected_power
from rdtools.soiling import SRRAnalysis, CODSAnalysis, soiling_srr, soiling_cods
from rdtools.utilities import robust_median, robust_mean, robust_quantile
from rdtools.degradation import degradation_year_on_year

def code_soiling_srr(e: series, i: series, reps: scalar, rain: series, day_scale: scalar, thr: opt, trim: bool, method: str, crit: str, pth: scalar, mil: scalar,
                     ex: scalar, cl: scalar, rec: bool, mrse: scalar, mns: scalar, of: scalar):
    return soiling_srr(e, i, reps=reps, precipitation_daily=rain, day_scale=day_scale, clean_threshold=thr, trim=trim, method=method, clean_criterion=crit,
                       precip_threshold=pth, min_interval_length=mil, exceedance_prob=ex, confidence_level=cl, recenter=rec, max_relative_slope_error=mrse,
                       max_negative_step=mns, outlier_factor=of)
def spec_soiling_srr(e: series, i: series, reps: scalar, rain: series, day_scale: scalar, thr: opt, trim: bool, method: str, crit: str, pth: scalar, mil: scalar,
                     ex: scalar, cl: scalar, rec: bool, mrse: scalar, mns: scalar, of: scalar):
    a = SRRAnalysis(e, i, precipitation_daily=rain)
    return a.run(reps=reps, day_scale=day_scale, clean_threshold=thr, trim=trim, method=method, clean_criterion=crit, precip_threshold=pth,
                 min_interval_length=mil, exceedance_prob=ex, confidence_level=cl, recenter=rec, max_relative_slope_error=mrse, max_negative_step=mns, outlier_factor=of)

def code_soiling_srr_defaults(e: series, i: series):
    return soiling_srr(e, i)
def spec_soiling_srr_defaults(e: series, i: series):
    return SRRAnalysis(e, i).run()

def code_clip_quantile(x: series, q: scalar):
    return clip_filter(x, 'quantile', quantile=q)
def spec_clip_quantile(x: series, q: scalar):
    return filtering.quantile_clip_filter(x, quantile=q)
def code_clip_logic(x: series, m: str, r: scalar):
    return clip_filter(x, 'logic', mounting_type=m, rolling_range_max_cutoff=r)
def spec_clip_logic(x: series, m: str, r: scalar):
    return filtering.logic_clip_filter(x, mounting_type=m, rolling_range_max_cutoff=r)
def code_clip_default(x: series, m: str, r: scalar):
    return clip_filter(x, mounting_type=m, rolling_range_max_cutoff=r)
def spec_clip_default(x: series, m: str, r: scalar):
    return filtering.logic_clip_filter(x, mounting_type=m, rolling_range_max_cutoff=r)
def code_clip_xgboost(x: series, m: str):
    return clip_filter(x, 'xgboost', mounting_type=m)
def spec_clip_xgboost(x: series, m: str):
    return filtering.xgboost_clip_filter(x, mounting_type=m)
def code_clearsky_csi(x: series, y: series, t: scalar):
    return clearsky_filter(x, y, 'csi', threshold=t)
def spec_clearsky_csi(x: series, y: series, t: scalar):
    return filtering.csi_filter(x, y, threshold=t)
def code_clearsky_pvlib(x: series, y: series, w: scalar, me: scalar, ma: scalar, lo: scalar, up: scalar, va: scalar, sl: scalar, lk: bool):
    return clearsky_filter(x, y, 'pvlib', window_length=w, mean_diff=me, max_diff=ma, lower_line_length=lo, upper_line_length=up, var_diff=va, slope_dev=sl, lookup_parameters=lk)
def spec_clearsky_pvlib(x: series, y: series, w: scalar, me: scalar, ma: scalar, lo: scalar, up: scalar, va: scalar, sl: scalar, lk: bool):
    return filtering.pvlib_clearsky_filter(x, y, window_length=w, mean_diff=me, max_diff=ma, lower_line_length=lo, upper_line_length=up, var_diff=va, slope_dev=sl, lookup_parameters=lk)
def code_clearsky_default(x: series, y: series, kw: dict):
    return clearsky_filter(x, y, **kw)
def spec_clearsky_default(x: series, y: series, kw: dict):
    return filtering.pvlib_clearsky_filter(x, y, **kw)

def code_interpolate_frame(d: frame, t: index, m: opt, w: scalar):
    return interpolate(d, t, max_timedelta=m, warning_threshold=w)
def spec_interpolate_frame(d: frame, t: index, m: opt, w: scalar):
    return pd.concat([normalization._interpolate_series(d[c], t, max_timedelta=m, warning_threshold=w) for c in d.columns], axis=1)

def code_pvwatts(e: series, p: scalar, poa: series, t: series, pr: scalar, tr: scalar, g: scalar):
    a, b = normalize_with_pvwatts(e, {'power_dc_rated': p, 'poa_global': poa, 'temperature_cell': t, 'poa_global_ref': pr, 'temperature_cell_ref': tr, 'gamma_pdc': g})
    return a, b
def spec_pvwatts(e: series, p: scalar, poa: series, t: series, pr: scalar, tr: scalar, g: scalar):
    a, b = normalize_with_expected_power(e, pvwatts_dc_power(poa_global=poa, power_dc_rated=p, temperature_cell=t, poa_global_ref=pr, temperature_cell_ref=tr, gamma_pdc=g),
                                         poa, pv_input='energy')
    return a, b
def code_pvwatts_plain(e: series, p: scalar, poa: series):
    a, b = normalize_with_pvwatts(e, {'power_dc_rated': p, 'poa_global': poa})
    return a, b
def spec_pvwatts_plain(e: series, p: scalar, poa: series):
    a, b = normalize_with_expected_power(e, pvwatts_dc_power(poa_global=poa, power_dc_rated=p), poa, pv_input='energy')
    return a, b

def code_sensor_options(pv: series, poa: series, t: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'], yoy_kwargs=y, srr_kwargs=s)
    return ta.results['sensor']
def spec_sensor_options(pv: series, poa: series, t: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    rd, ci, info = degradation.degradation_year_on_year(ta.sensor_aggregated_performance, **y)
    sr, sci, sinfo = soiling.soiling_srr(ta.sensor_aggregated_performance, ta.sensor_aggregated_insolation, **s)
    return {'yoy_degradation': {'p50_rd': rd, 'rd_confidence_interval': ci, 'calc_info': info},
            'srr_soiling': {'p50_sratio': sr, 'sratio_confidence_interval': sci, 'calc_info': sinfo}}

def code_clearsky_options(pv: series, poa: series, pcs: series, tcs: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, gamma_pdc=g)
    ta.set_clearsky(poa_global_clearsky=pcs, temperature_cell_clearsky=tcs)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'], yoy_kwargs=y, srr_kwargs=s)
    return ta.results['clearsky']
def spec_clearsky_options(pv: series, poa: series, pcs: series, tcs: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, gamma_pdc=g)
    ta.set_clearsky(poa_global_clearsky=pcs, temperature_cell_clearsky=tcs)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'])
    rd, ci, info = degradation.degradation_year_on_year(ta.clearsky_aggregated_performance, **y)
    sr, sci, sinfo = soiling.soiling_srr(ta.clearsky_aggregated_performance, ta.clearsky_aggregated_insolation, **s)
    return {'yoy_degradation': {'p50_rd': rd, 'rd_confidence_interval': ci, 'calc_info': info},
            'srr_soiling': {'p50_sratio': sr, 'sratio_confidence_interval': sci, 'calc_info': sinfo}}

def done(pv, poa, t, g):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    return ta
def done_cs(pv, poa, pcs, tcs, g):
    ta = TrendAnalysis(pv, poa_global=poa, gamma_pdc=g)
    ta.set_clearsky(poa_global_clearsky=pcs, temperature_cell_clearsky=tcs)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'])
    return ta
def code_plots(pv: series, poa: series, t: series, g: scalar, kw: dict, days: scalar):
    ta = done(pv, poa, t, g)
    return {'summary': ta.plot_degradation_summary('sensor', **kw), 'monte': ta.plot_soiling_monte_carlo('sensor', **kw), 'interval': ta.plot_soiling_interval('sensor', **kw),
            'rates': ta.plot_soiling_rate_histogram('sensor', **kw), 'series': ta.plot_degradation_timeseries('sensor', rolling_days=days, **kw),
            'plain': ta.plot_degradation_timeseries('sensor')}
def spec_plots(pv: series, poa: series, t: series, g: scalar, kw: dict, days: scalar):
    ta = done(pv, poa, t, g)
    y, s = ta.results['sensor']['yoy_degradation'], ta.results['sensor']['srr_soiling']
    a = ta.sensor_aggregated_performance
    return {'summary': plotting.degradation_summary_plots(y['p50_rd'], y['rd_confidence_interval'], y['calc_info'], a, **kw),
            'monte': plotting.soiling_monte_carlo_plot(s['calc_info'], a, **kw), 'interval': plotting.soiling_interval_plot(s['calc_info'], a, **kw),
            'rates': plotting.soiling_rate_histogram(s['calc_info'], **kw),
            'series': plotting.degradation_timeseries_plot(y['calc_info'], rolling_days=days, **kw), 'plain': plotting.degradation_timeseries_plot(y['calc_info'])}
def code_plots_clearsky(pv: series, poa: series, pcs: series, tcs: series, g: scalar, kw: dict, days: scalar):
    ta = done_cs(pv, poa, pcs, tcs, g)
    return {'summary': ta.plot_degradation_summary('clearsky', **kw), 'monte': ta.plot_soiling_monte_carlo('clearsky', **kw),
            'interval': ta.plot_soiling_interval('clearsky', **kw), 'rates': ta.plot_soiling_rate_histogram('clearsky', **kw),
            'series': ta.plot_degradation_timeseries('clearsky', rolling_days=days, **kw)}
def spec_plots_clearsky(pv: series, poa: series, pcs: series, tcs: series, g: scalar, kw: dict, days: scalar):
    ta = done_cs(pv, poa, pcs, tcs, g)
    y, s = ta.results['clearsky']['yoy_degradation'], ta.results['clearsky']['srr_soiling']
    a = ta.clearsky_aggregated_performance
    return {'summary': plotting.degradation_summary_plots(y['p50_rd'], y['rd_confidence_interval'], y['calc_info'], a, **kw),
            'monte': plotting.soiling_monte_carlo_plot(s['calc_info'], a, **kw), 'interval': plotting.soiling_interval_plot(s['calc_info'], a, **kw),
            'rates': plotting.soiling_rate_histogram(s['calc_info'], **kw), 'series': plotting.degradation_timeseries_plot(y['calc_info'], rolling_days=days, **kw)}
'''
WRAPS = (('soiling', 'soiling_srr', 'soiling', 'SRRAnalysis.run'), ('soiling', 'soiling_srr', 'soiling', 'SRRAnalysis.__init__'),
         ('soiling', 'soiling_cods', 'soiling', 'CODSAnalysis.run_bootstrap'))
DATA_OPAQUE = tuple(x for x in chain.OPAQUE if x not in ('interpolate', 'clip_filter', 'clearsky_filter', 'normalize_with_pvwatts', 'soiling_srr')) + (
    'quantile_clip_filter', 'logic_clip_filter', 'xgboost_clip_filter', 'csi_filter', 'pvlib_clearsky_filter', 'pvwatts_dc_power', 'robust_quantile', '_interpolate_series')
CHAIN_OPAQUE = chain.OPAQUE

# (entry text, callee, {callee option: entry parameter})
CALLS = '''
from rdtools.soiling import CODSAnalysis, soiling_cods, SRRAnalysis, soiling_srr
from rdtools import degradation

def call_soiling_cods(e: series, reps: scalar, cl: scalar, dm: str, pn: scalar, oa: opt, ca: opt, pa: opt, fa: opt, verbose: bool, ss: scalar, bs: scalar):
    return soiling_cods(e, reps=reps, confidence_level=cl, degradation_method=dm, process_noise=pn, order_alternatives=oa, cleaning_sensitivity_alternatives=ca,
                        clean_pruning_sensitivity_alternatives=pa, forward_fill_alternatives=fa, verbose=verbose, soiling_significance=ss, bootstrap_seed=bs)

def call_run_bootstrap(e: series, reps: scalar, dm: str, pn: scalar, ss: scalar, cc: scalar):
    return CODSAnalysis(e).run_bootstrap(reps=reps, degradation_method=dm, process_noise=pn, soiling_significance=ss, convergence_criterion=cc)

def call_yoy(e: series, b: scalar):
    return degradation.degradation_year_on_year(e, uncertainty_method='circular_block', block_length=b)

def call_decomposition(e: series, o: opt, dm: str, mi: scalar, cs: scalar, cc: scalar, pi: scalar, ps: scalar, ss: scalar, pn: scalar, rn: opt, ff: bool, clip: bool):
    return CODSAnalysis(e).iterative_signal_decomposition(order=o, degradation_method=dm, max_iterations=mi, cleaning_sensitivity=cs, convergence_criterion=cc,
                                                          pruning_iterations=pi, clean_pruning_sensitivity=ps, soiling_significance=ss, process_noise=pn,
                                                          renormalize_SR=rn, ffill=ff, clip_soiling=clip)
'''
COD = {'reps': 'reps', 'confidence_level': 'cl', 'degradation_method': 'dm', 'process_noise': 'pn', 'order_alternatives': 'oa', 'cleaning_sensitivity_alternatives': 'ca',
       'clean_pruning_sensitivity_alternatives': 'pa', 'forward_fill_alternatives': 'fa', 'verbose': 'verbose', 'soiling_significance': 'ss', 'bootstrap_seed': 'bs'}
EXPECT = {'decomposition': ('CODSAnalysis._Kalman_filter_for_SR', {'pruning_iterations': 'pi', 'clip_soiling': 'clip', 'process_noise': 'pn', 'renormalize_SR': 'rn', 'ffill': 'ff'}),
          'decomposition/detection': ('_rolling_median_ce_detection', {'ffill': 'ff'}),
          'yoy': ('_make_time_series_bootstrap_samples', {'block_length': 'b'}),
          'soiling_cods': ('CODSAnalysis.run_bootstrap', COD),
          'run_bootstrap': ('CODSAnalysis.iterative_signal_decomposition', {'degradation_method': 'dm', 'soiling_significance': 'ss', 'convergence_criterion': 'cc'})}
EFFECTS = ('raise', 'warn', 'print', 'ext', 'mcall', 'rng')


def params_of(ts):
    names, hidden = set(), False
    todo, seen = list(ts), set()
    while todo:
        t = todo.pop()
        if isinstance(t, (list, tuple, set, frozenset)):
            todo.extend(t)
        elif isinstance(t, dict):
            todo.extend(t.values())
        elif isinstance(t, T):
            for s in subterms(t):
                if s.id not in seen:
                    seen.add(s.id)
                    if s.op == 'param':
                        names.add(s.a[0].lstrip('*'))
                    elif s.op in ('mu', 'unk', 'unkcond'):
                        hidden = True
    return names, hidden


def effects(it):
    out = []
    for e in it.events:
        if e.kind in EFFECTS:
            out.append([c for c, _ in e.pc])
            out.append([v for k, v in e.d.items() if k not in ('env',)])
    return out


def built(it):
    # every value the analysed code computes
    return [t for t in list(terms._table.values()) if t.id in it.loc and t.op not in ('param', 'const')]


def influence(ctx, name, it, t, params, reporting, where):
    got, hidden = params_of([t] if t is not None else [])
    eff, h2 = params_of(effects(it))
    for p in params:
        if p in got or (reporting(p) and p in eff):
            ctx.ob('influence.%s.%s' % (name, p), HOLDS, RULE_I)
        elif hidden or it.unknown or h2 and reporting(p):
            # values carried round a loop or an unmodelled construct hide dependencies
            used = params_of(built(it))[0]
            ctx.ob('influence.%s.%s' % (name, p), INCONCLUSIVE if p in used else VIOLATED, RULE_I, where,
                   'no dependency of the outcome on `%s` found; loop-carried or unmodelled values are present' % p)
        else:
            ctx.ob('influence.%s.%s' % (name, p), VIOLATED, RULE_I, where, 'nothing %s returns or stores depends on its parameter `%s`' % (name, p))


def documented(fn):
    # parameters the docstring documents, with the default it states (text) if any
    doc = ast.get_docstring(fn.node) or ''
    out = {}
    for m in re.finditer(r'^\s*(\w+(?:, ?\w+)*) ?: ([^\n]*)', doc, re.M):
        d = re.search(r'\bdefault(?: is)?[:= ]\s*([^\n]+?)\s*,?\s*$', m.group(2))
        for nm in re.split(r', ?', m.group(1)):
            out.setdefault(nm, d.group(1) if d else None)
    return out


def literal(text):
    try:
        return True, ev(ast.parse(text, mode='eval').body)
    except Exception:
        return False, None


def ev(n):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, (ast.Tuple, ast.List)):
        return tuple(ev(x) for x in n.elts)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -ev(n.operand)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.Mult, ast.Add, ast.Sub)):
        a, b = ev(n.left), ev(n.right)
        return a / b if isinstance(n.op, ast.Div) else a * b if isinstance(n.op, ast.Mult) else a + b if isinstance(n.op, ast.Add) else a - b
    if isinstance(n, ast.Dict) and not n.keys:
        return {}
    raise ValueError


def sig_default(fn, p):
    d = fn.defaults.get(p)
    if d is None:
        return False, None
    try:
        return True, ev(d)
    except ValueError:
        return False, None


def doc_defaults(ctx, mod, fn):
    doc = documented(fn)
    for p in fn.params + fn.kwonly:
        if p not in fn.defaults or not doc.get(p):
            continue
        ok, want = literal(doc[p])
        if not ok:
            continue
        ok2, have = sig_default(fn, p)
        name = 'documented_default.%s.%s' % (fn.qual, p)
        where = '%s:%d (%s)' % (mod.rel, fn.node.lineno, fn.qual)
        if ok2 and type(have) in (int, float) and type(want) in (int, float) and have == want or ok2 and have == want and type(have) is type(want):
            ctx.ob(name, HOLDS, RULE_D)
            continue
        # (the signature may hold a placeholder that the body resolves)
        if ok2 and have is not None:
            ctx.ob(name, VIOLATED, RULE_D, where, 'the default of `%s` is %r; its documentation states %s' % (p, have, doc[p]))
        else:
            ctx.ob(name, INCONCLUSIVE, RULE_D, where, 'the default of `%s` is not a literal' % p)


def wrapper_defaults(ctx):
    for m1, f1, m2, f2 in WRAPS:
        a, b = ctx.prog.func(m1, f1), ctx.prog.func(m2, f2)
        if a is None or b is None:
            ctx.ob('wrapper_default.%s' % f1, INCONCLUSIVE, RULE_D, '', 'wrapped routine not found')
            continue
        for p in a.params + a.kwonly:
            if p in b.params + b.kwonly and p in a.defaults and p in b.defaults:
                x, y = sig_default(a, p), sig_default(b, p)
                name = 'wrapper_default.%s.%s' % (f1, p)
                if not (x[0] and y[0]):
                    ctx.ob(name, INCONCLUSIVE, RULE_D, '', 'default is not a literal')
                elif x[1] == y[1]:
                    ctx.ob(name, HOLDS, RULE_D)
                elif x[1] is None or y[1] is None:
                    ctx.ob(name, INCONCLUSIVE, RULE_D, '', 'a placeholder default')
                else:
                    ctx.ob(name, VIOLATED, RULE_D, '%s:%d (%s)' % (a.mod.rel, a.node.lineno, f1),
                           'the default of `%s` is %r, the wrapped %s has %r' % (p, x[1], f2, y[1]))


def calls(ctx):
    m = SpecMod(ctx.prog, CALLS)
    for nm, (callee, want) in EXPECT.items():
        try:
            it, st, v, t, ty = ctx.run_text(m, 'call_' + nm.split('/')[0], opaque=(callee,))
        except Exception as ex:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob('forward.' + nm, INCONCLUSIVE, RULE_F, '', repr(ex)[:200])
            continue
        evs = [e for e in it.events if e.kind == 'call' and e.d['callee'].qual == callee]
        if not evs:
            ctx.ob('forward.' + nm, INCONCLUSIVE, RULE_F, '', 'no call of %s found' % callee)
            continue
        for e in evs:
            args = dict(e.d['args'])
            extra = {}
            kw = args.get(e.d['callee'].kwarg) if e.d['callee'].kwarg else None
            if kw is not None and kw.op == 'dict':
                extra = {k.a[0]: x for k, x in kw.a[0] if k.op == 'const'}
            for opt, src in want.items():
                val = args.get(opt, extra.get(opt))
                name = 'forward.%s.%s' % (nm, opt)
                if val is None:
                    known = opt in e.d['callee'].params + e.d['callee'].kwonly
                    ctx.ob(name, VIOLATED if known or kw is None or kw.op == 'dict' else INCONCLUSIVE, RULE_F, e.where, 'option `%s` is not passed on to %s' % (opt, callee))
                elif val.op == 'param' and val.a[0] == src:
                    ctx.ob(name, HOLDS, RULE_F)
                elif src in params_of([val])[0] or params_of([val])[1]:
                    # a value computed from the option (or carried round a loop)
                    ctx.ob(name, INCONCLUSIVE, RULE_F, e.where, 'option `%s` arrives as %s' % (opt, show(val, 4)))
                else:
                    ctx.ob(name, VIOLATED, RULE_F, e.where, 'option `%s` of %s receives %s instead of the value given' % (opt, callee, show(val, 4)))


def check(ctx):
    for mod, q in (('soiling', 'soiling_srr'), ('soiling', 'soiling_cods'), ('soiling', 'SRRAnalysis.run'), ('soiling', 'CODSAnalysis.run_bootstrap'),
                   ('analysis_chains', 'TrendAnalysis.sensor_analysis'), ('availability', 'AvailabilityAnalysis.run'), ('normalization', 'interpolate')):
        ctx.need(mod, q)
    for mod, fn in E.public_functions(ctx.prog):
        doc = documented(fn)
        ps = [p for p in fn.params + fn.kwonly if p in doc and p not in ('fig', 'ax')]
        if fn.kwarg and fn.kwarg in doc:
            ps.append(fn.kwarg)
        doc_defaults(ctx, mod, fn)
        try:
            it, st, v = E.run_function(ctx, fn, opaque=('CODSAnalysis.iterative_signal_decomposition',) if fn.qual == 'soiling_cods' else ())
            t = it.term(v, st) if st is not None else None
        except Exception as ex:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob('influence.' + fn.qual, INCONCLUSIVE, RULE_I, '', 'construct outside the analysed language: %s' % repr(ex)[:200])
            continue
        if t is None:
            ctx.ob('influence.' + fn.qual, INCONCLUSIVE, RULE_I, '', 'no normal outcome')
            continue
        influence(ctx, fn.qual, it, t, ps, lambda p: fn.qual in DRAWING or (fn.qual, p) in REPORTING, '%s:%d (%s)' % (mod.rel, fn.node.lineno, fn.qual))
    m = SpecMod(ctx.prog, OBJECTS)
    for n in [x for x in m.functions if x.startswith('code_')]:
        op = chain.OPAQUE if n in ('code_sensor', 'code_clearsky') else ()
        try:
            it, st, v, t, ty = ctx.run_text(m, n, opaque=op)
        except Exception as ex:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob('influence.' + n[5:], INCONCLUSIVE, RULE_I, '', 'construct outside the analysed language: %s' % repr(ex)[:200])
            continue
        if t is None:
            ctx.ob('influence.' + n[5:], INCONCLUSIVE, RULE_I, '', 'no normal outcome')
            continue
        influence(ctx, n[5:], it, t, m.functions[n].params, lambda p: (n[5:], p) in REPORT_T, CLASSWHERE.get(n[5:], ''))
    for mod in ctx.prog.mods.values():
        for c in getattr(mod, 'classes', {}).values():
            for fn in c.methods.values():
                if not fn.name.startswith('_') or fn.name == '__init__':
                    doc_defaults(ctx, mod, fn)
    wrapper_defaults(ctx)
    ctx.formulas(FORWARD, RULE_F, opts={'*': {'opaque': DATA_OPAQUE}, **{k: {'opaque': CHAIN_OPAQUE} for k in (
        'sensor_options', 'clearsky_options', 'plots', 'plots_clearsky')}}, prefix='forward.')
    # each filter parameter dictionary reaches its filter (C08 decides which filters apply)
    ctx.formulas(c08.BASE + ''.join(c08.case_text(c + '_filters', c, list(c08.ROW), list(c08.AGG)) for c in ('sensor', 'clearsky')), RULE_F,
                 opts={'*': {'opaque': chain.OPAQUE}}, prefix='forward.', comps=lambda n: 'components' in n)
    calls(ctx)
