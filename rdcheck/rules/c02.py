"""Results do not depend on earlier calls."""
import os
from .. import framework as F
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod
from . import entries as E, chain
EXPLAIN = ('Two analyses. (1) Effects: every write in every public entry point is collected with the storage it reaches; none may reach a module-level object, a class '
           'attribute, a default argument value, a function attribute or a library setting. (2) History: each analysis object is driven through a second run after '
           'another run with other unknown options, and the value-flow graph of everything the second run returns or stores must equal the graph a fresh object produces.')
ASSUME = ['library calls have no hidden state besides the random generator, which C03 covers', 'the settings are the constructor arguments, set_clearsky and the filter dictionaries']
RULE_E = 'no write reaches state that outlives the call'
RULE_H = 'a run after earlier runs produces the values a fresh object produces'
# library calls that change process-wide settings
GLOBAL_CALLS = ('pandas.set_option', 'numpy.seterr', 'numpy.set_printoptions', 'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings',
                'matplotlib.use', 'matplotlib.pyplot.style.use', 'matplotlib.rc', 'matplotlib.pyplot.rc', 'os.chdir', 'os.putenv', 'locale.setlocale',
                'pandas.plotting.register_matplotlib_converters', 'pandas.options', 'numpy.seterrcall', 'os.environ.update', 'os.environ.setdefault')
SETTABLE = ('pandas.options', 'matplotlib.rcParams', 'matplotlib.pyplot.rcParams', 'os.environ', 'sys.modules')

HIST = chain.HEAD + '''
from rdtools.availability import AvailabilityAnalysis
from rdtools.soiling import SRRAnalysis, CODSAnalysis

def mk_ta(pv, poa, tc, tamb, gamma, freq, wind, exp, model, rated, limit):
    return TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, temperature_ambient=tamb, gamma_pdc=gamma, aggregation_freq=freq, windspeed=wind,
                         power_expected=exp, temperature_model=model, power_dc_rated=rated, max_timedelta=limit)

def sensor_out(ta):
    return {'results': ta.results['sensor'], 'filter': ta.sensor_filter, 'filter_agg': ta.sensor_filter_aggregated, 'perf': ta.sensor_aggregated_performance,
            'ins': ta.sensor_aggregated_insolation, 'comp': ta.sensor_filter_components, 'comp_agg': ta.sensor_filter_components_aggregated}

def cs_out(ta):
    return {'results': ta.results['clearsky'], 'filter': ta.clearsky_filter, 'filter_agg': ta.clearsky_filter_aggregated, 'perf': ta.clearsky_aggregated_performance,
            'ins': ta.clearsky_aggregated_insolation, 'comp': ta.clearsky_filter_components, 'comp_agg': ta.clearsky_filter_components_aggregated}

def code_sensor_twice(pv: series, poa: series, tc: opt, tamb: opt, gamma: opt, freq: str, wind: opt, exp: opt, model: opt, rated: opt, limit: opt, a1: dict, y1: dict, s1: dict, y2: dict, s2: dict):
    ta = mk_ta(pv, poa, tc, tamb, gamma, freq, wind, exp, model, rated, limit)
    ta.sensor_analysis(a1, y1, s1)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'], y2, s2)
    return sensor_out(ta)
def spec_sensor_twice(pv: series, poa: series, tc: opt, tamb: opt, gamma: opt, freq: str, wind: opt, exp: opt, model: opt, rated: opt, limit: opt, a1: dict, y1: dict, s1: dict, y2: dict, s2: dict):
    ta = mk_ta(pv, poa, tc, tamb, gamma, freq, wind, exp, model, rated, limit)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'], y2, s2)
    return sensor_out(ta)

def code_sensor_default_twice(pv: series, poa: series, tc: series, gamma: scalar):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=gamma)
    ta.sensor_analysis(['srr_soiling'])
    ta.sensor_analysis()
    return ta.results
def spec_sensor_default_twice(pv: series, poa: series, tc: series, gamma: scalar):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=gamma)
    ta.sensor_analysis()
    return ta.results

def code_sensor_narrower(pv: series, poa: series, tc: series, gamma: scalar):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=gamma)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    ta.sensor_analysis(['srr_soiling'])
    return len(ta.results['sensor']), 'yoy_degradation' in ta.results['sensor']
def spec_sensor_narrower(pv: series, poa: series, tc: series, gamma: scalar):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=gamma)
    ta.sensor_analysis(['srr_soiling'])
    return len(ta.results['sensor']), 'yoy_degradation' in ta.results['sensor']

def code_refiltered(pv: series, poa: series, tc: series, gamma: scalar, ad1: series, lo1: scalar, hi: scalar):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=gamma)
    ta.filter_params = {'normalized_filter': {}, 'poa_filter': {'poa_global_low': lo1}, 'ad_hoc_filter': ad1}
    ta.filter_params_aggregated = {'hampel_filter': {}}
    ta.sensor_analysis()
    ta.filter_params = {'tcell_filter': {'temperature_cell_high': hi}}
    ta.filter_params_aggregated = {'two_way_window_filter': {}}
    ta.sensor_analysis()
    return sensor_out(ta)
def spec_refiltered(pv: series, poa: series, tc: series, gamma: scalar, ad1: series, lo1: scalar, hi: scalar):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=gamma)
    ta.filter_params = {'tcell_filter': {'temperature_cell_high': hi}}
    ta.filter_params_aggregated = {'two_way_window_filter': {}}
    ta.sensor_analysis()
    return sensor_out(ta)

def code_two_objects(pv: series, poa: series, tc: series, gamma: scalar, ad1: series, lo1: scalar):
    other = TrendAnalysis(poa, poa_global=pv, temperature_cell=tc, gamma_pdc=gamma)
    other.filter_params['ad_hoc_filter'] = ad1
    other.filter_params['poa_filter'] = {'poa_global_low': lo1}
    other.filter_params_aggregated['ad_hoc_filter'] = ad1
    del other.filter_params['clip_filter']
    other.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=gamma)
    ta.sensor_analysis()
    return sensor_out(ta)
def spec_two_objects(pv: series, poa: series, tc: series, gamma: scalar, ad1: series, lo1: scalar):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=gamma)
    ta.sensor_analysis()
    return sensor_out(ta)

def mk_cs(pv, poa, tamb, gamma, wind, rated, loc, az, tilt, pcs, tcs, tacs, alb):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_ambient=tamb, gamma_pdc=gamma, windspeed=wind, power_dc_rated=rated)
    ta.set_clearsky(loc, az, tilt, pcs, tcs, tacs, alb)
    return ta

def code_clearsky_twice(pv: series, poa: series, tamb: series, gamma: scalar, wind: opt, rated: opt, loc: dict, az: scalar, tilt: scalar, pcs: opt, tcs: opt, tacs: opt, alb: scalar, a1: dict, y1: dict, s1: dict, y2: dict, s2: dict):
    ta = mk_cs(pv, poa, tamb, gamma, wind, rated, loc, az, tilt, pcs, tcs, tacs, alb)
    ta.clearsky_analysis(a1, y1, s1)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'], y2, s2)
    return cs_out(ta)
def spec_clearsky_twice(pv: series, poa: series, tamb: series, gamma: scalar, wind: opt, rated: opt, loc: dict, az: scalar, tilt: scalar, pcs: opt, tcs: opt, tacs: opt, alb: scalar, a1: dict, y1: dict, s1: dict, y2: dict, s2: dict):
    ta = mk_cs(pv, poa, tamb, gamma, wind, rated, loc, az, tilt, pcs, tcs, tacs, alb)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'], y2, s2)
    return cs_out(ta)

def code_clearsky_after_sensor(pv: series, poa: series, tamb: series, gamma: scalar, wind: opt, rated: opt, loc: dict, az: scalar, tilt: scalar, pcs: opt, tcs: opt, tacs: opt, alb: scalar, a1: dict, y1: dict, s1: dict, y2: dict, s2: dict):
    ta = mk_cs(pv, poa, tamb, gamma, wind, rated, loc, az, tilt, pcs, tcs, tacs, alb)
    ta.sensor_analysis(a1, y1, s1)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'], y2, s2)
    return cs_out(ta)
def spec_clearsky_after_sensor(pv: series, poa: series, tamb: series, gamma: scalar, wind: opt, rated: opt, loc: dict, az: scalar, tilt: scalar, pcs: opt, tcs: opt, tacs: opt, alb: scalar, a1: dict, y1: dict, s1: dict, y2: dict, s2: dict):
    ta = mk_cs(pv, poa, tamb, gamma, wind, rated, loc, az, tilt, pcs, tcs, tacs, alb)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'], y2, s2)
    return cs_out(ta)

def code_sensor_after_clearsky(pv: series, poa: series, tamb: series, gamma: scalar, wind: opt, rated: opt, loc: dict, az: scalar, tilt: scalar, pcs: opt, tcs: opt, tacs: opt, alb: scalar, a1: dict, y1: dict, s1: dict, y2: dict, s2: dict):
    ta = mk_cs(pv, poa, tamb, gamma, wind, rated, loc, az, tilt, pcs, tcs, tacs, alb)
    ta.filter_params['sensor_clearsky_filter'] = {}
    ta.clearsky_analysis(a1, y1, s1)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'], y2, s2)
    return sensor_out(ta)
def spec_sensor_after_clearsky(pv: series, poa: series, tamb: series, gamma: scalar, wind: opt, rated: opt, loc: dict, az: scalar, tilt: scalar, pcs: opt, tcs: opt, tacs: opt, alb: scalar, a1: dict, y1: dict, s1: dict, y2: dict, s2: dict):
    ta = mk_cs(pv, poa, tamb, gamma, wind, rated, loc, az, tilt, pcs, tcs, tacs, alb)
    ta.filter_params['sensor_clearsky_filter'] = {}
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'], y2, s2)
    return sensor_out(ta)

def code_clearsky_reset(pv: series, poa: series, tamb: series, gamma: scalar, wind: opt, rated: opt, loc1: dict, az1: scalar, tilt1: scalar, pcs1: opt, tcs1: opt, tacs1: opt, alb1: scalar, loc2: dict, az2: scalar, tilt2: scalar, alb2: scalar, y2: dict):
    ta = mk_cs(pv, poa, tamb, gamma, wind, rated, loc1, az1, tilt1, pcs1, tcs1, tacs1, alb1)
    ta.clearsky_analysis()
    ta.set_clearsky(loc2, az2, tilt2, albedo=alb2)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'], y2)
    return cs_out(ta)
def spec_clearsky_reset(pv: series, poa: series, tamb: series, gamma: scalar, wind: opt, rated: opt, loc1: dict, az1: scalar, tilt1: scalar, pcs1: opt, tcs1: opt, tacs1: opt, alb1: scalar, loc2: dict, az2: scalar, tilt2: scalar, alb2: scalar, y2: dict):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_ambient=tamb, gamma_pdc=gamma, windspeed=wind, power_dc_rated=rated)
    ta.set_clearsky(loc2, az2, tilt2, albedo=alb2)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'], y2)
    return cs_out(ta)

def code_plots_leave_results(pv: series, poa: series, tc: series, gamma: scalar, kw: dict):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=gamma)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    ta.plot_degradation_summary('sensor', **kw)
    ta.plot_soiling_monte_carlo('sensor', **kw)
    ta.plot_soiling_interval('sensor', **kw)
    ta.plot_soiling_rate_histogram('sensor', **kw)
    ta.plot_pv_vs_irradiance('sensor')
    ta.plot_degradation_timeseries('sensor')
    return sensor_out(ta)
def spec_plots_leave_results(pv: series, poa: series, tc: series, gamma: scalar, kw: dict):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, gamma_pdc=gamma)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    return sensor_out(ta)
'''
AVAIL = '''
import pandas as pd
from rdtools.availability import AvailabilityAnalysis

def out(aa):
    return {'results': aa.results, 'loss_total': aa.loss_total, 'loss_system': aa.loss_system, 'loss_subsystem': aa.loss_subsystem, 'outage_info': aa.outage_info,
            'error_info': aa.error_info, 'mask': aa.reporting_mask, 'corrected': aa.energy_cumulative_corrected, 'rescaled': aa.power_expected_rescaled,
            'erescaled': aa.energy_expected_rescaled}

def code_availability_twice(p: series, sub: frame, e: series, x: series, lo1: opt, sz1: opt, lim1: opt, q1: opt, r1: str, lo: opt, sz: opt, lim: opt, q: opt, r: str):
    aa = AvailabilityAnalysis(p, sub, e, x)
    aa.run(lo1, sz1, lim1, q1, r1)
    aa.run(lo, sz, lim, q, r)
    return out(aa)
def spec_availability_twice(p: series, sub: frame, e: series, x: series, lo1: opt, sz1: opt, lim1: opt, q1: opt, r1: str, lo: opt, sz: opt, lim: opt, q: opt, r: str):
    aa = AvailabilityAnalysis(p, sub, e, x)
    aa.run(lo, sz, lim, q, r)
    return out(aa)
'''
SETTINGS = chain.HEAD + '''
from rdtools.availability import AvailabilityAnalysis
from rdtools.soiling import SRRAnalysis, CODSAnalysis

def avail(aa):
    return aa.power_system, aa.power_subsystem, aa.energy_cumulative, aa.power_expected
def code_availability(p: series, sub: frame, e: series, x: series, lo: opt, sz: opt, lim: opt, q: opt, r: str):
    aa = AvailabilityAnalysis(p, sub, e, x)
    aa.run(lo, sz, lim, q, r)
    return avail(aa)
def spec_availability(p: series, sub: frame, e: series, x: series, lo: opt, sz: opt, lim: opt, q: opt, r: str):
    return avail(AvailabilityAnalysis(p, sub, e, x))

def code_srr(e: series, ins: series, rain: series, reps: scalar, trim: bool, m: str, cc: str):
    a = SRRAnalysis(e, ins, rain)
    a.run(reps=reps, trim=trim, method=m, clean_criterion=cc)
    return a.pm, a.insolation_daily, a.precipitation_daily
def spec_srr(e: series, ins: series, rain: series, reps: scalar, trim: bool, m: str, cc: str):
    a = SRRAnalysis(e, ins, rain)
    return a.pm, a.insolation_daily, a.precipitation_daily

def code_cods(e: series, o: opt, d: str, mi: scalar, ff: bool):
    a = CODSAnalysis(e)
    a.iterative_signal_decomposition(o, d, mi, ffill=ff)
    return a.pm
def spec_cods(e: series, o: opt, d: str, mi: scalar, ff: bool):
    return CODSAnalysis(e).pm

def settings(ta):
    return {'pv_power': ta.pv_power, 'pv_energy': ta.pv_energy, 'poa_global': ta.poa_global, 'temperature_cell': ta.temperature_cell,
            'temperature_ambient': ta.temperature_ambient, 'gamma_pdc': ta.gamma_pdc, 'aggregation_freq': ta.aggregation_freq, 'windspeed': ta.windspeed,
            'temperature_model': ta.temperature_model, 'power_dc_rated': ta.power_dc_rated, 'max_timedelta': ta.max_timedelta,
            'interp_freq': ta.interp_freq, 'poa_cs': ta.poa_global_clearsky, 'tc_cs': ta.temperature_cell_clearsky, 'ta_cs': ta.temperature_ambient_clearsky,
            'loc': ta.pvlib_location, 'az': ta.pv_azimuth, 'tilt': ta.pv_tilt, 'albedo': ta.albedo, 'fp': ta.filter_params['poa_filter'],
            'fpa': ta.filter_params_aggregated['two_way_window_filter'], 'nfp': len(ta.filter_params), 'nfpa': len(ta.filter_params_aggregated)}
def given(pv, poa, tc, tamb, gamma, freq, wind, model, rated, limit, loc, az, tilt, pcs, tcs, tacs, alb, lo):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=tc, temperature_ambient=tamb, gamma_pdc=gamma, aggregation_freq=freq, windspeed=wind,
                       temperature_model=model, power_dc_rated=rated, max_timedelta=limit)
    ta.set_clearsky(loc, az, tilt, pcs, tcs, tacs, alb)
    ta.filter_params['poa_filter'] = {'poa_global_low': lo}
    return ta
def code_trend(pv: series, poa: series, tc: series, tamb: series, gamma: scalar, freq: str, wind: series, model: str, rated: scalar, limit: scalar,
               loc: dict, az: scalar, tilt: scalar, pcs: series, tcs: series, tacs: series, alb: scalar, lo: scalar):
    ta = given(pv, poa, tc, tamb, gamma, freq, wind, model, rated, limit, loc, az, tilt, pcs, tcs, tacs, alb, lo)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'])
    return settings(ta)
def spec_trend(pv: series, poa: series, tc: series, tamb: series, gamma: scalar, freq: str, wind: series, model: str, rated: scalar, limit: scalar,
               loc: dict, az: scalar, tilt: scalar, pcs: series, tcs: series, tacs: series, alb: scalar, lo: scalar):
    return settings(given(pv, poa, tc, tamb, gamma, freq, wind, model, rated, limit, loc, az, tilt, pcs, tcs, tacs, alb, lo))
'''
RULE_S = 'a run leaves the inputs and settings of the analysis as they were given'
SRR = '''
from rdtools.soiling import SRRAnalysis

def code_srr_twice(e: series, ins: series, rain: opt, reps1: scalar, ds1: scalar, ct1: opt, trim1: bool, m1: str, cc1: str, rc1: bool,
                   reps: scalar, ds: scalar, ct: opt, trim: bool, m: str, cc: str, pt: scalar, mil: scalar, ep: scalar, cl: scalar, rc: bool, mr: scalar, mn: scalar, of: scalar):
    a = SRRAnalysis(e, ins, rain)
    a.run(reps=reps1, day_scale=ds1, clean_threshold=ct1, trim=trim1, method=m1, clean_criterion=cc1, recenter=rc1)
    r = a.run(reps, ds, ct, trim, m, cc, pt, mil, ep, cl, rc, mr, mn, of)
    return r, a.result_df, a.analyzed_daily_df, a.daily_df, a.renorm_factor, a.random_profiles, a.monte_losses
def spec_srr_twice(e: series, ins: series, rain: opt, reps1: scalar, ds1: scalar, ct1: opt, trim1: bool, m1: str, cc1: str, rc1: bool,
                   reps: scalar, ds: scalar, ct: opt, trim: bool, m: str, cc: str, pt: scalar, mil: scalar, ep: scalar, cl: scalar, rc: bool, mr: scalar, mn: scalar, of: scalar):
    a = SRRAnalysis(e, ins, rain)
    r = a.run(reps, ds, ct, trim, m, cc, pt, mil, ep, cl, rc, mr, mn, of)
    return r, a.result_df, a.analyzed_daily_df, a.daily_df, a.renorm_factor, a.random_profiles, a.monte_losses
'''
CODS = '''
from rdtools.soiling import CODSAnalysis

def code_cods_twice(e: series, o1: opt, d1: str, mi1: scalar, cs1: scalar, ff1: bool, o: opt, d: str, mi: scalar, cs: scalar, cc: scalar, pi: scalar, cp: scalar, ss: scalar, pn: scalar, rn: opt, ff: bool, cl: bool):
    a = CODSAnalysis(e)
    a.iterative_signal_decomposition(o1, d1, mi1, cs1, ffill=ff1)
    return a.iterative_signal_decomposition(o, d, mi, cs, cc, pi, cp, ss, pn, rn, ff, cl)
def spec_cods_twice(e: series, o1: opt, d1: str, mi1: scalar, cs1: scalar, ff1: bool, o: opt, d: str, mi: scalar, cs: scalar, cc: scalar, pi: scalar, cp: scalar, ss: scalar, pn: scalar, rn: opt, ff: bool, cl: bool):
    a = CODSAnalysis(e)
    return a.iterative_signal_decomposition(o, d, mi, cs, cc, pi, cp, ss, pn, rn, ff, cl)

def code_bootstrap_twice(e: series, n1: scalar, c1: scalar, n: scalar, c: scalar, d: str, pn: scalar, kw1: dict, kw: dict):
    a = CODSAnalysis(e)
    a.run_bootstrap(n1, c1, **kw1)
    return a.run_bootstrap(n, c, d, pn, **kw), a.degradation, a.soiling_loss, a.result_df, a.residual_shift, a.errors, a.small_soiling_signal, a.initial_fits
def spec_bootstrap_twice(e: series, n1: scalar, c1: scalar, n: scalar, c: scalar, d: str, pn: scalar, kw1: dict, kw: dict):
    a = CODSAnalysis(e)
    return a.run_bootstrap(n, c, d, pn, **kw), a.degradation, a.soiling_loss, a.result_df, a.residual_shift, a.errors, a.small_soiling_signal, a.initial_fits
'''


def effects(ctx, name, it):
    bad = []
    for e in it.events:
        if e.fn is not None and e.fn.mod.rel == '<spec>':
            continue
        if e.kind == 'mutate':
            rs = sorted({'%s %s' % o for _, o in e.d['roots'] if o[0] in ('module', 'class', 'default')})
            if rs:
                bad.append((e, 'the write `%s` changes %s' % (e.d['how'], ', '.join(rs)), rs[0]))
        elif e.kind == 'gwrite':
            if fixed(e.d.get('v')):
                continue         # filled once with a value no call can influence
            bad.append((e, 'assigns the module- or class-level name %s' % e.d['name'], e.d['name']))
        elif e.kind == 'extset' and e.d['name'].startswith(SETTABLE):
            bad.append((e, 'changes the library setting %s' % e.d['name'], e.d['name']))
        elif e.kind == 'ext' and e.d.get('name') in GLOBAL_CALLS and not in_catch(e):
            bad.append((e, 'changes process-wide state with %s' % e.d['name'], e.d['name']))
    if not bad:
        ctx.ob('effects.' + name, HOLDS, RULE_E)
    seen = set()
    for e, d, k in bad:
        if (e.where, k) in seen:
            continue
        seen.add((e.where, k))
        ctx.ob('effects.%s.%s' % (name, k), VIOLATED, RULE_E, e.where, d + ' (call path %s)' % ' > '.join(e.path()[-6:]))


def fixed(v):
    if v is None or v.kind != 'val' or not hasattr(v.cell, 'op'):
        return False
    return not any(x.op in ('param', 'field', 'mu', 'elem', 'unk', 'iter') for x in F.subterms(v.cell)) and v.cell.op != 'const'


def in_catch(e):
    """inside `with warnings.catch_warnings():` / `with np.errstate` the setting is restored"""
    import ast
    if e.fn is None:
        return False
    line = getattr(e.node, 'lineno', 0)
    for n in ast.walk(e.fn.node):
        if isinstance(n, ast.With) and n.lineno <= line <= (n.end_lineno or line) and any('catch_warnings' in ast.unparse(i.context_expr) for i in n.items):
            return True
    return False


def earlier(cv, sv):
    names = sorted({x.a[0] for x in F.subterms(cv) if x.op == 'param' and x.a[0].endswith('1')})
    return 'the value depends on options of the earlier run (%s)' % ', '.join(names) if names else None


def check(ctx):
    for mod, q in (('analysis_chains', 'TrendAnalysis.sensor_analysis'), ('soiling', 'soiling_srr'), ('availability', 'AvailabilityAnalysis.run')):
        ctx.need(mod, q)
    ctx.site_by_node = True
    m = SpecMod(ctx.prog, E.CLASSES)
    for n in m.functions:
        if n.startswith('code_'):
            try:
                it, st, v, t, ty = ctx.run_text(m, n)
            except Exception as ex:
                if os.environ.get('RDCHECK_DEBUG'):
                    raise
                ctx.ob('effects.' + n[5:], INCONCLUSIVE, RULE_E, '', 'construct outside the analysed language: %s' % repr(ex)[:200])
                continue
            effects(ctx, n[5:], it)
    for mod, fn in E.public_functions(ctx.prog):
        try:
            it, st, v = E.run_function(ctx, fn)
        except Exception as ex:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob('effects.' + fn.qual, INCONCLUSIVE, RULE_E, '', 'construct outside the analysed language: %s' % repr(ex)[:200])
            continue
        effects(ctx, fn.qual, it)
    ctx.formulas(SETTINGS, RULE_S, {'*': {'opaque': chain.OPAQUE}}, prefix='settings.')
    ctx.on_unk = earlier
    ctx.formulas(HIST, RULE_H, {'*': {'opaque': chain.OPAQUE}}, prefix='history.')
    ctx.formulas(AVAIL, RULE_H, prefix='history.')
    ctx.formulas(SRR, RULE_H, prefix='history.')
    ctx.formulas(CODS, RULE_H, {'*': {'opaque': ('CODSAnalysis._Kalman_filter_for_SR', '_Kalman_filter_for_SR', 'degradation_year_on_year')},
                                'bootstrap_twice': {'opaque': ('CODSAnalysis.iterative_signal_decomposition', 'degradation_year_on_year',
                                                               '_make_time_series_bootstrap_samples', '_construct_confidence_intervals')}}, prefix='history.')
