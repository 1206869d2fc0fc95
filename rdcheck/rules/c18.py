"""Result dictionaries and tables carry every documented entry."""
import os
from .. import framework as F
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod, subterms, show
from .. import terms
from ..terms import *
from ..columns import columns, missing_reads
from . import chain, c12, c16, c17, c19, c20, c21
EXPLAIN = ('Schema analysis: for every producer (regressions, year-on-year, stochastic rate and recovery, combined decomposition, availability, analysis chains) the shape of '
           'the returned dictionary, table or object is inferred on every return path from its construction (dictionary literals, column assignments, renames, selections, '
           'merges), and every documented entry must be present on all of them. Every producer is also composed with every consumer that reads its result (plots, monthly and '
           'yearly soiling tables, later analysis steps); a read of an entry or column the producer certainly does not provide is reported at the reading site. '
           'Entries are also compared, as value-flow terms, with the definition of the quantity their name documents (so crossed or relabelled entries are found).')
ASSUME = ['tables given by the user have the columns the documentation asks for']
RULE_P = 'every documented entry is present on every return path'
RULE_M = 'each entry carries the quantity its name documents'
RULE_C = 'no consumer reads an entry its producer does not provide'

TEXT = chain.HEAD + '''
from rdtools.availability import AvailabilityAnalysis
from rdtools.soiling import SRRAnalysis, CODSAnalysis, soiling_srr, soiling_cods, annual_soiling_ratios, monthly_soiling_rates
from rdtools.degradation import degradation_ols, degradation_classical_decomposition, degradation_year_on_year

def code_ols(e: series, cl: scalar):
    return degradation_ols(e, cl)[2]
def code_classical(e: series, cl: scalar):
    return degradation_classical_decomposition(e, cl)[2]
def code_yoy_simple(e: series, r: bool, p: scalar, cl: scalar):
    return degradation_year_on_year(e, r, p, cl, 'simple')[2]
def code_yoy_block(e: series, r: bool, p: scalar, cl: scalar, b: scalar):
    return degradation_year_on_year(e, r, p, cl, 'circular_block', b)[2]
def code_srr_info(e: series, i: series, rain: opt, reps: scalar, trim: bool, method: str, crit: str, rec: bool, thr: opt):
    return soiling_srr(e, i, reps, precipitation_daily=rain, trim=trim, method=method, clean_criterion=crit, recenter=rec, clean_threshold=thr)[2]
def code_srr_intervals(e: series, i: series, rain: opt, reps: scalar, trim: bool, method: str, crit: str, rec: bool, thr: opt):
    return soiling_srr(e, i, reps, precipitation_daily=rain, trim=trim, method=method, clean_criterion=crit, recenter=rec, clean_threshold=thr)[2]['soiling_interval_summary']
def code_annual(p: opt, i: series, cl: scalar):
    return annual_soiling_ratios(p, i, cl)
def code_monthly(s: frame, mil: scalar, mrse: scalar, reps: scalar, cl: scalar):
    return monthly_soiling_rates(s, mil, mrse, reps, cl)
def code_availability(p: series, sub: frame, e: series, x: series, lo: opt, sz: opt, lim: opt, q: opt, r: str):
    aa = AvailabilityAnalysis(p, sub, e, x)
    aa.run(lo, sz, lim, q, r)
    return aa
def code_outages(p: series, sub: frame, e: series, x: series, lo: opt, sz: opt, lim: opt, q: opt, r: str):
    aa = AvailabilityAnalysis(p, sub, e, x)
    aa.run(lo, sz, lim, q, r)
    return aa.outage_info
def code_rollup(p: series, sub: frame, e: series, x: series, lo: opt, sz: opt, lim: opt, q: opt, r: str):
    aa = AvailabilityAnalysis(p, sub, e, x)
    aa.run(lo, sz, lim, q, r)
    return aa.results
def code_decomposition(e: series, o: opt, dm: str, mi: scalar, ff: bool, clip: bool):
    return CODSAnalysis(e).iterative_signal_decomposition(o, dm, mi, ffill=ff, clip_soiling=clip)[0]
def code_decomposition_info(e: series, o: opt, dm: str, mi: scalar, ff: bool, clip: bool):
    return CODSAnalysis(e).iterative_signal_decomposition(o, dm, mi, ffill=ff, clip_soiling=clip)[1]
def code_bootstrap(e: series, reps: scalar, cl: scalar, dm: str):
    a = CODSAnalysis(e)
    a.run_bootstrap(reps, cl, dm)
    return a
def code_sensor(pv: series, poa: series, t: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'], y, s)
    return ta.results['sensor']
def code_sensor_yoy(pv: series, poa: series, t: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'], y, s)
    return ta.results['sensor']['yoy_degradation']
def code_sensor_srr(pv: series, poa: series, t: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'], y, s)
    return ta.results['sensor']['srr_soiling']
def code_clearsky(pv: series, poa: series, pcs: series, tcs: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, gamma_pdc=g)
    ta.set_clearsky(poa_global_clearsky=pcs, temperature_cell_clearsky=tcs)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'], y, s)
    return ta.results['clearsky']
def code_clearsky_yoy(pv: series, poa: series, pcs: series, tcs: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, gamma_pdc=g)
    ta.set_clearsky(poa_global_clearsky=pcs, temperature_cell_clearsky=tcs)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'], y, s)
    return ta.results['clearsky']['yoy_degradation']
def code_clearsky_srr(pv: series, poa: series, pcs: series, tcs: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, gamma_pdc=g)
    ta.set_clearsky(poa_global_clearsky=pcs, temperature_cell_clearsky=tcs)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'], y, s)
    return ta.results['clearsky']['srr_soiling']
def code_trend(pv: series, poa: series, pcs: series, t: series, g: scalar):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    ta.set_clearsky(poa_global_clearsky=pcs, temperature_cell_clearsky=t)
    ta.sensor_analysis()
    ta.clearsky_analysis()
    return ta
'''
FIT = ['slope', 'intercept', 'rmse', 'slope_stderr', 'intercept_stderr', 'ols_result']
YOY = ['YoY_values', 'renormalizing_factor', 'usage_of_points']
SCHEMA = {
    'ols': FIT, 'classical': FIT + ['series', 'mk_test_trend'],
    'yoy_simple': YOY + ['exceedance_level'], 'yoy_block': YOY + ['exceedance_level', 'bootstrap_rates'],
    'srr_info': ['renormalizing_factor', 'exceedance_level', 'stochastic_soiling_profiles', 'soiling_ratio_perfect_clean', 'soiling_interval_summary'],
    'srr_intervals': ['start', 'end', 'soiling_rate', 'soiling_rate_low', 'soiling_rate_high', 'inferred_start_loss', 'inferred_end_loss', 'length', 'valid'],
    'annual': ['year', 'soiling_ratio_median', 'soiling_ratio_low', 'soiling_ratio_high'],
    'monthly': ['month', 'soiling_rate_median', 'soiling_rate_low', 'soiling_rate_high', 'interval_count'],
    'availability': ['results', 'loss_system', 'loss_subsystem', 'loss_total', 'reporting_mask', 'power_expected_rescaled', 'energy_expected_rescaled', 'energy_cumulative_corrected',
                     'error_info', 'interp_lower', 'interp_upper', 'outage_info'],
    'outages': ['start', 'end', 'duration', 'intervals', 'daylight_intervals', 'error_lower', 'error_upper', 'energy_expected', 'energy_start', 'energy_end', 'energy_actual',
                'ci_lower', 'ci_upper', 'type', 'loss'],
    'rollup': ['lost_production', 'actual_production', 'availability'],
    'decomposition': ['soiling_ratio', 'soiling_rates', 'cleaning_events', 'seasonal_component', 'degradation_trend', 'total_model', 'residuals'],
    'decomposition_info': ['degradation', 'soiling_loss', 'residual_shift', 'RMSE', 'small_soiling_signal', 'adf_res'],
    'bootstrap': ['pm', 'result_df', 'degradation', 'soiling_loss', 'residual_shift', 'RMSE', 'small_soiling_signal', 'adf_results'],
    'sensor': ['yoy_degradation', 'srr_soiling'], 'sensor_yoy': ['p50_rd', 'rd_confidence_interval', 'calc_info'],
    'sensor_srr': ['p50_sratio', 'sratio_confidence_interval', 'calc_info'],
    'clearsky': ['yoy_degradation', 'srr_soiling'], 'clearsky_yoy': ['p50_rd', 'rd_confidence_interval', 'calc_info'],
    'clearsky_srr': ['p50_sratio', 'sratio_confidence_interval', 'calc_info'],
    'trend': ['results', 'pv_energy', 'pv_power', 'sensor_aggregated_performance', 'sensor_aggregated_insolation', 'sensor_filter',
              'sensor_filter_components', 'sensor_filter_aggregated', 'sensor_filter_components_aggregated', 'clearsky_aggregated_performance', 'clearsky_aggregated_insolation',
              'clearsky_filter', 'clearsky_filter_components', 'clearsky_filter_aggregated', 'clearsky_filter_components_aggregated'],
}
BOOT_COLS = ['soiling_ratio', 'soiling_rates', 'cleaning_events', 'seasonal_component', 'degradation_trend', 'total_model', 'residuals', 'SR_low', 'SR_high', 'rates_low',
             'rates_high', 'bt_soiling_ratio', 'bt_soiling_rates', 'seasonal_low', 'seasonal_high', 'model_high', 'model_low']
OPAQUE = {'bootstrap': ('CODSAnalysis.iterative_signal_decomposition',)}
for _k in ('sensor', 'sensor_yoy', 'sensor_srr', 'clearsky', 'clearsky_yoy', 'clearsky_srr', 'trend'):
    OPAQUE[_k] = chain.OPAQUE

# every producer composed with every consumer
PAIRS = chain.HEAD + '''
from rdtools.availability import AvailabilityAnalysis
from rdtools.soiling import SRRAnalysis, CODSAnalysis, soiling_srr, soiling_cods, annual_soiling_ratios, monthly_soiling_rates
from rdtools.degradation import degradation_year_on_year
from rdtools.plotting import (degradation_summary_plots, soiling_monte_carlo_plot, soiling_interval_plot, soiling_rate_histogram, availability_summary_plots,
                              degradation_timeseries_plot)

def use_yoy(e, rd, ci, info, detailed, days, ci_on):
    return (degradation_summary_plots(rd, ci, info, e, detailed=detailed), degradation_timeseries_plot(info, rolling_days=days, include_ci=ci_on))
def pair_yoy_simple(e: series, r: bool, detailed: bool, days: scalar, ci_on: bool):
    rd, ci, info = degradation_year_on_year(e, r, uncertainty_method='simple')
    return use_yoy(e, rd, ci, info, detailed, days, ci_on)
def pair_yoy_block(e: series, r: bool, detailed: bool, days: scalar, ci_on: bool, b: scalar):
    rd, ci, info = degradation_year_on_year(e, r, uncertainty_method='circular_block', block_length=b)
    return use_yoy(e, rd, ci, info, detailed, days, ci_on)
def pair_srr(e: series, i: series, rain: opt, reps: scalar, trim: bool, method: str, crit: str, profiles: scalar, bins: scalar):
    sr, ci, info = soiling_srr(e, i, reps, precipitation_daily=rain, trim=trim, method=method, clean_criterion=crit)
    return (soiling_monte_carlo_plot(info, e, profiles=profiles), soiling_monte_carlo_plot(info, e), soiling_interval_plot(info, e), soiling_rate_histogram(info, bins),
            soiling_rate_histogram(info), annual_soiling_ratios(info['stochastic_soiling_profiles'], i), monthly_soiling_rates(info['soiling_interval_summary']))
def pair_availability(p: series, sub: frame, e: series, x: series, lo: opt, sz: opt, lim: opt, q: opt, r: str):
    aa = AvailabilityAnalysis(p, sub, e, x)
    aa.run(lo, sz, lim, q, r)
    return aa.plot()
def pair_decomposition(e: series, o: opt, dm: str, mi: scalar, ff: bool):
    return CODSAnalysis(e).iterative_signal_decomposition(o, dm, mi, ffill=ff)
def pair_bootstrap(e: series, reps: scalar, cl: scalar, dm: str, verbose: bool):
    return soiling_cods(e, reps, cl, dm, verbose=verbose)
def pair_sensor(pv: series, poa: series, t: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    return (ta.plot_degradation_summary('sensor'), ta.plot_soiling_monte_carlo('sensor'), ta.plot_soiling_interval('sensor'), ta.plot_soiling_rate_histogram('sensor'),
            ta.plot_pv_vs_irradiance('sensor'), ta.plot_degradation_timeseries('sensor'))
def pair_clearsky(pv: series, poa: series, pcs: series, tcs: series, g: scalar, y: dict, s: dict):
    ta = TrendAnalysis(pv, poa_global=poa, gamma_pdc=g)
    ta.set_clearsky(poa_global_clearsky=pcs, temperature_cell_clearsky=tcs)
    ta.clearsky_analysis(['yoy_degradation', 'srr_soiling'])
    return (ta.plot_degradation_summary('clearsky'), ta.plot_soiling_monte_carlo('clearsky'), ta.plot_soiling_interval('clearsky'),
            ta.plot_soiling_rate_histogram('clearsky'), ta.plot_pv_vs_irradiance('clearsky'), ta.plot_degradation_timeseries('clearsky'))
'''
PAIR_OPAQUE = {'bootstrap': ('CODSAnalysis.iterative_signal_decomposition',)}


def leaves(t):
    if t.op == 'ite':
        yield from leaves(t.a[1])
        yield from leaves(t.a[2])
    else:
        yield t


def present(t, key):
    """is `key` an entry of this result on every path? -> (verdict, description)"""
    out = HOLDS
    for x in leaves(t):
        if x.op == 'dict':
            its = {k.a[0]: v for k, v in x.a[0] if k.op == 'const'}
            if key in its:
                if any(y.op in ('absent', 'undef') for y in leaves(its[key])):
                    return VIOLATED, 'the entry `%s` is missing on some paths' % key
            elif all(k.op == 'const' for k, _ in x.a[0]):
                return VIOLATED, 'the entry `%s` is missing; provided: %s' % (key, ', '.join(sorted(map(str, its))))
            else:
                out = INCONCLUSIVE
        elif x.op == 'dictx':
            its = {k.a[0]: v for k, v in x.a[0] if k.op == 'const'}
            if key not in its or any(y.op in ('absent', 'undef') for y in leaves(its[key])):
                out = INCONCLUSIVE
        else:
            c = columns(x)
            if c is None:
                out = INCONCLUSIVE
            elif key not in c[0]:
                if c[1]:
                    return VIOLATED, 'the column `%s` is missing; provided: %s' % (key, ', '.join(sorted(map(str, c[0]))))
                out = INCONCLUSIVE
    return out, '' if out == HOLDS else 'the shape of the result cannot be followed'


def where_of(ctx, it, t):
    for x in leaves(t):
        w = it.loc.get(x.id)
        if w:
            return w
    return F.locate(it, t, t)


def producers(ctx):
    m = SpecMod(ctx.prog, TEXT)
    for nm, keys in SCHEMA.items():
        try:
            it, st, v, t, ty = ctx.run_text(m, 'code_' + nm, opaque=OPAQUE.get(nm, ()))
        except Exception as ex:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob('entries.' + nm, INCONCLUSIVE, RULE_P, '', 'construct outside the analysed language: %s' % repr(ex)[:200])
            continue
        if st is None:
            ke = [e for e in it.events if e.kind == 'keyerror' and '<spec>' in str(e.where)]
            ctx.ob('entries.' + nm, VIOLATED if ke else INCONCLUSIVE, RULE_P, '', 'a documented entry is missing: %s' % show(ke[0].d['key'], 2) if ke else 'no normal outcome')
            continue
        if v.kind == 'obj':
            cls, f = it.cell(v, st)
            for k in keys:
                name = 'entries.%s.%s' % (nm, k)
                if k not in f:
                    prop = cls.find(k, ctx.prog) if hasattr(cls, 'find') else None
                    ctx.ob(name, INCONCLUSIVE if prop or '#havoc' in f else VIOLATED, RULE_P, '', 'the documented attribute `%s` is never set' % k)
                    continue
                x = f[k]
                tx = it.term(x, st)
                if any(y.op in ('undef', 'absent') for y in leaves(tx)):
                    c = tx.a[0] if tx.op == 'ite' else None
                    ctx.ob(name, VIOLATED, RULE_P, where_of(ctx, it, tx), 'the documented attribute `%s` is not set when %s' % (k, show(c, 4)[:200] if c is not None else '?'))
                else:
                    ctx.ob(name, HOLDS, RULE_P)
            if nm == 'bootstrap' and 'result_df' in f:
                # when the soiling signal is too small nothing is bootstrapped (and a warning says so): only the other path has the bootstrapped columns
                rd = it.term(f['result_df'], st)
                ls = [x for x in leaves(rd) if x.op == 'setcol']
                for k in BOOT_COLS:
                    name = 'entries.bootstrap.result_df.' + k
                    if not ls:
                        ctx.ob(name, INCONCLUSIVE, RULE_P, '', 'the shape of the result cannot be followed')
                        continue
                    # columns of the decomposition are there already; the bootstrap must add the others
                    added = [assigned(x) for x in ls]
                    base = k in SCHEMA['decomposition']
                    ok = base or all(k in a for a in added)
                    ctx.ob(name, HOLDS if ok else VIOLATED, RULE_P, '' if ok else where_of(ctx, it, rd), '' if ok else 'the column `%s` is not added; added: %s' % (k, ', '.join(sorted(added[0]))))
            continue
        for k in keys:
            vd, d = present(t, k)
            ctx.ob('entries.%s.%s' % (nm, k), vd, RULE_P, where_of(ctx, it, t) if vd != HOLDS else '', d)


def assigned(t):
    out = set()
    while t.op in ('setcol', 'setattr', 'setloc', 'mut'):
        if t.op == 'setcol' and t.a[1].op == 'const':
            out.add(t.a[1].a[0])
        elif t.op == 'setattr' and isinstance(t.a[1], str):
            out.add(t.a[1])
        t = t.a[0]
    return out


def consumers(ctx):
    m = SpecMod(ctx.prog, PAIRS)
    for n in [x for x in m.functions if x.startswith('pair_')]:
        nm = n[5:]
        try:
            it, st, v, t, ty = ctx.run_text(m, n, opaque=PAIR_OPAQUE.get(nm, ()))
        except Exception as ex:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob('reads.' + nm, INCONCLUSIVE, RULE_C, '', 'construct outside the analysed language: %s' % repr(ex)[:200])
            continue
        bad = {}
        n_reads = 0
        for e in it.events:
            if e.kind == 'keyerror' and isinstance(e.d['key'].a[0] if e.d['key'].op == 'const' else None, str):
                bad[e.where] = 'reads the entry %s, which the producer does not provide' % show(e.d['key'], 2)
            elif e.kind == 'dread':
                n_reads += 1
                if e.d.get('present') is not TRUE and e.d.get('present') is not None:
                    c = F.conj(e.pc)
                    if not implied(c, e.d['present']):
                        bad[e.where] = 'reads the entry %s, which is only provided when %s' % (show(e.d['key'], 2), show(e.d['present'], 4)[:150])
        built = [x for x in list(terms._table.values()) if x.op == 'sub' and x.id in it.loc]
        n_reads += len(built)
        for x, k, tab in missing_reads(built):
            bad[it.loc[x.id]] = 'reads the column `%s` of a table whose columns are %s' % (k, ', '.join(sorted(map(str, columns(tab)[0]))))
        if st is None and not bad:
            ctx.ob('reads.' + nm, INCONCLUSIVE, RULE_C, '', 'no normal outcome')
            continue
        if not bad:
            ctx.ob('reads.' + nm, HOLDS, RULE_C, '', '%d reads' % n_reads)
        for w, d in bad.items():
            ctx.ob('reads.%s.%s' % (nm, w), VIOLATED, RULE_C, w, d)


def implied(c, p):
    """does the path condition contain the presence condition?"""
    r = tand(c, tnot(p))
    if r is FALSE:
        return True
    parts = set(x.id for x in (c.a[0] if c.op == 'and' and isinstance(c.a[0], tuple) else c.a if c.op == 'and' else (c,)) if isinstance(x, T))
    if p.id in parts:
        return True
    return p.op == 'unkcond'


def check(ctx):
    for mod, q in (('degradation', 'degradation_ols'), ('degradation', 'degradation_year_on_year'), ('soiling', 'soiling_srr'), ('soiling', 'CODSAnalysis.run_bootstrap'),
                   ('availability', 'AvailabilityAnalysis.run'), ('analysis_chains', 'TrendAnalysis.sensor_analysis')):
        ctx.need(mod, q)
    producers(ctx)
    consumers(ctx)
    meaning(ctx)


def meaning(ctx):
    ctx.formulas(c16.SPEC, RULE_M, only=('info_simple', 'info_circular'), prefix='meaning.')
    ctx.formulas(c17.SPEC, RULE_M, only=('ols', 'classical', 'classical_series'), prefix='meaning.')
    ctx.formulas(c19.SPEC, RULE_M, {'*': {'opaque': ('energy_from_power',)}}, only=('run',), prefix='meaning.availability_')
    ctx.formulas(c20.RESULT, RULE_M, only=('result',), prefix='meaning.srr_')
    ctx.formulas(c20.RUN, RULE_M, prefix='meaning.srr_')
    ctx.formulas(c20.SUMMARY, RULE_M, only=('annual', 'monthly'), prefix='meaning.')
    ctx.formulas(c21.ITER, RULE_M, {'*': {'opaque': ('CODSAnalysis._Kalman_filter_for_SR', '_collapse_cleaning_events')}}, prefix='meaning.decomposition_')
    ctx.formulas(c21.FULL, RULE_M, c21.FULL_OPTS, prefix='meaning.bootstrap_')
    ctx.formulas(c12.FORWARD, RULE_M, opts={'*': {'opaque': c12.CHAIN_OPAQUE}}, only=('sensor_options', 'clearsky_options'), prefix='meaning.')
