"""Results do not depend on the units of the input."""
import os
from .. import framework as F
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod, subterms, show
from ..terms import *
from .. import degrees as G
from . import chain
EXPLAIN = ('Homogeneity analysis: every documented result is expressed as a value-flow term over the inputs, and the power of the unit it scales with is inferred compositionally '
           '(sums, comparisons, selections and merges require equal powers; products, quotients, quantiles, means and least-squares estimates transform them). The power must be '
           'the documented one; a place where values of different powers meet (an absolute threshold, offset or rounding in a unit) is reported.')
ASSUME = ['library statistics (quantile, mean, median, standard deviation, least squares) are homogeneous in their data']
RULE = 'the result scales with the documented power of the unit of the input'

TEXT = chain.HEAD + '''
from rdtools.availability import AvailabilityAnalysis
from rdtools.soiling import SRRAnalysis, soiling_srr, annual_soiling_ratios
from rdtools.degradation import degradation_ols, degradation_classical_decomposition, degradation_year_on_year
from rdtools.aggregation import aggregation_insol
from rdtools.utilities import robust_quantile, robust_median, robust_mean

def code_robust_quantile(x: series, q: scalar):
    return robust_quantile(x, q)
def code_robust_median(x: series, q: scalar):
    return robust_median(x, q)
def code_robust_mean(x: series, q: scalar):
    return robust_mean(x, q)
def code_clip_quantile(x: series, q: scalar):
    return filtering.quantile_clip_filter(x, q)
def code_clip_logic(x: series, mt: str, rr: opt):
    return filtering.logic_clip_filter(x, mt, rr)
def code_clip_xgboost(x: series, mt: str):
    return filtering.xgboost_clip_filter(x, mt)
def code_window(x: series, rp: scalar, tol: scalar):
    return filtering.two_way_window_filter(x, rp, tol)
def code_hampel(x: series, k: str, t0: scalar):
    return filtering.hampel_filter(x, k, t0)
def code_tukey(x: series, rp: str, k: scalar):
    return filtering.directional_tukey_filter(x, rp, k)
def code_insolation(x: series, q: scalar):
    return filtering.insolation_filter(x, q)
def code_csi(x: series, y: series, thr: scalar):
    return filtering.csi_filter(x, y, thr)
def code_energy(x: series, f: str, md: opt, pt: str):
    return energy_from_power(x, f, md, pt)
def code_energy_default(x: series):
    return energy_from_power(x)
def code_interpolate(x: series, target: index, md: opt):
    return interpolate(x, target, md)
def code_insol(x: series, y: series, f: str):
    return aggregation_insol(x, y, f)
def code_normalize(pv: series, pe: series, poa: series, kind: str):
    return normalization.normalize_with_expected_power(pv, pe, poa, kind)[0]
def code_normalize_insolation(pv: series, pe: series, poa: series, kind: str):
    return normalization.normalize_with_expected_power(pv, pe, poa, kind)[1]
def code_pvwatts(poa: series, p: scalar, t: series, g: scalar, ref: scalar, tref: scalar):
    return normalization.pvwatts_dc_power(poa, p, t, ref, tref, g)
def code_ols(e: series, cl: scalar):
    r = degradation_ols(e, cl)
    return {'rate': r[0], 'ci': r[1], 'slope': r[2]['slope'], 'intercept': r[2]['intercept'], 'rmse': r[2]['rmse'], 'slope_stderr': r[2]['slope_stderr'], 'intercept_stderr': r[2]['intercept_stderr']}
def code_classical(e: series, cl: scalar):
    r = degradation_classical_decomposition(e, cl)
    return {'rate': r[0], 'ci': r[1], 'slope': r[2]['slope'], 'intercept': r[2]['intercept'], 'rmse': r[2]['rmse'], 'series': r[2]['series'], 'trend': r[2]['mk_test_trend']}
def code_yoy(e: series, p: scalar, cl: scalar):
    r = degradation_year_on_year(e, True, p, cl, 'simple')
    return {'rate': r[0], 'ci': r[1], 'factor': r[2]['renormalizing_factor'], 'values': r[2]['YoY_values'], 'level': r[2]['exceedance_level'], 'usage': r[2]['usage_of_points']}
def code_yoy_raw(e: series):
    return degradation_year_on_year(e, False, uncertainty_method='none')
def code_srr(e: series, i: series, reps: scalar, trim: bool, method: str, crit: str, rain: opt):
    r = soiling_srr(e, i, reps, precipitation_daily=rain, trim=trim, method=method, clean_criterion=crit, recenter=True)
    return {'ratio': r[0], 'ci': r[1], 'level': r[2]['exceedance_level'], 'perfect': r[2]['soiling_ratio_perfect_clean']}
def code_srr_intervals(e: series, i: series, reps: scalar, trim: bool, method: str, crit: str, rain: opt):
    s = soiling_srr(e, i, reps, precipitation_daily=rain, trim=trim, method=method, clean_criterion=crit, recenter=True)[2]['soiling_interval_summary']
    return {'rate': s['soiling_rate'], 'low': s['soiling_rate_low'], 'high': s['soiling_rate_high'], 'start': s['inferred_start_loss'], 'end': s['inferred_end_loss'], 'valid': s['valid']}
def code_srr_threshold(e: series, i: series):
    s = soiling_srr(e, i, 10, clean_threshold=0.05, recenter=True)
    return {'ratio': s[0], 'ci': s[1], 'valid': s[2]['soiling_interval_summary']['valid']}
def code_annual(p: dict, i: series, cl: scalar):
    r = annual_soiling_ratios(p, i, cl)
    return {'median': r['soiling_ratio_median'], 'low': r['soiling_ratio_low'], 'high': r['soiling_ratio_high']}
def code_availability(p: series, sub: frame, e: series, x: series, lo: opt, sz: opt, lim: opt, q: opt, r: str):
    aa = AvailabilityAnalysis(p, sub, e, x)
    aa.run(lo, sz, lim, q, r)
    return {'availability': aa.results['availability'], 'lost': aa.results['lost_production'], 'actual': aa.results['actual_production'], 'loss_total': aa.loss_total,
            'loss_system': aa.loss_system, 'loss_subsystem': aa.loss_subsystem, 'type': aa.outage_info['type'], 'loss': aa.outage_info['loss'], 'corrected': aa.energy_cumulative_corrected}
def code_sensor(pv: series, poa: series, t: series, g: scalar):
    ta = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    return {'performance': ta.sensor_aggregated_performance, 'insolation': ta.sensor_aggregated_insolation, 'filter': ta.sensor_filter}
'''
# (scenario, scaled inputs, {component: power})
CASES = [
    ('robust_quantile', {'x': 1}, 1), ('robust_median', {'x': 1}, 1), ('robust_mean', {'x': 1}, 1), ('clip_quantile', {'x': 1}, 0), ('clip_logic', {'x': 1}, 0), ('clip_xgboost', {'x': 1}, 0),
    ('window', {'x': 1}, 0), ('hampel', {'x': 1}, 0), ('tukey', {'x': 1}, 0), ('insolation', {'x': 1}, 0), ('csi', {'x': 1, 'y': 1}, 0),
    ('energy', {'x': 1}, 1), ('energy_default', {'x': 1}, 1), ('interpolate', {'x': 1}, 1), ('insol', {'x': 1}, 1), ('insol', {'y': 1}, 0),
    ('normalize', {'pv': 1}, 1), ('normalize', {'pe': 1}, -1), ('normalize', {'poa': 1}, 0), ('normalize_insolation', {'poa': 1}, 1), ('normalize_insolation', {'pv': 1, 'pe': 1}, 0),
    ('pvwatts', {'poa': 1}, 1), ('pvwatts', {'p': 1}, 1), ('pvwatts', {'poa': 1, 'ref': 1}, 0),
    ('ols', {'e': 1}, {'rate': 0, 'ci': 0, 'slope': 1, 'intercept': 1, 'rmse': 1, 'slope_stderr': 1, 'intercept_stderr': 1}),
    ('classical', {'e': 1}, {'rate': 0, 'ci': 0, 'slope': 1, 'intercept': 1, 'rmse': 1, 'series': 1, 'trend': 0}),
    ('yoy', {'e': 1}, {'rate': 0, 'ci': 0, 'factor': 1, 'values': 0, 'level': 0, 'usage': 0}), ('yoy_raw', {'e': 1}, 1),
    ('srr', {'e': 1}, {'ratio': 0, 'ci': 0, 'level': 0, 'perfect': 0}), ('srr', {'i': 1}, {'ratio': 0, 'ci': 0, 'level': 0, 'perfect': 0}),
    ('srr_intervals', {'e': 1}, {k: 0 for k in ('rate', 'low', 'high', 'start', 'end', 'valid')}), ('srr_intervals', {'i': 1}, {k: 0 for k in ('rate', 'low', 'high', 'start', 'end', 'valid')}),
    ('srr_threshold', {'e': 1}, {'ratio': 0, 'ci': 0, 'valid': 0}),
    ('annual', {'i': 1}, {'median': 0, 'low': 0, 'high': 0}),
    ('availability', {'p': 1, 'sub': 1, 'e': 1, 'x': 1, 'lo': 1, 'lim': 1},
     {'availability': 0, 'lost': 1, 'actual': 1, 'loss_total': 1, 'loss_system': 1, 'loss_subsystem': 1, 'type': 0, 'loss': 1, 'corrected': 1}),
    ('sensor', {'pv': 1}, {'performance': 0, 'insolation': 0, 'filter': 0}),
]
OPAQUE = {'sensor': ()}


def check(ctx):
    for mod, q in (('degradation', 'degradation_year_on_year'), ('degradation', 'degradation_ols'), ('utilities', 'robust_quantile'), ('filtering', 'two_way_window_filter'),
                   ('availability', 'AvailabilityAnalysis.run'), ('soiling', 'soiling_srr'), ('normalization', 'energy_from_power')):
        ctx.need(mod, q)
    m = SpecMod(ctx.prog, TEXT)
    cache = {}
    for nm, scaled, want in CASES:
        tag = nm + '.' + '+'.join(scaled)
        if nm not in cache:
            try:
                cache[nm] = ctx.run_text(m, 'code_' + nm, opaque=OPAQUE.get(nm, ()))
            except Exception as ex:
                if os.environ.get('RDCHECK_DEBUG'):
                    raise
                cache[nm] = repr(ex)[:200]
        r = cache[nm]
        if isinstance(r, str) or r[3] is None:
            ctx.ob(tag, INCONCLUSIVE, RULE, '', r if isinstance(r, str) else 'no normal outcome')
            continue
        it, st, v, t, ty = r
        deg = G.Degree(scaled, ty)
        parts = {None: t}
        if isinstance(want, dict):
            parts = {k.a[0]: x for k, x in t.a[0]} if t.op == 'dict' else {}
        for k, d in (want.items() if isinstance(want, dict) else [(None, want)]):
            name = tag + ('.' + k if k else '')
            x = parts.get(k)
            if x is None:
                ctx.ob(name, INCONCLUSIVE, RULE, '', 'the result cannot be followed')
                continue
            g = deg.run(x)
            if g is None:
                g = deg.scan(x)
            if isinstance(g, G.Bad):
                ctx.ob(name, VIOLATED, RULE, F.locate(it, g.t, g.t), '%s: %s' % (g.what, show(g.t, 4)[:200]))
            elif g is None:
                ctx.ob(name, INCONCLUSIVE, RULE, F.locate(it, x, x), 'the power of the unit cannot be followed')
            elif g == G.ANY or g == d:
                ctx.ob(name, HOLDS, RULE)
            else:
                ctx.ob(name, VIOLATED, RULE, F.locate(it, x, x), 'scales with the power %s of the unit of %s instead of %s' % (g, '/'.join(scaled), d))
