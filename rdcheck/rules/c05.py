"""Unrecognised option values never lead to a normal return."""
import os
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod, Theory, EQ, NE, conj, show
from ..terms import *
from .. import build as B
EXPLAIN = ('Static value-flow analysis with option folding: each public entry point is analysed with its closed option unknown (the condition for a normal '
           'return is extracted and must exclude every value outside the documented set) and once per near-miss value (case variants, prefixes, extensions, '
           'empty string, None), all other inputs unknown; no path may reach a normal return.')
ASSUME = ['library calls with a valid argument return normally (a path is not excused by a possible library error)', 'at least one Monte Carlo repetition is requested']
RULE = 'a value outside the documented set has no normal return'
HEAD = '''
from rdtools import filtering, normalization, degradation, soiling, bootstrap
from rdtools.analysis_chains import TrendAnalysis
from rdtools.soiling import SRRAnalysis, CODSAnalysis, soiling_srr

def trend(pv, poa, t, g):
    return TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
'''
# name -> (parameters, body with the option as `opt`, documented values, opaque)
CASES = {
    'clearsky_filter.model': ('a: series, b: series', 'return filtering.clearsky_filter(a, b, model={})', ('csi', 'pvlib'), ('csi_filter', 'pvlib_clearsky_filter')),
    'clip_filter.model': ('p: series', 'return filtering.clip_filter(p, model={})', ('quantile', 'logic', 'xgboost'),
                          ('quantile_clip_filter', 'logic_clip_filter', 'xgboost_clip_filter')),
    'logic_clip_filter.mounting_type': ('p: series', 'return filtering.logic_clip_filter(p, {})', ('single_axis_tracking', 'fixed'),
                                        ('_calculate_max_rolling_range', '_apply_overall_clipping_threshold')),
    'xgboost_clip_filter.mounting_type': ('p: series', 'return filtering.xgboost_clip_filter(p, {})', ('single_axis_tracking', 'fixed'),
                                          ('_calculate_xgboost_model_features', '_apply_overall_clipping_threshold')),
    'irradiance_rescale.method': ('a: series, b: series', 'return normalization.irradiance_rescale(a, b, method={})', ('iterative', 'single_opt'), ()),
    'energy_from_power.power_type': ('p: series, f: opt, m: opt', '''    if len(p) <= 1:
        raise ValueError
    return normalization.energy_from_power(p, f, m, power_type={})''', ('right_labeled', 'instantaneous'), ('interpolate',)),
    'energy_from_power.power_type.single_sample': ('p: series, f: opt, m: opt', '''    if len(p) > 1:
        raise ValueError
    return normalization.energy_from_power(p, f, m, power_type={})''', ('right_labeled', 'instantaneous'), ('interpolate',)),
    'normalize_with_expected_power.pv_input': ('p: series, e: series, g: series', 'return normalization.normalize_with_expected_power(p, e, g, pv_input={})',
                                               ('power', 'energy'), ('energy_from_power',)),
    'TrendAnalysis.pv_input': ('p: series, g: opt, t: opt', 'return TrendAnalysis(p, poa_global=g, temperature_cell=t, pv_input={})', ('power', 'energy'),
                               ('energy_from_power', 'interpolate')),
    'SRRAnalysis.run.method': ('y: series, i: series, kw: opt', 'return SRRAnalysis(y, i).run(reps=1, method={})',
                               ('half_norm_clean', 'random_clean', 'perfect_clean'), ('_calc_daily_df', '_calc_result_df')),
    'soiling_srr.method': ('y: series, i: series, kw: opt', 'return soiling_srr(y, i, reps=1, method={})',
                           ('half_norm_clean', 'random_clean', 'perfect_clean'), ('_calc_daily_df', '_calc_result_df')),
    'SRRAnalysis.run.clean_criterion': ('y: series, i: series, r: series, kw: opt', 'return SRRAnalysis(y, i, r).run(reps=1, clean_criterion={})',
                                        ('precip_and_shift', 'precip_or_shift', 'precip', 'shift'), ('_calc_result_df', '_calc_monte')),
    'soiling_srr.clean_criterion': ('y: series, i: series, kw: opt', 'return soiling_srr(y, i, reps=1, clean_criterion={})',
                                    ('precip_and_shift', 'precip_or_shift', 'precip', 'shift'), ('_calc_result_df', '_calc_monte')),
    'bootstrap.decomposition_type': ('s: series, m: series, n: scalar, b: scalar',
                                     'return bootstrap._make_time_series_bootstrap_samples(s, m, sample_nr=n, block_length=b, decomposition_type={})',
                                     ('multiplicative', 'additive'), ()),
}
PRE = '''    ta = trend(pv, poa, t, g)
    ta.sensor_analysis(['yoy_degradation', 'srr_soiling'])
    ta.results['clearsky'] = ta.results['sensor']
'''
for _p, _n in (('degradation_summary', 'sensor'), ('soiling_monte_carlo', 'sensor'), ('soiling_interval', 'sensor'), ('soiling_rate_histogram', 'sensor'),
               ('pv_vs_irradiance', 'sensor'), ('degradation_timeseries', 'sensor')):
    CASES['TrendAnalysis.plot_%s.case' % _p] = ('pv: series, poa: series, t: series, g: scalar, kw: dict', PRE + '    return ta.plot_%s({}, **kw)' % _p,
                                                ('sensor', 'clearsky'), None)
FILTERS = {'filter_params': ('normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'hour_angle_filter', 'clearsky_filter', 'sensor_clearsky_filter', 'ad_hoc_filter'),
           'filter_params_aggregated': ('two_way_window_filter', 'insolation_filter', 'hampel_filter', 'directional_tukey_filter', 'ad_hoc_filter')}
for _d, _keys in FILTERS.items():
    for _how, _st in (('setitem', 'ta.%s[{}] = v'), ('update', 'ta.%s.update({{{}: v}})'), ('assign', 'ta.%s = {{{}: v}}'), ('assign_extra', 'ta.%s = {{"ad_hoc_filter": w, {}: v}}')):
        CASES['%s.%s' % (_d, _how)] = ('pv: series, poa: series, t: series, g: scalar, v: dict, w: series',
                                       '    ta = trend(pv, poa, t, g)\n    ' + _st % _d + '\n    return ta', _keys, ())
ORDERS = (('SC', 'Rd'), ('SC',), (), ('Rd',), ('Sr', 'SC'))


def near(vals):
    out = ['unrecognised', '', None]
    for v in vals:
        out += [v.upper(), v.capitalize(), v + 's', v[:-1], ' ' + v, v.replace('_', '-'), v.replace('_', ''), v.split('_')[0]]
    seen = []
    for x in out:
        if x not in vals and x not in seen:
            seen.append(x)
    return seen


def is_option(x):
    return x.op == 'param' and x.a[0] == 'option'


def excluded(pc, vals):
    """three-valued evaluation of the return condition with every test of the option against a documented value false"""
    others = set()
    for x in subterms(pc):
        if x.op in ('eq', 'cmp') and any(isinstance(y, T) and is_option(y) for y in x.a):
            for y in x.a:
                if isinstance(y, T) and y.op == 'const' and y.a[0] not in vals:
                    others.add(y.a[0])

    def ev(x, choice, memo):
        if x in memo:
            return memo[x]
        r = None
        if x is TRUE:
            r = True
        elif x is FALSE:
            r = False
        elif x.op == 'not':
            v = ev(x.a[0], choice, memo)
            r = None if v is None else not v
        elif x.op in ('and', 'or'):
            args = x.a[0] if len(x.a) == 1 and isinstance(x.a[0], (tuple, frozenset)) else x.a
            vs = [ev(y, choice, memo) for y in args]
            dom = x.op == 'or'
            r = dom if dom in vs else (None if None in vs else (not dom))
        elif x.op == 'ite':
            c = ev(x.a[0], choice, memo)
            vs = [ev(y, choice, memo) for y in x.a[1:]]
            r = vs[0] if c is True else vs[1] if c is False else (vs[0] if vs[0] == vs[1] else None)
        else:
            k = test(x)
            if k is not None:
                r = (k == choice)
        memo[x] = r
        return r

    def test(x):
        if x.op in ('eq', 'cmp'):
            ts = [y for y in x.a if isinstance(y, T)]
            if (x.op == 'eq' or '==' in x.a) and len(ts) == 2 and any(is_option(y) for y in ts):
                for y in ts:
                    if y.op == 'const':
                        return y.a[0]
        return None
    for choice in [object()] + sorted(others, key=str):
        if ev(pc, choice, {}) is not False:
            if not isinstance(choice, str):
                left = [x for x in subterms(pc) if is_option(x)]
                return INCONCLUSIVE, 'normal return not excluded: %s' % show(pc, 6)[:240], others
            return INCONCLUSIVE, '%r is tested for and may return: %s' % (choice, show(pc, 6)[:240]), others
    return HOLDS, '', others


def where(ctx, name, body):
    last = body.strip().splitlines()[-1].strip()
    for part in name.split('.'):
        for mod in ctx.prog.mods.values():
            f = mod.functions.get(part)
            if f is not None:
                return '%s:%d (%s)' % (mod.rel, f.node.lineno, part)
    return last


def mentions(pc, vals):
    return any(x.op == 'const' and any(type(x.a[0]) is type(v) and x.a[0] == v for v in vals) for x in subterms(pc))


def refuted(pc):
    return Theory(set(), set(), seeds=40).compare(pc, FALSE)[0] == EQ


def indent(b):
    return b if b.startswith('    ') else '    ' + b


def fold(ctx, name, params, body, vals, opaque, more):
    bad, unk = [], []
    n = 0
    for v in near(vals) + more:
        text = HEAD + '\ndef code_x(%s):\n%s\n' % (params, indent(body).format(repr(v)))
        m = SpecMod(ctx.prog, text)
        if ctx.private_missing(m, 'code_x'):
            unk.append((v, 'entry point not as expected'))
            break
        try:
            it, st, val, t, ty = ctx.run_text(m, 'code_x', opaque)
        except Exception as e:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            unk.append((v, repr(e)[:150]))
            continue
        n += 1
        if st is None:
            continue
        pc = conj(st.pc)
        ctx.nodes += sum(1 for _ in subterms(pc))
        pc2 = B.norm(pc) if hasattr(B, 'norm') else pc
        if pc2 is FALSE:
            continue
        # a test of the value that could not be folded leaves the value in a condition
        if mentions(pc, (v,)) or it.unknown:
            unk.append((v, show(pc, 6)[:240]))
        elif refuted(pc):
            continue
        else:
            bad.append((v, show(pc, 6)[:240]))
    if bad:
        ctx.ob(name + '.folded', VIOLATED, RULE, where(ctx, name, body), '%r is accepted; returns when %s' % bad[0])
    elif unk:
        ctx.ob(name + '.folded', INCONCLUSIVE, RULE, '', '%r: %s' % unk[0])
    else:
        ctx.ob(name + '.folded', HOLDS, RULE, '', '%d values' % n)


def symbolic(ctx, name, params, body, vals, opaque):
    text = HEAD + '\ndef code_x(%s, option: str):\n%s\n' % (
        params, indent(body).format('option'))
    m = SpecMod(ctx.prog, text)
    if ctx.private_missing(m, 'code_x'):
        ctx.ob(name + '.any', INCONCLUSIVE, RULE, '', 'entry point not as expected')
        return
    try:
        it, st, val, t, ty = ctx.run_text(m, 'code_x', opaque)
    except Exception as e:
        if os.environ.get('RDCHECK_DEBUG'):
            raise
        ctx.ob(name + '.any', INCONCLUSIVE, RULE, '', repr(e)[:150])
        return
    pc = conj(st.pc) if st is not None else FALSE
    ctx.nodes += sum(1 for _ in subterms(pc))
    r, det, others = excluded(pc, vals)
    others = [v for v in sorted(others, key=str) if v not in near(vals)]
    ctx.ob(name + '.any', r, RULE, '', det)
    return others


def check(ctx):
    from . import chain
    ctx.rules[RULE] = 'static'
    for mod, q in (('filtering', 'clearsky_filter'), ('filtering', 'clip_filter'), ('normalization', 'energy_from_power'), ('soiling', 'soiling_srr')):
        ctx.need(mod, q)
    for name, (params, body, vals, opaque) in CASES.items():
        opaque = chain.OPAQUE if opaque is None else opaque
        more = symbolic(ctx, name, params, body, vals, opaque) or []
        fold(ctx, name, params, body, vals, opaque, more)
    for o in ORDERS:
        text = HEAD + '\ndef code_x(y: series, dm: str):\n    return CODSAnalysis(y).iterative_signal_decomposition(order=%r, degradation_method=dm)\n' % (o,)
        name = 'CODSAnalysis.order.' + '_'.join(o)
        try:
            it, st, val, t, ty = ctx.run_text(SpecMod(ctx.prog, text), 'code_x', ())
        except Exception as e:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob(name, INCONCLUSIVE, RULE, '', repr(e)[:150])
            continue
        pc = conj(st.pc) if st is not None else FALSE
        if pc is FALSE or refuted(pc):
            ctx.ob(name, HOLDS, RULE)
        elif it.unknown or mentions(pc, ('SR',) + o):
            ctx.ob(name, INCONCLUSIVE, RULE, '', show(pc, 6)[:240])
        else:
            ctx.ob(name, VIOLATED, RULE, where(ctx, 'iterative_signal_decomposition', name), 'order=%r without a soiling component is accepted; returns when %s' % (o, show(pc, 6)[:240]))
