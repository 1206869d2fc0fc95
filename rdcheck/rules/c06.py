"""Inputs that break a documented precondition have no normal return."""
import os
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod, Theory, EQ, NE, conj, show, last_raise
from ..terms import *
from .. import build as B
from . import chain
EXPLAIN = ('Static guard analysis: each entry point is analysed under the assumption that one documented precondition is broken, everything else unknown; '
           'the extracted condition for a normal return must be contradictory, i.e. a raising guard dominates every return on that input.')
ASSUME = ['library predicates (index equality, inferred frequency, time zone) mean what pandas documents']
RULE = 'no normal return when the precondition is broken'
HEAD = '''
import numpy as np
import pandas as pd
from rdtools import filtering, normalization, degradation, soiling, bootstrap, plotting
from rdtools.analysis_chains import TrendAnalysis
from rdtools.availability import AvailabilityAnalysis
from rdtools.soiling import SRRAnalysis, CODSAnalysis, soiling_srr, soiling_cods

def assume(c):
    if not c:
        raise ValueError('assumption')

def short(s):
    i = s.index
    if i.inferred_freq is not None:
        step = pd.tseries.frequencies.to_offset(i.inferred_freq)
    else:
        step = i.to_series().diff().median()
    return i[-1] < i[0] + pd.DateOffset(years=2) - step

def two_years_yoy(s: series, rc: bool, ep: scalar, cl: scalar, um: opt, bl: scalar):
    e = s.sort_index()
    e.name = 'energy'
    e.index.name = 'dt'
    assume(short(e))
    return degradation.degradation_year_on_year(s, rc, ep, cl, um, bl)

def regular_circular_block(s: series, rc: bool, ep: scalar, cl: scalar, bl: scalar):
    assume(pd.infer_freq(s.sort_index().index) is None)
    return degradation.degradation_year_on_year(s, rc, ep, cl, 'circular_block', bl)

def block_length(s: series, rc: bool, ep: scalar, cl: scalar, bl: scalar):
    assume(bl > len(s) / 3)
    return degradation.degradation_year_on_year(s, rc, ep, cl, 'circular_block', bl)

def yoy_pairs(s: series, rc: bool, ep: scalar, cl: scalar, um: str, bl: scalar):
    r = degradation.degradation_year_on_year(s, rc, ep, cl, 'simple', bl)
    assume(not len(r[2]['YoY_values']))
    return r

def yoy_pairs_none(s: series, rc: bool, ep: scalar, cl: scalar, um: str, bl: scalar):
    r = degradation.degradation_year_on_year(s, rc, ep, cl, 'circular_block', bl)
    assume(not len(r[2]['YoY_values']))
    return r

def srr_valid_interval(y: series, i: series, reps: scalar, mrse: scalar, mns: scalar, mil: scalar):
    a = SRRAnalysis(y, i)
    a.run(reps=reps, max_relative_slope_error=mrse, max_negative_step=mns, min_interval_length=mil)
    assume(len(a.result_df[a.result_df.valid]) == 0)
    return a

def classical_regular(s: series, cl: scalar):
    assume(s.to_frame('energy_normalized').dropna().index.freq is None)
    return degradation.degradation_classical_decomposition(s, cl)

def srr_daily_pm(y: series, i: series, p: opt):
    assume(pd.infer_freq(y.index) != 'D')
    return SRRAnalysis(y, i, p)

def srr_daily_insolation(y: series, i: series, p: opt):
    assume(pd.infer_freq(i.index) != 'D')
    return SRRAnalysis(y, i, p)

def srr_daily_precip(y: series, i: series, p: series):
    assume(pd.infer_freq(p.index) != 'D')
    return SRRAnalysis(y, i, p)

def soiling_srr_daily_pm(y: series, i: series, p: opt):
    assume(pd.infer_freq(y.index) != 'D')
    return soiling_srr(y, i, precipitation_daily=p)

def soiling_srr_daily_insolation(y: series, i: series, p: opt):
    assume(pd.infer_freq(i.index) != 'D')
    return soiling_srr(y, i, precipitation_daily=p)

def soiling_srr_daily_precip(y: series, i: series, p: series):
    assume(pd.infer_freq(p.index) != 'D')
    return soiling_srr(y, i, precipitation_daily=p)

def cods_daily(y: series):
    assume(not np.isnan(y.iloc[0]))
    assume(y.index.freq != 'D')
    return CODSAnalysis(y)

def soiling_cods_daily(y: series):
    assume(not np.isnan(y.iloc[0]))
    assume(y.index.freq != 'D')
    return soiling_cods(y)

def availability_subsystem(ps: series, pss: frame, ec: series, pe: series):
    assume(not ps.index.equals(pss.index))
    return AvailabilityAnalysis(ps, pss, ec, pe)

def availability_energy(ps: series, pss: frame, ec: series, pe: series):
    assume(not ps.index.equals(ec.index))
    return AvailabilityAnalysis(ps, pss, ec, pe)

def availability_expected(ps: series, pss: frame, ec: series, pe: series):
    assume(not ps.index.equals(pe.index))
    return AvailabilityAnalysis(ps, pss, ec, pe)

def availability_plot_before_run(ps: series, pss: frame, ec: series, pe: series):
    return AvailabilityAnalysis(ps, pss, ec, pe).plot()

def interpolate_aware_naive(s: series, t: index, m: opt, w: scalar):
    assume(s.index.tz is None)
    assume(t.tz is not None)
    return normalization.interpolate(s, t, m, w)

def interpolate_naive_aware(s: series, t: index, m: opt, w: scalar):
    assume(s.index.tz is not None)
    assume(t.tz is None)
    return normalization.interpolate(s, t, m, w)

def interpolate_not_pandas(s: ndarray, t: index, m: opt, w: scalar):
    return normalization.interpolate(s, t, m, w)

def energy_datetime(s: series, f: opt, m: opt, pt: str):
    assume(not isinstance(s.index, pd.DatetimeIndex))
    return normalization.energy_from_power(s, f, m, pt)

def energy_single_instantaneous(s: series, f: opt, m: opt):
    assume(len(s) <= 1)
    return normalization.energy_from_power(s, f, m, 'instantaneous')

def energy_single_no_period(s: series, m: opt, pt: str):
    assume(len(s) <= 1)
    assume(s.index.freq is None)
    return normalization.energy_from_power(s, None, m, pt)

def pvwatts_regular(e: series, poa: series, t: series, r: scalar, g: scalar):
    assume(e.index.freq is None)
    assume(pd.infer_freq(e.index) is None)
    return normalization.normalize_with_pvwatts(e, {'poa_global': poa, 'power_dc_rated': r, 'temperature_cell': t, 'gamma_pdc': g})

def expected_regular(e: series, x: series, poa: series, kind: str):
    assume(e.index.freq is None)
    assume(pd.infer_freq(e.index) is None)
    return normalization.normalize_with_expected_power(e, x, poa, kind)

def logic_datetime(p: series, mt: str, cut: scalar):
    assume(not isinstance(p.index, pd.DatetimeIndex))
    return filtering.logic_clip_filter(p, mt, cut)

def logic_sorted(p: series, mt: str, cut: scalar):
    assume(not all(p.sort_index().index == p.index))
    return filtering.logic_clip_filter(p, mt, cut)

def logic_length(p: series, mt: str, cut: scalar):
    assume(len(p) <= 10)
    return filtering.logic_clip_filter(p, mt, cut)

def xgboost_datetime(p: series, mt: str):
    assume(not isinstance(p.index, pd.DatetimeIndex))
    return filtering.xgboost_clip_filter(p, mt)

def xgboost_sorted(p: series, mt: str):
    assume(not all(p.sort_index().index == p.index))
    return filtering.xgboost_clip_filter(p, mt)

def xgboost_length(p: series, mt: str):
    assume(len(p) <= 10)
    return filtering.xgboost_clip_filter(p, mt)

def timeseries_plot_values(r: scalar, v: scalar, days: scalar, ci: bool):
    return plotting.degradation_timeseries_plot({'renormalizing_factor': r, 'exceedance_level': v}, days, ci)

def sensor_no_irradiance(pv: series, t: opt, ta: opt, pe: opt, kind: str, an: opt):
    return TrendAnalysis(pv, temperature_cell=t, temperature_ambient=ta, power_expected=pe, pv_input=kind).sensor_analysis(an)

def sensor_no_temperature(pv: series, poa: series, kind: str, an: opt, g: scalar):
    return TrendAnalysis(pv, poa_global=poa, pv_input=kind, gamma_pdc=g).sensor_analysis(an)

def sensor_energy_needs_power(pv: series, poa: series, t: series, g: scalar, an: opt, model: str):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g, pv_input='energy')
    x.filter_params['clip_filter'] = {'model': model}
    return x.sensor_analysis(an)

def sensor_energy_needs_power_default(pv: series, poa: series, t: series, g: scalar, an: opt):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g, pv_input='energy')
    assume('clip_filter' in x.filter_params)
    return x.sensor_analysis(an)

def sensor_hour_angle_needs_location(pv: series, poa: series, t: series, g: scalar, an: opt):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    x.filter_params['hour_angle_filter'] = {}
    return x.sensor_analysis(an)

def sensor_tcell_filter_needs_temperature(pv: series, poa: series, pe: series, an: opt):
    x = TrendAnalysis(pv, poa_global=poa, power_expected=pe)
    x.filter_params['tcell_filter'] = {}
    return x.sensor_analysis(an)

def sensor_clearsky_filter_needs_setup(pv: series, poa: series, t: series, g: scalar, an: opt):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    x.filter_params['sensor_clearsky_filter'] = {}
    return x.sensor_analysis(an)

def clearsky_needs_setup(pv: series, poa: series, t: series, g: scalar, an: opt):
    return TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g).clearsky_analysis(an)

def clearsky_needs_location(pv: series, poa: series, t: series, g: scalar, an: opt, az: scalar, tilt: scalar):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g)
    x.set_clearsky(pv_azimuth=az, pv_tilt=tilt)
    return x.clearsky_analysis(an)

def clearsky_needs_location_for_temperature(pv: series, poa: series, g: scalar, an: opt, cs: series):
    x = TrendAnalysis(pv, poa_global=poa, gamma_pdc=g)
    x.set_clearsky(poa_global_clearsky=cs)
    return x.clearsky_analysis(an)

def clearsky_filter_needs_sensor(pv: series, t: series, g: scalar, an: opt, cs: series):
    x = TrendAnalysis(pv, temperature_cell=t, gamma_pdc=g)
    x.set_clearsky(poa_global_clearsky=cs, temperature_cell_clearsky=t)
    return x.clearsky_analysis(an)

def temperature_model_dict(pv: series, poa: series, ta: series, g: scalar, an: opt, a: scalar, b: scalar):
    return TrendAnalysis(pv, poa_global=poa, temperature_ambient=ta, gamma_pdc=g, temperature_model={'a': a, 'b': b}).sensor_analysis(an)

def temperature_model_type(pv: series, poa: series, ta: series, g: scalar, an: opt):
    return TrendAnalysis(pv, poa_global=poa, temperature_ambient=ta, gamma_pdc=g, temperature_model=5).sensor_analysis(an)

def sensor_two_years(pv: series, poa: series, t: series, g: scalar, f: str):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g, aggregation_freq=f)
    x.sensor_analysis([])
    p = x.sensor_aggregated_performance
    assume(not p.empty)
    assume(p.index[-1] - p.index[0] < pd.Timedelta('730d'))
    return x.sensor_analysis(['yoy_degradation'])

def sensor_nothing_left(pv: series, poa: series, t: series, g: scalar, f: str):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g, aggregation_freq=f)
    x.sensor_analysis([])
    assume(x.sensor_aggregated_performance.empty)
    return x.sensor_analysis(['yoy_degradation'])

def clearsky_two_years(pv: series, poa: series, t: series, g: scalar, f: str, cs: series):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g, aggregation_freq=f)
    x.set_clearsky(poa_global_clearsky=cs, temperature_cell_clearsky=t)
    x.clearsky_analysis([])
    p = x.clearsky_aggregated_performance
    assume(not p.empty)
    assume(p.index[-1] - p.index[0] < pd.Timedelta('730d'))
    return x.clearsky_analysis(['yoy_degradation'])

def sensor_soiling_daily(pv: series, poa: series, t: series, g: scalar, f: str):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g, aggregation_freq=f)
    x.sensor_analysis([])
    assume(x.sensor_aggregated_performance.index.freq != pd.tseries.offsets.Day())
    return x.sensor_analysis(['srr_soiling'])

def sensor_soiling_daily_insolation(pv: series, poa: series, t: series, g: scalar, f: str):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g, aggregation_freq=f)
    x.sensor_analysis([])
    assume(x.sensor_aggregated_insolation.index.freq != pd.tseries.offsets.Day())
    return x.sensor_analysis(['srr_soiling'])

def clearsky_soiling_daily(pv: series, poa: series, t: series, g: scalar, f: str, cs: series):
    x = TrendAnalysis(pv, poa_global=poa, temperature_cell=t, gamma_pdc=g, aggregation_freq=f)
    x.set_clearsky(poa_global_clearsky=cs, temperature_cell_clearsky=t)
    x.clearsky_analysis([])
    assume(x.clearsky_aggregated_performance.index.freq != pd.tseries.offsets.Day())
    return x.clearsky_analysis(['srr_soiling'])
'''
PUBLIC = (('degradation', 'degradation_year_on_year'), ('soiling', 'SRRAnalysis'), ('availability', 'AvailabilityAnalysis'))


def check(ctx):
    ctx.rules[RULE] = 'static'
    m = SpecMod(ctx.prog, HEAD)
    ctx.need('degradation', 'degradation_year_on_year')
    ctx.need('soiling', 'soiling_srr')
    for name, fn in m.functions.items():
        if name in ('assume', 'short'):
            continue
        opaque = ('_calc_monte', '_calc_daily_df') if name == 'srr_valid_interval' else chain.OPAQUE if name.startswith(('sensor', 'clearsky', 'temperature')) else ()
        if ctx.private_missing(m, name):
            ctx.ob(name, INCONCLUSIVE, RULE, '', 'entry point not as expected')
            continue
        try:
            it, st, v, t, ty = ctx.run_text(m, name, opaque)
        except Exception as e:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob(name, INCONCLUSIVE, RULE, '', repr(e)[:150])
            continue
        if not any(e.kind == 'raise' and not str(e.where).endswith('(assume)') for e in it.events):
            # no path of the package raises: either the assumption is contradictory (nothing shown) or nothing is guarded
            if st is None:
                ctx.ob(name, INCONCLUSIVE, RULE, '', 'the assumption excludes every input')
                continue
        if st is None:
            ctx.ob(name, HOLDS, RULE)
            continue
        broken, rest = split(it, st)
        ctx.nodes += sum(1 for _ in subterms(conj(st.pc)))
        scal = {k for k, x in ty.items() if x in ('scalar', 'str', 'bool', 'dict', 'opt')}
        th = Theory(scal, {k for k, x in ty.items() if x == 'bool'}, seeds=40 if ctx.tier == 'quick' else 120)
        r, d = decide(th, it, broken, rest, known(name), scal)
        where = last_raise(it) if r != HOLDS else ''
        ctx.ob(name, r, RULE, where, d)


# what the other conditions on the way to a return talk about (they say nothing about the broken precondition):
# a condition mentioning the first name and none of the names after '-' is set aside
KNOWN = {
    'two_years_yoy': ('merge_asof', 'infer_freq', 'len'),
    'regular_circular': ('merge_asof', 'DateOffset', 'len'),
    'block_length': ('merge_asof', 'DateOffset', 'infer_freq'),
    'yoy_pairs': ('DateOffset -merge_asof', 'infer_freq -merge_asof', '$bl -merge_asof'),
    'classical': ('freq -dropna -isna -notna -isnull -notnull',),
    'srr_valid': ('infer_freq', 'len ~filt ~any ~sum'),
    'srr_daily_pm': ('$i -$y', '$p -$y'), 'srr_daily_insolation': ('$y -$i', '$p -$i'), 'srr_daily_precip': ('$y -$p', '$i -$p'),
    'soiling_srr_daily': ('DataFrame', 'listof'),
    'availability_subsystem': ('$ec -$pss', '$pe -$pss', 'len -equals'), 'availability_energy': ('$pss -$ec', '$pe -$ec', 'len -equals'),
    'availability_expected': ('$pss -$pe', '$ec -$pe', 'len -equals'),
    'logic_sorted': ('$mt', 'isinst', 'len -is_monotonic_increasing', 'any -all'), 'xgboost_sorted': ('$mt', 'isinst', 'len -is_monotonic_increasing', 'any -all'),
    'logic_length': ('$mt', 'isinst', 'sort_index -len -size -shape'), 'xgboost_length': ('$mt', 'isinst', 'sort_index -len -size -shape'),
    'logic_datetime': ('$mt', 'sort_index', 'len'), 'xgboost_datetime': ('$mt', 'sort_index', 'len'),
    'energy_datetime': ('$pt', 'len', 'isnone'), 'energy_single_i': ('isinst', 'isnone', 'exc'), 'energy_single_n': ('isinst', '$pt', 'exc'),
    'pvwatts_regular': ('tz',), 'expected_regular': ('tz', '$kind', 'len', 'isinst'),
    'sensor_two_years': ('tz', 'isinst', '$f'), 'clearsky_two_years': ('tz', 'isinst', '$f'),
    'sensor': ('len', 'freq', '$an', '$kind', 'tz', 'isinst', 'exc', 'equals'), 'clearsky': ('len', 'freq', '$an', '$kind', 'tz', 'isinst', 'exc', 'equals'),
    'temperature': ('len', 'freq', '$an', '$kind', 'tz', 'isinst', 'exc', 'equals'),
    'sensor_nothing': ('tz', 'isinst'), 'sensor_soiling': ('tz', 'isinst'), 'clearsky_soiling': ('tz', 'isinst'),
}


def known(name):
    best = ''
    for k in KNOWN:
        if name.startswith(k) and len(k) > len(best):
            best = k
    return KNOWN.get(best, ())


def split(it, st):
    """the assumed condition, and the conditions the package puts on the path to its return"""
    broken = []
    for e in it.events:
        if e.kind == 'raise' and str(e.where).endswith('(assume)') and e.pc:
            c, v = e.pc[-1]
            broken.append(B.tnot(c) if v else c)
    return broken, [c if v else B.tnot(c) for c, v in st.pc]


def words(t):
    out = set()
    for x in subterms(t):
        if x.op == 'param':
            out.add('$' + x.a[0])
        elif x.op == 'ext':
            out.add(x.a[0].split('.')[-1])
        elif x.op in ('attr', 'mcall'):
            out.add(x.a[1])
        elif x.op == 'agg':
            out.add(x.a[0])
        elif x.op in ('isinst', 'isnone', 'exc', 'listof', 'loop'):
            out.add(x.op)
    return out


def elsewhere(c, skip, th):
    w = words(c)
    heads = set()
    for x in th.leaves(c):
        heads.add(x.a[1] if x.op in ('mcall', 'attr') else x.a[0] if x.op == 'agg' else x.op)
        if B.is_len(x):
            heads.add(x.a[1][0].op)
    for alt in skip:
        name, *no = alt.split()
        if name in w and not any(x[1:] in (w if x[0] == '-' else heads) for x in no):
            return True
    return False


def given(t, facts, memo):
    """t with the atoms in `facts` replaced by their value"""
    if t.id not in memo:
        if t in facts:
            r = const(facts[t])
        elif t.op == 'not':
            r = B.tnot(given(t.a[0], facts, memo))
        elif t.op in ('and', 'or'):
            args = t.a[0] if len(t.a) == 1 and isinstance(t.a[0], (tuple, frozenset)) else t.a
            r = TRUE if t.op == 'and' else FALSE
            for y in args:
                r = (B.tand if t.op == 'and' else B.tor)(r, given(y, facts, memo))
        else:
            r = t
        memo[t.id] = r
    return memo[t.id]


def decide(th, it, broken, conds, skip, scal):
    full = TRUE
    for c in conds:
        full = B.tand(full, c)
    if full is FALSE:
        return HOLDS, ''
    d = 'returns normally when %s' % show(full, 7)[:400]
    key = set()
    for b in broken:
        key |= {th.num(x) for x in th.leaves(b)}
    facts = {}
    for b in broken:
        a, v = (b.a[0], False) if b.op == 'not' else (b, True)
        if th.flag(a):
            facts[a] = v
    left, other = TRUE, None
    for c in conds:
        if not any(c is b for b in broken):
            c = given(c, facts, {})
        elif (c.a[0] if c.op == 'not' else c) in facts:
            continue
        if c is FALSE:
            return HOLDS, ''
        if any(c is b for b in broken):
            left = B.tand(left, c)
            continue
        ls = th.leaves(c)
        if broken and all(th.num(x) in key or free(x, scal, th, key) for x in ls):
            left = B.tand(left, c)
        elif elsewhere(c, skip, th) and not any(th.num(x) in key for x in ls):
            continue                   # about something else
        else:
            other = c
    if left is FALSE or th.eq(left, FALSE):
        return HOLDS, ''
    if other is not None or it.unknown:
        if th.compare(full, FALSE)[0] == EQ:
            return HOLDS, ''
        return INCONCLUSIVE, d
    return VIOLATED, d


def free(x, scal, th, key):
    """a value the broken precondition does not determine"""
    if x.op == 'isnone':
        return th.num(x.a[0]) in key or free(x.a[0], scal, th, key)
    if x.op == 'cmp' and x.a[0] == '==':
        return all(y.op == 'const' or free(y, scal, th, key) for y in x.a[1:])
    if x.op == 'param':
        return x.a[0] in scal
    if B.is_len(x) and x.a[1][0].op == 'param':
        return True
    return x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0].startswith(('pandas.DateOffset', 'pandas.tseries.offsets')) and \
        not any(y.op in ('param', 'unk', 'mu', 'elem', 'lamarg', 'unkcond', 'exc', 'iter', 'field', 'callback') for y in subterms(x))
