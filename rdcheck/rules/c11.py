"""Masks and resampled outputs are aligned with their input timestamps."""
import itertools
import os
from .. import framework as F
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod, subterms, show
from ..terms import *
from .. import build as B
from .. import indexes as X
from . import chain
EXPLAIN = ('Index-provenance analysis: for every return path of every public filter, of interpolation, normalization, aggregation, bootstrap sampling and the decompositions, the '
           'index of the result is inferred from the value-flow graph (selection, dropping, resampling, reordering, label alignment, reindexing) as a symbolic set of rows of the '
           'inputs, and must be exactly the index documented. Masks must also be boolean: a mask re-indexed onto more rows without a fill value gains missing entries.')
ASSUME = ['inputs have a sorted index without duplicates', 'several series given to one filter share one index']
RULE_I = 'the result carries exactly the timestamps of the series it belongs to'
RULE_S = 'results returned together share one index'
RULE_B = 'a mask has a true or false entry for every row'

TEXT = chain.HEAD + '''
from rdtools import bootstrap
from rdtools.soiling import CODSAnalysis, SRRAnalysis

def mask_normalized(s: series, lo: opt, hi: opt):
    return filtering.normalized_filter(s, lo, hi)
def mask_poa(s: series, lo: scalar, hi: scalar):
    return filtering.poa_filter(s, lo, hi)
def mask_tcell(s: series, lo: scalar, hi: scalar):
    return filtering.tcell_filter(s, lo, hi)
def mask_csi(s: series, c: series, thr: scalar):
    return filtering.csi_filter(s, c, thr)
def mask_pvlib(s: series, c: series, w: scalar, lookup: bool):
    return filtering.pvlib_clearsky_filter(s, c, window_length=w, lookup_parameters=lookup)
def mask_clearsky_csi(s: series, c: series):
    return filtering.clearsky_filter(s, c, model='csi')
def mask_clearsky_pvlib(s: series, c: series):
    return filtering.clearsky_filter(s, c, model='pvlib')
def mask_clip_quantile(s: series):
    return filtering.clip_filter(s, model='quantile')
def mask_clip_logic(s: series):
    return filtering.clip_filter(s, model='logic')
def mask_clip_xgboost(s: series):
    return filtering.clip_filter(s, model='xgboost')
def mask_quantile(s: series, q: scalar):
    return filtering.quantile_clip_filter(s, q)
def mask_logic(s: series, mt: str, rr: opt):
    return filtering.logic_clip_filter(s, mt, rr)
def mask_xgboost(s: series, mt: str):
    return filtering.xgboost_clip_filter(s, mt)
def mask_window(s: series, rp: scalar, tol: scalar):
    return filtering.two_way_window_filter(s, roll_period=rp, outlier_threshold=tol)
def mask_insolation(s: series, q: scalar):
    return filtering.insolation_filter(s, q)
def mask_hampel(s: series, k: str, t0: scalar):
    return filtering.hampel_filter(s, k, t0)
def mask_tukey(s: series, rp: str, k: scalar):
    return filtering.directional_tukey_filter(s, rp, k)
def mask_hour(s: series, lat: scalar, lon: scalar, lo: scalar, hi: scalar):
    return filtering.hour_angle_filter(s, lat, lon, lo, hi)

def on_interpolate(x: series, target: index, limit: opt, w: scalar):
    return interpolate(x, target, limit, w)
def on_interpolate_frame(x: frame, target: index, limit: opt, w: scalar):
    return interpolate(x, target, limit, w)
def on_samples_mult(s: series, fit: series, n: scalar, b: scalar, seed: scalar):
    return bootstrap._make_time_series_bootstrap_samples(s, fit, n, b, 'multiplicative', seed)
def on_samples_add(s: series, fit: series, n: scalar, b: scalar, seed: scalar):
    return bootstrap._make_time_series_bootstrap_samples(s, fit, n, b, 'additive', seed)
def on_pvwatts(s: series, p: scalar, t: series, g: scalar):
    return normalization.pvwatts_dc_power(s, p, t, gamma_pdc=g)
def on_rescale_iterative(s: series, sim: series, mi: scalar):
    return normalization.irradiance_rescale(s, sim, mi, method='iterative')
def on_rescale_single(s: series, sim: series, mi: scalar):
    return normalization.irradiance_rescale(s, sim, mi, method='single_opt')
def pair_normalize(pv: series, pe: series, poa: series, kind: str):
    return normalization.normalize_with_expected_power(pv, pe, poa, kind)
def pair_normalize_power(pv: series, pe: series, poa: series):
    return normalization.normalize_with_expected_power(pv, pe, poa, 'power')
def pair_normalize_energy(pv: series, pe: series, poa: series):
    return normalization.normalize_with_expected_power(pv, pe, poa, 'energy')
def pair_decomposition(s: series, o: opt, dm: str, mi: scalar, ff: bool, clip: bool):
    a = CODSAnalysis(s)
    return a.iterative_signal_decomposition(o, dm, mi, ffill=ff, clip_soiling=clip)[0], a.pm
def pair_pvwatts(pv: series, poa: series, p: scalar, t: series, g: scalar):
    return normalization.normalize_with_pvwatts(pv, {'poa_global': poa, 'power_dc_rated': p, 'temperature_cell': t, 'gamma_pdc': g})
'''
# result -> input whose index it must have
TARGET = {'interpolate': 'target', 'interpolate_frame': 'target'}
SHARE = {'c': 's', 'fit': 's', 't': 's', 'sim': 's'}
for_norm = ('energy_from_power', 'interpolate')
OPAQUE = {'normalize': for_norm, 'normalize_power': for_norm, 'normalize_energy': for_norm, 'pvwatts': for_norm, 'decomposition': ('CODSAnalysis._Kalman_filter_for_SR', '_collapse_cleaning_events')}


def run(ctx, m, n, nm):
    try:
        return ctx.run_text(m, n, opaque=OPAQUE.get(nm, ()))
    except Exception as ex:
        if os.environ.get('RDCHECK_DEBUG'):
            raise
        ctx.ob('index.' + nm, INCONCLUSIVE, RULE_I, '', 'construct outside the analysed language: %s' % repr(ex)[:200])


def boolean(t, ix, target, seen=0):
    """-> (True, None) boolean on every row; (False, culprit); (None, None)"""
    o = t.op
    if o in ('cmp', 'isna', 'in'):
        return True, None
    if o in ('and', 'or', 'not'):
        rs = [boolean(k, ix, target) for k in kids(t)]
        for r in rs:
            if r[0] is False:
                return r
        return (True, None) if all(r[0] for r in rs) else (None, None)
    if o == 'ite':
        a, b = boolean(t.a[1], ix, target), boolean(t.a[2], ix, target)
        return a if a[0] is False else b if b[0] is False else (True, None) if a[0] and b[0] else (None, None)
    if o == 'const':
        return (True, None) if isinstance(t.a[0], bool) else (None, None)
    if o == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'pvlib.clearsky.detect_clearsky':
        rc = dict(t.a[2]).get('return_components')
        return (True, None) if rc is None or rc is FALSE else (None, None)
    if o == 'oncol':
        return boolean(t.a[0], ix, target)
    if o == 'mcall':
        kws = dict(t.a[3])
        if t.a[1] == 'astype':
            d = kws.get('dtype') or (t.a[2][0] if t.a[2] else None)
            return (True, None) if d is not None and d.op == 'ext' and d.a[0] in ('builtins.bool', 'numpy.bool_') else (None, None)
        if t.a[1] in ('reindex', 'reindex_like'):
            b = boolean(t.a[0], ix, target)
            if b[0] is not True:
                return b
            fv = kws.get('fill_value')
            if fv is not None and fv.op == 'const' and isinstance(fv.a[0], bool):
                return True, None
            if fv is None:
                a, z = ix.of(t.a[0]), ix.of(t)
                if a is not None and z is not None and a == z:
                    return True, None
                if a is not None and z is not None and all(x[0] in ('sel', 'res') for x in a) and not kws.get('method'):
                    return False, t
            return None, None
        if t.a[1] in ('isna', 'isnull', 'notna', 'notnull', 'between', 'isin'):
            return True, None
    return None, None


def check(ctx):
    for mod, q in (('filtering', 'normalized_filter'), ('filtering', 'logic_clip_filter'), ('filtering', 'xgboost_clip_filter'), ('filtering', 'two_way_window_filter'),
                   ('filtering', 'hampel_filter'), ('filtering', 'directional_tukey_filter'), ('filtering', 'hour_angle_filter'), ('normalization', 'interpolate'),
                   ('normalization', 'normalize_with_expected_power')):
        ctx.need(mod, q)
    m = SpecMod(ctx.prog, TEXT)
    for n in m.functions:
        kind, _, nm = n.partition('_')
        if kind not in ('mask', 'on', 'pair'):
            continue
        r = run(ctx, m, n, nm)
        if r is None:
            continue
        it, st, v, t, ty = r
        if t is None:
            ctx.ob('index.' + nm, INCONCLUSIVE, RULE_I, '', 'no normal outcome')
            continue
        ix = X.Index(ty, {} if kind == 'pair' else SHARE)
        if kind == 'pair':
            pair(ctx, it, t, nm, ix)
            continue
        want = TARGET.get(nm, 's')
        where = lambda x: F.locate(it, x, x)
        got = ix.of(t)
        if got is None:
            ctx.ob('index.' + nm, INCONCLUSIVE, RULE_I, where(t), 'the index of the result cannot be followed')
        else:
            bad = [x for x in got if X.differs(x, want)]
            if bad:
                ctx.ob('index.' + nm, VIOLATED, RULE_I, where(culprit(ix, t, want)), 'the result has %s instead of the index of the input' % X.describe(bad[0]))
            else:
                ok = all(x == ('I', want) for x in got)
                ctx.ob('index.' + nm, HOLDS if ok else INCONCLUSIVE, RULE_I, '', '' if ok else ', '.join(map(X.describe, got)))
        if kind == 'mask':
            b, c = boolean(t, ix, want)
            ctx.ob('boolean.' + nm, HOLDS if b else VIOLATED if b is False else INCONCLUSIVE, RULE_B, where(c) if c is not None else '',
                   'the mask is re-indexed onto more rows without a fill value: those rows are missing' if b is False else '' if b else 'the type of the mask cannot be followed')


def culprit(ix, t, want):
    """innermost place on the way where the index goes wrong"""
    while True:
        nxt = None
        for k in kids(t):
            s = ix.of(k)
            if s is not None and any(X.differs(x, want) for x in s) and any(x in (ix.of(t) or ()) for x in s):
                nxt = k
                break
        if nxt is None:
            return t
        t = nxt


def pair(ctx, it, t, nm, ix):
    if t.op != 'tuple' or len(t.a[0]) < 2:
        ctx.ob('share.' + nm, INCONCLUSIVE, RULE_S, '', 'the result is not a pair')
        return
    a, b = t.a[0][:2]
    # the same re-indexing target, whatever it is
    ra, rb = target(a), target(b)
    if ra is not None and ra is rb or root(a) is root(b):
        ctx.ob('share.' + nm, HOLDS, RULE_S)
        return
    ix.of(a), ix.of(b)
    gates = list(ix.seen.values())
    if len(gates) > 7:
        ctx.ob('share.' + nm, INCONCLUSIVE, RULE_S, '', 'too many cases')
        return
    unknown = False
    for bits in itertools.product((True, False), repeat=len(gates)):
        iy = X.Index(ix.ty, ix.alias)
        iy.gate = {g.id: v for g, v in zip(gates, bits)}
        x, y = iy.of(a), iy.of(b)
        if x is None or y is None or len(x) != 1 or len(y) != 1:
            unknown = True
        elif x != y:
            x, y = next(iter(x)), next(iter(y))
            ctx.ob('share.' + nm, VIOLATED, RULE_S, F.locate(it, a, a), 'one result has %s, the other %s' % (X.describe(x), X.describe(y)))
            return
    ctx.ob('share.' + nm, INCONCLUSIVE if unknown else HOLDS, RULE_S, '', 'the index of a result cannot be followed' if unknown else '')


def target(t):
    while t.op == 'setattr' and t.a[1] != 'index':
        t = t.a[0]
    if t.op == 'mcall' and t.a[1] == 'reindex':
        return dict(t.a[3]).get('index') or (t.a[2][0] if t.a[2] else None)
    return None


def root(t):
    """an index term this one certainly has"""
    while True:
        if t.op in ('setcol', 'setloc') or t.op == 'setattr' and t.a[1] != 'index':
            t = t.a[0]
        elif t.op == 'oncol':
            t = t.a[1]
        elif t.op == 'ite' and root(t.a[1]) is root(t.a[2]):
            t = t.a[1]
        elif t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('pandas.DataFrame', 'pandas.Series') and B.kw(t, 'index') is not None:
            v = B.kw(t, 'index')
            if v.op == 'attr' and v.a[1] == 'index':
                t = v.a[0]
                continue
            return v
        elif t.op == 'ite':
            return tite(t.a[0], root(t.a[1]), root(t.a[2]))
        else:
            return B.attr(t, 'index')
