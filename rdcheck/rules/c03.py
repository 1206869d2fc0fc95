"""Randomness comes only from the documented, seedable sources."""
import ast
import os
from .. import framework as F
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod, subterms, show
from . import entries as E
EXPLAIN = ('Effect and dependency analysis: every public entry point is analysed with unknown arguments; every call that can draw or produce a non-reproducible value is '
           'collected with its arguments. Draws may only come from numpy\'s global generator (or a generator built from a seed the user gave or from that generator), nothing may '
           'reseed it, values of the clock, environment, object identity or unordered set iteration may not flow into a returned or stored value or into a decision, '
           'functions documented as deterministic may not reach a draw, and the bootstrap seed must flow to every resampler.')
ASSUME = ['pandas sample() and scipy rvs() without a seed use numpy\'s global generator', 'third-party fitting and prediction routines are deterministic']
RULE_S = 'random numbers come from the global numpy generator or a seed given by the user'
RULE_C = 'no clock, environment, identity or set-order value reaches a result or a decision'
RULE_D = 'functions documented as deterministic draw no random numbers'
RULE_F = 'the bootstrap seed reaches every resampler'

BAD_RNG = {'seed', 'set_state', 'set_bit_generator'}
MAKERS = {'default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'Philox', 'SFC64'}
CLOCK = ('time.', 'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today', 'pandas.Timestamp.now',
         'pandas.Timestamp.today', 'pandas.Timestamp.utcnow', 'os.environ', 'os.getenv', 'os.getpid', 'os.urandom', 'uuid.', 'secrets.', 'platform.', 'socket.', 'getpass.',
         'builtins.id', 'builtins.hash', 'builtins.input', 'os.times', 'os.cpu_count', 'multiprocessing.cpu_count')
ENTROPY = ('os.urandom', 'uuid.uuid', 'secrets.', 'random.')
HARMLESS_TIME = ('time.sleep', 'time.strftime')
# entry points whose documentation promises no sampling
SAMPLING = {'degradation_ols', 'degradation_classical_decomposition', 'degradation_year_on_year', 'soiling_srr', 'soiling_cods', 'monthly_soiling_rates',
            'degradation_timeseries_plot'}
DETERMINISTIC_TEXT = {'Availability', 'Availability_plot', 'CODS'}
ORDER_FREE = {'sorted', 'len', 'sum', 'min', 'max', 'any', 'all', 'set', 'frozenset', 'unique', 'sort', 'Counter', 'nunique', 'isin', 'difference', 'union', 'intersection'}

SEEDS = '''
from rdtools.soiling import CODSAnalysis, soiling_cods
from rdtools import bootstrap
from rdtools.degradation import degradation_year_on_year

def code_run_bootstrap(e: series, reps: scalar, bootstrap_seed: scalar):
    return CODSAnalysis(e).run_bootstrap(reps, bootstrap_seed=bootstrap_seed)

def code_soiling_cods(e: series, reps: scalar, bootstrap_seed: scalar):
    return soiling_cods(e, reps, bootstrap_seed=bootstrap_seed)

def code_run_bootstrap_seed_0(e: series, reps: scalar):
    return CODSAnalysis(e).run_bootstrap(reps, bootstrap_seed=0)

def code_run_bootstrap_seed_1234567(e: series, reps: scalar):
    return CODSAnalysis(e).run_bootstrap(reps, bootstrap_seed=1234567)
'''
QUIET = '''
from rdtools.degradation import degradation_year_on_year

def code_yoy_without_uncertainty(e: series, recenter: bool, p: scalar, cl: scalar):
    return degradation_year_on_year(e, recenter=recenter, exceedance_prob=p, confidence_level=cl, uncertainty_method=None)
'''


def extname(t):
    if t.op == 'ext':
        return t.a[0]
    if t.op == 'call' and t.a[0].op == 'ext':
        return t.a[0].a[0]
    return ''


def forbidden(t):
    for x in subterms(t):
        n = extname(x)
        if n and n.startswith(CLOCK) and not n.startswith(HARMLESS_TIME):
            # the bare module attribute is not a value; a call or os.environ is
            if x.op == 'call' or n.startswith('os.environ'):
                return n
    return None


def seeded_from_user(ts):
    for t in ts:
        for x in subterms(t):
            if x.op == 'param':
                return True
            n = extname(x)
            if x.op == 'call' and n.startswith('numpy.random.') and n.split('.')[-1] not in MAKERS | BAD_RNG:
                return True
    return False


def order_free(e):
    """is the iterated set consumed by something whose result does not depend on order?"""
    if e.fn is None:
        return True
    par = {}
    for n in ast.walk(e.fn.node):
        for c in ast.iter_child_nodes(n):
            par[id(c)] = n
    n = e.node
    while id(n) in par:
        q = par[id(n)]
        if isinstance(q, ast.Call):
            f = q.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            if nm in ORDER_FREE:
                return True
        if isinstance(q, (ast.Assign, ast.NamedExpr)):
            tg = q.targets[0] if isinstance(q, ast.Assign) else q.target
            if isinstance(tg, ast.Name):
                return sorted_later(e.fn.node, tg.id, par)
            return False
        if isinstance(q, ast.SetComp):
            return True
        if isinstance(q, ast.stmt):
            break
        n = q
    node = e.node
    if isinstance(node, ast.For) or isinstance(par.get(id(node)), ast.For):
        loop = node if isinstance(node, ast.For) else par[id(node)]
        # a loop that only raises, or only fills a dict / set by key
        return all(isinstance(s, (ast.Raise, ast.If, ast.Delete, ast.Pass, ast.Expr)) and not any(isinstance(z, ast.Attribute) and z.attr in ('append', 'extend', 'insert')
                   for z in ast.walk(s)) for s in loop.body)
    return False


def sorted_later(fn, name, par):
    uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
    if any(isinstance(par.get(id(u)), ast.Attribute) and par[id(u)].attr == 'sort' for u in uses):
        return True
    for u in uses:
        q = par.get(id(u))
        f = q.func if isinstance(q, ast.Call) else None
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        if nm not in ORDER_FREE and not isinstance(q, ast.Compare):
            return False
    return True


def judge(ctx, name, it, st, t, deterministic):
    bad = {}
    for e in it.events:
        if e.fn is not None and e.fn.mod.rel == '<spec>':
            continue
        if e.kind in ('ext', 'rng'):
            n = e.d.get('name') or e.d.get('fn') or ''
            ts = list(e.d.get('args') or []) + [v for k, v in (e.d.get('kwargs') or []) if k != '#site']
            last = n.split('.')[-1]
            if n.startswith('numpy.random.') and last in BAD_RNG:
                bad[RULE_S, e.where] = 'calls %s, which resets the generator the user seeded' % n
            elif n.startswith('numpy.random.') and last in MAKERS and not seeded_from_user(ts):
                bad[RULE_S, e.where] = 'creates a private generator with %s(%s), which the user cannot seed' % (n, ', '.join(show(x, 3) for x in ts))
            elif n.startswith(ENTROPY):
                bad[RULE_S, e.where] = 'draws from %s, which is not the documented source' % n
        if e.kind == 'rng' and deterministic:
            bad[RULE_D, e.where] = 'draws random numbers (%s) in a function documented as deterministic' % e.d.get('fn')
        if e.kind == 'setiter' and not order_free(e):
            bad[RULE_C, e.where] = 'iterates over a set whose order is not defined'
        if e.kind == 'fwrite' and e.d.get('t') is not None:
            f = forbidden(e.d['t'])
            if f:
                bad[RULE_C, e.where] = 'stores a value that depends on %s' % f
        if e.kind == 'branch' and any(isinstance(z, (ast.Break, ast.Continue, ast.Return, ast.Raise)) for b in e.node.body + e.node.orelse for z in ast.walk(b)):
            f = forbidden(e.d['c'])
            if f:
                bad[RULE_C, e.where] = 'a decision depends on %s' % f
        if e.kind in ('raise', 'return', 'ret'):
            for c, _ in e.pc:
                f = forbidden(c)
                if f:
                    bad[RULE_C, e.where] = 'a decision depends on %s' % f
    if t is not None:
        f = forbidden(t)
        if f:
            bad[RULE_C, F.locate(it, t, t) or name] = 'the returned value depends on %s' % f
    for r in (RULE_S, RULE_C) + ((RULE_D,) if deterministic else ()):
        hits = {k: v for k, v in bad.items() if k[0] == r}
        key = {RULE_S: 'source', RULE_C: 'reproducible', RULE_D: 'deterministic'}[r]
        if not hits:
            ctx.ob('%s.%s' % (key, name), HOLDS, r)
        for (_, w), d in hits.items():
            ctx.ob('%s.%s' % (key, name), VIOLATED, r, w, d)


def check(ctx):
    for mod, q in (('degradation', 'degradation_year_on_year'), ('soiling', 'soiling_srr'), ('soiling', 'CODSAnalysis.run_bootstrap')):
        ctx.need(mod, q)

    def guarded(name, rule, f):
        try:
            f()
        except Exception as ex:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob(name, INCONCLUSIVE, rule, '', 'construct outside the analysed language: %s' % repr(ex)[:200])
    for text, det in ((E.CLASSES, DETERMINISTIC_TEXT), (QUIET, {'yoy_without_uncertainty'})):
        m = SpecMod(ctx.prog, text)
        for n in [x for x in m.functions if x.startswith('code_')]:
            def f():
                it, st, v, t, ty = ctx.run_text(m, n)
                judge(ctx, n[5:], it, st, t, n[5:] in det)
            guarded('entry.' + n[5:], RULE_S, f)
    for mod, fn in E.public_functions(ctx.prog):
        def f():
            it, st, v = E.run_function(ctx, fn)
            judge(ctx, fn.qual, it, st, it.term(v, st) if st is not None else None, fn.name not in SAMPLING and fn.name in KNOWN)
        guarded('entry.' + fn.qual, RULE_S, f)
    m = SpecMod(ctx.prog, SEEDS)
    for n in [x for x in m.functions if x.startswith('code_')]:
        def f():
            it, st, v, t, ty = ctx.run_text(m, n)
            sites = [e for e in it.events if e.kind == 'ext' and (e.d.get('name') or '').startswith('arch.bootstrap.')]
            if not sites:
                ctx.ob('seed.' + n[5:], INCONCLUSIVE, RULE_F, '', 'no resampler found')
            for e in sites:
                k = dict(e.d['kwargs']).get('seed')
                w = n.rsplit('_', 1)[1]
                if w.isdigit():
                    if k is not None and k.op == 'const' and type(k.a[0]) is int and k.a[0] == int(w):
                        ctx.ob('seed.' + n[5:], HOLDS, RULE_F, e.where)
                    elif k is None or k.op == 'const':
                        ctx.ob('seed.' + n[5:], VIOLATED, RULE_F, e.where, 'with bootstrap_seed=%s the resampler is built with seed=%s' % (w, show(k, 4) if k is not None else 'default'))
                    else:
                        ctx.ob('seed.' + n[5:], INCONCLUSIVE, RULE_F, e.where, 'seed=%s' % show(k, 4))
                elif k is not None and any(x.op == 'param' and x.a[0] == 'bootstrap_seed' for x in subterms(k)):
                    ctx.ob('seed.' + n[5:], HOLDS, RULE_F, e.where)
                else:
                    ctx.ob('seed.' + n[5:], VIOLATED, RULE_F, e.where, 'the resampler is built with seed=%s; the user\'s bootstrap_seed does not reach it' % (show(k, 4) if k is not None else 'default'))
        guarded('seed.' + n[5:], RULE_F, f)


KNOWN = {'aggregation_insol', 'get_clearsky_tamb', 'normalized_filter', 'poa_filter', 'tcell_filter', 'clearsky_filter', 'csi_filter', 'pvlib_clearsky_filter', 'clip_filter',
         'quantile_clip_filter', 'logic_clip_filter', 'xgboost_clip_filter', 'two_way_window_filter', 'insolation_filter', 'hampel_filter', 'directional_tukey_filter',
         'hour_angle_filter', 'normalize_with_expected_power', 'pvwatts_dc_power', 'normalize_with_pvwatts', 'irradiance_rescale', 'energy_from_power', 'interpolate',
         'degradation_summary_plots', 'soiling_monte_carlo_plot', 'soiling_interval_plot', 'soiling_rate_histogram', 'tune_filter_plot', 'availability_summary_plots',
         'annual_soiling_ratios', 'robust_quantile', 'robust_median', 'robust_mean'}
