"""Iterative fits stop within their limit."""
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod, Theory, NE, int_compares
from ..terms import *
from .. import build as B
from . import c21
LOOPS = ('CODSAnalysis._Kalman_filter_for_SR', '_collapse_cleaning_events', '_rolling_median_ce_detection', '_force_periodicity',
         'degradation_year_on_year')
KAL = ('_collapse_cleaning_events', '_rolling_median_ce_detection', '_soiling_event_detection', '_find_numeric_outliers',
       'CODSAnalysis._forward_pass', 'CODSAnalysis._smooth_results', 'CODSAnalysis._initialize_univariate_model')
EXPLAIN = ('Static value-flow analysis: the loop state recurrence, exit condition, iteration cap and objective of the iterative fits are '
           'extracted from the source and compared with the reference recurrence; the cap is shown to raise.')
ASSUME = ['scipy.optimize.minimize behaves as documented']
RULE = 'the fit equals the reference recurrence'
HEAD = '''
import numpy as np
import pandas as pd
from scipy.optimize import minimize
from rdtools import normalization
from rdtools.normalization import irradiance_rescale, ConvergenceError
'''
SPEC = HEAD + '''
def iterative(irrad, sim, maxit, tol):
    def rmse(f, keep):
        d = (f * sim)[keep] - irrad[keep]
        return np.sqrt((d**2.0).mean())
    def once(guess):
        csi = irrad / (guess * sim)
        keep = (csi >= 0.8) & (csi <= 1.2) & (irrad > 200)
        return minimize(rmse, guess, (keep), method='Nelder-Mead')['x'][0]
    f = np.percentile(irrad.dropna(), 90) / np.percentile(sim.dropna(), 90)
    last = 1.0
    n = 0
    while abs(f - last) > tol:
        n += 1
        if n > maxit:
            raise ConvergenceError('x')
        last = f
        f = once(f)
    return f * sim

def code_iterative(irrad: series, sim: series, maxit: scalar, tol: scalar):
    return irradiance_rescale(irrad, sim, max_iterations=maxit, method='iterative', convergence_threshold=tol)
def spec_iterative(irrad: series, sim: series, maxit: scalar, tol: scalar):
    return iterative(irrad, sim, maxit, tol)

def code_default(irrad: series, sim: series):
    return irradiance_rescale(irrad, sim)
def spec_default(irrad: series, sim: series):
    return iterative(irrad, sim, 100, 1e-6)

def code_single(irrad: series, sim: series, maxit: scalar):
    return irradiance_rescale(irrad, sim, max_iterations=maxit, method='single_opt')
def spec_single(irrad: series, sim: series, maxit: scalar):
    def rmse(f):
        r = f * sim
        csi = irrad / r
        keep = (csi >= 0.8) & (csi <= 1.2)
        d = r[keep] - irrad[keep]
        return np.sqrt((d**2.0).mean())
    g = np.percentile(irrad.dropna(), 90) / np.percentile(sim.dropna(), 90)
    return minimize(rmse, g, method='Nelder-Mead')['x'][0] * sim
'''


def check(ctx):
    ctx.need('normalization', 'irradiance_rescale')
    ctx.formulas(SPEC, RULE)
    ctx.same_raises(SPEC, 'an unconverged fit raises')
    capped(ctx, c21.LOOP, 'code_loop', LOOPS, 'param', 'maxit', 'decomposition')
    capped(ctx, c21.KALMAN, 'code_kalman', KAL, 'param', 'prune', 'pruning')


def leaves(t, out):
    if t.op == 'ite':
        leaves(t.a[1], out)
        leaves(t.a[2], out)
    else:
        out.append(t)
    return out


def capped(ctx, text, fname, opaque, kind, limit, name):
    """the loop that reads the limit is `while counter < limit` and every pass through its body advances the counter"""
    rule = 'the counter of the loop advances on every path and the loop ends at its limit'
    m = SpecMod(ctx.prog, text)
    lim = mk('param', limit)
    before = set(MU)
    try:
        it, st, v, t, ty = ctx.run_text(m, fname, opaque)
    except Exception as e:
        ctx.ob('cap.' + name, INCONCLUSIVE, rule, '', repr(e)[:200])
        return
    if ctx.private_missing(m, fname):
        ctx.ob('cap.' + name, INCONCLUSIVE, rule, '', 'entry point not as expected')
        return
    loops = [(k[0], d[2]) for k, d in MU.items() if k not in before and k[1] == '#iter' and d[2] is not None and d[2].op == 'while']
    for lid, w in loops:
        cond = int_compares(w.a[0])
        if cond.op != 'cmp' or cond.a[0] not in ('<', '<=') or cond.a[1].op != 'mu' or not any(x is lim for x in subterms(cond)):
            continue
        mu, top = cond.a[1], cond.a[2]
        d = MU.get((mu.a[0], mu.a[1]))
        if d is None or B.num(d[0]) is None:
            ctx.ob('cap.' + name, INCONCLUSIVE, rule, '', 'counter %s not understood' % (mu.a[1],))
            return
        if cond.a[0] != '<' and B.num(d[0]) == 0 or top is not lim and B.num(d[0]) == 0 and any(x is lim for x in subterms(top)) and th_ne(top, lim):
            ctx.ob('cap.' + name, VIOLATED, rule, it.loc.get(cond.id, ''), 'the loop runs while %s' % show(cond, 5))
            return
        for x in leaves(d[1], []):
            if x is mu:
                ctx.ob('cap.' + name, VIOLATED, rule, it.loc.get(cond.id, ''), 'a path through the loop body leaves the counter %s unchanged' % (mu.a[1],))
                return
            if x is lim or x.op == 'const' or x.op == 'bin' and x.a[0] == '+' and x.a[1] is mu and (B.num(x.a[2]) or 0) >= 1:
                continue
            ctx.ob('cap.' + name, INCONCLUSIVE, rule, '', 'counter step %s not understood' % show(x, 4)[:200])
            return
        ctx.ob('cap.' + name, HOLDS, rule, it.loc.get(cond.id, ''))
        return
    ctx.ob('cap.' + name, INCONCLUSIVE, rule, '', 'no loop bounded by the limit recognised')


def th_ne(a, b):
    r, _, _ = Theory({x.a[0] for x in subterms(a) if x.op == 'param'}).compare(a, b)
    return r == NE
