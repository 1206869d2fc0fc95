"""Plots show the numbers they were given."""
import os
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod, Theory, EQ, NE, UNK, conj, show
from ..terms import *
from .. import build as B
EXPLAIN = ('Static value-flow analysis of the drawing calls: for every call on a figure or axes object the drawn data, the limits and option-controlled '
           'styling, and the condition under which it happens are extracted from the source and compared with the reference drawing.')
ASSUME = ['matplotlib and plotly draw what they are given']
RULE = 'every drawing call receives the reference data'
SPEC = '''
import numpy as np
import pandas as pd
import matplotlib.pyplot as plt
import plotly.express as px
from rdtools import plotting
from rdtools.plotting import (degradation_summary_plots, soiling_monte_carlo_plot, soiling_interval_plot, soiling_rate_histogram, tune_filter_plot,
                              availability_summary_plots, degradation_timeseries_plot)

def code_summary(rd: scalar, ci, info: dict, y: series, xmin: scalar, xmax: scalar, bins: scalar, ymin: scalar, ymax: scalar, color: str, title: str, alpha: scalar, detailed: bool):
    return degradation_summary_plots(rd, ci, info, y, hist_xmin=xmin, hist_xmax=xmax, bins=bins, scatter_ymin=ymin, scatter_ymax=ymax,
                                     plot_color=color, summary_title=title, scatter_alpha=alpha, detailed=detailed)
def spec_summary(rd: scalar, ci, info: dict, y: series, xmin: scalar, xmax: scalar, bins: scalar, ymin: scalar, ymax: scalar, color: str, title: str, alpha: scalar, detailed: bool):
    v = info['YoY_values']
    fig, (a, b) = plt.subplots(1, 2, figsize=(10, 3))
    b.hist(v, label='YOY', bins=int(min(bins, len(v))), color=color)
    b.axvline(x=rd, color='black', linestyle='dashed', linewidth=3)
    b.set_xlim(xmin, xmax)
    label = f' $R_{{d}}$ = {rd:.2f}%/yr \\nconfidence interval: \\n{ci[0]:.2f} to {ci[1]:.2f} %/yr'
    if detailed:
        n = v.notnull().sum()
        label += '\\n' + f'n = {n}'
    b.annotate(label, xy=(0.5, 0.6), xycoords='axes fraction')
    r = y / info['renormalizing_factor']
    if detailed:
        c = info['usage_of_points'].map({0: 'red', 1: 'green', 2: color})
    else:
        c = color
    a.scatter(r.index, r, c=c, alpha=alpha, linewidths=0)
    a.plot([y.index[0], y.index[-1]], [1, 1 + rd * ((y.index[-1] - y.index[0]).days / 365.25) / 100.0], 'k--', linewidth=3)
    a.set_ylim(ymin, ymax)
    fig.suptitle(title)

def code_summary_default(rd: scalar, ci, info: dict, y: series):
    return degradation_summary_plots(rd, ci, info, y)
def spec_summary_default(rd: scalar, ci, info: dict, y: series):
    v = info['YoY_values']
    fig, (a, b) = plt.subplots(1, 2, figsize=(10, 3))
    b.hist(v, label='YOY', bins=int(min(len(v) // 40, len(v))), color='C0')
    b.axvline(x=rd, color='black', linestyle='dashed', linewidth=3)
    b.set_xlim(None, None)
    b.annotate(f' $R_{{d}}$ = {rd:.2f}%/yr \\nconfidence interval: \\n{ci[0]:.2f} to {ci[1]:.2f} %/yr', xy=(0.5, 0.6))
    r = y / info['renormalizing_factor']
    a.scatter(r.index, r, c='C0', alpha=0.5, linewidths=0)
    a.plot([y.index[0], y.index[-1]], [1, 1 + rd * ((y.index[-1] - y.index[0]).days / 365.25) / 100.0], 'k--', linewidth=3)
    a.set_ylim(None, None)

def code_monte(info: dict, y: series, pa: scalar, fa: scalar, ymin: scalar, ymax: scalar, n: scalar, pc: str, fc: str):
    return soiling_monte_carlo_plot(info, y, point_alpha=pa, profile_alpha=fa, ymin=ymin, ymax=ymax, profiles=n, point_color=pc, profile_color=fc)
def spec_monte(info: dict, y: series, pa: scalar, fa: scalar, ymin: scalar, ymax: scalar, n: scalar, pc: str, fc: str):
    fig, ax = plt.subplots()
    r = y / info['renormalizing_factor']
    ax.plot(r.index, r, 'o', alpha=pa, color=pc)
    ax.set_ylim(ymin, ymax)
    for p in info['stochastic_soiling_profiles'][:n]:
        ax.plot(p.index, p, color=fc, alpha=fa)

def code_monte_default(info: dict, y: series):
    return soiling_monte_carlo_plot(info, y)
def spec_monte_default(info: dict, y: series):
    fig, ax = plt.subplots()
    r = y / info['renormalizing_factor']
    ax.plot(r.index, r, 'o', alpha=0.5)
    ax.set_ylim(None, None)
    for p in info['stochastic_soiling_profiles']:
        ax.plot(p.index, p)

def code_interval(info: dict, y: series, pa: scalar, fa: scalar, ymin: scalar, ymax: scalar, pc: str, fc: str):
    return soiling_interval_plot(info, y, point_alpha=pa, profile_alpha=fa, ymin=ymin, ymax=ymax, point_color=pc, profile_color=fc)
def spec_interval(info: dict, y: series, pa: scalar, fa: scalar, ymin: scalar, ymax: scalar, pc: str, fc: str):
    s = info['soiling_ratio_perfect_clean']
    fig, ax = plt.subplots()
    r = y / info['renormalizing_factor']
    ax.plot(r.index, r, 'o', c=pc, alpha=pa)
    ax.plot(s.index, s, 'o', c=fc, alpha=fa)
    ax.set_ylim(ymin, ymax)

def code_histogram(info: dict, bins: scalar):
    return soiling_rate_histogram(info, bins=bins)
def spec_histogram(info: dict, bins: scalar):
    t = info['soiling_interval_summary']
    fig, ax = plt.subplots()
    ax.hist(100.0 * t.loc[t['valid'], 'soiling_rate'], bins=bins)

def code_avail(ps: series, pss: frame, loss: series, ec: series, eer: series, info: frame):
    return availability_summary_plots(ps, pss, loss, ec, eer, info)
def spec_avail(ps: series, pss: frame, loss: series, ec: series, eer: series, info: frame):
    fig = plt.figure(figsize=(16, 8))
    gs = fig.add_gridspec(3, 2)
    ax1 = fig.add_subplot(gs[0, 0])
    ax2 = fig.add_subplot(gs[1, 0], sharex=ax1)
    ax3 = fig.add_subplot(gs[2, 0], sharex=ax1)
    ax4 = fig.add_subplot(gs[:, 1], sharex=ax1)
    ax1.plot(ps.index, ps.values)
    ax2.plot(pss.index, pss.values)
    ax3.plot(loss.index, loss.values)
    ax4.plot(ec.index, ec.values, label='Reported Production')
    info = info.reset_index(drop=True)
    for i, row in info.iterrows():
        start, end = row[['start', 'end']]
        lo, hi = np.abs(row['energy_expected'] - row[['ci_lower', 'ci_upper']])
        curve = eer[start:end].cumsum() + row['energy_start']
        ax4.plot(curve.index, curve.values, c='tab:orange')
        ax4.errorbar([end], [curve.iloc[-1]], [[lo], [hi]], c='k')

def boot(x, percentile, reps):
    n = len(x)
    return np.percentile(np.nanmedian(np.random.choice(x, (n, reps), replace=True), axis=0), percentile)

def code_series(info: dict, days: scalar, ci: bool, fig, color: str, cc: str):
    return degradation_timeseries_plot(info, rolling_days=days, include_ci=ci, fig=fig, plot_color=color, ci_color=cc)
def spec_series(info: dict, days: scalar, ci: bool, fig, color: str, cc: str):
    try:
        v = info['YoY_values']
    except KeyError:
        raise KeyError('x')
    roll = v.rolling(f'{days}d', min_periods=days//2)
    ax = fig.axes[0]
    if ci:
        lo = roll.apply(boot, kwargs={'percentile': 2.5, 'reps': 100}, raw=True)
        hi = roll.apply(boot, kwargs={'percentile': 97.5, 'reps': 100}, raw=True)
        ax.fill_between(lo.index, lo, hi, color=cc)
    ax.plot(roll.median(), color=color)
    ax.axhline(v.median(), c='k', ls='--')

def code_series_default(info: dict):
    return degradation_timeseries_plot(info)
def spec_series_default(info: dict):
    try:
        v = info['YoY_values']
    except KeyError:
        raise KeyError('x')
    roll = v.rolling('365d', min_periods=365//2)
    fig, ax = plt.subplots()
    lo = roll.apply(boot, kwargs={'percentile': 2.5, 'reps': 100}, raw=True)
    hi = roll.apply(boot, kwargs={'percentile': 97.5, 'reps': 100}, raw=True)
    ax.fill_between(lo.index, lo, hi, color='C0')
    ax.plot(roll.median(), color='tab:orange')
    ax.axhline(v.median(), c='k', ls='--')
'''
TUNE = '''
import pandas as pd
import plotly.express as px
from rdtools.plotting import tune_filter_plot
def code_tune(signal: series, mask: series):
    return tune_filter_plot(signal, mask)
def spec_tune(signal: series, mask: series):
    name = signal.name
    if name is None:
        name = 'signal'
        signal = signal.rename(name)
    ix = signal.index.name
    if ix is None:
        ix = 'datetime'
        signal = signal.rename_axis(ix)
    df = pd.DataFrame(signal)
    df['mask'] = mask
    df = df.reset_index()
    return px.scatter(df, x=ix, y=name, color='mask', color_discrete_map={True: 'blue', False: 'goldenrod'})
'''
DRAW = {'plot', 'scatter', 'hist', 'axvline', 'axhline', 'fill_between', 'errorbar', 'annotate', 'set_xlim', 'set_ylim', 'suptitle', 'bar', 'step',
        'fill_betweenx', 'text', 'vlines', 'hlines', 'axvspan', 'axhspan', 'plot_date', 'stackplot', 'boxplot', 'set_title', 'loglog', 'semilogy', 'twinx', 'set'}
SYN = {'c': 'color', 'ls': 'linestyle', 'lw': 'linewidth', 's': 'text', 'linewidths': 'linewidth'}
# parameter names of the leading positional arguments
POS = {'plot': (), 'scatter': ('x', 'y', 'size', 'color'), 'hist': ('x', 'bins', 'range'), 'axvline': ('x', 'ymin', 'ymax'), 'axhline': ('y', 'xmin', 'xmax'),
       'fill_between': ('x', 'y1', 'y2'), 'errorbar': ('x', 'y', 'yerr', 'xerr'), 'annotate': ('text', 'xy'), 'set_xlim': ('left', 'right'),
       'set_ylim': ('bottom', 'top'), 'suptitle': ('t',)}
DATA = {'x', 'y', 'y1', 'y2', 'yerr', 'xerr', 'bins', 'left', 'right', 'bottom', 'top', 'text', 't', 0, 1, 2, 3}


def drawn(it):
    out = []
    for e in it.events:
        if e.kind == 'mcall' and e.d['name'] in DRAW and not B.is_frame(e.d['recv']):
            nm = e.d['name']
            a = {}
            names = POS.get(nm, ())
            args = [x for x in e.d['args']]
            if nm == 'plot':
                args = [x for x in args if not (x.op == 'const' and isinstance(x.a[0], str))]
                if len(args) == 1:
                    args = [B.attr(args[0], 'index'), args[0]]
            for i, x in enumerate(args):
                a[names[i] if i < len(names) else i] = x
            for k, x in e.d['kwargs']:
                a[SYN.get(k, k) if nm != 'annotate' or k != 's' else 'text'] = x
            out.append((nm, e.d['recv'], a, conj(e.pc), e.where))
    return out


def uses_input(t):
    return any(x.op in ('param', 'elem') for x in subterms(t))


def check(ctx):
    for f in ('degradation_summary_plots', 'soiling_monte_carlo_plot', 'soiling_interval_plot', 'soiling_rate_histogram', 'tune_filter_plot',
              'availability_summary_plots', 'degradation_timeseries_plot'):
        ctx.need('plotting', f)
    ctx.formulas(TUNE, RULE)
    m = SpecMod(ctx.prog, SPEC)
    for nm in [n[5:] for n in m.functions if n.startswith('spec_')]:
        try:
            it, st, v, t, ty = ctx.run_text(m, 'code_' + nm)
            it2, st2, v2, t2, ty2 = ctx.run_text(m, 'spec_' + nm, types=ty)
        except Exception as e:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob(nm, INCONCLUSIVE, RULE, '', 'construct outside the analysed language: %s' % (repr(e)[:200],))
            continue
        ty.update(ty2)
        th = Theory({k for k, x in ty.items() if x in ('scalar', 'str', 'bool', 'dict', 'opt')}, {k for k, x in ty.items() if x == 'bool'},
                    seeds=40 if ctx.tier == 'quick' else 120)
        match(ctx, nm, drawn(it), drawn(it2), th, it)


def differences(th, c, s):
    """[(what, verdict, code, spec)] for one code call against one reference call"""
    out = []
    for k in s[2]:
        must = k in DATA or uses_input(s[2][k])
        if not must:
            continue
        if k not in c[2]:
            if s[2][k] is not NONE:
                out.append((k, NE if k in DATA else UNK, NONE, s[2][k]))
            continue
        if not th.eq(c[2][k], s[2][k]):
            r = th.compare(c[2][k], s[2][k])
            out.append((k, r[0], r[1], r[2]))
    for k in c[2]:
        if k not in s[2] and k in DATA and c[2][k] is not NONE:
            out.append((k, UNK, c[2][k], NONE))
    if not th.eq(c[3], s[3]):
        r = th.compare(c[3], s[3])
        out.append(('condition', r[0], r[1], r[2]))
    return out


def match(ctx, nm, code, spec, th, it):
    left = list(code)
    pairs, rest = [], []
    for s in spec:
        ctx.nodes += sum(sum(1 for _ in subterms(x)) for x in s[2].values())
        hit = next((c for c in left if c[0] == s[0] and not differences(th, c, s)), None)
        if hit is not None:
            left.remove(hit)
            pairs.append((hit, s))
            ctx.ob('%s.%s' % (nm, s[0]), HOLDS, RULE, hit[4])
        else:
            rest.append(s)
    for s in rest:
        same = [c for c in left if c[0] == s[0]]
        name = '%s.%s' % (nm, s[0])
        n = len([x for x in rest if x[0] == s[0]])
        if same and len(same) >= 1 and n >= 1:
            # the closest remaining call of the same kind
            best = min(same, key=lambda c: len(differences(th, c, s)))
            d = differences(th, best, s)
            left.remove(best)
            bad = [x for x in d if x[1] == NE]
            if bad and len(same) == n:
                k, _, a, b = bad[0]
                ctx.ob(name, VIOLATED, RULE, best[4], '%s of the %s call is %s where %s is required' % (k, s[0], show(a, 6)[:300], show(b, 6)[:300]))
            else:
                ctx.ob(name, INCONCLUSIVE, RULE, best[4], 'cannot relate the %s call to the reference: %s' % (s[0], [x[0] for x in d]))
        elif not left and not it.unknown:
            ctx.ob(name, VIOLATED, RULE, '', 'nothing is drawn for %s(%s)' % (s[0], ', '.join('%s=%s' % (k, show(v, 4)[:80]) for k, v in s[2].items())))
        else:
            ctx.ob(name, INCONCLUSIVE, RULE, '', 'no matching drawing call')
    # calls on the same axes in the reference are on the same axes in the code
    axes = {}
    for c, s in pairs:
        k = th.sig(s[1])
        axes.setdefault(k, []).append((th.sig(c[1]), c))
    for k, l in axes.items():
        if len({a for a, _ in l}) > 1:
            ctx.ob(nm + '.axes', VIOLATED, 'elements of one panel are drawn on one panel', l[-1][1][4], 'drawn on different axes: %s' % ', '.join(c[0] for _, c in l))
        else:
            ctx.ob(nm + '.axes', HOLDS, 'elements of one panel are drawn on one panel')
