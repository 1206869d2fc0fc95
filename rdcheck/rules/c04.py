"""Confidence intervals and exceedance levels."""
from .common import *
from . import c20, c21
EXPLAIN, ASSUME = EXPLAIN_F, ASSUME_LIB
RULE = 'intervals and exceedance levels are the requested percentiles of the reported sample distribution'
SPEC = '''
from rdtools import degradation, bootstrap, soiling
from rdtools.soiling import SRRAnalysis

def interval(x, L):
    return np.percentile(x, [50 - L / 2, 50 + L / 2])

def reg(fit, L):
    smp = np.random.multivariate_normal(fit.params, fit.cov_params(), 10000)
    return interval(smp[:, 1] / smp[:, 0], L) * 100

def code_ols(s: series, L: scalar):
    return degradation.degradation_ols(s, confidence_level=L)[1]
def spec_ols(s: series, L: scalar):
    return reg(degradation.degradation_ols(s, confidence_level=L)[2]['ols_result'], L)

def code_ols_default(s: series):
    return degradation.degradation_ols(s)[1]
def spec_ols_default(s: series):
    return reg(degradation.degradation_ols(s)[2]['ols_result'], 68.2)

def code_classical(s: series, L: scalar):
    return degradation.degradation_classical_decomposition(s, confidence_level=L)[1]
def spec_classical(s: series, L: scalar):
    return reg(degradation.degradation_classical_decomposition(s, confidence_level=L)[2]['ols_result'], L)

def code_classical_default(s: series):
    return degradation.degradation_classical_decomposition(s)[1]
def spec_classical_default(s: series):
    return reg(degradation.degradation_classical_decomposition(s)[2]['ols_result'], 68.2)

def out(r):
    return {'ci': r[1], 'exceedance': r[2]['exceedance_level']}

def simple(s, recenter, p, L):
    y = degradation.degradation_year_on_year(s, recenter=recenter, exceedance_prob=p, confidence_level=L)[2]['YoY_values']
    m = np.median(np.random.choice(y, (len(y), 10000), replace=True), axis=0)
    return {'ci': interval(m, L), 'exceedance': np.percentile(m, 100 - p)}

def code_yoy_simple(s: series, recenter: bool, p: scalar, L: scalar):
    return out(degradation.degradation_year_on_year(s, recenter=recenter, exceedance_prob=p, confidence_level=L))
def spec_yoy_simple(s: series, recenter: bool, p: scalar, L: scalar):
    return simple(s, recenter, p, L)

def code_yoy_default(s: series):
    return out(degradation.degradation_year_on_year(s))
def spec_yoy_default(s: series):
    return simple(s, True, 95, 68.2)

def code_yoy_circular(s: series, recenter: bool, p: scalar, L: scalar, b: scalar):
    return out(degradation.degradation_year_on_year(s, recenter=recenter, exceedance_prob=p, confidence_level=L, uncertainty_method='circular_block', block_length=b))
def spec_yoy_circular(s: series, recenter: bool, p: scalar, L: scalar, b: scalar):
    r = degradation.degradation_year_on_year(s, recenter=recenter, exceedance_prob=p, confidence_level=L, uncertainty_method='circular_block', block_length=b)[2]['bootstrap_rates']
    return {'ci': interval(r, L), 'exceedance': np.percentile(r, 100 - p)}

def code_construct(df: frame, f, p: scalar, L: scalar):
    return bootstrap._construct_confidence_intervals(df, f, exceedance_prob=p, confidence_level=L)
def spec_construct(df: frame, f, p: scalar, L: scalar):
    m = df.apply(f)
    return interval(m, L), np.percentile(m, 100 - p), m

def code_construct_default(df: frame, f):
    return bootstrap._construct_confidence_intervals(df, f)
def spec_construct_default(df: frame, f):
    m = df.apply(f)
    return interval(m, 68.2), np.percentile(m, 5), m
'''
SRR = '''
from rdtools.soiling import SRRAnalysis
from rdtools import soiling

def code_srr(pm: series, insol: series, p: scalar, L: scalar):
    srr = SRRAnalysis(pm, insol)
    r = srr.run(exceedance_prob=p, confidence_level=L)
    return {'median': r[0], 'low': r[1][0], 'high': r[1][1], 'exceedance': r[2]['exceedance_level']}
def spec_srr(pm: series, insol: series, p: scalar, L: scalar):
    srr = SRRAnalysis(pm, insol)
    srr.run(exceedance_prob=p, confidence_level=L)
    x = np.percentile(srr.monte_losses, [50, 50 - L / 2, 50 + L / 2, 100 - p])
    return {'median': x[0], 'low': x[1], 'high': x[2], 'exceedance': x[3]}

def code_soiling_srr(pm: series, insol: series, p: scalar, L: scalar):
    r = soiling.soiling_srr(pm, insol, exceedance_prob=p, confidence_level=L)
    return {'median': r[0], 'low': r[1][0], 'high': r[1][1], 'exceedance': r[2]['exceedance_level']}
def spec_soiling_srr(pm: series, insol: series, p: scalar, L: scalar):
    srr = SRRAnalysis(pm, insol)
    srr.run(exceedance_prob=p, confidence_level=L)
    x = np.percentile(srr.monte_losses, [50, 50 - L / 2, 50 + L / 2, 100 - p])
    return {'median': x[0], 'low': x[1], 'high': x[2], 'exceedance': x[3]}

def code_soiling_srr_default(pm: series, insol: series):
    r = soiling.soiling_srr(pm, insol)
    return {'median': r[0], 'low': r[1][0], 'high': r[1][1], 'exceedance': r[2]['exceedance_level']}
def spec_soiling_srr_default(pm: series, insol: series):
    srr = SRRAnalysis(pm, insol)
    srr.run()
    x = np.percentile(srr.monte_losses, [50, 50 - 68.2 / 2, 50 + 68.2 / 2, 5])
    return {'median': x[0], 'low': x[1], 'high': x[2], 'exceedance': x[3]}

def annual(profiles, insolation_daily, L):
    pr = pd.concat(profiles, axis=1).dropna()
    w = insolation_daily.reindex(pr.index)
    x = pr.multiply(w, axis=0)
    iw = x.groupby(x.index.year).sum().multiply(1 / w.groupby(w.index.year).sum(), axis=0)
    return {'soiling_ratio_median': iw.quantile(0.5, axis=1), 'soiling_ratio_low': iw.quantile(0.5 - L / 200, axis=1),
            'soiling_ratio_high': iw.quantile(0.5 + L / 200, axis=1)}

def pick(df):
    return {'soiling_ratio_median': df['soiling_ratio_median'], 'soiling_ratio_low': df['soiling_ratio_low'], 'soiling_ratio_high': df['soiling_ratio_high']}

def code_annual(profiles, insolation_daily: series, L: scalar):
    return pick(soiling.annual_soiling_ratios(profiles, insolation_daily, confidence_level=L))
def spec_annual(profiles, insolation_daily: series, L: scalar):
    df = pd.DataFrame(annual(profiles, insolation_daily, L))
    df.index.name = 'year'
    return pick(df.reset_index())

def code_annual_default(profiles, insolation_daily: series):
    return pick(soiling.annual_soiling_ratios(profiles, insolation_daily))
def spec_annual_default(profiles, insolation_daily: series):
    df = pd.DataFrame(annual(profiles, insolation_daily, 68.2))
    df.index.name = 'year'
    return pick(df.reset_index())
'''

CODS = '''
from rdtools import soiling
from rdtools.soiling import CODSAnalysis

def code_soiling_cods(pm: series, reps: scalar, L: scalar):
    r = soiling.soiling_cods(pm, reps=reps, confidence_level=L)
    return {'sr': r[0], 'low': r[1][0], 'high': r[1][1], 'rd': r[2], 'rdci': r[3]}
def spec_soiling_cods(pm: series, reps: scalar, L: scalar):
    c = CODSAnalysis(pm)
    c.run_bootstrap(reps=reps, confidence_level=L)
    sl = c.soiling_loss
    return {'sr': 1 - sl[0] / 100, 'low': 1 - sl[2] / 100, 'high': 1 - sl[1] / 100, 'rd': c.degradation[0], 'rdci': np.array(c.degradation[1:3])}
'''

def check(ctx):
    ctx.need('degradation', 'degradation_year_on_year')
    ctx.formulas(SPEC, RULE)
    ctx.formulas(SRR, RULE)
    ctx.formulas(c20.SUMMARY, RULE, only=('monthly', 'monthly_default'))
    ctx.formulas(c21.FULL, RULE, c21.FULL_OPTS, prefix='cods.',
                 comps=lambda n: n.endswith(('_low', '_high', '.rate', '.loss')))
    ctx.formulas(CODS, RULE, c21.FULL_OPTS)
