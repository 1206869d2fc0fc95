"""OLS and classical decomposition."""
from .common import *
EXPLAIN, ASSUME = EXPLAIN_F, ASSUME_LIB
RULE = 'regression outputs equal their reference definition'
SPEC = '''
from rdtools import degradation
from scipy.stats import norm

def years(df):
    return (df.index - df.index[0]) / pd.Timedelta('1d') / 365.0

def outputs(r):
    i = r[2]
    return {'rate': r[0], 'slope': i['slope'], 'intercept': i['intercept'], 'rmse': i['rmse'],
            'slope_stderr': i['slope_stderr'], 'intercept_stderr': i['intercept_stderr']}

def fitted(y, x):
    fit = sm.OLS(endog=y, exog=x.loc[:, ['const', 'years']], hasconst=True, missing='drop').fit()
    b, m = fit.params
    sb, sm_ = fit.bse
    return {'rate': 100 * m / b, 'slope': m, 'intercept': b, 'rmse': np.sqrt(fit.mse_resid), 'slope_stderr': sm_, 'intercept_stderr': sb}

def code_ols(energy_normalized: series, L: scalar):
    return outputs(degradation.degradation_ols(energy_normalized, confidence_level=L))
def spec_ols(energy_normalized: series, L: scalar):
    df = energy_normalized.to_frame()
    df['years'] = years(df)
    return fitted(energy_normalized, sm.add_constant(df))

def smooth(df, e):
    ma = e.rolling('365d', center=True).mean()
    full = (df['years'] >= df['years'].iloc[0] + 0.5) & (df['years'] <= df['years'].iloc[-1] - 0.5)
    return ma.where(full, np.nan)

def code_classical(energy_normalized: series, L: scalar):
    return outputs(degradation.degradation_classical_decomposition(energy_normalized, confidence_level=L))
def spec_classical(energy_normalized: series, L: scalar):
    df = energy_normalized.to_frame()
    df['years'] = years(df)
    return fitted(smooth(df, energy_normalized), sm.add_constant(df))

def code_classical_series(energy_normalized: series, L: scalar):
    return degradation.degradation_classical_decomposition(energy_normalized, confidence_level=L)[2]['series']
def spec_classical_series(energy_normalized: series, L: scalar):
    df = energy_normalized.to_frame()
    df['years'] = years(df)
    return smooth(df, energy_normalized)

def code_mk(energy_normalized: series, L: scalar):
    return degradation.degradation_classical_decomposition(energy_normalized, confidence_level=L)[2]['mk_test_trend']
def spec_mk(energy_normalized: series, L: scalar):
    df = energy_normalized.to_frame()
    df['years'] = years(df)
    x = smooth(df, energy_normalized).dropna()
    n = len(x)
    x = np.array(x)
    s = np.sum(np.triu(np.sign(-np.subtract.outer(x, x)), 1))
    u = np.unique(x)
    if n == len(u):
        var = (n * (n - 1) * (2 * n + 5)) / 18
    else:
        tp = np.zeros(u.shape)
        for i in range(len(u)):
            tp[i] = sum(u[i] == x)
        var = (n * (n - 1) * (2 * n + 5) - np.sum(tp * (tp - 1) * (2 * tp + 5))) / 18
    if s > 0:
        z = (s - 1) / np.sqrt(var)
    elif s == 0:
        z = 0
    else:
        z = (s + 1) / np.sqrt(var)
    h = abs(z) > norm.ppf(1 - 0.05 / 2)
    if (z < 0) and h:
        return 'decreasing'
    elif (z > 0) and h:
        return 'increasing'
    return 'no trend'
'''


def check(ctx):
    ctx.need('degradation', 'degradation_ols')
    ctx.need('degradation', 'degradation_classical_decomposition')
    ctx.formulas(SPEC, RULE)
