"""Circular block bootstrap."""
from .common import *
EXPLAIN, ASSUME = EXPLAIN_F, ASSUME_LIB
RULE = 'bootstrap samples equal model (x or +) resampled residuals of that model'
SPEC = '''
from rdtools import bootstrap, degradation
from arch.bootstrap import CircularBlockBootstrap

def samples(signal, model, n, block, kind, seed):
    residuals = signal / model if kind == 'multiplicative' else signal - model
    out = pd.DataFrame(index=signal.index, columns=range(n))
    bs = CircularBlockBootstrap(block, residuals, seed=seed)
    for b, r in enumerate(bs.bootstrap(n)):
        if kind == 'multiplicative':
            out.loc[:, b] = model * r[0][0].values
        else:
            out.loc[:, b] = model + r[0][0].values
    return out

def code_multiplicative(signal: series, model: series, n: scalar, block: scalar, seed: scalar):
    return bootstrap._make_time_series_bootstrap_samples(signal, model, sample_nr=n, block_length=block, decomposition_type='multiplicative', bootstrap_seed=seed)
def spec_multiplicative(signal: series, model: series, n: scalar, block: scalar, seed: scalar):
    return samples(signal, model, n, block, 'multiplicative', seed)
def code_additive(signal: series, model: series, n: scalar, block: scalar, seed: scalar):
    return bootstrap._make_time_series_bootstrap_samples(signal, model, sample_nr=n, block_length=block, decomposition_type='additive', bootstrap_seed=seed)
def spec_additive(signal: series, model: series, n: scalar, block: scalar, seed: scalar):
    return samples(signal, model, n, block, 'additive', seed)
def code_default(signal: series, model: series):
    return bootstrap._make_time_series_bootstrap_samples(signal, model)
def spec_default(signal: series, model: series):
    return samples(signal, model, 1000, 90, 'multiplicative', None)
'''


def check(ctx):
    ctx.formulas(SPEC, RULE)
