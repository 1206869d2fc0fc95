"""Insolation-weighted aggregation."""
from .common import *
EXPLAIN, ASSUME = EXPLAIN_F, ASSUME_LIB
RULE = 'aggregate equals sum(w*x)/sum(w) over the rows that have a value'
SPEC = '''
import pandas as pd
from rdtools import aggregation, normalization
from rdtools.analysis_chains import TrendAnalysis

def wmean(e, w, freq):
    w = w.where(e.notnull())
    return (w * e).resample(freq, origin='start_day').sum() / w.resample(freq, origin='start_day').sum()

def code_aggregate(e: series, w: series, f: str):
    return aggregation.aggregation_insol(e, w, f)
def spec_aggregate(e: series, w: series, f: str):
    return wmean(e, w, f)
def code_aggregate_default(e: series, w: series):
    return aggregation.aggregation_insol(e, w)
def spec_aggregate_default(e: series, w: series):
    return wmean(e, w, 'D')

def code_analysis(pv: series, poa: series, e: series, w: series, f: str):
    ta = TrendAnalysis(pv, poa, power_expected=e, aggregation_freq=f, pv_input='energy')
    ta.filter_params = {}
    ta.filter_params_aggregated = {}
    ta.sensor_analysis(analyses=[])
    return ta.sensor_aggregated_performance, ta.sensor_aggregated_insolation
def spec_analysis(pv: series, poa: series, e: series, w: series, f: str):
    poa, e = normalization.interpolate(poa, pv.index, None), normalization.interpolate(e, pv.index, None)
    en, ins = normalization.normalize_with_expected_power(pv, e, poa, pv_input='energy')
    m = pd.DataFrame({'default': pd.Series(True, index=en.index)}).fillna(0).astype(bool).all(axis=1)
    a, ai = wmean(en[m], ins[m], f), ins[m].resample(f, origin='start_day').sum()
    m2 = pd.DataFrame({'default': pd.Series(True, index=a.index)}).fillna(False).all(axis=1)
    return a[m2].resample(f, origin='start_day').asfreq(), ai[m2].resample(f, origin='start_day').asfreq()
'''


def check(ctx):
    ctx.need('aggregation', 'aggregation_insol')
    ctx.formulas(SPEC, RULE, {'*': {'opaque': ('interpolate', 'normalize_with_expected_power')}})
