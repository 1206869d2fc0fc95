"""Normalized energy is measured over expected energy."""
from .chain import HEAD as CH
EXPLAIN = ('Static value-flow analysis: normalized energy, insolation, PVWatts expected power and the values an analysis object '
           'derives from them are extracted from the source as gated value graphs and compared with the reference definition.')
ASSUME = ['pandas/numpy/pvlib library operations behave as documented',
          'energy_from_power and interpolate are taken as given here (their definition is C13)']
RULE = 'value equals the reference definition of the normalization'
HEAD = '''
import pandas as pd
import numpy as np
import pvlib
from rdtools import normalization, utilities
from rdtools.analysis_chains import TrendAnalysis
from rdtools.normalization import energy_from_power, interpolate

def freq_of(s, what):
    f = s.index.freq
    if f is None:
        f = pd.infer_freq(s.index)
        if f is None:
            raise ValueError(what)
    return f

def mean_step(s):
    if s.index.freq is None:
        t = pd.Series(s.index.view('int64') / (10.0**9 * 3600.0))
        t.index = s.index
        d = t.diff()
    else:
        d = (s.index - s.index.shift(-1)).view('int64') / (10.0**9 * 3600.0)
    return np.mean(d[~np.isnan(d)])

def pvw(poa, rated, t, ref, tref, gamma):
    p = rated * poa / ref
    if t is not None and gamma is not None:
        p = p * (1 + gamma * (t - tref))
    return p

def norm(energy, at, expected, poa, freq):
    if mean_step(expected) > mean_step(energy):
        expected = interpolate(expected, at)
        poa = interpolate(poa, at)
    ee = energy_from_power(expected, freq, power_type='right_labeled')
    ins = energy_from_power(poa, freq, power_type='right_labeled')
    en = energy / ee
    u = en.index.union(ins.index)
    return en.reindex(u), ins.reindex(u)
'''
NORM = HEAD + '''
def code_power(pv: series, expected: series, poa: series):
    return normalization.normalize_with_expected_power(pv, expected, poa)
def spec_power(pv: series, expected: series, poa: series):
    f = freq_of(pv, 'pv')
    return norm(energy_from_power(pv, f, power_type='right_labeled'), pv.index, expected, poa, f)

def code_energy(pv: series, expected: series, poa: series):
    return normalization.normalize_with_expected_power(pv, expected, poa, pv_input='energy')
def spec_energy(pv: series, expected: series, poa: series):
    return norm(pv.copy(), pv.index, expected, poa, freq_of(pv, 'pv'))

def code_pvwatts(poa: series, rated: scalar, t: series, ref: scalar, tref: scalar, gamma: opt):
    return normalization.pvwatts_dc_power(poa, rated, t, ref, tref, gamma)
def spec_pvwatts(poa: series, rated: scalar, t: series, ref: scalar, tref: scalar, gamma: opt):
    return pvw(poa, rated, t, ref, tref, gamma)

def code_pvwatts_default(poa: series, rated: scalar, t: series, gamma: scalar):
    return normalization.pvwatts_dc_power(poa, rated, temperature_cell=t, gamma_pdc=gamma)
def spec_pvwatts_default(poa: series, rated: scalar, t: series, gamma: scalar):
    return rated * poa / 1000 * (1 + gamma * (t - 25))

def code_pvwatts_notemp(poa: series, rated: scalar, gamma: scalar):
    return normalization.pvwatts_dc_power(poa, rated, gamma_pdc=gamma)
def spec_pvwatts_notemp(poa: series, rated: scalar, gamma: scalar):
    return rated * poa / 1000

def code_pvwatts_nogamma(poa: series, rated: scalar, t: series):
    return normalization.pvwatts_dc_power(poa, rated, temperature_cell=t)
def spec_pvwatts_nogamma(poa: series, rated: scalar, t: series):
    return rated * poa / 1000

def code_with_pvwatts(energy: series, poa: series, rated: scalar, t: series, ref: scalar, tref: scalar, gamma: opt):
    return normalization.normalize_with_pvwatts(energy, {'poa_global': poa, 'power_dc_rated': rated, 'temperature_cell': t,
        'poa_global_ref': ref, 'temperature_cell_ref': tref, 'gamma_pdc': gamma})
def spec_with_pvwatts(energy: series, poa: series, rated: scalar, t: series, ref: scalar, tref: scalar, gamma: opt):
    return norm(energy.copy(), energy.index, pvw(poa, rated, t, ref, tref, gamma), poa, freq_of(energy, 'pv'))
'''
CHAIN = CH + HEAD + '''
def bare(ta):
    ta.filter_params = {}
    ta.filter_params_aggregated = {}
    ta.sensor_analysis(analyses=[])
    return ta.sensor_aggregated_performance, ta.sensor_aggregated_insolation

def through(en, ins):
    m = combine({}, en).all(axis=1)
    a, ai = weigh(en, ins, m, 'D')
    m2 = combine_agg({}, a).all(axis=1)
    return keep(a, m2, 'D'), keep(ai, m2, 'D')

def code_analysis(pv: series, poa: series, t: series, gamma: opt, rated: opt):
    return bare(TrendAnalysis(pv, poa, temperature_cell=t, gamma_pdc=gamma, power_dc_rated=rated, pv_input='energy'))
def spec_analysis(pv: series, poa: series, t: series, gamma: opt, rated: opt):
    poa = interpolate(poa, pv.index, None)
    t = interpolate(t, pv.index, None)
    p = pvw(poa, 1.0 if rated is None else rated, t, 1000, 25, gamma)
    en, ins = norm(pv.copy(), pv.index, p, poa, freq_of(pv, 'pv'))
    if rated is None:
        en = en / utilities.robust_quantile(en[np.isfinite(en)], 0.95)
    return through(en, ins)

def code_analysis_expected(pv: series, poa: series, expected: series):
    return bare(TrendAnalysis(pv, poa, power_expected=expected, pv_input='energy'))
def spec_analysis_expected(pv: series, poa: series, expected: series):
    poa = interpolate(poa, pv.index, None)
    expected = interpolate(expected, pv.index, None)
    en, ins = norm(pv.copy(), pv.index, expected, poa, freq_of(pv, 'pv'))
    return through(en, ins)

def celltemp(ta):
    ta.filter_params = {}
    ta.filter_params_aggregated = {}
    ta.sensor_analysis(analyses=[])
    return ta.temperature_cell

def code_cell_default(pv: series, poa: series, tamb: series, wind: scalar):
    return celltemp(TrendAnalysis(pv, poa, temperature_ambient=tamb, windspeed=wind, pv_input='energy', power_dc_rated=1))
def spec_cell_default(pv: series, poa: series, tamb: series, wind: scalar):
    if isinstance(wind, pd.Series):
        wind = interpolate(wind, pv.index, None)
    return cell(interpolate(poa, pv.index, None), interpolate(tamb, pv.index, None), wind, 'open_rack_glass_polymer')

def code_cell_named(pv: series, poa: series, tamb: series, wind: series):
    return celltemp(TrendAnalysis(pv, poa, temperature_ambient=tamb, windspeed=wind, pv_input='energy', power_dc_rated=1,
                                  temperature_model='insulated_back_glass_polymer'))
def spec_cell_named(pv: series, poa: series, tamb: series, wind: series):
    return cell(interpolate(poa, pv.index, None), interpolate(tamb, pv.index, None), interpolate(wind, pv.index, None), 'insulated_back_glass_polymer')

def code_cell_params(pv: series, poa: series, tamb: series, wind: series, a: scalar, b: scalar, d: scalar):
    return celltemp(TrendAnalysis(pv, poa, temperature_ambient=tamb, windspeed=wind, pv_input='energy', power_dc_rated=1,
                                  temperature_model={'a': a, 'b': b, 'deltaT': d}))
def spec_cell_params(pv: series, poa: series, tamb: series, wind: series, a: scalar, b: scalar, d: scalar):
    return pvlib.temperature.sapm_cell(poa_global=interpolate(poa, pv.index, None), temp_air=interpolate(tamb, pv.index, None),
                                       wind_speed=interpolate(wind, pv.index, None), a=a, b=b, deltaT=d)

def code_cell_given(pv: series, poa: series, t: series, tamb: series):
    return celltemp(TrendAnalysis(pv, poa, temperature_cell=t, temperature_ambient=tamb, pv_input='energy', power_dc_rated=1))
def spec_cell_given(pv: series, poa: series, t: series, tamb: series):
    return interpolate(t, pv.index, None)
'''


def check(ctx):
    ctx.need('normalization', 'normalize_with_expected_power')
    ctx.need('normalization', 'pvwatts_dc_power')
    ctx.need('normalization', 'normalize_with_pvwatts')
    op = {'*': {'opaque': ('interpolate', 'energy_from_power')}}
    ctx.formulas(NORM, RULE, op)
    ctx.formulas(CHAIN, RULE, op)
