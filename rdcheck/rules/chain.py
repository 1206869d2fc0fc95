"""Reference definition of the analysis pipelines, shared by C08, C09, C14 and C23."""
OPAQUE = ('interpolate', 'energy_from_power', 'normalize_with_pvwatts', 'normalize_with_expected_power', 
          'normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'clearsky_filter', 'hour_angle_filter', 'two_way_window_filter',
          'insolation_filter', 'hampel_filter', 'directional_tukey_filter', 'degradation_year_on_year', 'soiling_srr', 'irradiance_rescale',
          'get_clearsky_tamb', 'degradation_summary_plots', 'soiling_monte_carlo_plot', 'soiling_interval_plot',
          'soiling_rate_histogram', 'degradation_timeseries_plot')
HEAD = '''
import pandas as pd
import numpy as np
import pvlib
import warnings
from rdtools import normalization, utilities, filtering, aggregation, degradation, soiling, clearsky_temperature, plotting
from rdtools.analysis_chains import TrendAnalysis
from rdtools.normalization import energy_from_power, interpolate

def combine(masks, like):
    d = {'default': pd.Series(True, index=like.index)}
    d.update(masks)
    return pd.DataFrame(d).fillna(0).astype(bool)

def combine_agg(masks, like):
    d = {'default': pd.Series(True, index=like.index)}
    d.update(masks)
    return pd.DataFrame(d).fillna(False)

def custom(comp, mask):
    if mask.isnull().any():
        mask = mask.where(mask.notnull(), False)
    if not comp.index.equals(mask.index):
        mask = mask.reindex(comp.index)
        mask.loc[mask.isnull()] = True
    comp['ad_hoc_filter'] = mask
    return comp

def weigh(en, ins, m, freq):
    return aggregation.aggregation_insol(en[m], ins[m], freq), ins[m].resample(freq, origin='start_day').sum()

def keep(x, m, freq):
    return x[m].resample(freq, origin='start_day').asfreq()

def onto(x, idx, limit):
    return interpolate(x, idx, limit)

def pvwatts(e, poa, t, gamma, rated):
    en, ins = normalization.normalize_with_pvwatts(e, {'poa_global': poa, 'power_dc_rated': 1.0 if rated is None else rated,
        'temperature_cell': t, 'poa_global_ref': 1000, 'temperature_cell_ref': 25, 'gamma_pdc': gamma})
    if rated is None:
        en = en / utilities.robust_quantile(en[np.isfinite(en)], 0.95)
    return en, ins

def cell(poa, tamb, wind, model):
    p = pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS['sapm'][model]
    return pvlib.temperature.sapm_cell(poa_global=poa, temp_air=tamb, wind_speed=wind, **p)

def check_length(x):
    if x.empty:
        n = pd.Timedelta('0d')
    else:
        n = x.index[-1] - x.index[0]
    if n < pd.Timedelta('730d'):
        raise ValueError('x')

def yoy(perf, **kw):
    check_length(perf)
    rd, ci, info = degradation.degradation_year_on_year(perf, **kw)
    return {'p50_rd': rd, 'rd_confidence_interval': ci, 'calc_info': info}

def srr(perf, ins, **kw):
    day = pd.tseries.offsets.Day()
    if perf.index.freq != day or ins.index.freq != day:
        raise ValueError('x')
    sr, ci, info = soiling.soiling_srr(perf, ins, **kw)
    return {'p50_sratio': sr, 'sratio_confidence_interval': ci, 'calc_info': info}

def default_masks(en, poa, t, power):
    return {'normalized_filter': filtering.normalized_filter(en), 'poa_filter': filtering.poa_filter(poa),
            'tcell_filter': filtering.tcell_filter(t), 'clip_filter': filtering.clip_filter(power)}

def rest(en, ins, m, freq):
    a, ai = weigh(en, ins, m, freq)
    m2 = combine_agg({'two_way_window_filter': filtering.two_way_window_filter(a)}, a).all(axis=1)
    return keep(a, m2, freq), keep(ai, m2, freq)
'''
