"""Clear-sky modelling uses the described site and array."""
from .chain import HEAD, OPAQUE
EXPLAIN = ('Static value-flow analysis: the clear-sky irradiance and temperature an analysis derives from the site description are extracted '
           'from the source as gated value graphs and compared with the reference model chain; likewise the clear-sky temperature lookup.')
ASSUME = ['pandas/numpy/pvlib/h5py library operations behave as documented', 'irradiance_rescale is taken as given here (C22)']
RULE = 'modelled clear-sky value equals the reference chain'
MODEL = HEAD + '''
def modelled(poa, tilt, az, loc, albedo, method):
    times = pd.date_range(poa.index.min(), poa.index.max(), freq='1min')
    if method:
        sun = loc.get_solarposition(times, method=method)
    else:
        sun = loc.get_solarposition(times)
    c = loc.get_clearsky(times, solar_position=sun)
    g = pvlib.irradiance.get_total_irradiance(tilt, az, sun['apparent_zenith'], sun['azimuth'], c['dni'], c['ghi'], c['dhi'],
                                              albedo=albedo, model='isotropic')['poa_global']
    n = pd.Series(range(len(poa)), index=poa.index).reindex(times, method='backfill')
    g = g.groupby(n).mean()
    g.index = poa.index
    g.iloc[0] = np.nan
    return normalization.irradiance_rescale(poa, g, method='iterative')

def out(ta):
    return {'poa': ta.poa_global_clearsky, 'tamb': ta.temperature_ambient_clearsky, 'tcell': ta.temperature_cell_clearsky}

def code_modelled(pv: series, poa: series, t: series, tilt: scalar, az: scalar, loc: scalar, albedo: scalar):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, power_dc_rated=1)
    ta.set_clearsky(pvlib_location=loc, pv_azimuth=az, pv_tilt=tilt, albedo=albedo, solar_position_method='ephemeris')
    ta.clearsky_analysis(analyses=[])
    return out(ta)
def spec_modelled(pv: series, poa: series, t: series, tilt: scalar, az: scalar, loc: scalar, albedo: scalar):
    e = energy_from_power(pv, max_timedelta=None)
    poa = interpolate(poa, pv.index, None)
    if isinstance(az, (pd.Series, pd.DataFrame)):
        az = interpolate(az, e.index, None)
    if isinstance(tilt, (pd.Series, pd.DataFrame)):
        tilt = interpolate(tilt, e.index, None)
    g = modelled(poa, tilt, az, loc, albedo, 'ephemeris')
    ta = clearsky_temperature.get_clearsky_tamb(g.index, loc.latitude, loc.longitude)
    return {'poa': g, 'tamb': ta, 'tcell': cell(g, ta, 0, 'open_rack_glass_polymer')}

def code_defaults(pv: series, poa: series, t: series, loc: scalar):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, power_dc_rated=1)
    ta.set_clearsky(loc, 180, 30)
    ta.clearsky_analysis(analyses=[])
    return out(ta)
def spec_defaults(pv: series, poa: series, t: series, loc: scalar):
    poa = interpolate(poa, pv.index, None)
    g = modelled(poa, 30, 180, loc, 0.25, 'nrel_numpy')
    ta = clearsky_temperature.get_clearsky_tamb(g.index, loc.latitude, loc.longitude)
    return {'poa': g, 'tamb': ta, 'tcell': cell(g, ta, 0, 'open_rack_glass_polymer')}

def code_nomethod(pv: series, poa: series, t: series, loc: scalar):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, power_dc_rated=1)
    ta.set_clearsky(loc, 180, 30, solar_position_method=None)
    ta.clearsky_analysis(analyses=[])
    return ta.poa_global_clearsky
def spec_nomethod(pv: series, poa: series, t: series, loc: scalar):
    return modelled(interpolate(poa, pv.index, None), 30, 180, loc, 0.25, None)

def code_tracker(pv: series, poa: series, t: series, tilt: series, az: series, loc: scalar, limit: opt):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, power_dc_rated=1, max_timedelta=limit)
    ta.set_clearsky(loc, az, tilt)
    ta.clearsky_analysis(analyses=[])
    return out(ta)
def spec_tracker(pv: series, poa: series, t: series, tilt: series, az: series, loc: scalar, limit: opt):
    e = energy_from_power(pv, max_timedelta=limit)
    poa = interpolate(poa, pv.index, limit)
    g = modelled(poa, interpolate(tilt, e.index, limit), interpolate(az, e.index, limit), loc, 0.25, 'nrel_numpy')
    ta = clearsky_temperature.get_clearsky_tamb(g.index, loc.latitude, loc.longitude)
    return {'poa': g, 'tamb': ta, 'tcell': cell(g, ta, 0, 'open_rack_glass_polymer')}

def code_given(pv: series, poa: series, t: series, cs: series, tcs: series, tacs: series, loc: scalar, limit: opt):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, power_dc_rated=1, max_timedelta=limit)
    ta.set_clearsky(loc, 180, 30, poa_global_clearsky=cs, temperature_cell_clearsky=tcs, temperature_ambient_clearsky=tacs)
    ta.clearsky_analysis(analyses=[])
    return out(ta)
def spec_given(pv: series, poa: series, t: series, cs: series, tcs: series, tacs: series, loc: scalar, limit: opt):
    e = energy_from_power(pv, max_timedelta=limit)
    return {'poa': interpolate(cs, e.index, limit), 'tamb': interpolate(tacs, e.index, limit), 'tcell': interpolate(tcs, e.index, limit)}

def code_given_poa(pv: series, poa: series, t: series, cs: series, loc: scalar):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, power_dc_rated=1)
    ta.set_clearsky(loc, 180, 30, poa_global_clearsky=cs)
    ta.clearsky_analysis(analyses=[])
    return out(ta)
def spec_given_poa(pv: series, poa: series, t: series, cs: series, loc: scalar):
    e = energy_from_power(pv, max_timedelta=None)
    g = interpolate(cs, e.index, None)
    ta = clearsky_temperature.get_clearsky_tamb(g.index, loc.latitude, loc.longitude)
    return {'poa': g, 'tamb': ta, 'tcell': cell(g, ta, 0, 'open_rack_glass_polymer')}

def code_given_ambient(pv: series, poa: series, t: series, tacs: series, loc: scalar):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, power_dc_rated=1)
    ta.set_clearsky(loc, 180, 30, temperature_ambient_clearsky=tacs)
    ta.clearsky_analysis(analyses=[])
    return out(ta)
def spec_given_ambient(pv: series, poa: series, t: series, tacs: series, loc: scalar):
    e = energy_from_power(pv, max_timedelta=None)
    g = modelled(interpolate(poa, pv.index, None), 30, 180, loc, 0.25, 'nrel_numpy')
    ta = interpolate(tacs, e.index, None)
    return {'poa': g, 'tamb': ta, 'tcell': cell(g, ta, 0, 'open_rack_glass_polymer')}

def code_sensor_clearsky(pv: series, poa: series, t: series, tilt: scalar, az: scalar, loc: scalar):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, power_dc_rated=1)
    ta.set_clearsky(loc, 180, 30)
    ta.filter_params['sensor_clearsky_filter'] = {}
    ta.sensor_analysis(analyses=[])
    return ta.poa_global_clearsky
def spec_sensor_clearsky(pv: series, poa: series, t: series, tilt: scalar, az: scalar, loc: scalar):
    return modelled(interpolate(poa, pv.index, None), 30, 180, loc, 0.25, 'nrel_numpy')
'''
TAMB = '''
import pandas as pd
import numpy as np
import h5py
from datetime import timedelta
from contextlib import ExitStack
import importlib.resources as importlib_resources
from rdtools import clearsky_temperature
from rdtools.clearsky_temperature import get_clearsky_tamb

def pixel(data, i, j, k):
    vals = []
    for x in np.arange(i, i + 1):
        if x < 0 or x >= len(data[:, 0, 0]):
            continue
        for y in np.arange(j, j + 1):
            if y < 0 or y >= len(data[0, :, 0]):
                continue
            v = data[x, y, k]
            if pd.isnull(v):
                continue
            vals.append(v)
    if len(vals) == 0:
        return np.nan
    return float(pd.Series(vals).median())

def profile(times, latitude, longitude, window, std):
    fm = ExitStack()
    path = fm.enter_context(importlib_resources.as_file(importlib_resources.files('rdtools') / 'data/temperature.hdf5'))
    if times.freq is None:
        f = pd.infer_freq(times)
        if f is None:
            f = pd.infer_freq(times[:10])
    else:
        f = times.freq
    w = timedelta(days=window)
    days = pd.date_range(times.date[0] - w, times.date[-1] + w, freq='D').tz_localize(times.tz, ambiguous='infer', nonexistent='shift_forward')
    h = h5py.File(path, 'r')
    a, b = h['temperature']['day'], h['temperature']['night']
    nx, ny = len(a[:, 0, 0]), len(a[0, :, 0])
    x = longitude - 180
    if x < 0:
        x += 360
    i = round(float(nx) * float(x) / 360.0)
    j = round(float(ny) * (90.0 - float(latitude)) / 180.0)
    df = pd.DataFrame(index=days)
    df['month'] = df.index.month
    d, n = [], []
    for k in range(12):
        d.append(pixel(a, i, j, k))
        n.append(pixel(b, i, j, k))
    for k in range(12):
        df.loc[df['month'] == k + 1, 'day'] = d[k]
        df.loc[df['month'] == k + 1, 'night'] = n[k]
    df = df.rolling(window=window, win_type='gaussian', min_periods=1, center=True).mean(std=std)
    df = df.resample(f).interpolate(method='linear')
    df['month'] = df.index.month
    df = df.reindex(times, method='nearest')
    off = np.array([y.utcoffset().total_seconds() / 3600.0 for y in df.index])
    df['solar_noon_offset'] = longitude / 180.0 * 12.0 - off
    df['hour_of_day'] = df.index.hour + df.index.minute / 60.0
    hd, ni, da, so = df['hour_of_day'].values, df['night'].values, df['day'].values, df['solar_noon_offset'].values
    v = np.cos((hd + (8.0 + so)) / 24.0 * 2.0 * np.pi)
    df['T'] = (da - ni) * 0.5 * v * 0.7 + (da + ni) / 2.0
    return df['T']

def code_tamb(times: index, latitude: scalar, longitude: scalar, window: scalar, std: scalar):
    return get_clearsky_tamb(times, latitude, longitude, window_size=window, gauss_std=std)
def spec_tamb(times: index, latitude: scalar, longitude: scalar, window: scalar, std: scalar):
    return profile(times, latitude, longitude, window, std)

def code_tamb_default(times: index, latitude: scalar, longitude: scalar):
    return get_clearsky_tamb(times, latitude, longitude)
def spec_tamb_default(times: index, latitude: scalar, longitude: scalar):
    return profile(times, latitude, longitude, 40, 20)
'''


def check(ctx):
    ctx.need('analysis_chains', 'TrendAnalysis.set_clearsky')
    ctx.need('clearsky_temperature', 'get_clearsky_tamb')
    ctx.formulas(MODEL, RULE, {'*': {'opaque': OPAQUE}})
    ctx.formulas(TAMB, 'clear-sky temperature equals the reference profile')
