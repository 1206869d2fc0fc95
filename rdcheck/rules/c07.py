"""Row filters keep exactly the documented rows."""
EXPLAIN = ('Static value-flow analysis: the mask every public filter returns is extracted from the source as a gated value graph '
           'and compared, modulo an equational theory of element-wise arithmetic, comparison, NaN and selection, with the reference '
           'definition of the filter.')
ASSUME = ['pandas/numpy library operations behave as documented']
RULE = 'mask equals the reference definition of the filter'
SPEC = '''
from rdtools import filtering, utilities

def rquant(x, q):
    cut = x.astype(float).fillna(0).quantile(q) / 1000
    return x[x > cut].quantile(q)

def code_normalized(s: series, lo: opt, hi: opt):
    return filtering.normalized_filter(s, energy_normalized_low=lo, energy_normalized_high=hi)
def spec_normalized(s: series, lo: opt, hi: opt):
    a = -np.inf if lo is None else lo
    b = np.inf if hi is None else hi
    return (a < s) & (s < b)
def code_normalized_default(s: series):
    return filtering.normalized_filter(s)
def spec_normalized_default(s: series):
    return (s > 0.01) & (s < np.inf)

def code_poa(s: series, lo: scalar, hi: scalar):
    return filtering.poa_filter(s, poa_global_low=lo, poa_global_high=hi)
def spec_poa(s: series, lo: scalar, hi: scalar):
    return (lo < s) & (s < hi)
def code_poa_default(s: series):
    return filtering.poa_filter(s)
def spec_poa_default(s: series):
    return (s > 200) & (s < 1200)

def code_tcell(s: series, lo: scalar, hi: scalar):
    return filtering.tcell_filter(s, temperature_cell_low=lo, temperature_cell_high=hi)
def spec_tcell(s: series, lo: scalar, hi: scalar):
    return (lo < s) & (s < hi)
def code_tcell_default(s: series):
    return filtering.tcell_filter(s)
def spec_tcell_default(s: series):
    return (s > -50) & (s < 110)

def code_csi(m: series, c: series, threshold: scalar):
    return filtering.csi_filter(m, c, threshold=threshold)
def spec_csi(m: series, c: series, threshold: scalar):
    r = m / c
    return (1 - threshold <= r) & (r <= 1 + threshold)
def code_csi_default(m: series, c: series):
    return filtering.csi_filter(m, c)
def spec_csi_default(m: series, c: series):
    r = m / c
    return (1 - 0.15 <= r) & (r <= 1 + 0.15)
def code_csi_dispatch(m: series, c: series, threshold: scalar):
    return filtering.clearsky_filter(m, c, model='csi', threshold=threshold)
def spec_csi_dispatch(m: series, c: series, threshold: scalar):
    r = m / c
    return (1 - threshold <= r) & (r <= 1 + threshold)

def code_pvlib(m: series, c: series, window_length: scalar, mean_diff: scalar, max_diff: scalar, lower_line_length: scalar, upper_line_length: scalar, var_diff: scalar, slope_dev: scalar):
    return filtering.pvlib_clearsky_filter(m, c, window_length=window_length, mean_diff=mean_diff, max_diff=max_diff,
        lower_line_length=lower_line_length, upper_line_length=upper_line_length, var_diff=var_diff, slope_dev=slope_dev, lookup_parameters=False)
def spec_pvlib(m: series, c: series, window_length: scalar, mean_diff: scalar, max_diff: scalar, lower_line_length: scalar, upper_line_length: scalar, var_diff: scalar, slope_dev: scalar):
    df = pd.concat([m, c], axis=1, join='outer')
    df.columns = ['measured', 'clearsky']
    return pvlib.clearsky.detect_clearsky(df['measured'], df['clearsky'], window_length=window_length, mean_diff=mean_diff, max_diff=max_diff,
        lower_line_length=lower_line_length, upper_line_length=upper_line_length, var_diff=var_diff, slope_dev=slope_dev, return_components=False)
def code_pvlib_default(m: series, c: series):
    return filtering.clearsky_filter(m, c)
def spec_pvlib_default(m: series, c: series):
    df = pd.concat([m, c], axis=1, join='outer')
    df.columns = ['measured', 'clearsky']
    return pvlib.clearsky.detect_clearsky(df['measured'], df['clearsky'], window_length=90, mean_diff=75, max_diff=75,
        lower_line_length=-45, upper_line_length=80, var_diff=0.032, slope_dev=75, return_components=False)

def code_quantile_clip(p: series, quantile: scalar):
    return filtering.quantile_clip_filter(p, quantile=quantile)
def spec_quantile_clip(p: series, quantile: scalar):
    return p < 0.99 * rquant(p, quantile)
def code_quantile_clip_default(p: series):
    return filtering.clip_filter(p, model='quantile')
def spec_quantile_clip_default(p: series):
    return p < 0.99 * rquant(p, 0.98)

def code_insolation(s: series, quantile: scalar):
    return filtering.insolation_filter(s, quantile=quantile)
def spec_insolation(s: series, quantile: scalar):
    return s >= s.quantile(quantile)
def code_insolation_default(s: series):
    return filtering.insolation_filter(s)
def spec_insolation_default(s: series):
    return s >= s.quantile(0.1)

def code_hampel(s: series, k: scalar, t0: scalar):
    return filtering.hampel_filter(s, k=k, t0=t0)
def spec_hampel(s: series, k: scalar, t0: scalar):
    med = s.rolling(k, center=True, min_periods=1).median()
    d = abs(s - med)
    mad = d.rolling(k, center=True, min_periods=1).median()
    return d <= t0 * 1.4826 * mad
def code_hampel_default(s: series):
    return filtering.hampel_filter(s)
def spec_hampel_default(s: series):
    med = s.rolling('14d', center=True, min_periods=1).median()
    d = abs(s - med)
    mad = d.rolling('14d', center=True, min_periods=1).median()
    return d <= 3 * 1.4826 * mad

def back(s, w):
    return s.rolling(w, min_periods=5, closed='both').median()
def fwd(s, w):
    return s.loc[::-1].rolling(w, min_periods=5, closed='both').median()

def code_two_way(s: series, roll_period: scalar, outlier_threshold: scalar):
    return filtering.two_way_window_filter(s, roll_period=roll_period, outlier_threshold=outlier_threshold)
def spec_two_way(s: series, roll_period: scalar, outlier_threshold: scalar):
    x = s / s.quantile(0.99)
    b = abs(x - back(x, roll_period)).fillna(0)
    f = abs(x - fwd(x, roll_period)).fillna(0)
    return b.combine(f, min, 0) < outlier_threshold
def code_two_way_default(s: series):
    return filtering.two_way_window_filter(s)
def spec_two_way_default(s: series):
    x = s / s.quantile(0.99)
    b = abs(x - back(x, pd.to_timedelta('7 Days'))).fillna(0)
    f = abs(x - fwd(x, pd.to_timedelta('7 Days'))).fillna(0)
    return b.combine(f, min, 0) < 0.03

def fence(x, k):
    lo, hi = x.quantile(0.25), x.quantile(0.75)
    return (lo - k * (hi - lo) < x) & (x < hi + k * (hi - lo))
def code_tukey(s: series, roll_period: scalar, k: scalar):
    return filtering.directional_tukey_filter(s, roll_period=roll_period, k=k)
def spec_tukey(s: series, roll_period: scalar, k: scalar):
    return fence(s - fwd(s, roll_period), k) | fence(s - back(s, roll_period), k)
def code_tukey_default(s: series):
    return filtering.directional_tukey_filter(s)
def spec_tukey_default(s: series):
    return fence(s - fwd(s, pd.to_timedelta('7 Days')), 1.5) | fence(s - back(s, pd.to_timedelta('7 Days')), 1.5)

def code_hour_angle(s: series, lat: scalar, lon: scalar, lo: scalar, hi: scalar):
    return filtering.hour_angle_filter(s, lat, lon, min_hour_angle=lo, max_hour_angle=hi)
def spec_hour_angle(s: series, lat: scalar, lon: scalar, lo: scalar, hi: scalar):
    sp = pvlib.solarposition.get_solarposition(s.index, lat, lon)
    a = pd.Series(pvlib.solarposition.hour_angle(s.index, lon, sp['equation_of_time']), index=s.index)
    return (lo <= a) & (a <= hi)
def code_hour_angle_default(s: series, lat: scalar, lon: scalar):
    return filtering.hour_angle_filter(s, lat, lon)
def spec_hour_angle_default(s: series, lat: scalar, lon: scalar):
    sp = pvlib.solarposition.get_solarposition(s.index, lat, lon)
    a = pd.Series(pvlib.solarposition.hour_angle(s.index, lon, sp['equation_of_time']), index=s.index)
    return (-30 <= a) & (a <= 30)

def code_robust_quantile(x: series, q: scalar):
    return utilities.robust_quantile(x, q)
def spec_robust_quantile(x: series, q: scalar):
    return rquant(x, q)
def code_robust_median(x: series, q: scalar):
    return utilities.robust_median(x, q)
def spec_robust_median(x: series, q: scalar):
    return x[x > x.astype(float).fillna(0).quantile(q) / 1000].median()
def code_robust_mean(x: series, q: scalar):
    return utilities.robust_mean(x, q)
def spec_robust_mean(x: series, q: scalar):
    return x[x > x.astype(float).fillna(0).quantile(q) / 1000].mean()
'''


def check(ctx):
    for f in ('normalized_filter', 'poa_filter', 'tcell_filter', 'clearsky_filter', 'csi_filter', 'pvlib_clearsky_filter', 'clip_filter',
              'quantile_clip_filter', 'insolation_filter', 'hampel_filter', 'two_way_window_filter', 'directional_tukey_filter', 'hour_angle_filter'):
        ctx.need('filtering', f)
    ctx.formulas(SPEC, RULE)
