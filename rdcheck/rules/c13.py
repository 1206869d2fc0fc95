"""Energy is power times time; gaps are never filled silently."""
from .common import *
EXPLAIN, ASSUME = EXPLAIN_F, ASSUME_LIB
RULE = 'energy and interpolation equal their reference definition'
HEAD = '''
from rdtools import normalization
from rdtools.normalization import energy_from_power, interpolate

def steps(ix):
    return pd.Series(index=ix, data=np.insert(np.diff(ix.view('int64')).astype('float'), 0, np.nan))

def interp_series(ts, target, limit, threshold):
    d = ts.copy()
    d.name = 'data'
    df = pd.DataFrame(d).dropna()
    t = df.index.view('int64').copy()
    df['timestamp'] = t
    df['gap'] = df['timestamp'].diff()
    df.index = t
    known = df.index.copy()
    top = 2 * df['gap'].median() if limit is None else limit.total_seconds() * 10.0**9
    frac = (df['gap'] > top).mean()
    if frac > threshold:
        warnings.warn('excluded', UserWarning)
    want = pd.Index(target.view('int64'))
    both = df.index.append(want).drop_duplicates(keep='first')
    df = df.reindex(both).sort_index()
    df['gap'] = df['gap'].bfill()
    df.loc[known, 'gap'] = 0
    ok = df[df['gap'] <= top].copy()
    ok['interpolated_data'] = ok['data'].interpolate(method='index')
    df['interpolated_data'] = ok['interpolated_data']
    out = df['interpolated_data'].loc[want]
    out.index = pd.to_datetime(out.index, utc=True).tz_convert(target.tz)
    return out.reindex(target)

def aggregated(ts, freq, limit, kind):
    dummy = ts.resample(freq, closed='right', label='right', origin='start').sum()
    union = ts.index.union(dummy.index)
    x = ts.dropna()
    gaps = pd.Series(x.index.view('int64'), index=x.index).diff().reindex(union, method='bfill')
    hole = gaps > limit.total_seconds() * 10.0**9
    if x.index[0] != union[0]:
        hole[:x.index[0]] = True
    x = x.reindex(union)
    h = np.diff(x.index.view('int64')) / 10**9 / 3600.0
    if kind == 'instantaneous':
        y = x.interpolate(method='time')
        y[hole] = np.nan
        v = y.values
        e = (v[1:] + v[:-1]) / 2 * h
    else:
        y = x.bfill()
        y[hole] = np.nan
        v = y.values
        e = v[1:] * h
    s = pd.Series(data=np.insert(e, 0, np.nan), index=y.index)
    return s.resample(freq, closed='right', label='right', origin='start').sum(min_count=1)[1:]
'''
INTERP = HEAD + '''
def code_interp_index(ts: series, target: index, limit: opt, threshold: scalar):
    if isinstance(target, pd.DatetimeIndex):
        return interpolate(ts, target, max_timedelta=limit, warning_threshold=threshold)
    return None
def spec_interp_index(ts: series, target: index, limit: opt, threshold: scalar):
    if isinstance(target, pd.DatetimeIndex):
        return interp_series(ts, target, limit, threshold)
    return None

def code_interp_freq(ts: series, limit: opt, threshold: scalar):
    return interpolate(ts, 'h', max_timedelta=limit, warning_threshold=threshold)
def spec_interp_freq(ts: series, limit: opt, threshold: scalar):
    return interp_series(ts, pd.date_range(ts.index.min(), ts.index.max(), freq='h'), limit, threshold)

def code_interp_default(ts: series):
    return interpolate(ts, 'h')
def spec_interp_default(ts: series):
    return interp_series(ts, pd.date_range(ts.index.min(), ts.index.max(), freq='h'), None, 0.1)

def code_interp_frame(df: frame, limit: opt, threshold: scalar):
    return interpolate(df, 'h', max_timedelta=limit, warning_threshold=threshold)
def spec_interp_frame(df: frame, limit: opt, threshold: scalar):
    target = pd.date_range(df.index.min(), df.index.max(), freq='h')
    out = []
    for c in df.columns:
        out.append(interp_series(df[c], target, limit, threshold))
    return pd.concat(out, axis=1)
'''
ENERGY = HEAD + '''
def energy(p, freq, limit, kind):
    if len(p) <= 1:
        if kind == 'instantaneous':
            raise ValueError('x')
        if freq is None:
            if p.index.freq is None:
                raise ValueError('x')
            freq = p.index.freq
        return p * pd.tseries.frequencies.to_offset(freq).nanos / 1e9 / 3600
    st = steps(p.index)
    med = st.median()
    if freq is None:
        freq = str(int(med)) + 'ns'
    top = med if limit is None else limit.total_seconds() * 10.0**9
    lim = pd.to_timedelta(f'{top} ns')
    try:
        size = pd.tseries.frequencies.to_offset(freq).nanos
    except ValueError as e:
        if 'is a non-fixed frequency' in str(e):
            size = steps(pd.Series(data=1, index=pd.date_range(p.index[0], p.index[-1], freq=freq)).index).median()
        else:
            raise
    q = p
    if size <= med:
        q = interpolate(p, freq, lim)
    e = aggregated(q, freq, lim, kind)
    e[st.reindex(e.index, method='backfill') > top] = np.nan
    return e

def code_energy_right(p: series, freq: opt, limit: opt):
    return energy_from_power(p, target_frequency=freq, max_timedelta=limit, power_type='right_labeled')
def spec_energy_right(p: series, freq: opt, limit: opt):
    return energy(p, freq, limit, 'right_labeled')

def code_energy_trapz(p: series, freq: opt, limit: opt):
    return energy_from_power(p, target_frequency=freq, max_timedelta=limit, power_type='instantaneous')
def spec_energy_trapz(p: series, freq: opt, limit: opt):
    return energy(p, freq, limit, 'instantaneous')

def code_energy_default(p: series):
    return energy_from_power(p)
def spec_energy_default(p: series):
    return energy(p, None, None, 'right_labeled')
'''

WARN = HEAD + """
def excluded(ts, limit, threshold):
    gap = pd.Series(ts.dropna().index.view('int64'), index=ts.dropna().index).diff()
    top = 2 * gap.median() if limit is None else limit.total_seconds() * 10.0**9
    return (gap > top).mean() > threshold

def code_warn(ts: series, limit: opt, threshold: scalar):
    return interpolate(ts, 'h', max_timedelta=limit, warning_threshold=threshold)
def spec_warn(ts: series, limit: opt, threshold: scalar):
    d = ts.copy()
    d.name = 'data'
    df = pd.DataFrame(d).dropna()
    t = df.index.view('int64').copy()
    df['timestamp'] = t
    df['gap'] = df['timestamp'].diff()
    top = 2 * df['gap'].median() if limit is None else limit.total_seconds() * 10.0**9
    return (df['gap'] > top).mean() > threshold
"""


def check(ctx):
    ctx.need('normalization', 'energy_from_power')
    ctx.need('normalization', 'interpolate')
    ctx.formulas(INTERP, RULE)
    ctx.formulas(ENERGY, RULE, {'*': {'opaque': ('interpolate',)}})
    ctx.outcomes(WARN, 'excluding more than the threshold warns', 'warn')
