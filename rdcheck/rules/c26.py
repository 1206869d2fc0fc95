"""Clipping filters."""
from .common import *
from ..terms import *
from .. import build as B
EXPLAIN, ASSUME = EXPLAIN_F, ASSUME_LIB + ['the packaged clipping model predicts deterministically from its feature table']
RULE = 'the clipping mask equals its definition'
SPEC = '''
import rdtools
from rdtools import filtering, utilities
from rdtools.filtering import clip_filter, quantile_clip_filter, logic_clip_filter, xgboost_clip_filter

def fmt(p):
    p = p.rename('value')
    if p.index.name is None:
        p = p.rename_axis('datetime')
    return p

def roll_range(x, n):
    hi = x.iloc[::-1].rolling(n).max().reindex(x.index)
    lo = x.iloc[::-1].rolling(n).min().reindex(x.index)
    return (hi - lo) / ((hi + lo) / 2) * 100

def code_quantile(p: series, q: scalar):
    return quantile_clip_filter(p, q)
def spec_quantile(p: series, q: scalar):
    return p < utilities.robust_quantile(p, q) * 0.99

def code_quantile_default(p: series):
    return quantile_clip_filter(p)
def spec_quantile_default(p: series):
    return p < utilities.robust_quantile(p, 0.98) * 0.99

def code_clip_quantile(p: series, q: scalar):
    return clip_filter(p, model='quantile', quantile=q)
def spec_clip_quantile(p: series, q: scalar):
    return quantile_clip_filter(p, q)

def code_clip_default(p: series, mt: str, cut: scalar, n: scalar):
    return clip_filter(p, mounting_type=mt, rolling_range_max_cutoff=cut, roll_periods=n)
def spec_clip_default(p: series, mt: str, cut: scalar, n: scalar):
    return logic_clip_filter(p, mounting_type=mt, rolling_range_max_cutoff=cut, roll_periods=n)

def code_clip_logic(p: series, mt: str, cut: scalar, n: scalar):
    return clip_filter(p, 'logic', mounting_type=mt, rolling_range_max_cutoff=cut, roll_periods=n)
def spec_clip_logic(p: series, mt: str, cut: scalar, n: scalar):
    return logic_clip_filter(p, mounting_type=mt, rolling_range_max_cutoff=cut, roll_periods=n)

def code_clip_xgb(p: series, mt: str):
    return clip_filter(p, 'xgboost', mounting_type=mt)
def spec_clip_xgb(p: series, mt: str):
    return xgboost_clip_filter(p, mounting_type=mt)

def logic(power, mt, cut, n):
    p = fmt(power)
    step = (p.index.to_series().diff() / pd.Timedelta('60s')).mode()[0]
    orig = step
    raw = p.copy()
    df = p.reset_index().drop_duplicates(subset=p.index.name, keep='first').set_index(p.index.name)
    text = str(step) + 'min'
    std = df.resample('D').std() / df.resample('D').mean()
    df['daily_std'] = std.reindex(index=df.index, method='ffill')
    df.loc[df['daily_std'] < 0.1, 'value'] = np.nan
    df.drop('daily_std', axis=1, inplace=True)
    cleaned = df['value'].copy().reindex(raw.index, fill_value=np.nan)
    if step >= 10:
        df = rdtools.normalization.interpolate(df, text)
    else:
        df = df.resample('15min').median()
        step = 15
    if n is None:
        n = 5 if mt == 'single_axis_tracking' and step < 30 else 3
    df['ten_percent_daily'] = (0.1 * df.resample('D').max()).reindex(index=df.index, method='ffill')
    df.loc[df['value'] < df['ten_percent_daily'], 'value'] = np.nan
    v = df['value']
    near = (roll_range(v, n) < cut).rolling(n).sum() >= 1
    near = near.reindex(index=raw.index, method='ffill')
    cp = raw[near].reindex(index=raw.index, fill_value=np.nan)
    if orig < 10:
        daily = cp.resample('D').mean().to_frame(name='mean')
        daily['clipping_max'] = cp.groupby(pd.Grouper(freq='D')).agg(utilities.robust_quantile, q=0.99)
        daily['clipping_min'] = cp.groupby(pd.Grouper(freq='D')).agg(utilities.robust_quantile, q=0.075)
        hi = daily['clipping_max'].reindex(index=raw.index, method='ffill')
        lo = daily['clipping_min'].reindex(index=raw.index, method='ffill')
    else:
        hi = cp.resample('D').max().reindex(index=raw.index, method='ffill')
        lo = cp.resample('D').min().reindex(index=raw.index, method='ffill')
    spread = (hi - lo) / hi
    clip = ((lo <= raw) & (raw <= hi) & (spread <= 0.025)) | \\
        ((raw <= hi * 1.0025) & (raw >= hi * 0.9975) & (spread > 0.025)) | \\
        ((raw <= lo * 1.0025) & (raw >= lo * 0.9975) & (spread > 0.025))
    clip = clip.reindex(index=raw.index, fill_value=False)
    clipped = raw[clip]
    qa = utilities.robust_quantile(cleaned, 0.99)
    qc = utilities.robust_quantile(clipped, 0.99)
    if (abs((qa - qc) / ((qa + qc) / 2)) < 0.005) & (len(clipped) / len(cleaned) * 100 > 4):
        clip = clip | (cleaned >= qa)
    return ~clip

def code_logic(p: series, mt: str, cut: scalar, n: scalar):
    return logic_clip_filter(p, mounting_type=mt, rolling_range_max_cutoff=cut, roll_periods=n)
def spec_logic(p: series, mt: str, cut: scalar, n: scalar):
    return logic(p, mt, cut, n)

def code_logic_default(p: series):
    return logic_clip_filter(p)
def spec_logic_default(p: series):
    return logic(p, 'fixed', 0.2, None)

def code_logic_tracking(p: series):
    return logic_clip_filter(p, 'single_axis_tracking')
def spec_logic_tracking(p: series):
    return logic(p, 'single_axis_tracking', 0.2, None)

def feats(df, step):
    x = df['value']
    df['scaled_value'] = (x - x.min()) / (x.max() - x.min())
    w = 5 if step < 10 else (3 if step < 60 else 2)
    df['rolling_average'] = df['scaled_value'].rolling(window=w, center=True).mean()
    df['first_order_derivative_backward'] = df['scaled_value'].diff()
    df['first_order_derivative_forward'] = df['scaled_value'].shift(-1).diff()
    df['first_order_derivative_backward_rolling_avg'] = df['rolling_average'].diff()
    df['first_order_derivative_forward_rolling_avg'] = df['rolling_average'].shift(-1).diff()
    df['deriv_max'] = roll_range(df['scaled_value'], w)
    df['date'] = list(pd.to_datetime(pd.Series(df.index)).dt.date)
    df['daily_max'] = df.groupby(['date'])['scaled_value'].transform('max')
    df['percent_daily_max'] = df['scaled_value'] / (df['daily_max'] + .00001)
    d = df['first_order_derivative_backward']
    df['deriv_backward_rolling_stdev'] = d.rolling(window=w, center=True).std()
    df['deriv_backward_rolling_mean'] = d.rolling(window=w, center=True).mean()
    df['deriv_backward_rolling_median'] = d.rolling(window=w, center=True).median()
    df['deriv_backward_rolling_max'] = d.rolling(window=w, center=True).max()
    df['deriv_backward_rolling_min'] = d.rolling(window=w, center=True).min()
    return df

def xgb(power, mt):
    model = filtering._load_xgboost_clipping_model()
    p = fmt(power)
    step = int((p.index.to_series().diff() / pd.Timedelta('60s')).mode()[0])
    df = rdtools.normalization.interpolate(p, str(step) + 'min').to_frame()
    df['sampling_frequency'] = step
    if step < 5:
        df = df.resample('5min').mean()
        df['sampling_frequency'] = 5
    df['mounting_config'] = mt
    df = feats(df, step)
    df.loc[df['mounting_config'] == 'single_axis_tracking', 'mounting_config_bool'] = 1
    df.loc[df['mounting_config'] == 'fixed', 'mounting_config_bool'] = 0
    df = df[['first_order_derivative_backward', 'first_order_derivative_forward', 'first_order_derivative_backward_rolling_avg',
             'first_order_derivative_forward_rolling_avg', 'sampling_frequency', 'mounting_config_bool', 'scaled_value', 'rolling_average',
             'daily_max', 'percent_daily_max', 'deriv_max', 'deriv_backward_rolling_stdev', 'deriv_backward_rolling_mean',
             'deriv_backward_rolling_median', 'deriv_backward_rolling_min', 'deriv_backward_rolling_max']].dropna()
    pred = pd.Series(model.predict(df).astype(bool))
    pred.index = df.index
    pred = pred.reindex(index=p.index, method='ffill')
    pred.loc[pred.isnull()] = False
    d = feats(p.to_frame(), step)
    d['xgb_predictions'] = pred.astype(bool)
    part = d[d['xgb_predictions'].fillna(False)]
    hi = part['scaled_value'].resample('D').max().reindex(index=d.index, method='ffill')
    lo = part['scaled_value'].resample('D').min().reindex(index=d.index, method='ffill')
    x = d['scaled_value']
    if step < 5:
        d['daily_clipping_min'] = lo
        d['daily_clipping_max'] = hi
        d['daily_clipping_max_threshold'] = hi * .96
        cutoff = d[['daily_clipping_min', 'daily_clipping_max_threshold']].max(axis=1)
        clip = (cutoff <= x) & (d['percent_daily_max'] >= .9) & (x <= hi * 1.0025) & (x >= .1)
    else:
        clip = (lo <= x) & (d['percent_daily_max'] >= .95) & (x <= hi * 1.0025) & (x >= .1)
    return ~clip.reindex(index=p.index, fill_value=False).astype(bool)

def code_xgb(p: series):
    return xgboost_clip_filter(p, mounting_type='single_axis_tracking')
def spec_xgb(p: series):
    return xgb(p, 'single_axis_tracking')
def code_xgb_default(p: series):
    return xgboost_clip_filter(p)
def spec_xgb_default(p: series):
    return xgb(p, 'fixed')
'''
OP = ('interpolate', '_load_xgboost_clipping_model', 'robust_quantile')
DISPATCH = ('quantile_clip_filter', 'logic_clip_filter', 'xgboost_clip_filter')


def features(t, s):
    """the table each side hands to the classifier, column by column"""
    a, b = ({x.a[2][0] if x.a[2] else x.a[3][0][1] for x in subterms(y) if x.op == 'mcall' and x.a[1] == 'predict' and (x.a[2] or x.a[3])} for y in (t, s))
    if len(a) != 1 or len(b) != 1:
        return
    a, b = a.pop(), b.pop()
    cols = [x.a[1] for x in subterms(b) if x.op == 'sub' and x.a[1].op == 'list' and len(x.a[1].a[0]) > 8]
    for c in cols[0].a[0] if cols else ():
        yield 'feature.' + str(c.a[0]), B.sub(a, c), B.sub(b, c)


def check(ctx):
    for n in ('clip_filter',) + DISPATCH:
        ctx.need('filtering', n)
    ctx.formulas(SPEC, RULE, {'*': {'opaque': OP}, **{k: {'opaque': DISPATCH} for k in ('clip_quantile', 'clip_logic', 'clip_xgb', 'clip_default')},
                              'xgb': {'opaque': OP, 'parts': features}})
