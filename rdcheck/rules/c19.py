"""Availability accounting."""
from .common import *
EXPLAIN, ASSUME = EXPLAIN_F, ASSUME_LIB
RULE = 'availability quantities equal their definitions'
SPEC = '''
import rdtools
from rdtools.availability import AvailabilityAnalysis
from scipy.interpolate import interp1d

def subsystem(ps, pss, low, sizes, limit):
    pss = pss.fillna(0)
    ps = ps.clip(lower=0)
    if low is None:
        low = pss.quantile(0.99) / 1000
    online = pss > low
    rep = pss[online]
    if sizes is None:
        sizes = rep.divide(rep.mean(axis=1), axis=0).median()
    else:
        sizes = pd.Series(sizes)
    full = rep.divide(sizes, axis=1).mean(axis=1) * pss.shape[1]
    delta = 1 - ps / full
    frac = sizes / sizes.sum()
    smallest = pss.le(low).replace(False, None).multiply(frac).min(axis=1).astype(float).fillna(1.0)
    down = delta > (0.75 * smallest)
    down[online.all(axis=1)] = False
    lowest = online.multiply(frac).sum(axis=1)
    f = (ps / full).clip(lower=lowest, upper=1)
    loss = (1 - f) / f * ps
    loss[~down] = 0
    if limit is not None:
        over = loss + ps > limit
        loss.loc[over] = (limit - ps[over]).clip(lower=0)
    return online, loss.fillna(0)

def errors(ps, pe, ec, loss_sub, q):
    df = pd.DataFrame({'Meter_kW': ps, 'Expected Power': pe, 'Meter_kWh': ec})
    normal = (loss_sub == 0) & (ps > 0)
    subset = normal & (df['Expected Power'] > 0)
    tot = df.loc[subset, ['Expected Power', 'Meter_kW']].sum()
    df['Expected Power'] /= tot['Expected Power'] / tot['Meter_kW']
    df['Expected Energy'] = rdtools.energy_from_power(df['Expected Power'])
    df['Meter_kWh_interval'] = rdtools.energy_from_power(df['Meter_kW'])
    part = df.loc[subset, :]
    out = []
    for n in 2**np.arange(1, int(np.log2(len(part))), 1):
        w = part.rolling(window=n, center=True).sum()
        a = w['Meter_kWh_interval']
        e = w['Expected Energy']
        out.append(pd.DataFrame({'actual': a[~np.isnan(a)], 'expected': e[~np.isnan(e)], 'window length': n}))
    err = pd.concat(out)
    err['error'] = err['actual'] / err['expected'] - 1
    g = err.groupby('window length')['error']
    lo = g.quantile(q[0])
    hi = g.quantile(q[1])
    def ip(s):
        return interp1d(s.index, s.values, fill_value=(s.values[0], s.values[-1]), bounds_error=False)
    return df['Expected Power'], df['Expected Energy'], err, lambda n: float(ip(lo)(n)), lambda n: float(ip(hi)(n))

def system(ps, pe, ec, online, loss_sub, per, eer, ilo, ihi):
    off = ~online.any(axis=1)
    times = ps.index
    m = off[pe > 0].reindex(times)
    fw = m.ffill()
    fw.loc[fw.isnull()] = False
    bw = m.bfill()
    bw.loc[bw.isnull()] = False
    full = fw | bw
    diff = full.astype(int).diff()
    starts = times[diff == 1].tolist()
    ends = times[diff.shift(-1) == -1].tolist()
    steps = diff[~diff.isnull() & (diff != 0)]
    if not steps.empty:
        if steps.iloc[0] == -1:
            starts.insert(0, times[0])
        if steps.iloc[-1] == 1:
            ends.append(times[-1])
    rows = []
    for start, end in zip(starts, ends):
        p = per[start:end]
        n = (p > 0).sum()
        e = eer[start:end]
        prev = times[times.get_loc(start)-1]
        rows.append({'start': start, 'end': end, 'duration': end - start, 'intervals': len(p), 'daylight_intervals': n,
                     'error_lower': ilo(n), 'error_upper': ihi(n), 'energy_expected': e.sum(), 'energy_start': ec[prev], 'energy_end': ec[end]})
    o = pd.DataFrame(rows, columns=['start', 'end', 'duration', 'intervals', 'daylight_intervals', 'error_lower', 'error_upper',
                                    'energy_expected', 'energy_start', 'energy_end'])
    o['energy_actual'] = o['energy_end'] - o['energy_start']
    o.loc[o['energy_actual'] < -0.05 * o['energy_expected'], 'energy_actual'] = np.nan
    o['ci_lower'] = (1 + o['error_lower']) * o['energy_expected']
    o['ci_upper'] = (1 + o['error_upper']) * o['energy_expected']
    o['type'] = np.where(o['energy_actual'] < o['ci_lower'], 'real', 'comms')
    o.loc[o['energy_actual'].isnull(), 'type'] = 'unknown'
    o['loss'] = np.where(o['type'] == 'real', o['energy_expected'] - o['energy_actual'], 0)
    o.loc[o['type'] == 'unknown', 'loss'] = np.nan
    lost = pd.Series(0, index=loss_sub.index, dtype=float)
    corr = ec.copy()
    for i, row in o.iterrows():
        seg = pe.loc[row['start']:row['end']].copy()
        en = rdtools.energy_from_power(seg)
        lost.loc[seg.index] += seg * row['loss'] / en.sum()
        prod = en.cumsum() * (row['energy_actual'] / en.sum())
        corr.loc[row['start']:row['end']] = row['energy_start'] + prod
    return o, lost, corr

def rollup(loss, corr, period):
    r = corr.resample(period)
    actual = r.last() - r.first()
    lost = rdtools.energy_from_power(loss).resample(period).sum()
    df = pd.DataFrame({'lost_production': lost, 'actual_production': actual})
    df['availability'] = 1 - df['lost_production'] / (df['lost_production'] + df['actual_production'])
    return df

def ref(ps, pss, ec, pe, low, sizes, limit, q, period):
    online, ls = subsystem(ps, pss, low, sizes, limit)
    per, eer, err, ilo, ihi = errors(ps, pe, ec, ls, q)
    o, lost, corr = system(ps, pe, ec, online, ls, per, eer, ilo, ihi)
    total = lost + ls
    d = {'loss_subsystem': ls, 'loss_system': lost, 'loss_total': total, 'corrected': corr, 'online': online, 'power_rescaled': per,
         'energy_rescaled': eer, 'results': rollup(total, corr, period)}
    for k in ('actual', 'expected', 'window length', 'error'):
        d['err ' + k] = err[k]
    for k in COLS:
        d['outage ' + k] = o[k]
    return d

COLS = ('start', 'end', 'duration', 'intervals', 'daylight_intervals', 'error_lower', 'error_upper', 'energy_expected', 'energy_start',
        'energy_end', 'energy_actual', 'ci_lower', 'ci_upper', 'type', 'loss')

def read(a):
    d = {'loss_subsystem': a.loss_subsystem, 'loss_system': a.loss_system, 'loss_total': a.loss_total, 'corrected': a.energy_cumulative_corrected,
         'online': a.reporting_mask, 'power_rescaled': a.power_expected_rescaled, 'energy_rescaled': a.energy_expected_rescaled, 'results': a.results}
    for k in ('actual', 'expected', 'window length', 'error'):
        d['err ' + k] = a.error_info[k]
    for k in COLS:
        d['outage ' + k] = a.outage_info[k]
    return d

def code_run(ps: series, pss: frame, ec: series, pe: series, low: scalar, sizes: dict, limit: scalar, q, period: str):
    a = AvailabilityAnalysis(ps, pss, ec, pe)
    a.run(low, sizes, limit, q, period)
    return read(a)
def spec_run(ps: series, pss: frame, ec: series, pe: series, low: scalar, sizes: dict, limit: scalar, q, period: str):
    return ref(ps, pss, ec, pe, low, sizes, limit, q, pd.tseries.offsets.MonthEnd() if period == 'ME' else period)

def code_default(ps: series, pss: frame, ec: series, pe: series):
    a = AvailabilityAnalysis(ps, pss, ec, pe)
    a.run()
    return read(a)
def spec_default(ps: series, pss: frame, ec: series, pe: series):
    return ref(ps, pss, ec, pe, None, None, None, (0.01, 0.99), pd.tseries.offsets.MonthEnd())
'''


def check(ctx):
    ctx.need('availability', 'AvailabilityAnalysis.run')
    ctx.formulas(SPEC, RULE, {'*': {'opaque': ('energy_from_power',)}})
