"""Stochastic rate and recovery soiling."""
from .common import *
EXPLAIN, ASSUME = EXPLAIN_F, ASSUME_LIB
RULE = 'rate-and-recovery intermediate and final values equal their reference definition'
HEAD = '''
from rdtools import soiling
from rdtools.soiling import SRRAnalysis
from scipy.stats.mstats import theilslopes

def daily(pm, insolation, precipitation, day_scale, clean_threshold, recenter, crit, precip_threshold, outlier_factor):
    df = pm.to_frame()
    df.columns = ['pi']
    di = insolation.to_frame()
    di.columns = ['insol']
    df = df.join(di)
    if precipitation is not None:
        dp = precipitation.to_frame()
        dp.columns = ['precip']
        df = df.join(dp)
    else:
        df['precip'] = 0
    start = df[~df.pi.isnull()].index[0]
    end = df[~df.pi.isnull()].index[-1]
    df = df[start:end]
    df['day'] = range(len(df))
    if recenter:
        renorm = df.loc[start:start + pd.Timedelta('364d'), 'pi'].median()
    else:
        renorm = 1
    df['pi_norm'] = df['pi'] / renorm
    back = df['pi_norm'].bfill(limit=day_scale)
    forw = df['pi_norm'].ffill(limit=day_scale)
    o1 = (~df['pi_norm'].isnull() & back.shift(-1).isnull())
    o2 = (~df['pi_norm'].isnull() & forw.shift(1).isnull())
    o1.iloc[-1] = False
    o2.iloc[0] = False
    filled = df.ffill(limit=day_scale).copy()
    df['pi_roll_med'] = filled.pi_norm.rolling(day_scale, center=True).median()
    df['delta'] = df.pi_roll_med.diff()
    if clean_threshold == 'infer':
        d = abs(df.delta)
        clean_threshold = d.quantile(0.75) + outlier_factor * (d.quantile(0.75) - d.quantile(0.25))
    df['clean_event_detected'] = (df.delta > clean_threshold)
    rain = (df['precip'] > precip_threshold)
    if crit == 'precip_and_shift':
        rain = rain.rolling(3, center=True, min_periods=1).apply(any).astype(bool)
        df['clean_event'] = (df['clean_event_detected'] & rain)
    elif crit == 'precip_or_shift':
        df['clean_event'] = (df['clean_event_detected'] | rain)
    elif crit == 'precip':
        df['clean_event'] = rain
    else:
        df['clean_event'] = df['clean_event_detected']
    df['clean_event'] = df.clean_event | o1 | o2
    df = df.fillna(0)
    df['run'] = df.clean_event.cumsum()
    df.index.name = 'date'
    return df, renorm

def obs_daily(srr):
    d = srr.daily_df
    return {'renorm': srr.renorm_factor, 'pi_norm': d['pi_norm'], 'insol': d['insol'], 'day': d['day'], 'delta': d['delta'], 'clean_event': d['clean_event'], 'run': d['run']}

def want_daily(d, renorm):
    return {'renorm': renorm, 'pi_norm': d['pi_norm'], 'insol': d['insol'], 'day': d['day'], 'delta': d['delta'], 'clean_event': d['clean_event'], 'run': d['run']}
'''


def daily_pairs():
    out = [HEAD]
    for crit in ('shift', 'precip', 'precip_and_shift', 'precip_or_shift'):
        out.append('''
def code_daily_%(c)s(pm: series, insol: series, precip: series, day_scale: scalar, t: scalar, recenter: bool, pt: scalar, k: scalar):
    srr = SRRAnalysis(pm, insol, precip)
    srr._calc_daily_df(day_scale=day_scale, clean_threshold=t, recenter=recenter, clean_criterion=%(c)r, precip_threshold=pt, outlier_factor=k)
    return obs_daily(srr)
def spec_daily_%(c)s(pm: series, insol: series, precip: series, day_scale: scalar, t: scalar, recenter: bool, pt: scalar, k: scalar):
    d, r = daily(pm, insol, precip, day_scale, t, recenter, %(c)r, pt, k)
    return want_daily(d, r)
''' % {'c': crit})
    out.append('''
def code_daily_infer(pm: series, insol: series, day_scale: scalar, recenter: bool, pt: scalar, k: scalar):
    srr = SRRAnalysis(pm, insol)
    srr._calc_daily_df(day_scale=day_scale, clean_threshold='infer', recenter=recenter, clean_criterion='shift', precip_threshold=pt, outlier_factor=k)
    return obs_daily(srr)
def spec_daily_infer(pm: series, insol: series, day_scale: scalar, recenter: bool, pt: scalar, k: scalar):
    d, r = daily(pm, insol, None, day_scale, 'infer', recenter, 'shift', pt, k)
    return want_daily(d, r)
def code_daily_default(pm: series, insol: series):
    srr = SRRAnalysis(pm, insol)
    srr._calc_daily_df()
    return obs_daily(srr)
def spec_daily_default(pm: series, insol: series):
    d, r = daily(pm, insol, None, 13, 'infer', True, 'shift', 0.01, 1.5)
    return want_daily(d, r)
''')
    return '\n'.join(out)


RESULT = HEAD + '''
def results(daily_df, trim, mrse, mns, mil):
    rows = []
    if trim:
        ids = sorted(list(set(daily_df['run'])))[1:-1]
    else:
        ids = sorted(list(set(daily_df['run'])))
    for r in ids:
        run = daily_df[daily_df['run'] == r]
        length = (run['day'].iloc[-1] - run['day'].iloc[0])
        d0 = run['day'].iloc[0]
        d1 = run['day'].iloc[-1]
        t0 = run.index[0]
        t1 = run.index[-1]
        pos = run[run.pi_norm > 0]
        if not pos.empty:
            run = pos
        row = {'start': t0, 'end': t1, 'length': length, 'run': r, 'run_slope': 0, 'run_slope_low': 0, 'run_slope_high': 0,
               'max_neg_step': min(run.delta), 'start_loss': 1, 'inferred_start_loss': run.pi_norm.mean(),
               'inferred_end_loss': run.pi_norm.mean(), 'valid': False}
        if len(run) > mil and run.pi_norm.sum() > 0:
            fit = theilslopes(run.pi_norm, run.day)
            line = np.poly1d(fit[0:2])
            row['run_slope'] = fit[0]
            row['run_slope_low'] = fit[2]
            row['run_slope_high'] = min([0.0, fit[3]])
            row['inferred_start_loss'] = line(d0)
            row['inferred_end_loss'] = line(d1)
            row['valid'] = True
        rows.append(row)
    res = pd.DataFrame(rows)
    res['slope_err'] = (res.run_slope_high - res.run_slope_low) / abs(res.run_slope)
    bad = (res.run_slope > 0) | (res.slope_err >= mrse / 100.0) | (res.max_neg_step <= -1.0 * mns)
    res.loc[bad, 'run_slope'] = 0
    res.loc[bad, 'run_slope_low'] = 0
    res.loc[bad, 'run_slope_high'] = 0
    res.loc[bad, 'valid'] = False
    res['next_inferred_start_loss'] = np.clip(res[res.valid].inferred_start_loss.shift(-1), 0, 1)
    res['inferred_recovery'] = np.clip(res.next_inferred_start_loss - res.inferred_end_loss, 0, 1)
    out = daily_df[res.start.iloc[0]:res.end.iloc[-1]]
    out = out.reset_index().merge(res, how='left', on='run').set_index('date')
    out['days_since_clean'] = (out.index - out.start).dt.days
    out['loss_perfect_clean'] = (out.start_loss + out.days_since_clean * out.run_slope).fillna(1)
    out['loss_inferred_clean'] = (out.inferred_start_loss + out.days_since_clean * out.run_slope).fillna(1)
    return res, out

def want(res, out):
    return {'run_slope': res['run_slope'], 'run_slope_low': res['run_slope_low'], 'run_slope_high': res['run_slope_high'], 'valid': res['valid'],
            'start': res['start'], 'end': res['end'], 'length': res['length'],
            'inferred_start_loss': res['inferred_start_loss'], 'inferred_end_loss': res['inferred_end_loss'], 'inferred_recovery': res['inferred_recovery'],
            'perfect': out['loss_perfect_clean'], 'inferred': out['loss_inferred_clean'], 'insol': out['insol'], 'run': out['run'], 'days_valid': out['valid']}

def code_result(pm: series, insol: series, d: frame, trim: bool, e: scalar, s: scalar, n: scalar):
    srr = SRRAnalysis(pm, insol)
    srr.daily_df = d
    srr._calc_result_df(trim=trim, max_relative_slope_error=e, max_negative_step=s, min_interval_length=n)
    return want(srr.result_df, srr.analyzed_daily_df)
def spec_result(pm: series, insol: series, d: frame, trim: bool, e: scalar, s: scalar, n: scalar):
    res, out = results(d, trim, e, s, n)
    return want(res, out)
def code_result_default(pm: series, insol: series, d: frame):
    srr = SRRAnalysis(pm, insol)
    srr.daily_df = d
    srr._calc_result_df()
    return want(srr.result_df, srr.analyzed_daily_df)
def spec_result_default(pm: series, insol: series, d: frame):
    res, out = results(d, False, 500.0, 0.05, 7)
    return want(res, out)
'''

MONTE = HEAD + '''
def monte(result_df, analyzed, reps, method):
    losses = []
    profiles = []
    for _ in range(reps):
        rr = result_df.copy()
        dr = analyzed.copy()
        dr = dr[['insol', 'run']]
        rr['run_slope'] = np.random.uniform(rr.run_slope_low, rr.run_slope_high)
        rr['run_loss'] = rr.run_slope * rr.length
        rr['end_loss'] = np.nan
        rr['start_loss'] = np.nan
        gl = []
        g = 0
        for x in rr.valid:
            if x:
                g += 1
            gl.append(g)
        rr['group'] = gl
        level = 1.0
        starts = []
        if (method == 'half_norm_clean') or (method == 'random_clean'):
            vi = rr[rr.valid].copy()
            vi['inferred_recovery'] = vi.inferred_recovery.fillna(1.0)
            ends = []
            for i, row in vi.iterrows():
                starts.append(level)
                end = level + row.run_loss
                ends.append(end)
                if method == 'half_norm_clean':
                    x = np.clip(end + row.inferred_recovery, 0, 1)
                    level = 1 - abs(np.random.normal(0.0, (1 - x) / 3))
                elif method == 'random_clean':
                    level = np.random.uniform(end, 1)
            up = pd.DataFrame()
            up['start_loss'] = starts
            up['end_loss'] = ends
            up.index = vi.index
            rr.update(up)
            rr['previous_end'] = rr.end_loss.ffill()
            rr['next_start'] = rr.start_loss.bfill()
            iv = rr[~rr.valid].copy()
            iv['previous_end'] = iv['previous_end'].fillna(1.0)
            iv['next_start'] = iv['next_start'].fillna(1.0)
            groups = sorted(set(iv.group))
            repl = []
            if len(groups) > 0:
                for g in groups:
                    rows = iv[iv.group == g]
                    n = len(rows)
                    low = rows.iloc[0].previous_end
                    high = rows.iloc[0].next_start
                    lev = np.random.uniform(low, high)
                    repl.append(np.full(n, lev))
                repl = np.concatenate(repl)
                iu = pd.DataFrame()
                iu['start_loss'] = repl
                iu.index = iv.index
                rr.update(iu)
        else:
            for i, row in rr.iterrows():
                starts.append(level)
                level = 1
            rr['start_loss'] = starts
        dr = dr.reset_index().merge(rr, how='left', on='run').set_index('date')
        dr['days_since_clean'] = (dr.index - dr.start).dt.days
        dr['loss'] = dr.start_loss + dr.days_since_clean * dr.run_slope
        dr['soil_insol'] = dr.loss * dr.insol
        losses.append(dr.soil_insol.sum() / dr.insol[~dr.soil_insol.isnull()].sum())
        p = dr['loss'].copy()
        p.name = 'stochastic_soiling_profile'
        profiles.append(p)
    return losses, profiles
''' + '\n'.join('''
def code_monte_%(m)s(pm: series, insol: series, r: frame, d: frame, n: scalar):
    srr = SRRAnalysis(pm, insol)
    srr.result_df = r
    srr.analyzed_daily_df = d
    srr._calc_monte(n, method=%(m)r)
    return srr.monte_losses, srr.random_profiles
def spec_monte_%(m)s(pm: series, insol: series, r: frame, d: frame, n: scalar):
    return monte(r, d, n, %(m)r)
''' % {'m': m} for m in ('half_norm_clean', 'random_clean', 'perfect_clean'))

RUN = HEAD + '''
def info(srr, r):
    i = r[2]
    s = i['soiling_interval_summary']
    return {'renorm': i['renormalizing_factor'], 'profiles': i['stochastic_soiling_profiles'], 'perfect': i['soiling_ratio_perfect_clean'],
            'rate': s['soiling_rate'], 'low': s['soiling_rate_low'], 'high': s['soiling_rate_high'], 'start': s['start'], 'end': s['end'],
            'isl': s['inferred_start_loss'], 'iel': s['inferred_end_loss'], 'length': s['length'], 'valid': s['valid']}

def code_run(pm: series, insol: series, precip: series, n: scalar, ds: scalar, t: scalar, trim: bool, pt: scalar, mi: scalar, p: scalar, L: scalar, rec: bool, e: scalar, s: scalar, k: scalar):
    srr = SRRAnalysis(pm, insol, precip)
    return info(srr, srr.run(reps=n, day_scale=ds, clean_threshold=t, trim=trim, method='random_clean', clean_criterion='precip_or_shift', precip_threshold=pt,
                             min_interval_length=mi, exceedance_prob=p, confidence_level=L, recenter=rec, max_relative_slope_error=e, max_negative_step=s, outlier_factor=k))
def spec_run(pm: series, insol: series, precip: series, n: scalar, ds: scalar, t: scalar, trim: bool, pt: scalar, mi: scalar, p: scalar, L: scalar, rec: bool, e: scalar, s: scalar, k: scalar):
    srr = SRRAnalysis(pm, insol, precip)
    srr._calc_daily_df(day_scale=ds, clean_threshold=t, recenter=rec, clean_criterion='precip_or_shift', precip_threshold=pt, outlier_factor=k)
    srr._calc_result_df(trim=trim, max_relative_slope_error=e, max_negative_step=s, min_interval_length=mi)
    srr._calc_monte(n, method='random_clean')
    r = srr.result_df
    d = srr.analyzed_daily_df
    return {'renorm': srr.renorm_factor, 'profiles': srr.random_profiles, 'perfect': d[d['valid']]['loss_perfect_clean'],
            'rate': r['run_slope'], 'low': r['run_slope_low'], 'high': r['run_slope_high'], 'start': r['start'], 'end': r['end'],
            'isl': r['inferred_start_loss'], 'iel': r['inferred_end_loss'], 'length': r['length'], 'valid': r['valid']}
'''

SUMMARY = HEAD + '''
def code_annual(profiles, insolation_daily: series, L: scalar):
    r = soiling.annual_soiling_ratios(profiles, insolation_daily, confidence_level=L)
    return {k: r[k] for k in ('soiling_ratio_median', 'soiling_ratio_low', 'soiling_ratio_high')}
def spec_annual(profiles, insolation_daily: series, L: scalar):
    pr = pd.concat(profiles, axis=1).dropna()
    w = insolation_daily.reindex(pr.index)
    x = pr.multiply(w, axis=0)
    iw = x.groupby(x.index.year).sum().multiply(1 / w.groupby(w.index.year).sum(), axis=0)
    df = pd.DataFrame({'soiling_ratio_median': iw.quantile(0.5, axis=1), 'soiling_ratio_low': iw.quantile(0.5 - L / 200, axis=1),
            'soiling_ratio_high': iw.quantile(0.5 + L / 200, axis=1)})
    df.index.name = 'year'
    df = df.reset_index()
    return {k: df[k] for k in ('soiling_ratio_median', 'soiling_ratio_low', 'soiling_ratio_high')}

def month_days(start, end):
    ms = [x.month for x in pd.date_range(start, end)]
    out = {}
    for m in range(1, 13):
        out[m] = ms.count(m)
    return out

def monthly(s, mil, e, reps, L):
    rel = 100 * abs((s['soiling_rate_high'] - s['soiling_rate_low']) / s['soiling_rate'])
    iv = s[(s['length'] >= mil) & (s['valid']) & (rel <= e)].copy()
    counts = []
    for _, row in iv.iterrows():
        counts.append(month_days(row['start'], row['end']))
    for m in range(1, 13):
        d = np.array([x[m] for x in counts])
        col = f'samples_for_month_{m}'
        if d.sum() > 0:
            iv[col] = np.ceil(d / d.sum() * reps)
        else:
            iv[col] = 0
        iv[col] = iv[col].astype(int)
    data = []
    n = []
    for m in range(1, 13):
        rates = []
        col = f'samples_for_month_{m}'
        rel = iv[iv[col] > 0]
        for _, row in rel.iterrows():
            rates.append(np.random.uniform(row['soiling_rate_low'], row['soiling_rate_high'], row[col]))
        rates = [x for sublist in rates for x in sublist]
        if rates:
            data.append(np.quantile(rates, [0.5, 0.5 - L / 200, 0.5 + L / 200]))
        else:
            data.append(np.array([np.nan] * 3))
        n.append(len(rel))
    data = np.array(data)
    df = pd.DataFrame(data=data, columns=['soiling_rate_median', 'soiling_rate_low', 'soiling_rate_high'])
    df.insert(0, 'month', range(1, 13))
    df['interval_count'] = n
    return df

def code_monthly(s: frame, mil: scalar, e: scalar, reps: scalar, L: scalar):
    return soiling.monthly_soiling_rates(s, min_interval_length=mil, max_relative_slope_error=e, reps=reps, confidence_level=L)
def spec_monthly(s: frame, mil: scalar, e: scalar, reps: scalar, L: scalar):
    return monthly(s, mil, e, reps, L)
def code_monthly_default(s: frame):
    return soiling.monthly_soiling_rates(s)
def spec_monthly_default(s: frame):
    return monthly(s, 14, 500.0, 100000, 68.2)
'''


def check(ctx):
    ctx.need('soiling', 'SRRAnalysis.run')
    ctx.formulas(daily_pairs(), RULE)
    ctx.formulas(RESULT, RULE)
    ctx.formulas(MONTE, RULE)
    ctx.formulas(RUN, RULE)
    ctx.formulas(SUMMARY, RULE)
