"""Consistency of the combined soiling/degradation decomposition."""
from .common import *
EXPLAIN, ASSUME = EXPLAIN_F, ASSUME_LIB
RULE = 'decomposition outputs satisfy the identities that define them'
ITER = '''
from rdtools.soiling import CODSAnalysis
from rdtools import soiling
from statsmodels.tsa.stattools import adfuller

def rmse(y, m):
    ok = ~np.isnan(m)
    return np.sqrt(np.mean((m[ok] - y[ok]) ** 2))

def run(pm, method, significance):
    c = CODSAnalysis(pm)
    df, d = c.iterative_signal_decomposition(degradation_method=method, soiling_significance=significance)
    return c, df, d

def code_iter(pm: series, method: str, significance: scalar):
    c, df, d = run(pm, method, significance)
    return {'residuals': df['residuals'], 'total_model': df['total_model'], 'residual_shift': d['residual_shift'],
            'soiling_loss': d['soiling_loss'], 'RMSE': d['RMSE'], 'adf_res': d['adf_res'], 'small': d['small_soiling_signal']}
def spec_iter(pm: series, method: str, significance: scalar):
    c, df, d = run(pm, method, significance)
    base = df['soiling_ratio'] * df['seasonal_component'] * df['degradation_trend']
    res = c.pm / base
    shift = res.mean()
    sr = df['soiling_ratio']
    strength = float(np.diff(sr.quantile([.1, .9]))) / float(np.diff(res.quantile([.1, .9])))
    return {'residuals': res, 'total_model': base * shift, 'residual_shift': shift, 'soiling_loss': 100 * (1 - sr).mean(),
            'RMSE': rmse(c.pm, base * shift), 'adf_res': adfuller(res.dropna(), regression='ctt', autolag=None),
            'small': strength < significance}

def code_rmse(y: series, m: series):
    return soiling._RMSE(y, m)
def spec_rmse(y: series, m: series):
    return rmse(y, m)
'''
BOOT = '''
from rdtools.soiling import CODSAnalysis
from rdtools import soiling
from statsmodels.tsa.stattools import adfuller

def rmse(y, m):
    ok = ~np.isnan(m)
    return np.sqrt(np.mean((m[ok] - y[ok]) ** 2))

def run(pm, reps, L, method):
    c = CODSAnalysis(pm)
    df, deg, loss = c.run_bootstrap(reps=reps, confidence_level=L, degradation_method=method)
    return c, df, deg, loss

def code_boot(pm: series, reps: scalar, L: scalar, method: str):
    c, df, deg, loss = run(pm, reps, L, method)
    return {'residuals': pick(c, df['residuals'], 0), 'total_model': pick(c, df['total_model'], 0), 'residual_shift': pick(c, c.residual_shift, 0),
            'degradation_trend': pick(c, df['degradation_trend'], 0), 'RMSE': pick(c, c.RMSE, 0), 'adf': pick(c, c.adf_results, 0),
            'stored_df': c.result_df['soiling_ratio'], 'stored_degradation': c.degradation, 'stored_loss': c.soiling_loss}
def pick(c, x, y):
    return y if c.small_soiling_signal else x
def spec_boot(pm: series, reps: scalar, L: scalar, method: str):
    c, df, deg, loss = run(pm, reps, L, method)
    trend = 1 + np.arange(len(c.pm)) * deg[0] / 100 / 365
    base = df['soiling_ratio'] * df['seasonal_component'] * df['degradation_trend']
    res = c.pm / base
    shift = res.mean()
    return {'residuals': pick(c, res, 0), 'total_model': pick(c, base * shift, 0), 'residual_shift': pick(c, shift, 0),
            'degradation_trend': pick(c, trend, 0), 'RMSE': pick(c, rmse(c.pm, base * shift), 0),
            'adf': pick(c, adfuller(res.dropna(), regression='ctt', autolag=None), 0),
            'stored_df': df['soiling_ratio'], 'stored_degradation': deg, 'stored_loss': loss}

def code_cods(pm: series, reps: scalar, L: scalar, method: str):
    sr, ci, rd, rd_ci, df = soiling.soiling_cods(pm, reps=reps, confidence_level=L, degradation_method=method)
    return {'sr': sr, 'low': ci[0], 'high': ci[1], 'rd': rd, 'rd_low': rd_ci[0], 'rd_high': rd_ci[1], 'df': df['soiling_ratio']}
def spec_cods(pm: series, reps: scalar, L: scalar, method: str):
    c, df, deg, loss = run(pm, reps, L, method)
    return {'sr': 1 - loss[0] / 100, 'low': 1 - loss[2] / 100, 'high': 1 - loss[1] / 100, 'rd': deg[0], 'rd_low': deg[1], 'rd_high': deg[2],
            'df': df['soiling_ratio']}
'''

FULL = '''
import itertools
from rdtools.soiling import CODSAnalysis
from rdtools import soiling, degradation
from rdtools.bootstrap import _make_time_series_bootstrap_samples

def ref(c, reps, L, method, noise, orders, cs, ps, ff, seed):
    pi = c.pm
    alts = [orders, cs, ps, ff]
    index_list = list(itertools.product([0, 1], repeat=4))
    combos = [[alts[j][ix[j]] for j in range(4)] for ix in index_list]
    nm = len(index_list)
    samples, fits, results = [], [], []
    if reps % nm != 0:
        reps += nm - reps % nm
    for n, (order, dt, pt, f) in enumerate(combos):
        try:
            df_out, rd = c.iterative_signal_decomposition(
                max_iterations=18, order=order, clip_soiling=True, cleaning_sensitivity=dt, pruning_iterations=1,
                clean_pruning_sensitivity=pt, process_noise=noise, ffill=f, degradation_method=method)
            fits.append(df_out)
            results.append(rd)
            if rd['adf_res'][1] < .05:
                samples.append(_make_time_series_bootstrap_samples(pi, df_out.total_model, sample_nr=int(reps / nm), bootstrap_seed=seed))
        except ValueError as ex:
            print(ex)
    adfs = np.array([(r['adf_res'][0] if r['adf_res'][1] < 0.05 else 0) for r in results])
    w = 1 / np.array([r['RMSE'] for r in results]) / (1 + np.array([(df.soiling_ratio == 1).mean() for df in fits]))
    w = w / np.sum(w)
    small = [r['small_soiling_signal'] for r in results]
    if np.sum(adfs == 0) > nm / 2:
        raise RuntimeError('x')
    best = fits[np.argmax(w)]
    if np.sum(small) > nm / 2:
        y = degradation.degradation_year_on_year(pi)
        return {'small': True, 'deg': [y[0], y[1][0], y[1][1]], 'loss': [0, 0, (1 - best.soiling_ratio).mean() * 100], 'df': best, 'w': w}
    allb = pd.concat(samples, axis=1, ignore_index=True)
    per = int(reps / nm)
    seas = soiling._make_seasonal_samples([fits[m].seasonal_component for m in range(nm) if w[m] > 0], sample_nr=per,
                                          min_multiplier=.8, max_multiplier=1.75, max_shift=30)
    order = ('SR', 'SC' if method == 'STL' else 'Rd')
    kdfs, SL, deg, RM, SR1 = [], [], [], [], []
    for b in range(reps):
        try:
            dt = np.random.uniform(cs[0], cs[-1])
            pt = np.random.uniform(ps[0], ps[-1])
            pn = np.random.uniform(noise / 1.5, noise * 1.5)
            ren = np.random.choice([None, np.random.uniform(.5, .95)])
            fl = np.random.choice([True, False])
            tmp = CODSAnalysis(allb[b] / seas[b])
            kdf, rd = tmp.iterative_signal_decomposition(
                max_iterations=4, order=order, clip_soiling=True, cleaning_sensitivity=dt, pruning_iterations=1,
                clean_pruning_sensitivity=pt, process_noise=pn, renormalize_SR=ren, ffill=fl, degradation_method=method)
            if rd['adf_res'][1] < .05:
                kdfs.append(kdf)
                RM.append(rd['RMSE'])
                deg.append(rd['degradation'])
                SL.append(rd['soiling_loss'])
                SR1.append((kdf.soiling_ratio == 1).mean())
            else:
                seas.drop(columns=[b], inplace=True)
        except ValueError as ve:
            seas.drop(columns=[b], inplace=True)
    w = 1 / np.array(RM) / (1 + np.array(SR1))
    w = w / np.sum(w)
    lo, hi = (50 - L / 2) / 100, (50 + L / 2) / 100
    tm = pd.concat([k.total_model for k in kdfs], axis=1)
    sr = pd.concat([k.soiling_ratio for k in kdfs], axis=1)
    ra = pd.concat([k.soiling_rates for k in kdfs], axis=1)
    ce = pd.concat([k.cleaning_events for k in kdfs], axis=1)
    df = df_out
    df['SR_low'] = sr.quantile(lo, axis=1)
    df['SR_high'] = sr.quantile(hi, axis=1)
    df['rates_low'] = ra.quantile(lo, axis=1)
    df['rates_high'] = ra.quantile(hi, axis=1)
    df.soiling_ratio = df.soiling_ratio.clip(lower=0, upper=1)
    df.loc[df.soiling_ratio.diff() == 0, 'soiling_rates'] = 0
    df['bt_soiling_ratio'] = (sr * w).sum(axis=1)
    df['bt_soiling_rates'] = (ra * w).sum(axis=1)
    df['cleaning_events'] = (ce * w).sum(axis=1)
    df['seasonal_component'] = (seas * w).sum(axis=1)
    df['seasonal_low'] = seas.quantile(lo, axis=1)
    df['seasonal_high'] = seas.quantile(hi, axis=1)
    df['model_low'] = tm.quantile(lo, axis=1)
    df['model_high'] = tm.quantile(hi, axis=1)
    return {'small': False, 'deg': [np.dot(deg, w), np.quantile(deg, lo), np.quantile(deg, hi)],
            'loss': [np.dot(SL, w), np.quantile(SL, lo), np.quantile(SL, hi)], 'df': df, 'w': w}

COLS = ['SR_low', 'SR_high', 'rates_low', 'rates_high', 'bt_soiling_ratio', 'bt_soiling_rates', 'cleaning_events', 'soiling_ratio',
        'soiling_rates', 'seasonal_component', 'seasonal_low', 'seasonal_high', 'model_low', 'model_high']

def table(small, df):
    return {k: (0 if small else df[k]) for k in COLS}

def code_full(pm: series, reps: scalar, L: scalar, method: str, noise: scalar, orders, cs, ps, ff, seed: scalar):
    c = CODSAnalysis(pm)
    df, deg, loss = c.run_bootstrap(reps=reps, confidence_level=L, degradation_method=method, process_noise=noise, order_alternatives=orders,
                                    cleaning_sensitivity_alternatives=cs, clean_pruning_sensitivity_alternatives=ps,
                                    forward_fill_alternatives=ff, bootstrap_seed=seed)
    return {'small': c.small_soiling_signal, 'rate': deg[0], 'rate_low': deg[1], 'rate_high': deg[2], 'loss': loss[0], 'loss_low': loss[1],
            'loss_high': loss[2], 'df': table(c.small_soiling_signal, df)}
def spec_full(pm: series, reps: scalar, L: scalar, method: str, noise: scalar, orders, cs, ps, ff, seed: scalar):
    c = CODSAnalysis(pm)
    r = ref(c, reps, L, method, noise, orders, cs, ps, ff, seed)
    return {'small': r['small'], 'rate': r['deg'][0], 'rate_low': r['deg'][1], 'rate_high': r['deg'][2], 'loss': r['loss'][0],
            'loss_low': r['loss'][1], 'loss_high': r['loss'][2], 'df': table(r['small'], r['df'])}

def code_full_default(pm: series):
    c = CODSAnalysis(pm)
    df, deg, loss = c.run_bootstrap()
    return {'small': c.small_soiling_signal, 'rate': deg[0], 'rate_low': deg[1], 'rate_high': deg[2], 'loss': loss[0], 'loss_low': loss[1],
            'loss_high': loss[2], 'df': table(c.small_soiling_signal, df)}
def spec_full_default(pm: series):
    c = CODSAnalysis(pm)
    r = ref(c, 512, 68.2, 'YoY', 1e-4, (('SR', 'SC', 'Rd'), ('SC', 'SR', 'Rd')), (.25, .75), (1 / 1.5, 1.5), (True, False), None)
    return {'small': r['small'], 'rate': r['deg'][0], 'rate_low': r['deg'][1], 'rate_high': r['deg'][2], 'loss': r['loss'][0],
            'loss_low': r['loss'][1], 'loss_high': r['loss'][2], 'df': table(r['small'], r['df'])}
'''

LOOP = '''
from rdtools.soiling import CODSAnalysis
from rdtools import soiling, degradation
from statsmodels.tsa.seasonal import STL
import statsmodels.api as sm

def rmse(y, m):
    ok = ~np.isnan(m)
    return np.sqrt(np.mean((m[ok] - y[ok]) ** 2))

def ref(c, order, method, maxit, cs, crit, prune, cps, noise, ren, ffill, clip):
    pi = c.pm
    if method == 'STL' and 'Rd' in order:
        order = tuple([x for x in order if x != 'Rd'])
    if 'SR' not in order:
        raise ValueError('x')
    n = len(order)
    day = np.arange(len(pi))
    trend, season, ratio, dfs, yoys = [1], [1], [1], [], [0]
    res = pi
    shift = 1
    metric = [rmse(pi, np.ones((len(pi),)))]
    ce, rm = soiling._rolling_median_ce_detection(pi.index, pi, ffill=ffill, tuner=cs)
    pce = soiling._collapse_cleaning_events(ce, rm.diff().values, 5)
    perfect = True
    ic = 0
    while ic < maxit:
        ic += 1
        if order[(ic - 1) % n] == 'SR':
            if ic > 2:
                pce = dfs[-1].cleaning_events.copy()
                cs *= 1.2
                ce, rm = soiling._rolling_median_ce_detection(pi.index, res, ffill=ffill, tuner=cs)
                ce = soiling._collapse_cleaning_events(ce, rm.diff().values, 5)
                pce[ce] = True
                cps /= 1.1
            kdf, Ps = c._Kalman_filter_for_SR(zs_series=pi / trend[-1] / season[-1] / shift, clip_soiling=clip, prescient_cleaning_events=pce,
                                              pruning_iterations=prune, clean_pruning_sensitivity=cps, perfect_cleaning=perfect,
                                              process_noise=noise, renormalize_SR=ren, ffill=ffill)
            ratio.append(kdf.soiling_ratio)
            dfs.append(kdf)
        if order[(ic - 1) % n] == 'SC':
            sd = pi / ratio[-1]
            if sd.isna().sum() > 0:
                sd.interpolate('linear', inplace=True)
            sd = sd.apply(np.log)
            stl = STL(sd, period=365, seasonal=999999, seasonal_deg=0, trend_deg=0, robust=True, low_pass_jump=30, seasonal_jump=30,
                      trend_jump=365).fit()
            smooth = sm.nonparametric.lowess(stl.seasonal.apply(np.exp), pi.index, is_sorted=True, delta=30, frac=180 / len(pi), return_sorted=False)
            season.append(soiling._force_periodicity(smooth, sd.index, pi.index))
            if method == 'STL':
                t = pd.Series(index=pi.index, data=stl.trend.apply(np.exp))
                trend.append(t / t.iloc[0])
                yoys.append(degradation.degradation_year_on_year(trend[-1], uncertainty_method=None))
        if order[(ic - 1) % n] == 'Rd':
            y = degradation.degradation_year_on_year(pi / season[-1] / ratio[-1], uncertainty_method=None)
            trend.append(pd.Series(index=pi.index, data=(1 + day * y / 100 / 365.0)))
            yoys.append(y)
        model = trend[-1] * season[-1] * ratio[-1]
        res = pi / model
        shift = res.mean()
        metric.append(rmse(pi, model * shift))
        if ic >= n:
            gain = (metric[-n - 1] - metric[-1]) / metric[-n - 1]
            if perfect and (ic >= maxit / 2 or gain < crit):
                perfect = False
                order = tuple([order[(i + n - 1 - (ic - 1) % n) % n] for i in range(n)])
                change = ic
            elif (not perfect and (ic >= maxit or (ic >= change + n and gain < crit))):
                ic = maxit
    return trend[-1], season[-1], dfs[-1], yoys[-1]

def code_loop(pm: series, order, method: str, maxit: scalar, cs: scalar, crit: scalar, prune: scalar, cps: scalar, noise: scalar, ren: scalar, ffill: bool, clip: bool):
    c = CODSAnalysis(pm)
    df, d = c.iterative_signal_decomposition(order=order, degradation_method=method, max_iterations=maxit, cleaning_sensitivity=cs,
        convergence_criterion=crit, pruning_iterations=prune, clean_pruning_sensitivity=cps, process_noise=noise, renormalize_SR=ren, ffill=ffill,
        clip_soiling=clip)
    return {'trend': df['degradation_trend'], 'season': df['seasonal_component'], 'ratio': df['soiling_ratio'], 'rates': df['soiling_rates'],
            'events': df['cleaning_events'], 'rate': d['degradation']}
def spec_loop(pm: series, order, method: str, maxit: scalar, cs: scalar, crit: scalar, prune: scalar, cps: scalar, noise: scalar, ren: scalar, ffill: bool, clip: bool):
    c = CODSAnalysis(pm)
    t, s, k, y = ref(c, order, method, maxit, cs, crit, prune, cps, noise, ren, ffill, clip)
    return {'trend': t, 'season': s, 'ratio': k.soiling_ratio, 'rates': k.soiling_rates, 'events': k.cleaning_events, 'rate': y}

def code_loop_default(pm: series):
    c = CODSAnalysis(pm)
    df, d = c.iterative_signal_decomposition()
    return {'trend': df['degradation_trend'], 'season': df['seasonal_component'], 'ratio': df['soiling_ratio'], 'rates': df['soiling_rates'],
            'events': df['cleaning_events'], 'rate': d['degradation']}
def spec_loop_default(pm: series):
    c = CODSAnalysis(pm)
    t, s, k, y = ref(c, ('SR', 'SC', 'Rd'), 'YoY', 18, .5, 5e-3, 1, .6, 1e-4, None, True, True)
    return {'trend': t, 'season': s, 'ratio': k.soiling_ratio, 'rates': k.soiling_rates, 'events': k.cleaning_events, 'rate': y}
'''
HELP = '''
from rdtools import soiling

def code_ce(x, y: series, ffill: bool, w: scalar, k: scalar):
    return soiling._rolling_median_ce_detection(x, y, ffill=ffill, rolling_window=w, tuner=k)
def spec_ce(x, y: series, ffill: bool, w: scalar, k: scalar):
    z = pd.Series(index=x, data=y).astype(float)
    rm = (z.ffill() if ffill else z.bfill()).rolling(w, center=True).median()
    d = rm.diff()
    q3, q1 = d.abs().quantile(.75), d.abs().quantile(.25)
    return d > q3 + k * (q3 - q1), rm

def code_se(x, y: series, ffill: bool, k: scalar):
    return soiling._soiling_event_detection(x, y, ffill=ffill, tuner=k)
def spec_se(x, y: series, ffill: bool, k: scalar):
    z = pd.Series(index=x, data=y).astype(float)
    rm = (z.ffill() if ffill else z.bfill()).rolling(9, center=True).median()
    d = rm.diff()
    q3, q1 = d.abs().quantile(.99), d.abs().quantile(.01)
    return d < q1 - k * (q3 - q1)

def code_out_lower(x: series, k: scalar):
    return soiling._find_numeric_outliers(x, k, 'lower')
def spec_out_lower(x: series, k: scalar):
    q3, q1 = np.quantile(x, .75), np.quantile(x, .25)
    return x < q1 - k * (q3 - q1)

def code_seasonal(scs, n: scalar, lo: scalar, hi: scalar, shift: scalar):
    return soiling._make_seasonal_samples(scs, sample_nr=n, min_multiplier=lo, max_multiplier=hi, max_shift=shift)
def spec_seasonal(scs, n: scalar, lo: scalar, hi: scalar, shift: scalar):
    out = pd.DataFrame(index=scs[0].index, columns=range(int(n * len(scs))), dtype=float)
    for i, s in enumerate(scs):
        m = s.mean()
        ym = s.rename('values').to_frame().assign(doy=s.index.dayofyear, year=s.index.year).pivot(index='doy', columns='year', values='values')
        med = ym.median(axis=1)
        for j in range(n):
            k = np.random.uniform(lo, hi)
            d = np.random.randint(-shift, shift)
            sh = pd.Series(index=s.index, data=med.reindex((s.index.dayofyear - d) % 365 + 1).values)
            out.loc[:, i * n + j] = k * (sh - m) + 1
    return out
'''
KALMAN = '''
from rdtools.soiling import CODSAnalysis
from rdtools import soiling
from scipy.stats.mstats import theilslopes
import bisect
from filterpy.kalman import KalmanFilter
from filterpy.common import Q_discrete_white_noise

def kalman(c, zs_series, process_noise, pruning_iterations, clean_pruning_sensitivity, renormalize_SR, perfect_cleaning,
           prescient_cleaning_events, clip_soiling, ffill):
    zs_std, rate_std, max_soiling_rates = .05, .005, .0005
    zs_series = zs_series.copy()  # Make copy, so as not to change input
    zs_series = zs_series.astype(float)
    original_index = zs_series.index.copy()
    if (original_index.dtype not in [int, 'int64']):
        zs_series.index = range(len(zs_series))
    if isinstance(prescient_cleaning_events, list):
        cleaning_events = prescient_cleaning_events
    else:
        if (isinstance(prescient_cleaning_events, type(zs_series)) and
                (prescient_cleaning_events.sum() > 4)):
            if len(prescient_cleaning_events) == len(zs_series):
                prescient_cleaning_events = prescient_cleaning_events.copy()
                prescient_cleaning_events.index = zs_series.index
            else:
                raise ValueError(
                    "The indices of prescient_cleaning_events must correspond to the" +
                    " indices of zs_series; they must be of the same length")
        else:  # If no prescient cleaning events, detect cleaning events
            ce, rm9 = soiling._rolling_median_ce_detection(
                zs_series.index, zs_series, ffill=ffill, tuner=0.5)
            prescient_cleaning_events = \
                soiling._collapse_cleaning_events(ce, rm9.diff().values, 5)
        cleaning_events = prescient_cleaning_events[prescient_cleaning_events].index.tolist()
    soiling_events = soiling._soiling_event_detection(
        zs_series.index, zs_series, ffill=ffill, tuner=5)
    soiling_events = soiling_events[soiling_events].index.tolist()
    if ffill:
        rolling_median_13 = \
            zs_series.ffill().rolling(13, center=True).median().ffill().bfill()
        rolling_median_7 = \
            zs_series.ffill().rolling(7, center=True).median().ffill().bfill()
    else:
        rolling_median_13 = \
            zs_series.bfill().rolling(13, center=True).median().ffill().bfill()
        rolling_median_7 = \
            zs_series.bfill().rolling(7, center=True).median().ffill().bfill()
    measurement_noise = (rolling_median_13 - zs_series).var()
    initial_slope = np.array(theilslopes(zs_series.bfill().iloc[:14]))
    dt = 1  # All time stemps are one day
    f = c._initialize_univariate_model(zs_series, dt, process_noise,
                                          measurement_noise, rate_std,
                                          zs_std, initial_slope)
    dfk = pd.DataFrame(index=zs_series.index, dtype=float,
                       columns=['raw_pi', 'raw_rates', 'smooth_pi',
                                'smooth_rates', 'soiling_ratio',
                                'soiling_rates', 'cleaning_events',
                                'days_since_ce'])
    dfk['cleaning_events'] = False
    Xs, Ps, rate_std, zs_std = c._forward_pass(
        f, zs_series, rolling_median_7, cleaning_events, soiling_events)
    dfk, Xs, Ps = c._smooth_results(
        dfk, f, Xs, Ps, zs_series, cleaning_events, soiling_events,
        perfect_cleaning)
    counter = 0
    while counter < pruning_iterations:
        counter += 1
        ce_0 = cleaning_events.copy()
        if len(ce_0) > 0:
            rm_smooth_pi = dfk.smooth_pi.rolling(7).median().shift(-6)
            pi_after_cleaning = rm_smooth_pi.loc[cleaning_events]
            false_positives = soiling._find_numeric_outliers(pi_after_cleaning,
                                                     clean_pruning_sensitivity, 'lower')
            cleaning_events = \
                false_positives[~false_positives].index.tolist()
        if (dfk.smooth_rates > max_soiling_rates).sum() > 1:
            exceeding_rates = dfk.smooth_rates > max_soiling_rates
            new_cleaning_events = soiling._collapse_cleaning_events(
                exceeding_rates, dfk.smooth_rates, 4)
            cleaning_events.extend(
                new_cleaning_events[new_cleaning_events].index)
            cleaning_events.sort()
        if not ce_0 == cleaning_events:
            f = c._initialize_univariate_model(zs_series, dt,
                                                  process_noise,
                                                  measurement_noise,
                                                  rate_std, zs_std,
                                                  initial_slope)
            Xs, Ps, rate_std, zs_std = c._forward_pass(
                f, zs_series, rolling_median_7, cleaning_events,
                soiling_events)
            dfk, Xs, Ps = c._smooth_results(
                dfk, f, Xs, Ps, zs_series, cleaning_events,
                soiling_events, perfect_cleaning)
        else:
            counter = 100  # Make sure the while loop stops
        if perfect_cleaning:  # SR = 1 after cleaning events
            if len(cleaning_events) > 0:
                pi_dummy = pd.Series(index=dfk.index, data=np.nan)
                pi_dummy.loc[cleaning_events] = \
                    dfk.smooth_pi.loc[cleaning_events]
                dfk.soiling_ratio = 1 / pi_dummy.ffill() * dfk.smooth_pi
                dfk.loc[:cleaning_events[0], 'soiling_ratio'] = \
                    dfk.loc[:cleaning_events[0], 'smooth_pi'] \
                    * (dfk.soiling_ratio / dfk.smooth_pi).mean()
            else:  # If no cleaning events
                dfk.soiling_ratio = 1
        else:  # Otherwise, if the inut signal has been decomposed, and
            dfk.soiling_ratio = dfk.smooth_pi
        if renormalize_SR is not None:
            dfk.soiling_ratio /= dfk.loc[cleaning_events, 'soiling_ratio'
                                         ].quantile(renormalize_SR)
        if clip_soiling:
            dfk['soiling_ratio'] = dfk['soiling_ratio'].clip(upper=1)
            dfk.soiling_rates = dfk.smooth_rates
            dfk.loc[dfk.soiling_ratio.diff() == 0, 'soiling_rates'] = 0
    nr_days_dummy = pd.Series(index=dfk.index, data=np.nan)
    nr_days_dummy.loc[cleaning_events] = [int(date-dfk.index[0])
                                          for date in cleaning_events]
    nr_days_dummy.iloc[0] = 0
    dfk.days_since_ce = range(len(zs_series)) - nr_days_dummy.ffill()
    dfk.loc[cleaning_events, 'cleaning_events'] = True
    dfk.index = original_index  # Set index back to orignial index
    return dfk, Ps

def code_kalman(pm: series, zs: series, noise: scalar, prune: scalar, cps: scalar, ren: opt, perfect: bool, pce, clip: bool, ffill: bool):
    c = CODSAnalysis(pm)
    k, P = c._Kalman_filter_for_SR(zs, process_noise=noise, pruning_iterations=prune, clean_pruning_sensitivity=cps, renormalize_SR=ren,
                                   perfect_cleaning=perfect, prescient_cleaning_events=pce, clip_soiling=clip, ffill=ffill)
    return {'ratio': k['soiling_ratio'], 'rates': k['soiling_rates'], 'events': k['cleaning_events'], 'days': k['days_since_ce'],
            'raw': k['raw_pi'], 'smooth': k['smooth_pi'], 'P': P}
def spec_kalman(pm: series, zs: series, noise: scalar, prune: scalar, cps: scalar, ren: opt, perfect: bool, pce, clip: bool, ffill: bool):
    c = CODSAnalysis(pm)
    k, P = kalman(c, zs, noise, prune, cps, ren, perfect, pce, clip, ffill)
    return {'ratio': k['soiling_ratio'], 'rates': k['soiling_rates'], 'events': k['cleaning_events'], 'days': k['days_since_ce'],
            'raw': k['raw_pi'], 'smooth': k['smooth_pi'], 'P': P}
'''
KLOW = '''
from rdtools.soiling import CODSAnalysis
from rdtools import soiling
import bisect
from filterpy.kalman import KalmanFilter
from filterpy.common import Q_discrete_white_noise

def ctl(c, f, rolling_median_local, index,
                       cleaning_events):
    u = np.zeros(f.x.shape)  # u is the control input
    window_size = 11  # len of rolling_median_local
    HW = 5  # Half window
    moving_diff = np.diff(rolling_median_local)
    max_diff_index = moving_diff.argmax()
    if max_diff_index == HW-1 or index not in cleaning_events:
        z_med = rolling_median_local[HW+3]
        u[0] = z_med - np.dot(f.H, np.dot(f.F, f.x))
        if np.abs(u[0]) > np.sqrt(f.R)/2:
            index_dummy = [n+3 for n in range(window_size-HW-1)
                           if n+3 != HW]
            cleaning_events = [ce for ce in cleaning_events
                               if ce-index+HW not in index_dummy]
        else:  # If the cleaning event is insignificant
            u[0] = 0
            if index in cleaning_events:
                cleaning_events.remove(index)
    else:  # If the index with the maximum difference is not today...
        cleaning_events.remove(index)  # ...remove today from the list
        if moving_diff[max_diff_index] > 0 \
                and index+max_diff_index-HW+1 not in cleaning_events:
            bisect.insort(cleaning_events, index+max_diff_index-HW+1)
    return u

def fwd(c, f, zs_series, rolling_median_7, cleaning_events,
                  soiling_events):
    zs = zs_series.values
    N = len(zs)
    Xs, Ps = np.zeros((N, 2)), np.zeros((N, 2, 2))
    for i, z in enumerate(zs):
        if 7 < i < N-7 and (i in cleaning_events or i in soiling_events):
            rolling_median_local = rolling_median_7.loc[i-5:i+5].values
            u = ctl(c, f, rolling_median_local, i,
                                        cleaning_events)
            f.predict(u=u)  # Predict wth control input u
        else:  # If no cleaning detection, predict without control input
            f.predict()
        if not np.isnan(z):
            f.update(z)  # Update
        Xs[i] = f.x
        Ps[i] = f.P
        rate_std, zs_std = Ps[-1, 1, 1], Ps[-1, 0, 0]
    return Xs, Ps, rate_std, zs_std  # Convert to numpy and return

def smooth(c, dfk, f, Xs, Ps, zs_series, cleaning_events,
                    soiling_events, perfect_cleaning):
    dfk.raw_pi = Xs[:, 0]
    dfk.raw_rates = Xs[:, 1]
    df_num_ind = pd.Series(index=dfk.index, data=range(len(dfk)))
    ce_dummy = cleaning_events.copy()
    ce_dummy.extend(dfk.index[[0, -1]])
    ce_dummy.extend(soiling_events)
    ce_dummy.sort()
    for start, end in zip(ce_dummy[:-1], ce_dummy[1:]):
        num_ind = df_num_ind.loc[start:end].iloc[:-1]
        Xs[num_ind], Ps[num_ind], _, _ = f.rts_smoother(Xs[num_ind],
                                                        Ps[num_ind])
    dfk.smooth_pi = Xs[:, 0]
    dfk.smooth_rates = Xs[:, 1]
    return dfk, Xs, Ps

def model(c, zs_series, dt, process_noise,
                                 measurement_noise, rate_std, zs_std,
                                 initial_slope):
    f = KalmanFilter(dim_x=2, dim_z=1)
    f.F = np.array([[1., dt],
                    [0., 1.]])
    f.H = np.array([[1., 0.]])
    f.P = np.array([[zs_std**2, 0],
                    [0, rate_std**2]])
    f.Q = Q_discrete_white_noise(dim=2, dt=dt, var=process_noise**2)
    f.x = np.array([initial_slope[1], initial_slope[0]])
    f.B = np.zeros(f.F.shape)
    f.B[0] = 1
    f.R = measurement_noise
    return f

def code_forward(pm: series, f, zs: series, rm: series, ce, se):
    return CODSAnalysis(pm)._forward_pass(f, zs, rm, ce, se)
def spec_forward(pm: series, f, zs: series, rm: series, ce, se):
    return fwd(CODSAnalysis(pm), f, zs, rm, ce, se)
def code_control(pm: series, f, rm, i: scalar, ce):
    return CODSAnalysis(pm)._set_control_input(f, rm, i, ce)
def spec_control(pm: series, f, rm, i: scalar, ce):
    return ctl(CODSAnalysis(pm), f, rm, i, ce)
def code_smooth(pm: series, dfk: frame, f, Xs: ndarray, Ps: ndarray, zs: series, ce, se, perfect: bool):
    return CODSAnalysis(pm)._smooth_results(dfk, f, Xs, Ps, zs, ce, se, perfect)
def spec_smooth(pm: series, dfk: frame, f, Xs: ndarray, Ps: ndarray, zs: series, ce, se, perfect: bool):
    return smooth(CODSAnalysis(pm), dfk, f, Xs, Ps, zs, ce, se, perfect)
def code_model(pm: series, zs: series, dt: scalar, q: scalar, r: scalar, rs: scalar, zstd: scalar, slope):
    f = CODSAnalysis(pm)._initialize_univariate_model(zs, dt, q, r, rs, zstd, slope)
    return {'F': f.F, 'H': f.H, 'P': f.P, 'Q': f.Q, 'x': f.x, 'B': f.B, 'R': f.R}
def spec_model(pm: series, zs: series, dt: scalar, q: scalar, r: scalar, rs: scalar, zstd: scalar, slope):
    f = model(CODSAnalysis(pm), zs, dt, q, r, rs, zstd, slope)
    return {'F': f.F, 'H': f.H, 'P': f.P, 'Q': f.Q, 'x': f.x, 'B': f.B, 'R': f.R}
'''

FULL_OPTS = {'*': {'opaque': ('CODSAnalysis.iterative_signal_decomposition', '_make_time_series_bootstrap_samples', '_make_seasonal_samples')}}


def check(ctx):
    ctx.need('soiling', 'CODSAnalysis.iterative_signal_decomposition')
    ctx.need('soiling', 'CODSAnalysis.run_bootstrap')
    ctx.formulas(ITER, RULE, {'*': {'opaque': ('CODSAnalysis._Kalman_filter_for_SR', '_collapse_cleaning_events')}})
    ctx.formulas(BOOT, RULE, {'*': {'opaque': ('CODSAnalysis.iterative_signal_decomposition',)}})
    ctx.formulas(FULL, RULE, FULL_OPTS)
    ctx.formulas(LOOP, RULE, {'*': {'opaque': ('CODSAnalysis._Kalman_filter_for_SR', '_collapse_cleaning_events', '_rolling_median_ce_detection',
                                              '_force_periodicity', 'degradation_year_on_year')}})
    ctx.formulas(HELP, RULE)
    ctx.formulas(KALMAN, RULE, {'*': {'opaque': ('_collapse_cleaning_events', '_rolling_median_ce_detection', '_soiling_event_detection',
                                                '_find_numeric_outliers', 'CODSAnalysis._forward_pass', 'CODSAnalysis._smooth_results',
                                                'CODSAnalysis._initialize_univariate_model')}})
    ctx.formulas(KLOW, RULE)
