D, B, G, U = 'degradation.py', 'bootstrap.py', 'aggregation.py', 'utilities.py'
r('ols-helper', D, ("""    df = energy_normalized.to_frame(name='energy_normalized')

    # calculate a years column as x value for regression, ignoring leap years
    day_diffs = (df.index - df.index[0])
    df['days'] = day_diffs / pd.Timedelta('1d')
    df['years'] = df.days / 365.0

    # add intercept-constant to the exogeneous variable
    df = sm.add_constant(df)

    # perform regression
    ols_model = sm.OLS(endog=df.energy_normalized,
                       exog=df.loc[:, ['const', 'years']],
                       hasconst=True, missing='drop')

    results = ols_model.fit()

    # collect intercept and slope
    b, m = results.params

    # rate of degradation in terms of percent/year
    Rd_pct = 100.0 * m / b

    # Calculate RMSE
    rmse = np.sqrt(results.mse_resid)

    # Collect standrd errors
    stderr_b, stderr_m = results.bse

    # Monte Carlo for error in degradation rate
    Rd_CI = _degradation_CI(results, confidence_level=confidence_level)

    calc_info = {
        'slope': m,
        'intercept': b,
        'rmse': rmse,
        'slope_stderr': stderr_m,
        'intercept_stderr': stderr_b,
        'ols_result': results,
    }

    return (Rd_pct, Rd_CI, calc_info)
""", """    df = _with_years(energy_normalized.to_frame(name='energy_normalized'))
    results = _fit_line(df, 'energy_normalized')
    b, m = results.params
    info = _regression_info(results, b, m)
    Rd_CI = _degradation_CI(results, confidence_level=confidence_level)
    return (100.0 * m / b, Rd_CI, info)


def _with_years(df):
    days = (df.index - df.index[0]) / pd.Timedelta('1d')
    df['days'] = days
    df['years'] = df['days'] / 365.0
    return df


def _fit_line(df, column):
    df = sm.add_constant(df)
    model = sm.OLS(endog=df[column], exog=df.loc[:, ['const', 'years']], hasconst=True, missing='drop')
    return model.fit()


def _regression_info(results, b, m):
    stderr_b, stderr_m = results.bse
    return {'slope': m, 'intercept': b, 'rmse': np.sqrt(results.mse_resid), 'slope_stderr': stderr_m,
            'intercept_stderr': stderr_b, 'ols_result': results}
"""))
r('classical-where', D, ("""    energy_ma[~has_full_year] = np.nan
    df['energy_ma'] = energy_ma
""", """    df['energy_ma'] = energy_ma.where(has_full_year)
"""), ("""    Rd_pct = 100.0 * m / b

    # Calculate RMSE
    rmse = np.sqrt(results.mse_resid)

    # Collect standrd errors
    stderr_b, stderr_m = results.bse

    # Perform""", """    Rd_pct = m / b * 100.0
    stderr_b, stderr_m = results.bse
    rmse = np.sqrt(results.mse_resid)

    # Perform"""))
r('classical-between', D, ("""    has_full_year = (df["years"] >= df["years"].iloc[0] + 0.5) & (
        df["years"] <= df["years"].iloc[-1] - 0.5
    )
""", """    years = df["years"]
    has_full_year = years.between(years.iloc[0] + 0.5, years.iloc[-1] - 0.5)
"""))
r('yoy-helper', D, ("""    # Auto center
    if recenter:
        start = energy_normalized.index[0]
        oneyear = start + pd.Timedelta('364d')
        renorm = utilities.robust_median(energy_normalized[start:oneyear])
    else:
        renorm = 1.0

    energy_normalized = energy_normalized.reset_index()
""", """    renorm = _renormalizing_factor(energy_normalized) if recenter else 1.0

    energy_normalized = energy_normalized.reset_index()
"""), ("""def _mk_test(x, alpha=0.05):""", """def _renormalizing_factor(series):
    start = series.index[0]
    return utilities.robust_median(series[start:start + pd.Timedelta('364d')])


def _mk_test(x, alpha=0.05):"""))
r('yoy-boot-helper', D, ("""        n1 = len(yoy_result)
        reps = 10000
        xb1 = np.random.choice(yoy_result, (n1, reps), replace=True)
        mb1 = np.median(xb1, axis=0)

        half_ci = confidence_level / 2.0
        Rd_CI = np.percentile(mb1, [50.0 - half_ci, 50.0 + half_ci])

        P_level = np.percentile(mb1, 100.0 - exceedance_prob)

        calc_info['exceedance_level'] = P_level

        return (Rd_pct, Rd_CI, calc_info)

    elif""", """        medians = _bootstrap_medians(yoy_result)
        half_ci = confidence_level / 2.0
        bounds = [50.0 - half_ci, 50.0 + half_ci]
        Rd_CI = np.percentile(medians, bounds)
        calc_info['exceedance_level'] = np.percentile(medians, 100.0 - exceedance_prob)
        return (Rd_pct, Rd_CI, calc_info)

    if"""), ("""def _mk_test(x, alpha=0.05):""", """def _bootstrap_medians(values, reps=10000):
    draws = np.random.choice(values, (len(values), reps), replace=True)
    return np.median(draws, axis=0)


def _mk_test(x, alpha=0.05):"""))
r('yoy-early-return', D, ("""    if uncertainty_method == 'simple':  # If we need the full results
        calc_info = {""", """    if uncertainty_method not in ('simple', 'circular_block'):
        return Rd_pct

    if uncertainty_method == 'simple':  # If we need the full results
        calc_info = {"""), ("""
    else:  # If we do not need confidence intervals and exceedance level
        return Rd_pct
""", ""))
r('yoy-locals', D, ("""    df['time_diff_years'] = (df.dt - df.dt_right) / pd.Timedelta('365d')
    df['yoy'] = 100.0 * (df.energy - df.energy_right) / (df.time_diff_years)
    df.index = df.dt
""", """    elapsed = (df['dt'] - df['dt_right']) / pd.Timedelta(days=365)
    df['time_diff_years'] = elapsed
    df['yoy'] = 100.0 * (df['energy'] - df['energy_right']) / elapsed
    df.index = df['dt']
"""))
r('yoy-validate-helper', D, ("""    # If circular block bootstrapping...
    if uncertainty_method == 'circular_block':
        # ... require regular logging frequency
        freq = pd.infer_freq(energy_normalized.index)
        if isinstance(freq, type(None)):
            raise ValueError('energy_normalized must have a fixed frequency')
        # ... require a block length shorter than a third of the time series
        if block_length > (len(energy_normalized) / 3):
            raise ValueError(
                'block_length must must be shorter than a third of the time series')
""", """    if uncertainty_method == 'circular_block':
        _check_bootstrap_input(energy_normalized, block_length)
"""), ("""def _mk_test(x, alpha=0.05):""", """def _check_bootstrap_input(series, block_length):
    if pd.infer_freq(series.index) is None:
        raise ValueError('energy_normalized must have a fixed frequency')
    if block_length > len(series) / 3:
        raise ValueError(
            'block_length must must be shorter than a third of the time series')


def _mk_test(x, alpha=0.05):"""))
r('mk-comprehension', D, ("""        tp = np.zeros(unique_x.shape)
        for i in range(len(unique_x)):
            tp[i] = sum(unique_x[i] == x)
""", """        tp = np.array([sum(value == x) for value in unique_x], dtype=float)
"""), ("""    elif s == 0:
        z = 0
    elif s < 0:
        z = (s + 1) / np.sqrt(var_s)
""", """    elif s < 0:
        z = (s + 1) / np.sqrt(var_s)
    else:
        z = 0
"""))
r('ci-inline', D, ("""    dist = sampled_normal[:, 1] / sampled_normal[:, 0]
    half_ci = confidence_level / 2.0
    Rd_CI = np.percentile(dist, [50.0 - half_ci, 50.0 + half_ci]) * 100.0
    return Rd_CI""", """    slopes = sampled_normal[:, 1]
    intercepts = sampled_normal[:, 0]
    dist = slopes / intercepts
    low, high = 50.0 - confidence_level / 2.0, 50.0 + confidence_level / 2.0
    return 100.0 * np.percentile(dist, [low, high])"""))
r('circular-locals', D, ("""        N = len(energy_normalized)
        numeric_index = np.arange(N)
        days_per_index = \\
            (energy_normalized.dt.iloc[-1] - energy_normalized.dt.iloc[0]).days / N
        degradation_trend = 1 + (Rd_pct / 100 / 365.0 * numeric_index
                                 * days_per_index)
        degradation_trend = pd.Series(
            index=energy_normalized.dt, data=degradation_trend)
""", """        times = energy_normalized['dt']
        count = len(energy_normalized)
        days_per_index = (times.iloc[-1] - times.iloc[0]).days / count
        slope_per_index = Rd_pct / 100 / 365.0 * days_per_index
        degradation_trend = pd.Series(1 + slope_per_index * np.arange(count), index=times)
"""))
r('bootstrap-branch', B, ("""        if decomposition_type == 'multiplicative':
            bootstrap_samples.loc[:, b] = \\
                model_fit * bootstrapped_residuals[0][0].values
        elif decomposition_type == 'additive':
            bootstrap_samples.loc[:, b] = \\
                model_fit + bootstrapped_residuals[0][0].values
""", """        values = bootstrapped_residuals[0][0].values
        if decomposition_type == 'multiplicative':
            sample = model_fit * values
        else:
            sample = model_fit + values
        bootstrap_samples.loc[:, b] = sample
"""))
r('bootstrap-check-first', B, ("""    if decomposition_type == 'multiplicative':
        residuals = signal / model_fit
    elif decomposition_type == 'additive':
        residuals = signal - model_fit
    else:
        raise ValueError(
            'decomposition_type needs to be either \\'multiplicative\\' or'
            + ' \\'additive\\'')
""", """    if decomposition_type not in ('multiplicative', 'additive'):
        raise ValueError(
            'decomposition_type needs to be either \\'multiplicative\\' or'
            + ' \\'additive\\'')
    multiplicative = decomposition_type == 'multiplicative'
    residuals = signal / model_fit if multiplicative else signal - model_fit
"""))
r('bootstrap-ci-order', B, ("""    half_ci = confidence_level / 2.0
    confidence_interval = np.percentile(metrics, [50.0 - half_ci, 50.0 + half_ci])

    # Estimate exceedance level
    exceedance_level = np.percentile(metrics, 100.0 - exceedance_prob)
""", """    exceedance_level = np.percentile(metrics, 100.0 - exceedance_prob)
    tail = (100.0 - confidence_level) / 2.0
    confidence_interval = np.percentile(metrics, [tail, 100.0 - tail])
"""))
r('aggregation-names', G, ("""    insolation = insolation.where(energy_normalized.notnull())
    aggregated = (insolation * energy_normalized).resample(frequency, origin='start_day').sum() / \\
        insolation.resample(frequency, origin='start_day').sum()

    return aggregated""", """    weights = insolation.where(energy_normalized.notnull())
    weighted = weights * energy_normalized
    numerator = weighted.resample(frequency, origin='start_day').sum()
    denominator = weights.resample(frequency, origin='start_day').sum()
    return numerator / denominator"""))
r('robust-helper', U, ("""    small = x.astype(float).fillna(0).quantile(q) / 1000
    q = x[x > small].quantile(q)

    return q
""", """    return _above_noise(x, q).quantile(q)


def _above_noise(x, q):
    floor = x.astype(float).fillna(0).quantile(q) / 1000
    return x[x > floor]
"""), ("""    small = x.astype(float).fillna(0).quantile(q) / 1000
    mdn = x[x > small].median()

    return mdn
""", """    return _above_noise(x, q).median()
"""))
