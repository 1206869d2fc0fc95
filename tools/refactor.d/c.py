F = 'filtering.py'
r('norm-filter-mask', F, ("""    if energy_normalized_low is None:
        energy_normalized_low = -np.inf
    if energy_normalized_high is None:
        energy_normalized_high = np.inf

    return (energy_normalized > energy_normalized_low) & (
        energy_normalized < energy_normalized_high
    )
""", """    low = -np.inf if energy_normalized_low is None else energy_normalized_low
    high = np.inf if energy_normalized_high is None else energy_normalized_high
    return _within(energy_normalized, low, high)


def _within(series, low, high):
    above = series > low
    below = series < high
    return above & below
"""), ("    return (poa_global > poa_global_low) & (poa_global < poa_global_high)\n", "    return _within(poa_global, poa_global_low, poa_global_high)\n"),
  ("""    return (temperature_cell > temperature_cell_low) & (
        temperature_cell < temperature_cell_high
    )
""", """    return _within(temperature_cell, temperature_cell_low, temperature_cell_high)
"""))
r('norm-between', F, ("    return (poa_global > poa_global_low) & (poa_global < poa_global_high)\n",
   "    return poa_global.between(poa_global_low, poa_global_high, inclusive='neither')\n"),
  ("    return (csi >= 1.0 - threshold) & (csi <= 1.0 + threshold)", "    return csi.between(1.0 - threshold, 1.0 + threshold)"))
r('csi-abs', F, ("    return (csi >= 1.0 - threshold) & (csi <= 1.0 + threshold)", "    return (csi - 1.0).abs() <= threshold"))
r('clearsky-dispatch', F, ("""    if model == "csi":
        clearsky_mask = csi_filter(poa_global_measured, poa_global_clearsky, **kwargs)
    elif model == "pvlib":
        clearsky_mask = pvlib_clearsky_filter(poa_global_measured, poa_global_clearsky, **kwargs)
    else:
        raise ValueError("Clearsky filter must be 'pvlib' or 'csi'.")
    return clearsky_mask
""", """    models = {"csi": csi_filter, "pvlib": pvlib_clearsky_filter}
    if model not in models:
        raise ValueError("Clearsky filter must be 'pvlib' or 'csi'.")
    return models[model](poa_global_measured, poa_global_clearsky, **kwargs)
"""))
r('clearsky-early', F, ("""    if model == "csi":
        clearsky_mask = csi_filter(poa_global_measured, poa_global_clearsky, **kwargs)
    elif model == "pvlib":
        clearsky_mask = pvlib_clearsky_filter(poa_global_measured, poa_global_clearsky, **kwargs)
    else:
        raise ValueError("Clearsky filter must be 'pvlib' or 'csi'.")
    return clearsky_mask
""", """    if model == "csi":
        return csi_filter(poa_global_measured, poa_global_clearsky, **kwargs)
    if model == "pvlib":
        return pvlib_clearsky_filter(poa_global_measured, poa_global_clearsky, **kwargs)
    raise ValueError("Clearsky filter must be 'pvlib' or 'csi'.")
"""))
r('pvlib-lookup', F, ("""        windows_interp = interp1d(
            frequencies,
            windows,
            fill_value=(windows[0], windows[-1]),
            bounds_error=False,
        )
        max_diffs_interp = interp1d(
            frequencies,
            max_diffs,
            fill_value=(max_diffs[0], max_diffs[-1]),
            bounds_error=False,
        )
        var_diffs_interp = interp1d(
            frequencies,
            var_diffs,
            fill_value=(var_diffs[0], var_diffs[-1]),
            bounds_error=False,
        )
        slope_devs_interp = interp1d(
            frequencies,
            slope_devs,
            fill_value=(slope_devs[0], slope_devs[-1]),
            bounds_error=False,
        )

""", """        def lookup(minutes, values):
            table = interp1d(
                frequencies,
                values,
                fill_value=(values[0], values[-1]),
                bounds_error=False,
            )
            return table(minutes)

"""), ("""        window_length = windows_interp(freq_minutes)
        max_diff = max_diffs_interp(freq_minutes)
        var_diff = var_diffs_interp(freq_minutes)
        slope_dev = slope_devs_interp(freq_minutes)
""", """        window_length = lookup(freq_minutes, windows)
        max_diff = lookup(freq_minutes, max_diffs)
        var_diff = lookup(freq_minutes, var_diffs)
        slope_dev = lookup(freq_minutes, slope_devs)
"""))
r('pvlib-kw', F, ("""    kwargs["return_components"] = False
    mask = pvlib.clearsky.detect_clearsky(
        df["measured"],
        df["clearsky"],
        window_length=window_length,
        mean_diff=mean_diff,
        max_diff=max_diff,
        lower_line_length=lower_line_length,
        upper_line_length=upper_line_length,
        var_diff=var_diff,
        slope_dev=slope_dev,
        **kwargs,
    )
    return mask
""", """    criteria = dict(
        window_length=window_length,
        mean_diff=mean_diff,
        max_diff=max_diff,
        lower_line_length=lower_line_length,
        upper_line_length=upper_line_length,
        var_diff=var_diff,
        slope_dev=slope_dev,
    )
    options = {**kwargs, "return_components": False}
    return pvlib.clearsky.detect_clearsky(df["measured"], df["clearsky"], **criteria, **options)
"""))
r('clip-dispatch', F, ("""    if model == "quantile":
        clip_mask = quantile_clip_filter(power_ac, **kwargs)
    elif model == "xgboost":
        clip_mask = xgboost_clip_filter(power_ac, **kwargs)
    elif model == "logic":
        clip_mask = logic_clip_filter(power_ac, **kwargs)
    else:
        raise ValueError("Variable model must be 'quantile', " "'xgboost', or 'logic'.")
    return clip_mask
""", """    if model == "quantile":
        run = quantile_clip_filter
    elif model == "xgboost":
        run = xgboost_clip_filter
    elif model == "logic":
        run = logic_clip_filter
    else:
        raise ValueError("Variable model must be 'quantile', " "'xgboost', or 'logic'.")
    return run(power_ac, **kwargs)
"""))
r('quantile-clip', F, ("""    v = utilities.robust_quantile(power_ac, quantile)
    return power_ac < v * 0.99
""", """    limit = 0.99 * utilities.robust_quantile(power_ac, quantile)
    keep = power_ac < limit
    return keep
"""))
r('format-checks', F, ("""    if (mounting_type != "single_axis_tracking") & (mounting_type != "fixed"):
""", """    if mounting_type not in ("single_axis_tracking", "fixed"):
"""), ("""    if not all(power_ac.sort_index().index == power_ac.index):
""", """    if not (power_ac.sort_index().index == power_ac.index).all():
"""))
r('format-monotonic', F, ("""    if not all(power_ac.sort_index().index == power_ac.index):
""", """    if not power_ac.index.is_monotonic_increasing:
"""))
r('format-order', F, ("""    if len(power_ac) <= 10:
        raise Exception("<=10 readings in the time series, cannot run filter.")
    # Get the names of the series and the datetime index
    column_name = "value"
    power_ac = power_ac.rename(column_name)
    index_name = power_ac.index.name
    if index_name is None:
        index_name = "datetime"
        power_ac = power_ac.rename_axis(index_name)
""", """    if not len(power_ac) > 10:
        raise Exception("<=10 readings in the time series, cannot run filter.")
    # Get the names of the series and the datetime index
    if power_ac.index.name is None:
        power_ac = power_ac.rename_axis("datetime")
    power_ac = power_ac.rename("value")
"""))
r('sampling-check', F, ("""    sampling_frequency_df = pd.DataFrame(
        power_ac.index.to_series().diff().astype("timedelta64[s]").value_counts()
    ) / len(power_ac)
    sampling_frequency_df.columns = ["count"]
    if (sampling_frequency_df["count"] < 0.95).all():
""", """    steps = power_ac.index.to_series().diff().astype("timedelta64[s]")
    share = steps.value_counts() / len(power_ac)
    if (share < 0.95).all():
"""))
r('rolling-range', F, ("""    # Calculate the maximum value over a forward-rolling window
    max_roll = power_ac.iloc[::-1].rolling(roll_periods).max()
    max_roll = max_roll.reindex(power_ac.index)
    # Calculate the minimum value over a forward-rolling window
    min_roll = power_ac.iloc[::-1].rolling(roll_periods).min()
    min_roll = min_roll.reindex(power_ac.index)
""", """    windows = power_ac.iloc[::-1].rolling(roll_periods)
    max_roll = windows.max().reindex(power_ac.index)
    min_roll = windows.min().reindex(power_ac.index)
"""))
r('threshold-early', F, ("""    if (upper_bound_pdiff < 0.005) & (percent_clipped > 4):
        max_clip = power_ac >= q_power_ac
        clipping_mask = clipping_mask | max_clip
    return clipping_mask
""", """    if not (upper_bound_pdiff < 0.005 and percent_clipped > 4):
        return clipping_mask
    return clipping_mask | (power_ac >= q_power_ac)
"""), )
r('threshold-and', F, ("""    if (upper_bound_pdiff < 0.005) & (percent_clipped > 4):
        max_clip = power_ac >= q_power_ac
        clipping_mask = clipping_mask | max_clip
    return clipping_mask
""", """    same_level = upper_bound_pdiff < 0.005
    enough = percent_clipped > 4
    if same_level and enough:
        clipping_mask = (power_ac >= q_power_ac) | clipping_mask
    return clipping_mask
"""))
r('logic-hoist', F, ("""        # Find the maximum and minimum power_ac level where clipping is
        # detected each day.
        clipping = clipping.reindex(index=power_ac_copy.index, method="ffill")
        clip_pwr = power_ac_copy[clipping]
        clip_pwr = clip_pwr.reindex(index=power_ac_copy.index, fill_value=np.nan)
        daily_clipping_max""", """        # Find the maximum and minimum power_ac level where clipping is
        # detected each day.
        daily_clipping_max"""), ("""    if original_time_series_sampling_frequency < 10:
        clipping = clipping.reindex(index=power_ac_copy.index, method="ffill")
        # Subset the series where clipping filter == True
        clip_pwr = power_ac_copy[clipping]
        clip_pwr = clip_pwr.reindex(index=power_ac_copy.index, fill_value=np.nan)
""", """    clipping = clipping.reindex(index=power_ac_copy.index, method="ffill")
    # Subset the series where clipping filter == True
    clip_pwr = power_ac_copy[clipping]
    clip_pwr = clip_pwr.reindex(index=power_ac_copy.index, fill_value=np.nan)
    if original_time_series_sampling_frequency < 10:
"""))
r('logic-helper', F, ("""    final_clip = (
        (
            (daily_clipping_min <= power_ac_copy)
            & (power_ac_copy <= daily_clipping_max)
            & (clipping_difference <= 0.025)
        )
        | (
            (power_ac_copy <= daily_clipping_max * 1.0025)
            & (power_ac_copy >= daily_clipping_max * 0.9975)
            & (clipping_difference > 0.025)
        )
        | (
            (power_ac_copy <= daily_clipping_min * 1.0025)
            & (power_ac_copy >= daily_clipping_min * 0.9975)
            & (clipping_difference > 0.025)
        )
    )
""", """    def near(level):
        return (power_ac_copy <= level * 1.0025) & (power_ac_copy >= level * 0.9975)

    between = (power_ac_copy >= daily_clipping_min) & (power_ac_copy <= daily_clipping_max)
    close = clipping_difference <= 0.025
    apart = clipping_difference > 0.025
    final_clip = (between & close) | ((near(daily_clipping_max) | near(daily_clipping_min)) & apart)
"""))
r('logic-frozen', F, ("""    daily_std = power_ac.resample("D").std() / power_ac.resample("D").mean()
    power_ac["daily_std"] = daily_std.reindex(index=power_ac.index, method="ffill")
    power_ac.loc[power_ac["daily_std"] < 0.1, "value"] = np.nan
    power_ac.drop("daily_std", axis=1, inplace=True)
""", """    by_day = power_ac.resample("D")
    relative_std = (by_day.std() / by_day.mean()).reindex(index=power_ac.index, method="ffill")
    power_ac.loc[relative_std["value"] < 0.1, "value"] = np.nan
"""))
r('logic-roll', F, ("""        if (mounting_type == "single_axis_tracking") & (
            time_series_sampling_frequency < 30
        ):
            roll_periods = 5
        else:
            roll_periods = 3
""", """        tracking = mounting_type == "single_axis_tracking"
        roll_periods = 5 if tracking and time_series_sampling_frequency < 30 else 3
"""))
r('logic-else', F, ("""    if time_series_sampling_frequency >= 10:
        power_ac = rdtools.normalization.interpolate(power_ac, freq_string)
    else:
        power_ac = power_ac.resample("15min").median()
        time_series_sampling_frequency = 15
""", """    high_frequency = time_series_sampling_frequency < 10
    if high_frequency:
        power_ac = power_ac.resample("15min").median()
        time_series_sampling_frequency = 15
    else:
        power_ac = rdtools.normalization.interpolate(power_ac, freq_string)
"""), ("""    if original_time_series_sampling_frequency < 10:
        clipping =""", """    if high_frequency:
        clipping ="""))
r('xgb-window', F, ("""    if sampling_frequency < 10:
        rolling_window = 5
    elif (sampling_frequency >= 10) and (sampling_frequency < 60):
        rolling_window = 3
    else:
        rolling_window = 2
""", """    if sampling_frequency >= 60:
        rolling_window = 2
    elif sampling_frequency >= 10:
        rolling_window = 3
    else:
        rolling_window = 5
"""))
r('xgb-stats', F, ("""    df["deriv_backward_rolling_stdev"] = (
        df["first_order_derivative_backward"]
        .rolling(window=rolling_window, center=True)
        .std()
    )
""", """    windows = df["first_order_derivative_backward"].rolling(window=rolling_window, center=True)
    df["deriv_backward_rolling_stdev"] = windows.std()
"""), ("""    df["deriv_backward_rolling_mean"] = (
        df["first_order_derivative_backward"]
        .rolling(window=rolling_window, center=True)
        .mean()
    )
""", """    df["deriv_backward_rolling_mean"] = windows.mean()
"""), ("""    df["deriv_backward_rolling_max"] = (
        df["first_order_derivative_backward"]
        .rolling(window=rolling_window, center=True)
        .max()
    )
""", """    df["deriv_backward_rolling_max"] = windows.max()
"""))
r('xgb-final', F, ("""    if sampling_frequency < 5:
        power_ac_df["daily_clipping_max_threshold"] = (
            power_ac_df["daily_clipping_max"] * 0.96
        )
        power_ac_df["clipping cutoff"] = power_ac_df[
            ["daily_clipping_min", "daily_clipping_max_threshold"]
        ].max(axis=1)
        final_clip = (
            (power_ac_df["clipping cutoff"] <= power_ac_df["scaled_value"])
            & (power_ac_df["percent_daily_max"] >= 0.9)
            & (
                power_ac_df["scaled_value"]
                <= power_ac_df["daily_clipping_max"] * 1.0025
            )
            & (power_ac_df["scaled_value"] >= 0.1)
        )
    else:
        final_clip = (
            (power_ac_df["daily_clipping_min"] <= power_ac_df["scaled_value"])
            & (power_ac_df["percent_daily_max"] >= 0.95)
            & (
                power_ac_df["scaled_value"]
                <= power_ac_df["daily_clipping_max"] * 1.0025
            )
            & (power_ac_df["scaled_value"] >= 0.1)
        )
""", """    value = power_ac_df["scaled_value"]
    if sampling_frequency < 5:
        power_ac_df["daily_clipping_max_threshold"] = (
            power_ac_df["daily_clipping_max"] * 0.96
        )
        cutoff = power_ac_df[["daily_clipping_min", "daily_clipping_max_threshold"]].max(axis=1)
        share = 0.9
    else:
        cutoff = power_ac_df["daily_clipping_min"]
        share = 0.95
    final_clip = (
        (value >= cutoff)
        & (power_ac_df["percent_daily_max"] >= share)
        & (value <= power_ac_df["daily_clipping_max"] * 1.0025)
        & (value >= 0.1)
    )
"""))
r('xgb-config', F, ("""    power_ac_df.loc[
        power_ac_df["mounting_config"] == "single_axis_tracking", "mounting_config_bool"
    ] = 1
    power_ac_df.loc[
        power_ac_df["mounting_config"] == "fixed", "mounting_config_bool"
    ] = 0
""", """    power_ac_df["mounting_config_bool"] = 1.0 if mounting_type == "single_axis_tracking" else 0.0
"""))
r('two-way', F, ("""    backward_dif = abs(series - backward_median)
    forward_dif = abs(series - forward_median)

    # This is a change from Matt's original logic, which can exclude
    # points with a NaN median
    backward_dif.fillna(0, inplace=True)
    forward_dif.fillna(0, inplace=True)

    dif_min = backward_dif.combine(forward_dif, min, 0)

    mask = dif_min < outlier_threshold

    return mask
""", """    # points with a NaN median are kept
    backward_dif = (series - backward_median).abs().fillna(0)
    forward_dif = (series - forward_median).abs().fillna(0)

    return backward_dif.combine(forward_dif, min, 0) < outlier_threshold
"""))
r('two-way-or', F, ("""    dif_min = backward_dif.combine(forward_dif, min, 0)

    mask = dif_min < outlier_threshold

    return mask
""", """    mask = (backward_dif < outlier_threshold) | (forward_dif < outlier_threshold)

    return mask
"""))
r('insolation', F, ("""    limit = insolation.quantile(quantile)
    mask = insolation >= limit
    return mask
""", """    return ~(insolation < insolation.quantile(quantile)) & insolation.notna()
"""))
r('hampel', F, ("""    rolling_median = series.rolling(k, center=True, min_periods=1).median()
    difference = np.abs(rolling_median - series)
    median_abs_deviation = difference.rolling(k, center=True, min_periods=1).median()
    threshold = t0 * L * median_abs_deviation
    return difference <= threshold
""", """    def rolling_median(x):
        return x.rolling(k, center=True, min_periods=1).median()

    deviation = (series - rolling_median(series)).abs()
    sigma = L * rolling_median(deviation)
    return deviation <= t0 * sigma
"""))
r('tukey', F, ("""    upper_fence = k * iqr + p75
    lower_fence = p25 - k * iqr
    return lower_fence, upper_fence
""", """    margin = k * iqr
    return p25 - margin, p75 + margin
"""), ("""    p25 = series.quantile(0.25)
    p75 = series.quantile(0.75)
""", """    p25, p75 = series.quantile(0.25), series.quantile(0.75)
"""))
r('tukey-helper', F, ("""    backward_dif_lower, backward_dif_upper = _tukey_fence(backward_dif, k)
    forward_dif_lower, forward_dif_upper = _tukey_fence(forward_dif, k)

    mask = ((forward_dif > forward_dif_lower) & (forward_dif < forward_dif_upper)) | (
        (backward_dif > backward_dif_lower) & (backward_dif < backward_dif_upper)
    )
    return mask
""", """    def inside(dif):
        lower, upper = _tukey_fence(dif, k)
        return (dif > lower) & (dif < upper)

    return inside(backward_dif) | inside(forward_dif)
"""))
r('hour-angle', F, ("""    hour_angle = pvlib.solarposition.hour_angle(times, lon, eot)
    hour_angle = pd.Series(hour_angle, index=times)
    mask = (hour_angle >= min_hour_angle) & (hour_angle <= max_hour_angle)
""", """    angle = pd.Series(pvlib.solarposition.hour_angle(times, lon, eot), index=times)
    mask = ~((angle < min_hour_angle) | (angle > max_hour_angle))
"""))
r('hour-angle2', F, ("""    hour_angle = pvlib.solarposition.hour_angle(times, lon, eot)
    hour_angle = pd.Series(hour_angle, index=times)
    mask = (hour_angle >= min_hour_angle) & (hour_angle <= max_hour_angle)
""", """    angle = pvlib.solarposition.hour_angle(times, lon, eot)
    mask = pd.Series((angle >= min_hour_angle) & (angle <= max_hour_angle), index=times)
"""))
