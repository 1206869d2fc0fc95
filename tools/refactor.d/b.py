N = 'normalization.py'
r('norm-align-helper', N, ("""    index_union = energy_normalized.index.union(insolation.index)
    energy_normalized = energy_normalized.reindex(index_union)
    insolation = insolation.reindex(index_union)

    return energy_normalized, insolation
""", """    return _on_common_index(energy_normalized, insolation)


def _on_common_index(first, second):
    common = first.index.union(second.index)
    return first.reindex(common), second.reindex(common)
"""))
r('norm-measured-helper', N, ("""    if pv_input == 'power':
        energy = energy_from_power(pv, freq, power_type='right_labeled')
    elif pv_input == 'energy':
        energy = pv.copy()
        energy.name = 'energy_Wh'
    else:
        raise ValueError("Unexpected value for pv_input. pv_input should be 'power' or 'energy'.")
""", """    if pv_input not in ('power', 'energy'):
        raise ValueError("Unexpected value for pv_input. pv_input should be 'power' or 'energy'.")
    if pv_input == 'energy':
        energy = pv.copy()
        energy.name = 'energy_Wh'
    else:
        energy = energy_from_power(pv, freq, power_type='right_labeled')
"""), ("""    energy_expected = energy_from_power(power_expected, freq, power_type='right_labeled')
    insolation = energy_from_power(poa_global, freq, power_type='right_labeled')
""", """    insolation = energy_from_power(poa_global, freq, power_type='right_labeled')
    energy_expected = energy_from_power(power_expected, freq, power_type='right_labeled')
"""))
r('pvwatts-early', N, ("""    power_dc = power_dc_rated * poa_global / poa_global_ref

    if temperature_cell is not None and gamma_pdc is not None:
        temperature_factor = (
            1 + gamma_pdc * (temperature_cell - temperature_cell_ref)
        )
        power_dc = power_dc * temperature_factor

    return power_dc
""", """    power_at_ref_temperature = power_dc_rated * poa_global / poa_global_ref
    if temperature_cell is None or gamma_pdc is None:
        return power_at_ref_temperature
    delta = temperature_cell - temperature_cell_ref
    return power_at_ref_temperature * (1 + gamma_pdc * delta)
"""))
r('energy-helpers', N, ("""    try:
        freq_interval_size_ns = \\
            pd.tseries.frequencies.to_offset(target_frequency).nanos
    except ValueError as e:
        if 'is a non-fixed frequency' in str(e):
            temp_ind = pd.date_range(power.index[0],
                                     power.index[-1],
                                     freq=target_frequency)
            temp_series = pd.Series(data=1, index=temp_ind)
            temp_diffs = _t_step_nanoseconds(temp_series)
            freq_interval_size_ns = temp_diffs.median()
        else:
            raise

    if freq_interval_size_ns""", """    freq_interval_size_ns = _interval_size_ns(power, target_frequency)

    if freq_interval_size_ns"""), ("""def _aggregate(time_series,""", """def _interval_size_ns(power, target_frequency):
    '''length of an interval of target_frequency, in nanoseconds'''
    try:
        return pd.tseries.frequencies.to_offset(target_frequency).nanos
    except ValueError as e:
        if 'is a non-fixed frequency' not in str(e):
            raise
    grid = pd.date_range(power.index[0], power.index[-1], freq=target_frequency)
    return _t_step_nanoseconds(pd.Series(data=1, index=grid)).median()


def _aggregate(time_series,"""))
r('energy-single-helper', N, ("""    if len(power) <= 1:
        # just one value, doesn't make sense to interpolate or trapz aggregate.
        # use the index frequency to determine the appropriate timescale
        if power_type == 'instantaneous':
            raise ValueError("power_type='instantaneous' is incompatible with single element "
                             "power. Use power_type='right-labeled'")
        if target_frequency is None:
            if power.index.freq is None:
                raise ValueError('Could not determine period of input power')

            target_frequency = power.index.freq
        # just raise if it's a non-fixed frequency
        interval_length_ns = \\
            pd.tseries.frequencies.to_offset(target_frequency).nanos

        energy = power * interval_length_ns / 1e9 / 3600  # ns to s to h
        energy.name = 'energy_Wh'
        return energy
""", """    if len(power) <= 1:
        return _single_energy(power, target_frequency, power_type)
"""), ("""def _aggregate(time_series,""", """def _single_energy(power, target_frequency, power_type):
    if power_type == 'instantaneous':
        raise ValueError("power_type='instantaneous' is incompatible with single element "
                         "power. Use power_type='right-labeled'")
    if target_frequency is None and power.index.freq is None:
        raise ValueError('Could not determine period of input power')
    if target_frequency is None:
        target_frequency = power.index.freq
    hours = pd.tseries.frequencies.to_offset(target_frequency).nanos / 1e9 / 3600
    energy = power * hours
    energy.name = 'energy_Wh'
    return energy


def _aggregate(time_series,"""))
r('energy-where', N, ("""    energy.loc[t_steps > max_interval_nanoseconds] = np.nan

    energy.name = 'energy_Wh'

    return energy""", """    too_long = t_steps > max_interval_nanoseconds
    energy = energy.mask(too_long)
    return energy.rename('energy_Wh')"""))
r('aggregate-locals', N, ("""        time_series = time_series.interpolate(method='time')
        time_series[gap_mask] = np.nan
        values = time_series.values
        series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
""", """        time_series = time_series.interpolate(method='time')
        time_series[gap_mask] = np.nan
        right, left = time_series.values[1:], time_series.values[:-1]
        series_sum = 0.5 * (left + right) * t_diffs_hours
"""), ("""        time_series = time_series.bfill()
        time_series[gap_mask] = np.nan
        values = time_series.values
        series_sum = values[1:] * t_diffs_hours
""", """        time_series = time_series.bfill()
        time_series[gap_mask] = np.nan
        series_sum = time_series.values[1:] * t_diffs_hours
"""), ("""    values = time_series.values

    # Identify""", """    # Identify"""))
r('aggregate-resampler', N, ("""    output_dummy = time_series.resample(
        target_frequency, closed="right", label="right", origin="start"
    ).sum()
""", """    def by_interval(series):
        return series.resample(target_frequency, closed="right", label="right", origin="start")

    output_dummy = by_interval(time_series).sum()
"""), ("""    aggregated = series_sum.resample(
        target_frequency, closed="right", label="right", origin="start"
    ).sum(min_count=1)
""", """    aggregated = by_interval(series_sum).sum(min_count=1)
"""))
r('interp-comprehension', N, ("""        out_list = []
        for col in time_series.columns:
            ts = time_series[col]
            series = _interpolate_series(ts, target_index, max_timedelta,
                                         warning_threshold)
            out_list.append(series)
        out = pd.concat(out_list, axis=1)
""", """        columns = [_interpolate_series(time_series[col], target_index, max_timedelta, warning_threshold)
                   for col in time_series.columns]
        out = pd.concat(columns, axis=1)
"""))
r('interp-gap-helper', N, ("""    if max_timedelta is None:
        max_interval_nanoseconds = 2 * df['gapsize_ns'].median()
    else:
        max_interval_nanoseconds = max_timedelta.total_seconds() * 10.0**9

    fraction""", """    max_interval_nanoseconds = _largest_gap(df['gapsize_ns'], max_timedelta)

    fraction"""), ("""def interpolate(time_series, target,""", """def _largest_gap(gaps, max_timedelta):
    if max_timedelta is not None:
        return max_timedelta.total_seconds() * 10.0**9
    return 2 * gaps.median()


def interpolate(time_series, target,"""), ("""    df_valid = df[df['gapsize_ns'] <= max_interval_nanoseconds].copy()
    df_valid['interpolated_data'] = \\
        df_valid['data'].interpolate(method='index')

    df['interpolated_data'] = df_valid['interpolated_data']

    out = pd.Series(df['interpolated_data'])
    out = out.loc[target_timestamps]
""", """    close_enough = df['gapsize_ns'] <= max_interval_nanoseconds
    interpolated = df.loc[close_enough, 'data'].interpolate(method='index')
    out = interpolated.reindex(df.index)
    out = out.loc[target_timestamps]
"""))
r('interp-tz', N, ("""    if (time_series.index.tz is None) ^ (target_index.tz is None):
""", """    series_naive = time_series.index.tz is None
    target_naive = target_index.tz is None
    if series_naive != target_naive:
"""))
r('rescale-while', N, ("""        iteration = 0
        while abs(factor - prev_factor) > convergence_threshold:
            iteration += 1
            if iteration > max_iterations:
                msg = 'Rescale did not converge within max_iterations'
                raise ConvergenceError(msg)
            prev_factor = factor
            factor = _single_rescale(irrad, irrad_sim, factor)

        return factor * irrad_sim
""", """        attempts = 0
        while abs(factor - prev_factor) > convergence_threshold:
            if attempts >= max_iterations:
                raise ConvergenceError('Rescale did not converge within max_iterations')
            prev_factor, factor = factor, _single_rescale(irrad, irrad_sim, factor)
            attempts += 1

        return factor * irrad_sim
"""))
r('rescale-guess', N, ("""        factor = (np.percentile(irrad.dropna(), 90) /
                  np.percentile(irrad_sim.dropna(), 90))
        prev_factor = 1.0
""", """        factor = initial_factor
        prev_factor = 1.0
"""), ("""        guess = np.percentile(irrad.dropna(), 90) / \\
            np.percentile(irrad_sim.dropna(), 90)
        min_result = minimize(_rmse, guess, method""", """        min_result = minimize(_rmse, initial_factor, method"""), ("""    if method == 'iterative':
        def _rmse(fact, filt):""", """    if method not in ('iterative', 'single_opt'):
        raise ValueError('Invalid method')
    initial_factor = np.percentile(irrad.dropna(), 90) / np.percentile(irrad_sim.dropna(), 90)

    if method == 'iterative':
        def _rmse(fact, filt):"""))
r('delta-index', N, ("""    return deltas, np.mean(deltas[~np.isnan(deltas)])
""", """    known = ~np.isnan(deltas)
    mean = np.mean(deltas[known])
    return deltas, mean
"""))
r('check-frequency', N, ("""    if series.index.freq is None:
        freq = pd.infer_freq(series.index)
        if freq is None:
""", """    freq = series.index.freq
    if freq is None:
        freq = pd.infer_freq(series.index)
        if freq is None:
"""), ("""            raise ValueError(error_string)
    else:
        freq = series.index.freq
    return freq
""", """            raise ValueError(error_string)
    return freq
"""))
r('tsteps', N, ("""    t_steps = np.diff(time_series.index.view('int64')).astype('float')
    t_steps = np.insert(t_steps, 0, np.nan)
    t_steps = pd.Series(index=time_series.index, data=t_steps)
    return t_steps
""", """    steps = np.diff(time_series.index.view('int64')).astype('float')
    return pd.Series(np.insert(steps, 0, np.nan), index=time_series.index)
"""))
r('rescale-for', N, ("""        iteration = 0
        while abs(factor - prev_factor) > convergence_threshold:
            iteration += 1
            if iteration > max_iterations:
                msg = 'Rescale did not converge within max_iterations'
                raise ConvergenceError(msg)
            prev_factor = factor
            factor = _single_rescale(irrad, irrad_sim, factor)

        return factor * irrad_sim
""", """        for _ in range(max_iterations):
            if abs(factor - prev_factor) <= convergence_threshold:
                break
            prev_factor = factor
            factor = _single_rescale(irrad, irrad_sim, factor)
        if abs(factor - prev_factor) > convergence_threshold:
            raise ConvergenceError('Rescale did not converge within max_iterations')

        return factor * irrad_sim
"""))
r('rescale-for-else', N, ("""        iteration = 0
        while abs(factor - prev_factor) > convergence_threshold:
            iteration += 1
            if iteration > max_iterations:
                msg = 'Rescale did not converge within max_iterations'
                raise ConvergenceError(msg)
            prev_factor = factor
            factor = _single_rescale(irrad, irrad_sim, factor)

        return factor * irrad_sim
""", """        for _ in range(max_iterations + 1):
            if abs(factor - prev_factor) <= convergence_threshold:
                return factor * irrad_sim
            prev_factor = factor
            factor = _single_rescale(irrad, irrad_sim, factor)
        raise ConvergenceError('Rescale did not converge within max_iterations')
"""))
