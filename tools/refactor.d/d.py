S = 'soiling.py'
r('srr-init-helper', S, ("""        if pd.infer_freq(self.pm.index) != 'D':
            raise ValueError('Daily performance metric series must have '
                             'daily frequency')

        if pd.infer_freq(self.insolation_daily.index) != 'D':
            raise ValueError('Daily insolation series must have '
                             'daily frequency')

        if self.precipitation_daily is not None:
            if pd.infer_freq(self.precipitation_daily.index) != 'D':
                raise ValueError('Precipitation series must have '
                                 'daily frequency')
""", """        self._require_daily(self.pm, 'Daily performance metric')
        self._require_daily(self.insolation_daily, 'Daily insolation')
        if self.precipitation_daily is not None:
            self._require_daily(self.precipitation_daily, 'Precipitation')

    @staticmethod
    def _require_daily(series, label):
        if pd.infer_freq(series.index) == 'D':
            return
        raise ValueError(label + ' series must have daily frequency')
"""))
r('srr-rename', S, ("""        df = self.pm.to_frame()
        df.columns = ['pi']
        df_insol = self.insolation_daily.to_frame()
        df_insol.columns = ['insol']

        df = df.join(df_insol)
        precip = self.precipitation_daily
        if precip is not None:
            df_precip = precip.to_frame()
            df_precip.columns = ['precip']
            df = df.join(df_precip)
        else:
            df['precip'] = 0
""", """        df = self.pm.to_frame(name='pi').join(self.insolation_daily.to_frame(name='insol'))
        if self.precipitation_daily is None:
            df['precip'] = 0
        else:
            df = df.join(self.precipitation_daily.to_frame(name='precip'))
"""))
r('srr-valid-range', S, ("""        start = df[~df.pi.isnull()].index[0]
        end = df[~df.pi.isnull()].index[-1]
        df = df[start:end]
""", """        observed = df[df['pi'].notna()].index
        start, end = observed[0], observed[-1]
        df = df.loc[start:end].copy()
"""))
r('srr-first-valid', S, ("""        start = df[~df.pi.isnull()].index[0]
        end = df[~df.pi.isnull()].index[-1]
        df = df[start:end]
""", """        start = df['pi'].first_valid_index()
        end = df['pi'].last_valid_index()
        df = df.loc[start:end]
"""))
r('srr-recenter', S, ("""        if recenter:
            oneyear = start + pd.Timedelta('364d')
            renorm = df.loc[start:oneyear, 'pi'].median()
        else:
            renorm = 1
""", """        renorm = 1
        if recenter:
            renorm = df['pi'].loc[:start + pd.Timedelta(days=364)].median()
"""))
r('srr-outages', S, ("""        bfill = df['pi_norm'].bfill(limit=day_scale)
        ffill = df['pi_norm'].ffill(limit=day_scale)
        out_start = (~df['pi_norm'].isnull() & bfill.shift(-1).isnull())
        out_end = (~df['pi_norm'].isnull() & ffill.shift(1).isnull())
""", """        present = df['pi_norm'].notnull()
        out_start = present & df['pi_norm'].bfill(limit=day_scale).shift(-1).isnull()
        out_end = present & df['pi_norm'].ffill(limit=day_scale).shift(1).isnull()
"""))
r('srr-threshold', S, ("""            deltas = abs(df.delta)
            clean_threshold = deltas.quantile(0.75) + \\
                outlier_factor * (deltas.quantile(0.75) - deltas.quantile(0.25))
""", """            deltas = df.delta.abs()
            q1, q3 = deltas.quantile(0.25), deltas.quantile(0.75)
            iqr = q3 - q1
            clean_threshold = q3 + outlier_factor * iqr
"""))
r('srr-criterion', S, ("""        if clean_criterion == 'precip_and_shift':
            # Detect which cleaning events are associated with rain
            # within a 3 day window
            precip_event = precip_event.rolling(
                3, center=True, min_periods=1).apply(any).astype(bool)
            df['clean_event'] = (df['clean_event_detected'] & precip_event)
        elif clean_criterion == 'precip_or_shift':
            df['clean_event'] = (df['clean_event_detected'] | precip_event)
        elif clean_criterion == 'precip':
            df['clean_event'] = precip_event
        elif clean_criterion == 'shift':
            df['clean_event'] = df['clean_event_detected']
        else:
""", """        shift_event = df['clean_event_detected']
        if clean_criterion == 'shift':
            clean_event = shift_event
        elif clean_criterion == 'precip':
            clean_event = precip_event
        elif clean_criterion == 'precip_or_shift':
            clean_event = shift_event | precip_event
        elif clean_criterion == 'precip_and_shift':
            # rain within a 3 day window
            nearby = precip_event.rolling(3, center=True, min_periods=1).apply(any).astype(bool)
            clean_event = shift_event & nearby
        else:
"""), ("""        df['clean_event'] = df.clean_event | out_start | out_end
""", """        df['clean_event'] = clean_event | out_start | out_end
"""))
r('srr-precip-max', S, ("""            precip_event = precip_event.rolling(
                3, center=True, min_periods=1).apply(any).astype(bool)
""", """            precip_event = precip_event.rolling(
                3, center=True, min_periods=1).max().astype(bool)
"""))
r('srr-resloop', S, ("""        if trim:
            # ignore first and last interval
            res_loop = sorted(list(set(daily_df['run'])))[1:-1]
        else:
            res_loop = sorted(list(set(daily_df['run'])))
""", """        res_loop = sorted(set(daily_df['run']))
        if trim:
            # ignore first and last interval
            res_loop = res_loop[1:-1]
"""))
r('srr-interval', S, ("""            length = (run['day'].iloc[-1] - run['day'].iloc[0])
            start_day = run['day'].iloc[0]
            end_day = run['day'].iloc[-1]
            start = run.index[0]
            end = run.index[-1]
            run_filtered = run[run.pi_norm > 0]
            # use the filtered version if it contains any points
            # otherwise use the unfiltered version to populate a
            # valid=False row
            if not run_filtered.empty:
                run = run_filtered
""", """            start, end = run.index[0], run.index[-1]
            start_day, end_day = run['day'].iloc[0], run['day'].iloc[-1]
            length = end_day - start_day
            positive = run[run.pi_norm > 0]
            # fall back on the unfiltered run to populate a valid=False row
            run = run if positive.empty else positive
"""))
r('srr-interval-len', S, ("""            if not run_filtered.empty:
                run = run_filtered
""", """            if len(run_filtered) > 0:
                run = run_filtered
"""))
r('srr-fit', S, ("""                fit = theilslopes(run.pi_norm, run.day)
                fit_poly = np.poly1d(fit[0:2])
                result_dict['run_slope'] = fit[0]
                result_dict['run_slope_low'] = fit[2]
                result_dict['run_slope_high'] = min([0.0, fit[3]])
                result_dict['inferred_start_loss'] = fit_poly(start_day)
                result_dict['inferred_end_loss'] = fit_poly(end_day)
                result_dict['valid'] = True
""", """                slope, intercept, slope_low, slope_high = theilslopes(run.pi_norm, run.day)
                line = np.poly1d([slope, intercept])
                result_dict.update({
                    'run_slope': slope,
                    'run_slope_low': slope_low,
                    'run_slope_high': min(0.0, slope_high),
                    'inferred_start_loss': line(start_day),
                    'inferred_end_loss': line(end_day),
                    'valid': True,
                })
"""))
r('srr-fit-line', S, ("""                result_dict['inferred_start_loss'] = fit_poly(start_day)
                result_dict['inferred_end_loss'] = fit_poly(end_day)
""", """                result_dict['inferred_start_loss'] = fit[0] * start_day + fit[1]
                result_dict['inferred_end_loss'] = fit[0] * end_day + fit[1]
"""))
r('srr-fit-helper', S, ("""            run_filtered = run[run.pi_norm > 0]
            # use""", """            run_filtered = run[run['pi_norm'] > 0]
            # use"""), ("""            if len(run) > min_interval_length and run.pi_norm.sum() > 0:
                fit = theilslopes(run.pi_norm, run.day)
                fit_poly = np.poly1d(fit[0:2])
                result_dict['run_slope'] = fit[0]
                result_dict['run_slope_low'] = fit[2]
                result_dict['run_slope_high'] = min([0.0, fit[3]])
                result_dict['inferred_start_loss'] = fit_poly(start_day)
                result_dict['inferred_end_loss'] = fit_poly(end_day)
                result_dict['valid'] = True
            result_list.append(result_dict)
""", """            if len(run) > min_interval_length and run.pi_norm.sum() > 0:
                result_dict.update(_fit_run(run, start_day, end_day))
            result_list.append(result_dict)
"""), ("""class NoValidIntervalError(Exception):
    '''raised when no valid rows appear in the result dataframe'''
    pass
""", """class NoValidIntervalError(Exception):
    '''raised when no valid rows appear in the result dataframe'''
    pass


def _fit_run(run, start_day, end_day):
    fit = theilslopes(run.pi_norm, run.day)
    poly = np.poly1d(fit[0:2])
    return dict(run_slope=fit[0], run_slope_low=fit[2], run_slope_high=min([0.0, fit[3]]),
                inferred_start_loss=poly(start_day), inferred_end_loss=poly(end_day), valid=True)
"""))
r('srr-filt', S, ("""        results.loc[filt, 'run_slope'] = 0
        results.loc[filt, 'run_slope_low'] = 0
        results.loc[filt, 'run_slope_high'] = 0
        results.loc[filt, 'valid'] = False
""", """        for column in ('run_slope', 'run_slope_low', 'run_slope_high'):
            results.loc[filt, column] = 0
        results['valid'] = results['valid'] & ~filt
"""))
r('srr-filt2', S, ("""        results.loc[filt, 'run_slope'] = 0
        results.loc[filt, 'run_slope_low'] = 0
        results.loc[filt, 'run_slope_high'] = 0
        results.loc[filt, 'valid'] = False
""", """        results.loc[filt, ['run_slope', 'run_slope_low', 'run_slope_high']] = 0
        results.loc[filt, 'valid'] = False
"""), ("""            (results.max_neg_step <= -1.0 * max_negative_step)
""", """            (results.max_neg_step <= -max_negative_step)
"""))
r('srr-recovery', S, ("""        results['inferred_recovery'] = np.clip(
            results.next_inferred_start_loss - results.inferred_end_loss,
            0, 1)
""", """        results['inferred_recovery'] = (
            results.next_inferred_start_loss - results.inferred_end_loss).clip(0, 1)
"""), ("""        results['next_inferred_start_loss'] = np.clip(
            results[results.valid].inferred_start_loss.shift(-1),
            0, 1)
""", """        valid_starts = results.loc[results.valid, 'inferred_start_loss']
        results['next_inferred_start_loss'] = valid_starts.shift(-1).clip(lower=0, upper=1)
"""))
r('srr-none-valid', S, ("""        if len(results[results.valid]) == 0:
            raise""", """        if not results.valid.any():
            raise"""))
r('srr-derate', S, ("""        pm_frame_out['loss_perfect_clean'] = \\
            pm_frame_out.start_loss + \\
            pm_frame_out.days_since_clean * pm_frame_out.run_slope
        # filling the flat intervals may need to be recalculated
        # for different assumptions
        pm_frame_out.loss_perfect_clean = \\
            pm_frame_out.loss_perfect_clean.fillna(1)

        pm_frame_out['loss_inferred_clean'] = \\
            pm_frame_out.inferred_start_loss + \\
            pm_frame_out.days_since_clean * pm_frame_out.run_slope
        # filling the flat intervals may need to be recalculated
        # for different assumptions
        pm_frame_out.loss_inferred_clean = \\
            pm_frame_out.loss_inferred_clean.fillna(1)
""", """        accumulated = pm_frame_out['days_since_clean'] * pm_frame_out['run_slope']
        # filling the flat intervals may need to be recalculated
        # for different assumptions
        pm_frame_out['loss_perfect_clean'] = (pm_frame_out['start_loss'] + accumulated).fillna(1)
        pm_frame_out['loss_inferred_clean'] = (
            pm_frame_out['inferred_start_loss'] + accumulated).fillna(1)
"""))
r('srr-groups', S, ("""            group_list = []
            group = 0
            for x in results_rand.valid:
                if x:
                    group += 1
                group_list.append(group)

            results_rand['group'] = group_list
""", """            results_rand['group'] = results_rand.valid.cumsum()
"""))
r('srr-monte-methods', S, ("""            if (method == 'half_norm_clean') or (method == 'random_clean'):
                # Randomize""", """            if method in ('half_norm_clean', 'random_clean'):
                # Randomize"""), ("""        if (method == 'half_norm_clean') or (method == 'random_clean'):
            valid_fraction = self.analyzed_daily_df['valid'].mean()
            if valid_fraction <= 0.8:
""", """        if method in ['half_norm_clean', 'random_clean']:
            if self.analyzed_daily_df['valid'].mean() <= 0.8:
"""))
r('srr-monte-update', S, ("""                valid_update = pd.DataFrame()
                valid_update['start_loss'] = start_list
                valid_update['end_loss'] = end_list
                valid_update.index = valid_intervals.index
                results_rand.update(valid_update)
""", """                valid_update = pd.DataFrame({'start_loss': start_list, 'end_loss': end_list},
                                            index=valid_intervals.index)
                results_rand.update(valid_update)
"""))
r('srr-monte-loop', S, ("""                for i, row in valid_intervals.iterrows():
                    start_list.append(inter_start)
                    end = inter_start + row.run_loss
                    end_list.append(end)

                    if method == 'half_norm_clean':
                        # Use a half normal with the inferred clean at the
                        # 3sigma point
                        x = np.clip(end + row.inferred_recovery, 0, 1)
                        inter_start = 1 - abs(np.random.normal(0.0, (1 - x) / 3))
                    elif method == 'random_clean':
                        inter_start = np.random.uniform(end, 1)
""", """                for _, row in valid_intervals.iterrows():
                    end = inter_start + row['run_loss']
                    start_list.append(inter_start)
                    end_list.append(end)
                    if method == 'random_clean':
                        inter_start = np.random.uniform(end, 1)
                    else:
                        # half normal with the inferred clean at 3 sigma
                        recovered = np.clip(end + row['inferred_recovery'], 0, 1)
                        sigma = (1 - recovered) / 3
                        inter_start = 1 - abs(np.random.normal(0.0, sigma))
"""))
r('srr-monte-helper', S, ("""                    if method == 'half_norm_clean':
                        # Use a half normal with the inferred clean at the
                        # 3sigma point
                        x = np.clip(end + row.inferred_recovery, 0, 1)
                        inter_start = 1 - abs(np.random.normal(0.0, (1 - x) / 3))
                    elif method == 'random_clean':
                        inter_start = np.random.uniform(end, 1)
""", """                    inter_start = self._draw_start(method, end, row.inferred_recovery)
"""), ("""    def run(self, reps=1000, day_scale=13, clean_threshold='infer',
            trim=False""", """    @staticmethod
    def _draw_start(method, end, recovery):
        if method == 'half_norm_clean':
            # Use a half normal with the inferred clean at the 3sigma point
            x = np.clip(end + recovery, 0, 1)
            return 1 - abs(np.random.normal(0.0, (1 - x) / 3))
        return np.random.uniform(end, 1)

    def run(self, reps=1000, day_scale=13, clean_threshold='infer',
            trim=False"""))
r('srr-monte-if', S, ("""                if len(groups) > 0:
                    for g in groups:
                        rows""", """                if groups:
                    for g in groups:
                        rows"""), ("""                        n = len(rows)
                        low = rows.iloc[0].previous_end
                        high = rows.iloc[0].next_start
                        level = np.random.uniform(low, high)
                        replace_levels.append(np.full(n, level))
""", """                        first = rows.iloc[0]
                        level = np.random.uniform(first.previous_end, first.next_start)
                        replace_levels.append(np.full(len(rows), level))
"""))
r('srr-monte-ratio', S, ("""            df_rand['soil_insol'] = df_rand.loss * df_rand.insol

            soiling_ratio = (
                df_rand.soil_insol.sum() / df_rand.insol[
                    ~df_rand.soil_insol.isnull()].sum()
            )
            monte_losses.append(soiling_ratio)
            random_profile = df_rand['loss'].copy()
            random_profile.name = 'stochastic_soiling_profile'
            random_profiles.append(random_profile)
""", """            df_rand['soil_insol'] = df_rand['loss'] * df_rand['insol']

            counted = df_rand['soil_insol'].notnull()
            monte_losses.append(df_rand['soil_insol'].sum() / df_rand.loc[counted, 'insol'].sum())
            random_profiles.append(df_rand['loss'].rename('stochastic_soiling_profile'))
"""))
r('srr-monte-perfect', S, ("""                for i, row in results_rand.iterrows():
                    start_list.append(inter_start)
                    end = inter_start + row.run_loss
                    inter_start = 1
                results_rand['start_loss'] = start_list
""", """                results_rand['start_loss'] = 1.0
"""))
r('srr-run-percentiles', S, ("""        result = np.percentile(self.monte_losses,
                               [50,
                                50.0 - half_ci,
                                50.0 + half_ci,
                                100 - exceedance_prob])
        P_level = result[3]
""", """        levels = [50, 50.0 - half_ci, 50.0 + half_ci, 100 - exceedance_prob]
        result = np.percentile(self.monte_losses, levels)
        P_level = result[-1]
"""))
r('srr-run-three', S, ("""        result = np.percentile(self.monte_losses,
                               [50,
                                50.0 - half_ci,
                                50.0 + half_ci,
                                100 - exceedance_prob])
        P_level = result[3]
""", """        sr_median = np.percentile(self.monte_losses, 50)
        sr_ci = np.percentile(self.monte_losses, [50.0 - half_ci, 50.0 + half_ci])
        P_level = np.percentile(self.monte_losses, 100 - exceedance_prob)
"""), ("        return (result[0], result[1:3], calc_info)", "        return (sr_median, sr_ci, calc_info)"))
r('srr-run-rename', S, ("""        intervals_out.rename(columns={'run_slope': 'soiling_rate',
                                      'run_slope_high': 'soiling_rate_high',
                                      'run_slope_low': 'soiling_rate_low',
                                      }, inplace=True)
""", """        new_names = {'run_slope': 'soiling_rate',
                     'run_slope_high': 'soiling_rate_high',
                     'run_slope_low': 'soiling_rate_low'}
        intervals_out = intervals_out.rename(columns=new_names)
"""), ("        sr_perfect = df_d[df_d['valid']]['loss_perfect_clean']\n", "        sr_perfect = df_d.loc[df_d['valid'], 'loss_perfect_clean']\n"))
r('srr-wrapper', S, ("""    sr, sr_ci, soiling_info = srr.run(
        reps=reps,
        day_scale=day_scale,
        clean_threshold=clean_threshold,
        trim=trim,
        method=method,
        clean_criterion=clean_criterion,
        precip_threshold=precip_threshold,
        min_interval_length=min_interval_length,
        exceedance_prob=exceedance_prob,
        confidence_level=confidence_level,
        recenter=recenter,
        max_relative_slope_error=max_relative_slope_error,
        max_negative_step=max_negative_step,
        outlier_factor=outlier_factor)

    return sr, sr_ci, soiling_info
""", """    options = dict(
        day_scale=day_scale,
        clean_threshold=clean_threshold,
        trim=trim,
        method=method,
        clean_criterion=clean_criterion,
        precip_threshold=precip_threshold,
        min_interval_length=min_interval_length,
        exceedance_prob=exceedance_prob,
        confidence_level=confidence_level,
        recenter=recenter,
        max_relative_slope_error=max_relative_slope_error,
        max_negative_step=max_negative_step,
        outlier_factor=outlier_factor)
    return srr.run(reps, **options)
"""))
r('annual-weights', S, ("""    all_profiles = pd.concat(stochastic_soiling_profiles, axis=1)
    all_profiles = all_profiles.dropna()
""", """    all_profiles = pd.concat(stochastic_soiling_profiles, axis=1).dropna()
"""), ("""    all_annual_iwsr = all_annual_weighted_sums.multiply(
        1/annual_insolation, axis=0)
""", """    all_annual_iwsr = all_annual_weighted_sums.divide(annual_insolation, axis=0)
"""), ("""        'soiling_ratio_low': all_annual_iwsr.quantile(
            0.5 - confidence_level/2/100, axis=1),
        'soiling_ratio_high': all_annual_iwsr.quantile(
            0.5 + confidence_level/2/100, axis=1),
""", """        'soiling_ratio_low': all_annual_iwsr.quantile(
            0.5 - confidence_level/200, axis=1),
        'soiling_ratio_high': all_annual_iwsr.quantile(
            0.5 + confidence_level/200, axis=1),
"""))
r('annual-frame', S, ("""    annual_soiling = pd.DataFrame({
        'soiling_ratio_median': all_annual_iwsr.quantile(0.5, axis=1),
""", """    annual_soiling = pd.DataFrame({
        'soiling_ratio_median': all_annual_iwsr.median(axis=1),
"""), ("""    annual_soiling.index.name = 'year'
    annual_soiling = annual_soiling.reset_index()

    return annual_soiling
""", """    return annual_soiling.rename_axis('year').reset_index()
"""))
r('count-month', S, ("""    days = pd.date_range(start, end)
    months = [x.month for x in days]
    out_dict = {}
    for month in range(1, 13):
        out_dict[month] = months.count(month)

    return out_dict
""", """    months = [x.month for x in pd.date_range(start, end)]
    return {month: months.count(month) for month in range(1, 13)}
"""))
r('monthly-counts', S, ("""    month_counts = []
    for _, row in intervals.iterrows():
        month_counts.append(_count_month_days(row['start'], row['end']))
""", """    month_counts = [_count_month_days(row['start'], row['end'])
                    for _, row in intervals.iterrows()]
"""))
r('monthly-filter', S, ("""    high = soiling_interval_summary['soiling_rate_high']
    low = soiling_interval_summary['soiling_rate_low']
    rate = soiling_interval_summary['soiling_rate']
    rel_error = 100 * abs((high - low) / rate)
    intervals = soiling_interval_summary[
        (soiling_interval_summary['length'] >= min_interval_length) &
        (soiling_interval_summary['valid']) &
        (rel_error <= max_relative_slope_error)
    ].copy()
""", """    s = soiling_interval_summary
    spread = s['soiling_rate_high'] - s['soiling_rate_low']
    rel_error = (spread / s['soiling_rate']).abs() * 100
    keep = s['valid'] & (s['length'] >= min_interval_length)
    keep = keep & (rel_error <= max_relative_slope_error)
    intervals = s.loc[keep].copy()
"""))
r('monthly-draws', S, ("""        for _, row in relevant_intervals.iterrows():
            rates.append(np.random.uniform(
                row['soiling_rate_low'],
                row['soiling_rate_high'],
                row[sample_col]))

        rates = [x for sublist in rates for x in sublist]

        if rates:
            monthly_rate_data.append(np.quantile(rates,
                                                 [0.5, ci_quantiles[0],
                                                  ci_quantiles[1]]))
        else:
            monthly_rate_data.append(np.array([np.nan]*3))
""", """        for _, row in relevant_intervals.iterrows():
            draws = np.random.uniform(
                row['soiling_rate_low'],
                row['soiling_rate_high'],
                row[sample_col])
            rates.extend(draws)

        if not rates:
            monthly_rate_data.append(np.full(3, np.nan))
        else:
            monthly_rate_data.append(np.quantile(rates, [0.5] + ci_quantiles))
"""))
r('monthly-once', S, ("""        if days_in_month.sum() > 0:
            intervals[sample_col] = np.ceil(
                days_in_month / days_in_month.sum() * reps)
        else:
            intervals[sample_col] = 0
        intervals[sample_col] = intervals[sample_col].astype(int)
""", """        total = days_in_month.sum()
        if total > 0:
            samples = np.ceil(days_in_month / total * reps).astype(int)
        else:
            samples = 0
        intervals[sample_col] = samples
"""))
