S = 'soiling.py'
r('cods-init', S, ("""        if np.isnan(self.pm.iloc[0]):
            first_keeper = self.pm.isna().idxmin()
            self.pm = self.pm.loc[first_keeper:]
""", """        pm = self.pm
        if pd.isna(pm.iloc[0]):
            self.pm = pm.loc[pm.isna().idxmin():]
"""))
r('cods-step', S, ("""            # Find soiling component
            if order[(ic-1) % n_steps] == 'SR':
""", """            step = order[(ic-1) % n_steps]
            # Find soiling component
            if step == 'SR':
"""), ("""            if order[(ic-1) % n_steps] == 'SC':
""", """            elif step == 'SC':
"""), ("""            if order[(ic-1) % n_steps] == 'Rd':
""", """            elif step == 'Rd':
"""))
r('cods-order-first', S, ("""        if degradation_method == 'STL' and 'Rd' in order:
            order = tuple([c for c in order if c != 'Rd'])

        if 'SR' not in order:
            raise""", """        if 'Rd' in order and degradation_method == 'STL':
            order = tuple(c for c in order if c != 'Rd')

        if not ('SR' in order):
            raise"""))
r('cods-trend', S, ("""                degradation_trend.append(pd.Series(
                    index=pi.index, data=(1 + day * yoy / 100 / 365.0)))
                yoy_save.append(yoy)
""", """                yearly_fraction = yoy / 100
                trend = pd.Series(1 + yearly_fraction * day / 365.0, index=pi.index)
                yoy_save.append(yoy)
                degradation_trend.append(trend)
"""))
r('cods-model', S, ("""            total_model = (degradation_trend[-1] *
                           seasonal_component[-1] *
                           soiling_ratio[-1])
            residuals = pi / total_model
            residual_shift = residuals.mean()
            total_model *= residual_shift
            convergence_metric.append(_RMSE(pi, total_model))
""", """            total_model = soiling_ratio[-1] * seasonal_component[-1] * degradation_trend[-1]
            residuals = pi / total_model
            residual_shift = residuals.mean()
            convergence_metric.append(_RMSE(pi, total_model * residual_shift))
"""))
r('cods-final', S, ("""        df_out.seasonal_component = seasonal_component[-1]
        df_out.degradation_trend = degradation_trend[-1]
        degradation = yoy_save[-1]
        final_kdf = soiling_dfs[-1]
        df_out.soiling_ratio = final_kdf.soiling_ratio
        df_out.soiling_rates = final_kdf.soiling_rates
        df_out.cleaning_events = final_kdf.cleaning_events
""", """        final_kdf = soiling_dfs[-1]
        for name in ('soiling_ratio', 'soiling_rates', 'cleaning_events'):
            df_out[name] = final_kdf[name]
        df_out['seasonal_component'] = seasonal_component[-1]
        df_out['degradation_trend'] = degradation_trend[-1]
        degradation = yoy_save[-1]
"""))
r('cods-loss', S, ("""        soiling_loss = (1 - df_out.soiling_ratio).mean() * 100

        # Total model
        df_out.total_model = (df_out.soiling_ratio *
                              df_out.seasonal_component *
                              df_out.degradation_trend)
        df_out.residuals = pi / df_out.total_model
        residual_shift = df_out.residuals.mean()
        df_out.total_model *= residual_shift
""", """        soiling_loss = 100 * (1 - df_out.soiling_ratio).mean()

        # Total model
        model = df_out.degradation_trend * df_out.seasonal_component * df_out.soiling_ratio
        df_out.residuals = pi / model
        residual_shift = df_out.residuals.mean()
        df_out.total_model = model * residual_shift
"""))
r('cods-strength', S, ("""        if soiling_signal_strength < soiling_significance:
            if verbose:
                print('Soiling signal is small relative to the noise')
            small_soiling_signal = True
            df_out""", """        small_soiling_signal = bool(soiling_signal_strength < soiling_significance)
        if small_soiling_signal:
            if verbose:
                print('Soiling signal is small relative to the noise')
            df_out"""))
r('cods-results', S, ("""        results_dict = dict(
            degradation=degradation,
            soiling_loss=soiling_loss,
            residual_shift=residual_shift,
            RMSE=RMSE,
            small_soiling_signal=small_soiling_signal,
            adf_res=adf_res
        )

        return df_out, results_dict
""", """        return df_out, {
            'adf_res': adf_res,
            'degradation': degradation,
            'residual_shift': residual_shift,
            'RMSE': RMSE,
            'small_soiling_signal': small_soiling_signal,
            'soiling_loss': soiling_loss,
        }
"""))
r('cods-converge', S, ("""                relative_improvement = ((convergence_metric[-n_steps-1] -
                                         convergence_metric[-1]) /
                                        convergence_metric[-n_steps-1])
                if perfect_cleaning and (
                        ic >= max_iterations / 2 or
                        relative_improvement < convergence_criterion):
""", """                previous = convergence_metric[-n_steps-1]
                relative_improvement = (previous - convergence_metric[-1]) / previous
                stalled = relative_improvement < convergence_criterion
                if perfect_cleaning and (stalled or ic >= max_iterations / 2):
"""), ("""                elif (not perfect_cleaning and
                      (ic >= max_iterations or
                        (ic >= change_point + n_steps and
                         relative_improvement <
                         convergence_criterion))):
""", """                elif not perfect_cleaning and (
                        ic >= max_iterations or (ic >= change_point + n_steps and stalled)):
"""), ("""                        if relative_improvement < convergence_criterion:
                            print""", """                        if stalled:
                            print"""))
r('cods-break', S, ("""                    ic = max_iterations

        # Initialize output""", """                    break

        # Initialize output"""))
r('cods-stl', S, ("""                season_dummy = pi / soiling_ratio[-1]  # Decompose signal
                if season_dummy.isna().sum() > 0:
                    season_dummy.interpolate('linear', inplace=True)
                season_dummy = season_dummy.apply(np.log)  # Log transform
""", """                season_dummy = pi / soiling_ratio[-1]  # Decompose signal
                if season_dummy.isna().any():
                    season_dummy = season_dummy.interpolate('linear')
                season_dummy = np.log(season_dummy)  # Log transform
"""))
r('boot-combos', S, ("""        index_list = list(itertools.product([0, 1], repeat=len(parameter_alternatives)))
        combination_of_parameters = [[parameter_alternatives[j][indexes[j]]
                                     for j in range(len(parameter_alternatives))]
                                     for indexes in index_list]
        nr_models = len(index_list)
""", """        index_list = list(itertools.product([0, 1], repeat=len(parameter_alternatives)))
        combination_of_parameters = [[alternative[i] for alternative, i
                                      in zip(parameter_alternatives, indexes)]
                                     for indexes in index_list]
        nr_models = len(combination_of_parameters)
"""))
r('boot-reps', S, ("""        if reps % nr_models != 0:
            reps += nr_models - reps % nr_models
""", """        remainder = reps % nr_models
        if remainder:
            reps = reps + nr_models - remainder
"""))
r('boot-weights', S, ("""        weights = 1 / RMSEs / (1 + SR_is_one_fraction)
        weights /= np.sum(weights)
""", """        weights = 1 / (RMSEs * (1 + SR_is_one_fraction))
        weights = weights / weights.sum()
"""), ("""        weights = 1 / np.array(RMSEs) / (1 + np.array(SR_is_1))
        weights /= np.sum(weights)
""", """        raw_weights = 1 / np.array(RMSEs) / (1 + np.array(SR_is_1))
        weights = raw_weights / np.sum(raw_weights)
"""))
r('boot-best', S, ("""        self.initial_fits = [df for df in list_of_df_out]
        result_df = list_of_df_out[np.argmax(weights)]
""", """        self.initial_fits = list(list_of_df_out)
        best = np.argmax(weights)
        result_df = list_of_df_out[best]
"""), ("""            self.residual_shift = results[np.argmax(weights)]['residual_shift']
            self.RMSE = results[np.argmax(weights)]['RMSE']
            self.adf_results = results[np.argmax(weights)]['adf_res']
            YOY = RdToolsDeg.degradation_year_on_year(pi)
            self.degradation = [YOY[0], YOY[1][0], YOY[1][1]]
""", """            self.residual_shift = results[best]['residual_shift']
            self.RMSE = results[best]['RMSE']
            self.adf_results = results[best]['adf_res']
            rd, rd_ci, _ = RdToolsDeg.degradation_year_on_year(pi)
            self.degradation = [rd, rd_ci[0], rd_ci[1]]
"""))
r('boot-ci', S, ("""        ci_low_edge = (50 - confidence_level / 2) / 100
        ci_high_edge = (50 + confidence_level / 2) / 100
""", """        half = confidence_level / 200
        ci_low_edge, ci_high_edge = 0.5 - half, 0.5 + half
"""))
r('boot-interval', S, ("""        self.degradation = [np.dot(bt_deg, weights),
                            np.quantile(bt_deg, ci_low_edge),
                            np.quantile(bt_deg, ci_high_edge)]
""", """        def summarize(values):
            return [np.dot(values, weights),
                    np.quantile(values, ci_low_edge),
                    np.quantile(values, ci_high_edge)]

        self.degradation = summarize(bt_deg)
"""), ("""        self.soiling_loss = [np.dot(bt_SL, weights),
                             np.quantile(bt_SL, ci_low_edge),
                             np.quantile(bt_SL, ci_high_edge)]
""", """        self.soiling_loss = summarize(bt_SL)
"""))
r('boot-columns', S, ("""        df_out['SR_low'] = concat_SR.quantile(ci_low_edge, 1)
        df_out['SR_high'] = concat_SR.quantile(ci_high_edge, 1)
        df_out['rates_low'] = concat_r_s.quantile(ci_low_edge, 1)
        df_out['rates_high'] = concat_r_s.quantile(ci_high_edge, 1)
""", """        for label, table in (('SR', concat_SR), ('rates', concat_r_s)):
            df_out[label + '_low'] = table.quantile(ci_low_edge, axis=1)
            df_out[label + '_high'] = table.quantile(ci_high_edge, axis=1)
"""))
r('boot-concat', S, ("""        concat_tot_mod = pd.concat([kdf.total_model for kdf in bt_kdfs], axis=1)
        concat_SR = pd.concat([kdf.soiling_ratio for kdf in bt_kdfs], axis=1)
        concat_r_s = pd.concat([kdf.soiling_rates for kdf in bt_kdfs], axis=1)
        concat_ce = pd.concat([kdf.cleaning_events for kdf in bt_kdfs], axis=1)
""", """        def collect(column):
            return pd.concat([kdf[column] for kdf in bt_kdfs], axis=1)

        concat_tot_mod = collect('total_model')
        concat_SR = collect('soiling_ratio')
        concat_r_s = collect('soiling_rates')
        concat_ce = collect('cleaning_events')
"""))
r('boot-save', S, ("""                if results_dict['adf_res'][1] < .05:  # Save the results
                    bt_kdfs.append(kdf)
                    adfs.append(results_dict['adf_res'][0])
""", """                adf_statistic, p_value = results_dict['adf_res'][:2]
                if p_value < .05:  # Save the results
                    bt_kdfs.append(kdf)
                    adfs.append(adf_statistic)
"""))
r('boot-draws', S, ("""                pn = np.random.uniform(process_noise / 1.5, process_noise * 1.5)
                renormalize_SR = np.random.choice([None,
                                                   np.random.uniform(.5, .95)])
                ffill = np.random.choice([True, False])
""", """                lower_noise, upper_noise = process_noise / 1.5, process_noise * 1.5
                pn = np.random.uniform(lower_noise, upper_noise)
                quantile = np.random.uniform(.5, .95)
                renormalize_SR = np.random.choice([None, quantile])
                ffill = np.random.choice([True, False])
"""))
r('boot-final', S, ("""        df_out.residuals = pi / df_out.total_model
        self.residual_shift = df_out.residuals.mean()
        df_out.total_model *= self.residual_shift
        self.RMSE""", """        df_out['residuals'] = pi / df_out['total_model']
        self.residual_shift = df_out['residuals'].mean()
        df_out['total_model'] = df_out['total_model'] * self.residual_shift
        self.RMSE"""))
r('kal-fill', S, ("""        if ffill:
            rolling_median_13 = \\
                zs_series.ffill().rolling(13, center=True).median().ffill().bfill()
            rolling_median_7 = \\
                zs_series.ffill().rolling(7, center=True).median().ffill().bfill()
        else:
            rolling_median_13 = \\
                zs_series.bfill().rolling(13, center=True).median().ffill().bfill()
            rolling_median_7 = \\
                zs_series.bfill().rolling(7, center=True).median().ffill().bfill()
""", """        filled = zs_series.ffill() if ffill else zs_series.bfill()

        def smooth(days):
            return filled.rolling(days, center=True).median().ffill().bfill()

        rolling_median_13 = smooth(13)
        rolling_median_7 = smooth(7)
"""))
r('kal-sr', S, ("""                    dfk.soiling_ratio = 1 / pi_dummy.ffill() * dfk.smooth_pi
""", """                    dfk.soiling_ratio = dfk.smooth_pi / pi_dummy.ffill()
"""))
r('kal-clip', S, ("""            if clip_soiling:
                dfk['soiling_ratio'] = dfk['soiling_ratio'].clip(upper=1)
                dfk.soiling_rates = dfk.smooth_rates
                dfk.loc[dfk.soiling_ratio.diff() == 0, 'soiling_rates'] = 0
""", """            if clip_soiling:
                dfk['soiling_ratio'] = np.minimum(dfk['soiling_ratio'], 1)
                flat = dfk['soiling_ratio'].diff() == 0
                dfk['soiling_rates'] = dfk['smooth_rates'].where(~flat, 0)
"""))
r('kal-prune', S, ("""            if (dfk.smooth_rates > max_soiling_rates).sum() > 1:
                exceeding_rates = dfk.smooth_rates > max_soiling_rates
                new_cleaning""", """            exceeding_rates = dfk.smooth_rates > max_soiling_rates
            if exceeding_rates.sum() > 1:
                new_cleaning"""))
r('kal-changed', S, ("""            if not ce_0 == cleaning_events:
                f = self""", """            if ce_0 != cleaning_events:
                f = self"""))
r('kal-loop', S, ("""        counter = 0
        while counter < pruning_iterations:
            counter += 1
            ce_0""", """        counter = 0
        while pruning_iterations > counter:
            counter = counter + 1
            ce_0"""))
r('kal-days', S, ("""        nr_days_dummy.loc[cleaning_events] = [int(date-dfk.index[0])
                                              for date in cleaning_events]
        nr_days_dummy.iloc[0] = 0
        dfk.days_since_ce = range(len(zs_series)) - nr_days_dummy.ffill()
""", """        first_day = dfk.index[0]
        nr_days_dummy.loc[cleaning_events] = [int(date - first_day) for date in cleaning_events]
        nr_days_dummy.iloc[0] = 0
        dfk['days_since_ce'] = range(len(zs_series)) - nr_days_dummy.ffill()
"""))
r('forward-pass', S, ("""        for i, z in enumerate(zs):
            if 7 < i < N-7 and (i in cleaning_events or i in soiling_events):
""", """        for i in range(N):
            z = zs[i]
            has_event = i in cleaning_events or i in soiling_events
            if has_event and 7 < i < N-7:
"""))
