A = 'analysis_chains.py'
V_ = 'availability.py'
r('ta-init-helper', A, ("""        if poa_global is not None:
            poa_global = normalization.interpolate(poa_global, pv.index, max_timedelta)
        if temperature_cell is not None:
            temperature_cell = normalization.interpolate(
                temperature_cell, pv.index, max_timedelta
            )
        if temperature_ambient is not None:
            temperature_ambient = normalization.interpolate(
                temperature_ambient, pv.index, max_timedelta
            )
        if power_expected is not None:
            power_expected = normalization.interpolate(
                power_expected, pv.index, max_timedelta
            )
        if isinstance(windspeed""", """        def on_pv_index(series):
            if series is None:
                return None
            return normalization.interpolate(series, pv.index, max_timedelta)

        poa_global = on_pv_index(poa_global)
        temperature_cell = on_pv_index(temperature_cell)
        temperature_ambient = on_pv_index(temperature_ambient)
        power_expected = on_pv_index(power_expected)
        if isinstance(windspeed"""))
r('ta-init-reorder', A, ("""        if pv_input == "power":
            self.pv_power = pv
            self.pv_energy = normalization.energy_from_power(
                pv, max_timedelta=max_timedelta
            )
        elif pv_input == "energy":
            self.pv_power = None
            self.pv_energy = pv
        else:
            raise ValueError("pv_input must be either 'power' or 'energy'")
""", """        if pv_input not in ("power", "energy"):
            raise ValueError("pv_input must be either 'power' or 'energy'")
        if pv_input == "energy":
            self.pv_power, self.pv_energy = None, pv
        else:
            self.pv_power = pv
            self.pv_energy = normalization.energy_from_power(pv, max_timedelta=max_timedelta)
"""))
r('ta-init-defaults', A, ("""        # Initialize to use default filter parameters
        self._filter_params = ValidatedFilterDict(
            self.valid_filter_params, self.default_filter_params
        )
        self._filter_params_aggregated = ValidatedFilterDict(
            self.valid_filter_params_aggregated, self.default_filter_params_aggregated
        )
        # remove tcell_filter from list if power_expected is passed in
        if power_expected is not None and temperature_cell is None:
            del self.filter_params["tcell_filter"]
""", """        # Initialize to use default filter parameters
        self._filter_params_aggregated = ValidatedFilterDict(
            self.valid_filter_params_aggregated, self.default_filter_params_aggregated
        )
        self._filter_params = ValidatedFilterDict(
            self.valid_filter_params, self.default_filter_params
        )
        # remove tcell_filter from list if power_expected is passed in
        no_temperature = temperature_cell is None
        if no_temperature and power_expected is not None:
            self._filter_params.pop("tcell_filter")
"""))
r('ta-clearsky-set', A, ("""        max_timedelta = self.max_timedelta

        if poa_global_clearsky is not None:
            poa_global_clearsky = normalization.interpolate(
                poa_global_clearsky, self.pv_energy.index, max_timedelta
            )
        if temperature_cell_clearsky is not None:
            temperature_cell_clearsky = normalization.interpolate(
                temperature_cell_clearsky, self.pv_energy.index, max_timedelta
            )
        if temperature_ambient_clearsky is not None:
            temperature_ambient_clearsky = normalization.interpolate(
                temperature_ambient_clearsky, self.pv_energy.index, max_timedelta
            )
        if isinstance(pv_azimuth, (pd.Series, pd.DataFrame)):
            pv_azimuth = normalization.interpolate(
                pv_azimuth, self.pv_energy.index, max_timedelta
            )
        if isinstance(pv_tilt, (pd.Series, pd.DataFrame)):
            pv_tilt = normalization.interpolate(
                pv_tilt, self.pv_energy.index, max_timedelta
            )
""", """        if poa_global_clearsky is not None:
            poa_global_clearsky = self._to_pv_index(poa_global_clearsky)
        if temperature_cell_clearsky is not None:
            temperature_cell_clearsky = self._to_pv_index(temperature_cell_clearsky)
        if temperature_ambient_clearsky is not None:
            temperature_ambient_clearsky = self._to_pv_index(temperature_ambient_clearsky)
        if isinstance(pv_azimuth, (pd.Series, pd.DataFrame)):
            pv_azimuth = self._to_pv_index(pv_azimuth)
        if isinstance(pv_tilt, (pd.Series, pd.DataFrame)):
            pv_tilt = self._to_pv_index(pv_tilt)
"""), ("""    def _calc_clearsky_poa(self, times=None""", """    def _to_pv_index(self, data):
        return normalization.interpolate(data, self.pv_energy.index, self.max_timedelta)

    def _calc_clearsky_poa(self, times=None"""))
r('ta-poa', A, ("""        aggregate = False
        if times is None:
            times = pd.date_range(
                self.poa_global.index.min(), self.poa_global.index.max(), freq="1min"
            )
            aggregate = True
""", """        aggregate = times is None
        if aggregate:
            index = self.poa_global.index
            times = pd.date_range(index.min(), index.max(), freq="1min")
"""), ("""        solar_position_kwargs = {}
        if self.solar_position_method:
            solar_position_kwargs["method"] = self.solar_position_method
        sun = loc.get_solarposition(times, **solar_position_kwargs)
""", """        method = self.solar_position_method
        if method:
            sun = loc.get_solarposition(times, method=method)
        else:
            sun = loc.get_solarposition(times)
"""))
r('ta-norm', A, ("""        if self.power_dc_rated is None:
            renorm = True
            power_dc_rated = 1.0
        else:
            renorm = False
            power_dc_rated = self.power_dc_rated
""", """        renorm = self.power_dc_rated is None
        power_dc_rated = 1.0 if renorm else self.power_dc_rated
"""), ("""            q = utilities.robust_quantile(energy_normalized[np.isfinite(energy_normalized)], 0.95)

            energy_normalized = energy_normalized / q
""", """            finite = energy_normalized[np.isfinite(energy_normalized)]
            energy_normalized = energy_normalized / utilities.robust_quantile(finite, 0.95)
"""))
r('ta-norm-dict', A, ("""        pvwatts_kws = {
            "poa_global": poa_global,
            "power_dc_rated": power_dc_rated,
            "temperature_cell": temperature_cell,
            "poa_global_ref": 1000,
            "temperature_cell_ref": 25,
            "gamma_pdc": self.gamma_pdc,
        }
""", """        pvwatts_kws = dict(
            gamma_pdc=self.gamma_pdc,
            poa_global=poa_global,
            poa_global_ref=1000,
            power_dc_rated=power_dc_rated,
            temperature_cell=temperature_cell,
            temperature_cell_ref=25,
        )
"""))
r('ta-filter-case', A, ("""        if case == "sensor":
            poa = self.poa_global
            cell_temp = self.temperature_cell
        if case == "clearsky":
            poa = self.poa_global_clearsky
            cell_temp = self.temperature_cell_clearsky

        if "normalized_filter" in self.filter_params:
            f = filtering.normalized_filter(
                energy_normalized, **self.filter_params["normalized_filter"]
            )
            filter_components["normalized_filter"] = f
        if "poa_filter" in self.filter_params:
            if poa is None:
                raise ValueError("poa must be available to use poa_filter")
            f = filtering.poa_filter(poa, **self.filter_params["poa_filter"])
            filter_components["poa_filter"] = f
""", """        if case == "sensor":
            poa, cell_temp = self.poa_global, self.temperature_cell
        elif case == "clearsky":
            poa, cell_temp = self.poa_global_clearsky, self.temperature_cell_clearsky

        params = self.filter_params
        if "poa_filter" in params:
            if poa is None:
                raise ValueError("poa must be available to use poa_filter")
            filter_components["poa_filter"] = filtering.poa_filter(poa, **params["poa_filter"])
        if "normalized_filter" in params:
            filter_components["normalized_filter"] = filtering.normalized_filter(
                energy_normalized, **params["normalized_filter"]
            )
"""))
r('ta-filter-store', A, ("""        bool_filter = filter_components.all(axis=1)
        filter_components = filter_components.drop(columns=["default"])
        if case == "sensor":
            self.sensor_filter = bool_filter
            self.sensor_filter_components = filter_components
        elif case == "clearsky":
            self.clearsky_filter = bool_filter
            self.clearsky_filter_components = filter_components
""", """        keep = filter_components.all(axis="columns")
        components = filter_components.drop("default", axis=1)
        if case == "clearsky":
            self.clearsky_filter = keep
            self.clearsky_filter_components = components
        elif case == "sensor":
            self.sensor_filter = keep
            self.sensor_filter_components = components
"""))
r('ta-adhoc', A, ("""            if ad_hoc_filter.isnull().any():
                warnings.warn(
                    "ad_hoc_filter contains NaN values; setting to False (excluding)"
                )
                ad_hoc_filter = ad_hoc_filter.where(ad_hoc_filter.notnull(), False)
""", """            missing = ad_hoc_filter.isnull()
            if missing.any():
                warnings.warn(
                    "ad_hoc_filter contains NaN values; setting to False (excluding)"
                )
                ad_hoc_filter = ad_hoc_filter.mask(missing, False)
"""), ("""        if self.filter_params.get("ad_hoc_filter", None) is not None:
            ad_hoc_filter = self.filter_params["ad_hoc_filter"]
""", """        ad_hoc_filter = self.filter_params.get("ad_hoc_filter")
        if ad_hoc_filter is not None:
"""))
r('ta-agg-filters', A, ("""        if "two_way_window_filter" in self.filter_params_aggregated:
            f = filtering.two_way_window_filter(
                aggregated, **self.filter_params_aggregated["two_way_window_filter"]
            )
            filter_components_aggregated["two_way_window_filter"] = f
""", """        params = self.filter_params_aggregated
        if "two_way_window_filter" in params:
            filter_components_aggregated["two_way_window_filter"] = \\
                filtering.two_way_window_filter(aggregated, **params["two_way_window_filter"])
"""), ("""        if case == "sensor":
            insol = self.sensor_aggregated_insolation
        if case == "clearsky":
            insol = self.clearsky_aggregated_insolation
""", """        insol = (self.sensor_aggregated_insolation if case == "sensor"
                 else self.clearsky_aggregated_insolation)
"""))
r('ta-check', A, ("""        if post_filter.empty:
            post_filter_length = pd.Timedelta("0d")
        else:
            post_filter_length = post_filter.index[-1] - post_filter.index[0]
        if post_filter_length < pd.Timedelta("730d"):
            raise""", """        span = pd.Timedelta(0)
        if len(post_filter) > 0:
            span = post_filter.index[-1] - post_filter.index[0]
        if span < pd.Timedelta(days=730):
            raise"""))
r('ta-results', A, ("""        yoy_rd, yoy_ci, yoy_info = degradation.degradation_year_on_year(
            energy_normalized, **kwargs
        )

        yoy_results = {
            "p50_rd": yoy_rd,
            "rd_confidence_interval": yoy_ci,
            "calc_info": yoy_info,
        }

        return yoy_results
""", """        rate, interval, info = degradation.degradation_year_on_year(energy_normalized, **kwargs)
        return dict(p50_rd=rate, rd_confidence_interval=interval, calc_info=info)
"""))
r('ta-sensor-shared', A, ("""        # Apply filter to aggregated data and store
        self.sensor_aggregated_performance = aggregated[self.sensor_filter_aggregated]
        self.sensor_aggregated_insolation = aggregated_insolation[
            self.sensor_filter_aggregated
        ]

        # Reindex the data after the fact, so it's on the aggregated interval
        self.sensor_aggregated_performance = (
            self.sensor_aggregated_performance.resample(
                self.aggregation_freq, origin="start_day"
            ).asfreq()
        )
        self.sensor_aggregated_insolation = self.sensor_aggregated_insolation.resample(
            self.aggregation_freq, origin="start_day"
        ).asfreq()
""", """        # Apply filter to aggregated data and put it back on the aggregated interval
        keep = self.sensor_filter_aggregated
        self.sensor_aggregated_performance = self._regularize(aggregated[keep])
        self.sensor_aggregated_insolation = self._regularize(aggregated_insolation[keep])

    def _regularize(self, series):
        return series.resample(self.aggregation_freq, origin="start_day").asfreq()
"""))
r('ta-analysis-shared', A, ("""        self._sensor_preprocess()
        sensor_results = {}

        if "yoy_degradation" in analyses:
            yoy_results = self._yoy_degradation(
                self.sensor_aggregated_performance, **yoy_kwargs
            )
            sensor_results["yoy_degradation"] = yoy_results

        if "srr_soiling" in analyses:
            srr_results = self._srr_soiling(
                self.sensor_aggregated_performance,
                self.sensor_aggregated_insolation,
                **srr_kwargs,
            )
            sensor_results["srr_soiling"] = srr_results

        self.results["sensor"] = sensor_results
""", """        self._sensor_preprocess()
        self.results["sensor"] = self._run_analyses(
            analyses,
            self.sensor_aggregated_performance,
            self.sensor_aggregated_insolation,
            yoy_kwargs,
            srr_kwargs,
        )

    def _run_analyses(self, analyses, performance, insolation, yoy_kwargs, srr_kwargs):
        results = {}
        if "yoy_degradation" in analyses:
            results["yoy_degradation"] = self._yoy_degradation(performance, **yoy_kwargs)
        if "srr_soiling" in analyses:
            results["srr_soiling"] = self._srr_soiling(performance, insolation, **srr_kwargs)
        return results
"""), ("""        clearsky_results = {}

        if "yoy_degradation" in analyses:
            yoy_results = self._yoy_degradation(
                self.clearsky_aggregated_performance, **yoy_kwargs
            )
            clearsky_results["yoy_degradation"] = yoy_results

        if "srr_soiling" in analyses:
            srr_results = self._srr_soiling(
                self.clearsky_aggregated_performance,
                self.clearsky_aggregated_insolation,
                **srr_kwargs,
            )
            clearsky_results["srr_soiling"] = srr_results

        self.results["clearsky"] = clearsky_results
""", """        self.results["clearsky"] = self._run_analyses(
            analyses,
            self.clearsky_aggregated_performance,
            self.clearsky_aggregated_insolation,
            yoy_kwargs,
            srr_kwargs,
        )
"""))
r('ta-plots', A, ("""        if case == "sensor":
            results_dict = self.results["sensor"]["yoy_degradation"]
            aggregated = self.sensor_aggregated_performance
        elif case == "clearsky":
            results_dict = self.results["clearsky"]["yoy_degradation"]
            aggregated = self.clearsky_aggregated_performance
        else:
            raise ValueError("case must be either 'sensor' or 'clearsky'")

        fig = plotting.degradation_summary_plots(
            results_dict["p50_rd"],
            results_dict["rd_confidence_interval"],
            results_dict["calc_info"],
            aggregated,
            **kwargs,
        )
        return fig
""", """        if case not in ("sensor", "clearsky"):
            raise ValueError("case must be either 'sensor' or 'clearsky'")
        results_dict = self.results[case]["yoy_degradation"]
        if case == "sensor":
            aggregated = self.sensor_aggregated_performance
        else:
            aggregated = self.clearsky_aggregated_performance
        return plotting.degradation_summary_plots(
            results_dict["p50_rd"],
            results_dict["rd_confidence_interval"],
            results_dict["calc_info"],
            aggregated,
            **kwargs,
        )
"""))
r('ta-vfd', A, ("""        for key in dict(*args, **kwargs).keys():
            if key not in self.valid_keys:
                raise KeyError(self._err_msg.format(key))
        super(ValidatedFilterDict, self).update(*args, **kwargs)
""", """        new = dict(*args, **kwargs)
        self._reject_unknown(new)
        super().update(new)
"""), ("""        for key in self.keys():
            if key not in self.valid_keys:
                raise KeyError(self._err_msg.format(key))
""", """        self._reject_unknown(self)

    def _reject_unknown(self, keys):
        for key in keys:
            if key not in self.valid_keys:
                raise KeyError(self._err_msg.format(key))
"""), ("""        if key not in self.valid_keys:
            raise KeyError(self._err_msg.format(key))
        super(ValidatedFilterDict, self).__setitem__(key, value)
""", """        self._reject_unknown([key])
        super().__setitem__(key, value)
"""))
r('ta-celltemp', A, ("""            if self.temperature_cell is None:
                self.temperature_cell = self._calc_cell_temperature(
                    self.poa_global, self.temperature_ambient, self.windspeed
                )
            energy""", """            if self.temperature_cell is None:
                self.temperature_cell = self._calc_cell_temperature(
                    poa_global=self.poa_global,
                    temperature_ambient=self.temperature_ambient,
                    windspeed=self.windspeed,
                )
            energy"""))
r('av-init', V_, ("""        for series in [power_subsystem, energy_cumulative, power_expected]:
            if not power_system.index.equals(series.index):
                raise ValueError("Input timeseries indexes must match")
""", """        index = power_system.index
        others = (power_subsystem, energy_cumulative, power_expected)
        if not all(index.equals(other.index) for other in others):
            raise ValueError("Input timeseries indexes must match")
"""))
r('av-subsystem', V_, ("""        power_subsystem = self.power_subsystem
        power_system = self.power_system
        power_subsystem = power_subsystem.fillna(0)
        power_system = power_system.clip(lower=0)
""", """        power_subsystem = self.power_subsystem.fillna(0)
        power_system = self.power_system.clip(lower=0)
"""), ("""        self.reporting_mask = looks_online = power_subsystem > low_threshold
        reporting""", """        looks_online = power_subsystem > low_threshold
        self.reporting_mask = looks_online
        reporting"""))
r('av-loss', V_, ("""        p_loss = (1 - f_online) / f_online * power_system
        p_loss[~is_downtime] = 0
""", """        p_loss = power_system * (1 - f_online) / f_online
        p_loss = p_loss.where(is_downtime, 0)
"""))
r('av-limit', V_, ("""            limit_exceeded = p_loss + power_system > power_system_limit
            loss = power_system_limit - power_system[limit_exceeded]
            p_loss.loc[limit_exceeded] = loss.clip(lower=0)
""", """            headroom = (power_system_limit - power_system).clip(lower=0)
            exceeded = (power_system + p_loss) > power_system_limit
            p_loss = p_loss.mask(exceeded, headroom)
"""))
r('av-downtime', V_, ("""        is_downtime = system_delta > (0.75 * smallest_delta)
        is_downtime[looks_online.all(axis=1)] = False
""", """        is_downtime = (system_delta > 0.75 * smallest_delta) & ~looks_online.all(axis=1)
"""))
r('av-error', V_, ("""        subset = system_performing_normally & (df['Expected Power'] > 0)
""", """        daytime = df['Expected Power'] > 0
        subset = daytime & system_performing_normally
"""), ("""            rolling = df_subset.rolling(window=window_length, center=True)
            window = rolling.sum()
            actual = window['Meter_kWh_interval']
            expected = window['Expected Energy']
            # remove the nans at beginning and end because of minimum window
            # length
            actual = actual[~np.isnan(actual)]
            expected = expected[~np.isnan(expected)]
""", """            window = df_subset.rolling(window=window_length, center=True).sum()
            # remove the nans at beginning and end because of minimum window
            # length
            actual = window['Meter_kWh_interval'].dropna()
            expected = window['Expected Energy'].dropna()
"""))
r('av-interp', V_, ("""        def interp_lower(n_intervals):
            return float(interp(lower)(n_intervals))

        def interp_upper(n_intervals):
            return float(interp(upper)(n_intervals))

        self.interp_lower = interp_lower
        self.interp_upper = interp_upper
""", """        lower_curve, upper_curve = interp(lower), interp(upper)
        self.interp_lower = lambda n_intervals: float(lower_curve(n_intervals))
        self.interp_upper = lambda n_intervals: float(upper_curve(n_intervals))
"""))
r('av-outages', V_, ("""        ffill = masked.ffill()
        ffill.loc[ffill.isnull()] = False
        bfill = masked.bfill()
        bfill.loc[bfill.isnull()] = False
        full_outage = ffill | bfill
""", """        forward = masked.ffill()
        forward.loc[forward.isnull()] = False
        backward = masked.bfill()
        backward.loc[backward.isnull()] = False
        full_outage = forward | backward
"""), ("""        steps = diff[~diff.isnull() & (diff != 0)]
        if not steps.empty:
            if steps.iloc[0] == -1:
                # data starts in an outage
                starts.insert(0, all_times[0])
            if steps.iloc[-1] == 1:
                # data ends in an outage
                ends.append(all_times[-1])
""", """        steps = diff[diff.notnull() & (diff != 0)]
        if len(steps):
            if steps.iloc[0] == -1:
                # data starts in an outage
                starts = [all_times[0]] + starts
            if steps.iloc[-1] == 1:
                # data ends in an outage
                ends = ends + [all_times[-1]]
"""))
r('av-outage-record', V_, ("""        for start, end in zip(starts, ends):
            outage_expected_power = self.power_expected_rescaled[start:end]
            daylight_intervals = (outage_expected_power > 0).sum()
            outage_expected_energy = self.energy_expected_rescaled[start:end]
""", """        for start, end in zip(starts, ends):
            outage_expected_energy = self.energy_expected_rescaled.loc[start:end]
            outage_expected_power = self.power_expected_rescaled.loc[start:end]
            daylight_intervals = (outage_expected_power > 0).sum()
"""))
r('av-outage-helper', V_, ("""            data = {
                'start': start,
                'end': end,
                'duration': end - start,
                'intervals': len(outage_expected_power),
                'daylight_intervals': daylight_intervals,
                'error_lower': self.interp_lower(daylight_intervals),
                'error_upper': self.interp_upper(daylight_intervals),
                'energy_expected': outage_expected_energy.sum(),
                'energy_start': self.energy_cumulative[start_minus_one],
                'energy_end': self.energy_cumulative[end],
            }
            outage_data.append(data)
""", """            outage_data.append(dict(
                start=start,
                end=end,
                duration=end - start,
                intervals=len(outage_expected_power),
                daylight_intervals=daylight_intervals,
                error_lower=self.interp_lower(daylight_intervals),
                error_upper=self.interp_upper(daylight_intervals),
                energy_expected=outage_expected_energy.sum(),
                energy_start=self.energy_cumulative[start_minus_one],
                energy_end=self.energy_cumulative[end],
            ))
"""))
r('av-type', V_, ("""        df_outages['type'] = np.where(
            df_outages['energy_actual'] < df_outages['ci_lower'],
            'real',
            'comms')
        df_outages.loc[df_outages['energy_actual'].isnull(), 'type'] = 'unknown'
        df_outages['loss'] = np.where(
            df_outages['type'] == 'real',
            df_outages['energy_expected'] - df_outages['energy_actual'],
            0)
        df_outages.loc[df_outages['type'] == 'unknown', 'loss'] = np.nan
""", """        actual = df_outages['energy_actual']
        unknown = actual.isnull()
        df_outages['type'] = np.where(actual < df_outages['ci_lower'], 'real', 'comms')
        df_outages.loc[unknown, 'type'] = 'unknown'
        shortfall = df_outages['energy_expected'] - actual
        df_outages['loss'] = np.where(df_outages['type'] == 'real', shortfall, 0)
        df_outages.loc[unknown, 'loss'] = np.nan
"""))
r('av-ci', V_, ("""        df_outages['ci_lower'] = (
            (1 + df_outages['error_lower']) * df_outages['energy_expected']
        )
        df_outages['ci_upper'] = (
            (1 + df_outages['error_upper']) * df_outages['energy_expected']
        )
""", """        for side in ('lower', 'upper'):
            df_outages['ci_' + side] = (
                df_outages['energy_expected'] * (1 + df_outages['error_' + side]))
"""))
r('av-fill', V_, ("""            loss_fill = subset * row['loss'] / subset_energy.sum()
            lost_power_full.loc[subset.index] += loss_fill
""", """            total_energy = subset_energy.sum()
            loss_fill = subset * (row['loss'] / total_energy)
            lost_power_full.loc[subset.index] += loss_fill
"""), ("""            production_fill = subset_energy.cumsum()
            production_fill *= row['energy_actual'] / subset_energy.sum()
            corrected_segment = row['energy_start'] + production_fill
            corrected_cumulative_energy.loc[start:end] = corrected_segment
""", """            production_fill = subset_energy.cumsum() * (row['energy_actual'] / total_energy)
            corrected_cumulative_energy.loc[start:end] = row['energy_start'] + production_fill
"""))
r('av-combine', V_, ("""        loss_plus_actual = df['lost_production'] + df['actual_production']
        df['availability'] = 1 - df['lost_production'] / loss_plus_actual
""", """        potential = df['actual_production'] + df['lost_production']
        df['availability'] = 1 - df['lost_production'] / potential
"""), ("""        if ((self.loss_system > 0) & (self.loss_subsystem > 0)).any():
""", """        both = (self.loss_subsystem > 0) & (self.loss_system > 0)
        if both.any():
"""))
r('av-actual-share', V_, ("""        loss_plus_actual = df['lost_production'] + df['actual_production']
        df['availability'] = 1 - df['lost_production'] / loss_plus_actual
""", """        loss_plus_actual = df['lost_production'] + df['actual_production']
        df['availability'] = df['actual_production'] / loss_plus_actual
"""))
r('av-plot', V_, ("""        try:
            self.loss_total
        except AttributeError:
            raise TypeError("No results to plot, use the `run` method first")
""", """        if not hasattr(self, 'loss_total'):
            raise TypeError("No results to plot, use the `run` method first")
"""))
