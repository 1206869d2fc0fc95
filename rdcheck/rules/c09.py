"""Sensor and clear-sky analyses use their own data."""
from ..terms import subterms
from .chain import HEAD, OPAQUE
EXPLAIN = ('Static value-flow analysis of whole analysis runs: the data an analysis object is built with is followed through '
           'normalization, filtering, aggregation and storage, and the stored values are compared with the reference pipeline.')
ASSUME = ['pandas/numpy/pvlib library operations behave as documented',
          'normalization, filter, aggregation and estimator functions are taken as given here (C07, C13, C14, C15, C16, C20)']
RULE = 'stored value equals the reference pipeline'
RUN = HEAD + '''
def sensor_out(ta):
    return {'filter': ta.sensor_filter, 'performance': ta.sensor_aggregated_performance, 'insolation': ta.sensor_aggregated_insolation,
            'results': ta.results}

def code_sensor(pv: series, poa: series, t: series, gamma: opt, rated: opt, freq: str, limit: opt):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, gamma_pdc=gamma, power_dc_rated=rated, aggregation_freq=freq, max_timedelta=limit)
    ta.sensor_analysis()
    return sensor_out(ta)
def spec_sensor(pv: series, poa: series, t: series, gamma: opt, rated: opt, freq: str, limit: opt):
    poa, t = onto(poa, pv.index, limit), onto(t, pv.index, limit)
    en, ins = pvwatts(energy_from_power(pv, max_timedelta=limit), poa, t, gamma, rated)
    m = combine(default_masks(en, poa, t, pv), en).all(axis=1)
    perf, pins = rest(en, ins, m, freq)
    return {'filter': m, 'performance': perf, 'insolation': pins, 'results': {'sensor': {'yoy_degradation': yoy(perf)}}}

def code_sensor_interp(pv: series, poa: series, t: series, freq: str):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, power_dc_rated=1, interp_freq=freq)
    ta.sensor_analysis()
    return sensor_out(ta)
def spec_sensor_interp(pv: series, poa: series, t: series, freq: str):
    pv = interpolate(pv, freq, None)
    poa, t = onto(poa, pv.index, None), onto(t, pv.index, None)
    en, ins = pvwatts(energy_from_power(pv, max_timedelta=None), poa, t, None, 1)
    m = combine(default_masks(en, poa, t, pv), en).all(axis=1)
    perf, pins = rest(en, ins, m, 'D')
    return {'filter': m, 'performance': perf, 'insolation': pins, 'results': {'sensor': {'yoy_degradation': yoy(perf)}}}

def code_sensor_ambient(pv: series, poa: series, tamb: series, wind: series):
    ta = TrendAnalysis(pv, poa, temperature_ambient=tamb, windspeed=wind, gamma_pdc=-0.004, temperature_model='close_mount_glass_glass')
    ta.sensor_analysis()
    return sensor_out(ta)
def spec_sensor_ambient(pv: series, poa: series, tamb: series, wind: series):
    poa, tamb, wind = onto(poa, pv.index, None), onto(tamb, pv.index, None), onto(wind, pv.index, None)
    t = cell(poa, tamb, wind, 'close_mount_glass_glass')
    en, ins = pvwatts(energy_from_power(pv, max_timedelta=None), poa, t, -0.004, None)
    m = combine(default_masks(en, poa, t, pv), en).all(axis=1)
    perf, pins = rest(en, ins, m, 'D')
    return {'filter': m, 'performance': perf, 'insolation': pins, 'results': {'sensor': {'yoy_degradation': yoy(perf)}}}

def code_sensor_expected(pv: series, poa: series, expected: series):
    ta = TrendAnalysis(pv, poa, power_expected=expected)
    ta.sensor_analysis()
    return sensor_out(ta)
def spec_sensor_expected(pv: series, poa: series, expected: series):
    poa, expected = onto(poa, pv.index, None), onto(expected, pv.index, None)
    e = energy_from_power(pv, max_timedelta=None)
    en, ins = normalization.normalize_with_expected_power(e, expected, poa, pv_input='energy')
    m = combine({'normalized_filter': filtering.normalized_filter(en), 'poa_filter': filtering.poa_filter(poa),
                 'clip_filter': filtering.clip_filter(pv)}, en).all(axis=1)
    perf, pins = rest(en, ins, m, 'D')
    return {'filter': m, 'performance': perf, 'insolation': pins, 'results': {'sensor': {'yoy_degradation': yoy(perf)}}}

def code_sensor_both(pv: series, poa: series, t: series, k1: scalar, k2: scalar):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, gamma_pdc=-0.004)
    ta.sensor_analysis(analyses=['yoy_degradation', 'srr_soiling'], yoy_kwargs={'confidence_level': k1}, srr_kwargs={'reps': k2})
    return sensor_out(ta)
def spec_sensor_both(pv: series, poa: series, t: series, k1: scalar, k2: scalar):
    poa, t = onto(poa, pv.index, None), onto(t, pv.index, None)
    en, ins = pvwatts(energy_from_power(pv, max_timedelta=None), poa, t, -0.004, None)
    m = combine(default_masks(en, poa, t, pv), en).all(axis=1)
    perf, pins = rest(en, ins, m, 'D')
    return {'filter': m, 'performance': perf, 'insolation': pins, 'results': {'sensor': {
        'yoy_degradation': yoy(perf, confidence_level=k1), 'srr_soiling': srr(perf, pins, reps=k2)}}}

def clearsky_out(ta):
    return {'filter': ta.clearsky_filter, 'performance': ta.clearsky_aggregated_performance, 'insolation': ta.clearsky_aggregated_insolation,
            'results': ta.results}

def code_clearsky(pv: series, poa: series, cs: series, tcs: series, t: series, gamma: opt, rated: opt, freq: str, limit: opt):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, gamma_pdc=gamma, power_dc_rated=rated, aggregation_freq=freq, max_timedelta=limit)
    ta.set_clearsky(poa_global_clearsky=cs, temperature_cell_clearsky=tcs)
    ta.clearsky_analysis()
    return clearsky_out(ta)
def spec_clearsky(pv: series, poa: series, cs: series, tcs: series, t: series, gamma: opt, rated: opt, freq: str, limit: opt):
    poa = onto(poa, pv.index, limit)
    e = energy_from_power(pv, max_timedelta=limit)
    cs, tcs = onto(cs, e.index, limit), onto(tcs, e.index, limit)
    en, ins = pvwatts(e, cs, tcs, gamma, rated)
    masks = default_masks(en, cs, tcs, pv)
    masks['clearsky_filter'] = filtering.clearsky_filter(poa, cs)
    m = combine(masks, en).all(axis=1)
    perf, pins = rest(en, ins, m, freq)
    return {'filter': m, 'performance': perf, 'insolation': pins, 'results': {'clearsky': {'yoy_degradation': yoy(perf)}}}

def code_clearsky_ambient(pv: series, poa: series, cs: series, tamb: series, wind: series):
    ta = TrendAnalysis(pv, poa, temperature_ambient=tamb, windspeed=wind, gamma_pdc=-0.004)
    ta.set_clearsky(poa_global_clearsky=cs, temperature_ambient_clearsky=tamb)
    ta.clearsky_analysis(analyses=['yoy_degradation', 'srr_soiling'], yoy_kwargs={'confidence_level': 90}, srr_kwargs={'reps': 10})
    return clearsky_out(ta)
def spec_clearsky_ambient(pv: series, poa: series, cs: series, tamb: series, wind: series):
    poa = onto(poa, pv.index, None)
    e = energy_from_power(pv, max_timedelta=None)
    cs, tamb = onto(cs, e.index, None), onto(tamb, e.index, None)
    t = cell(cs, tamb, 0, 'open_rack_glass_polymer')
    en, ins = pvwatts(e, cs, t, -0.004, None)
    masks = default_masks(en, cs, t, pv)
    masks['clearsky_filter'] = filtering.clearsky_filter(poa, cs)
    m = combine(masks, en).all(axis=1)
    perf, pins = rest(en, ins, m, 'D')
    return {'filter': m, 'performance': perf, 'insolation': pins, 'results': {'clearsky': {
        'yoy_degradation': yoy(perf, confidence_level=90), 'srr_soiling': srr(perf, pins, reps=10)}}}

def code_clearsky_expected(pv: series, poa: series, cs: series, tcs: series, expected: series):
    ta = TrendAnalysis(pv, poa, power_expected=expected)
    ta.set_clearsky(poa_global_clearsky=cs, temperature_cell_clearsky=tcs)
    ta.clearsky_analysis()
    return clearsky_out(ta)
def spec_clearsky_expected(pv: series, poa: series, cs: series, tcs: series, expected: series):
    poa, expected = onto(poa, pv.index, None), onto(expected, pv.index, None)
    e = energy_from_power(pv, max_timedelta=None)
    cs, tcs = onto(cs, e.index, None), onto(tcs, e.index, None)
    en, ins = normalization.normalize_with_expected_power(e, expected, cs, pv_input='energy')
    m = combine({'normalized_filter': filtering.normalized_filter(en), 'poa_filter': filtering.poa_filter(cs),
                 'clip_filter': filtering.clip_filter(pv), 'clearsky_filter': filtering.clearsky_filter(poa, cs)}, en).all(axis=1)
    perf, pins = rest(en, ins, m, 'D')
    return {'filter': m, 'performance': perf, 'insolation': pins, 'results': {'clearsky': {'yoy_degradation': yoy(perf)}}}
'''
INDEP = HEAD + '''
def make(pv, poa, t, tamb, cs, tcs, wind):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, temperature_ambient=tamb, windspeed=wind, gamma_pdc=-0.004)
    ta.set_clearsky(poa_global_clearsky=cs, temperature_cell_clearsky=tcs)
    return ta

def every(pv, poa, t, tamb, cs, tcs, wind):
    # every filter that needs no location
    ta = make(pv, poa, t, tamb, cs, tcs, wind)
    ta.filter_params = {'normalized_filter': {}, 'poa_filter': {}, 'tcell_filter': {}, 'clip_filter': {}, 'clearsky_filter': {}, 'sensor_clearsky_filter': {}}
    ta.filter_params_aggregated = {'two_way_window_filter': {}, 'insolation_filter': {}, 'hampel_filter': {}, 'directional_tukey_filter': {}}
    return ta

def sen(ta):
    return {'filter': ta.sensor_filter, 'components': ta.sensor_filter_components, 'performance': ta.sensor_aggregated_performance,
            'insolation': ta.sensor_aggregated_insolation, 'agg_filter': ta.sensor_filter_aggregated,
            'agg_components': ta.sensor_filter_components_aggregated, 'results': ta.results['sensor']}

def cle(ta):
    return {'filter': ta.clearsky_filter, 'components': ta.clearsky_filter_components, 'performance': ta.clearsky_aggregated_performance,
            'insolation': ta.clearsky_aggregated_insolation, 'agg_filter': ta.clearsky_filter_aggregated,
            'agg_components': ta.clearsky_filter_components_aggregated, 'results': ta.results['clearsky']}

def code_sensor_after(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = make(pv, poa, t, tamb, cs, tcs, wind)
    ta.clearsky_analysis()
    ta.sensor_analysis()
    return sen(ta)
def spec_sensor_after(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = make(pv, poa, t, tamb, cs, tcs, wind)
    ta.sensor_analysis()
    return sen(ta)

def code_sensor_then(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = make(pv, poa, t, tamb, cs, tcs, wind)
    ta.sensor_analysis()
    ta.clearsky_analysis()
    return sen(ta)
def spec_sensor_then(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = make(pv, poa, t, tamb, cs, tcs, wind)
    ta.sensor_analysis()
    return sen(ta)

def code_clearsky_after(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = make(pv, poa, t, tamb, cs, tcs, wind)
    ta.sensor_analysis()
    ta.clearsky_analysis()
    return cle(ta)
def spec_clearsky_after(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = make(pv, poa, t, tamb, cs, tcs, wind)
    ta.clearsky_analysis()
    return cle(ta)

def code_clearsky_then(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = make(pv, poa, t, tamb, cs, tcs, wind)
    ta.clearsky_analysis()
    ta.sensor_analysis()
    return cle(ta)
def spec_clearsky_then(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = make(pv, poa, t, tamb, cs, tcs, wind)
    ta.clearsky_analysis()
    return cle(ta)
def code_sensor_after_every(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = every(pv, poa, t, tamb, cs, tcs, wind)
    ta.clearsky_analysis()
    ta.sensor_analysis()
    return sen(ta)
def spec_sensor_after_every(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = every(pv, poa, t, tamb, cs, tcs, wind)
    ta.sensor_analysis()
    return sen(ta)

def code_sensor_then_every(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = every(pv, poa, t, tamb, cs, tcs, wind)
    ta.sensor_analysis()
    ta.clearsky_analysis()
    return sen(ta)
def spec_sensor_then_every(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = every(pv, poa, t, tamb, cs, tcs, wind)
    ta.sensor_analysis()
    return sen(ta)

def code_clearsky_after_every(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = every(pv, poa, t, tamb, cs, tcs, wind)
    ta.sensor_analysis()
    ta.clearsky_analysis()
    return cle(ta)
def spec_clearsky_after_every(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = every(pv, poa, t, tamb, cs, tcs, wind)
    ta.clearsky_analysis()
    return cle(ta)

def code_clearsky_then_every(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = every(pv, poa, t, tamb, cs, tcs, wind)
    ta.clearsky_analysis()
    ta.sensor_analysis()
    return cle(ta)
def spec_clearsky_then_every(pv: series, poa: series, t: series, tamb: series, cs: series, tcs: series, wind: series):
    ta = every(pv, poa, t, tamb, cs, tcs, wind)
    ta.clearsky_analysis()
    return cle(ta)
'''
PLOT = HEAD + '''
def ready(pv, poa, t, cs, tcs):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, gamma_pdc=-0.004)
    ta.set_clearsky(poa_global_clearsky=cs, temperature_cell_clearsky=tcs)
    ta.sensor_analysis(analyses=['yoy_degradation', 'srr_soiling'])
    ta.clearsky_analysis(analyses=['yoy_degradation', 'srr_soiling'])
    return ta
'''
for case in ('sensor', 'clearsky'):
    for fn, plot, args in (
            ('plot_degradation_summary', 'degradation_summary_plots',
             "r['yoy_degradation']['p50_rd'], r['yoy_degradation']['rd_confidence_interval'], r['yoy_degradation']['calc_info'], ta.%s_aggregated_performance, bins=k" % case),
            ('plot_soiling_monte_carlo', 'soiling_monte_carlo_plot', "r['srr_soiling']['calc_info'], ta.%s_aggregated_performance, profiles=k" % case),
            ('plot_soiling_interval', 'soiling_interval_plot', "r['srr_soiling']['calc_info'], ta.%s_aggregated_performance, point_alpha=k" % case),
            ('plot_soiling_rate_histogram', 'soiling_rate_histogram', "r['srr_soiling']['calc_info'], bins=k"),
            ('plot_degradation_timeseries', 'degradation_timeseries_plot', "r['yoy_degradation']['calc_info'], 365, ci_color=k")):
        key = args.rsplit(',', 1)[1].strip().split('=')[0]
        PLOT += '''
def code_%(fn)s_%(case)s(pv: series, poa: series, t: series, cs: series, tcs: series, k: scalar):
    return ready(pv, poa, t, cs, tcs).%(fn)s('%(case)s', %(key)s=k)
def spec_%(fn)s_%(case)s(pv: series, poa: series, t: series, cs: series, tcs: series, k: scalar):
    ta = ready(pv, poa, t, cs, tcs)
    r = ta.results['%(case)s']
    return plotting.%(plot)s(%(args)s)
''' % dict(fn=fn, case=case, plot=plot, args=args, key=key)


def leaks(cv, sv):
    """an input the analysis does not use when run alone"""
    if any(x.op in ('unk', 'undef', 'unbound') for x in subterms(cv)):
        return None
    mine = {x.a[0] for x in subterms(sv) if x.op == 'param'}
    extra = sorted({x.a[0] for x in subterms(cv) if x.op == 'param'} - mine)
    return 'depends on the other case\'s input (%s), which it does not use when run alone' % ', '.join(extra) if extra else None


def check(ctx):
    ctx.need('analysis_chains', 'TrendAnalysis.sensor_analysis')
    ctx.need('analysis_chains', 'TrendAnalysis.clearsky_analysis')
    op = {'*': {'opaque': OPAQUE}}
    ctx.formulas(RUN, RULE, op)
    ctx.on_unk = leaks
    ctx.formulas(INDEP, 'running one analysis leaves the other unchanged', op)
    ctx.on_unk = None
    ctx.formulas(PLOT, 'a plot for a case shows that case', op)
