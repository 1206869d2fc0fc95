"""An analysis applies exactly the enabled filters."""
from .chain import HEAD, OPAQUE
EXPLAIN = ('Static value-flow analysis of whole analysis runs under each filter configuration: the row mask, the aggregated mask and the '
           'recorded filter components an analysis stores are extracted as gated value graphs and compared with the conjunction of the '
           'enabled filters, each applied with its own parameters to its own quantity; unknown filter names are shown to have no normal outcome.')
ASSUME = ['pandas/numpy/pvlib library operations behave as documented', 'filter functions are taken as given here (C07, C26)']
RULE = 'stored mask equals the conjunction of the enabled filters'
BASE = HEAD + '''
def make(pv, poa, t, cs, tcs, loc):
    ta = TrendAnalysis(pv, poa, temperature_cell=t, gamma_pdc=-0.004, power_dc_rated=1)
    ta.set_clearsky(pvlib_location=loc, poa_global_clearsky=cs, temperature_cell_clearsky=tcs)
    return ta

def run(ta, case):
    if case == 'sensor':
        ta.sensor_analysis()
        return {'filter': ta.sensor_filter, 'components': ta.sensor_filter_components, 'agg': ta.sensor_filter_aggregated,
                'agg_components': ta.sensor_filter_components_aggregated, 'performance': ta.sensor_aggregated_performance,
                'insolation': ta.sensor_aggregated_insolation}
    ta.clearsky_analysis()
    return {'filter': ta.clearsky_filter, 'components': ta.clearsky_filter_components, 'agg': ta.clearsky_filter_aggregated,
            'agg_components': ta.clearsky_filter_components_aggregated, 'performance': ta.clearsky_aggregated_performance,
            'insolation': ta.clearsky_aggregated_insolation}

def data(pv, poa, t, cs, tcs, case):
    poa, t = onto(poa, pv.index, None), onto(t, pv.index, None)
    e = energy_from_power(pv, max_timedelta=None)
    cs, tcs = onto(cs, e.index, None), onto(tcs, e.index, None)
    x, y = (poa, t) if case == 'sensor' else (cs, tcs)
    en, ins = pvwatts(e, x, y, -0.004, 1)
    return en, ins, x, y, poa, cs

def finish(en, ins, masks, mask2, extra=None, extra2=None):
    c = combine(masks, en)
    if extra is not None:
        c = custom(c, extra)
    m = c.all(axis=1)
    a, ai = weigh(en, ins, m, 'D')
    c2 = combine_agg(mask2(a, ai), a)
    if extra2 is not None:
        c2 = custom(c2, extra2)
    m2 = c2.all(axis=1)
    return {'filter': m, 'components': c.drop(columns=['default']), 'agg': m2, 'agg_components': c2.drop(columns=['default']),
            'performance': keep(a, m2, 'D'), 'insolation': keep(ai, m2, 'D')}

def two_way(a, ai):
    return {'two_way_window_filter': filtering.two_way_window_filter(a)}
'''
A = 'pv: series, poa: series, t: series, cs: series, tcs: series, loc: scalar, k: scalar, h: scalar'
ROW = {
    'normalized_filter': ("{'energy_normalized_low': k, 'energy_normalized_high': h}", 'filtering.normalized_filter(en, energy_normalized_low=k, energy_normalized_high=h)'),
    'poa_filter': ("{'poa_global_low': k, 'poa_global_high': h}", 'filtering.poa_filter(x, poa_global_low=k, poa_global_high=h)'),
    'tcell_filter': ("{'temperature_cell_low': k, 'temperature_cell_high': h}", 'filtering.tcell_filter(y, temperature_cell_low=k, temperature_cell_high=h)'),
    'clip_filter': ("{'quantile': k}", 'filtering.clip_filter(pv, quantile=k)'),
    'hour_angle_filter': ("{'min_hour_angle': k, 'max_hour_angle': h}", 'filtering.hour_angle_filter(en, loc.latitude, loc.longitude, min_hour_angle=k, max_hour_angle=h)'),
    'sensor_clearsky_filter': ("{'model': 'csi', 'threshold': k}", "filtering.clearsky_filter(poa, cs, model='csi', threshold=k)"),
}
CSF = ("{'model': 'csi', 'threshold': h}", "filtering.clearsky_filter(poa, cs, model='csi', threshold=h)")
AGG = {
    'two_way_window_filter': ("{'series_window': k}", None, 'filtering.two_way_window_filter(a, outlier_threshold=k)'),
    'insolation_filter': ("{'quantile': k}", None, 'filtering.insolation_filter(ai, quantile=k)'),
    'hampel_filter': ("{'k': k, 't0': h}", None, 'filtering.hampel_filter(a, k=k, t0=h)'),
    'directional_tukey_filter': ("{'roll_period': k, 'k': h}", None, 'filtering.directional_tukey_filter(a, roll_period=k, k=h)'),
}
AGG['two_way_window_filter'] = ("{'outlier_threshold': k}", None, AGG['two_way_window_filter'][2])


def case_text(name, case, row, agg, adhoc=False, adhoc2=False, default_row=False, default_agg=False, how='set'):
    """row/agg: names of the enabled filters, each with explicit parameters (empty ones when how == 'plain')"""
    args = A + (', extra: series' if adhoc else '') + (', extra2: series' if adhoc2 else '')
    o = ['def code_%s(%s):' % (name, args), '    ta = make(pv, poa, t, cs, tcs, loc)']
    rows = {r: ROW[r] for r in row}
    if case == 'clearsky':
        rows['clearsky_filter'] = CSF
    if how == 'set':
        ent = ["'%s': %s" % (r, v[0]) for r, v in rows.items()]
        if adhoc:
            ent.append("'ad_hoc_filter': extra")
        o.append('    ta.filter_params = {%s}' % ', '.join(ent))
        ent = ["'%s': %s" % (r, AGG[r][0]) for r in agg]
        if adhoc2:
            ent.append("'ad_hoc_filter': extra2")
        o.append('    ta.filter_params_aggregated = {%s}' % ', '.join(ent))
        masks = ["'%s': %s" % (r, v[1]) for r, v in rows.items()]
        masks2 = ["'%s': %s" % (r, AGG[r][2]) for r in agg]
    else:
        rows = dict(ROW_DEFAULT)
        for r in row:
            o.append("    ta.filter_params['%s'] = %s" % (r, ROW[r][0]) if how == 'item' else "    ta.filter_params.update({'%s': %s})" % (r, ROW[r][0]))
            rows[r] = ROW[r][1]
        if case == 'clearsky':
            rows['clearsky_filter'] = 'filtering.clearsky_filter(poa, cs)'
        masks = ["'%s': %s" % (r, v) for r, v in rows.items()]
        aggs = {'two_way_window_filter': 'filtering.two_way_window_filter(a)'}
        for r in agg:
            o.append("    ta.filter_params_aggregated['%s'] = %s" % (r, AGG[r][0]) if how == 'item' else "    ta.filter_params_aggregated.update({'%s': %s})" % (r, AGG[r][0]))
            aggs[r] = AGG[r][2]
        if adhoc:
            o.append("    ta.filter_params['ad_hoc_filter'] = extra")
        if adhoc2:
            o.append("    ta.filter_params_aggregated['ad_hoc_filter'] = extra2")
        masks2 = ["'%s': %s" % (r, v) for r, v in aggs.items()]
    o.append("    return run(ta, '%s')" % case)
    o += ['def spec_%s(%s):' % (name, args),
          "    en, ins, x, y, poa, cs = data(pv, poa, t, cs, tcs, '%s')" % case,
          '    def mask2(a, ai):',
          '        return {%s}' % ', '.join(masks2),
          '    return finish(en, ins, {%s}, mask2%s%s)' % (', '.join(masks), ', extra=extra' if adhoc else '', ', extra2=extra2' if adhoc2 else '')]
    return '\n'.join(o) + '\n'


ROW_DEFAULT = {'normalized_filter': 'filtering.normalized_filter(en)', 'poa_filter': 'filtering.poa_filter(x)',
               'tcell_filter': 'filtering.tcell_filter(y)', 'clip_filter': 'filtering.clip_filter(pv)'}


def configs():
    out = []
    for case in ('sensor', 'clearsky'):
        out.append(case_text(case + '_all', case, list(ROW), list(AGG)))
        out.append(case_text(case + '_none', case, [], []))
        out.append(case_text(case + '_default', case, [], [], how='item'))
        out.append(case_text(case + '_custom', case, ['poa_filter'], ['hampel_filter'], adhoc=True))
        out.append(case_text(case + '_custom_aggregated', case, ['poa_filter'], ['hampel_filter'], adhoc2=True))
        out.append(case_text(case + '_custom_default', case, [], [], adhoc=True, adhoc2=True, how='item'))
        for r in ROW:
            out.append(case_text('%s_only_%s' % (case, r), case, [r], []))
            out.append(case_text('%s_without_%s' % (case, r), case, [q for q in ROW if q != r], ['two_way_window_filter']))
            out.append(case_text('%s_item_%s' % (case, r), case, [r], [], how='item'))
            out.append(case_text('%s_update_%s' % (case, r), case, [r], [], how='update'))
        for r in AGG:
            out.append(case_text('%s_agg_only_%s' % (case, r), case, ['poa_filter'], [r]))
            out.append(case_text('%s_agg_without_%s' % (case, r), case, ['poa_filter'], [q for q in AGG if q != r]))
            out.append(case_text('%s_agg_item_%s' % (case, r), case, [], [r], how='item'))
            out.append(case_text('%s_agg_update_%s' % (case, r), case, [], [r], how='update'))
    return BASE + '\n'.join(out)


NAMES = BASE + '''
def mk_(pv, poa):
    return TrendAnalysis(pv, poa)
'''
for grp, good in (('filter_params', list(ROW) + ['clearsky_filter', 'ad_hoc_filter']), ('filter_params_aggregated', list(AGG) + ['ad_hoc_filter'])):
    short = 'row' if grp == 'filter_params' else 'agg'
    other = 'hampel_filter' if short == 'row' else 'poa_filter'
    for bad in ('not_a_filter', other, 'Poa_filter'):
        for how, stmt in (('assign', "ta.%s = {'%s': {}}"), ('assign2', "ta.%s = {'ad_hoc_filter': None, '%s': {}}"), ('item', "ta.%s['%s'] = {}"),
                          ('update', "ta.%s.update({'%s': {}})"), ('update_kw', "ta.%s.update(%s={})")):
            NAMES += '''
def code_%(s)s_%(how)s_%(bad)s(pv: series, poa: series):
    ta = mk_(pv, poa)
    %(stmt)s
    return ta
def spec_%(s)s_%(how)s_%(bad)s(pv: series, poa: series):
    return True
''' % dict(s=short, how=how, bad=bad, stmt=stmt % (grp, bad))
    for g in good:
        NAMES += '''
def code_%(s)s_ok_%(g)s(pv: series, poa: series):
    ta = mk_(pv, poa)
    ta.%(grp)s = {'%(g)s': {}}
    ta.%(grp)s['%(g)s'] = {}
    ta.%(grp)s.update({'%(g)s': {}})
    return ta
def spec_%(s)s_ok_%(g)s(pv: series, poa: series):
    return False
''' % dict(s=short, g=g, grp=grp)
SYM = BASE + '''
def code_any_row(pv: series, poa: series, name: str):
    ta = TrendAnalysis(pv, poa)
    ta.filter_params[name] = {}
    return ta
def spec_any_row(pv: series, poa: series, name: str):
    return name not in ['normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'hour_angle_filter', 'clearsky_filter', 'sensor_clearsky_filter', 'ad_hoc_filter']
def code_any_agg(pv: series, poa: series, name: str):
    ta = TrendAnalysis(pv, poa)
    ta.filter_params_aggregated[name] = {}
    return ta
def spec_any_agg(pv: series, poa: series, name: str):
    return name not in ['two_way_window_filter', 'insolation_filter', 'hampel_filter', 'directional_tukey_filter', 'ad_hoc_filter']
'''


def check(ctx):
    ctx.need('analysis_chains', 'TrendAnalysis.sensor_analysis')
    ctx.need('analysis_chains', 'TrendAnalysis.clearsky_analysis')
    op = {'*': {'opaque': OPAQUE}}
    ctx.formulas(configs(), RULE, op)
    ctx.outcomes(NAMES, 'exactly the unknown filter names are rejected', 'return', opts=op)
    ctx.outcomes(SYM, 'exactly the unknown filter names are rejected', 'return', opts=op)
