"""The caller's data is never modified."""
import os
from .. import framework as F
from ..framework import HOLDS, VIOLATED, INCONCLUSIVE, SpecMod
from . import entries as E
EXPLAIN = ('Alias and effect analysis: every public function, and every public class through its constructor, settings and methods, is analysed with all '
           'arguments unknown. Every write in the program (item and attribute assignment, in-place operators, in-place keyword methods, mutating methods, '
           'out= arguments) is collected with the set of objects whose storage it may reach; none may be rooted in an object the caller passed or stored.')
ASSUME = ['pandas selection by boolean or list and the usual transformation methods return copies; slices, single columns, .values and Series(x) share storage',
          'library calls other than the listed mutators do not modify their arguments']
RULE = 'no write reaches an object rooted in a caller argument'
# figures and axes handed in by the caller are drawn on; that is what they are for
DRAWN = {'fig', 'ax', 'axes', 'axs', 'figure'}
MAYBE = {'windspeed', 'albedo', 'pv_tilt', 'pv_azimuth', 'temperature_cell', 'power_expected', 'precipitation_daily', 'poa_global_clearsky', 'target',
         'stochastic_soiling_profiles'}


def writes(it):
    out = []
    for e in it.events:
        if e.kind == 'mutate':
            rs = sorted({o[1].lstrip('*') for _, o in e.d['roots'] if o[0] == 'param'} - DRAWN)
            if rs:
                out.append((e, rs))
    return out


def settle(ctx, name, it):
    w = writes(it)
    if not w:
        ctx.ob(name, HOLDS, RULE)
        return
    for e, rs in w:
        ctx.ob('%s.%s' % (name, rs[0]), VIOLATED, RULE, e.where, 'the write `%s` modifies the caller\'s %s (call path %s)' % (
            e.d['how'], ', '.join(rs), ' > '.join(e.path()[-6:])))


def check(ctx):
    for mod, q in (('analysis_chains', 'TrendAnalysis.sensor_analysis'), ('soiling', 'soiling_srr'), ('normalization', 'energy_from_power')):
        ctx.need(mod, q)
    m = SpecMod(ctx.prog, E.CLASSES)
    for n in m.functions:
        if not n.startswith('code_'):
            continue
        try:
            it, st, v, t, ty = ctx.run_text(m, n)
        except Exception as ex:
            if os.environ.get('RDCHECK_DEBUG'):
                raise
            ctx.ob(n[5:], INCONCLUSIVE, RULE, '', 'construct outside the analysed language: %s' % repr(ex)[:200])
            continue
        settle(ctx, n[5:], it)
    for mod, fn in E.public_functions(ctx.prog):
        variants = [{}]
        ms = {p: 'series' for p in fn.params + fn.kwonly if p in MAYBE}
        if ms:
            variants.append(ms)
        for i, ty in enumerate(variants):
            name = fn.qual + ('/series' if i else '')
            try:
                it, st, v = E.run_function(ctx, fn, ty)
            except Exception as ex:
                if os.environ.get('RDCHECK_DEBUG'):
                    raise
                ctx.ob(name, INCONCLUSIVE, RULE, '', 'construct outside the analysed language: %s' % repr(ex)[:200])
                continue
            settle(ctx, name, it)
