"""python3 -m rdcheck <property> [--tier quick|thorough] [--repo DIR]"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)


def selftest(repo):
    """the rule modules import, the package parses, and the equality theory separates what it must"""
    import pkgutil
    from . import rules, framework as F
    n = 0
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module('rdcheck.rules.' + m.name)
        n += 1
    ctx = F.Ctx('selftest', repo)
    ctx.formulas('''
def code_a(s: series, k: scalar):
    return (s * 2 + k)[s > k].fillna(0)
def spec_a(s: series, k: scalar):
    y = k + s + s
    return y[~(s <= k) & ~s.isna()].fillna(0)
def code_b(s: series):
    return s >= 1
def spec_b(s: series):
    return s > 1
''', 'selftest')
    v = [o.verdict for o in ctx.obs]
    assert v == [F.HOLDS, F.VIOLATED], v
    print('selftest ok: %d rule modules' % n)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        return selftest(a.repo)
    from . import framework as F
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        ctx = F.Ctx(a.prop, a.repo, tier, seed)
        mod = importlib.import_module('rdcheck.rules.' + a.prop.lower())
        mod.check(ctx)
    except F.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.prop, e))
        return 2
    except (Exception, RecursionError) as e:
        # the engine met a construct it cannot follow: whatever was decided so far stands, the rest is inconclusive
        if os.environ.get('RDCHECK_DEBUG') or 'ctx' not in locals() or 'mod' not in locals():
            raise
        ctx.ob('engine', F.INCONCLUSIVE, 'analysis completes', '', 'internal error: %s' % repr(e)[:300])
    known = F.load_known(a.prop)
    viol, hits = [], []
    for o in ctx.obs:
        if o.verdict == F.VIOLATED:
            k = [d for d in known if d['key'] == o.key]
            (hits if k else viol).append(o)
    holds = [o for o in ctx.obs if o.verdict == F.HOLDS]
    inc = [o for o in ctx.obs if o.verdict == F.INCONCLUSIVE]
    for o in hits:
        print('KNOWN-FINDING: property=%s %s %s' % (a.prop, o.key, o.where))
    if a.v:
        for o in ctx.obs:
            if o.verdict != F.HOLDS or a.v > 1:
                print(' ', o.verdict, o.name, o.where, '\n       ', o.detail[:700])
    if not ctx.obs:
        print('ANALYSIS-BROKEN property=%s no obligation found' % a.prop)
        return 2
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLAIN,
            'obligations': len(ctx.obs), 'discharged': len(holds), 'inconclusive': len(inc),
            'known_findings': len(hits),
            'functions_analysed': len(ctx.funcs), 'calls_resolved': ctx.calls, 'flow_events': ctx.events,
            'value_graph_nodes_compared': ctx.nodes,
            'rules': sorted({o.rule for o in ctx.obs}),
            'unmodelled_constructs': sorted(ctx.unknown)[:20],
            'samples': [o.d() for o in holds[:5]] + [o.d() for o in inc[:10]] + [o.d() for o in viol[:10]],
            'functions': sorted(ctx.funcs)[:200],
        },
        'assumptions': list(getattr(mod, 'ASSUME', [])),
        'wall_s': round(time.time() - ctx.t0, 3), 'violations': len(viol),
    }
    if not a.no_evidence:
        d = os.path.join(F.ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, a.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    print('property=%s obligations=%d discharged=%d inconclusive=%d violated=%d wall=%.1fs' %
          (a.prop, len(ctx.obs), len(holds), len(inc), len(viol), time.time() - ctx.t0))
    if viol:
        rp = os.path.join('evidence', a.prop + '.violation.json')
        if not a.no_evidence:
            with open(os.path.join(F.ROOT, rp), 'w') as fh:
                json.dump([o.d() for o in viol], fh, indent=1)
        for o in viol:
            print('  %s: rule "%s" violated at %s: %s' % (o.name, o.rule, o.where or '?', o.detail[:600]))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
