"""Obligations, verdicts, evidence and known findings."""
import ast
import json
import functools
import os
import time
from .loader import Program, Func
from .interp import Interp, State, V
from .terms import *
from .spec import SpecMod
from . import build as B
from .equiv import Theory, EQ, NE, UNK

HOLDS, VIOLATED, INCONCLUSIVE = 'holds', 'violated', 'inconclusive'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known-findings.jsonl')


class AnalysisBroken(Exception):
    pass


class Ob:
    def __init__(self, name, verdict, rule, where='', detail='', key=None):
        self.name, self.verdict, self.rule, self.where, self.detail = name, verdict, rule, where, detail
        self.key = key or name

    def d(self):
        return {'obligation': self.name, 'verdict': self.verdict, 'rule': self.rule, 'where': self.where, 'detail': self.detail}


def counter(x):
    """a loop variable that starts at an integer and advances by integers"""
    if x.op != 'mu':
        return False
    d = MU.get((x.a[0], x.a[1]))
    if d is None or d[0].op != 'const' or type(d[0].a[0]) is not int:
        return False
    st = [d[1]]
    while st:
        y = st.pop()
        if y.op == 'ite':
            st += [y.a[1], y.a[2]]
        elif y is x or y.op == 'const' and type(y.a[0]) is int:
            pass
        elif y.op == 'bin' and y.a[0] in '+-' and y.a[1] is x and y.a[2].op == 'const' and type(y.a[2].a[0]) is int:
            pass
        else:
            return False
    return True


def int_compares(t, memo=None):
    """comparisons of integer counters in one form: a < n + 1 is a <= n and a <= n - 1 is a < n"""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    r = t
    if t.op in ('and', 'or', 'not'):
        k = [int_compares(x, memo) for x in t.a]
        r = B.tnot(k[0]) if t.op == 'not' else functools.reduce(B.tand if t.op == 'and' else B.tor, k)
    elif t.op == 'cmp' and t.a[0] in ('<', '<=') and any(counter(x) for x in subterms(t)):
        o, a, b = t.a
        one = lambda x, s: x.op == 'bin' and x.a[0] == s and B.num(x.a[2]) == 1
        if o == '<' and one(b, '+'):
            r = mk('cmp', '<=', a, b.a[1])
        elif o == '<' and one(a, '-'):
            r = mk('cmp', '<=', a.a[1], b)
        elif o == '<=' and one(b, '-'):
            r = mk('cmp', '<', a, b.a[1])
        elif o == '<=' and one(a, '+'):
            r = mk('cmp', '<', a.a[1], b)
    memo[t.id] = r
    return r


class Ctx:
    def __init__(self, prop, repo, tier='quick', seed=1):
        self.prop, self.tier, self.seed, self.repo = prop, tier, seed, repo
        self.t0 = time.time()
        self.prog = Program(repo)
        self.obs = []
        self.funcs = set()
        self.events = 0
        self.calls = 0
        self.nodes = 0
        self.unknown = set()
        self.assumptions = []
        self.rules = {}

    site_by_node = False
    on_unk = None            # a second, coarser analysis for values the equality theory cannot relate

    # -- obligations
    def ob(self, name, verdict, rule, where='', detail='', key=None):
        self.obs.append(Ob(name, verdict, rule, where, detail, key))

    def need(self, mod, qual):
        f = self.prog.func(mod, qual)
        if f is None:
            raise AnalysisBroken('anchor %s.%s not found' % (mod, qual))
        return f

    def seen(self, it):
        self.funcs |= {f for f in it.funcs_seen if not f.startswith('<spec>')}
        self.events += len(it.events)
        self.calls += it.calls
        self.unknown |= {u for u in it.unknown if not u.startswith('<spec>')}

    # -- formulas
    def run_text(self, m, fname, opaque=(), hooks=None, types=None):
        fn = m.functions[fname]
        it = Interp(self.prog)
        it.opaque = set(opaque)
        it.hooks = hooks or {}
        it.site_by_node = self.site_by_node
        ty = dict(types or {})
        ty.update(annotations(fn))
        it.ptypes = {k: v for k, v in ty.items() if v in ('series', 'frame', 'ndarray', 'scalar', 'index')}
        it.nonnull = {k for k, v in ty.items() if v != 'opt'}
        args = {x: it.param(x) for x in fn.params + fn.kwonly}
        if fn.kwarg:
            args['**'] = it.param('**' + fn.kwarg)
        st = State()
        st, v = it.run(fn, args, st=st)
        self.seen(it)
        t = it.term(v, st) if st is not None else None
        return it, st, v, t, ty

    def formulas(self, text, rule, opts=None, only=None, prefix='', comps=None):
        """every pair code_X / spec_X in `text` is one formula: the analysed value of code_X (a call into
        the package) must equal the reference value spec_X."""
        m = SpecMod(self.prog, text)
        opts = opts or {}
        names = [n[5:] for n in m.functions if n.startswith('spec_')]
        for nm in names:
            if only and nm not in only:
                continue
            o = opts.get(nm, opts.get('*', {}))
            if o.get('tier') == 'thorough' and self.tier != 'thorough':
                continue
            code = 'code_' + o.get('code', nm)
            try:
                it, st, v, t, ty = self.run_text(m, code, o.get('opaque', ()))
            except Exception as e:
                if os.environ.get('RDCHECK_DEBUG'):
                    raise
                self.ob(prefix + nm, INCONCLUSIVE, rule, '', 'construct outside the analysed language: %s' % (repr(e)[:200],))
                continue
            try:
                it2, st2, v2, t2, ty2 = self.run_text(m, 'spec_' + nm, o.get('opaque', ()), types=ty)
            except Exception as e:
                if os.environ.get('RDCHECK_DEBUG'):
                    raise
                self.ob(prefix + nm, INCONCLUSIVE, rule, '', 'reference outside the analysed language: %s' % (repr(e)[:200],))
                continue
            ty.update(ty2)
            scal = {k for k, x in ty.items() if x in ('scalar', 'str', 'bool', 'dict', 'opt')}
            bools = {k for k, x in ty.items() if x == 'bool'}
            th = Theory(scal, bools, seeds=40 if self.tier == "quick" else 120, positive={k for k, x in ty.items() if x == 'pos'})
            if t2 is None:
                self.ob(prefix + nm, INCONCLUSIVE, rule, '', 'the reference has no normal outcome on this tree')
                continue
            if t is None:
                # no normal outcome at all
                if it.unknown or self.private_missing(m, code) or any(e.kind == 'badcall' and '<spec>' in str(e.where) for e in it.events):
                    self.ob(prefix + nm, INCONCLUSIVE, rule, '', 'no normal outcome; unmodelled: %s' % (it.unknown[:2] or 'entry point not as expected'))
                else:
                    self.ob(prefix + nm, VIOLATED, rule, last_raise(it), 'every path raises; expected %s' % show(t2, 4)[:200])
                continue
            for pn, x, y in (o['parts'](t, t2) if 'parts' in o else ()):
                self.compare_one(prefix + nm + '.' + pn, x, y, th, it, rule)
            for path, sv in components(t2):
                cv = t
                for p in path:
                    cv = B.sub(cv, p)
                name = prefix + nm + ''.join('.%s' % (p.a[0],) for p in path)
                if comps and not comps(name):
                    continue
                self.compare_one(name, cv, sv, th, it, rule)

    def same_raises(self, text, rule, opts=None, prefix='raise.', only=None):
        """code_X and spec_X raise under the same condition"""
        m = SpecMod(self.prog, text)
        opts = opts or {}
        for nm in [n[5:] for n in m.functions if n.startswith('spec_')]:
            if only and nm not in only:
                continue
            o = opts.get(nm, opts.get('*', {}))
            conds = []
            try:
                for side in ('code_', 'spec_'):
                    it, st, v, t, ty = self.run_text(m, side + nm, o.get('opaque', ()))
                    r, where = FALSE, ''
                    for e in it.events:
                        if e.kind == 'raise':
                            r, where = B.tor(r, int_compares(conj(e.pc))), e.where
                    conds.append((r, where, it))
            except Exception as e:
                if os.environ.get('RDCHECK_DEBUG'):
                    raise
                self.ob(prefix + nm, INCONCLUSIVE, rule, '', 'construct outside the analysed language: %s' % (repr(e)[:200],))
                continue
            scal = {k for k, x in ty.items() if x in ('scalar', 'str', 'bool', 'dict', 'opt')}
            th = Theory(scal, {k for k, x in ty.items() if x == 'bool'}, seeds=40 if self.tier == 'quick' else 120,
                        positive={k for k, x in ty.items() if x == 'pos'})
            res, c, sp = th.compare(conds[0][0], conds[1][0])
            self.nodes += sum(1 for _ in subterms(conds[0][0]))
            if res == NE and conds[0][0] is not FALSE and any(x.op == 'mu' for x in subterms(conds[1][0])) and not any(
                    x.op == 'mu' for x in subterms(conds[0][0])):
                res = UNK   # a differently shaped loop
            d = 'raises when %s; required when %s' % (show(c, 7)[:300], show(sp, 7)[:300])
            self.ob(prefix + nm, {EQ: HOLDS, NE: VIOLATED, UNK: INCONCLUSIVE}[res], rule, conds[0][1], '' if res == EQ else d)

    def private_missing(self, m, fname):
        """the reference text enters the package through a private name that no longer exists"""
        names, todo, seen = set(), [fname], set()
        while todo:
            f = todo.pop()
            if f in seen or f not in m.functions:
                continue
            seen.add(f)
            for n in ast.walk(m.functions[f].node):
                if isinstance(n, ast.Attribute):
                    names.add(n.attr)
                elif isinstance(n, ast.Name):
                    names.add(n.id)
                    todo.append(n.id)
        priv = {n for n in names if n.startswith('_') and not n.startswith('__') and n not in m.functions}
        return any(self.prog_defs().isdisjoint({n}) for n in priv)

    def prog_defs(self):
        if not hasattr(self, '_defs'):
            self._defs = set()
            for mod in self.prog.mods.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        self._defs.add(n.name)
                    elif isinstance(n, ast.Attribute):
                        if isinstance(n.ctx, ast.Store):
                            self._defs.add(n.attr)
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self._defs.add(n.id)
        return self._defs

    def outcomes(self, text, rule, kind, mode='iff', opts=None, prefix='', only=None, match=None):
        """code_X is a call; spec_X the condition under which it must warn / raise / not return normally.
        mode 'iff': exactly then, 'if': at least then"""
        m = SpecMod(self.prog, text)
        opts = opts or {}
        for nm in [n[5:] for n in m.functions if n.startswith('spec_')]:
            if only and nm not in only:
                continue
            o = opts.get(nm, opts.get('*', {}))
            try:
                it, st, v, t, ty = self.run_text(m, 'code_' + nm, o.get('opaque', ()))
            except Exception as e:
                if os.environ.get('RDCHECK_DEBUG'):
                    raise
                self.ob(prefix + nm, INCONCLUSIVE, rule, '', 'construct outside the analysed language: %s' % (repr(e)[:200],))
                continue
            if self.private_missing(m, 'code_' + nm):
                self.ob(prefix + nm, INCONCLUSIVE, rule, '', 'entry point not as expected')
                continue
            try:
                it2, st2, v2, t2, ty2 = self.run_text(m, 'spec_' + nm, o.get('opaque', ()), types=ty)
            except Exception as e:
                if os.environ.get('RDCHECK_DEBUG'):
                    raise
                self.ob(prefix + nm, INCONCLUSIVE, rule, '', 'reference outside the analysed language: %s' % (repr(e)[:200],))
                continue
            ty.update(ty2)
            scal = {k for k, x in ty.items() if x in ('scalar', 'str', 'bool', 'dict', 'opt')}
            th = Theory(scal, {k for k, x in ty.items() if x == 'bool'}, seeds=40 if self.tier == 'quick' else 120,
                        positive={k for k, x in ty.items() if x == 'pos'})
            where = ''
            if kind == 'return':
                r = conj(st.pc) if st is not None else FALSE
                r = B.tnot(r)
                where = last_raise(it)
            else:
                r = FALSE
                for e in it.events:
                    if e.kind == kind and (match is None or match(e)):
                        r = B.tor(r, conj(e.pc))
                        where = e.where
            t2 = truth(t2)
            if kind != 'return':
                ret = conj(st.pc) if st is not None else FALSE
                r, t2 = B.tand(ret, r), B.tand(ret, t2)
            name = prefix + nm
            if mode == 'if':
                r, t2 = B.tor(B.tnot(t2), r), TRUE
            self.nodes += sum(1 for _ in subterms(r))
            res, c, sp = th.compare(r, t2)
            if res == EQ:
                self.ob(name, HOLDS, rule)
            elif res == NE:
                self.ob(name, VIOLATED, rule, where or locate(it, c, r), 'happens when %s; required when %s' % (show(c, 7)[:300], show(sp, 7)[:300]))
            else:
                self.ob(name, INCONCLUSIVE, rule, where, 'cannot relate %s to %s' % (show(c, 6)[:300], show(sp, 6)[:300]))

    def compare_one(self, name, cv, sv, th, it, rule):
        self.nodes += sum(1 for _ in subterms(cv))
        r, c, s = th.compare(cv, sv)
        if r == EQ:
            self.ob(name, HOLDS, rule)
        elif r == NE:
            self.ob(name, VIOLATED, rule, locate(it, c, cv), 'computes %s where %s is required' % (show(c, 7)[:400], show(s, 7)[:400]))
        elif self.on_unk is not None and self.on_unk(cv, sv):
            self.ob(name, VIOLATED, rule, locate(it, c, cv), self.on_unk(cv, sv) + ': ' + show(c, 5)[:300])
        else:
            self.ob(name, INCONCLUSIVE, rule, locate(it, c, cv), 'cannot relate %s to %s' % (show(c, 6)[:300], show(s, 6)[:300]))


def truth(t):
    return t if B.is_bool(t) else mk('truth', t)


def conj(pc):
    r = TRUE
    for c, v in pc:
        r = B.tand(r, c if v else B.tnot(c))
    return r


def annotations(fn):
    out = {}
    a = fn.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None:
            out[x.arg] = ast.unparse(x.annotation)
    return out


def components(t):
    if t.op == 'dict' and all(k.op == 'const' for k, _ in t.a[0]):
        out = []
        for k, v in t.a[0]:
            for p, x in components(v):
                out.append(((k,) + p, x))
        return out
    if t.op in ('tuple',):
        out = []
        for i, v in enumerate(t.a[0]):
            for p, x in components(v):
                out.append(((const(i),) + p, x))
        return out
    return [((), t)]


def locate(it, c, whole):
    loc = it.loc.get(c.id)
    if loc is None:
        for x in subterms(c):
            if x.op not in ('const', 'param', 'ext') and x.id in it.loc:
                loc = it.loc[x.id]
                break
    return loc or it.loc.get(whole.id) or ''


def last_raise(it):
    for e in reversed(it.events):
        if e.kind == 'raise':
            return e.where
    return ''


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if not ln or ln.startswith('#'):
                continue
            if ln.startswith('{'):
                d = json.loads(ln)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out
