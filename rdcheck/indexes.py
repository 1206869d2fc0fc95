"""Index provenance: which timestamps a series- or table-valued term carries.

A value is the set of indexes the term may have (one per return path):
  ('I', name)       the index of the input called `name`
  ('sel', b, why)   some of the rows of b            ('perm', b)   b in another order
  ('res', b)        a resampled grid of b            ('new', id)   an index made up elsewhere
  ('un', {..})      rows of several indexes          SC            no index (scalar, array)
None means not known."""
from .terms import *
from . import build as B

SC = ('sc',)
TS = 'timestamps'
KEEP = {'copy', 'shift', 'ffill', 'bfill', 'fillna', 'astype', 'round', 'interpolate', 'diff', 'cumsum', 'cumprod', 'cummax', 'cummin', 'abs', 'rename', 'clip', 'replace',
        'rank', 'isin', 'where', 'mask', 'to_frame', 'rename_axis', 'pct_change', 'between', 'infer_objects', 'isna', 'isnull', 'notna', 'notnull', 'assign', 'map', 'apply',
        'transform', 'squeeze', 'combine', 'combine_first'}
ARITH = {'add', 'sub', 'mul', 'div', 'multiply', 'divide', 'subtract', 'truediv', 'pow', 'lt', 'gt', 'le', 'ge', 'eq', 'ne', 'floordiv', 'mod', 'radd', 'rsub', 'rmul', 'rdiv'}
REDUCE = {'sum', 'mean', 'median', 'std', 'var', 'min', 'max', 'quantile', 'count', 'any', 'all', 'nunique', 'first', 'last', 'prod', 'sem', 'skew', 'kurt', 'size', 'agg', 'aggregate'}
WINDOW = {'rolling', 'expanding', 'ewm'}
UFUNC = {'abs', 'absolute', 'log', 'log1p', 'log10', 'exp', 'sqrt', 'sin', 'cos', 'tan', 'isnan', 'isfinite', 'isinf', 'logical_not', 'logical_and', 'logical_or', 'logical_xor', 'minimum', 'maximum',
         'fmin', 'fmax', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'negative', 'sign', 'floor', 'ceil', 'square', 'greater', 'less', 'greater_equal', 'less_equal',
         'equal', 'not_equal', 'invert', 'clip', 'round', 'rint', 'deg2rad', 'rad2deg', 'nan_to_num', 'isclose'}


class Index:
    def __init__(self, types, alias=()):
        """types: parameter -> kind; alias: parameter -> the input whose index it shares"""
        self.ty = types
        self.alias = dict(alias)
        self.memo = {}
        self.gate = {}      # condition term id -> assumed truth
        self.seen = {}      # gates met

    # -- lattice
    def of(self, t):
        k = t.id
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = self.raw(t)
        if r is not None and len(r) > 6:
            r = None
        self.memo[k] = r
        return r

    def lift(self, f, *sets):
        if any(s is None for s in sets):
            return None
        out = {()}
        for s in sets:
            out = {o + (x,) for o in out for x in s}
            if len(out) > 40:
                return None
        r = set()
        for o in out:
            x = f(*o)
            if x is None:
                return None
            r.add(x)
        return frozenset(r)

    def join(self, *xs):
        """label alignment of operands"""
        xs = [x for x in xs if x != SC]
        if not xs:
            return SC
        if all(x == xs[0] for x in xs):
            return xs[0]
        flat = set()
        for x in xs:
            flat |= set(x[1]) if x[0] == 'un' else {x}
        # rows selected from (or a reordering of) an index that is there anyway add nothing
        for x in list(flat):
            b = x
            while b[0] in ('sel', 'perm'):
                b = b[1]
                if b in flat:
                    flat.discard(x)
                    break
        if len(flat) == 1:
            return next(iter(flat))
        return ('un', frozenset(flat))

    def align(self, ts):
        return self.lift(self.join, *[self.of(x) for x in ts])

    # -- index-valued terms
    def value(self, v):
        o = v.op
        if o == 'ite':
            self.seen[v.a[0].id] = v.a[0]
            if v.a[0].id in self.gate:
                return self.value(v.a[1] if self.gate[v.a[0].id] else v.a[2])
            a, b = self.value(v.a[1]), self.value(v.a[2])
            return None if a is None or b is None else a | b
        if o == 'attr' and v.a[1] == 'index':
            return self.of(v.a[0])
        if o == 'param':
            return frozenset({('I', self.alias.get(v.a[0], v.a[0]))}) if self.ty.get(v.a[0]) == 'index' else None
        if o == 'setattr':
            return self.value(v.a[0])
        if o == 'mcall' and v.a[1] == 'union':
            x = v.a[2][0] if v.a[2] else dict(v.a[3]).get('other')
            return self.lift(self.join, self.value(v.a[0]), self.value(x)) if x is not None else None
        if o == 'mcall' and v.a[1] in ('copy', 'rename', 'set_names'):
            return self.value(v.a[0])
        if o in ('filt', 'rowsel'):
            return self.lift(lambda b: ('sel', b, 'filter'), self.value(v.a[0]))
        if o == 'sub':
            return self.lift(lambda b: ('sel', b, 'slice'), self.value(v.a[0])) if v.a[1].op == 'slice' else None
        if o == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] in ('pandas.date_range', 'pandas.RangeIndex', 'builtins.range'):
            return frozenset({('new', v.id)})
        return None

    def raw(self, t):
        o = t.op
        one = lambda x: frozenset({x})
        if o == 'param':
            k = self.ty.get(t.a[0])
            if k in ('series', 'frame'):
                return one(('I', self.alias.get(t.a[0], t.a[0])))
            return one(SC) if k in ('scalar', 'str', 'bool', 'pos', 'ndarray', 'opt') else None
        if o in ('const', 'td', 'fmt', 'ext', 'func', 'lam', 'slice', 'isnone', 'haskey'):
            return one(SC)
        if o == 'ite':
            self.seen[t.a[0].id] = t.a[0]
            if t.a[0].id in self.gate:
                return self.of(t.a[1] if self.gate[t.a[0].id] else t.a[2])
            a, b = self.of(t.a[1]), self.of(t.a[2])
            return None if a is None or b is None else a | b
        if o in ('bin', 'cmp', 'and', 'or', 'not', 'abs', 'clip', 'isna', 'where', 'fillall', 'neg', 'in', 'truth'):
            return self.align([x for x in kids(t) if x.op != 'str'])
        if o == 'setattr':
            return self.value(t.a[2]) if t.a[1] == 'index' else self.of(t.a[0])
        if o in ('setcol', 'setloc', 'mut', 'viewmut'):
            if t.a[0].op == 'call' and B.kw(t.a[0], 'index') is None and not t.a[0].a[1] and o == 'setcol' and B.kw(t.a[0], 'data') is None:
                return self.of(t.a[2]) if len(t.a) > 2 else None
            return self.of(t.a[0])
        if o == 'oncol':
            return self.of(t.a[1])
        if o in ('filt', 'rowsel'):
            return self.lift(lambda b: SC if b == SC else ('sel', b, 'filter'), self.of(t.a[0]))
        if o == 'sub':
            i = t.a[1]
            if i.op == 'const' and isinstance(i.a[0], str) or i.op == 'list' and all(x.op == 'const' and isinstance(x.a[0], str) for x in i.a[0]):
                return self.of(t.a[0])
            if i.op == 'slice':
                base = self.of(t.a[0].a[0]) if t.a[0].op == 'attr' and t.a[0].a[1] in ('loc', 'iloc') else self.of(t.a[0])
                lo, hi, st = i.a
                if lo is NONE and hi is NONE and st.op == 'const' and st.a[0] == -1:
                    return self.lift(lambda b: b[1] if b[0] == 'perm' else SC if b == SC else ('perm', b), base)
                if lo is NONE and hi is NONE and st is NONE:
                    return base
                return self.lift(lambda b: SC if b == SC else ('sel', b, 'slice'), base)
            if self.of(t.a[0]) == one(SC):
                return one(SC)
            if i.op == 'const' and isinstance(i.a[0], int) and t.a[0].op == 'attr' and t.a[0].a[1] in ('iloc', 'values', 'iat', 'index'):
                return one(SC)
            return None
        if o == 'attr':
            if t.a[1] in ('values', 'shape', 'size', 'name', 'dtype', 'empty', 'freq', 'tz'):
                return one(SC)
            if t.a[1] == 'T':
                return None
            if B.is_frame(t.a[0]) and t.a[1] not in B.PANDAS_ATTRS:
                return self.of(t.a[0])
            return None
        if o == 'quantile':
            return self.reduced(t.a[0])
        if o == 'agg':
            return self.reduced(t.a[1])
        if o == 'mcall':
            return self.method(t)
        if o == 'call' and t.a[0].op == 'ext':
            return self.library(t)
        if o == 'call' and t.a[0].op == 'func':
            # package routines with a documented index
            kws = dict(t.a[2])
            if t.a[0].a[0] == 'interpolate' and 'target' in kws:
                return self.value(kws['target'])
            if t.a[0].a[0] == 'energy_from_power' and 'power' in kws:
                f = kws.get('target_frequency')
                return self.lift(lambda b: ('fn', b, f.id if f is not None else 0), self.of(kws['power']))
            return None
        if o == 'loop':
            init, nxt = t.a[2], t.a[3]
            a = self.of(init)
            for x in subterms(nxt):
                if x.op == 'mu' and x.a[0] == t.a[0]:
                    self.memo.setdefault(x.id, a)
            b = self.of(nxt)
            return a if a is not None and a == b else None
        return None

    def reduced(self, x):
        while x.op == 'mcall' and x.a[1] in ('resample', 'groupby') or x.op == 'mcall' and x.a[1] in WINDOW or (x.op == 'sub' and x.a[0].op == 'mcall' and x.a[0].a[1] in ('resample', 'groupby') + tuple(WINDOW)):
            if x.op == 'sub':
                x = x.a[0]
                continue
            if x.a[1] == 'groupby':
                return None
            if x.a[1] == 'resample':
                return self.lift(lambda b: ('res', b), self.of(x.a[0]))
            return self.of(x.a[0])
        if B.is_frame(x):
            return None
        s = self.of(x)
        return frozenset({SC}) if s is not None else None

    def method(self, t):
        m, r, kws = t.a[1], t.a[0], dict(t.a[3])
        if r.op == 'mcall' and r.a[1] in WINDOW | {'resample', 'groupby'} or r.op == 'sub' and r.a[0].op == 'mcall' and r.a[0].a[1] in WINDOW | {'resample'}:
            if m in REDUCE | {'asfreq', 'apply'} | {'ffill', 'bfill', 'interpolate'}:
                return self.reduced(r)
            return None
        if m in ('combine', 'combine_first'):
            o = kws.get('other') or (t.a[2][0] if t.a[2] else None)
            return self.align([r, o]) if o is not None else None
        if m == 'apply' and B.is_frame(r):
            return self.of(r) if B.num(kws.get('axis') or NONE) == 1 or kws.get('axis') is const('columns') else None
        if m == 'fillna' and 'value' in kws or m in ('where', 'mask', 'clip', 'between', 'isin', 'shift', 'diff', 'astype'):
            if m == 'shift' and kws.get('freq') not in (None, NONE):
                return self.lift(lambda b: ('new', ('shift', b)), self.of(r))
            return self.of(r)
        if m in KEEP:
            return self.of(r)
        if m in ARITH:
            o = kws.get('other') or (t.a[2][0] if t.a[2] else None)
            return self.align([r, o]) if o is not None else None
        if m == 'reindex':
            v = kws.get('index') or (t.a[2][0] if t.a[2] else None)
            if v is None:
                return self.of(r)
            x = self.value(v)
            return x if x is not None else self.of(v) if v.op != 'param' else None
        if m == 'reindex_like':
            v = kws.get('other') or (t.a[2][0] if t.a[2] else None)
            return self.of(v) if v is not None else None
        if m in ('dropna', 'drop_duplicates', 'head', 'tail', 'truncate', 'sample', 'nlargest', 'nsmallest'):
            if m == 'dropna' and B.is_frame(r) and B.num(kws.get('axis') or NONE) == 1:
                return self.of(r)
            return self.lift(lambda b: SC if b == SC else ('sel', b, m), self.of(r))
        if m == 'drop':
            if kws.get('columns') is not None or B.num(kws.get('axis') or NONE) == 1 or kws.get('axis') is const('columns'):
                return self.of(r)
            return self.lift(lambda b: ('sel', b, m), self.of(r))
        if m in ('sort_values',):
            return self.lift(lambda b: ('perm', b), self.of(r))
        if m in ('sort_index',):
            return self.lift(lambda b: b[1] if b[0] == 'perm' else b, self.of(r))
        if m == 'asfreq':
            return self.lift(lambda b: ('res', b), self.of(r))
        if m == 'reset_index' or m == 'set_index':
            return None
        if m in REDUCE:
            return self.reduced(r)
        if m in ('to_numpy', 'tolist', 'item', 'view', 'total_seconds'):
            return frozenset({SC})
        return None

    def library(self, t):
        fn = t.a[0].a[0]
        args = t.a[1] if isinstance(t.a[1], tuple) else ()
        if fn in ('pandas.Series', 'pandas.DataFrame'):
            v = B.kw(t, 'index')
            if v is not None and v is not NONE:
                x = self.value(v)
                return x if x is not None else None
            d = B.kw(t, 'data')
            if d is None:
                return None
            if d.op == 'dict':
                return self.align([x for _, x in d.a[0]])
            x = self.of(d)
            return None if x is None or SC in x else x
        if fn == 'pandas.concat':
            objs = B.kw(t, 'objs')
            ax = B.kw(t, 'axis')
            if objs is not None and objs.op == 'listof' and ax is not None and B.num(ax) == 1:
                return self.of(objs.a[0])
            if objs is None or objs.op not in ('list', 'tuple') or ax is None or B.num(ax) != 1:
                return None
            j = B.kw(t, 'join')
            xs = self.align(objs.a[0])
            if xs is None:
                return None
            if j is not None and j.op == 'const' and j.a[0] == 'inner':
                return self.lift(lambda b: b if b[0] != 'un' else ('sel', b, 'inner join'), xs)
            return xs
        if fn.startswith('numpy.') and fn[6:] in UFUNC:
            return self.align([x for x in args if isinstance(x, T)])
        if fn.startswith('numpy.') or fn.startswith('builtins.'):
            return frozenset({SC}) if fn not in ('builtins.sorted', 'builtins.list') else None
        if fn == 'pvlib.clearsky.detect_clearsky':
            x = args[0] if args else B.kw(t, 'measured')
            return self.of(x) if isinstance(x, T) else None
        if fn.startswith('scipy.'):
            return frozenset({SC})
        if fn in ('pvlib.temperature.sapm_cell',):
            return self.align([x for x in list(args) + [y for _, y in t.a[2]] if isinstance(x, T)])
        return None


def describe(x):
    k = x[0]
    if k == 'I':
        return 'the index of `%s`' % x[1]
    if k == 'sel':
        return 'only some rows (%s) of %s' % (x[2], describe(x[1]))
    if k == 'perm':
        return 'a reordering of ' + describe(x[1])
    if k == 'res':
        return 'a resampled grid of ' + describe(x[1])
    if k == 'un':
        return 'the rows of ' + ' together with those of '.join(sorted(describe(y) for y in x[1]))
    if k == 'fn':
        return 'the energy intervals of ' + describe(x[1])
    if k == 'new':
        return 'an index of its own'
    return 'no index'


def differs(x, name):
    """is index x certainly not (for some input) the index of `name`?"""
    if x == ('I', name):
        return False
    if x[0] in ('sel', 'perm', 'res', 'I', 'new'):
        return True
    if x[0] == 'un':
        return True if ('I', name) in x[1] or all(y[0] in ('sel', 'res', 'I', 'new') for y in x[1]) else None
    return None
