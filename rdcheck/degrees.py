"""Homogeneity degrees: by which power of k does a value scale when the chosen inputs are multiplied by k > 0?

A degree is an integer or fraction; ANY (zero, missing, infinite: scales with everything); None (not known); or a Bad, the
place where values of different degree are compared, added or merged, so that the result depends on the unit."""
from fractions import Fraction
from .terms import *
from . import build as B
from .columns import columns as frame_columns, INDEX_NAMES

ANY = 'any'
SAME = {'copy', 'shift', 'diff', 'ffill', 'bfill', 'dropna', 'interpolate', 'sort_index', 'sort_values', 'cumsum', 'cummax', 'cummin', 'abs', 'rename', 'to_frame', 'squeeze', 'asfreq',
        'resample', 'rolling', 'expanding', 'groupby', 'mean', 'median', 'sum', 'min', 'max', 'std', 'sem', 'mad', 'first', 'last', 'head', 'tail', 'tolist', 'to_numpy', 'to_list', 'item',
        'drop', 'drop_duplicates', 'drop_vars', 'rename_axis', 'reset_index', 'set_index', 'nlargest', 'nsmallest', 'mode', 'unique', 'flatten', 'ravel', 'reshape', 'transpose', 'infer_objects',
        'tz_localize', 'tz_convert', 'quantile', 'truncate', 'sample', 'get_group', 'iterrows', 'itertuples', 'items', 'stack', 'unstack', 'ewm', 'bootstrap', 'explode', 'at_time', 'between_time'}
ZERO = {'count', 'size', 'any', 'all', 'nunique', 'idxmax', 'idxmin', 'argmax', 'argmin', 'isna', 'isnull', 'notna', 'notnull', 'rank', 'argsort', 'corr', 'pct_change', 'duplicated', 'first_valid_index',
        'last_valid_index', 'autocorr'}
ARITH = {'add': '+', 'sub': '-', 'subtract': '-', 'mul': '*', 'multiply': '*', 'div': '/', 'divide': '/', 'truediv': '/', 'pow': '**', 'lt': '<', 'gt': '<', 'le': '<', 'ge': '<', 'eq': '<', 'ne': '<',
         'radd': '+', 'rmul': '*'}
NUMPY_SAME = {'abs', 'absolute', 'array', 'asarray', 'diff', 'cumsum', 'sum', 'nansum', 'mean', 'nanmean', 'median', 'nanmedian', 'percentile', 'nanpercentile', 'quantile', 'nanquantile', 'min', 'max', 'nanmin',
              'nanmax', 'amin', 'amax', 'std', 'nanstd', 'sort', 'unique', 'ravel', 'squeeze', 'reshape', 'negative', 'transpose', 'flip', 'repeat', 'tile', 'mat', 'ptp', 'atleast_1d', 'float64'}
NUMPY_JOIN = {'maximum', 'minimum', 'fmax', 'fmin', 'add', 'subtract', 'append', 'insert', 'concatenate', 'hstack', 'vstack', 'nan_to_num', 'clip', 'stack', 'full', 'full_like', 'linspace', 'subtract.outer', 'add.outer'}
NUMPY_ZERO = {'isnan', 'isfinite', 'isinf', 'sign', 'argmax', 'argmin', 'argsort', 'arange', 'zeros', 'ones', 'empty', 'shape', 'size', 'ndim', 'count_nonzero', 'zeros_like', 'ones_like', 'any', 'all', 'eye'}
BUILTIN_SAME = {'float', 'abs', 'list', 'tuple', 'sum', 'sorted', 'reversed', 'iter', 'zip', 'enumerate', 'map'}
BUILTIN_ZERO = {'len', 'range', 'bool', 'isinstance', 'type', 'str', 'hasattr', 'slice'}


class Bad:
    def __init__(self, t, what):
        self.t, self.what = t, what

    def __repr__(self):
        return 'Bad(%s)' % self.what


class Degree:
    def __init__(self, scaled, types=(), opaque=None):
        self.scaled = scaled            # parameter -> degree
        self.ty = dict(types)
        self.busy, self.loops = set(), {}
        self.memo, self.cmemo, self.rmemo = {}, {}, {}
        self.opaque = opaque or {}      # package routine -> function(degree of its keywords) -> degree

    def of(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        self.memo[t.id] = None
        r = self.raw(t)
        self.memo[t.id] = r
        return r

    # -- combination
    def join(self, t, ds, what):
        ds = list(ds)
        for d in ds:
            if isinstance(d, Bad):
                return d
        if any(d is None for d in ds):
            return None
        ns = {d for d in ds if d != ANY}
        if not ns:
            return ANY
        if len(ns) == 1:
            return next(iter(ns))
        return Bad(t, '%s values that scale with the power %s and with the power %s of the unit' % (what, *map(str, sorted(ns)[:2])))

    def zero(self, t, ds):
        """a value that only makes sense when everything it depends on is free of the unit"""
        d = self.join(t, ds, 'mixes')
        if d == ANY:
            return 0
        if isinstance(d, Bad):
            return None if d.t is t and d.what.startswith('mixes') else d
        return d if d == 0 else None

    def lin(self, ds, sign):
        for d in ds:
            if isinstance(d, Bad):
                return d
        if any(d is None for d in ds):
            return None
        if any(d == ANY for d in ds):
            return ANY
        return ds[0] + sign * ds[1]

    def binary(self, t, op, a, b):
        da, db = self.of(a), self.of(b)
        if op in ('+', '-'):
            return self.join(t, [da, db], 'adds')
        if op == '*':
            return self.lin([da, db], 1)
        if op == '/':
            if da == ANY and db is not None and not isinstance(db, Bad):
                return ANY
            if db == ANY:
                return da       # division by zero: missing or infinite
            return self.lin([da, db], -1)
        if op == '//':
            r = self.lin([da, db], -1)
            return r if r in (0, ANY) or isinstance(r, Bad) else None
        if op == '%':
            return self.join(t, [da, db], 'combines')
        if op == '**':
            e = B.num(b)
            if isinstance(da, Bad):
                return da
            if da == 0:
                return self.zero(t, [db])
            if e is not None and da is not None and da != ANY:
                f = Fraction(e).limit_denominator(64)
                r = da * f
                return int(r) if r == int(r) else r
            return None
        if op == '<':
            d = self.join(t, [da, db], 'compares')
            return d if isinstance(d, Bad) or d is None else 0
        return self.zero(t, [da, db])

    # -- rows
    def selectors(self, t):
        if t.op == 'rowsel':
            return [self.rows(x) for x in kids(t)[1:]]
        return [self.of(x) for x in kids(t)[1:]]

    def rows(self, t):
        if t.id in self.rmemo:
            return self.rmemo[t.id]
        self.rmemo[t.id] = None
        r = self.rmemo[t.id] = self.rows_(t)
        return r

    def rows_(self, t):
        o = t.op
        if o in ('setcol', 'setattr', 'setloc', 'mut'):
            if o == 'setattr' and t.a[1] == 'index':
                return self.of(t.a[2])
            return self.rows(t.a[0])
        if o == 'oncol':
            return self.rows(t.a[1])
        if o == 'param':
            return 0
        if o == 'sub':
            base, i = t.a
            if i.op in ('list', 'tuple') and all(x.op == 'const' and isinstance(x.a[0], str) for x in i.a[0]) or i.op == 'const' and isinstance(i.a[0], str):
                return self.rows(base)
            if base.op == 'attr' and base.a[1] in ('loc', 'iloc'):
                return self.zero(t, [self.rows(base.a[0]), self.of(i)])
            return self.zero(t, [self.rows(base), self.of(i)])
        if o == 'attr' and t.a[1] in ('values', 'loc', 'iloc', 'dt', 'str', 'index'):
            return self.rows(t.a[0])
        if o == 'mcall' and t.a[1] in ('join', 'merge'):
            x = dict(t.a[3]).get('other') or dict(t.a[3]).get('right') or (t.a[2][0] if t.a[2] else None)
            return self.zero(t, [self.rows(t.a[0]), self.rows(x)]) if x is not None else None
        if o in ('filt', 'rowsel'):
            return self.zero(t, [self.rows(t.a[0])] + self.selectors(t))
        if o == 'ite':
            return self.zero(t, [self.of(t.a[0]), self.rows(t.a[1]), self.rows(t.a[2])])
        if o == 'mcall' and t.a[1] == 'reindex':
            v = dict(t.a[3]).get('index') or (t.a[2][0] if t.a[2] else None)
            return self.of(v) if v is not None else self.rows(t.a[0])
        if o == 'mcall' and t.a[1] in SAME - {'unique', 'mode'} or o == 'mcall' and t.a[1] in ('fillna', 'astype', 'round', 'replace', 'where', 'mask', 'clip', 'isna', 'isnull', 'notna', 'notnull'):
            return self.rows(t.a[0])
        if o == 'agg':
            return self.rows(t.a[1])
        if o in ('bin', 'cmp', 'and', 'or', 'not', 'abs', 'where', 'isna', 'clip'):
            return self.zero(t, [self.rows(x) for x in kids(t) if x.op not in ('const',)])
        if o == 'const':
            return 0
        if o == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('pandas.Series', 'pandas.DataFrame'):
            v = B.kw(t, 'index')
            if v is not None and v is not NONE:
                return self.of(v)
            d = B.kw(t, 'data')
            if d is not None and d.op == 'dict':
                return self.zero(t, [self.rows(x) for _, x in d.a[0]])
            return self.rows(d) if d is not None else 0
        if o == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'pandas.concat':
            objs = B.kw(t, 'objs')
            if objs is not None and objs.op in ('list', 'tuple'):
                return self.zero(t, [self.rows(x) for x in objs.a[0]])
            if objs is not None and objs.op == 'listof':
                return self.rows(objs.a[0])
            return None
        if o == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('pandas.merge_asof', 'pandas.merge'):
            # rows follow the left table when its keys do not scale
            return self.zero(t, [self.rows(B.kw(t, 'left')), self.rows(B.kw(t, 'right'))]) if B.kw(t, 'left') is not None and B.kw(t, 'right') is not None else None
        d = self.of(t)
        return 0 if isinstance(d, (int, Fraction)) or d == ANY else d if isinstance(d, Bad) else None

    # -- columns of tables
    def col(self, f, k):
        if (f.id, k.id) in self.cmemo:
            return self.cmemo[f.id, k.id]
        self.cmemo[f.id, k.id] = None
        r = self.cmemo[f.id, k.id] = self.col_(f, k)
        return r

    def col_(self, f, k):
        o = f.op
        key = k.a[0] if k.op == 'const' else None
        if o == 'setcol':
            if f.a[1] is k:
                return self.of(f.a[2])
            if f.a[1].op == 'const':
                return self.col(f.a[0], k)
            return None
        if o == 'setattr':
            if f.a[1] == 'columns':
                if f.a[2].op in ('list', 'tuple') and f.a[0].op == 'call' and f.a[0].a[0].op == 'ext' and f.a[0].a[0].a[0] == 'pandas.concat':
                    objs = B.kw(f.a[0], 'objs')
                    names = [x.a[0] if x.op == 'const' else None for x in f.a[2].a[0]]
                    if objs is not None and objs.op in ('list', 'tuple') and len(objs.a[0]) == len(names) and key in names:
                        return self.of(objs.a[0][names.index(key)])
                if f.a[2].op in ('list', 'tuple') and len(f.a[2].a[0]) == 1 and f.a[2].a[0][0] is k and f.a[0].op == 'mcall' and f.a[0].a[1] == 'to_frame':
                    return self.of(f.a[0].a[0])
                return None
            if f.a[1] == key and key not in B.PANDAS_ATTRS:
                return self.of(f.a[2])
            return self.col(f.a[0], k)
        if o == 'setloc':
            d = self.col(f.a[0], k)
            sel = f.a[2] if len(f.a) > 2 else None
            if sel is not None and sel.op == 'tuple' and len(sel.a[0]) == 2 and sel.a[0][1].op == 'const' and sel.a[0][1] is not k:
                return d
            return self.join(f, [d, self.of(f.a[-1])], 'merges') if len(f.a) > 3 else None
        if o == 'ite':
            d = self.choose(f, self.col(f.a[1], k), self.col(f.a[2], k))
            return None if isinstance(d, Bad) and d.t is f else d     # one of the tables may not have the column at all
        if o in ('filt', 'rowsel'):
            c = self.zero(f, self.selectors(f))
            d = self.col(f.a[0], k)
            return c if isinstance(c, Bad) else None if c is None else d
        if o == 'param':
            return self.of(f)
        if o == 'mcall':
            m, kws = f.a[1], dict(f.a[3])
            if m == 'rename' and kws.get('columns') is not None and kws['columns'].op == 'dict':
                inv = {v.a[0]: kk for kk, v in kws['columns'].a[0] if v.op == 'const'}
                return self.col(f.a[0], inv.get(key, k))
            if m == 'to_frame':
                n = kws.get('name') or (f.a[2][0] if f.a[2] else None)
                x = f.a[0]
                while n is None and (x.op == 'setattr' or x.op == 'mcall' and x.a[1] in ('sort_index', 'copy', 'rename_axis', 'dropna')):
                    n = x.a[2] if x.op == 'setattr' and x.a[1] == 'name' else None
                    x = x.a[0]
                return self.of(f.a[0]) if n is k else None
            if m == 'assign':
                return self.of(kws[key]) if key in kws else self.col(f.a[0], k)
            if m == 'join':
                x = kws.get('other') or (f.a[2][0] if f.a[2] else None)
                if x is None:
                    return None
                a, b = self.has(f.a[0], key), self.has(x, key)
                return self.col(f.a[0], k) if a and b is False else self.col(x, k) if b and a is False else None
            if m == 'merge':
                x = kws.get('right') or (f.a[2][0] if f.a[2] else None)
                if x is None:
                    return None
                a, b = self.has(f.a[0], key), self.has(x, key)
                if kws.get('on') is k:
                    return self.join(f, [self.col(f.a[0], k), self.col(x, k)], 'compares')
                return self.col(f.a[0], k) if b is False else self.col(x, k) if a is False else None
            if m == 'reset_index':
                return self.reset(f, f.a[0], k)
            if m == 'set_index' or m in SAME or m in ('reindex', 'fillna', 'astype', 'where', 'mask', 'replace'):
                d = self.col(f.a[0], k)
                if m == 'fillna':
                    return self.join(f, [d] + [self.of(x) for x in kids(f)[1:]], 'merges')
                return d
        if o == 'agg':
            d = self.col(f.a[1], k)
            return self.aggregate(f.a[0], d)
        if o == 'call' and f.a[0].op == 'ext':
            fn = f.a[0].a[0]
            if fn == 'pandas.DataFrame':
                d = B.kw(f, 'data')
                if d is not None and d.op == 'dict':
                    for kk, v in d.a[0]:
                        if kk is k:
                            return self.of(v)
                    return None
                if d is None:
                    return ANY
                if d.op == 'listof' and d.a[0].op == 'dict':
                    for kk, v in d.a[0].a[0]:
                        if kk is k:
                            return self.of(v)
                    return None
                return self.of(d)
            if fn == 'pandas.concat':
                objs, ks = B.kw(f, 'objs'), B.kw(f, 'keys')
                if objs is not None and objs.op in ('list', 'tuple'):
                    if ks is not None and ks.op in ('list', 'tuple') and len(ks.a[0]) == len(objs.a[0]):
                        for kk, v in zip(ks.a[0], objs.a[0]):
                            if kk is k:
                                return self.of(v)
                    return self.join(f, [self.of(x) for x in objs.a[0]], 'merges')
            if fn in ('pandas.merge', 'pandas.merge_asof'):
                l, r = B.kw(f, 'left'), B.kw(f, 'right')
                sf = B.kw(f, 'suffixes')
                if l is not None and r is not None and isinstance(key, str):
                    s2 = sf.a[0][1].a[0] if sf is not None and sf.op in ('list', 'tuple') else '_y'
                    if s2 and key.endswith(s2):
                        return self.col(r, const(key[:-len(s2)]))
                    if self.has(l, key) is False:
                        return self.col(r, k)
                    return self.col(l, k) if self.has(l, key) else None
            if fn == 'statsmodels.api.add_constant':
                return 0 if key == 'const' else self.col(kids(f)[1], k)
        if o == 'elem' and f.a[0].op == 'mcall' and f.a[0].a[1] == 'iterrows':
            return self.col(f.a[0].a[0], k)
        if o == 'loop':
            d = self.col(f.a[2], k)
            return d if d == ANY else None
        if o == 'oncol':
            return self.of(f.a[0])
        if o == 'where':
            c = self.of(f.a[0])
            if isinstance(c, Bad):
                return c
            d = self.join(f, [self.col(f.a[1], k), self.col(f.a[2], k)], 'merges')
            return d if c is not None or isinstance(d, Bad) else None
        if o == 'sub':
            base, i = f.a
            if i.op in ('list', 'tuple') and all(x.op == 'const' for x in i.a[0]):
                return self.col(base, k)
            if base.op == 'attr' and base.a[1] in ('loc', 'iloc'):
                c = self.of(i) if i.op != 'tuple' else self.zero(f, [self.of(x) for x in i.a[0]])
                return c if isinstance(c, Bad) else None if c is None else self.col(base.a[0], k)
            if i.op == 'slice':
                c = self.of(i)
                return c if isinstance(c, Bad) else None if c is None else self.col(base, k)
            return None
        if B.is_frame(f):
            return None
        return self.of(f)

    def reset(self, f, base, k):
        key = k.a[0] if k.op == 'const' else None
        if base.op == 'ite':
            d = self.choose(base, self.reset(f, base.a[1], k), self.reset(f, base.a[2], k))
            return None if isinstance(d, Bad) and d.t is base else d
        x = base
        while x.op == 'setattr' and x.a[1] != 'name' or x.op == 'mcall' and x.a[1] in ('sort_index', 'copy', 'rename_axis', 'dropna'):
            x = x.a[0]
        if x.op == 'setattr' and x.a[2].op == 'const':
            return self.of(base) if x.a[2].a[0] == key else self.rows(base)
        if INDEX_NAMES.get(base.id) is k:
            return self.rows(base)
        h = self.has(base, key)
        return self.rows(base) if h is False else self.col(base, k) if h else None

    def has(self, f, key):
        c = frame_columns(f)
        return None if c is None else True if key in c[0] else False if c[1] else None

    def aggregate(self, name, d):
        if isinstance(d, Bad) or d is None:
            return d
        if name in ('var',):
            return 2 * d if d != ANY else ANY
        if name in ('count', 'size', 'any', 'all', 'nunique', 'idxmax', 'idxmin'):
            return 0
        if name in ('prod', 'skew', 'kurt'):
            return d if d in (0, ANY) else None
        return d

    def choose(self, t, a, b):
        c = self.of(t.a[0])
        if isinstance(c, Bad):
            return c
        d = self.join(t, [a, b], 'merges')
        return d if c is not None or isinstance(d, Bad) else None

    def raw(self, t):
        o = t.op
        if o == 'param':
            return self.scaled.get(t.a[0], 0)
        if o == 'const':
            v = t.a[0]
            if v is None or isinstance(v, (int, float)) and not isinstance(v, bool) and (v == 0 or v != v or v in (float('inf'), float('-inf'))):
                return ANY
            return 0
        if o == 'ext':
            return ANY if t.a[0] in ('numpy.nan', 'numpy.inf', 'numpy.NaN', 'pandas.NaT') else 0
        if o in ('td', 'fmt', 'func', 'cls', 'isnone', 'haskey', 'hasattr', 'isinst', 'pos', 'keys', 'slice') and o not in ('slice',):
            return 0
        if o == 'slice':
            return self.zero(t, [self.of(x) for x in t.a])
        if o == 'bin':
            return self.binary(t, t.a[0], t.a[1], t.a[2])
        if o == 'cmp':
            if t.a[0] in ('is', 'is not', 'in', 'not in'):
                return 0
            return self.binary(t, '<', t.a[1], t.a[2])
        if o in ('and', 'or', 'not', 'truth'):
            ds = [self.of(x) for x in kids(t)]
            for d in ds:
                if isinstance(d, Bad):
                    return d
            return None if any(d is None for d in ds) else 0
        if o == 'isna':
            d = self.of(t.a[0])
            if d is None and t.a[0].id not in self.busy:
                self.busy.add(t.a[0].id)
                return self.scan(t.a[0]) or (0 if not any(x.op in ('unk', 'unkcond', 'mu') for x in subterms(t.a[0])) else None)
            return 0 if d is not None and not isinstance(d, Bad) else d
        if o in ('abs', 'neg', 'elem', 'deep', 'truediv'):
            return self.of(t.a[0])
        if o == 'oncol':
            return self.of(t.a[0])
        if o in ('clip',):
            return self.join(t, [self.of(x) for x in kids(t)], 'clips')
        if o == 'where':
            c = self.of(t.a[0])
            if isinstance(c, Bad):
                return c
            d = self.join(t, [self.of(t.a[1]), self.of(t.a[2])], 'merges')
            return d if c is not None or isinstance(d, Bad) else None
        if o == 'ite':
            d = self.choose(t, self.of(t.a[1]), self.of(t.a[2]))
            return None if isinstance(d, Bad) and d.t is t and (B.is_frame(t.a[1]) or B.is_frame(t.a[2])) else d
        if o in ('filt', 'rowsel'):
            c = self.zero(t, self.selectors(t))
            return c if isinstance(c, Bad) else None if c is None else self.of(t.a[0])
        if o == 'fillall':
            return self.join(t, [self.of(x) for x in kids(t)], 'merges')
        if o == 'agg':
            return self.aggregate(t.a[0], self.of(t.a[1]))
        if o == 'quantile':
            q = self.of(t.a[1])
            return self.of(t.a[0]) if q in (0, ANY) else q
        if o in ('list', 'tuple'):
            d = self.join(t, [self.of(x) for x in kids(t)], 'lists') if kids(t) else ANY
            return None if isinstance(d, Bad) and d.t is t else d
        if o == 'listof':
            return self.of(t.a[0])
        if o == 'setattr':
            if t.a[1] in ('name', 'index', 'columns'):
                return self.of(t.a[0])
            return None
        if o == 'setcol':
            a, b = self.of(t.a[0]), self.of(t.a[2])
            return None if a is None or b is None or isinstance(a, Bad) or isinstance(b, Bad) or len({a, b} - {ANY}) > 1 else b if a == ANY else a
        if o == 'setloc':
            if B.is_frame(t.a[0]):
                return None
            for x in kids(t)[1:-1]:
                if isinstance(self.of(x), Bad):
                    return self.of(x)
            return self.join(t, [self.of(x) for x in kids(t)[:1] + kids(t)[-1:]], 'merges')
        if o == 'sub':
            i = t.a[1]
            base = t.a[0]
            if base.op == 'attr' and base.a[1] in ('loc', 'iloc', 'at', 'iat'):
                base = base.a[0]
            if i.op == 'const' and isinstance(i.a[0], str):
                return self.col(base, i)
            if i.op in ('list', 'tuple') and i.a[0] and all(x.op == 'const' and isinstance(x.a[0], str) for x in i.a[0]) and base is t.a[0]:
                d = self.join(t, [self.col(base, x) for x in i.a[0]], 'lists')
                return None if isinstance(d, Bad) and d.t is t else d
            if i.op == 'slice' or i.op == 'const':
                c = self.of(i)
                d = self.of(base)
                return c if isinstance(c, Bad) else None if c is None else d
            c = self.of(i)
            if c in (0, ANY):
                return self.of(base)
            return c
        if o == 'attr':
            n = t.a[1]
            if n in ('index', 'columns', 'name', 'freq', 'dtype', 'tz', 'shape', 'size', 'empty', 'names'):
                return self.rows(t.a[0])
            if n in ('values', 'T', 'real', 'loc', 'iloc', 'flat'):
                return self.of(t.a[0])
            fit = self.fit(t.a[0])
            if fit is not None:
                return fit(n)
            if B.is_frame(t.a[0]) and n not in B.PANDAS_ATTRS:
                return self.col(t.a[0], const(n))
            d = self.of(t.a[0])
            return d if d in (0, ANY) or isinstance(d, Bad) else None
        if o == 'mcall':
            return self.method(t)
        if o == 'call':
            if t.a[0].op == 'ext':
                return self.library(t)
            if t.a[0].op == 'func' and t.a[0].a[0] in self.opaque:
                return self.opaque[t.a[0].a[0]]({k: self.of(v) for k, v in t.a[2]})
            return self.zero(t, [self.of(x) for x in kids(t)[1:]])
        if o == 'loop':
            init, nxt = t.a[2], t.a[3]
            d = self.of(init)
            if isinstance(d, Bad) or d is None:
                return d
            for x in subterms(nxt):
                if x.op == 'mu' and x.a[0] == t.a[0] and x.a[1] == t.a[1]:
                    self.memo[x.id] = d
            e = self.of(nxt)
            return self.join(t, [d, e], 'merges')
        if o == 'mu':
            y = self.loops.get((t.a[0], t.a[1]))
            return self.of(y.a[2]) if y is not None else None
        if o == 'exc':
            return 0
        if o == 'lamarg':
            return self.of(t.a[0])
        if o == 'lam':
            return 0 if not any(x.op == 'param' and self.scaled.get(x.a[0]) for x in subterms(t)) else None
        ks = kids(t)
        if ks and o not in ('mu', 'unk', 'unkcond', 'lamarg'):
            return self.zero(t, [self.of(x) for x in ks])
        return None

    def run(self, t):
        for y in subterms(t):
            if y.op == 'loop':
                self.loops.setdefault((y.a[0], y.a[1]), y)
        return self.of(t)

    def scan(self, t):
        """the first place beneath t where values of different powers are compared, added, clipped or rounded, whatever surrounds it"""
        for y in subterms(t):
            d = self.of(y)
            if isinstance(d, Bad) and d.what.startswith(('compares', 'adds', 'clips', 'rounds', 'draws')):
                return d
        return None

    def fit(self, t):
        """statsmodels least squares: OLS(endog, exog).fit()"""
        if t.op == 'mcall' and t.a[1] == 'fit' and t.a[0].op == 'call' and t.a[0].a[0].op == 'ext' and t.a[0].a[0].a[0].startswith('statsmodels'):
            c = t.a[0]
            y = B.kw(c, 'endog') or (c.a[1][0] if c.a[1] else None)
            x = B.kw(c, 'exog') or (c.a[1][1] if len(c.a[1]) > 1 else None)
            if y is None or x is None:
                return None
            dy = self.of(y)
            if isinstance(dy, Bad) or dy is None:
                return lambda n: dy
            # regressors free of the unit
            if self.of(x) not in (0, ANY):
                return lambda n: self.of(x) if isinstance(self.of(x), Bad) else None
            return lambda n: (dy if n in ('params', 'bse', 'resid', 'fittedvalues') else 2 * dy if n in ('mse_resid', 'scale', 'ssr', 'cov_params') and dy != ANY else
                              0 if n in ('rsquared', 'tvalues', 'pvalues', 'df_resid', 'nobs') else None)
        return None

    def method(self, t):
        m, r, kws = t.a[1], t.a[0], dict(t.a[3])
        arg = lambda name, i=0: kws.get(name) if kws.get(name) is not None else (t.a[2][i] if len(t.a[2]) > i else None)
        fit = self.fit(r)
        if fit is not None:
            return fit(m)
        if m == 'fit':
            return None
        lams = [x for x in kids(t)[1:] if x.op == 'lam']
        if m in ('agg', 'aggregate', 'apply', 'transform', 'map') and len(lams) == 1:
            return self.of(lams[0].a[1])
        rest = [self.of(x) for x in kids(t)[1:]]
        if m in ARITH:
            o = arg('other')
            return self.binary(t, ARITH[m], r, o) if o is not None else None
        if m in ZERO:
            d = self.of(r)
            return d if isinstance(d, Bad) else 0 if d is not None else None
        if m == 'fillna':
            v = arg('value')
            return self.join(t, [self.of(r)] + ([self.of(v)] if v is not None else []), 'merges')
        if m == 'reindex':
            fv = kws.get('fill_value')
            ix = arg('index')
            c = self.of(ix) if ix is not None else 0
            if isinstance(c, Bad):
                return c
            d = self.of(r)
            return self.join(t, [d] + ([self.of(fv)] if fv is not None else []), 'merges')
        if m in ('where', 'mask'):
            c = arg('cond')
            o = arg('other', 1)
            dc = self.of(c) if c is not None else None
            if isinstance(dc, Bad):
                return dc
            return self.join(t, [self.of(r)] + ([self.of(o)] if o is not None else []), 'merges') if dc is not None else None
        if m == 'combine':
            o = arg('other')
            fv = arg('fill_value', 2)
            return self.join(t, [self.of(r), self.of(o)] + ([self.of(fv)] if fv is not None else []), 'merges') if o is not None else None
        if m in ('clip', 'between', 'combine_first', 'replace'):
            d = self.join(t, [self.of(r)] + [self.of(x) for x in kids(t)[1:]], 'compares')
            return d if m != 'between' or isinstance(d, Bad) or d is None else 0
        if m == 'isin':
            d = self.join(t, [self.of(r)] + rest, 'compares')
            return d if isinstance(d, Bad) or d is None else 0
        if m == 'astype':
            d = self.of(r)
            ty = arg('dtype')
            nm = ty.a[0] if ty is not None and ty.op in ('ext', 'const') else None
            if nm in ('builtins.float', 'float', 'float64', 'numpy.float64'):
                return d
            if nm in ('builtins.bool', 'bool'):
                return d if isinstance(d, Bad) or d is None else 0
            return d if d in (0, ANY) or isinstance(d, Bad) else None
        if m == 'round':
            d = self.of(r)
            return d if d in (0, ANY, None) or isinstance(d, Bad) else Bad(t, 'rounds a value that carries the unit to a fixed number of decimals')
        if m == 'var':
            return self.aggregate('var', self.of(r))
        if m in SAME:
            z = self.zero(t, rest) if rest else 0
            if isinstance(z, Bad):
                return z
            d = self.of(r)
            return d if z is not None else None
        return self.zero(t, [self.of(r)] + rest)

    def library(self, t):
        fn = t.a[0].a[0]
        args = [x for x in t.a[1] if isinstance(x, T)]
        kws = dict(t.a[2])
        alls = [self.of(x) for x in args] + [self.of(v) for v in kws.values()]
        first = self.of(args[0]) if args else self.of(next(iter(kws.values()))) if kws else 0
        if fn in ('pandas.Series',):
            d = B.kw(t, 'data')
            v = B.kw(t, 'index')
            c = self.of(v) if v is not None else 0
            if isinstance(c, Bad):
                return c
            return self.of(d) if d is not None else ANY
        if fn == 'pandas.DataFrame':
            d = B.kw(t, 'data')
            return None if d is None or d.op == 'dict' and self.join(t, [self.of(x) for _, x in d.a[0]], '') .__class__ is Bad else (
                self.join(t, [self.of(x) for _, x in d.a[0]], 'merges') if d.op == 'dict' else self.of(d))
        if fn == 'pandas.concat':
            objs = B.kw(t, 'objs')
            if objs is None:
                return None
            if objs.op == 'listof':
                return self.of(objs.a[0])
            d = self.join(t, [self.of(x) for x in objs.a[0]], 'merges') if objs.op in ('list', 'tuple') else None
            return None if isinstance(d, Bad) and d.t is t else d      # different columns may have different units
        if fn in ('pandas.merge', 'pandas.merge_asof'):
            return None
        if fn.startswith('numpy.random.') or fn.startswith('scipy.stats'):
            if fn.endswith('.multivariate_normal') and B.kw(t, 'mean') is not None and B.kw(t, 'cov') is not None:
                a, b = self.of(B.kw(t, 'mean')), self.of(B.kw(t, 'cov'))
                return a if isinstance(a, Bad) else b if isinstance(b, Bad) else None if a is None or b is None else a if b == ANY or a == ANY or b == 2 * a else Bad(t, 'draws with a spread whose unit differs from that of the mean')
            if fn.endswith(('.uniform', '.normal', '.choice', '.laplace')):
                return self.join(t, [d for d, x in zip(alls, args + list(kws.values()))][:2], 'merges')
            return self.zero(t, alls)
        if fn.startswith('numpy.'):
            f = fn[6:]
            if f in NUMPY_ZERO:
                return first if isinstance(first, Bad) else 0
            if f in NUMPY_SAME:
                return first
            if f in NUMPY_JOIN:
                return self.join(t, alls[:2] if f in ('full', 'full_like', 'insert') else alls, 'merges')
            if f == 'interp' and len(args) >= 3:
                c = self.join(t, alls[:2], 'compares')
                return c if isinstance(c, Bad) or c is None else alls[2]
            if f in ('var', 'nanvar'):
                return self.aggregate('var', first)
            if f in ('sqrt',):
                return first if first in (ANY, None) or isinstance(first, Bad) else (first // 2 if first % 2 == 0 else Fraction(first) / 2)
            if f == 'square':
                return first if first in (ANY, None) or isinstance(first, Bad) else 2 * first
            if f in ('multiply', 'divide', 'true_divide') and len(args) == 2:
                return self.binary(t, '*' if f == 'multiply' else '/', args[0], args[1])
            if f in ('less', 'greater', 'less_equal', 'greater_equal', 'equal', 'not_equal') and len(args) == 2:
                return self.binary(t, '<', args[0], args[1])
            if f == 'where' and len(args) == 3:
                if isinstance(alls[0], Bad):
                    return alls[0]
                return self.join(t, alls[1:3], 'merges') if alls[0] is not None else None
            if f in ('round', 'around', 'rint', 'floor', 'ceil', 'trunc'):
                return first if first in (0, ANY, None) or isinstance(first, Bad) else Bad(t, 'rounds a value that carries the unit')
            return self.zero(t, alls)
        if fn.startswith('builtins.'):
            f = fn[9:]
            if f in BUILTIN_SAME:
                return first
            if f in BUILTIN_ZERO:
                if f == 'len':
                    return self.rows(args[0]) if args else 0
                return first if isinstance(first, Bad) else 0
            if f in ('min', 'max'):
                return self.join(t, alls, 'compares')
            return self.zero(t, alls)
        return self.zero(t, alls)
