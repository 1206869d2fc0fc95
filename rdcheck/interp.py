"""Abstract interpreter that builds the value-flow graph (gated SSA) of an entry point.

Context-sensitive (repo-internal calls are analysed in their calling context), path-merging (no
path enumeration: branches are joined with gating `ite` nodes, loops with `mu`/`loop` nodes), and it
never evaluates a library operation: those stay as uninterpreted / normalised nodes of the graph."""
import ast
import itertools
from . import build as B
from .terms import *
from .loader import Func, Cls, Mod, import_bindings

MAX_UNROLL = 64
MAX_DEPTH = 40


class Dead(Exception):
    pass


class V:
    __slots__ = ('id', 'kind', 'cell', 'shares', 'ix', 'origin', 'holds')
    _c = itertools.count(1)

    def __init__(self, kind, cell, shares=(), ix=(), origin=None, holds=()):
        self.id = next(V._c)
        self.kind, self.cell = kind, cell
        self.shares, self.ix, self.origin = frozenset(shares), frozenset(ix), origin
        self.holds = frozenset(holds)      # objects whose *elements* may be reached through this value

    def __repr__(self):
        return '<V%d %s>' % (self.id, self.kind)


class Event:
    __slots__ = ('kind', 'fn', 'node', 'pc', 'stack', 'd')

    def __init__(self, kind, fn, node, pc, stack, d):
        self.kind, self.fn, self.node, self.pc, self.stack, self.d = kind, fn, node, pc, stack, d

    @property
    def where(self):
        return '%s:%d (%s)' % (self.fn.mod.rel if self.fn else '?', getattr(self.node, 'lineno', 0), self.fn.qual if self.fn else '?')

    def path(self):
        return [('%s@%s:%d' % (f.qual, g.mod.rel if g else '', ln)) for f, g, ln in self.stack]


class State:
    __slots__ = ('store', 'pc')

    def __init__(self, store=None, pc=()):
        self.store = store if store is not None else {}
        self.pc = pc

    def fork(self):
        return State(dict(self.store), self.pc)

    def become(self, o):
        self.store, self.pc = o.store, o.pc


class Frame:
    __slots__ = ('fn', 'fid', 'rets', 'loops', 'mod', 'self_v', 'cls', 'closure')

    def __init__(self, fn, fid, mod):
        self.fn, self.fid, self.mod = fn, fid, mod
        self.rets, self.loops = [], []
        self.self_v = None
        self.closure = None


MUT_METHODS_INPLACE = {'fillna', 'dropna', 'sort_values', 'sort_index', 'drop', 'reset_index', 'set_index', 'rename',
                       'replace', 'clip', 'interpolate', 'ffill', 'bfill', 'where', 'mask', 'drop_duplicates', 'query',
                       'eval', 'rename_axis', 'set_names', 'set_axis'}
MUT_METHODS = {'update', 'insert', 'pop', 'append', 'extend', 'remove', 'clear', 'sort', 'reverse', 'setdefault', 'popitem',
               'fill', 'put', 'itemset', 'resize', 'setflags', 'add', 'discard', 'partition', 'byteswap', '__setitem__', 'set_value',
               'setfield', 'isetitem'}
# of those, which mutate a pandas/numpy value (as opposed to list/dict/set)
MUT_METHODS_VAL = {'update', 'insert', 'pop', 'fill', 'put', 'itemset', 'resize', 'sort', 'partition', '__setitem__',
                   'append', 'extend', 'remove', 'clear', 'reverse', 'setdefault', 'popitem', 'isetitem', 'discard'}
MUT_FUNCS = {'numpy.random.shuffle': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.copyto': 0, 'numpy.fill_diagonal': 0,
             'random.shuffle': 0, 'numpy.putmask': 0, 'numpy.put_along_axis': 0, 'heapq.heappush': 0, 'bisect.insort': 0,
             'operator.setitem': 0, 'operator.iadd': 0, 'operator.imul': 0, 'operator.isub': 0, 'operator.itruediv': 0, 'operator.iand': 0, 'operator.ior': 0}
KNOWN_PURE = {'copy', 'clear_mapping', 'head', 'tail', 'mean', 'sum', 'median', 'dropna', 'fillna', 'sort_index', 'sort_values', 'reindex', 'describe', 'info', 'keys',
              'items', 'values', 'min', 'max', 'count', 'get', 'join', 'format', 'strip', 'lower', 'upper', 'write', 'close', 'warn', 'debug', 'isna',
              'notna', 'any', 'all', 'tolist', 'astype', 'rename', 'drop', 'reset_index', 'set_index', 'std', 'var', 'quantile', 'unique'}
VIEW_METHODS = {'to_frame', 'to_numpy', 'view', 'squeeze', 'ravel', 'reshape', 'head', 'tail', 'get', 'pipe', 'transpose',
                'swapaxes', '__getitem__', 'xs', 'asobject', 'items', 'iteritems', 'iterrows', 'itertuples', 'setdefault', 'tolist_'}
VIEW_ATTRS = {'values', 'T', 'loc', 'iloc', 'at', 'iat', 'array', 'flat', 'real'}
VIEW_FUNCS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.ravel', 'numpy.reshape', 'numpy.squeeze',
              'numpy.transpose', 'pandas.Series', 'pandas.DataFrame', 'pandas.to_numeric', 'numpy.ascontiguousarray', 'numpy.broadcast_to',
              'numpy.expand_dims', 'numpy.array_split', 'numpy.split', 'numpy.ma.array', 'numpy.frombuffer', 'numpy.swapaxes', 'numpy.diagonal'}
IX_METHODS = {'to_frame', 'astype', 'fillna', 'clip', 'abs', 'where', 'mask', 'shift', 'interpolate', 'replace', 'round', 'ffill',
              'bfill', 'cumsum', 'mul', 'div', 'add', 'sub', 'gt', 'lt', 'ge', 'le', 'eq', 'ne', 'squeeze', 'isna', 'isnull', 'notnull',
              'notna', 'diff', 'infer_objects', 'mean', 'median', 'sum', 'std', 'pipe', 'isin', 'between', 'pow', 'truediv', 'view', 'apply', 'map', 'get'}
PURE_CONTAINER = {'keys', 'values', 'items', 'get', 'copy', 'index', 'count', 'union', 'intersection', 'difference', 'issubset', 'issuperset',
                  'symmetric_difference', 'isdisjoint'}
EXC_PARENTS = {'ValueError': ['Exception'], 'TypeError': ['Exception'], 'KeyError': ['LookupError', 'Exception'],
               'AttributeError': ['Exception'], 'RuntimeError': ['Exception'], 'NotImplementedError': ['RuntimeError', 'Exception'],
               'IndexError': ['LookupError', 'Exception'], 'ImportError': ['Exception'], 'AssertionError': ['Exception'],
               'ZeroDivisionError': ['ArithmeticError', 'Exception'], 'NameError': ['Exception'], 'StopIteration': ['Exception']}

import builtins as _bi
BUILTINS = set(dir(_bi))


class LC(tuple):
    """list cell (items, rest) that also knows the exact value as a term"""
    t = None

    @staticmethod
    def of(cell, t):
        c = LC(cell)
        c.t = t
        return c


LOOPS = itertools.count(1)


def iterbase(t):
    """the collection whose length decides the number of iterations"""
    n = 0
    while n < 20:
        n += 1
        if t.op == 'enum':
            t = t.a[0]
        elif t.op == 'zipped' and t.a[0]:
            t = t.a[0][0]
        elif t.op == 'mcall' and t.a[1] in ('items', 'iteritems', 'iterrows', 'itertuples', 'keys', 'values', 'tolist', 'to_list'):
            t = t.a[0]
        elif t.op == 'attr' and t.a[1] in ('values', 'array', 'index'):
            t = t.a[0]
        elif t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'builtins.range' and len(t.a[1]) == 1 and t.a[1][0].op == 'call' and \
                t.a[1][0].a[0].op == 'ext' and t.a[1][0].a[0].a[0] == 'builtins.len' and len(t.a[1][0].a[1]) == 1:
            t = t.a[1][0].a[1][0]
        else:
            break
    return t


class Interp:
    def __init__(self, prog, max_events=400000):
        self.p = prog
        self.events = []
        self.logging = 1
        self.stack = []          # (Func, callerFunc, line)
        self.trystack = []
        self.fidc = itertools.count(1)
        self.loopc = itertools.count(1)
        self.unkc = itertools.count(1)
        self.phimemo = {}
        self.modcache = {}
        self.sites = {}
        self.calls = 0
        self.ext_sites = set()
        self.unknown = []        # constructs the analyser could not model
        self.funcs_seen = set()
        self.frame = None
        self.opaque = set()      # qualnames of repo functions to leave uninterpreted
        self.hooks = {}          # qualname -> fn(interp, bound_env, st, node) -> V or None
        self.inline_budget = 6000
        self.setattrs_track = True
        self.discarded = set()
        self.exc_types = {}
        self.mutype = {}
        self.loc = {}            # term id -> first source construct that computes it

    # ------------------------------------------------------------ helpers
    def ev(self, kind, node, st, **d):
        if self.logging <= 0:
            return
        fn = self.frame.fn if self.frame else None
        self.events.append(Event(kind, fn, node, st.pc, tuple(self.stack), d))

    def unk(self, why='', shares=(), ix=(), holds=()):
        return V('val', mk('unk', why, next(self.unkc)), shares, ix, None, holds)

    def val(self, t, shares=(), ix=(), origin=None, holds=()):
        return V('val', t, shares, ix, origin, holds)

    def c(self, v):
        return V('val', const(v))

    def note(self, node, why):
        if self.logging > 0:
            fn = self.frame.fn if self.frame else None
            self.unknown.append('%s:%s %s' % (fn.mod.rel if fn else '?', getattr(node, 'lineno', '?'), why))

    def cell(self, v, st):
        return st.store.get(('h', v.id), v.cell)

    def setcell(self, v, c, st):
        st.store[('h', v.id)] = c

    site_by_node = False

    def site(self, node):
        if self.site_by_node:
            return '%s:%d:%d' % (self.frame.fn.mod.rel if self.frame and self.frame.fn else '', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        k = (id(node), tuple((id(f), ln) for f, g, ln in self.stack))
        if k not in self.sites:
            self.sites[k] = len(self.sites) + 1
        return self.sites[k]

    # facts
    def fact(self, t, st):
        if t.op == 'const':
            return bool(t.a[0])
        f = st.store.get(('f', t.id))
        if f is not None:
            return f
        if t.op == 'not':
            r = self.fact(t.a[0], st)
            return None if r is None else (not r)
        if t.op == 'and':
            rs = [self.fact(x, st) for x in t.a]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if t.op == 'or':
            rs = [self.fact(x, st) for x in t.a]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if t.op == 'ite':
            c = self.fact(t.a[0], st)
            if c is True:
                return self.fact(t.a[1], st)
            if c is False:
                return self.fact(t.a[2], st)
            a, b = self.fact(t.a[1], st), self.fact(t.a[2], st)
            return a if a is b else None
        if t.op == 'cmp' and t.a[0] == '==':
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y.op == 'const':
                    e = st.store.get(('eq', x.id))
                    if e is not None:
                        return e is y
        if t.op == 'isnone':
            e = st.store.get(('eq', t.a[0].id))
            if e is not None:
                return e is NONE
        return None

    def assume(self, t, val, st):
        """record that boolean term t has value val on this state"""
        if t.op == 'const':
            return
        if t.op == 'not':
            return self.assume(t.a[0], not val, st)
        st.store[('f', t.id)] = val
        if t.op == 'and' and val:
            for x in t.a:
                self.assume(x, True, st)
        elif t.op == 'or' and not val:
            for x in t.a:
                self.assume(x, False, st)
        elif t.op == 'or' and val:
            rest = [x for x in t.a if self.fact(x, st) is None]
            if len(rest) == 1 and not any(self.fact(x, st) for x in t.a):
                self.assume(rest[0], True, st)
        elif t.op == 'cmp' and t.a[0] == '==' and val:
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y.op == 'const' and isinstance(y.a[0], str):
                    st.store[('eq', x.id)] = y
        elif t.op == 'ite':
            a, b = t.a[1], t.a[2]
            if a.op == 'const' and bool(a.a[0]) != val:
                self.assume(t.a[0], False, st)
            elif b.op == 'const' and bool(b.a[0]) != val:
                self.assume(t.a[0], True, st)
        if t.op == 'isnone' and val:
            st.store[('eq', t.a[0].id)] = NONE

    def branch(self, t, val, st):
        s = st.fork()
        s.pc = st.pc + ((t, val),)
        self.assume(t, val, s)
        return s

    def simp(self, t, st):
        n = 0
        while t.op == 'ite' and n < 50:
            n += 1
            f = self.fact(t.a[0], st)
            if f is True:
                t = t.a[1]
            elif f is False:
                t = t.a[2]
            else:
                break
        e = st.store.get(('eq', t.id))
        if e is not None:
            return e
        return t

    # ------------------------------------------------------------ terms of values
    def term(self, v, st, depth=0):
        k = v.kind
        if k == 'val':
            return self.simp(self.cell(v, st), st)
        if k == 'phi':
            c, a, b = v.cell
            f = self.fact(c, st)
            if f is True:
                return self.term(a, st, depth)
            if f is False:
                return self.term(b, st, depth)
            return tite(c, self.term(a, st, depth), self.term(b, st, depth))
        if depth > 12:
            return mk('deep', v.id)
        if k in ('list', 'tuple', 'set'):
            cell = self.cell(v, st)
            items, rest = cell
            if rest is not None and getattr(cell, 't', None) is not None:
                return self.simp(cell.t, st)
            its = tuple(self.term(x, st, depth + 1) for x in items)
            if rest is None:
                return mk(k, its)
            if not its:
                return mk('listof', self.term(rest, st, depth + 1))
            return mk('listx', its, self.term(rest, st, depth + 1))
        if k == 'dict':
            items, rest = self.cell(v, st)
            its = tuple((kt, tite(cd, self.term(x, st, depth + 1), mk('absent'))) for kt, x, cd in items)
            if rest is None:
                return mk('dict', its)
            return mk('dictx', its, self.term(rest, st, depth + 1))
        if k == 'obj':
            cls, f = self.cell(v, st)
            if '#dict' in f:
                return self.term(f['#dict'], st, depth + 1)
            if '#lib' in f:
                return f['#lib']
            return mk('obj', cls.name, v.id)
        if k == 'func':
            return mk('func', v.cell[0].qual)
        if k == 'bound':
            return mk('func', v.cell[0].qual)
        if k == 'cls':
            return mk('cls', v.cell.name)
        if k == 'mod':
            return mk('ext', v.cell.name)
        if k == 'partial':
            return mk('partial', self.term(v.cell[0], st), tuple(self.term(x, st, depth + 1) for x in v.cell[1]),
                      tuple(sorted((kk, self.term(x, st, depth + 1)) for kk, x in v.cell[2].items())))
        return mk('unk', k, v.id)

    def resolve(self, v, st):
        n = 0
        while v.kind == 'phi' and n < 60:
            f = self.fact(v.cell[0], st)
            if f is True:
                v = v.cell[1]
            elif f is False:
                v = v.cell[2]
            else:
                break
            n += 1
        return v

    def phi(self, c, a, b, st=None):
        if a is b:
            return a
        if c.op == 'not':
            return self.phi(c.a[0], b, a)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        # nested same-cond
        if a.kind == 'phi' and a.cell[0] is c:
            a = a.cell[1]
        if b.kind == 'phi' and b.cell[0] is c:
            b = b.cell[2]
        if a is b:
            return a
        k = (c.id, a.id, b.id)
        if k not in self.phimemo:
            # two immutable constants with the same term are the same value
            if a.kind == 'val' and b.kind == 'val' and a.cell is b.cell and a.cell.op == 'const':
                self.phimemo[k] = a
            else:
                self.phimemo[k] = V('phi', (c, a, b))
        return self.phimemo[k]

    # ------------------------------------------------------------ merging
    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        pa, pb = a.pc, b.pc
        i = 0
        n = min(len(pa), len(pb))
        while i < n and pa[i] == pb[i]:
            i += 1
        if i < len(pa) and i < len(pb) and pa[i][0] is pb[i][0] and pa[i][1] != pb[i][1]:
            c = pa[i][0]
            if not pa[i][1]:
                a, b = b, a
        else:
            c = mk('unkcond', next(self.unkc))
        store = {}
        sa, sb = a.store, b.store
        for k, x in sa.items():
            y = sb.get(k)
            if x is y:
                store[k] = x
                continue
            if y is None and k not in sb:
                if k[0] in ('f', 'eq'):
                    continue
                if k[0] == 'h':
                    store[k] = x     # object allocated/changed only on one side
                    continue
                if k[0] == 'e':
                    store[k] = x     # defined on one side only: use would be an error on the other
                    continue
                if k[0] == 'g':
                    store[k] = self.phi(c, x, self.unk('global'))
                    continue
                continue
            if k[0] in ('f', 'eq'):
                if x == y:
                    store[k] = x
                continue
            if k[0] in ('e', 'g'):
                store[k] = self.phi(c, x, y)
            elif k[0] == 'h':
                store[k] = self.mergecell(c, x, y, a, b)
        for k, y in sb.items():
            if k not in sa and k[0] in ('h', 'e'):
                store[k] = y
            elif k not in sa and k[0] == 'g':
                store[k] = self.phi(c, self.unk('global'), y)
        # cells changed on one side only: the other side still has v.cell; need the V to know -> handled below
        for k, x in list(sa.items()):
            if k[0] == 'h' and k not in sb:
                v = self.vreg.get(k[1])
                if v is not None:
                    store[k] = self.mergecell(c, x, v.cell, a, b)
        for k, y in list(sb.items()):
            if k[0] == 'h' and k not in sa:
                v = self.vreg.get(k[1])
                if v is not None:
                    store[k] = self.mergecell(c, v.cell, y, a, b)
        pc = pa[:i]
        # keep knowledge of what both sides guarantee
        st = State(store, pc)
        # one side may have lost (raised on) part of its condition: keep the disjunction as a fact-free pc entry
        ra, rb = a.pc[i:], b.pc[i:]
        if len(ra) > 1 or len(rb) > 1:
            da = tand(*[x if v else tnot(x) for x, v in ra])
            db = tand(*[x if v else tnot(x) for x, v in rb])
            d = tor(da, db)
            if d is not TRUE:
                st.pc = pc + ((d, True),)
        return st

    def mergecell(self, c, x, y, sa, sb):
        if x is y:
            return x
        if isinstance(x, T) and isinstance(y, T):
            return tite(c, x, y)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 and len(y) == 2:
            if isinstance(x[0], Cls):
                f = {}
                for k in list(x[1]) + [k for k in y[1] if k not in x[1]]:
                    p, q = x[1].get(k), y[1].get(k)
                    if p is None or q is None:
                        # field exists on one branch only
                        f[k] = p if q is None else q
                        if k[0] != '#':
                            u = self.undef(k)
                            f[k] = self.phi(c, p or u, q or u)
                    else:
                        f[k] = self.phi(c, p, q) if isinstance(p, V) else p
                return (x[0], f)
            ix, rx = x
            iy, ry = y
            isd = (ix and isinstance(ix[0], tuple)) or (iy and isinstance(iy[0], tuple))
            if isd:
                out, seen = [], set()
                dy = {k.id: (v, cd) for k, v, cd in iy}
                for k, v, cd in ix:
                    seen.add(k.id)
                    if k.id in dy:
                        v2, cd2 = dy[k.id]
                        out.append((k, self.phi(c, v, v2), tite(c, cd, cd2)))
                    else:
                        out.append((k, v, tand(c, cd)))
                for k, v, cd in iy:
                    if k.id not in seen:
                        out.append((k, v, tand(tnot(c), cd)))
                r = rx if ry is None else ry if rx is None else self.phi(c, rx, ry)
                return (tuple(out), r)
            tx, ty = self.lterm(x, sa), self.lterm(y, sb)
            lt = tite(c, tx, ty) if tx is not None and ty is not None else None
            if len(ix) == len(iy):
                r = rx if ry is None else ry if rx is None else self.phi(c, rx, ry)
                return LC.of((tuple(self.phi(c, p, q) for p, q in zip(ix, iy)), r), lt)
            # lists of different length: keep the common prefix, join the rest
            n = 0
            while n < min(len(ix), len(iy)) and ix[n] is iy[n]:
                n += 1
            rest = list(ix[n:]) + list(iy[n:]) + [z for z in (rx, ry) if z is not None]
            r = rest[0]
            for z in rest[1:]:
                r = self.phi(mk('unkcond', next(self.unkc)), r, z)
            return LC.of((ix[:n], r), lt)
        return x

    def lterm(self, cell, st):
        t = getattr(cell, 't', None)
        if t is not None:
            return t
        if cell[1] is None and st is not None:
            return mk('list', tuple(self.term(z, st, 1) for z in cell[0]))
        return None

    vreg = {}

    def undef(self, k):
        return V('val', mk('undef'))

    def mergemany(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        while len(states) > 1:
            # merge the adjacent pair with the deepest common prefix
            best, bi, bj = -1, 0, 1
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    pa, pb = states[i].pc, states[j].pc
                    n = 0
                    while n < min(len(pa), len(pb)) and pa[n] == pb[n]:
                        n += 1
                    if n > best:
                        best, bi, bj = n, i, j
            m = self.merge(states[bi], states[bj])
            states = [s for t, s in enumerate(states) if t not in (bi, bj)] + [m]
        return states[0]

    # ------------------------------------------------------------ mutation
    def alias_closure(self, v, st, kind='data'):
        """all values whose storage the given mutation may reach"""
        seen, todo = {}, [v]
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen[x.id] = x
            if x.kind == 'phi':
                c, a, b = x.cell
                f = self.fact(c, st)
                if f is not False:
                    todo.append(a)
                if f is not True:
                    todo.append(b)
            if kind == 'data':
                todo.extend(x.shares)
            elif kind == 'ix':
                todo.extend(x.ix)
        return seen.values()

    def mutate(self, v, f, node, st, how, kind='data'):
        """apply cell-transform f to v (through phis), record the effect"""
        v = self.resolve(v, st)
        roots = [(x.id, x.origin) for x in self.alias_closure(v, st, kind) if x.origin]
        self.ev('mutate', node, st, v=v, how=how, roots=roots, mkind=kind)
        self._mut(v, f, TRUE, st)
        if kind == 'data':
            t = None
            for x in v.shares:
                for y in self.alias_closure(x, st):
                    if y.kind == 'val' and y is not v:
                        t = t or self.term(v, st)
                        self.setcell(y, mk('viewmut', self.cell(y, st), t), st)
                        self.vreg[y.id] = y

    def _mut(self, v, f, cond, st):
        if v.kind == 'phi':
            c, a, b = v.cell
            fc = self.fact(c, st)
            if fc is not False:
                self._mut(a, f, tand(cond, c) if fc is None else cond, st)
            if fc is not True:
                self._mut(b, f, tand(cond, tnot(c)) if fc is None else cond, st)
            return
        old = self.cell(v, st)
        new = f(v, old)
        if new is None:
            return
        self.vreg[v.id] = v
        if cond is TRUE:
            self.setcell(v, new, st)
        else:
            self.setcell(v, self.mergecell(cond, new, old, st, st), st)

    # ------------------------------------------------------------ running
    def run(self, fn, args, st=None, self_v=None, node=None):
        """args: name -> V. Returns (State or None, V)"""
        st = st or State()
        try:
            v = self.call_func(fn, None, [], dict(args), node or fn.node, st, self_v=self_v, entry=True)
            return st, v
        except Dead:
            return None, None

    def param(self, name, origin=True, t=None):
        v = V('val', t or mk('param', name), (), (), ('param', name) if origin else None)
        return v

    # ------------------------------------------------------------ calls
    def call_func(self, fn, closure, args, kwargs, node, st, self_v=None, entry=False, star_unknown=None):
        self.calls += 1
        q = fn.where()
        self.funcs_seen.add(q)
        depth = sum(1 for f, g, l in self.stack if f is fn)
        fid = next(self.fidc)
        fr = Frame(fn, fid, fn.mod)
        fr.closure = closure
        env = {}
        params = list(fn.params)
        if self_v is not None and params:
            env[params[0]] = self_v
            params = params[1:]
            fr.self_v = self_v
        args = list(args)
        kwargs = dict(kwargs)
        for p_ in params:
            if args:
                env[p_] = args.pop(0)
            elif p_ in kwargs:
                env[p_] = kwargs.pop(p_)
        if fn.vararg:
            env[fn.vararg] = V('tuple', (tuple(args), star_unknown))
            args = []
        for k in fn.kwonly:
            if k in kwargs:
                env[k] = kwargs.pop(k)
        krest = kwargs.pop('**', None)
        if krest is not None:
            # unknown **kwargs may bind any remaining parameter
            kt = self.term(krest, st)
        if fn.kwarg:
            if krest is not None and not kwargs:
                # the callee receives a new dict with the same entries
                env[fn.kwarg] = self.val(self.term(krest, st), holds=(krest,))
            else:
                env[fn.kwarg] = V('dict', (tuple((const(k), v, TRUE) for k, v in kwargs.items()),
                                           self.val(mk('dictval', self.term(krest, st)), shares=(krest,)) if krest is not None else None))
            extra = {}
        else:
            extra = kwargs
        if extra or args:
            self.ev('badcall', node, st, fn=fn, extra=list(extra), nargs=len(args))
            self.note(node, 'call does not match signature of %s' % fn.qual)
            self.ev('raise', node, st, exc='TypeError', internal=True)
            raise Dead
        defaults_used = []
        for p_ in params + fn.kwonly:
            if p_ not in env:
                if krest is not None and not fn.kwarg:
                    dflt = self.default(fn, p_, st)
                    if dflt is not None:
                        kt = self.term(krest, st)
                        env[p_] = self.phi(mk('haskey', kt, const(p_)), self.val(mk('sub', kt, const(p_)), shares=(krest,)), dflt)
                    else:
                        env[p_] = self.val(mk('sub', self.term(krest, st), const(p_)), shares=(krest,))
                    continue
                d = self.default(fn, p_, st)
                if d is None:
                    self.ev('badcall', node, st, fn=fn, missing=p_)
                    self.ev('raise', node, st, exc='TypeError', internal=True)
                    self.note(node, 'missing argument %s of %s' % (p_, fn.qual))
                    raise Dead
                env[p_] = d
                defaults_used.append(p_)
        callerfn = self.frame.fn if self.frame else None
        if self.logging > 0:
            argt = {k: self.term(v, st) for k, v in env.items()}
            self.ev('call', node, st, callee=fn, args=argt, argv=dict(env), defaulted=frozenset(defaults_used))
        h = self.hooks.get(fn.qual)
        if h is not None:
            r = h(self, env, st, node)
            if r is not None:
                return r
        if not entry and (fn.qual in self.opaque):
            t = mk('call', mk('func', fn.qual), (), tuple(sorted((k, self.term(v, st)) for k, v in env.items() if v is not self_v)))
            return self.val(t)
        if depth >= 2 or len(self.stack) > MAX_DEPTH or self.calls > self.inline_budget:
            self.note(node, 'recursion/budget limit at %s' % fn.qual)
            t = mk('call', mk('func', fn.qual), (), tuple(sorted((k, self.term(v, st)) for k, v in env.items() if v is not self_v)))
            return self.val(t)
        for k, v in env.items():
            st.store[('e', fid, k)] = v
        self.stack.append((fn, callerfn, getattr(node, 'lineno', 0)))
        saved = self.frame
        self.frame = fr
        try:
            out = self.block(fn.body, st.fork(), fr)
            if out is not None:
                fr.rets.append((out, self.c(None), node))
            if not fr.rets:
                raise Dead
            states = []
            for s, v, n in fr.rets:
                s.store[('e', fid, '#ret')] = v
                if len(self.stack) == 1:
                    self.ev('ret', n, s, v=v, t=self.term(v, s))
                states.append(s)
            m = self.mergemany(states)
            rv = m.store.pop(('e', fid, '#ret'))
        finally:
            self.frame = saved
            self.stack.pop()
        if not fn.has_nested:
            for k in [k for k in m.store if k[0] == 'e' and k[1] == fid]:
                del m.store[k]
        st.become(m)
        if self.logging > 0:
            self.ev('return', node, st, callee=fn, v=rv, t=self.term(rv, st))
        return self.resolve(rv, st)

    def default(self, fn, p_, st):
        d = fn.defaults.get(p_)
        if d is None:
            return None
        key = ('default', id(d))
        if key in self.modcache:
            return self.modcache[key]
        v = self.mod_expr(d, fn.mod, st)
        if v.kind in ('list', 'dict', 'set') or (v.kind == 'val' and v.cell.op == 'call'):
            v = V(v.kind, v.cell, v.shares, v.ix, ('default', '%s.%s' % (fn.qual, p_)))
        self.modcache[key] = v
        return v

    def mod_expr(self, node, mod, st):
        saved = self.frame
        fr = Frame(_modfn(mod), next(self.fidc), mod)
        self.frame = fr
        try:
            return self.eval(node, st, fr)
        except Dead:
            return self.unk('modexpr')
        finally:
            self.frame = saved

    def call_value(self, f, args, kwargs, node, st):
        """args: list of V, kwargs: dict"""
        f = self.resolve(f, st)
        k = f.kind
        if k == 'func':
            fn, clo = f.cell[0], f.cell[1]
            return self.call_func(fn, clo, args, kwargs, node, st)
        if k == 'bound':
            fn, sv = f.cell
            return self.call_func(fn, None, args, kwargs, node, st, self_v=sv)
        if k == 'partial':
            kk = dict(f.cell[2])
            kk.update(kwargs)
            return self.call_value(f.cell[0], list(f.cell[1]) + list(args), kk, node, st)
        if k == 'cls':
            return self.instantiate(f.cell, args, kwargs, node, st)
        if k == 'phi':
            c, a, b = f.cell
            return self.on_branches(c, st, lambda s: self.call_value(a, args, kwargs, node, s),
                                    lambda s: self.call_value(b, args, kwargs, node, s))
        if k == 'bmeth':       # bound library/container method
            return self.method(f.cell[0], f.cell[1], args, kwargs, node, st)
        if k == 'obj':
            cls, _ = self.cell(f, st)
            m = cls.find('__call__', self.p)
            if m:
                return self.call_func(m, None, args, kwargs, node, st, self_v=f)
        t = self.term(f, st)
        if t.op == 'ite':
            pass
        return self.ext_call(t, f, args, kwargs, node, st)

    def on_branches(self, c, st, fa, fb):
        """evaluate fa under c, fb under not c; merge"""
        f = self.fact(c, st)
        if f is True:
            return fa(st)
        if f is False:
            return fb(st)
        sa, sb = self.branch(c, True, st), self.branch(c, False, st)
        try:
            va = fa(sa)
        except Dead:
            sa = None
        try:
            vb = fb(sb)
        except Dead:
            sb = None
        if sa is None and sb is None:
            raise Dead
        if sa is None:
            st.become(sb)
            return vb
        if sb is None:
            st.become(sa)
            return va
        key = ('e', 0, '#br%d' % next(self.unkc))
        sa.store[key], sb.store[key] = va, vb
        m = self.merge(sa, sb)
        v = m.store.pop(key)
        st.become(m)
        return v

    def instantiate(self, cls, args, kwargs, node, st):
        fields = {}
        isdict = any(isinstance(b, ast.Name) and b.id in ('dict', 'OrderedDict', 'UserDict') for b in cls.bases)
        if isdict:
            fields['#dict'] = V('dict', ((), None))
        base_exc = any(isinstance(b, ast.Name) and (b.id.endswith('Error') or b.id.endswith('Exception') or b.id.endswith('Warning')) for b in cls.bases)
        v = V('obj', (cls, fields))
        self.vreg[v.id] = v
        if base_exc:
            return v
        init = cls.find('__init__', self.p)
        if init:
            self.call_func(init, None, args, kwargs, node, st, self_v=v)
        elif isdict:
            self.dict_init(fields['#dict'], args, kwargs, node, st)
        return v

    # ------------------------------------------------------------ names
    def lookup(self, name, st, fr, node):
        f = fr
        fid, fn, clo = fr.fid, fr.fn, fr.closure
        while True:
            if fn is not None and name in fn.globals:
                break
            v = st.store.get(('e', fid, name))
            if v is not None:
                return self.resolve(v, st)
            if clo is None:
                break
            fid, fn, clo = clo
        return self.modname(fr.mod, name, st, node)

    def modname(self, mod, name, st, node):
        g = st.store.get(('g', mod.name, name))
        if g is not None:
            self.ev('gread', node, st, name=name, mod=mod)
            return self.resolve(g, st)
        k = (mod.name, name)
        if k in self.modcache:
            return self.modcache[k]
        e = self.p.lookup(mod, name)
        v = None
        if e is not None:
            v = self.entity(e, st, k)
        elif name in BUILTINS:
            v = self.val(mk('ext', 'builtins.' + name))
        if v is None:
            self.note(node, 'unresolved name %s' % name)
            v = self.val(mk('undef'))
        self.modcache[k] = v
        return v

    def entity(self, e, st, k=None):
        if e[0] == 'func':
            fn = e[1]
            v = V('func', (fn, None))
            if fn.decorators:
                v = self.decorate(fn, v, st)
            return v
        if e[0] == 'cls':
            return V('cls', e[1])
        if e[0] == 'ext':
            return self.val(mk('ext', e[1]))
        if e[0] == 'mod':
            return V('mod', e[1])
        if e[0] == 'expr':
            v = self.mod_expr(e[1], e[2], st)
            if v.kind in ('list', 'dict', 'set', 'val', 'obj') and not (v.kind == 'val' and v.cell.op in ('const', 'ext')):
                v = V(v.kind, v.cell, v.shares, v.ix, ('module', '%s.%s' % (e[2].name, k[1] if k else '?')))
            return v
        return None

    def decorate(self, fn, v, st):
        for d in reversed(fn.decorators):
            try:
                dv = self.mod_expr(d, fn.mod, st)
                dt = self.term(dv, st)
                if dt.op == 'ext' and dt.a[0] in ('builtins.staticmethod', 'builtins.classmethod', 'functools.lru_cache', 'functools.cache'):
                    continue
                if dv.kind in ('func', 'bound', 'phi', 'partial'):
                    saved = self.logging
                    r = self.call_value(dv, [v], {}, d, st)
                    if r.kind in ('func', 'phi'):
                        v = r
            except Dead:
                pass
        return v

    # ------------------------------------------------------------ expressions
    def eval(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.note(n, 'expression %s' % type(n).__name__)
            return self.unk(type(n).__name__)
        v = m(n, st, fr)
        if v.kind == 'val' and fr.mod.rel != '<spec>':
            t = self.cell(v, st)
            if t.id not in self.loc:
                self.loc[t.id] = '%s:%d (%s)' % (fr.mod.rel, n.lineno, fr.fn.qual if fr.fn else '?')
        return v

    def e_Constant(self, n, st, fr):
        return self.c(n.value)

    def e_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr, n)

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                t = self.term(self.eval(x.value, st, fr), st)
                if t.op == 'const' and x.format_spec is None:
                    t = const(str(t.a[0]))
                parts.append(t)
        if all(p_.op == 'const' and isinstance(p_.a[0], str) for p_ in parts):
            return self.c(''.join(p_.a[0] for p_ in parts))
        # gate of constants
        for i, p_ in enumerate(parts):
            if p_.op == 'ite' and p_.a[1].op == 'const' and p_.a[2].op == 'const' and \
                    all(q.op == 'const' for j, q in enumerate(parts) if j != i):
                def cat(x):
                    return const(''.join(str(q.a[0]) if j != i else str(x.a[0]) for j, q in enumerate(parts)))
                return self.phi(p_.a[0], self.val(cat(p_.a[1])), self.val(cat(p_.a[2])))
        return self.val(mk('fmt', *parts))

    def e_FormattedValue(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Tuple(self, n, st, fr):
        return V('tuple', self.elts(n, st, fr))

    def e_List(self, n, st, fr):
        return V('list', self.elts(n, st, fr))

    def e_Set(self, n, st, fr):
        return V('set', self.elts(n, st, fr))

    def elts(self, n, st, fr):
        items, rest = [], None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fr)
                it = self.known_items(v, st)
                if it is not None and rest is None:
                    items += it
                else:
                    r = self.elem(v, st, e)
                    rest = r if rest is None else self.phi(mk('unkcond', next(self.unkc)), rest, r)
            else:
                x = self.eval(e, st, fr)
                if rest is None:
                    items.append(x)
                else:
                    rest = self.phi(mk('unkcond', next(self.unkc)), rest, x)
        return (tuple(items), rest)

    def e_Dict(self, n, st, fr):
        items, rest = [], None
        d = V('dict', ((), None))
        cur = []
        for k, v in zip(n.keys, n.values):
            vv = self.eval(v, st, fr)
            if k is None:
                vv = self.resolve(vv, st)
                if vv.kind == 'obj':
                    f = self.cell(vv, st)[1]
                    vv = f.get('#dict', vv)
                if vv.kind == 'dict':
                    its, r = self.cell(vv, st)
                    for kk, x, cd in its:
                        cur = self.dput(cur, kk, x, cd)
                    if r is not None:
                        rest = r
                else:
                    rest = self.val(mk('dictval', self.term(vv, st)), shares=(vv,))
            else:
                cur = self.dput(cur, self.term(self.eval(k, st, fr), st), vv, TRUE)
        return V('dict', (tuple(cur), rest))

    def dput(self, items, kt, v, cd=TRUE):
        out, done = [], False
        for k, x, c in items:
            if k is kt:
                out.append((k, v if cd is TRUE else self.phi(cd, v, x), tor(c, cd)))
                done = True
            else:
                out.append((k, x, c))
        if not done:
            out.append((kt, v, cd))
        return out

    def e_Lambda(self, n, st, fr):
        fn = Func(fr.mod, (fr.fn.qual if fr.fn else '') + '.<lambda>', n)
        return V('func', (fn, (fr.fid, fr.fn, fr.closure)))

    def e_IfExp(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st)
        return self.on_branches(c, st, lambda s: self.eval(n.body, s, fr), lambda s: self.eval(n.orelse, s, fr))

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.eval(n.values[i], s, fr)
            if i == len(n.values) - 1:
                return v
            c = self.truth(v, s)
            f = self.fact(c, s)
            if f is not None:
                if f == isand:
                    return go(i + 1, s)
                return v
            key = c if isand else tnot(c)
            return self.on_branches(key, s, lambda q: go(i + 1, q), lambda q: self.c(not isand) if c is self.term(v, q) or B.is_bool(self.term(v, s)) else v)
        return go(0, st)

    def truth(self, v, st):
        v = self.resolve(v, st)
        k = v.kind
        if k == 'phi':
            c, a, b = v.cell
            ta, tb = self.truth(a, st), self.truth(b, st)
            if ta is TRUE:
                return tor(c, tb)
            if ta is FALSE:
                return tand(tnot(c), tb)
            if tb is TRUE:
                return tor(tnot(c), ta)
            if tb is FALSE:
                return tand(c, ta)
            return tite(c, ta, tb)
        if k in ('list', 'tuple', 'set'):
            items, rest = self.cell(v, st)
            if items:
                return TRUE
            if rest is None:
                return FALSE
            return self.nonempty(self.term(v, st))
        if k == 'dict':
            items, rest = self.cell(v, st)
            if any(cd is TRUE for _, _, cd in items):
                return TRUE
            if rest is None and not items:
                return FALSE
            if rest is None:
                return tor(*[cd for _, _, cd in items])
            return mk('truth', self.term(v, st))
        if k == 'obj':
            f = self.cell(v, st)[1]
            if '#dict' in f:
                return self.truth(f['#dict'], st)
            return TRUE
        if k != 'val':
            return TRUE
        t = self.term(v, st)
        return self.truth_t(t, st)

    def truth_t(self, t, st):
        if t.op == 'const':
            return const(bool(t.a[0]))
        if B.is_bool(t):
            return t
        if t.op == 'ite':
            return tite(t.a[0], self.truth_t(t.a[1], st), self.truth_t(t.a[2], st))
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'builtins.len':
            return B.cmp('<', const(0), t)
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'builtins.bool' and len(t.a[1]) == 1:
            return self.truth_t(t.a[1][0], st)
        if t.op in ('listof', 'sorted', 'set_of', 'flatten', 'lappend', 'lextend', 'keys') or (t.op == 'mcall' and t.a[1] in ('tolist', 'to_list')):
            return self.nonempty(t)
        return mk('truth', t)

    def nonempty(self, t):
        return B.cmp('<', const(0), B.call(mk('ext', 'builtins.len'), [t], ()))

    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return self.val(tnot(self.truth(v, st)))
        t = self.term(v, st)
        op = {'USub': '-', 'Invert': '~', 'UAdd': '+'}[type(n.op).__name__]
        return self.val(B.unop(op, t), ix=(v,))

    OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'BitAnd': '&', 'BitOr': '|',
           'BitXor': '^', 'MatMult': '@', 'LShift': '<<', 'RShift': '>>'}

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        return self.bin(self.OPS[type(n.op).__name__], a, b, st, n)

    def bin(self, op, a, b, st, node):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if op == '+' and a.kind in ('list', 'tuple') and b.kind == a.kind:
            (ia, ra), (ib, rb) = self.cell(a, st), self.cell(b, st)
            if ra is None and rb is None:
                return V(a.kind, (ia + ib, None))
            rest = [x for x in (ra, rb) if x is not None] + (list(ib) if ra is not None else [])
            r = rest[0]
            for z in rest[1:]:
                r = self.phi(mk('unkcond', next(self.unkc)), r, z)
            return V(a.kind, (ia + (ib if ra is None else ()), r))
        if op == '*' and a.kind == 'list':
            n = B.num(self.term(b, st))
            ia, ra = self.cell(a, st)
            if n is not None and ra is None and isinstance(n, int) and n * len(ia) <= MAX_UNROLL:
                return V('list', (ia * n, None))
            return V('list', ((), ia[0] if ia else None)) if ia else self.val(B.binop(op, self.term(a, st), self.term(b, st)))
        if op == '|' and a.kind == 'dict' and b.kind == 'dict':
            cur = list(self.cell(a, st)[0])
            for kk, x, cd in self.cell(b, st)[0]:
                cur = self.dput(cur, kk, x, cd)
            return V('dict', (tuple(cur), self.cell(a, st)[1] or self.cell(b, st)[1]))
        return self.val(B.binop(op, self.term(a, st), self.term(b, st)), ix=(a, b))

    def e_Compare(self, n, st, fr):
        l = self.eval(n.left, st, fr)
        out = None
        for op, r in zip(n.ops, n.comparators):
            rv = self.eval(r, st, fr)
            t = self.compare(type(op).__name__, l, rv, st, n)
            out = t if out is None else tand(out, t)
            lv, l = l, rv
        f = self.fact(out, st)
        if f is not None:
            out = const(f)
        return self.val(out, ix=(lv, rv))

    def compare(self, op, a, b, st, node):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if op in ('Is', 'IsNot'):
            ta, tb = self.term(a, st), self.term(b, st)
            if tb is NONE:
                r = self.isnone(a, st)
            elif ta is NONE:
                r = self.isnone(b, st)
            elif ta.op == 'const' and tb.op == 'const':
                r = const(ta is tb)
            elif isinstance(tb.a and tb.a[0], bool) or tb in (TRUE, FALSE):
                r = B.cmp('==', ta, tb)
            else:
                r = mk('cmp', '==', ta, tb) if ta is not tb else TRUE
            return tnot(r) if op == 'IsNot' else r
        if op in ('In', 'NotIn'):
            r = self.contains(a, b, st, node)
            return tnot(r) if op == 'NotIn' else r
        o = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op]
        ta, tb = self.term(a, st), self.term(b, st)
        if o in ('==', '!=') and (a.kind != 'val' or b.kind != 'val') and a.kind != 'phi' and b.kind != 'phi':
            if {a.kind, b.kind} <= {'list', 'tuple', 'dict', 'set'} and ta is tb:
                return const(o == '==')
            if (a.kind in ('dict', 'list', 'tuple') and tb.op == 'const') or (b.kind in ('dict', 'list', 'tuple') and ta.op == 'const'):
                return const(o == '!=')
        r = B.cmp(o, ta, tb)
        return r

    def isnone(self, v, st):
        v = self.resolve(v, st)
        if v.kind == 'phi':
            c, a, b = v.cell
            x, y = self.isnone(a, st), self.isnone(b, st)
            if x is TRUE:
                return tor(c, y)
            if x is FALSE:
                return tand(tnot(c), y)
            if y is TRUE:
                return tor(tnot(c), x)
            if y is FALSE:
                return tand(c, x)
            return tite(c, x, y)
        if v.kind != 'val':
            return FALSE
        t = self.term(v, st)
        if t.op == 'param' and t.a[0] in self.nonnull:
            return FALSE
        return B.isnone(t)

    def contains(self, a, b, st, node):
        ta = self.term(a, st)
        if b.kind == 'obj':
            f = self.cell(b, st)[1]
            if '#dict' in f:
                b = f['#dict']
        if b.kind == 'phi':
            c, x, y = b.cell
            return tite(c, self.contains(a, x, st, node), self.contains(a, y, st, node))
        if b.kind in ('list', 'tuple', 'set'):
            items, rest = self.cell(b, st)
            self.ev('in', node, st, a=ta)
            if rest is None:
                return tor(*[B.cmp('==', ta, self.term(x, st)) for x in items]) if items else FALSE
        if b.kind == 'dict':
            items, rest = self.cell(b, st)
            r = tor(*[tand(cd, B.cmp('==', ta, k) if k is not ta else TRUE) for k, _, cd in items]) if items else FALSE
            if rest is None:
                return r
            if r is TRUE:
                return TRUE
            return tor(r, mk('haskey', self.term(rest, st), ta))
        tb = self.term(b, st)
        if tb.op == 'const' and isinstance(tb.a[0], (str, tuple)) and ta.op == 'const':
            try:
                return const(ta.a[0] in tb.a[0])
            except TypeError:
                pass
        if tb.op in ('list', 'tuple', 'set'):
            return tor(*[B.cmp('==', ta, x) for x in tb.a[0]])
        if tb.op == 'dict':
            return tor(*[B.cmp('==', ta, x) for x, _ in tb.a[0]])
        return mk('in', ta, tb)

    def e_Starred(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_Slice(self, n, st, fr):
        f = lambda x: NONE if x is None else self.term(self.eval(x, st, fr), st)
        return self.val(mk('slice', f(n.lower), f(n.upper), f(n.step)))

    # attribute
    def e_Attribute(self, n, st, fr):
        b = self.eval(n.value, st, fr)
        return self.getattr(b, n.attr, n, st)

    def getattr(self, b, name, node, st):
        b = self.resolve(b, st)
        k = b.kind
        if k == 'phi':
            c, x, y = b.cell
            kinds = self.phikinds(b)
            if kinds == {'val'}:
                t = B.attr(self.term(b, st), name)
                return self.attr_val(b, name, t, st)
            return self.on_branches(c, st, lambda s: self.getattr(x, name, node, s), lambda s: self.getattr(y, name, node, s))
        if k == 'obj':
            cls, f = self.cell(b, st)
            if name in f:
                self.ev('fread', node, st, obj=b, name=name, v=f[name])
                return self.resolve(f[name], st)
            pr = cls.find(name, self.p, 'props')
            if pr:
                return self.call_func(pr, None, [], {}, node, st, self_v=b)
            m = cls.find(name, self.p)
            if m:
                if name in cls.static:
                    return V('func', (m, None))
                return V('bound', (m, b))
            at = cls.find(name, self.p, 'attrs')
            if at is not None:
                v = self.mod_expr(at, cls.mod, st)
                if v.kind in ('list', 'dict', 'set'):
                    key = ('clsattr', cls.name, name)
                    v = self.modcache.setdefault(key, V(v.kind, v.cell, origin=('class', '%s.%s' % (cls.name, name))))
                return v
            if '#dict' in f:
                return V('bmeth', (b, name))
            if name == '__class__':
                return V('cls', cls)
            if name == '__dict__':
                return V('dict', (tuple((const(k2), v2, TRUE) for k2, v2 in f.items() if k2[0] != '#'), None))
            if '#havoc' in f:
                self.ev('fread', node, st, obj=b, name=name, v=None)
                v = V('val', mk('field', name), origin=('self', name))
                nf = dict(f)
                nf[name] = v
                self.setcell(b, (cls, nf), st)
                self.vreg[b.id] = b
                return v
            self.ev('fundef', node, st, obj=b, name=name)
            self.ev('raise', node, st, exc='AttributeError', internal=True, name=name)
            if not self.raise_to_try('AttributeError', None, st):
                raise Dead
            raise Dead
        if k == 'mod':
            e = self.p.lookup(b.cell, name)
            if e is None:
                if name == '__version__':
                    return self.val(mk('ext', 'rdtools.__version__'))
                self.note(node, 'module %s has no %s' % (b.cell.name, name))
                return self.unk('modattr')
            if e[0] == 'expr':
                return self.modname(b.cell, name, st, node)
            kk = (b.cell.name, name)
            if kk not in self.modcache:
                self.modcache[kk] = self.entity(e, st, kk)
            return self.modcache[kk]
        if k == 'cls':
            m = b.cell.find(name, self.p)
            if m:
                return V('func', (m, None))
            if name == '__name__':
                return self.c(b.cell.name)
            at = b.cell.find(name, self.p, 'attrs')
            if at is not None:
                return self.mod_expr(at, b.cell.mod, st)
            return self.unk('clsattr')
        if k in ('func', 'bound'):
            if name == '__name__':
                return self.c(b.cell[0].name)
            return self.val(mk('attr', self.term(b, st), name))
        if k in ('list', 'dict', 'tuple', 'set', 'super'):
            return V('bmeth', (b, name))
        bt = self.term(b, st)
        if bt is NONE and not name.startswith('__'):
            self.ev('raise', node, st, exc='AttributeError', internal=True, name=name)
            self.raise_to_try('AttributeError', None, st)
            raise Dead
        t = B.attr(bt, name)
        return self.attr_val(b, name, t, st)

    def attr_val(self, b, name, t, st):
        if name == 'index':
            return self.val(t, ix=(b,), shares=())
        if name in ('str', 'dt'):
            return self.val(t)
        if t.op in ('const', 'ext'):
            return self.val(t)
        # columns and views share storage with their owner
        sh = (b,) if (name in VIEW_ATTRS or name not in B.PANDAS_ATTRS) else ()
        return self.val(t, shares=sh, ix=(b,) if name not in ('columns',) else ())

    def phikinds(self, v):
        out, todo = set(), [v]
        while todo:
            x = todo.pop()
            if x.kind == 'phi':
                todo += [x.cell[1], x.cell[2]]
            else:
                out.add(x.kind)
        return out

    # subscript
    def e_Subscript(self, n, st, fr):
        b = self.eval(n.value, st, fr)
        i = self.eval(n.slice, st, fr)
        return self.getitem(b, i, n, st)

    def getitem(self, b, i, node, st):
        b, i = self.resolve(b, st), self.resolve(i, st)
        if b.kind == 'phi' and self.phikinds(b) != {'val'}:
            c, x, y = b.cell
            return self.on_branches(c, st, lambda s: self.getitem(x, i, node, s), lambda s: self.getitem(y, i, node, s))
        if b.kind == 'obj':
            cls, f = self.cell(b, st)
            m = cls.find('__getitem__', self.p)
            if m:
                return self.call_func(m, None, [i], {}, node, st, self_v=b)
            if '#dict' in f:
                return self.getitem(f['#dict'], i, node, st)
        it = self.term(i, st)
        if b.kind == 'dict':
            items, rest = self.cell(b, st)
            if it.op == 'ite' and i.kind == 'phi':
                c, x, y = i.cell
                return self.on_branches(c, st, lambda s: self.getitem(b, x, node, s), lambda s: self.getitem(b, y, node, s))
            if it.op == 'ite':
                return self.on_branches(it.a[0], st, lambda s: self.getitem(b, self.val(it.a[1]), node, s),
                                        lambda s: self.getitem(b, self.val(it.a[2]), node, s))
            for k, v, cd in items:
                if k is it:
                    self.ev('dread', node, st, d=b, key=k, present=cd)
                    return self.resolve(v, st)
            if rest is None and it.op == 'const' and all(k.op == 'const' for k, _, _ in items):
                self.ev('keyerror', node, st, key=it, d=b)
                self.ev('raise', node, st, exc='KeyError', internal=True)
                self.raise_to_try('KeyError', None, st)
                raise Dead
            if rest is None and items and it.op != 'const':
                # dispatch table indexed by an unknown key: join over the entries, else KeyError
                self.ev('raise', node, st, exc='KeyError', internal=True, dispatch=it,
                        cond=tand(*[tnot(B.cmp('==', it, k)) for k, _, _ in items]))
                out = None
                for k, v, cd in reversed(items):
                    out = v if out is None else self.phi(B.cmp('==', it, k), v, out)
                allc = tor(*[B.cmp('==', it, k) for k, _, _ in items])
                self.assume(allc, True, st)
                st.pc = st.pc + ((allc, True),)
                return out
            if rest is not None:
                return self.val(mk('sub', self.term(b, st), it), shares=(rest,))
            return self.val(mk('sub', self.term(b, st), it), shares=tuple(v for _, v, _ in items))
        if b.kind in ('list', 'tuple'):
            items, rest = self.cell(b, st)
            n = B.num(it)
            if isinstance(n, int):
                if rest is None and -len(items) <= n < len(items):
                    return self.resolve(items[n], st)
                if rest is not None and 0 <= n < len(items):
                    return self.resolve(items[n], st)
                if rest is None:
                    self.ev('keyerror', node, st, key=it, d=b)
                    self.ev('raise', node, st, exc='IndexError', internal=True)
                    raise Dead
            if it.op == 'slice' and rest is None and all(x is NONE or isinstance(B.num(x), int) for x in it.a):
                sl = slice(*[None if x is NONE else x.a[0] for x in it.a])
                return V(b.kind, (items[sl], None))
            if it.op == 'slice':
                r = rest
                for z in items:
                    r = z if r is None else self.phi(mk('unkcond', next(self.unkc)), r, z)
                return V(b.kind, ((), r)) if r is not None else V(b.kind, ((), None))
            allv = list(items) + ([rest] if rest is not None else [])
            lt = getattr(self.cell(b, st), 't', None) if rest is not None else None
            if lt is not None and it.op != 'slice' and all(self.phikinds(z) == {'val'} for z in allv):
                return self.val(B.sub(lt, it), shares=tuple(allv), ix=tuple(allv))
            if allv and all(x.kind != 'val' for x in allv) and len(allv) == 1:
                return allv[0]
            return self.val(B.sub(self.term(b, st), it), shares=tuple(allv))
        tb = self.term(b, st)
        t = B.sub(tb, it)
        if it.op == 'ite' and it.a[1].op == 'const' and it.a[2].op == 'const':
            t = tite(it.a[0], B.sub(tb, it.a[1]), B.sub(tb, it.a[2]))
        # views: slices and single labels share storage, boolean/list selection copies
        if B.is_bool(it) or it.op in ('list', 'listof'):
            return self.val(t)
        if it.op == 'tuple' and any(B.is_bool(x) or x.op in ('list',) for x in it.a[0]):
            return self.val(t)
        return self.val(t, shares=(b,), ix=() if it.op == 'slice' else (b,))

    # call
    def e_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return V('super', (fr.self_v, fr.fn.cls))
        recv = None
        if isinstance(n.func, ast.Attribute):
            recv = self.eval(n.func.value, st, fr)
            rk = self.resolve(recv, st)
            if rk.kind in ('val', 'list', 'dict', 'tuple', 'set', 'super', 'phi'):
                pass
            else:
                f = self.getattr(rk, n.func.attr, n.func, st)
                recv = None
        else:
            f = self.eval(n.func, st, fr)
        args, kwargs, star = self.args(n, st, fr)
        if recv is not None:
            return self.method(recv, n.func.attr, args, kwargs, n, st)
        return self.call_value(f, args, kwargs, n, st)

    def args(self, n, st, fr):
        args, kwargs, star = [], {}, None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                it = self.known_items(v, st)
                if it is not None:
                    args += it
                else:
                    args.append(self.val(mk('star', self.term(v, st)), shares=(v,)))
            else:
                args.append(self.eval(a, st, fr))
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                v = self.resolve(v, st)
                vv = v
                if vv.kind == 'obj' and '#dict' in self.cell(vv, st)[1]:
                    vv = self.cell(vv, st)[1]['#dict']
                if vv.kind == 'dict':
                    items, rest = self.cell(vv, st)
                    ok = True
                    for kt, x, cd in items:
                        if kt.op == 'const' and isinstance(kt.a[0], str):
                            if cd is TRUE or self.fact(cd, st) is True:
                                kwargs[kt.a[0]] = x
                            elif self.fact(cd, st) is False:
                                pass
                            else:
                                kwargs[kt.a[0]] = self.phi(cd, x, self.val(mk('absent')))
                        else:
                            ok = False
                    if rest is not None:
                        kwargs['**'] = self.val(mk('dictof', self.term(rest, st)), shares=(rest,))
                else:
                    t = self.term(vv, st)
                    kwargs['**'] = vv
            else:
                kwargs[k.arg] = v
        return args, kwargs, star

    # ------------------------------------------------------------ iteration helpers
    def known_items(self, v, st):
        """finite list of element values, or None"""
        v = self.resolve(v, st)
        if v.kind in ('list', 'tuple', 'set'):
            items, rest = self.cell(v, st)
            return list(items) if rest is None and len(items) <= MAX_UNROLL else None
        if v.kind == 'obj' and '#dict' in self.cell(v, st)[1]:
            v = self.cell(v, st)[1]['#dict']
        if v.kind == 'dict':
            items, rest = self.cell(v, st)
            if rest is None and all(self.fact(cd, st) is True or cd is TRUE for _, _, cd in items) and len(items) <= MAX_UNROLL:
                return [self.val(k) for k, _, _ in items]
            return None
        if v.kind == 'val':
            t = self.term(v, st)
            if t.op in ('list', 'tuple') and len(t.a[0]) <= MAX_UNROLL:
                return [self.val(x) for x in t.a[0]]
            if t.op == 'const' and isinstance(t.a[0], (str, tuple)) and len(t.a[0]) <= MAX_UNROLL:
                return [self.c(x) for x in t.a[0]]
            if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'builtins.range':
                ns = [B.num(x) for x in t.a[1]]
                if all(isinstance(x, int) for x in ns):
                    r = range(*ns)
                    if len(r) <= 16:
                        return [self.c(x) for x in r]
        return None

    def elem(self, v, st, node):
        """an arbitrary element of the iterable v"""
        v = self.resolve(v, st)
        if v.kind == 'phi':
            c, a, b = v.cell
            return self.phi(c, self.elem(a, st, node), self.elem(b, st, node))
        if v.kind in ('list', 'tuple', 'set'):
            cell = self.cell(v, st)
            items, rest = cell
            alls = list(items) + ([rest] if rest is not None else [])
            if not alls:
                return self.unk('empty')
            lt = getattr(cell, 't', None) if rest is not None else None
            if lt is not None and all(self.phikinds(z) == {'val'} for z in alls):
                et = lt.a[0] if lt.op == 'listof' else mk('elem', lt)
                if et.op == 'if':
                    et = et.a[1]
                return self.val(et, shares=tuple(alls), ix=tuple(alls))
            r = alls[0]
            for z in alls[1:]:
                r = self.phi(mk('unkcond', next(self.unkc)), r, z)
            return r
        if v.kind == 'obj' and '#dict' in self.cell(v, st)[1]:
            v = self.cell(v, st)[1]['#dict']
        if v.kind == 'dict':
            items, rest = self.cell(v, st)
            return self.val(mk('elem', mk('keys', self.term(v, st))))
        t = self.term(v, st)
        ext = t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0]
        if t.op == 'zipped':
            return V('tuple', (tuple(self.val(mk('elem', x), shares=(v,)) for x in t.a[0]), None))
        if t.op == 'enum':
            return V('tuple', ((self.val(mk('pos', t.a[0])), self.val(mk('elem', t.a[0]), shares=(v,))), None))
        if t.op == 'mcall' and t.a[1] in ('items', 'iteritems', 'iterrows'):
            return V('tuple', ((self.val(mk('elem', B.attr(t.a[0], 'index') if t.a[1] == 'iterrows' else mk('keys', t.a[0]))),
                                self.val(mk('elem', t), shares=(v,))), None))
        if t.op == 'listof':
            return self.val(t.a[0], shares=(v,))
        return self.val(mk('elem', t), shares=(v,))

    # comprehension
    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, 'list')

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, 'set')

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, 'dict')

    def comp(self, n, st, fr, kind):
        acc, rest, drest, iters = [], [], [], {}

        def leaf(s, conds, known):
            if kind == 'dict':
                k = self.term(self.eval(n.key, s, fr), s)
                v = self.eval(n.value, s, fr)
                if known and k.op == 'const':
                    acc.append((k, v, tand(*conds)))
                else:
                    drest.append(v)
                    self._comp_keys = k
            else:
                v = self.eval(n.elt, s, fr)
                if known and not [c for c in conds if c is not TRUE]:
                    acc.append(v)
                else:
                    rest.append((v, conds, s))

        def go(gi, s, conds, known):
            if gi == len(n.generators):
                return leaf(s, conds, known)
            g = n.generators[gi]
            it = self.eval(g.iter, s, fr)
            self.iter_event(it, g.iter, s)
            ks = self.known_items(it, s)
            if ks is None:
                iters[gi] = iterbase(self.term(it, s))
            if ks is not None:
                for x in ks:
                    self.assign(g.target, x, s, fr)
                    cs = list(conds)
                    dead = False
                    for cnd in g.ifs:
                        c = self.truth(self.eval(cnd, s, fr), s)
                        f = self.fact(c, s)
                        if f is False:
                            dead = True
                            break
                        if f is None:
                            cs.append(c)
                    if not dead:
                        go(gi + 1, s, cs, known)
            else:
                x = self.elem(it, s, g.iter)
                self.assign(g.target, x, s, fr)
                cs = list(conds)
                for cnd in g.ifs:
                    c = self.truth(self.eval(cnd, s, fr), s)
                    if self.fact(c, s) is False:
                        return
                    cs.append(c)
                go(gi + 1, s, cs, False)
        try:
            go(0, st, [], True)
        except Dead:
            raise
        if kind == 'dict':
            r = None
            for z in drest:
                r = z if r is None else self.phi(mk('unkcond', next(self.unkc)), r, z)
            return V('dict', (tuple(acc), r))
        r = None
        for z, cs, s in rest:
            cs = [c for c in cs if c is not TRUE]
            if cs and z.kind == 'val':
                z2 = self.val(mk('if', tand(*cs), self.term(z, st)), shares=(z,))
            else:
                z2 = z
            r = z2 if r is None else self.phi(mk('unkcond', next(self.unkc)), r, z2)
        cell = (tuple(acc), r)
        if not acc and len(rest) == 1 and set(iters) == set(range(len(n.generators))) and kind == 'list':
            z, cs, s = rest[0]
            lt = self.term(z, st)
            cs = [c for c in cs if c is not TRUE]
            if cs:
                lt = mk('if', tand(*cs), lt)
            for gi in reversed(range(len(n.generators))):
                lt = mk('listof', lt, iters[gi])
                if gi < len(n.generators) - 1:
                    lt = mk('flatten', lt)
            cell = LC.of(cell, lt)
        return V('set' if kind == 'set' else 'list', cell)

    def iter_event(self, it, node, st):
        v = self.resolve(it, st)
        isset = v.kind == 'set' or (v.kind == 'val' and self.term(v, st).op == 'set_of')
        if isset:
            ks = self.known_items(v, st)
            if ks is None or len(ks) > 1:
                self.ev('setiter', node, st, v=v)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            st = self.stmt(s, st, fr)
            if st is None:
                return None
        return st

    def stmt(self, n, st, fr):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.note(n, 'statement %s' % type(n).__name__)
            return st
        try:
            return m(n, st, fr)
        except Dead:
            return None

    def s_Pass(self, n, st, fr):
        return st

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return st
        self.discarded.add(id(n.value))
        self.eval(n.value, st, fr)
        return st

    def s_Import(self, n, st, fr):
        for k, v in import_bindings(n):
            if v[0] == 'ext':
                st.store[('e', fr.fid, k)] = self.val(mk('ext', v[1]))
            else:
                e = self.p.resolve_pkg(v[1])
                if e:
                    st.store[('e', fr.fid, k)] = self.entity(e, st, (v[1], k))
        return st

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st, fr):
        fn = Func(fr.mod, (fr.fn.qual + '.' if fr.fn else '') + n.name, n)
        v = V('func', (fn, (fr.fid, fr.fn, fr.closure)))
        for d in reversed(n.decorator_list):
            dv = self.eval(d, st, fr)
            dt = self.term(dv, st)
            if dt.op == 'call' and dt.a[0].op == 'ext' and dt.a[0].a[0] == 'functools.wraps':
                continue
            if dv.kind in ('func', 'bound', 'partial'):
                v = self.call_value(dv, [v], {}, d, st)
        st.store[('e', fr.fid, n.name)] = v
        return st

    def s_ClassDef(self, n, st, fr):
        st.store[('e', fr.fid, n.name)] = V('cls', Cls(fr.mod, n))
        return st

    def s_Return(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else self.c(None)
        fr.rets.append((st, v, n))
        return None

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fr)
                i = self.eval(t.slice, st, fr)
                it = self.term(i, st)
                rb = self.resolve(b, st)
                if rb.kind == 'obj':
                    m = self.cell(rb, st)[0].find('__delitem__', self.p)
                    if m:
                        self.call_func(m, None, [i], {}, n, st, self_v=rb)
                        continue
                    b = self.cell(rb, st)[1].get('#dict', b)

                def f(v, old):
                    if isinstance(old, T):
                        return mk('delitem', old, it)
                    if v.kind == 'dict':
                        return (tuple(x for x in old[0] if x[0] is not it), old[1])
                    return old
                self.mutate(b, f, n, st, 'del')
            elif isinstance(t, ast.Attribute):
                b = self.resolve(self.eval(t.value, st, fr), st)
                if b.kind == 'obj':
                    cls, f = self.cell(b, st)
                    g = dict(f)
                    g.pop(t.attr, None)
                    self.ev('fwrite', n, st, obj=b, name=t.attr, v=None, how='del')
                    self.setcell(b, (cls, g), st)
        return st

    def s_Assert(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st)
        f = self.fact(c, st)
        if f is not True:
            bad = self.branch(c, False, st)
            self.ev('raise', n, bad, exc='AssertionError')
            if f is False:
                return None
            return self.branch(c, True, st)
        return st

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st, fr), st, fr)
        return st

    def s_Assign(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr)
        return st

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            fn = fr.fn
            if fn is not None and t.id in fn.globals:
                self.ev('gwrite', t, st, name=t.id, mod=fr.mod, v=v)
                st.store[('g', fr.mod.name, t.id)] = v
            elif fn is not None and t.id in fn.nonlocals and fr.closure:
                fid, f2, clo = fr.closure
                while clo is not None and ('e', fid, t.id) not in st.store:
                    fid, f2, clo = clo
                st.store[('e', fid, t.id)] = v
            else:
                st.store[('e', fr.fid, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, fr)
            self.setattr(b, t.attr, v, t, st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fr)
            i = self.eval(t.slice, st, fr)
            # writing through .loc/.iloc/.at: the object written is the owner
            if isinstance(t.value, ast.Attribute) and t.value.attr in ('loc', 'iloc', 'at', 'iat'):
                owner = self.eval(t.value.value, st, fr)
                self.setitem(owner, i, v, t, st, acc=t.value.attr)
            else:
                self.setitem(b, i, v, t, st)

    def unpack(self, elts, v, st, fr):
        v = self.resolve(v, st)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.kind == 'phi' and self.phikinds(v) <= {'tuple', 'list'}:
            # unpack branch-wise
            def items_of(x):
                x = self.resolve(x, st)
                if x.kind == 'phi':
                    a, b = items_of(x.cell[1]), items_of(x.cell[2])
                    if a is None or b is None or len(a) != len(b):
                        return None
                    return [self.phi(x.cell[0], p_, q) for p_, q in zip(a, b)]
                return self.known_items(x, st)
            its = items_of(v)
            if its is not None:
                v = V('tuple', (tuple(its), None))
        its = self.known_items(v, st) if v.kind in ('tuple', 'list') else None
        if its is None and v.kind == 'val':
            t = self.term(v, st)
            if t.op in ('tuple', 'list'):
                its = [self.val(x, shares=(v,)) for x in t.a[0]]
            elif t.op == 'ite' and t.a[1].op in ('tuple', 'list') and t.a[2].op in ('tuple', 'list') and len(t.a[1].a[0]) == len(t.a[2].a[0]):
                its = [self.val(tite(t.a[0], x, y), shares=(v,)) for x, y in zip(t.a[1].a[0], t.a[2].a[0])]
        if its is not None and not star and len(its) == len(elts):
            for e, x in zip(elts, its):
                self.assign(e, x, st, fr)
            return
        if its is not None and star and len(its) >= len(elts) - 1:
            i = star[0]
            tail = len(elts) - i - 1
            for e, x in zip(elts[:i], its[:i]):
                self.assign(e, x, st, fr)
            self.assign(elts[i].value, V('list', (tuple(its[i:len(its) - tail]), None)), st, fr)
            for e, x in zip(elts[i + 1:], its[len(its) - tail:] if tail else []):
                self.assign(e, x, st, fr)
            return
        t = self.term(v, st)
        for j, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, self.val(mk('sub', t, mk('slice', const(j), NONE, NONE)), shares=(v,)), st, fr)
            elif v.kind in ('list', 'tuple'):
                self.assign(e, self.getitem(v, self.c(j), e, st), st, fr)
            else:
                self.assign(e, self.val(B.sub(t, const(j)), shares=(v,)), st, fr)

    def setattr(self, b, name, v, node, st):
        b = self.resolve(b, st)
        if b.kind == 'phi' and self.phikinds(b) == {'obj'}:
            c, x, y = b.cell
            self.on_branches(c, st, lambda s: (self.setattr(x, name, v, node, s), self.c(None))[1],
                             lambda s: (self.setattr(y, name, v, node, s), self.c(None))[1])
            return
        if b.kind == 'obj':
            cls, f = self.cell(b, st)
            sp = cls.find(name, self.p, 'setters')
            if sp:
                self.call_func(sp, None, [v], {}, node, st, self_v=b)
                return
            g = dict(f)
            self.ev('fwrite', node, st, obj=b, name=name, v=v, t=self.term(v, st), old=f.get(name), how='=')
            g[name] = v
            self.vreg[b.id] = b
            self.setcell(b, (cls, g), st)
            return
        if b.kind in ('func', 'bound', 'cls', 'mod'):
            if b.kind == 'mod':
                self.ev('gwrite', node, st, name=name, mod=b.cell, v=v)
                st.store[('g', b.cell.name, name)] = v
            elif b.kind == 'cls':
                self.ev('gwrite', node, st, name=b.cell.name + '.' + name, mod=b.cell.mod, v=v)
            else:
                self.ev('gwrite', node, st, name=b.cell[0].qual + '.' + name, mod=b.cell[0].mod, v=v)
            return
        vt = self.term(v, st)
        # index metadata: x.index.name = ...
        kind = 'meta'
        t = self.term(b, st)
        isindex = t.op == 'attr' and t.a[1] in ('index', 'columns')
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Attribute) and node.value.attr in ('index',):
            isindex = True
        if isindex and name in ('name', 'names', 'freq'):
            kind = 'ix'
            if t.op == 'attr' and t.a[1] == 'index' and name == 'name':
                from . import columns
                columns.INDEX_NAMES[t.a[0].id] = vt
        elif name not in B.PANDAS_ATTRS and B.is_frame(t):
            kind = 'data'
        elif name in ('values', 'flat', 'real'):
            kind = 'data'
        if t.op == 'ext':
            self.ev('extset', node, st, name=t.a[0] + '.' + name, v=v)
            return

        def f(x, old):
            if isinstance(old, T):
                return B.setattr_(old, name, vt)
            return old
        self.mutate(b, f, node, st, '.%s =' % name, kind)

    def setitem(self, b, i, v, node, st, acc=None):
        b = self.resolve(b, st)
        if b.kind == 'obj':
            cls, f = self.cell(b, st)
            m = cls.find('__setitem__', self.p)
            if m:
                self.call_func(m, None, [i, v], {}, node, st, self_v=b)
                return
            if '#dict' in f:
                return self.setitem(f['#dict'], i, v, node, st)
        if b.kind == 'super':
            ob = b.cell[0]
            f = self.cell(ob, st)[1]
            if '#dict' in f:
                return self.setitem(f['#dict'], i, v, node, st)
        it = self.term(i, st)
        vt = self.term(v, st)

        def f(x, old):
            if isinstance(old, T):
                o = mk('attr', old, acc) if acc else old
                return B.setitem(o, it, vt)[1]
            if x.kind == 'dict':
                items, rest = old
                if it.op == 'const':
                    return (tuple(self.dput(items, it, v)), rest)
                return (tuple((k, self.phi(B.cmp('==', it, k), v, y), cd) for k, y, cd in items),
                        v if rest is None else self.phi(mk('unkcond', next(self.unkc)), v, rest))
            if x.kind == 'list':
                items, rest = old
                n = B.num(it)
                if isinstance(n, int) and rest is None and -len(items) <= n < len(items):
                    its = list(items)
                    its[n] = v
                    return (tuple(its), None)
                u = mk('unkcond', next(self.unkc))
                if it.op == 'slice':
                    return ((), self.elem(v, st, node))
                return (tuple(self.phi(u, v, y) for y in items), None if rest is None else self.phi(u, v, rest))
            return old
        # assigning a whole DataFrame column replaces it: views of the frame are not written through
        own = b.kind in ('dict', 'list') or (acc is None and it.op in ('const', 'list') and not B.num(it) and
                                             self.vtype(self.term(b, st)) == 'frame')
        self.mutate(b, f, node, st, '[...] =', 'own' if own else 'data')

    def s_AugAssign(self, n, st, fr):
        op = self.OPS[type(n.op).__name__]
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fr, n)
            rhs = self.eval(n.value, st, fr)
            cur = self.resolve(cur, st)
            if cur.kind == 'list' and op == '+':
                self.list_extend(cur, rhs, n, st)
                return st
            if cur.kind in ('dict', 'set') and op in ('|', '&', '-'):
                self.method(cur, 'update', [rhs], {}, n, st)
                return st
            ct, rt = self.term(cur, st), self.term(rhs, st)
            new = B.binop(op, ct, rt)
            if self.inplace_capable(cur, ct, st):
                self.mutate(cur, lambda x, old: B.binop(op, old, rt) if isinstance(old, T) else old, n, st, op + '=')
                self.assign(t, cur, st, fr)
            else:
                self.assign(t, self.val(new, ix=(cur, rhs)), st, fr)
            return st
        if isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, fr)
            cur = self.getattr(b, t.attr, t, st)
            rhs = self.eval(n.value, st, fr)
            rb = self.resolve(b, st)
            if self.resolve(cur, st).kind == 'list' and op == '+':
                self.list_extend(self.resolve(cur, st), rhs, n, st)
                return st
            ct = self.term(cur, st)
            rt = self.term(rhs, st)
            if rb.kind == 'obj' and self.inplace_capable(self.resolve(cur, st), ct, st):
                self.mutate(cur, lambda x, old: B.binop(op, old, rt) if isinstance(old, T) else old, n, st, op + '=')
                return st
            new = self.val(B.binop(op, ct, rt), ix=(cur, rhs))
            if rb.kind == 'obj':
                self.ev('faug', n, st, obj=rb, name=t.attr)
            self.setattr(b, t.attr, new, t, st)
            return st
        if isinstance(t, ast.Subscript):
            accn = t.value.attr if isinstance(t.value, ast.Attribute) and t.value.attr in ('loc', 'iloc', 'at', 'iat') else None
            b = self.eval(t.value, st, fr)
            i = self.eval(t.slice, st, fr)
            cur = self.getitem(b, i, t, st)
            rhs = self.eval(n.value, st, fr)
            new = self.bin(op, cur, rhs, st, n)
            if accn:
                b = self.eval(t.value.value, st, fr)
            self.setitem(b, i, new, t, st, acc=accn)
            return st
        return st

    SERIESY = ('series', 'dataframe', 'array', 'numeric', 'list', 'dict')

    def inplace_capable(self, v, t, st):
        """does `v op= x` mutate v's object? (pandas / numpy values: yes; numbers and strings: no)"""
        if v.kind == 'phi':
            return any(self.inplace_capable(x, self.term(x, st), st) for x in (v.cell[1], v.cell[2]))
        if v.kind != 'val':
            return False
        ty = self.vtype(t)
        return ty in ('series', 'frame', 'ndarray')

    ptypes = {}
    nonnull = frozenset()

    def vtype(self, t, depth=0):
        if depth > 30:
            return None
        o = t.op
        if o == 'const' or o in ('agg', 'td', 'fmt', 'isnone', 'pos'):
            return 'scalar' if o != 'agg' or t.a[2] is True else None
        if o == 'param':
            return self.ptypes.get(t.a[0])
        if o == 'field':
            return self.ptypes.get('self.' + t.a[0])
        if o == 'mu':
            return self.mutype.get(t.id)
        if o == 'loop':
            return self.vtype(t.a[2], depth + 1)
        if o == 'loopval':
            return self.vtype(t.a[1], depth + 1)
        if B.is_frame(t):
            return 'frame'
        if o == 'oncol':
            return 'series'
        if o in ('setcol',):
            return 'frame'
        if o in ('bin', 'cmp'):
            for x in (t.a[1], t.a[2]):
                ty = self.vtype(x, depth + 1)
                if ty in ('series', 'frame', 'ndarray', 'index'):
                    return ty
            return self.vtype(t.a[1], depth + 1)
        if o in ('and', 'or', 'not', 'where', 'isna', 'abs', 'clip', 'filt', 'setattr', 'setloc', 'ite', 'rowsel', 'viewmut', 'fillall'):
            for x in t.a:
                if isinstance(x, T):
                    ty = self.vtype(x, depth + 1)
                    if ty in ('series', 'frame', 'ndarray', 'index'):
                        return ty
            return None
        if o == 'call' and t.a[0].op == 'ext':
            n = t.a[0].a[0]
            if n == 'pandas.Series':
                return 'series'
            if n.startswith('numpy.') and n.split('.')[1] in ('array', 'asarray', 'zeros', 'ones', 'arange', 'full', 'empty', 'zeros_like',
                                                              'ones_like', 'linspace', 'full_like', 'concatenate', 'ma'):
                return 'ndarray'
            if n.startswith('numpy.random.'):
                return 'ndarray'
            return None
        if o == 'attr':
            if t.a[1] == 'index':
                return 'index'
            if t.a[1] == 'values':
                return 'ndarray'
        if o == 'mcall':
            if t.a[1] in ('sum', 'mean', 'median'):
                return None
            if t.a[1] in ('resample', 'rolling', 'groupby'):
                return None
            return self.vtype(t.a[0], depth + 1) if t.a[1] in B.MSIG or t.a[1] in ('cumsum', 'sort_index', 'dropna', 'astype') else None
        if o == 'sub':
            bt = self.vtype(t.a[0], depth + 1)
            if bt == 'frame' and t.a[1].op == 'const':
                return 'series'
            if t.a[1].op in ('slice', 'list'):
                return bt if bt else (self.vtype(t.a[0].a[0], depth + 1) if t.a[0].op == 'attr' else None)
            if t.a[0].op == 'attr' and t.a[0].a[1] in ('loc', 'iloc') and t.a[1].op in ('const', 'elem', 'pos'):
                return None
        return None

    # control flow
    def s_If(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st)
        f = self.fact(c, st)
        if f is None:
            self.ev('branch', n, st, c=c)
        if f is True:
            return self.block(n.body, st, fr)
        if f is False:
            return self.block(n.orelse, st, fr)
        a, b = self.branch(c, True, st), self.branch(c, False, st)
        ra = self.block(n.body, a, fr)
        rb = self.block(n.orelse, b, fr)
        return self.merge(ra, rb)

    def s_Match(self, n, st, fr):
        self.note(n, 'match statement')
        subj = self.eval(n.subject, st, fr)
        t = self.term(subj, st)
        outs = []
        cur = st
        for case in n.cases:
            p_ = case.pattern
            c = None
            vals = []
            pats = p_.patterns if isinstance(p_, ast.MatchOr) else [p_]
            wild = False
            for q in pats:
                if isinstance(q, ast.MatchValue):
                    vals.append(B.cmp('==', t, self.term(self.eval(q.value, cur, fr), cur)))
                elif isinstance(q, ast.MatchSingleton):
                    vals.append(B.isnone(t) if q.value is None else B.cmp('==', t, const(q.value)))
                elif isinstance(q, ast.MatchAs) and q.pattern is None:
                    wild = True
                    if q.name:
                        cur.store[('e', fr.fid, q.name)] = subj
                else:
                    vals.append(mk('unkcond', next(self.unkc)))
            c = TRUE if wild else tor(*vals)
            if case.guard is not None:
                c = tand(c, self.truth(self.eval(case.guard, cur, fr), cur))
            f = self.fact(c, cur)
            if f is True:
                outs.append(self.block(case.body, cur, fr))
                cur = None
                break
            if f is False:
                continue
            outs.append(self.block(case.body, self.branch(c, True, cur), fr))
            cur = self.branch(c, False, cur)
        if cur is not None:
            outs.append(cur)
        return self.mergemany(outs)

    def raise_to_try(self, exc, excv, st):
        """hand the state to the innermost matching handler; True when handled"""
        for tr in reversed(self.trystack):
            for h, names in tr['handlers']:
                if names is None or exc in names or any(p_ in names for p_ in self.exc_parents(exc)):
                    tr['caught'].append((st.fork(), h, exc, excv))
                    return True
        return False

    def exc_parents(self, exc):
        if exc in EXC_PARENTS:
            return EXC_PARENTS[exc]
        for m in self.p.mods.values():
            c = m.classes.get(exc)
            if c:
                return [b.id for b in c.bases if isinstance(b, ast.Name)] + ['Exception']
        return ['Exception']

    def s_Raise(self, n, st, fr):
        name, v = 'Exception', None
        if n.exc is not None:
            v = self.eval(n.exc, st, fr)
            v = self.resolve(v, st)
            if v.kind == 'obj':
                name = self.cell(v, st)[0].name
            elif v.kind == 'cls':
                name = v.cell.name
            else:
                t = self.term(v, st)
                if t.op == 'call' and t.a[0].op == 'ext':
                    name = t.a[0].a[0].split('.')[-1]
                elif t.op == 'ext':
                    name = t.a[0].split('.')[-1]
                elif t.op == 'excval':
                    name = t.a[0]
        handled = self.raise_to_try(name, v, st)
        self.ev('raise', n, st, exc=name, handled=handled)
        return None

    def s_Try(self, n, st, fr):
        tr = {'handlers': [], 'caught': []}
        for h in n.handlers:
            if h.type is None:
                names = None
            else:
                names = set()
                for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    names.add(ast.unparse(x).split('.')[-1])
            tr['handlers'].append((h, names))
        pre = st.fork()
        exc = mk('exc', self.site(n))
        body = self.branch(exc, False, st)
        self.trystack.append(tr)
        try:
            out = self.block(n.body, body, fr)
        finally:
            self.trystack.pop()
        if out is not None and n.orelse:
            out = self.block(n.orelse, out, fr)
        outs = [out]
        for s, h, e, v in tr['caught']:
            if h.name:
                s.store[('e', fr.fid, h.name)] = self.val(mk('excval', e))
            r = self.block(h.body, s, fr)
            outs.append(r)
        # a library call in the body may raise as well
        lib = any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp)) for b in n.body for x in ast.walk(b))
        if lib:
            for h, names in tr['handlers']:
                if any(hh is h for _, hh, _, _ in tr['caught']):
                    # a modelled exception reaches this handler already
                    if not self.lib_may_raise(n.body):
                        continue
                s = self.branch(exc, True, pre)
                # effects of the body on mutable state may or may not have happened: keep the pre-state
                if h.name:
                    s.store[('e', fr.fid, h.name)] = self.val(mk('excval', 'lib'))
                outs.append(self.block(h.body, s, fr))
        m = self.mergemany(outs)
        if m is not None and n.finalbody:
            m = self.block(n.finalbody, m, fr)
        return m

    def lib_may_raise(self, body):
        return False

    s_TryStar = s_Try

    def s_With(self, n, st, fr):
        for it in n.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                t = self.term(v, st)
                self.assign(it.optional_vars, self.val(mk('enter', t), shares=(v,)), st, fr)
        return self.block(n.body, st, fr)

    def s_Break(self, n, st, fr):
        if fr.loops:
            fr.loops[-1]['break'].append(st)
        return None

    def s_Continue(self, n, st, fr):
        if fr.loops:
            fr.loops[-1]['cont'].append(st)
        return None

    def s_For(self, n, st, fr):
        it = self.eval(n.iter, st, fr)
        self.iter_event(it, n.iter, st)
        rit = self.resolve(it, st)
        if rit.kind == 'phi' and self.phikinds(rit) <= {'list', 'tuple', 'dict', 'obj'}:
            # iterate each alternative separately (short literal collections)
            c, x, y = rit.cell
            sa, sb = self.branch(c, True, st), self.branch(c, False, st)
            return self.merge(self.for_over(n, x, sa, fr), self.for_over(n, y, sb, fr))
        return self.for_over(n, rit, st, fr)

    def for_over(self, n, it, st, fr):
        items = self.known_items(it, st)
        if items is not None:
            L = {'break': [], 'cont': []}
            fr.loops.append(L)
            try:
                for x in items:
                    L['cont'] = []
                    try:
                        self.assign(n.target, x, st, fr)
                    except Dead:
                        st = None
                    if st is not None:
                        st = self.block(n.body, st, fr)
                    st = self.mergemany([st] + L['cont'])
                    if st is None:
                        break
            finally:
                fr.loops.pop()
            if st is not None and n.orelse:
                st = self.block(n.orelse, st, fr)
            return self.mergemany([st] + L['break'])

        def head(s):
            self.assign(n.target, self.elem(it, s, n), s, fr)
            return s, None
        return self.loop(n, st, fr, head, self.term(it, st))

    def s_While(self, n, st, fr):
        def head(s):
            c = self.truth(self.eval(n.test, s, fr), s)
            f = self.fact(c, s)
            if f is False:
                return None, c
            return self.branch(c, True, s), c
        c0 = None
        return self.loop(n, st, fr, head, const('while'))

    def loop(self, n, st, fr, head, itterm):
        lid = next(LOOPS)
        itterm = iterbase(itterm)
        is_while = isinstance(n, ast.While)
        MU[lid, '#iter'] = (None, None, itterm)
        # discovery pass: what does the body change?
        self.logging -= 1
        changed = {}
        try:
            cur = st
            for rnd in range(2):
                s0 = cur.fork()
                L = {'break': [], 'cont': []}
                fr.loops.append(L)
                nr = len(fr.rets)
                try:
                    s1, _ = head(s0)
                    if s1 is not None:
                        s1 = self.block(n.body, s1, fr)
                except Dead:
                    s1 = None
                finally:
                    fr.loops.pop()
                del fr.rets[nr:]
                ends = [x for x in [s1] + L['cont'] + L['break'] if x is not None]
                new = False
                for e in ends:
                    for k, x in e.store.items():
                        if k[0] in ('e', 'h', 'g') and st.store.get(k) is not x:
                            if k[0] == 'e' and k not in st.store:
                                continue
                            if k[0] == 'h':
                                vv = self.vreg.get(k[1])
                                if vv is not None and (k not in st.store) and not self.reach_known(vv, st):
                                    pass
                            if k not in changed:
                                new = True
                            changed[k] = x
                if not new:
                    break
                cur = self.havoc(st, changed, lid)
        finally:
            self.logging += 1
        hs = self.havoc(st, changed, lid)
        hs0 = hs.fork()
        L = {'break': [], 'cont': []}
        fr.loops.append(L)
        nr = len(fr.rets)
        cexit = None
        try:
            body_in = hs.fork()
            if not is_while:
                body_in.pc = body_in.pc + ((mk('iter', lid), True),)
            try:
                s1, cexit = head(body_in)
                if s1 is not None:
                    s1 = self.block(n.body, s1, fr)
            except Dead:
                s1 = None
        finally:
            fr.loops.pop()
        end = self.mergemany([s1] + L['cont'])
        if is_while and cexit is not None:
            itterm = mk('while', cexit)
            MU[lid, '#iter'] = (None, None, itterm)
        # exit state: loop head with mu nodes closed
        ex = hs0
        if end is not None or L['break']:
            src = end or L['break'][0]
            for k, x in src.store.items():
                if k[0] == 'e' and k not in ex.store:
                    ex.store[k] = self.val(mk('loopval', lid, self.term(x, src)), shares=(x,)) if x.kind == 'val' else x
                elif k[0] == 'h' and k not in ex.store:
                    ex.store[k] = x
        if end is not None:
            for k in changed:
                hv = hs0.store.get(k)
                init = st.store.get(k)
                fin = end.store.get(k)
                if hv is None or fin is None:
                    continue
                if k[0] in ('e', 'g'):
                    if hv.kind == 'val' and fin.kind in ('val', 'phi'):
                        it_ = self.term(init, st) if init is not None else mk('undef')
                        ft = self.term(fin, end)
                        MU[lid, str(k[2])] = (it_, ft, itterm)
                        ex.store[k] = self.val(mk('loop', lid, str(k[2]), it_, ft, itterm), shares=hv.shares | {fin}, ix=hv.ix)
                elif k[0] == 'h':
                    vv = self.vreg.get(k[1])
                    ic = init if init is not None else (vv.cell if vv else None)
                    if isinstance(hv, T) and isinstance(fin, T):
                        if hv.op == 'mu':
                            MU[hv.a[0], hv.a[1]] = (ic if isinstance(ic, T) else NONE, fin, itterm)
                        ex.store[k] = mk('loop', lid, 'h', ic if isinstance(ic, T) else NONE, fin, itterm)
                    elif isinstance(fin, tuple):
                        if isinstance(fin[0], Cls):
                            fields = {}
                            icf = ic[1] if ic else {}
                            for nm, vf in fin[1].items():
                                v0 = hv[1].get(nm)
                                if v0 is vf:
                                    fields[nm] = vf
                                elif isinstance(vf, V) and v0 is not None and vf.kind in ('val', 'phi') and v0.kind in ('val', 'phi'):
                                    i0 = icf.get(nm)
                                    MU[lid, nm] = (self.term(i0, st) if i0 is not None else mk('undef'), self.term(vf, end), itterm)
                                    fields[nm] = self.val(mk('loop', lid, nm, self.term(i0, st) if i0 is not None else mk('undef'), self.term(vf, end), itterm), shares=(vf,))
                                else:
                                    fields[nm] = vf
                            ex.store[k] = (fin[0], fields)
                        else:
                            ex.store[k] = self.close_container(hv, fin, ic, lid, itterm, end, st, vv)
        if is_while and cexit is not None:
            f = self.fact(cexit, ex)
            if not (cexit is TRUE):
                ex = self.branch(cexit, False, ex)
            else:
                ex = None if not L['break'] else None
        if n.orelse and ex is not None:
            ex = self.block(n.orelse, ex, fr)
        return self.mergemany([ex] + L['break'])

    def reach_known(self, v, st):
        return True

    def close_container(self, hv, fin, ic, lid, itterm, end, st, vv):
        """list/dict grown in a loop"""
        if vv is not None and vv.kind == 'dict':
            h0 = {q[0].id: q[1] for q in hv[0]}
            i0 = {q[0].id: q[1] for q in ic[0]} if ic else {}
            out = []
            for kt, v1, cd in fin[0]:
                m = h0.get(kt.id)
                if m is not None and m is not v1 and m.kind == 'val' and m.cell.op == 'mu' and (self.phikinds(v1) <= {'val'}):
                    ini = i0.get(kt.id)
                    a, b = (self.term(ini, st) if ini is not None else mk('undef')), self.term(v1, end)
                    MU[m.cell.a[0], m.cell.a[1]] = (a, b, itterm)
                    out.append((kt, self.val(mk('loop', lid, str(kt), a, b, itterm), shares=(v1,)), cd))
                else:
                    out.append((kt, v1, cd))
            return (tuple(out), fin[1])
        ht = getattr(hv, 't', None)
        ft = getattr(fin, 't', None)
        it = self.lterm(ic, st) if ic is not None else None
        if ht is None or ft is None or it is None:
            return fin
        MU[ht.a[0], ht.a[1]] = (it, ft, itterm)
        return LC.of(fin, self.close_list(ht, it, ft, lid, itterm))

    def close_list(self, ht, it, ft, lid, itterm):
        if it.op == 'list' and not it.a[0]:
            if ft.op == 'lappend' and ft.a[0] is ht:
                return mk('listof', ft.a[1], itterm)
            if ft.op == 'ite':
                c, x, y = ft.a
                if x.op == 'lappend' and x.a[0] is ht and y is ht:
                    return mk('listof', mk('if', c, x.a[1]), itterm)
                if y.op == 'lappend' and y.a[0] is ht and x is ht:
                    return mk('listof', mk('if', tnot(c), y.a[1]), itterm)
                if x.op == 'lappend' and y.op == 'lappend' and x.a[0] is ht and y.a[0] is ht:
                    return mk('listof', tite(c, x.a[1], y.a[1]), itterm)
        return mk('loop', lid, 'h', it, ft, itterm)

    def havoc(self, st, changed, lid):
        s = st.fork()
        for k, x in changed.items():
            init = st.store.get(k)
            if k[0] in ('e', 'g'):
                if init is None:
                    continue
                kinds = self.phikinds(init) | self.phikinds(x)
                if kinds == {'val'} or 'val' in kinds:
                    nm = '%s' % (k[2],)
                    ti = self.term(init, st)
                    s.store[k] = self.mu_val(lid, nm, (init, x))
                    self.mutype[s.store[k].cell.id] = self.vtype(ti)
                elif kinds <= {'list', 'tuple', 'set'}:
                    s.store[k] = V(x.kind if x.kind != 'phi' else 'list', ((), self.mu_val(lid, k[2], (init, x))))
                elif kinds == {'obj'} or kinds == {'dict'}:
                    s.store[k] = init if init.kind != 'phi' else self.phi(mk('unkcond', next(self.unkc)), init, x)
                else:
                    s.store[k] = self.mu_val(lid, k[2], (init, x))
            elif k[0] == 'h':
                vv = self.vreg.get(k[1])
                base = init if init is not None else (vv.cell if vv is not None else None)
                if base is None:
                    continue
                if isinstance(base, T):
                    s.store[k] = mk('mu', lid, 'h%s' % base.id)
                    self.mutype[s.store[k].id] = self.vtype(base)
                elif isinstance(base, tuple) and isinstance(base[0], Cls):
                    f = dict(base[1])
                    if isinstance(x, tuple) and isinstance(x[0], Cls):
                        for nm, vf in x[1].items():
                            if nm not in f or f[nm] is not vf:
                                if isinstance(vf, V):
                                    o = f.get(nm)
                                    if o is not None and (self.phikinds(o) | self.phikinds(vf)) & {'val'}:
                                        f[nm] = self.mu_val(lid, nm, (o, vf))
                                    elif o is not None:
                                        f[nm] = self.phi(mk('unkcond', lid, nm), o, vf)
                                    # a field created by the body: undefined on the first iteration
                    s.store[k] = (base[0], f)
                elif isinstance(base, tuple):
                    if vv is not None and vv.kind == 'dict':
                        its = []
                        xi = {q[0].id: q for q in x[0]} if isinstance(x, tuple) and x[0] and isinstance(x[0][0], tuple) else {}
                        for kt, v0, cd in base[0]:
                            q = xi.get(kt.id)
                            if q is not None and q[1] is not v0:
                                if (self.phikinds(v0) | self.phikinds(q[1])) & {'val'}:
                                    its.append((kt, self.mu_val(lid, str(kt), (v0, q[1])), cd))
                                else:
                                    its.append((kt, self.phi(mk('unkcond', lid, str(kt)), v0, q[1]), cd))
                            else:
                                its.append((kt, v0, cd))
                        # constant keys first added by the body
                        b0 = {q[0].id for q in base[0]}
                        for q in xi.values():
                            if q[0].id not in b0:
                                its.append((q[0], q[1], mk('unkcond', lid, q[0].id)))
                        r = base[1]
                        if isinstance(x, tuple) and x[1] is not None and x[1] is not r:
                            r = x[1] if r is None else self.phi(mk('unkcond', lid, 'r'), r, x[1])
                        s.store[k] = (tuple(its), r)
                    else:
                        alls = list(base[0]) + ([base[1]] if base[1] is not None else [])
                        if isinstance(x, tuple):
                            alls += [z for z in x[0] if all(z is not w for w in alls)]
                            if x[1] is not None and all(x[1] is not w for w in alls):
                                alls.append(x[1])
                        r = None
                        for z in alls:
                            r = z if r is None else self.phi(mk('unkcond', lid, z.id), r, z)
                        s.store[k] = LC.of(((), r if r is not None else self.unk('empty')), mk('mu', lid, 'L%d' % k[1]))
        # facts about mu'd terms cannot exist (fresh); other facts stay valid
        return s

    def mu_val(self, lid, nm, vs):
        key = ('mu', lid, str(nm), tuple(v.id for v in vs))
        return self.phimemo.setdefault(key, V('val', mk('mu', lid, str(nm)), shares=vs, ix=vs))

    # ------------------------------------------------------------ containers & library calls
    def list_extend(self, lst, rhs, node, st):
        ks = self.known_items(rhs, st)
        e = None if ks is not None else self.elem(rhs, st, node)

        def f(x, old):
            if isinstance(old, T):
                return mk('mut', old, 'extend', (self.term(rhs, st),))
            items, rest = old
            if ks is not None and rest is None:
                return (items + tuple(ks), None)
            r = rest
            for z in (ks if ks is not None else [e]):
                r = z if r is None else self.phi(mk('unkcond', next(self.unkc)), r, z)
            ot = self.lterm(old, st)
            if ot is not None and ks is not None:
                for z in ks:
                    ot = mk('lappend', ot, self.term(z, st))
            elif ot is not None:
                ot = mk('lextend', ot, self.term(rhs, st))
            return LC.of((items, r), ot)
        self.mutate(lst, f, node, st, 'extend')

    def dict_init(self, d, args, kwargs, node, st):
        for a in args:
            self.dict_update(d, a, node, st, quiet=True)
        for k, v in kwargs.items():
            if k == '**':
                self.dict_update(d, v, node, st, quiet=True)
            else:
                its, r = self.cell(d, st)
                self.vreg[d.id] = d
                self.setcell(d, (tuple(self.dput(its, const(k), v)), r), st)

    def dict_update(self, d, a, node, st, quiet=False):
        a = self.resolve(a, st)
        if a.kind == 'obj' and '#dict' in self.cell(a, st)[1]:
            a = self.cell(a, st)[1]['#dict']
        self.vreg[d.id] = d

        def f(x, old):
            if isinstance(old, T):
                return mk('mut', old, 'update', (self.term(a, st),))
            its, r = old
            its = list(its)
            if a.kind == 'dict':
                ai, ar = self.cell(a, st)
                for k, v, cd in ai:
                    its = self.dput(its, k, v, cd)
                if ar is not None:
                    r = ar if r is None else self.phi(mk('unkcond', next(self.unkc)), r, ar)
            elif a.kind in ('list', 'tuple') and self.known_items(a, st) is not None:
                for p_ in self.known_items(a, st):
                    kv = self.known_items(p_, st)
                    if kv is not None and len(kv) == 2:
                        its = self.dput(its, self.term(kv[0], st), kv[1])
            else:
                z = self.val(mk('dictval', self.term(a, st)), shares=(a,))
                r = z if r is None else self.phi(mk('unkcond', next(self.unkc)), r, z)
            return (tuple(its), r)
        if quiet:
            self._mut(d, f, TRUE, st)
        else:
            self.mutate(d, f, node, st, 'update')

    def method(self, recv, name, args, kwargs, node, st):
        recv = self.resolve(recv, st)
        k = recv.kind
        if k == 'phi':
            kinds = self.phikinds(recv)
            if kinds != {'val'}:
                c, x, y = recv.cell
                return self.on_branches(c, st, lambda s: self.method(x, name, args, kwargs, node, s),
                                        lambda s: self.method(y, name, args, kwargs, node, s))
        if k == 'obj':
            cls, f = self.cell(recv, st)
            if '#dict' in f and cls.find(name, self.p) is None:
                return self.method(f['#dict'], name, args, kwargs, node, st)
            return self.call_value(self.getattr(recv, name, node, st), args, kwargs, node, st)
        if k == 'super':
            ob, cls = recv.cell
            # methods of repo base classes first
            for b in (cls.bases if cls else []):
                kk = self.p.resolve_class(cls.mod, b)
                if kk is not None:
                    m = kk.find(name, self.p)
                    if m:
                        return self.call_func(m, None, args, kwargs, node, st, self_v=ob)
            f = self.cell(ob, st)[1]
            if '#dict' in f:
                if name == '__init__':
                    self.dict_init(f['#dict'], args, kwargs, node, st)
                    return self.c(None)
                if name == '__setitem__':
                    self.setitem(f['#dict'], args[0], args[1], node, st)
                    return self.c(None)
                if name == '__getitem__':
                    return self.getitem(f['#dict'], args[0], node, st)
                return self.method(f['#dict'], name, args, kwargs, node, st)
            return self.c(None)
        if k in ('func', 'bound', 'cls', 'mod', 'partial', 'bmeth'):
            return self.call_value(self.getattr(recv, name, node, st), args, kwargs, node, st)
        if k in ('list', 'tuple', 'set'):
            return self.list_method(recv, name, args, kwargs, node, st)
        if k == 'dict':
            return self.dict_method(recv, name, args, kwargs, node, st)
        # library value
        t = self.term(recv, st)
        if t.op == 'ext':
            return self.ext_call(mk('ext', t.a[0] + '.' + name), None, args, kwargs, node, st)
        at = [self.term(a, st) for a in args]
        kt = [(kk if kk != '**' else '**', self.term(v, st)) for kk, v in kwargs.items()]
        lams, extra = self.callbacks(recv, name, args, kwargs, node, st)
        if lams:
            at = [lams.get(a.id, x) for a, x in zip(args, at)]
            kt = [(kk, lams.get(kwargs[kk].id, x)) for kk, x in kt]
        if name == 'pipe' and args and args[0].kind in ('func', 'bound', 'partial'):
            return self.call_value(args[0], [recv] + args[1:], kwargs, node, st)
        inpl = dict(kt).get('inplace')
        self.ev('mcall', node, st, recv=t, name=name, args=at, kwargs=kt, argv=args, kwv=kwargs, rv=recv)
        if name in MUT_METHODS_INPLACE and inpl is not None and inpl is not FALSE:
            kt2 = [x for x in kt if x[0] != 'inplace']
            self.mutate(recv, lambda x, old: B.mcall(old, name, at, kt2) if isinstance(old, T) else old, node, st, '.%s(inplace)' % name)
            return self.c(None)
        if name in MUT_METHODS_VAL and not (name in ('append', 'add', 'discard', 'remove', 'extend', 'pop') and self.vtype(t) in ('series', 'frame') and name == 'append'):
            if self.is_mutating(t, name):
                def fm(x, old):
                    if not isinstance(old, T):
                        return old
                    if name == 'insert' and len(at) >= 3 and B.is_frame(old):
                        return B.setcol(old, at[1], at[2])
                    return mk('mut', old, name, tuple(at))
                self.mutate(recv, fm, node, st, '.%s()' % name)
                return self.val(mk('mcall', t, name, tuple(at), tuple(sorted(kt))), shares=(recv,))
        if id(node) in self.discarded and name not in KNOWN_PURE and self.vtype(t) is None and \
                not any(x.op == 'ext' and x.a[0].startswith(('matplotlib', 'plotly')) for x in subterms(t)):
            # a method of an unmodelled object called for its effect
            self.mutate(recv, lambda x, old: mk('mut', old, name, tuple(at) + tuple(x for k_, v_ in sorted(kt) for x in (const(k_), v_))) if isinstance(old, T) else old, node, st, '.%s()' % name)
            return self.c(None)
        r = B.mcall(t, name, at, kt)
        if name in ('sample',) or (t.op == 'ext'):
            self.ev('rng', node, st, fn='pandas.sample', kwargs=kt)
        sh, ix = (), ()
        if name in VIEW_METHODS:
            sh = (recv,)
        if name == 'astype' and dict(kt).get('copy') is FALSE:
            sh = (recv,)
        if name in ('copy',):
            if dict(kt).get('deep') is FALSE or (at and at[0] is FALSE):
                sh, ix = (recv,), (recv,)
            else:
                return self.val(t)
        if name == 'rename' and dict(kt).get('copy') is FALSE:
            sh = (recv,)
        if name in IX_METHODS:
            ix = (recv,)
        return self.val(r, shares=sh, ix=ix)

    def is_mutating(self, t, name):
        """library-value methods that mutate their receiver"""
        if name == 'append':
            return True
        return True

    def callbacks(self, recv, name, args, kwargs, node, st):
        """repo functions passed into a library call: analyse them once on opaque arguments"""
        lams, extra = {}, None
        for a in list(args) + list(kwargs.values()):
            r = self.resolve(a, st)
            if r.kind in ('func', 'bound', 'partial'):
                fn = r.cell[0] if r.kind != 'partial' else None
                pos = []
                kk = {}
                rt = self.term(recv, st) if recv is not None else mk('lib')
                if r.kind == 'partial':
                    base, bargs, bkw = r.cell
                    fn = base.cell[0] if base.kind in ('func', 'bound') else None
                    if fn is None:
                        continue
                    skip = len(bargs)
                else:
                    skip = 0
                ps = list(fn.params)
                if r.kind == 'bound':
                    ps = ps[1:]
                ps = ps[skip:]
                bound_kw = set(r.cell[2]) if r.kind == 'partial' else set()
                ps = [q for q in ps if q not in bound_kw]
                # extra keyword arguments of apply/map style calls are forwarded to the callback
                if name in ('apply', 'map', 'agg', 'transform', 'aggregate', 'applymap'):
                    for q, v in kwargs.items():
                        if q in ps or q in fn.kwonly or fn.kwarg:
                            kk[q] = v
                if name.startswith('scipy.optimize.') and len(ps) > 1:
                    # extra arguments of the objective
                    av = kwargs.get('args', args[2] if len(args) > 2 else None)
                    if av is not None:
                        rv = self.resolve(av, st)
                        if rv.kind == 'tuple' and isinstance(rv.cell, tuple) and len(rv.cell) == len(ps) - 1:
                            kk.update(zip(ps[1:], rv.cell))
                        elif rv.kind != 'tuple' and len(ps) == 2:
                            kk[ps[1]] = av
                for q in ps:
                    if q in kk or q in fn.defaults:
                        continue
                    pos.append(self.val(mk('lamarg', rt, name, q), shares=(recv,) if recv is not None else ()))
                try:
                    s2 = self.branch(mk('callback', self.site(node)), True, st)
                    names = {q: p_ for q, p_ in zip([q for q in ps if q not in kk and q not in fn.defaults], pos)}
                    names.update(kk)
                    v = self.call_value(r, [], names, node, s2)
                    bt = self.term(v, s2)
                    # keep effects on shared objects
                    for key, cell in s2.store.items():
                        if key[0] == 'h' and st.store.get(key) is not cell:
                            vv = self.vreg.get(key[1])
                            if vv is not None and key in st.store or vv is not None:
                                st.store[key] = self.mergecell(mk('callback', self.site(node)), cell, st.store.get(key, vv.cell), st, st)
                    lams[a.id] = mk('lam', mk('func', fn.qual), bt)
                except Dead:
                    lams[a.id] = mk('lam', mk('func', fn.qual), mk('raises'))
        return lams, extra

    def list_method(self, v, name, args, kwargs, node, st):
        items, rest = self.cell(v, st)
        if name == 'append' and args:
            x = args[0]

            def f(o, old):
                its, r = old
                if r is None:
                    return (its + (x,), None)
                ot = getattr(old, 't', None)
                if r is x and ot is None:
                    return old
                return LC.of((its, r if r is x else self.phi(mk('unkcond', self.site(node)), r, x)), mk('lappend', ot, self.term(x, st)) if ot is not None else None)
            self.mutate(v, f, node, st, 'append')
            return self.c(None)
        if name == 'extend':
            self.list_extend(v, args[0], node, st)
            return self.c(None)
        if name in ('insert', 'add'):
            x = args[-1]
            i = B.num(self.term(args[0], st)) if name == 'insert' else None

            def f(o, old):
                its, r = old
                if r is None and (name == 'add' or isinstance(i, int)):
                    l = list(its)
                    l.insert(i, x) if name == 'insert' else l.append(x)
                    return (tuple(l), None)
                ot = self.lterm(old, st)
                return LC.of((its, x if r is None else self.phi(mk('unkcond', self.site(node)), r, x)),
                             mk('lmut', ot, name, tuple(self.term(a, st) for a in args)) if ot is not None else None)
            self.mutate(v, f, node, st, name)
            return self.c(None)
        if name == 'pop':
            i = B.num(self.term(args[0], st)) if args else -1
            res = items[i] if rest is None and items and isinstance(i, int) and -len(items) <= i < len(items) else (self.elem(v, st, node) if items or rest else self.unk('pop'))

            def f(o, old):
                its, r = old
                if r is None and isinstance(i, int) and -len(its) <= i < len(its):
                    l = list(its)
                    l.pop(i)
                    return (tuple(l), None)
                ot = self.lterm(old, st)
                return LC.of(old, mk('lmut', ot, name, tuple(self.term(a, st) for a in args)) if ot is not None else None)
            self.mutate(v, f, node, st, name)
            return res
        if name in ('sort', 'reverse', 'remove', 'clear', 'discard', 'update', 'difference_update', 'intersection_update'):
            def f(o, old):
                its, r = old
                if name == 'clear':
                    return ((), None)
                if name == 'reverse' and r is None:
                    return (tuple(reversed(its)), None)
                if name == 'update':
                    e = self.elem(args[0], st, node)
                    ks = self.known_items(args[0], st)
                    if ks is not None and r is None:
                        return (its + tuple(ks), None)
                    ot = self.lterm(old, st)
                    return LC.of((its, e if r is None else self.phi(mk('unkcond', self.site(node)), r, e)),
                                 mk('lmut', ot, name, tuple(self.term(a, st) for a in args)) if ot is not None else None)
                if name == 'remove' and r is None and args:
                    tt = self.term(args[0], st)
                    l = list(its)
                    for z in l:
                        if self.term(z, st) is tt:
                            l.remove(z)
                            return (tuple(l), None)
                if name == 'sort' and r is None and len(its) < 2:
                    return old
                ot = self.lterm(old, st)
                if r is None and its and ot is not None:
                    z0 = its[0]
                    for z in its[1:]:
                        z0 = self.phi(mk('unkcond', next(self.unkc)), z0, z)
                    old = ((), z0)
                return LC.of(old, mk('lmut', ot, name, tuple(self.term(a, st) for a in args)) if ot is not None else None)
            self.mutate(v, f, node, st, name)
            return self.c(None)
        if name == 'copy':
            return V(v.kind, self.cell(v, st))
        if v.kind == 'set' and name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            return V('set', ((), self.elem(v, st, node) if (items or rest) else self.unk('set')))
        t = self.term(v, st)
        return self.val(B.mcall(t, name, [self.term(a, st) for a in args], [(k, self.term(x, st)) for k, x in kwargs.items()]))

    def dict_method(self, v, name, args, kwargs, node, st):
        items, rest = self.cell(v, st)
        if name == 'get':
            kt = self.term(args[0], st)
            dflt = args[1] if len(args) > 1 else kwargs.get('default', self.c(None))
            for k, x, cd in items:
                if k is kt:
                    self.ev('dread', node, st, d=v, key=k, present=cd)
                    return self.phi(cd, x, dflt) if self.fact(cd, st) is not True else x
            if rest is None and kt.op == 'const' and all(k.op == 'const' for k, _, _ in items):
                return dflt
            if rest is None and items:
                out = dflt
                for k, x, cd in reversed(items):
                    out = self.phi(tand(B.cmp('==', kt, k), cd), x, out)
                return out
            return self.phi(mk('haskey', self.term(v, st), kt), self.val(mk('sub', self.term(v, st), kt), shares=(rest,) if rest else ()), dflt)
        if name == 'keys':
            if rest is None and all(cd is TRUE or self.fact(cd, st) is True for _, _, cd in items):
                return V('list', (tuple(self.val(k) for k, _, _ in items), None))
            return self.val(mk('keys', self.term(v, st)))
        if name == 'values':
            if rest is None and all(cd is TRUE or self.fact(cd, st) is True for _, _, cd in items):
                return V('list', (tuple(x for _, x, _ in items), None))
            r = rest
            for _, x, _ in items:
                r = x if r is None else self.phi(mk('unkcond', next(self.unkc)), r, x)
            return V('list', ((), r)) if r is not None else V('list', ((), None))
        if name == 'items':
            if rest is None and all(cd is TRUE or self.fact(cd, st) is True for _, _, cd in items):
                return V('list', (tuple(V('tuple', ((self.val(k), x), None)) for k, x, _ in items), None))
            r = rest
            for _, x, _ in items:
                r = x if r is None else self.phi(mk('unkcond', next(self.unkc)), r, x)
            if r is None:
                return V('list', ((), None))
            return V('list', ((), V('tuple', ((self.val(mk('elem', mk('keys', self.term(v, st)))), r), None))))
        if name == 'update':
            for a in args:
                self.dict_update(v, a, node, st)
            if kwargs:
                kd = V('dict', (tuple((const(k), x, TRUE) for k, x in kwargs.items() if k != '**'), None))
                self.dict_update(v, kd, node, st)
                if '**' in kwargs:
                    self.dict_update(v, kwargs['**'], node, st)
            return self.c(None)
        if name == 'setdefault':
            kt = self.term(args[0], st)
            d = args[1] if len(args) > 1 else self.c(None)
            for k, x, cd in items:
                if k is kt and self.fact(cd, st) is True:
                    return x

            def f(o, old):
                its, r = old
                if kt.op == 'const':
                    for k, x, cd in its:
                        if k is kt:
                            return (tuple(self.dput(its, kt, self.phi(cd, x, d))), r)
                    return (tuple(self.dput(its, kt, d)), r)
                return (its, d if r is None else self.phi(mk('unkcond', self.site(node)), r, d))
            self.mutate(v, f, node, st, name)
            for k, x, cd in self.cell(v, st)[0]:
                if k is kt:
                    return x
            return d
        if name in ('pop', 'clear', 'popitem'):
            res = self.unk('pop')
            if name == 'pop' and args:
                kt = self.term(args[0], st)
                res = args[1] if len(args) > 1 else None
                for k, x, cd in items:
                    if k is kt:
                        res = x if cd is TRUE or res is None else self.phi(cd, x, res)
                if res is None:
                    res = self.val(mk('sub', self.term(v, st), kt), shares=(rest,) if rest else ())

            def f(o, old):
                its, r = old
                if name == 'clear':
                    return ((), None)
                if name == 'pop' and args:
                    return (tuple(q for q in its if q[0] is not kt), r)
                return old
            self.mutate(v, f, node, st, name)
            return res
        if name == 'copy':
            return V('dict', (items, rest))
        t = self.term(v, st)
        return self.val(B.mcall(t, name, [self.term(a, st) for a in args], [(k, self.term(x, st)) for k, x in kwargs.items()]))

    def ext_call(self, ft, fv, args, kwargs, node, st):
        name = ft.a[0] if ft.op == 'ext' else None
        self.ext_sites.add((id(node)))
        h = getattr(self, 'x_' + name.replace('.', '_'), None) if name else None
        if h is not None:
            r = h(args, kwargs, node, st)
            if r is not None:
                return r
        at = [self.term(a, st) for a in args]
        kt = [(k, self.term(v, st)) for k, v in kwargs.items()]
        lams, _ = self.callbacks(None, name or '', args, kwargs, node, st)
        if lams:
            at = [lams.get(a.id, x) for a, x in zip(args, at)]
            kt = [(k, lams.get(kwargs[k].id, x)) for k, x in kt]
        if name and (name.startswith('numpy.random.') or name.startswith('random.') or name.startswith('scipy.stats.') and name.endswith('.rvs')):
            self.ev('rng', node, st, fn=name, args=at, kwargs=kt)
            kt.append(('#site', const(self.site(node))))
        self.ev('ext', node, st, name=name, f=ft, args=at, kwargs=kt, argv=args, kwv=kwargs)
        if name in MUT_FUNCS and args:
            a = args[MUT_FUNCS[name]]
            self.mutate(a, lambda x, old: mk('mut', old, name, tuple(at)) if isinstance(old, T) else old, node, st, name)
        out = kwargs.get('out')
        if out is not None:
            self.mutate(out, lambda x, old: mk('mut', old, name, tuple(at)) if isinstance(old, T) else old, node, st, 'out=')
        t = B.call(ft, at, kt)
        sh, ix = (), ()
        if name in VIEW_FUNCS:
            d = dict(kt)
            if not (d.get('copy') is TRUE or name == 'pandas.DataFrame' and args and args[0].kind in ('dict', 'list') and d.get('copy') is not FALSE):
                src = args[0] if args else kwargs.get('data')
                if src is not None and not (name == 'pandas.DataFrame' and self.vtype(self.term(src, st)) == 'series'):
                    sh = (src,)
                ix = tuple(x for x in [src, kwargs.get('index'), args[1] if len(args) > 1 else None] if x is not None and x.kind in ('val', 'phi'))
            elif 'index' in kwargs:
                ix = (kwargs['index'],)
            elif name == 'pandas.DataFrame' and args[0].kind == 'dict':
                # the frame takes over the index object of its first series
                for _, x, _ in self.cell(args[0], st)[0]:
                    if self.vtype(self.term(x, st)) == 'series':
                        ix = (x,)
                        break
        if name == 'numpy.array' and dict(kt).get('copy') is FALSE and args:
            sh = (args[0],)
        if name in ('numpy.nan_to_num',) and dict(kt).get('copy') is FALSE:
            self.mutate(args[0], lambda x, old: mk('mut', old, name, tuple(at)) if isinstance(old, T) else old, node, st, 'nan_to_num(copy=False)')
        if name in ('copy.copy',):
            sh = tuple(args)
        if t.op in ('bin', 'cmp', 'abs', 'where', 'clip', 'not', 'and', 'or', 'isna'):
            ix = tuple(args)
        return self.val(t, shares=sh, ix=ix)

    # ---- builtins
    def x_builtins_isinstance(self, args, kwargs, node, st):
        v = self.resolve(args[0], st)
        ct = self.term(args[1], st)
        names = [ct] if ct.op not in ('tuple',) else list(ct.a[0])
        nm = [x.a[0] if x.op in ('ext', 'cls') else None for x in names]
        if v.kind == 'phi':
            c, a, b = v.cell
            return self.phi(c, self.x_builtins_isinstance([a, args[1]], {}, node, st), self.x_builtins_isinstance([b, args[1]], {}, node, st))
        kind = {'dict': 'builtins.dict', 'list': 'builtins.list', 'tuple': 'builtins.tuple', 'set': 'builtins.set'}.get(v.kind)
        if kind and all(nm):
            return self.c(kind in nm)
        if v.kind == 'obj':
            cls = self.cell(v, st)[0]
            base = [b.id for b in cls.bases if isinstance(b, ast.Name)]
            return self.c(cls.name in nm or any('builtins.' + b in nm for b in base))
        if v.kind == 'val':
            t = self.term(v, st)
            if t.op == 'const' and all(nm):
                py = {'str': 'builtins.str', 'int': 'builtins.int', 'float': 'builtins.float', 'bool': 'builtins.bool', 'NoneType': 'none'}[type(t.a[0]).__name__] if type(t.a[0]).__name__ in ('str', 'int', 'float', 'bool', 'NoneType') else None
                if py:
                    return self.c(py in nm or (py == 'builtins.bool' and 'builtins.int' in nm))
            if any(x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'builtins.type' and x.a[1] and x.a[1][0] is NONE for x in names) and len(names) == 1:
                return self.val(B.isnone(t))
            want = None
            if t.op == 'param':
                want = {'series': 'pandas.Series', 'frame': 'pandas.DataFrame', 'ndarray': 'numpy.ndarray', 'index': 'pandas.DatetimeIndex'}.get(self.ptypes.get(t.a[0]))
            elif t.op == 'call' and t.a[0].op == 'ext':
                want = {'pandas.Series': 'pandas.Series', 'pandas.DataFrame': 'pandas.DataFrame', 'pandas.date_range': 'pandas.DatetimeIndex'}.get(t.a[0].a[0])
            if want and all(nm) and all(x.startswith(('pandas.', 'numpy.', 'builtins.')) for x in nm):
                if want in nm:
                    return self.c(True)
                if not any(x in ('pandas.Index', 'builtins.object') for x in nm):
                    return self.c(False)
            if t.op == 'td' and all(nm):
                return self.c(any(x and x.endswith('Timedelta') for x in nm))
            r = mk('isinst', t, tuple(sorted(x for x in nm if x)) if all(nm) else ct)
            f = self.fact(r, st)
            return self.c(f) if f is not None else self.val(r)
        return None

    def x_builtins_hasattr(self, args, kwargs, node, st):
        v = self.resolve(args[0], st)
        n = self.term(args[1], st)
        if v.kind == 'obj' and n.op == 'const':
            cls, f = self.cell(v, st)
            if '#havoc' in f and n.a[0] not in f:
                return self.val(mk('hasattr', n))
            ok = n.a[0] in f or cls.find(n.a[0], self.p) or cls.find(n.a[0], self.p, 'props') or cls.find(n.a[0], self.p, 'attrs') is not None
            return self.c(bool(ok))
        return None

    def x_builtins_getattr(self, args, kwargs, node, st):
        n = self.term(args[1], st)
        if n.op == 'const':
            v = self.resolve(args[0], st)
            if len(args) > 2 and v.kind == 'obj':
                h = self.x_builtins_hasattr(args[:2], {}, node, st)
                if h is not None and self.term(h, st) is FALSE:
                    return args[2]
            return self.getattr(args[0], n.a[0], node, st)
        if args[1].kind == 'phi' or n.op == 'ite':
            c = n.a[0]
            if n.a[1].op == 'const' or n.a[2].op == 'const' or n.a[1].op == 'ite':
                return self.on_branches(c, st, lambda s: self.x_builtins_getattr([args[0], self.val(n.a[1])] + args[2:], {}, node, s),
                                        lambda s: self.x_builtins_getattr([args[0], self.val(n.a[2])] + args[2:], {}, node, s))
        return self.val(mk('getattr', self.term(args[0], st), n), shares=(args[0],))

    def x_builtins_setattr(self, args, kwargs, node, st):
        n = self.term(args[1], st)
        if n.op == 'const':
            self.setattr(args[0], n.a[0], args[2], node, st)
            return self.c(None)
        if n.op == 'ite':
            self.on_branches(n.a[0], st, lambda s: self.x_builtins_setattr([args[0], self.val(n.a[1]), args[2]], {}, node, s),
                             lambda s: self.x_builtins_setattr([args[0], self.val(n.a[2]), args[2]], {}, node, s))
            return self.c(None)
        self.note(node, 'setattr with unknown name')
        return self.c(None)

    def x_builtins_len(self, args, kwargs, node, st):
        ks = None
        v = self.resolve(args[0], st)
        if v.kind in ('list', 'tuple', 'dict', 'set', 'obj'):
            ks = self.known_items(v, st)
        if ks is not None and v.kind != 'set':
            return self.c(len(ks))
        return None

    def _seq(self, kind, args, node, st):
        if not args:
            return V(kind, ((), None))
        v = self.resolve(args[0], st)
        ks = self.known_items(v, st)
        if ks is not None:
            if v.kind == 'set' and len(ks) > 1 and kind != 'set':
                self.iter_event(v, node, st)
            return V(kind, (tuple(ks), None))
        if v.kind in ('list', 'tuple', 'set'):
            if v.kind == 'set' and kind != 'set':
                self.iter_event(v, node, st)
            items, rest = self.cell(v, st)
            return V(kind, (items, rest))
        if kind == 'set':
            return V('set', ((), self.elem(v, st, node)))
        return self.val(mk('seq', kind, self.term(v, st)), shares=())

    def x_builtins_list(self, args, kwargs, node, st):
        return self._seq('list', args, node, st)

    def x_builtins_tuple(self, args, kwargs, node, st):
        return self._seq('tuple', args, node, st)

    def x_builtins_set(self, args, kwargs, node, st):
        return self._seq('set', args, node, st)

    x_builtins_frozenset = x_builtins_set

    def x_builtins_dict(self, args, kwargs, node, st):
        d = V('dict', ((), None))
        self.dict_init(d, args, kwargs, node, st)
        return V('dict', self.cell(d, st))

    x_collections_OrderedDict = x_builtins_dict

    def x_builtins_sorted(self, args, kwargs, node, st):
        v = self.resolve(args[0], st)
        ks = self.known_items(v, st)
        if ks is not None and not kwargs:
            ts = [self.term(x, st) for x in ks]
            if all(t.op == 'const' for t in ts):
                try:
                    return V('list', (tuple(self.c(x) for x in sorted(t.a[0] for t in ts)), None))
                except TypeError:
                    pass
        e = self.elem(v, st, node)
        return self.val(mk('sorted', self.term(v, st) if v.kind != 'set' else mk('set_of', self.term(e, st))))

    def x_builtins_zip(self, args, kwargs, node, st):
        ks = [self.known_items(a, st) for a in args]
        if args and all(k is not None for k in ks):
            return V('list', (tuple(V('tuple', (t, None)) for t in zip(*ks)), None))
        el = tuple(self.elem(a, st, node) for a in args)
        return V('list', ((), V('tuple', (el, None))))

    def x_builtins_enumerate(self, args, kwargs, node, st):
        ks = self.known_items(args[0], st)
        s0 = B.num(self.term(args[1] if len(args) > 1 else kwargs.get('start', self.c(0)), st))
        if ks is not None and isinstance(s0, int):
            return V('list', (tuple(V('tuple', ((self.c(i + s0), x), None)) for i, x in enumerate(ks)), None))
        return V('list', ((), V('tuple', ((self.val(mk('pos', self.term(args[0], st))), self.elem(args[0], st, node)), None))))

    def x_builtins_reversed(self, args, kwargs, node, st):
        ks = self.known_items(args[0], st)
        if ks is not None:
            return V('list', (tuple(reversed(ks)), None))
        return None

    def x_builtins_map(self, args, kwargs, node, st):
        ks = self.known_items(args[1], st) if len(args) == 2 else None
        if ks is not None:
            return V('list', (tuple(self.call_value(args[0], [x], {}, node, st) for x in ks), None))
        if len(args) >= 2:
            el = [self.elem(a, st, node) for a in args[1:]]
            return V('list', ((), self.call_value(args[0], el, {}, node, st)))
        return None

    def x_functools_partial(self, args, kwargs, node, st):
        return V('partial', (args[0], list(args[1:]), dict(kwargs)))

    def x_functools_reduce(self, args, kwargs, node, st):
        ks = self.known_items(args[1], st)
        if ks is not None:
            acc = args[2] if len(args) > 2 else None
            for x in ks:
                acc = x if acc is None else self.call_value(args[0], [acc, x], {}, node, st)
            return acc
        return None

    def x_functools_wraps(self, args, kwargs, node, st):
        return None

    def x_copy_deepcopy(self, args, kwargs, node, st):
        return self.deepcopy(args[0], st)

    def deepcopy(self, v, st, d=0):
        v = self.resolve(v, st)
        if v.kind in ('list', 'tuple', 'set'):
            items, rest = self.cell(v, st)
            return V(v.kind, (tuple(self.deepcopy(x, st, d + 1) for x in items), self.deepcopy(rest, st, d + 1) if rest is not None else None))
        if v.kind == 'dict':
            items, rest = self.cell(v, st)
            return V('dict', (tuple((k, self.deepcopy(x, st, d + 1), c) for k, x, c in items), self.deepcopy(rest, st, d + 1) if rest is not None else None))
        if v.kind == 'obj':
            cls, f = self.cell(v, st)
            return V('obj', (cls, {k: (self.deepcopy(x, st, d + 1) if isinstance(x, V) else x) for k, x in f.items()}))
        if v.kind in ('val', 'phi'):
            return self.val(self.term(v, st))
        return v

    def x_copy_copy(self, args, kwargs, node, st):
        v = self.resolve(args[0], st)
        if v.kind in ('list', 'dict', 'set', 'obj', 'tuple'):
            return V(v.kind, self.cell(v, st))
        return None

    def x_warnings_warn(self, args, kwargs, node, st):
        self.ev('warn', node, st, args=[self.term(a, st) for a in args])
        return self.c(None)

    def x_builtins_super(self, args, kwargs, node, st):
        return V('super', (self.frame.self_v, self.frame.fn.cls))

    def x_builtins_callable(self, args, kwargs, node, st):
        v = self.resolve(args[0], st)
        if v.kind in ('func', 'bound', 'partial', 'cls'):
            return self.c(True)
        return None

    def x_builtins_type(self, args, kwargs, node, st):
        v = self.resolve(args[0], st)
        if v.kind == 'obj':
            return V('cls', self.cell(v, st)[0])
        return None

    def x_builtins_print(self, args, kwargs, node, st):
        self.ev('print', node, st)
        return self.c(None)

    def x_builtins_sum(self, args, kwargs, node, st):
        ks = self.known_items(args[0], st)
        if ks is not None and len(args) == 1 and ks:
            acc = ks[0]
            for x in ks[1:]:
                acc = self.bin('+', acc, x, st, node)
            return acc
        return None

    def x_builtins_any(self, args, kwargs, node, st):
        return self._anyall(args, st, tor)

    def x_builtins_all(self, args, kwargs, node, st):
        return self._anyall(args, st, tand)

    def _anyall(self, args, st, comb):
        ks = self.known_items(args[0], st)
        if ks is not None:
            return self.val(comb(*[self.truth(x, st) for x in ks]))
        return None

    def x_builtins_iter(self, args, kwargs, node, st):
        return args[0]

    def x_builtins_bool(self, args, kwargs, node, st):
        return self.val(self.truth(args[0], st)) if len(args) == 1 else None


_modfns = {}


def _modfn(mod):
    if mod.name not in _modfns:
        n = ast.parse('def module(): pass').body[0]
        _modfns[mod.name] = Func(mod, '<module>', n)
    return _modfns[mod.name]
