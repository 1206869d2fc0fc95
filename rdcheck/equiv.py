"""Equality of value-flow terms modulo an equational theory.

Terms are numbered by *random interpretation* (Gulwani & Necula): arithmetic, comparisons, boolean
algebra, selection (where / filt / ite), NaN and row-presence are interpreted over a small exact
domain, every other operator is an uninterpreted function realised by hashing.  Equal numbers on
all seeds = equal terms.  Nothing of the analysed program is executed: the input is the extracted
graph.  Unequal terms are only reported as a difference when the difference is *located* at
constructs whose meaning the theory knows; otherwise the answer is UNK."""
import functools
import hashlib
import math
from fractions import Fraction
from .terms import *
from . import build as B

R = 12
NSEEDS = 40
EQ, NE, UNK = 'EQ', 'NE', 'UNK'


class _Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NAN, MISS = _Tok('NaN'), _Tok('absent')
INF = float('inf')
NUMT = (Fraction, float)


class Vec(tuple):
    """one value per abstract row"""


class Arr(tuple):
    """an array of known length"""


def h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'big')


SMALL = [Fraction(i - 2) for i in range(7)]


@functools.lru_cache(None)
def frac(n, d):
    return Fraction(n, d)


def rnd(k):
    """hash -> number; often small so that ties and boundaries occur"""
    m = k % 8
    k //= 8
    if m < 5:
        return SMALL[k % 7]
    if m < 7:
        return frac(k % 1000 + 1, (k // 1000) % 37 + 1)
    return -frac(k % 1000 + 1, (k // 1000) % 37 + 1)


SCALAR_HINT = set()


def exact(v):
    """the number meant by a float constant, up to rounding of folded arithmetic"""
    f = Fraction(v)
    g = f.limit_denominator(10 ** 6)
    if abs(g - f) <= abs(f) * Fraction(1, 10 ** 12):
        return g
    return Fraction(format(float(v), '.12g'))


class Eval:
    def __init__(self, seed, scalars=(), nan=True, positive=(), bools=(), mode=0):
        self.seed, self.scalars, self.nan = seed, set(scalars), nan
        self.mode = mode
        self._m1 = None
        self.positive = set(positive)
        self.memo = {}
        self.bools = bools

    def clone(self):
        return Eval(self.seed, self.scalars, self.nan, self.positive, self.bools, self.mode)

    def m1(self):
        """evaluator in which a loop variable is known by its initial value only"""
        if self.mode == 1:
            return self
        if self._m1 is None:
            self._m1 = Eval(self.seed, self.scalars, self.nan, self.positive, self.bools, 1)
        return self._m1

    def mu(self, t):
        d = MU.get((t.a[0], t.a[1]))
        if d is None:
            return self.free('mu', vec=True)
        init, step, it = d
        if self.mode == 1:
            return self.free('mu', self.run(init), vec=True)
        e = self.m1()
        return self.free('mu', e.run(init), e.run(step), e.run(it), vec=True)

    # leaf values
    def leaf(self, key, vec, positive=False):
        if not vec:
            k = h(self.seed, key)
            v = rnd(k)
            return abs(v) + Fraction(1, 3) if positive else v
        out = []
        for r in range(R):
            k = h(self.seed, key, r)
            if self.nan and (k >> 40) % 9 == 0:
                out.append(NAN)
            else:
                out.append(rnd(k))
        return Vec(out)

    def fp(self, v):
        if isinstance(v, Vec):
            f = v.__dict__.get('f')
            if f is None:
                f = v.f = ('V', h(tuple(self.fp(x) for x in v)))
            return f
        if isinstance(v, (tuple, list)):
            return ('t',) + tuple(self.fp(x) for x in v)
        if (type(v) is Fraction):
            return (v.numerator, v.denominator)
        if isinstance(v, bool):
            return ('b', v)
        if isinstance(v, float):
            return ('f', repr(v))
        return repr(v)

    def run(self, t):
        memo = self.memo
        st = [(t, False)]
        while st:
            x, done = st.pop()
            if x.id in memo:
                continue
            if done:
                v = self.node(x)
                if x.op == 'sub' and B.record_bool(x):
                    v = self.lift(lambda y: False if y is NAN else self.tob(y), v)
                memo[x.id] = v
            else:
                st.append((x, True))
                for k in kids(x):
                    if k.id not in memo:
                        st.append((k, False))
        return memo[t.id]

    # lifting
    def lift(self, f, *vs):
        if any(isinstance(v, Vec) for v in vs):
            return Vec(f(*[v[r] if isinstance(v, Vec) else v for v in vs]) for r in range(R))
        n = {len(v) for v in vs if type(v) is Arr}
        if len(n) == 1:
            return Arr(f(*[v[r] if type(v) is Arr else v for v in vs]) for r in range(n.pop()))
        return f(*vs)

    def free(self, *key, vec=False):
        k = tuple(self.fp(x) if not isinstance(x, str) else x for x in key)
        hk = h(self.seed, k)
        if vec:
            return Vec(rnd(h(hk, r)) if (h(hk, r, 'n') % 9 or not self.nan) else NAN for r in range(R))
        return rnd(hk)

    def times(self, k):
        """timestamps: never missing, on a calendar scale that varies with the seed"""
        unit = (60, 3600, 86400, 86400 * 30, 86400 * 91, 86400 * 365)[h(self.seed, 'unit') % 6]
        if h(self.seed, 'sorted') % 4:
            out, t = [], Fraction(0)
            for r in range(R):
                t += Fraction(unit * (h(k, r) % 9 + 1), 6 if h(k, r, 1) % 3 else 2)
                out.append(t)
            return Vec(out)
        return Vec(Fraction(unit * (h(k, r) % 14)) + Fraction(h(k, r, 1) % 2 * unit, 3) for r in range(R))

    def numv(self, x):
        if x is True:
            return Fraction(1)
        if x is False:
            return Fraction(0)
        return x

    def arith(self, op, a, b):
        if a is MISS or b is MISS:
            return MISS
        if a is NAN or b is NAN:
            return NAN
        a, b = self.numv(a), self.numv(b)
        ok = (type(a) in NUMT) and (type(b) in NUMT)
        if not ok:
            if (type(a) in NUMT) or (type(b) in NUMT) or a is None or b is None or True:
                if op in ('+', '*'):
                    fa, fb = sorted([repr(self.fp(a)), repr(self.fp(b))])
                    return rnd(h(self.seed, 'bin', op, fa, fb))
                return rnd(h(self.seed, 'bin', op, self.fp(a), self.fp(b)))
        try:
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = a * b
            elif op == '/':
                if b == 0:
                    return NAN
                r = a / b
            elif op == '//':
                if b == 0:
                    return NAN
                r = Fraction(a // b)
            elif op == '%':
                if b == 0:
                    return NAN
                r = a % b
            elif op == '**':
                if (type(b) is Fraction) and b.denominator == 1 and abs(b) <= 8 and not (a == 0 and b < 0):
                    r = a ** int(b)
                else:
                    return rnd(h(self.seed, 'pow', self.fp(a), self.fp(b)))
            else:
                return rnd(h(self.seed, 'bin', op, self.fp(a), self.fp(b)))
        except (OverflowError, ZeroDivisionError):
            return NAN
        if isinstance(r, float) and r != r:
            return NAN
        if (type(r) is Fraction) and (abs(r.numerator) > 10 ** 60 or r.denominator > 10 ** 60):
            r = rnd(h(self.seed, 'big', self.fp(r)))
        return r

    def compare(self, op, a, b):
        if a is MISS or b is MISS:
            return MISS
        if a is NAN or b is NAN:
            return False
        a, b = self.numv(a), self.numv(b)
        if op == '==':
            if type(a) is not type(b) and not ((type(a) in NUMT) and (type(b) in NUMT)):
                return bool(h(self.seed, 'eq', *sorted([repr(self.fp(a)), repr(self.fp(b))])) & 1) if self.symbolic(a, b) else False
            return a == b
        if (type(a) in NUMT) and (type(b) in NUMT):
            return a < b if op == '<' else a <= b
        return bool(h(self.seed, 'cmp', op, self.fp(a), self.fp(b)) & 1)

    def symbolic(self, a, b):
        return not (isinstance(a, str) and isinstance(b, str))

    def tob(self, x):
        if x is MISS:
            return MISS
        if x is NAN:
            return NAN
        if isinstance(x, bool):
            return x
        if (type(x) in NUMT):
            return bool(h(self.seed, 'truth', self.fp(x)) & 1)
        return bool(h(self.seed, 'truth', self.fp(x)) & 1)

    def selcond(self, c):
        """scalar condition"""
        if isinstance(c, bool):
            return c
        return bool(h(self.seed, 'cond', self.fp(c)) & 1)

    AGG = {'median', 'mean', 'sum', 'std', 'min', 'max', 'count', 'var'}
    EWISE = {'numpy.exp', 'numpy.log', 'numpy.sign', 'numpy.floor', 'numpy.ceil', 'numpy.sin', 'numpy.cos', 'numpy.radians',
             'numpy.log10', 'numpy.log1p', 'math.exp', 'builtins.int', 'builtins.float', 'numpy.deg2rad', 'numpy.round', 'builtins.round'}

    # statistics equivariant under scaling (by a positive / any factor) and under shifts
    EQUIV = {'median': (1, 1), 'mean': (1, 1), 'sum': (1, 0), 'std': (0, 0), 'min': (0, 1), 'max': (0, 1), 'quantile': (0, 1)}

    def equivariant(self, name, f, v):
        signed, shift = self.EQUIV[name]
        nums = [x for x in v if (type(x) is Fraction)]
        if not nums or any(not (type(x) is Fraction) and x is not NAN and x is not MISS for x in v):
            return f(v)
        base = nums[0] if shift else Fraction(0)
        scale = next((x - base for x in nums if x != base), None)
        if scale is None:
            return base if shift and not any(x is NAN for x in v) else f(v)
        if not signed:
            scale = abs(scale)
        if abs(scale.numerator) > 10 ** 60 or scale.denominator > 10 ** 60:
            return f(v)
        w = Vec((x - base) / scale if (type(x) is Fraction) else x for x in v)
        return base + scale * f(w)

    def node(self, t):
        o, a = t.op, t.a
        m = self.memo
        V = lambda x: m[x.id]
        if o == 'const':
            v = a[0]
            if isinstance(v, bool) or v is None or isinstance(v, str):
                return v
            if isinstance(v, int):
                return Fraction(v)
            if isinstance(v, float):
                if v != v:
                    return NAN
                if v in (INF, -INF):
                    return v
                return exact(v)
            return self.free('const', repr(v))
        if o == 'td':
            return exact(a[0])
        if o == 'param' or o == 'field':
            sc = a[0] in self.scalars
            if a[0] in self.bools:
                return bool(h(self.seed, 'b', a[0]) & 1)
            return self.leaf((o, a[0]), not sc, a[0] in self.positive)
        if o == 'ext':
            if a[0] in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'math.nan'):
                return NAN
            if a[0] in ('numpy.inf', 'math.inf', 'numpy.Inf'):
                return INF
            if a[0] in ('numpy.pi', 'math.pi'):
                return Fraction(314159265358979, 10 ** 14)
            return 'ext:' + a[0]
        if o == 'bin':
            x, y = V(a[1]), V(a[2])
            return self.lift(lambda p, q: self.arith(a[0], p, q), x, y)
        if o == 'cmp':
            return self.lift(lambda p, q: self.compare(a[0], p, q), V(a[1]), V(a[2]))
        if o in ('and', 'or'):
            isand = o == 'and'

            def f(*xs):
                if any(x is MISS for x in xs):
                    return MISS
                xs = [self.tob(x) for x in xs]
                xs = [False if x is NAN else x for x in xs]
                return all(xs) if isand else any(xs)
            return self.lift(f, *[V(x) for x in a])
        if o == 'not':
            def f(x):
                x = self.tob(x)
                if x is MISS or x is NAN:
                    return x
                return not x
            return self.lift(f, V(a[0]))
        if o == 'isna':
            return self.lift(lambda x: MISS if x is MISS else (x is NAN or x is None), V(a[0]))
        if o == 'isnone':
            v = V(a[0])
            if v is None:
                return True
            return bool(h(self.seed, 'none', self.fp(v)) % 3 == 0)
        if o == 'truth':
            v = V(a[0])
            if isinstance(v, Vec):
                return self.selcond(v)
            return self.tob(v)
        if o == 'ite':
            return V(a[1]) if self.selcond(V(a[0])) else V(a[2])
        if o == 'where':
            def f(c, x, y):
                if c is MISS:
                    return MISS if y is MISS or not (type(y) in NUMT) else y
                c = self.tob(c)
                if c is NAN:
                    c = False
                return x if c else y
            return self.lift(f, V(a[0]), V(a[1]), V(a[2]))
        if o == 'filt':
            c, x = V(a[1]), V(a[0])
            if isinstance(c, Vec):
                def f(x, c):
                    c = self.tob(c)
                    return x if c is True else MISS
                if isinstance(x, (Vec, Fraction, float, bool)) or x is NAN:
                    return self.lift(f, x, c)
                return self.free('filt', x, c, vec=True)
            return self.free('filt', x, c, vec=isinstance(x, Vec))
        if o == 'abs':
            def f(x):
                if (type(x) in NUMT):
                    return abs(x)
                return x
            return self.lift(f, V(a[0]))
        if o == 'clip':
            lo, hi = V(a[1]), V(a[2])

            def f(x, lo, hi):
                if not (type(x) in NUMT):
                    return x
                if (type(lo) in NUMT) and x < lo:
                    x = lo
                if (type(hi) in NUMT) and x > hi:
                    x = hi
                return x
            return self.lift(f, V(a[0]), lo, hi)
        if o in ('oncol',):
            return V(a[0])
        if o == 'setattr':
            if a[1] == 'name':
                return V(a[0])
            if isinstance(V(a[0]), tuple) and V(a[0])[:1] == ('F',):
                return ('F', self.free('setattr', a[1], V(a[0])[1], V(a[2])), V(a[0])[2])
            return self.free('setattr', a[1], V(a[0]), V(a[2]), vec=True)
        if o in ('list', 'tuple'):
            return tuple(V(x) for x in a[0])
        if o == 'set':
            return ('set',) + tuple(sorted((V(x) for x in a[0]), key=lambda v: repr(self.fp(v))))
        if o == 'dict':
            return ('dict',) + tuple(sorted(((V(k), V(v)) for k, v in a[0]), key=lambda p: repr(self.fp(p))))
        if o == 'setcol':
            return self.frame(t)
        if o == 'agg':
            v = V(a[1])
            kws = tuple((k, self.fp(V(x))) for k, x in a[3] if isinstance(x, T))
            ax = dict(a[3]).get('axis')
            isframe = B.is_frame(a[1])
            name = a[0]
            skip = a[2] if name not in ('median', 'mean', 'sum', 'std') or True else a[2]
            grouped = self.is_grouped(a[1])
            if isinstance(v, Vec) and not grouped and ax is None and not isframe and name in self.EQUIV:
                return self.equivariant(name, lambda w: self.free('agg', name, str(a[2]), w, kws), v)
            return self.free('agg', name, str(a[2] and not grouped), v, kws, vec=grouped or ax is not None or isframe)
        if o == 'quantile':
            q = V(a[1])
            x = V(a[0])
            grouped = self.is_grouped(a[0])
            ex = tuple((k, self.fp(V(z))) for k, z in a[3] if isinstance(z, T))
            if isinstance(q, tuple) and not isinstance(q, Vec):
                if isinstance(x, Vec) and not grouped:
                    return Arr(self.equivariant('quantile', lambda w: self.free('quantile', str(a[2]), w, z, ex), x) for z in q)
                return Arr(self.free('quantile', str(a[2]), x, z, ex, vec=grouped) for z in q)
            if isinstance(x, Vec) and not grouped:
                return self.equivariant('quantile', lambda w: self.free('quantile', str(a[2]), w, q, ex), x)
            return self.free('quantile', str(a[2]), x, q, ex, vec=grouped)
        if o == 'sub':
            b, i = V(a[0]), V(a[1])
            if isinstance(b, tuple) and not isinstance(b, Vec) and (type(i) is Fraction) and i.denominator == 1 and \
                    b[:1] not in (('dict',), ('set',), ('F',)) and -len(b) <= i < len(b):
                return b[int(i)]
            if isinstance(b, tuple) and b[:1] == ('dict',):
                for k, v in b[1:]:
                    if k == i:
                        return v
            if isinstance(b, tuple) and b[:1] == ('F',) and isinstance(i, str):
                d = dict(b[2])
                if i in d:
                    return d[i]
                return self.free('sub', b[1], i, vec=True)
            if isinstance(b, tuple) and b[:1] == ('F',) and isinstance(i, tuple) and not isinstance(i, Vec) and i and \
                    all(isinstance(x, str) for x in i):
                d = dict(b[2])
                if all(x in d for x in i):
                    return ('F', ('cols',) + tuple(i), tuple(sorted(((x, d[x]) for x in i), key=lambda p: repr(p[0]))))
            sc = a[1].op == 'const' and isinstance(a[1].a[0], (int,)) and not isinstance(a[1].a[0], bool)
            if sc and a[0].op == 'attr' and (a[0].a[1] in ('iloc', 'index', 'values')):
                x = V(a[0].a[0]) if a[0].a[1] == 'iloc' else b
                n = a[1].a[0]
                if isinstance(x, Vec):
                    y = [z for z in x if z is not MISS]
                    if -len(y) <= n < len(y):
                        return y[n]
            return self.free('sub', b, i, vec=not sc)
        if o == 'attr':
            v = V(a[0])
            if a[1] == 'values':
                return v
            if a[1] == 'index':
                return self.times(h(self.seed, 'index', self.fp(self.indexkey(a[0]))))
            if isinstance(v, tuple) and v[:1] == ('F',) and (a[1] not in B.PANDAS_ATTRS or a[1] in ('dt', 'str')):
                d = dict(v[2])
                return d[a[1]] if a[1] in d else self.free('sub', v[1], a[1], vec=True)
            return self.free('attr', a[1], v, vec=True)
        if o == 'rowsel':
            w = V(a[1])
            if isinstance(w, tuple) and w[:1] == ('F',):
                w = w[1]
            return self.free('rowsel', V(a[0]), w, vec=True)
        if o == 'fillall':
            return V(a[1])
        if o == 'mcall':
            return self.mcall(t)
        if o == 'call':
            return self.call(t)
        if o == 'unkcond' or o == 'exc' or o == 'callback':
            return bool(h(self.seed, o, tuple(str(x) for x in a)) & 1)
        if o in ('haskey', 'in', 'isinst', 'hasattr'):
            return bool(h(self.seed, o, tuple(self.fp(V(x)) if isinstance(x, T) else repr(x) for x in a)) & 1)
        if o == 'fmt':
            return 'fmt:' + repr(tuple(self.fp(V(x)) for x in a))
        if o == 'slice':
            return ('slice',) + tuple(V(x) for x in a)
        if o == 'lam':
            return self.free('lam', V(a[1]))
        if o == 'while':
            return self.free('while', V(a[0]))
        if o == 'loop':
            # closed by its step function: independent of the numbering of the loop
            return self.free('loop', V(a[2]), V(a[3]), V(a[4]), vec=True)
        if o == 'mu':
            return self.mu(t)
        if o == 'loopval':
            return self.free('loopval', V(a[1]), vec=True)
        if o == 'iter':
            d = MU.get((a[0], '#iter'))
            return bool(h(self.seed, 'iter', self.fp(self.m1().run(d[2])) if d else str(a)) & 1)
        if o == 'if':
            return self.free('if', V(a[0]), V(a[1]), vec=True)
        if o == 'lamarg':
            return self.free('lamarg', V(a[0]), str(a[1]), vec=True)
        key = tuple(V(x) if isinstance(x, T) else (tuple(V(y) if isinstance(y, T) else repr(y) for y in x) if isinstance(x, tuple) else str(x)) for x in a)
        return self.free(o, key, vec=True)

    def indexkey(self, t):
        """value identifying the index object a row-aligned computation carries"""
        n = 0
        while n < 200:
            n += 1
            o = t.op
            if o in ('oncol',):
                t = t.a[1]
            elif o in ('setcol',):
                t = t.a[0]
            elif o == 'setattr' and t.a[1] == 'name':
                t = t.a[0]
            elif o == 'where' and t.a[2].op not in ('const', 'ext'):
                t = t.a[2]
            elif o == 'bin' and num_like(t.a[2]) and not num_like(t.a[1]):
                t = t.a[1]
            elif o == 'bin' and num_like(t.a[1]) and not num_like(t.a[2]):
                t = t.a[2]
            elif o in ('abs', 'clip', 'isna', 'not'):
                t = t.a[0]
            elif o == 'cmp' and num_like(t.a[2]):
                t = t.a[1]
            elif o == 'cmp' and num_like(t.a[1]):
                t = t.a[2]
            elif o == 'mcall' and t.a[1] in ('fillna', 'astype', 'to_frame', 'ffill', 'bfill', 'shift', 'diff', 'cumsum', 'interpolate', 'round'):
                t = t.a[0]
            else:
                break
        return self.run(t) if t.id not in self.memo else self.memo[t.id]

    def is_grouped(self, t):
        n = 0
        while n < 30:
            n += 1
            if t.op == 'mcall' and t.a[1] in ('resample', 'rolling', 'groupby', 'expanding', 'ewm'):
                return True
            if t.op in ('sub', 'attr') and isinstance(t.a[0], T):
                t = t.a[0]
                continue
            return False
        return False

    def frame(self, t):
        cols = {}
        while t.op == 'setcol':
            k = self.memo[t.a[1].id]
            kk = k if isinstance(k, str) else self.fp(k)
            if kk not in cols:
                cols[kk] = self.memo[t.a[2].id]
            t = t.a[0]
        base = self.run(t)
        if isinstance(base, tuple) and base[:1] == ('F',):
            for k, v in base[2]:
                cols.setdefault(k, v)
            base = base[1]
        return ('F', base, tuple(sorted(cols.items(), key=lambda p: repr(p[0]))))

    def mcall(self, t):
        r, name, args, kws = t.a
        V = lambda x: self.memo[x.id]
        rv = V(r)
        kd = {k: V(v) for k, v in kws}
        av = tuple(V(x) for x in args)
        if isinstance(rv, tuple) and rv[:1] == ('F',) and not args and self.rowop(name, kd):
            # row operations act on every column alike, steered by their key columns only
            cols = dict(rv[2])
            key = []
            for k, v in sorted(kd.items()):
                vs = v if isinstance(v, tuple) and not isinstance(v, Vec) else (v,)
                for z in vs:
                    if isinstance(z, str) and k in ('subset', 'by', 'keys'):
                        key.append((k, z, self.fp(cols.get(z, self.free('sub', rv[1], z, vec=True)))))
                    else:
                        key.append((k, self.fp(z)))
            key = tuple(key)
            if name == 'dropna' and 'subset' not in kd:
                key = key + (self.fp(rv),)
            base = self.free('rowop', name, rv[1], key)
            return ('F', base, tuple((c, self.free('rowop', name, self.fp(x), key, vec=True)) for c, x in rv[2]))
        if name == 'diff' and not args and kd.get('periods', Fraction(1)) == 1 and set(kd) <= {'periods'} and not self.is_grouped(r):
            sh = self.free('mcall', 'shift', rv, (), (('periods', self.fp(Fraction(1))),), vec=True)
            return self.lift(lambda p, q: self.arith('-', p, q), rv, sh)
        if name == 'shift':
            kd.setdefault('periods', Fraction(1))
        if name in ('astype',):
            d = kd.get('dtype')
            if d in ('ext:builtins.float', 'float', 'float64', 'ext:numpy.float64'):
                return self.lift(self.numv, rv)
            if d in ('ext:builtins.bool', 'bool'):
                return self.lift(lambda x: True if x is NAN else x if isinstance(x, bool) or x is MISS else (x != 0 if (type(x) in NUMT) else True), rv)
            if d in ('ext:builtins.int', 'int', 'int64', 'ext:numpy.int64'):
                return self.lift(lambda x: self.numv(x) if isinstance(x, bool) else x, rv)
        if name == 'total_seconds':
            return rv
        if name in ('dropna',) and not args and not kws and not B.is_frame(r):
            return self.lift(lambda x: MISS if x is NAN else x, rv)
        if name in ('tolist', 'to_list') and not args and not kws:
            return rv
        if name == 'fillna' and 'value' in kd and set(kd) == {'value'}:
            return self.lift(lambda x, y: y if x is NAN else x, rv, kd['value'])
        scal = name in ('any', 'all', 'item', 'count', 'nunique', 'total_seconds', 'idxmax', 'idxmin') and not self.is_grouped(r)
        return self.free('mcall', name, rv, av, tuple(sorted(((k, self.fp(v)) for k, v in kd.items()))), vec=not scal)

    def rowop(self, name, kd):
        return name in ('set_index', 'drop_duplicates', 'sort_values', 'sort_index', 'dropna', 'head', 'tail', 'reindex') and 'inplace' not in kd and \
            'axis' not in kd and 'columns' not in kd and 'append' not in kd and not (name == 'drop_duplicates' and 'subset' not in kd)

    def call(self, t):
        f, args, kws = t.a
        V = lambda x: self.memo[x.id]
        fv = V(f)
        av = tuple(V(x) for x in args)
        kd = {k: V(v) for k, v in kws if k != '#site'}
        n = f.a[0] if f.op == 'ext' else None
        if n in self.EWISE and len(av) == 1 and not kd:
            def g(x):
                if x is MISS or x is NAN:
                    return x
                return rnd(h(self.seed, n, self.fp(x)))
            return self.lift(g, av[0])
        if n in ('numpy.minimum', 'numpy.maximum') and len(av) == 2:
            def g(x, y):
                if x is MISS or y is MISS:
                    return MISS
                if x is NAN or y is NAN:
                    return NAN
                x, y = self.numv(x), self.numv(y)
                if (type(x) in NUMT) and (type(y) in NUMT):
                    return min(x, y) if n.endswith('minimum') else max(x, y)
                return rnd(h(self.seed, n, *sorted([repr(self.fp(x)), repr(self.fp(y))])))
            return self.lift(g, *av)
        if n in ('numpy.asarray', 'numpy.array', 'builtins.float', 'numpy.float64') and len(av) == 1 and not kd:
            return Arr(av[0]) if type(av[0]) is tuple and f.a[0] in ('numpy.asarray', 'numpy.array') and av[0][:1] not in (('dict',), ('set',), ('F',)) else av[0]
        if n == 'pandas.Series' and set(kd) <= {'data', 'index', 'name', 'dtype'} and 'data' in kd:
            if isinstance(kd['data'], (Vec, Fraction, float, bool)) or kd['data'] is NAN:
                return kd['data']
        if n == 'builtins.len' and len(av) == 1:
            return abs(self.free('len', av[0])) + 1
        fr = av[0] if len(av) == 1 and not kd else kd.get('data') if not av and set(kd) == {'data'} else None
        if n and n.endswith('add_constant') and isinstance(fr, tuple) and fr[:1] == ('F',):
            d = dict(fr[2])
            d['const'] = 'add_constant'
            return ('F', self.free('add_constant', fr[1]), tuple(sorted(d.items(), key=lambda p: repr(p[0]))))
        key = ('call', fv if isinstance(fv, str) else self.fp(fv), av, tuple(sorted((k, self.fp(v)) for k, v in kd.items())))
        r = self.free(*key, vec=True)
        if (n or (f.op == 'func' and f.a[0])) in self.KNOWN:
            return Vec(Fraction(5, 7) if x is NAN else x for x in r)
        return r

    # results that are numbers wherever the call is meaningful at all
    KNOWN = {'pvlib.solarposition.hour_angle', 'robust_quantile'}


def num_like(t):
    return t.op in ('const', 'td') or (t.op == 'param' and t.a[0] in SCALAR_HINT) or (t.op == 'ext')


class Theory:
    """a bundle of evaluators"""

    def __init__(self, scalars=(), bools=(), seeds=NSEEDS, positive=()):
        SCALAR_HINT.update(scalars)
        self.ev = [Eval(s * 7919 + 13, scalars, nan=(s % 2 == 0), bools=bools, positive=positive) for s in range(seeds)]
        self.eqmemo = {}
        self.shared = {}
        self._step, self.mus, self._order, self._flags = None, {}, {}, {}

    def num(self, t):
        return tuple(repr(e.fp(e.run(t))) for e in self.ev)

    def eq(self, a, b):
        if a is b:
            return True
        k = (a.id, b.id)
        if k not in self.eqmemo:
            r = all(e.fp(e.run(a)) == e.fp(e.run(b)) for e in self.ev)
            self.eqmemo[k] = r and self.boundary(a, b)
        return self.eqmemo[k]

    def boundary(self, a, b):
        """second stage: drive every comparison in either term to its boundary and just beside it"""
        atoms, seen = [], set()
        na, nb = list(subterms(a)), list(subterms(b))
        common = {x.id for x in na} & {x.id for x in nb}
        for x in na + nb:
            if x.op == 'cmp' and x.id not in seen and x.id not in common:
                seen.add(x.id)
                atoms.append(x)
        if not atoms:
            return True
        budget = max(4, min(60, int(60000 / (len(na) + len(nb)))))
        done = set()
        work = []
        for x in atoms:
            sig = self.ev[0].fp(self.ev[0].run(x))
            lv = []
            for side in (1, 2):
                for y in self.leaves(x.a[side]):
                    if y.op not in self.NOVAR and y not in lv:
                        lv.append(y)
            for y in lv:
                k = (sig, x.a[0], self.ev[0].fp(self.ev[0].run(y)), self.ev[1].fp(self.ev[1].run(y)))
                if k not in done:
                    done.add(k)
                    work.append((x, y))
        if not work:
            return True
        n = 0
        rounds = max(1, min(3, budget // len(work)))
        for rd in range(rounds):
            for x, y in work:
                n += 1
                if n > budget:
                    return True
                e = self.ev[(n * 3 + rd) % len(self.ev)]
                if not self.probe(e, x, y, a, b, na, nb, rd):
                    return False
        # third stage: two scalar comparisons driven to their boundaries together
        work = [(x, y) for x, y in work if type(self.ev[0].run(y)) is Fraction]
        if len(na) + len(nb) > 1500 or not 2 <= len(work) <= 10:
            return True
        left = [max(8, int(40000 / (len(na) + len(nb))))]
        for k, (x, y) in enumerate(work):
            def then(e2, a, b, na, nb):
                for x2, y2 in work:
                    if x2 is x or y2 is y or left[0] <= 0:
                        continue
                    left[0] -= 1
                    if not self.probe(e2, x2, y2, a, b, na, nb, 1):
                        return False
                return True
            if not self.probe(self.ev[k % len(self.ev)], x, y, a, b, na, nb, 2, then):
                return False
        return True

    NOVAR = {'const', 'td', 'ext', 'list', 'tuple', 'dict', 'fmt', 'lam', 'iter', 'unkcond', 'exc', 'haskey', 'in', 'isinst', 'hasattr', 'isnone'}

    def order(self, a, b, na, nb):
        k = (a.id, b.id)
        if k not in self._order:
            self._order = {k: [(z.id, [y.id for y in kids(z)]) for z in sorted({z.id: z for z in na + nb}.values(), key=lambda z: z.id)]}
        return self._order[k]

    FLAG = {'truth', 'isnone', 'unkcond', 'exc', 'iter', 'haskey', 'in', 'isinst', 'hasattr', 'param', 'field', 'callback'}

    def flag(self, c):
        """a condition that only depends on options, not on the size of a number"""
        if c.id not in self._flags:
            if c.op in ('and', 'or', 'not'):
                r = all(self.flag(x) for x in kids(c))
            elif c.op == 'cmp':
                r = c.a[0] == '==' and any(x.op == 'const' and (x.a[0] is None or isinstance(x.a[0], (str, bool))) for x in c.a[1:])
            else:
                r = c.op in self.FLAG
            self._flags[c.id] = r
        return self._flags[c.id]

    def specialise(self, t, e, memo):
        """t under the option choices made by evaluator e"""
        st = [(t, 0)]
        while st:
            x, k = st.pop()
            if x.id in memo:
                continue
            if x.op == 'ite' and self.flag(x.a[0]):
                y = x.a[1] if e.selcond(e.run(x.a[0])) else x.a[2]
                if y.id in memo:
                    memo[x.id] = memo[y.id]
                else:
                    st += [(x, 0), (y, 0)]
                continue
            ks = kids(x)
            todo = [y for y in ks if y.id not in memo]
            if todo:
                st.append((x, 0))
                st += [(y, 0) for y in todo]
                continue
            if all(memo[y.id] is y for y in ks):
                memo[x.id] = x
            else:
                memo[x.id] = self.rebuild(x.op, [self._sub(z, memo) for z in x.a])
        return memo[t.id]

    def _sub(self, z, memo):
        if isinstance(z, T):
            return memo[z.id]
        if isinstance(z, tuple):
            return tuple(self._sub(y, memo) for y in z)
        return z

    @staticmethod
    def rebuild(op, a):
        if op == 'sub' and len(a) == 2:
            return B.sub(*a)
        if op == 'attr' and len(a) == 2:
            return B.attr(*a)
        return mk(op, *a)

    def assume(self, t, num, val):
        """t where the condition with value `num` is known to be `val`"""
        memo, st = {}, [t]
        while st:
            x = st.pop()
            if x.id in memo:
                continue
            ks = kids(x)
            if x.op == 'ite' and self.num(x.a[0]) == num:
                ks = [x.a[1] if val else x.a[2]]
            todo = [y for y in ks if y.id not in memo]
            if todo:
                st.append(x)
                st += todo
                continue
            if x.op == 'ite' and len(ks) == 1:
                memo[x.id] = memo[ks[0].id]
            elif all(memo[y.id] is y for y in ks):
                memo[x.id] = x
            else:
                memo[x.id] = self.rebuild(x.op, [self._sub(z, memo) for z in x.a])
        return memo[t.id]

    def probe(self, e, atom, leaf, a, b, na, nb, rd, then=None):
        if any(x.op == 'ite' and self.flag(x.a[0]) for g in (na, nb) for x in g):
            memo = {}
            a2, b2 = self.specialise(a, e, memo), self.specialise(b, e, memo)
            if atom.id not in memo:
                return True
            atom = memo[atom.id]
            if a2 is b2 or atom.op != 'cmp':
                return True
            lv = self.leaves(atom)
            leaf = memo.get(leaf.id, leaf)
            if not any(leaf is y for y in lv):
                cand = [y for y in lv if y.op not in self.NOVAR]
                if not cand:
                    return True
                leaf = cand[rd % len(cand)]
            if e.fp(e.run(a2)) != e.fp(e.run(a)) or e.fp(e.run(b2)) != e.fp(e.run(b)):
                return True
            a, b = a2, b2
            na, nb = list(subterms(a)), list(subterms(b))
        v0 = e.run(leaf)
        num = NUMT
        if isinstance(v0, Vec):
            base = Vec(v if (type(v) is Fraction) else Fraction(3) for v in v0)
        elif (type(v0) is Fraction):
            base = v0
        else:
            return True
        fpv = e.fp(v0)
        others = self.ev[:6]
        same = {z.id for z in na + nb if z.id in e.memo and e.fp(e.memo[z.id]) == fpv and
                all(o.fp(o.run(z)) == o.fp(o.run(leaf)) for o in others)}
        same.add(leaf.id)
        # values that cannot depend on the leaf are kept
        dep = set(same)
        for z, ks in self.order(a, b, na, nb):
            if z not in dep and not dep.isdisjoint(ks):
                dep.add(z)
        keep = {z.id: e.memo[z.id] for g in (na, nb) for z in g if z.id not in dep and z.id in e.memo}

        def with_val(v):
            e2 = e.clone()
            e2.memo = dict(keep)
            e2._m1 = e.m1() if e.mode == 0 else None
            for i in same:
                e2.memo[i] = v
            return e2

        def f(v):
            e2 = with_val(v)
            return e2.lift(lambda p, q: e2.arith('-', p, q), e2.run(atom.a[1]), e2.run(atom.a[2]))
        one = Fraction(1)
        f0 = f(base)
        if isinstance(base, Vec):
            # two partial shifts, so that terms tied to the first or last row keep their value
            g = [f(Vec(p + one if r % 2 == b_ and 0 < r < R - 1 else p for r, p in enumerate(base))) for b_ in (0, 1)]
            f1 = Vec((g[r % 2][r] if isinstance(g[r % 2], Vec) else g[r % 2]) for r in range(R))
        else:
            f1 = f(base + one)

        def solve(v, p, q):
            if type(p) in num and type(q) in num and q != p and (type(v) is Fraction):
                z = v - p / (q - p)
                if (type(z) is Fraction) and abs(z.numerator) < 10 ** 40 and z.denominator < 10 ** 40:
                    return z
            return None
        eps = (Fraction(1, 10 ** 6), Fraction(1, 1000), Fraction(1, 7))[rd % 3]
        if isinstance(base, Vec):
            out = []
            for r in range(R):
                z = solve(base[r], f0[r] if isinstance(f0, Vec) else f0, f1[r] if isinstance(f1, Vec) else f1)
                if z is None:
                    out.append(v0[r])
                    continue
                d = eps * max(abs(z), Fraction(1, 100))
                out.append(z + (0, d, -d)[(r + rd) % 3])
            trials = [Vec(out)]
        else:
            p = f0[0] if isinstance(f0, Vec) else f0
            q = f1[0] if isinstance(f1, Vec) else f1
            z = solve(base, p, q)
            if z is None:
                return True
            d = eps * max(abs(z), Fraction(1, 100))
            trials = [z, z + d, z - d]
        for v in trials:
            e2 = with_val(v)
            if e2.fp(e2.run(a)) != e2.fp(e2.run(b)):
                return False
            if then is not None and not then(e2, a, b, na, nb):
                return False
        return True

    # ------------------------------------------------------------------ located comparison
    INTERP = {'bin', 'cmp', 'and', 'or', 'not', 'isna', 'ite', 'where', 'abs', 'clip', 'oncol', 'filt', 'truth'}
    OPAQUE = {'unk', 'loop', 'while', 'mu', 'loopval', 'listof', 'listx', 'elem', 'lamarg', 'getattr', 'star', 'deep', 'mut', 'viewmut', 'delitem',
              'undef', 'unbound', 'seq', 'sorted', 'dictval', 'dictof', 'dictx', 'enter', 'excval', 'if', 'pos', 'keys', 'unkcond', 'exc',
              'obj', 'func', 'partial', 'setloc', 'setcol', 'lappend', 'lextend', 'lmut', 'flatten'}
    KNOWN_M = {'shift', 'rolling', 'resample', 'ffill', 'bfill', 'dropna', 'cumsum', 'interpolate', 'round', 'groupby', 'diff', 'apply',
               'reindex', 'asfreq', 'sort_values', 'head', 'tail', 'drop_duplicates', 'transform', 'expanding', 'first', 'last', 'any', 'all',
               'total_seconds', 'fillna', 'replace', 'combine', 'join', 'cov_params', 'fit', 'set_index', 'reset_index', 'sort_index', 'to_frame',
               'isin', 'add', 'sub', 'mul', 'div', 'astype', 'bootstrap', 'tz_localize', 'tz_convert'}
    # operations a refactoring may add or drop without changing the value
    SOFT = {'sort_index', 'reset_index', 'set_index', 'to_frame', 'astype', 'rename', 'rename_axis', 'reindex', 'copy', 'squeeze', 'tolist', 'asfreq',
            'infer_objects'}

    def interp(self, x):
        if x.op in self.INTERP:
            return True
        if x.op == 'call' and x.a[0].op == 'ext':
            return x.a[0].a[0] in ('numpy.minimum', 'numpy.maximum') and len(x.a[1]) == 2 or \
                x.a[0].a[0] in ('numpy.asarray', 'numpy.array', 'builtins.float', 'numpy.float64') and len(x.a[1]) == 1 and not x.a[2]
        if x.op == 'mcall' and not x.a[2]:
            return x.a[1] in ('total_seconds', 'tolist', 'to_list', 'dropna') and not x.a[3] and not B.is_frame(x.a[0]) or \
                x.a[1] == 'fillna' and len(x.a[3]) == 1 and x.a[3][0][0] == 'value'
        return False

    def leaves(self, t):
        out, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if self.interp(x):
                if x.op == 'oncol':
                    st.append(x.a[0])
                else:
                    st.extend(k for k in kids(x))
            elif x.op in ('const', 'td') or x.op == 'ext' and x.a[0] in ('numpy.minimum', 'numpy.maximum', 'numpy.asarray', 'numpy.array', 'builtins.float', 'numpy.float64'):
                pass
            else:
                out.append(x)
        return out

    def shape(self, t):
        if t.op == 'mcall':
            return ('mcall', t.a[1], len(t.a[2]), tuple(k for k, _ in t.a[3]))
        if t.op == 'call':
            return ('call', t.a[0].a[0] if t.a[0].op in ('ext', 'func') else t.a[0].op, len(t.a[1]), tuple(k for k, _ in t.a[2]))
        if t.op == 'attr':
            return ('attr', t.a[1])
        if t.op == 'agg':
            return ('agg',)
        if t.op in ('list', 'tuple', 'dict'):
            return (t.op, len(t.a[0]))
        if t.op == 'setattr':
            return ('setattr', t.a[1])
        if t.op == 'sub' and t.a[1].op == 'const':
            return ('sub', t.a[1].a[0])
        if t.op in ('param', 'field', 'ext'):
            return (t.op, t.a[0])
        return (t.op,)

    def opaque(self, t):
        return t.op in self.OPAQUE

    def embed(self, c, lc, uc, us, s):
        """a map from the unmatched ingredients of c to those of s under which c equals s"""
        import itertools
        if len(uc) > 5:
            return None
        cand = []
        for x in uc:
            same = [y for y in us if self.shape(x) == self.shape(y)]
            cand.append(same + [y for y in us if y not in same])
        n = 0
        combos = itertools.product(*cand)
        for ys in combos:
            n += 1
            if n > 200:
                return None
            if len({y.id for y in ys}) < len(ys):
                continue
            ok = True
            for e in self.ev:
                e2 = e.clone()
                for x in lc:
                    e2.memo[x.id] = e.run(x)
                for x, y in zip(uc, ys):
                    e2.memo[x.id] = e.run(y)
                if e2.fp(e2.run(c)) != e.fp(e.run(s)):
                    ok = False
                    break
            if ok:
                return list(zip(uc, ys))
        return None

    def cols(self, t):
        out = {}
        while t.op == 'setcol':
            out.setdefault(t.a[1].id, t.a[2])
            t = t.a[0]
        return out

    def compare(self, code, spec, depth=0, memo=None):
        """-> (verdict, code subterm, spec subterm)"""
        if memo is None:
            memo = {}
            if self.eq(code, spec):
                return (EQ, code, spec)
            self.shared = {'c': self.fpset(code), 's': self.fpset(spec)}
        key = (code.id, spec.id)
        if key in memo:
            return memo[key]
        memo[key] = (UNK, code, spec)
        r = self._compare(code, spec, depth, memo)
        memo[key] = r
        return r

    def _compare(self, c, s, depth, memo):
        if self.eq(c, s):
            return (EQ, c, s)
        c, s = B.strip(c), B.strip(s)
        while c.op == 'setattr' and c.a[1] == 'name':
            c = c.a[0]
        while s.op == 'setattr' and s.a[1] == 'name':
            s = s.a[0]
        if depth > 60:
            return (UNK, c, s)
        r = self.cmp_frames(c, s, depth, memo)
        if r is not None:
            return r
        lits = ('const', 'td', 'param', 'ext', 'field')
        if c.op in lits and s.op in lits:
            return (NE, c, s)
        if self.interp(c) or self.interp(s):
            # same-operator selection nodes: look inside first for a precise witness
            if c.op == s.op == 'ite' and self.eq(c.a[0], s.a[0]):
                n = self.num(c.a[0])
                rs = []
                for k, want in ((1, True), (2, False)):
                    x, y = self.assume(c.a[k], n, want), self.assume(s.a[k], n, want)
                    if self.eq(x, y):
                        continue
                    on = [e for e in self.ev if bool(e.selcond(e.run(c.a[0]))) == want]
                    if on and all(e.fp(e.run(x)) == e.fp(e.run(y)) for e in on):
                        continue
                    rs.append(self.compare(x, y, depth + 1, memo))
                if rs:
                    return self.pick(rs, c, s)
            lc, ls = self.leaves(c), self.leaves(s)
            uc = [x for x in lc if not any(self.eq(x, y) for y in ls)]
            us = [y for y in ls if not any(self.eq(x, y) for x in lc)]
            if not uc and not us:
                return (NE, c, s)
            if not uc:
                # the code is a function of ingredients it shares with the definition and lacks one of them
                return (NE, c, s)
            if uc and us:
                m = self.embed(c, lc, uc, us, s)
                if m is not None:
                    # the two values differ exactly at these ingredients
                    rs = [self.compare(x, y, depth + 1, memo) for x, y in m]
                    r = self.pick(rs, c, s)
                    if r[0] == NE or not all(x.op == 'mu' for x in uc + us):
                        return r
            if all(self.understood(x, 's') for x in uc) and all(self.understood(y, 'c') for y in us):
                return (NE, c, s)
            if c.op == s.op and c.op in ('bin', 'cmp', 'and', 'or', 'not', 'isna', 'ite', 'where', 'abs', 'clip', 'filt', 'truth'):
                # the same operation on both sides: the operands that differ all differ at located constructs
                r = self.aligned(c, s, depth, memo)
                if r is not None:
                    return r
            if self.ev[0].mode == 0 and uc and us and len(uc) == len(us) and all(x.op == 'mu' for x in uc + us):
                # as functions of the loop state (states paired by their initial value and iteration space)
                th = self.step_theory()
                if all(any(th.eq(x, y) for y in ls) for x in lc) and all(any(th.eq(x, y) for x in lc) for y in ls) and not th.eq(c, s):
                    return (NE, c, s)
            return (UNK, c, s)
        if c.op == 'setcol' or s.op == 'setcol':
            dc, ds = self.cols(c), self.cols(s)
            rs = [self.compare(dc[k], ds[k], depth + 1, memo) for k in dc if k in ds and not self.eq(dc[k], ds[k])]
            bc, bs = c, s
            while bc.op == 'setcol':
                bc = bc.a[0]
            while bs.op == 'setcol':
                bs = bs.a[0]
            if c.op == s.op and set(dc) == set(ds) and not self.eq(bc, bs) and bc.op not in ('param', 'field') and bs.op not in ('param', 'field'):
                rs.append(self.compare(bc, bs, depth + 1, memo))
            return self.pick(rs, c, s)
        if self.wraps(c, s) or self.wraps(s, c):
            return (NE, c, s)
        for e_, f_ in ((c, s), (s, c)):
            # every element in turn against one fixed element of the same sequence
            if e_.op == 'elem' and f_.op == 'sub' and f_.a[1].op == 'const' and any(self.eq(f_.a[0], x) for x in kids(e_)):
                return (NE, c, s)
        if self.opaque(c) or self.opaque(s):
            if c.op == s.op == 'loop':
                rs = [self.compare(x, y, depth + 1, memo) for x, y in zip(kids(c), kids(s)) if not self.eq(x, y)]
                return self.pick(rs, c, s)
            if c.op == s.op == 'mu':
                return self.cmp_mu(c, s, depth, memo)
            if c.op == s.op == 'while':
                if 'const' in (c.a[0].op, s.a[0].op):
                    return (UNK, c, s)
                th = self.step_theory()
                sh = th.shared
                th.shared = {'c': th.fpset(c), 's': th.fpset(s)}
                r = th.compare(c.a[0], s.a[0], depth + 1, {})
                th.shared = sh
                return (UNK, c, s) if r[0] == EQ else r
            if c.op == s.op and self.shape(c) == self.shape(s) and c.op in ('setloc', 'listof', 'elem', 'sorted', 'seq', 'loopval', 'if', 'pos', 'lappend', 'lextend', 'flatten', 'lmut', 'mut', 'viewmut'):
                kc, ks = kids(c), kids(s)
                if len(kc) == len(ks):
                    rs = [self.compare(x, y, depth + 1, memo) for x, y in zip(kc, ks) if not self.eq(x, y)]
                    return self.pick(rs, c, s)
            return (UNK, c, s)
        if c.op == s.op == 'sub' and c.a[1].op == 'const' and s.a[1].op == 'const' and c.a[1] is not s.a[1] and self.eq(c.a[0], s.a[0]) \
                and type(c.a[1].a[0]) is type(s.a[1].a[0]):
            return (NE, c, s)
        if c.op == s.op == 'attr' and c.a[1] != s.a[1] and self.eq(c.a[0], s.a[0]) and not {c.a[1], s.a[1]} & self.STRUCT and \
                SYN.get(c.a[1], c.a[1]) != SYN.get(s.a[1], s.a[1]):
            return (NE, c, s)
        if self.wraps(c, s) or self.wraps(s, c):
            return (NE, c, s)
        if self.shape(c) == self.shape(s):
            if c.op == 'agg' and c.a[0] != s.a[0] and self.eq(c.a[1], s.a[1]):
                return (NE, c, s)
            if c.op == 'agg' and c.a[2] != s.a[2] and c.a[0] == s.a[0] and self.eq(c.a[1], s.a[1]):
                return (NE, c, s)
            kc, ks = self.operands(c), self.operands(s)
            if len(kc) == len(ks):
                rs = [self.compare(x, y, depth + 1, memo) for x, y in zip(kc, ks) if not self.eq(x, y)]
                if rs:
                    return self.pick(rs, c, s)
            return (UNK, c, s)
        if c.op == 'dict' and s.op == 'dict':
            dc, ds = dict((k.id, (k, v)) for k, v in c.a[0]), dict((k.id, (k, v)) for k, v in s.a[0])
            rs = []
            for k in ds:
                if k in dc and not self.eq(dc[k][1], ds[k][1]):
                    rs.append(self.compare(dc[k][1], ds[k][1], depth + 1, memo))
            for d1, d2 in ((dc, ds), (ds, dc)):
                for k in d1:
                    if k not in d2 and d1[k][1].op in ('param', 'field'):
                        return (NE, c, s)       # an entry the caller controls is dropped
            if rs:
                return self.pick(rs, c, s)
            return (UNK, c, s)
        # same call with different explicit options
        if c.op == s.op and c.op in ('mcall', 'call') and self.shape(c)[:2] == self.shape(s)[:2]:
            ck = dict(c.a[3] if c.op == 'mcall' else c.a[2])
            sk = dict(s.a[3] if s.op == 'mcall' else s.a[2])
            base = []
            if c.op == 'mcall' and not self.eq(c.a[0], s.a[0]):
                base = [self.compare(c.a[0], s.a[0], depth + 1, memo)]
            common = [k for k in ck if k in sk and k != '#site' and not self.eq(ck[k], sk[k])]
            rs = base + [self.compare(ck[k], sk[k], depth + 1, memo) for k in common]
            if any(r[0] == NE for r in rs):
                return self.pick(rs, c, s)
            if any(r[0] == UNK for r in rs):
                return self.pick(rs, c, s)
            diff = {k for k in set(ck) ^ set(sk) if k not in ('#site', 'copy', 'name', 'dtype')}
            nm = c.a[1] if c.op == 'mcall' else None
            for k in diff:
                d = (sk if k in sk else ck)[k]
                if (nm, k) in B.DEFAULTS and d.op == 'const' and d.a[0] != B.DEFAULTS[nm, k]:
                    return (NE, c, s)
            if diff and not any(self.is_default(s if k in sk else c, k) for k in diff):
                return (NE, c, s)
            return (UNK, c, s)
        if {c.op, s.op} == {'agg', 'mcall'}:
            ag, mc = (c, s) if c.op == 'agg' else (s, c)
            if mc.a[1] == ag.a[0] and {k for k, _ in mc.a[3]} - {'numeric_only', 'skipna', 'dtype', 'keepdims'} and self.eq(mc.a[0], ag.a[1]):
                return (NE, c, s)       # the same statistic with another option
            if self.reduction(mc.a[1], ag.a[0]) and not mc.a[2] and not mc.a[3] and self.eq(mc.a[0], ag.a[1]):
                return (NE, c, s)
        # two different functions of known meaning on the same operands
        if c.op == s.op == 'call' and c.a[0].op == s.a[0].op == 'ext' and c.a[0] is not s.a[0] and len(c.a[1]) == len(s.a[1]) and \
                self.distinct(c.a[0].a[0], s.a[0].a[0]) and all(self.eq(x, y) for x, y in zip(self.operands(c)[1:], self.operands(s)[1:])):
            return (NE, c, s)
        if c.op == s.op == 'call' and c.a[0].op == s.a[0].op == 'func' and c.a[0] is not s.a[0] and c.a[0].a[0] != s.a[0].a[0]:
            return (NE, c, s)       # two different public functions
        # an operation added or removed
        x, y = self.peel(c), self.peel(s)
        if s.op == 'mcall' and self.eq(c, self.through(s)) and s.a[1] not in self.SOFT and s.a[1] in self.KNOWN_M:
            return (NE, c, s)
        if c.op == 'mcall' and self.eq(self.through(c), s) and c.a[1] not in self.SOFT and c.a[1] in self.KNOWN_M:
            return (NE, c, s)
        for x, y in ((c, s), (s, c)):
            # an entry of an input collection against a computation that does not involve it
            if x.op == 'sub' and self.inputref(x) and y.op in ('agg', 'quantile', 'bin', 'call', 'mcall') and self.understood(y) and x not in set(subterms(y)):
                return (NE, c, s)
        if c.op in lits and s.op not in lits or s.op in lits and c.op not in lits:
            o = s if c.op in lits else c
            if o.op == 'mcall' and o.a[1] == 'sort_index' and self.eq(o.a[0], c if o is s else s):
                return (NE, c, s)
            if o.op == 'mcall' and o.a[1] in self.SOFT:
                return self.compare(c, s.a[0], depth + 1, memo) if o is s else self.compare(c.a[0], s, depth + 1, memo)
            if o.op not in ('sub', 'attr', 'rowsel', 'tuple', 'list', 'dict', 'setattr') and self.understood(o):
                return (NE, c, s)
            l = c if o is s else s
            if l is NONE and (o.op == 'call' and o.a[0].op == 'ext' and o.a[0].a[0].startswith(('pandas.', 'numpy.')) or o.op in ('agg', 'quantile', 'bin', 'cmp', 'td')):
                return (NE, c, s)
            if l.op == 'const' and type(l.a[0]) in (int, float) and o.op in ('sub', 'mcall', 'call', 'rowsel', 'agg', 'quantile') and self.depends(o):
                return (NE, c, s)
            return (UNK, c, s)
        if c.op == 'mcall' and c.a[1] in self.SOFT:
            return self.soft(self.compare(c.a[0], s, depth + 1, memo), c, s)
        if s.op == 'mcall' and s.a[1] in self.SOFT:
            return self.soft(self.compare(c, s.a[0], depth + 1, memo), c, s)
        if c.op == 'mcall' and s.op == 'mcall' and c.a[1] in self.KNOWN_M and s.a[1] in self.KNOWN_M:
            if self.eq(c.a[0], s.a[0]) and {c.a[1], s.a[1]} in ({'ffill', 'bfill'},):
                return (NE, c, s)
        if c.op == s.op == 'mcall' and self.reduction(c.a[1], s.a[1]) and self.eq(c.a[0], s.a[0]) and len(c.a[2]) == len(s.a[2]) and \
                dict(c.a[3]).keys() == dict(s.a[3]).keys() and all(self.eq(x, y) for x, y in zip(kids(c), kids(s))):
            return (NE, c, s)
        for x, y in ((c, s), (s, c)):
            # a number of rows against a statistic of their values
            if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'builtins.len' and len(x.a[1]) == 1 and y.op == 'agg' and y.a[0] not in ('count', 'size') and \
                    self.understood(x, 's' if x is c else 'c') and self.understood(y, 's' if y is c else 'c'):
                return (NE, c, s)
        if {c.op, s.op} == {'agg', 'quantile'} and self.eq(c.a[1] if c.op == 'agg' else c.a[0], s.a[1] if s.op == 'agg' else s.a[0]):
            ag = c if c.op == 'agg' else s
            if ag.a[0] != 'median':
                return (NE, c, s)
        return (UNK, c, s)

    def fkeys(self, t):
        """the column names of a frame, when they are known"""
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'pandas.DataFrame':
            d = dict(t.a[2]).get('data')
            if d is not None and d.op == 'dict' and set(dict(t.a[2])) <= {'data', '#site'} and all(k.op == 'const' for k, _ in d.a[0]):
                return {k.a[0] for k, _ in d.a[0]}
            return None
        if t.op == 'setcol' and t.a[1].op == 'const':
            k = self.fkeys(t.a[0])
            return None if k is None else k | {t.a[1].a[0]}
        if t.op == 'where' and t.a[0].op == 'isna' and t.a[0].a[0] is t.a[2]:
            return self.fkeys(t.a[2])
        if t.op == 'mcall' and t.a[1] in ('fillna', 'astype', 'copy', 'infer_objects', 'convert_dtypes'):
            return self.fkeys(t.a[0])
        if t.op == 'mcall' and t.a[1] == 'drop':
            k, d = self.fkeys(t.a[0]), dict(t.a[3])
            cols = d.get('columns')
            if k is None or cols is None or set(d) - {'columns', 'errors'}:
                return None
            cs = cols.a[0] if cols.op in ('list', 'tuple') else (cols,)
            if all(x.op == 'const' for x in cs):
                return k - {x.a[0] for x in cs}
            return None
        if t.op == 'ite':
            a, b = self.fkeys(t.a[1]), self.fkeys(t.a[2])
            return a if a is not None and a == b else None
        return None

    def fcol(self, t, k):
        if t.op == 'call':
            for q, v in dict(t.a[2])['data'].a[0]:
                if q.a[0] == k:
                    return v
        if t.op == 'setcol':
            return t.a[2] if t.a[1].a[0] == k else self.fcol(t.a[0], k)
        if t.op == 'where':
            x = self.fcol(t.a[2], k)
            return B.where(B.isna(x), t.a[1], x)
        if t.op == 'mcall' and t.a[1] == 'drop':
            return self.fcol(t.a[0], k)
        if t.op == 'mcall':
            return B.mcall(self.fcol(t.a[0], k), t.a[1], t.a[2], t.a[3])
        return B.tite(t.a[0], self.fcol(t.a[1], k), self.fcol(t.a[2], k))

    def allrow(self, t):
        if t.op == 'mcall' and t.a[1] in ('all', 'any') and dict(t.a[3]).get('axis') is const(1):
            return self.fkeys(t.a[0])
        return None

    def cmp_frames(self, c, s, depth, memo):
        kc, ks = self.fkeys(c), self.fkeys(s)
        if kc is not None and ks is not None:
            if kc != ks:
                return (NE, c, s)
            rs = []
            for k in sorted(kc, key=repr):
                x, y = self.fcol(c, k), self.fcol(s, k)
                if not self.eq(x, y):
                    rs.append(self.compare(x, y, depth + 1, memo))
            return self.pick(rs, c, s) if rs else (UNK, c, s)
        kc, ks = self.allrow(c), self.allrow(s)
        if kc is not None and ks is not None:
            # row-wise conjunction of masks that are independent of each other
            mc = [self.fcol(c.a[0], k) for k in sorted(kc, key=repr)]
            ms = [self.fcol(s.a[0], k) for k in sorted(ks, key=repr)]
            uc = [x for x in mc if not any(self.eq(x, y) for y in ms)]
            us = [y for y in ms if not any(self.eq(x, y) for x in mc)]
            if c.a[1] != s.a[1]:
                return (NE, c, s) if len(ms) > 1 and not uc and not us else (UNK, c, s)
            if not uc and not us:
                return (UNK, c, s)
            if uc and us:
                rs = []
                for k in sorted(kc & ks, key=repr):
                    x, y = self.fcol(c.a[0], k), self.fcol(s.a[0], k)
                    if not self.eq(x, y):
                        rs.append(self.compare(x, y, depth + 1, memo))
                if rs:
                    return self.pick(rs, c, s)
                return (UNK, c, s)
            if all(self.ismask(x) for x in uc + us):
                return (NE, (uc + us)[0] if uc else c, s)
            return (UNK, c, s)
        return None

    def ismask(self, t):
        """a filter's verdict (not a constant column)"""
        return any(x.op == 'call' and x.a[0].op == 'func' or x.op == 'param' for x in subterms(t)) and \
            not (t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'pandas.Series')

    def aligned(self, c, s, depth, memo):
        if any(not isinstance(x, T) and x != y for x, y in zip(c.a, s.a)) or len(c.a) != len(s.a):
            return None
        kc, ks = kids(c), kids(s)
        if len(kc) != len(ks):
            return None
        ways = [ks]
        if c.op in ('and', 'or') or c.op == 'bin' and c.a[0] in ('+', '*'):
            ways.append(ks[::-1])
        ways.sort(key=lambda w: -sum(self.eq(x, y) for x, y in zip(kc, w)))
        rs = [self.compare(x, y, depth + 1, memo) for x, y in zip(kc, ways[0]) if not self.eq(x, y)]
        if rs and all(r[0] == NE for r in rs):
            return rs[0]
        return None

    def operands(self, t):
        if t.op == 'call':
            return [t.a[0]] + list(t.a[1]) + [v for k, v in t.a[2] if k != '#site']
        return kids(t)

    def wraps(self, t, x):
        """t is a value-changing operation applied to x"""
        if t.op == 'agg':
            return self.eq(t.a[1], x)
        if t.op in ('quantile', 'setloc'):
            return self.eq(t.a[0], x)
        if t.op == 'sub':
            if t.a[1].op == 'slice' and not B.is_full_slice(t.a[1]) and self.eq(t.a[0].a[0] if t.a[0].op == 'attr' and t.a[0].a[1] in ('iloc', 'loc') else t.a[0], x):
                return all(k.op == 'const' for k in t.a[1].a)
            if t.a[1].op in ('sub', 'oncol', 'rowsel') and self.eq(t.a[0], x):
                return True
        if t.op == 'call' and t.a[0].op == 'func' and not t.a[0].a[0].split('.')[-1].startswith('_'):
            return any(self.eq(k, x) for k in kids(t)[1:])
        if t.op == 'loop':
            return self.eq(t.a[2], x) and t.a[3].op != 'mu'
        if t.op == 'sub' and t.a[1].op == 'bin' and t.a[1].a[0] in '+-':
            # the entry a fixed number of positions away from x
            p, n = t.a[1].a[1], B.num(t.a[1].a[2])
            if n is None:
                p, n = t.a[1].a[2], B.num(t.a[1].a[1])
            return n not in (None, 0) and p.op == 'mcall' and p.a[1] == 'get_loc' and self.eq(p.a[0], t.a[0]) and any(self.eq(k, x) for k in kids(p)[1:])
        return False

    INPUT = {'param', 'field'}

    def depends(self, t):
        """carries data: some input or loop value flows in"""
        return any(x.op in ('param', 'field', 'elem', 'mu') for x in subterms(t))

    FAMILIES = [{'builtins.min', 'builtins.max', 'builtins.sum', 'numpy.min', 'numpy.max', 'numpy.sum', 'numpy.mean', 'numpy.median'},
                {'numpy.exp', 'numpy.log', 'numpy.log10', 'numpy.sin', 'numpy.cos', 'numpy.tan', 'numpy.floor', 'numpy.ceil', 'numpy.round'},
                {'numpy.cumsum', 'numpy.cumprod', 'numpy.diff'}]

    def distinct(self, f, g):
        return any(f in k and g in k for k in self.FAMILIES) and f.split('.')[1] != g.split('.')[1]

    STRUCT = {'values', 'array', 'T', 'loc', 'iloc', 'at', 'iat', 'str', 'dt', 'index', 'columns', 'size', 'shape', 'empty', 'name', 'names', 'dtype'}

    REDUCE = {'any', 'all', 'min', 'max', 'sum', 'mean', 'median', 'std', 'var', 'first', 'last', 'count', 'nunique', 'prod', 'cumsum', 'cumprod',
              'cummax', 'cummin', 'diff', 'idxmax', 'idxmin'}

    def inputref(self, t):
        while t.op == 'sub' and t.a[1].op == 'const':
            t = t.a[0]
        return t.op in ('param', 'field')

    def reduction(self, f, g):
        """two statistics that differ on some data, also as truth values"""
        return f != g and f in self.REDUCE and g in self.REDUCE and not ({f, g} <= {'any', 'sum', 'max', 'count', 'mean'} or {f, g} <= {'all', 'min', 'prod'})

    def soft(self, r, c, s):
        return (UNK, c, s) if r[0] == EQ else r

    def is_default(self, t, k):
        d = dict(t.a[3] if t.op == 'mcall' else t.a[2]).get(k)
        return d is None or d in (NONE, FALSE, TRUE) or d.op == 'const' and d.a[0] in (0, 1, 'left', 'outer', 'right')

    def through(self, t):
        n = 0
        while t.op == 'mcall' and n < 1:
            t = t.a[0]
            n += 1
        return t

    def peel(self, t):
        return t

    def related(self, x, y):
        kinds = {'agg', 'quantile', 'param', 'const', 'td', 'mcall'}
        return x.op in kinds and y.op in kinds

    def cmp_mu(self, c, s, depth, memo):
        dc, ds = MU.get((c.a[0], c.a[1])), MU.get((s.a[0], s.a[1]))
        if dc is None or ds is None:
            return (UNK, c, s)
        rs = []
        for x, y in ((dc[0], ds[0]), (dc[2], ds[2])):
            if not self.eq(x, y):
                rs.append(self.compare(x, y, depth + 1, memo))
        if rs:
            return self.pick(rs, c, s)
        th = self.step_theory()
        k = (dc[1].id, ds[1].id)
        if k in th.mus:
            return th.mus[k]
        th.mus[k] = (UNK, c, s)
        th.shared = {'c': th.fpset(dc[1]), 's': th.fpset(ds[1])}
        r = th.compare(dc[1], ds[1], depth + 1, {})
        if r[0] == EQ:
            r = (UNK, c, s)
        th.mus[k] = r
        return r

    def step_theory(self):
        if self.ev and self.ev[0].mode == 1:
            return self
        if self._step is None:
            t = Theory.__new__(Theory)
            t.ev = [e.m1() for e in self.ev]
            t.eqmemo, t.shared, t._step, t.mus, t._order, t._flags = {}, {}, None, {}, {}, {}
            self._step = t
        return self._step

    def fpset(self, t):
        out = set()
        for x in subterms(t):
            if x.op not in ('const', 'td', 'ext', 'unk') and (x.op != 'mu' or self.ev[0].mode == 1):
                out.add(self.sig(x))
        return out

    def sig(self, x):
        return tuple(h(e.fp(e.run(x))) for e in self.ev[:4])

    def understood(self, t, other=None):
        """every operation above the ingredients shared with the other graph has a known meaning"""
        shared = self.shared.get(other, ())
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if shared and x.op not in ('const', 'td', 'ext') and self.sig(x) in shared:
                continue
            if self.opaque(x):
                return False
            if x.op == 'mcall' and x.a[1] not in self.KNOWN_M:
                return False
            if x is t and x.op == 'attr' and x.a[1] in ('loc', 'iloc', 'at', 'iat', 'str', 'array', 'T'):
                return False
            if x.op == 'call' and not (x.a[0].op == 'ext' and x.a[0].a[0] in KNOWN_F):
                return False
            st.extend(kids(x))
        return True

    def pick(self, rs, c, s):
        for r in rs:
            if r[0] == NE:
                return r
        for r in rs:
            if r[0] == UNK:
                return r
        return (UNK, c, s)


SYN = {'dayofyear': 'day_of_year', 'weekday': 'dayofweek', 'day_of_week': 'dayofweek'}
KNOWN_F = {'numpy.isfinite', 'numpy.isinf', 'scipy.stats.mstats.theilslopes', 'builtins.len', 'numpy.exp', 'numpy.log', 'numpy.minimum', 'numpy.maximum', 'numpy.sign', 'builtins.min', 'builtins.max',
           'numpy.asarray', 'numpy.array', 'pandas.Series', 'builtins.float', 'builtins.int', 'pandas.DateOffset', 'numpy.arange',
           'numpy.random.choice', 'numpy.random.normal', 'numpy.random.uniform', 'numpy.random.multivariate_normal', 'pandas.merge_asof',
           'pandas.date_range', 'builtins.range', 'numpy.sqrt', 'numpy.cumsum', 'builtins.round', 'numpy.floor', 'numpy.ceil', 'builtins.sum'}
