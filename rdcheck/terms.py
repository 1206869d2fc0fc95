"""Hash-consed terms: the nodes of the value-flow graph."""
from fractions import Fraction


class T:
    __slots__ = ('op', 'a', 'id', '__weakref__')

    def __repr__(self):
        return show(self, 6)


_table = {}
_n = [0]


def _key(x):
    if isinstance(x, T):
        return x.id
    if isinstance(x, tuple):
        return ('#t',) + tuple(_key(y) for y in x)
    return (type(x).__name__, x if not isinstance(x, float) else repr(x))


def mk(op, *a):
    k = (op,) + tuple(_key(x) for x in a)
    try:
        t = _table.get(k)
    except TypeError:
        a = tuple(repr(x) for x in a)
        return mk(op, *a)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _n[0] += 1
        t.id = _n[0]
        _table[k] = t
    return t


def const(v):
    return mk('const', v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.a[0]


def kids(t):
    """direct T children (flattening tuples)"""
    out = []
    st = list(t.a)
    while st:
        x = st.pop(0)
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            st = list(x) + st
    return out


def subterms(t, stop=None):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if stop is not None and stop(x):
            continue
        st.extend(kids(x))


def show(t, d=8):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d) for x in t) + ')'
        return repr(t)
    if d < 0:
        return '…'
    if t.op == 'const':
        return repr(t.a[0])
    if t.op in ('param', 'ext', 'func', 'cls'):
        return str(t.a[0]) if t.op != 'param' else '$' + str(t.a[0])
    if t.op in ('bin', 'cmp'):
        return '(%s %s %s)' % (show(t.a[1], d - 1), t.a[0], show(t.a[2], d - 1))
    if t.op == 'attr':
        return '%s.%s' % (show(t.a[0], d - 1), t.a[1])
    if t.op == 'sub':
        return '%s[%s]' % (show(t.a[0], d - 1), show(t.a[1], d - 1))
    if t.op == 'mcall':
        kw = ''.join(', %s=%s' % (k, show(v, d - 1)) for k, v in t.a[3])
        return '%s.%s(%s%s)' % (show(t.a[0], d - 1), t.a[1],
                                ', '.join(show(x, d - 1) for x in t.a[2]), kw)
    if t.op == 'call':
        kw = ''.join(', %s=%s' % (k, show(v, d - 1)) for k, v in t.a[2])
        return '%s(%s%s)' % (show(t.a[0], d - 1), ', '.join(show(x, d - 1) for x in t.a[1]), kw)
    return t.op + '(' + ', '.join(show(x, d - 1) for x in t.a) + ')'


_memo_sub = {}


def rewrite(t, f, memo=None):
    """bottom-up rebuild; f(term) -> term"""
    if memo is None:
        memo = {}
    order = []
    seen = set()
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if done:
            order.append(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        st.append((x, True))
        for k in kids(x):
            if k.id not in seen:
                st.append((k, False))

    def rb(x):
        if isinstance(x, T):
            return memo[x.id]
        if isinstance(x, tuple):
            return tuple(rb(y) for y in x)
        return x
    for x in order:
        if x.id in memo:
            continue
        n = mk(x.op, *[rb(y) for y in x.a]) if x.a else x
        memo[x.id] = f(n)
    return memo[t.id]


def depends(t, pred, stop=None):
    for x in subterms(t, stop):
        if pred(x):
            return True
    return False


# ---------------------------------------------------------------- booleans
def tnot(c):
    if c.op == 'const':
        return const(not c.a[0])
    if c.op == 'not':
        return c.a[0]
    return mk('not', c)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.a)
        else:
            out.append(x)
    seen, res = set(), []
    for x in out:
        if x.id not in seen:
            seen.add(x.id)
            res.append(x)
    return res


def tand(*xs):
    xs = [x for x in _flat('and', xs) if x is not TRUE]
    if any(x is FALSE for x in xs):
        return FALSE
    ids = {x.id for x in xs}
    for x in xs:
        if tnot(x).id in ids:
            return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return mk('and', *xs)


def tor(*xs):
    xs = [x for x in _flat('or', xs) if x is not FALSE]
    if any(x is TRUE for x in xs):
        return TRUE
    ids = {x.id for x in xs}
    for x in xs:
        if tnot(x).id in ids:
            return TRUE
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return mk('or', *xs)


def tite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return tite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return tnot(c)
    # collapse nested same-condition
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


# loop-carried variables: (loop, name) -> (initial value, value after one iteration, iterated collection)
MU = {}
