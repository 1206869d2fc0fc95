"""Column inference for table-valued terms: which columns a table certainly has, and whether that is all of them."""
from .terms import *
from . import build as B

KEEP = {'copy', 'dropna', 'sort_index', 'sort_values', 'drop_duplicates', 'head', 'tail', 'reindex', 'ffill', 'bfill', 'fillna', 'shift', 'clip', 'round', 'astype',
        'infer_objects', 'tz_localize', 'tz_convert', 'where', 'mask', 'truncate', 'cumsum', 'diff', 'abs', 'interpolate', 'rolling', 'resample', 'sum_', 'replace', 'rename_axis'}
INDEX_NAMES = {}     # table term -> name its index was given


def names(t):
    """constant labels of a list / single constant term"""
    if t is None:
        return None
    if t.op == 'const' and isinstance(t.a[0], str):
        return {t.a[0]}
    if t.op in ('list', 'tuple') and all(x.op == 'const' for x in t.a[0]):
        return {x.a[0] for x in t.a[0]}
    return None


def columns(t, depth=0):
    """(labels certainly present, is that all of them) or None"""
    if depth > 400:
        return None
    o = t.op
    rec = lambda x: columns(x, depth + 1)
    if o == 'setcol':
        b = rec(t.a[0])
        ks = names(t.a[1])
        if ks is None:
            return (b[0], False) if b else (set(), False)
        return (b[0] | ks, b[1]) if b else (ks, False)
    if o == 'setattr':
        if t.a[1] == 'columns':
            ks = names(t.a[2])
            return (ks, True) if ks is not None else None
        return rec(t.a[0])
    if o == 'ite':
        a, b = rec(t.a[1]), rec(t.a[2])
        if a is None or b is None:
            return None
        return (a[0] & b[0], a[1] and b[1] and a[0] == b[0])
    if o in ('filt', 'rowsel', 'setloc'):
        if o == 'setloc':
            b = rec(t.a[0])
            return (b[0], False) if b else None
        return rec(t.a[0])
    if o == 'call' and t.a[0].op == 'ext':
        fn = t.a[0].a[0]
        if fn == 'pandas.DataFrame':
            ks = names(B.kw(t, 'columns'))
            if ks is not None:
                return (ks, True)
            if B.kw(t, 'columns') not in (None, NONE):
                return None
            d = B.kw(t, 'data')
            if d is None or d is NONE:
                return None
            if d.op == 'dict':
                return (dkeys(d), True) if dkeys(d) is not None else None
            if d.op in ('listof', 'list') and d.a:
                x = d.a[0] if d.op == 'listof' else (d.a[0][0] if d.a[0] else None)
                if x is not None and x.op == 'dict' and dkeys(x) is not None:
                    return (dkeys(x), d.op == 'listof' or len(d.a[0]) == 1)
            return rec(d) if B.is_frame(d) else None
        if fn == 'pandas.concat':
            ks = names(B.kw(t, 'keys'))
            ax = B.kw(t, 'axis')
            if ks is not None and ax is not None and B.num(ax) == 1:
                return (ks, True)
        return None
    if o == 'mcall':
        m = t.a[1]
        kws = dict(t.a[3])
        if m in KEEP and 'columns' not in kws and B.num(kws.get('axis', const(0))) in (0, None):
            return rec(t.a[0])
        if m in ('join', 'merge'):
            x = kws.get('other') or kws.get('right') or (t.a[2][0] if t.a[2] else None)
            on = names(kws['on']) if kws.get('on') is not None else set()
            a, b = rec(t.a[0]), rec(x) if x is not None else None
            if a is None or b is None or on is None:
                return None
            both = (a[0] & b[0]) - on
            return ((a[0] | b[0]) - both, a[1] and b[1] and not both and (m == 'join' or 'on' in kws))
        if m == 'to_frame':
            n = kws.get('name') or B.series_name(t.a[0])
            ks = names(n)
            return (ks, True) if ks else None
        if m == 'rename':
            d = kws.get('columns')
            b = rec(t.a[0])
            if b and d is not None and d.op == 'dict' and all(k.op == 'const' and v.op == 'const' for k, v in d.a[0]):
                mp = {k.a[0]: v.a[0] for k, v in d.a[0]}
                return ({mp.get(c, c) for c in b[0]}, b[1])
            return None
        if m == 'drop':
            b = rec(t.a[0])
            ks = names(kws.get('columns'))
            if b and ks is not None:
                return (b[0] - ks, b[1])
            return None
        if m == 'reset_index':
            b = rec(t.a[0])
            if b and kws.get('drop') is TRUE:
                return b
            n = INDEX_NAMES.get(t.a[0].id)
            if t.a[0].op == 'mcall' and t.a[0].a[1] == 'rename_axis':
                n = dict(t.a[0].a[3]).get('mapper') or dict(t.a[0].a[3]).get('index') or (t.a[0].a[2][0] if t.a[0].a[2] else None)
            if b and n is not None and names(n) and 'level' not in kws and 'names' not in kws:
                return (b[0] | names(n), b[1])
            return (b[0], False) if b else None
        if m == 'set_index':
            b = rec(t.a[0])
            ks = names(kws.get('keys'))
            return (b[0] - ks, b[1]) if b and ks else None
        return None
    if o == 'sub':
        if t.a[1].op == 'list':
            ks = names(t.a[1])
            if ks is not None and B.is_frame(t.a[0]):
                return (ks, True)
            return None
        if t.a[1].op in ('slice', 'cmp', 'not', 'and', 'or') and B.is_frame(t.a[0]):
            return rec(t.a[0])
        return None
    return None


def dkeys(d):
    if all(k.op == 'const' for k, _ in d.a[0]):
        return {k.a[0] for k, _ in d.a[0]}
    return None


def missing_reads(ts):
    """reads of a column its table certainly does not have: (read, label, table)"""
    for t in ts:
        if t.op == 'sub' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str):
            c = columns(t.a[0])
            if c and c[1] and t.a[1].a[0] not in c[0]:
                yield t, t.a[1].a[0], t.a[0]
