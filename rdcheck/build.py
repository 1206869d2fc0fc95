"""Smart constructors: pandas / numpy aware normalisation of value-flow nodes.

Each rule here rewrites one library spelling into another that denotes the same value, so that the
rules judge what is computed and not how it is spelled."""
import math
import re
from .terms import *

MSIG = {
    'rolling': ['window', 'min_periods', 'center'], 'quantile': ['q', 'axis'], 'sum': ['axis'], 'mean': ['axis'], 'median': ['axis'], 'shift': ['periods', 'freq'],
    'resample': ['rule'], 'fillna': ['value'], 'clip': ['lower', 'upper'],
    'interpolate': ['method'], 'diff': ['periods'], 'reindex': ['index'],
    'between': ['left', 'right', 'inclusive'], 'where': ['cond', 'other'], 'mask': ['cond', 'other'],
    'rename': ['index'], 'groupby': ['by'], 'apply': ['func'], 'drop': ['labels'],
    'sort_values': ['by'], 'astype': ['dtype'], 'round': ['decimals'], 'tz_localize': ['tz'],
    'tz_convert': ['tz'], 'to_frame': ['name'], 'set_index': ['keys'], 'join': ['other', 'on', 'how'],
    'merge': ['right', 'how', 'on'], 'asfreq': ['freq'], 'copy': ['deep'], 'isin': ['values'],
    'add': ['other', 'level', 'fill_value'], 'sub': ['other', 'level', 'fill_value'],
    'subtract': ['other', 'level', 'fill_value'],
    'mul': ['other', 'level', 'fill_value'], 'multiply': ['other', 'level', 'fill_value'],
    'div': ['other', 'level', 'fill_value'],
    'truediv': ['other', 'level', 'fill_value'], 'divide': ['other', 'level', 'fill_value'],
    'rsub': ['other'], 'radd': ['other'], 'rmul': ['other'], 'rdiv': ['other'], 'rtruediv': ['other'],
    'lt': ['other'], 'le': ['other'], 'gt': ['other'], 'ge': ['other'], 'eq': ['other'], 'ne': ['other'],
    'pow': ['other'], 'nlargest': ['n'], 'nsmallest': ['n'], 'head': ['n'], 'tail': ['n'],
    'drop_duplicates': ['subset'], 'dropna': [], 'reset_index': ['level'], 'ffill': [], 'bfill': [],
    'agg': ['func'], 'aggregate': ['func'], 'transform': ['func'], 'map': ['arg'],
    'combine': ['other', 'func', 'fill_value'], 'replace': ['to_replace', 'value'], 'get': ['key', 'default'], 'ewm': ['com'],
}
FSIG = {
    'numpy.percentile': ['a', 'q', 'axis'], 'numpy.nanpercentile': ['a', 'q', 'axis'],
    'numpy.quantile': ['a', 'q', 'axis'], 'numpy.nanquantile': ['a', 'q', 'axis'],
    'numpy.random.choice': ['a', 'size', 'replace', 'p'],
    'numpy.random.normal': ['loc', 'scale', 'size'],
    'numpy.random.uniform': ['low', 'high', 'size'],
    'numpy.random.multivariate_normal': ['mean', 'cov', 'size'],
    'numpy.random.seed': ['seed'],
    'numpy.clip': ['a', 'a_min', 'a_max'],
    'numpy.where': ['condition', 'x', 'y'],
    'numpy.interp': ['x', 'xp', 'fp', 'left', 'right'],
    'numpy.sum': ['a', 'axis'], 'numpy.mean': ['a', 'axis'], 'numpy.median': ['a', 'axis'],
    'numpy.nansum': ['a', 'axis'], 'numpy.nanmean': ['a', 'axis'], 'numpy.nanmedian': ['a', 'axis'],
    'numpy.std': ['a', 'axis'], 'numpy.var': ['a', 'axis'],
    'pandas.Series': ['data', 'index', 'dtype', 'name', 'copy'],
    'pandas.DataFrame': ['data', 'index', 'columns', 'dtype', 'copy'],
    'pandas.date_range': ['start', 'end', 'periods', 'freq', 'tz'],
    'pandas.concat': ['objs', 'axis', 'join'],
    'pandas.merge_asof': ['left', 'right', 'on', 'left_on', 'right_on'],
    'pandas.merge': ['left', 'right', 'how', 'on'],
    'statsmodels.api.add_constant': ['data'],
    'statsmodels.api.OLS': ['endog', 'exog'],
    'scipy.interpolate.interp1d': ['x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value'],
    'scipy.optimize.minimize': ['fun', 'x0', 'args', 'method'],
    'scipy.stats.mstats.theilslopes': ['y', 'x', 'alpha'],
    'arch.bootstrap.CircularBlockBootstrap': ['block_size'],
}
BOOL_OPS = {'cmp', 'and', 'or', 'not', 'isna', 'isnone', 'isin', 'isinst', 'in', 'truth'}

_UNITS = {'d': 86400, 'day': 86400, 'days': 86400, 'h': 3600, 'hr': 3600, 'hour': 3600,
          'hours': 3600, 'min': 60, 't': 60, 'minute': 60, 'minutes': 60, 'm': 60, 's': 1, 'sec': 1,
          'second': 1, 'seconds': 1, 'w': 604800, 'week': 604800, 'weeks': 604800,
          'ms': 1e-3, 'us': 1e-6, 'ns': 1e-9, 'milliseconds': 1e-3, 'microseconds': 1e-6,
          'nanoseconds': 1e-9, 'nanosecond': 1e-9}


def parse_td(s):
    s = s.strip()
    if not s:
        return None
    tot, pos = 0, 0
    for m in re.finditer(r'\s*([+-]?\d*\.?\d+(?:e[+-]?\d+)?)?\s*([A-Za-z]+)\s*', s):
        if m.start() != pos:
            return None
        pos = m.end()
        u = m.group(2)
        f = _UNITS.get(u) if u in _UNITS else _UNITS.get(u.lower())
        if f is None:
            return None
        tot += float(m.group(1) or 1) * f
    if pos != len(s):
        return None
    return tot


def num(t):
    """python number of a constant term or None"""
    if t is not None and t.op == 'const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return t.a[0]
    return None


def td(seconds):
    seconds = float(seconds)
    return mk('td', seconds)


def is_bool(t):
    return (t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.isfinite', 'numpy.isinf', 'numpy.isnan', 'numpy.isclose')) or \
        t.op in BOOL_OPS or (t.op == 'const' and isinstance(t.a[0], bool)) or \
        (t.op == 'where' and is_bool(t.a[1]) and is_bool(t.a[2])) or \
        (t.op == 'mcall' and t.a[1] in ('astype',) and kw(t, 'dtype') is not None and kw(t, 'dtype').op in ('ext', 'const') and kw(t, 'dtype').a[0] in ('bool', 'builtins.bool', 'numpy.bool_')) or \
        (t.op == 'mcall' and t.a[1] in ('fillna', 'ffill', 'bfill', 'shift', 'reindex') and is_bool(t.a[0])) or \
        (t.op == 'oncol' and is_bool(t.a[0])) or (t.op == 'filt' and is_bool(t.a[0])) or \
        (t.op == 'ite' and is_bool(t.a[1]) and is_bool(t.a[2])) or \
        (t.op == 'setloc' and is_bool(t.a[0]) and is_bool(t.a[3])) or \
        (t.op == 'mcall' and t.a[1] in ('any', 'all', 'duplicated', 'equals')) or (t.op == 'sub' and record_bool(t))


def record_bool(t):
    """a column of a table made of records that all hold a boolean there"""
    b, i = t.a
    if not (i.op == 'const' and isinstance(i.a[0], str) and b.op == 'call' and b.a[0].op == 'ext' and b.a[0].a[0] == 'pandas.DataFrame'):
        return False
    d = kw(b, 'data')
    if d is None or d.op != 'listof':
        return False
    for x in d.a:
        if getattr(x, 'op', None) == 'dict':
            v = dict_get(x, i)
            return v is not None and is_bool(v)
    return False


def kw(t, name, default=None):
    kws = t.a[3] if t.op == 'mcall' else t.a[2]
    for k, v in kws:
        if k == name:
            return v
    return default


def oncol(v, base):
    if v.op == 'oncol':
        v = v.a[0]
    return mk('oncol', v, base)


def strip(t):
    while t.op == 'oncol':
        t = t.a[0]
    return t


DEFAULTS = {('rolling', 'center'): False, ('rolling', 'closed'): None, ('rolling', 'min_periods'): None, ('resample', 'origin'): 'start_day',
            ('shift', 'periods'): 1, ('diff', 'periods'): 1, ('sort_index', 'ascending'): True, ('sort_values', 'ascending'): True,
            ('reset_index', 'drop'): False, ('set_index', 'drop'): True, ('merge', 'how'): 'inner', ('join', 'how'): 'left',
            ('drop_duplicates', 'keep'): 'first', ('interpolate', 'method'): 'linear', ('std', 'ddof'): 1, ('agg', 'skipna'): True,
            ('ffill', 'limit'): None, ('bfill', 'limit'): None, ('groupby', 'sort'): True, ('reindex', 'method'): None, ('asfreq', 'method'): None,
            ('isin', 'level'): None, ('dropna', 'how'): 'any', ('to_frame', 'name'): None, ('replace', 'regex'): False, ('rank', 'ascending'): True}
PANDAS_ATTRS = set('''index columns values name loc iloc at iat T shape size dtype dtypes empty dt str freq tz
inferred_freq plot ndim axes iterrows flat year month day hour minute second date time days seconds dayofyear names
microsecond nanosecond weekday week quarter is_leap_year is_monotonic_increasing is_unique freqstr tzinfo array hasnans
params bse'''.split())


def is_frame(t):
    o = t.op
    if o == 'setcol':
        return True
    if o == 'setattr':
        return is_frame(t.a[0])
    if o == 'mcall':
        if t.a[1] in ('to_frame', 'join', 'set_index', 'merge', 'iterrows'):
            return True
        if t.a[1] == 'reset_index':
            return not (kw(t, 'drop') is TRUE) or is_frame(t.a[0])
        if t.a[1] in ('copy', 'dropna', 'sort_values', 'sort_index', 'drop', 'reindex', 'fillna', 'ffill', 'bfill',
                      'interpolate', 'drop_duplicates', 'rename', 'asfreq', 'head', 'tail', 'round', 'replace', 'shift'):
            return is_frame(t.a[0])
    if o == 'call':
        if t.a[0].op == 'ext' and t.a[0].a[0] in ('pandas.DataFrame', 'pandas.merge', 'pandas.merge_asof',
                                                  'statsmodels.api.add_constant'):
            return True
        if t.a[0].op == 'ext' and t.a[0].a[0] == 'pandas.concat':
            return num(kw(t, 'axis') or NONE) == 1 or (kw(t, 'axis') is not None and kw(t, 'axis').a[0] == 'columns')
    if o == 'filt':
        return is_frame(t.a[0])
    if o == 'ite':
        return is_frame(t.a[1]) and is_frame(t.a[2])
    if o == 'sub' and t.a[1].op == 'list':
        return is_frame(t.a[0])
    if o == 'sub' and t.a[0].op == 'attr' and t.a[0].a[1] in ('loc', 'iloc') and t.a[1].op == 'slice':
        return is_frame(t.a[0].a[0])
    return False


def series_name(t):
    if t.op == 'setattr' and t.a[1] == 'name':
        return t.a[2]
    if t.op == 'setattr':
        return series_name(t.a[0])
    if t.op == 'mcall' and t.a[1] == 'rename':
        n = kw(t, 'index')
        if n is not None and n.op == 'const' and isinstance(n.a[0], str):
            return n
    if t.op == 'mcall' and t.a[1] in ('sort_index', 'dropna', 'fillna', 'resample', 'copy', 'rename_axis'):
        return series_name(t.a[0])
    if t.op == 'ite':
        n = series_name(t.a[1])
        return n if n is not None and n is series_name(t.a[2]) else None
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'pandas.Series':
        return kw(t, 'name') or (series_name(kw(t, 'data')) if kw(t, 'data') is not None else None)
    return None


def dict_get(t, key):
    """value for a const key in a 'dict' term"""
    if t.op == 'dict':
        for k, v in t.a[0]:
            if k is key:
                return v
    return None


def attr(t, name):
    if name == 'empty' and not t.op == 'ite':
        return tnot(cmp('<', const(0), call(mk('ext', 'builtins.len'), [t], ())))
    if t.op == 'setattr':
        if t.a[1] == name:
            return t.a[2]
        return attr(t.a[0], name)
    if t.op == 'setcol':
        if name == 'index':
            return attr(t.a[0], 'index')
        if t.a[1].op == 'const' and t.a[1].a[0] == name:
            return oncol(t.a[2], t.a[0])
        if (name not in PANDAS_ATTRS or name in ('dt', 'str')) and t.a[1].op == 'const':
            return attr(t.a[0], name)
    if t.op == 'where' and name == 'index' and t.a[2].op != 'const':
        return attr(t.a[2], 'index')
    if t.op == 'ite' and (t.a[1].op in ('setcol', 'setattr', 'dict', 'call') or t.a[2].op in ('setcol', 'setattr')):
        return tite(t.a[0], attr(t.a[1], name), attr(t.a[2], name))
    if (name not in PANDAS_ATTRS or name in ('dt', 'str')) and is_frame(t):
        return sub(t, const(name))
    if name == 'index' and t.op == 'mcall' and t.a[1] in ('to_frame', 'fillna', 'ffill', 'bfill', 'astype', 'clip', 'cumsum', 'round', 'abs'):
        return attr(t.a[0], 'index')
    if name == 'index' and t.op == 'oncol':
        return attr(t.a[1], 'index')
    if name == 'index' and t.op == 'mcall' and t.a[1] == 'rename' and \
            kw(t, 'index') is not None and kw(t, 'index').op == 'const':
        return attr(t.a[0], 'index')
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('pandas.Series', 'pandas.DataFrame') and name == 'index':
        i = kw(t, 'index')
        if i is not None and i is not NONE:
            return i
    if t.op == 'ext':
        return mk('ext', t.a[0] + '.' + name)
    if name in ('mse_resid', 'scale') and is_fit(t):
        return binop('/', mk('attr', t, 'ssr'), mk('attr', t, 'df_resid'))
    return mk('attr', t, name)


def is_fit(t):
    """result of a statsmodels least-squares fit"""
    return t.op == 'mcall' and t.a[1] == 'fit' and t.a[0].op == 'call' and t.a[0].a[0].op == 'ext' and t.a[0].a[0].a[0].endswith('OLS')


def agg(name, r, skip, kws):
    if name in ('sum', 'mean') and not kws and r.op == 'bin' and (r.a[0] == '**' and num(r.a[2]) == 2 or r.a[0] == '*' and r.a[1] is r.a[2]):
        f = r.a[1]
        if f.op == 'attr' and f.a[1] == 'resid' and is_fit(f.a[0]):
            ssr = mk('attr', f.a[0], 'ssr')
            return ssr if name == 'sum' else binop('/', ssr, mk('attr', f.a[0], 'nobs'))
    return mk('agg', name, r, skip, kws)


def is_full_slice(i):
    return i.op == 'slice' and all(x is NONE for x in i.a)


def sub(t, i):
    if t.op == 'quantile' and t.a[1].op in ('list', 'tuple'):
        qs = t.a[1].a[0]
        if i.op == 'const' and isinstance(i.a[0], int) and not isinstance(i.a[0], bool) and -len(qs) <= i.a[0] < len(qs):
            return mk('quantile', t.a[0], qs[i.a[0]], *t.a[2:])
        if i.op == 'slice' and all(x.op == 'const' and (x.a[0] is None or isinstance(x.a[0], int)) for x in i.a):
            return mk('quantile', t.a[0], mk(t.a[1].op, tuple(qs[slice(*[x.a[0] for x in i.a])])), *t.a[2:])
    if t.op in ('list', 'tuple') and i.op == 'slice' and all(x.op == 'const' and (x.a[0] is None or isinstance(x.a[0], int)) for x in i.a):
        return mk(t.op, tuple(t.a[0][slice(*[x.a[0] for x in i.a])]))
    if i.op == 'const' and type(i.a[0]) is int and i.a[0] < 0:
        if t.op == 'lappend':
            return t.a[1] if i.a[0] == -1 else sub(t.a[0], const(i.a[0] + 1))
        if t.op == 'ite' and any(x.op in ('lappend', 'mu') for x in t.a[1:]) and any(x.op == 'lappend' for x in subterms(t)):
            return tite(t.a[0], sub(t.a[1], i), sub(t.a[2], i))
    if i.op == 'const':
        if t.op in ('list', 'tuple') and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
            if -len(t.a[0]) <= i.a[0] < len(t.a[0]):
                return t.a[0][i.a[0]]
        v = dict_get(t, i)
        if v is not None:
            return v
        if t.op == 'setcol':
            if t.a[1] is i:
                return oncol(t.a[2], t.a[0])
            if t.a[1].op == 'const':
                return sub(t.a[0], i)
        if t.op == 'setattr':
            if t.a[1] == i.a[0] and i.a[0] not in PANDAS_ATTRS:
                return t.a[2]
            return sub(t.a[0], i)
        if t.op == 'ite' and (is_frame(t.a[1]) or t.a[1].op in ('dict', 'list', 'tuple', 'ite') or t.a[2].op in ('dict', 'list', 'tuple')):
            return tite(t.a[0], sub(t.a[1], i), sub(t.a[2], i))
        if isinstance(i.a[0], str):
            if t.op == 'mcall' and t.a[1] == 'to_frame':
                n = kw(t, 'name') or series_name(t.a[0])
                if n is i:
                    return oncol(t.a[0], t.a[0])
            if t.op == 'mcall' and t.a[1] == 'copy':
                return sub(t.a[0], i)
            if t.op == 'mcall' and t.a[1] in ('reset_index', 'rename_axis') and is_frame(t.a[0]) and 'level' not in dict(t.a[3]):
                x = sub(t.a[0], i)
                if x.op != 'sub':
                    # a column the table certainly has
                    return x if t.a[1] == 'rename_axis' else mk('mcall', x, 'reset_index', (), (('drop', TRUE),))
            if t.op == 'mcall' and t.a[1] == 'rename':
                d = kw(t, 'columns')
                if d is not None and d.op == 'dict' and all(k.op == 'const' and v.op == 'const' for k, v in d.a[0]):
                    inv = {v.a[0]: k for k, v in d.a[0]}
                    if len(inv) == len(d.a[0]):
                        if i.a[0] in inv:
                            return sub(t.a[0], inv[i.a[0]])
                        if i.a[0] not in {k.a[0] for k, _ in d.a[0]}:
                            return sub(t.a[0], i)
            if t.op == 'filt' and is_frame(t.a[0]):
                return filt(sub(t.a[0], i), t.a[1])
            if t.op == 'sub' and t.a[1].op == 'list' and is_frame(t.a[0]):
                return sub(t.a[0], i)
            if t.op == 'sub' and is_frame(t.a[0]) and t.a[1].op in ('sub', 'oncol', 'rowsel', 'bin'):
                # rows selected by a computed mask, then one column
                return sub(sub(t.a[0], i), t.a[1])
            if t.op == 'call' and t.a[0].op == 'ext':
                fn = t.a[0].a[0]
                if fn == 'pandas.DataFrame':
                    d = kw(t, 'data')
                    if d is not None and d.op == 'dict':
                        v = dict_get(d, i)
                        if v is not None:
                            return oncol(v, kw(t, 'index') if kw(t, 'index') not in (None, NONE) else v)
                    elif d is not None and is_frame(d):
                        return sub(d, i)
                if fn == 'statsmodels.api.add_constant' and i.a[0] != 'const':
                    return sub(kw(t, 'data'), i)
                if fn == 'pandas.concat':
                    ks, objs = kw(t, 'keys'), kw(t, 'objs')
                    if ks is not None and objs is not None and ks.op in ('list', 'tuple') and objs.op in ('list', 'tuple') \
                            and len(ks.a[0]) == len(objs.a[0]):
                        for k, o in zip(ks.a[0], objs.a[0]):
                            if k is i:
                                return oncol(o, t)
            if t.op == 'mcall' and is_frame(t.a[0]) and t.a[1] in ('reindex', 'ffill', 'bfill', 'shift') and not t.a[2] and \
                    not {k for k, _ in t.a[3]} & {'columns', 'axis', 'inplace'}:
                return mcall(sub(t.a[0], i), t.a[1], (), t.a[3])
            # a column of a row-selecting / row-reordering frame operation
            if t.op == 'mcall' and is_frame(t.a[0]) and t.a[1] in ('dropna', 'sort_index', 'sort_values', 'drop_duplicates', 'head', 'tail'):
                return mk('rowsel', sub(t.a[0], i), t)
            if t.op == 'mcall' and is_frame(t.a[0]) and t.a[1] == 'set_index':
                return oncol(sub(t.a[0], i), t)
            if t.op == 'sub' and t.a[0].op == 'attr' and t.a[0].a[1] in ('loc', 'iloc') and t.a[1].op == 'slice' and is_frame(t.a[0].a[0]):
                return sub(attr(sub(t.a[0].a[0], i), t.a[0].a[1]), t.a[1])
    if is_full_slice(i) and t.op != 'list':
        return t if not (t.op == 'attr' and t.a[1] in ('loc', 'iloc')) else t.a[0]
    if t.op == 'attr' and t.a[1] in ('loc', 'iloc') and i.op == 'slice' and i.a[0] is NONE and i.a[1] is NONE:
        return sub(t.a[0], i)
    if t.op == 'attr' and t.a[1] == 'loc' and i.op == 'slice' and not any(x.op == 'const' and x.a[0] is not None for x in i.a):
        return sub(t.a[0], i)
    if t.op == 'attr' and t.a[1] == 'loc':
        b = t.a[0]
        if i.op == 'tuple' and len(i.a[0]) == 2:
            r, c = i.a[0]
            if c.op == 'const' and isinstance(c.a[0], str):
                col = sub(b, c)
                return col if is_full_slice(r) else sub(attr(col, 'loc'), r)
            if c.op == 'list':
                cc = mk('sub', b, c)
                return cc if is_full_slice(r) else sub(attr(cc, 'loc'), r)
        if is_bool(i):
            return filt(b, i)
        if i.op == 'const' and isinstance(i.a[0], str) and False:
            return t
    if is_bool(i):
        return filt(t, i)
    return mk('sub', t, i)


def filt(t, m):
    return mk('filt', t, m)


def where(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk('where', c, a, b)


_FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def filled(t):
    if t.op == 'ite':
        x = filled(t.a[1])
        return x if x is not None and x is filled(t.a[2]) else None
    t = strip(t)
    return t if t.op == 'const' else None


def cmp(op, a, b):
    if a.op == 'const' and b.op == 'const':
        try:
            x, y = a.a[0], b.a[0]
            return const({'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y,
                          '==': lambda: x == y, '!=': lambda: x != y}[op]())
        except TypeError:
            pass
    if op == '!=':
        return tnot(cmp('==', a, b))
    if op in ('>', '>='):
        return cmp(_FLIP[op], b, a)
    if op == '==' and (a.op == 'const') != (b.op == 'const'):
        # a column filled with one value
        c = filled(a), filled(b)
        if c[0] is not None and c[1] is not None and type(c[0].a[0]) is type(c[1].a[0]):
            return const(c[0].a[0] == c[1].a[0])
    if op == '==':
        if b is TRUE and is_bool(a):
            return a
        if a is TRUE and is_bool(b):
            return b
        if b is FALSE and is_bool(a):
            return tnot(a)
        if a is FALSE and is_bool(b):
            return tnot(b)
        if a.op == 'td' and b.op == 'td':
            return const(a is b)
        if a.id > b.id:
            a, b = b, a
    if op in ('<', '<=') and a.op == 'td' and b.op == 'td':
        return const(a.a[0] < b.a[0] if op == '<' else a.a[0] <= b.a[0])
    if a.op == 'ite' and b.op == 'const' and (a.a[1].op == 'const' or a.a[2].op == 'const'):
        return tite(a.a[0], cmp(op, a.a[1], b), cmp(op, a.a[2], b))
    if b.op == 'ite' and a.op == 'const' and (b.a[1].op == 'const' or b.a[2].op == 'const'):
        return tite(b.a[0], cmp(op, a, b.a[1]), cmp(op, a, b.a[2]))
    if is_len(a) and b.op == 'const' or is_len(b) and a.op == 'const':
        # sizes are natural numbers
        if op == '==' and (a if a.op == 'const' else b).a[0] == 0:
            return tnot(mk('cmp', '<', const(0), b if a.op == 'const' else a))
        if op == '<=' and b.op == 'const' and b.a[0] == 0:
            return tnot(mk('cmp', '<', const(0), a))
        if op == '<' and b.op == 'const' and b.a[0] == 1:
            return tnot(mk('cmp', '<', const(0), a))
        if op == '<=' and a.op == 'const' and a.a[0] == 1:
            return mk('cmp', '<', const(0), b)
    return mk('cmp', op, a, b)


def is_len(t):
    return t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'builtins.len'


def binop(op, a, b):
    if op == '&':
        return tand(a, b)
    if op == '|':
        return tor(a, b)
    if op == '^' and is_bool(a) and is_bool(b):
        return tor(tand(a, tnot(b)), tand(tnot(a), b))
    if a.op == 'const' and b.op == 'const':
        x, y = a.a[0], b.a[0]
        try:
            if op == '+':
                return const(x + y)
            if op == '-':
                return const(x - y)
            if op == '*':
                return const(x * y)
            if op == '/':
                return const(x / y)
            if op == '//':
                return const(x // y)
            if op == '%':
                return const(x % y)
            if op == '**':
                return const(x ** y)
        except Exception:
            pass
    if op == '%' and a.op == 'const' and isinstance(a.a[0], str):
        return mk('fmt', a, b)
    if a.op in ('list', 'tuple') and a.op == b.op and op == '+':
        return mk(a.op, a.a[0] + b.a[0])
    return mk('bin', op, a, b)


def unop(op, a):
    if op == '-':
        n = num(a)
        if n is not None:
            return const(-n)
        return mk('bin', '*', const(-1), a)
    if op in ('~', 'not'):
        return tnot(a)
    return a


_M2BIN = {'add': '+', 'sub': '-', 'subtract': '-', 'mul': '*', 'multiply': '*', 'div': '/', 'truediv': '/', 'divide': '/',
          'pow': '**'}
_R2BIN = {'radd': '+', 'rsub': '-', 'rmul': '*', 'rdiv': '/', 'rtruediv': '/'}
_M2CMP = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}
_U2BIN = {'numpy.add': '+', 'numpy.subtract': '-', 'numpy.multiply': '*', 'numpy.divide': '/', 'numpy.true_divide': '/',
          'numpy.power': '**', 'operator.add': '+', 'operator.sub': '-', 'operator.mul': '*', 'operator.truediv': '/',
          'operator.and_': '&', 'operator.or_': '|', 'numpy.bitwise_and': '&', 'numpy.bitwise_or': '|'}
_U2CMP = {'numpy.less': '<', 'numpy.less_equal': '<=', 'numpy.greater': '>', 'numpy.greater_equal': '>=',
          'numpy.equal': '==', 'numpy.not_equal': '!=', 'operator.lt': '<', 'operator.le': '<=', 'operator.gt': '>',
          'operator.ge': '>=', 'operator.eq': '==', 'operator.ne': '!='}


def _named(sig, args, kws):
    d = []
    for n, v in zip(sig, args):
        d.append((n, v))
    rest = args[len(sig):]
    d += [(k, v) for k, v in kws if k not in dict(d)]
    return tuple(rest), tuple(sorted(d, key=lambda p: p[0] or ''))


def quant(x, q, pct, nanskip, extra=()):
    """quantile node; q expressed in percent"""
    if not pct:
        if q.op in ('list', 'tuple'):
            q = mk(q.op, tuple(binop('*', const(100), e) for e in q.a[0]))
        else:
            q = binop('*', const(100), q)
    if q.op in ('list', 'tuple'):
        q = mk('list', q.a[0])
    return mk('quantile', x, q, nanskip, tuple(extra))


def is_grouped(t):
    n = 0
    while n < 30:
        n += 1
        if t.op == 'mcall' and t.a[1] in ('resample', 'rolling', 'groupby', 'expanding', 'ewm'):
            return True
        if t.op in ('sub', 'attr') and isinstance(t.a[0], T):
            t = t.a[0]
            continue
        return False
    return False


def mcall(r, name, args, kws):
    if any(k == 'method' and v.op == 'const' and v.a[0] in ('backfill', 'pad') for k, v in kws):
        fm = {'backfill': const('bfill'), 'pad': const('ffill')}
        kws = tuple((k, fm.get(v.a[0], v) if k == 'method' and v.op == 'const' else v) for k, v in kws)
    if any(k == 'axis' and v.op == 'const' and isinstance(v.a[0], str) for k, v in kws):
        ax = {'columns': const(1), 'index': const(0), 'rows': const(0)}
        kws = tuple((k, ax.get(v.a[0], v) if k == 'axis' and v.op == 'const' and isinstance(v.a[0], str) else v) for k, v in kws)
    args, kws = tuple(args), tuple(kws)
    if r.op == 'ext':
        return call(mk('ext', r.a[0] + '.' + name), args, kws)
    if name in MSIG:
        args, kws = _named(MSIG[name], args, kws)
    else:
        kws = tuple(sorted(kws, key=lambda p: p[0] or ''))
    if any((name, k) in DEFAULTS for k, _ in kws):
        kws = tuple((k, v) for k, v in kws if not ((name, k) in DEFAULTS and v.op == 'const' and type(v.a[0]) is type(DEFAULTS[name, k])
                                                   and v.a[0] == DEFAULTS[name, k]))
    d = dict(kws)
    only = set(d)
    if not args:
        if name in _M2BIN and only == {'other'}:
            return binop(_M2BIN[name], r, d['other'])
        if name in _R2BIN and only == {'other'}:
            return binop(_R2BIN[name], d['other'], r)
        if name in _M2CMP and only == {'other'}:
            return cmp(_M2CMP[name], r, d['other'])
        if name in ('isna', 'isnull') and not only:
            return isna(r)
        if name in ('notna', 'notnull') and not only:
            return tnot(isna(r))
        if name == 'abs' and not only:
            return mk('abs', r)
        if name == 'clip' and only <= {'lower', 'upper'}:
            return clip(r, d.get('lower'), d.get('upper'))
        if name in ('sort_index', 'dropna', 'drop_duplicates', 'sort_values', 'tz_convert') and not only and not args and r.op == 'mcall' and \
                r.a[1] == name and not r.a[2] and not r.a[3]:
            return r
        if name == 'copy':
            return r
        if name == 'to_numpy' and not only:
            return mk('attr', r, 'values')
        if name == 'rename' and only <= {'index', 'copy'} and d.get('index') is not None and d['index'].op == 'const' \
                and (d['index'].a[0] is None or isinstance(d['index'].a[0], str)):
            return mk('setattr', r, 'name', d['index'])
        if name == 'where' and 'cond' in only:
            return where(d['cond'], r, d.get('other', const(float('nan'))))
        if name == 'combine' and 'func' in only and d['func'].op == 'ext' and d['func'].a[0] in ('builtins.min', 'builtins.max'):
            o = d['other']
            return where(cmp('<', o, r) if d['func'].a[0] == 'builtins.min' else cmp('<', r, o), o, r)
        if name == 'mask' and 'cond' in only:
            return where(d['cond'], d.get('other', const(float('nan'))), r)
        if name == 'between' and 'left' in only and 'right' in only:
            inc = d.get('inclusive')
            inc = inc.a[0] if inc is not None and inc.op == 'const' else ('both' if inc is None else None)
            if inc in ('both', 'left', 'right', 'neither', True, False):
                lo = '<=' if inc in ('both', 'left', True) else '<'
                hi = '<=' if inc in ('both', 'right', True) else '<'
                return tand(cmp(lo, d['left'], r), cmp(hi, r, d['right']))
        if name == 'quantile' and only <= {'q', 'interpolation', 'axis'}:
            return quant(r, d.get('q', const(0.5)), False, True, [x for x in kws if x[0] != 'q'])
        if name == 'fillna' and 'value' in only and d['value'].op == 'const':
            return where(isna(r), d['value'], r)
        if name == 'assign':
            t = r
            for k, v in kws:
                if k is not None:
                    t = setcol(t, const(k), v)
            return t
        if name == 'get' and 'key' in only and is_frame(r):
            return sub(r, d['key'])
        if name in ('median', 'mean', 'sum', 'std', 'min', 'max', 'count', 'var') and not only:
            return agg(name, r, True, ())
        if name in ('median', 'mean', 'sum', 'std', 'min', 'max') and only <= {'axis', 'skipna'} and \
                d.get('skipna', TRUE) is TRUE:
            return agg(name, r, True, tuple(x for x in kws if x[0] != 'skipna'))
        if name == 'diff' and only <= {'periods'} and not is_grouped(r):
            return binop('-', r, mcall(r, 'shift', (), kws))
        if name in ('total_seconds',) and r.op == 'td':
            return const(r.a[0])
        if name == 'ffill' and not only:
            return mk('mcall', r, 'ffill', (), ())
        if name == 'astype' and d.get('dtype') is not None and d['dtype'].op in ('const', 'ext') and \
                d['dtype'].a[0] in ('float', 'float64', 'builtins.float', 'numpy.float64') and not is_bool(r):
            return mk('mcall', r, 'astype', (), (('dtype', mk('ext', 'builtins.float')),))
        if name == 'astype' and d.get('dtype') is not None and d['dtype'].op in ('const', 'ext') and \
                d['dtype'].a[0] in ('bool', 'numpy.bool_', '?', 'numpy.bool'):
            return mcall(r, 'astype', (), tuple((k, mk('ext', 'builtins.bool')) if k == 'dtype' else (k, v) for k, v in kws))
        if name == 'astype' and d.get('dtype') is not None and d['dtype'].op in ('const', 'ext') and \
                d['dtype'].a[0] in ('int', 'int64', 'numpy.int64'):
            return mcall(r, 'astype', (), tuple((k, mk('ext', 'builtins.int')) if k == 'dtype' else (k, v) for k, v in kws))
    if r.op == 'const' and isinstance(r.a[0], str) and all(x.op == 'const' for x in args) and not kws:
        if name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'replace', 'format', 'split', 'capitalize',
                    'join', 'title', 'lstrip', 'rstrip', 'removesuffix', 'removeprefix'):
            try:
                v = getattr(r.a[0], name)(*[x.a[0] for x in args])
                if isinstance(v, list):
                    return mk('list', tuple(const(z) for z in v))
                return const(v)
            except Exception:
                pass
    return mk('mcall', r, name, args, kws)


def isna(x):
    if x.op == 'const':
        return const(x.a[0] is None or (isinstance(x.a[0], float) and math.isnan(x.a[0])))
    if is_bool(x) and x.op in ('cmp', 'isna', 'and', 'or', 'not'):
        return mk('isna', x)
    return mk('isna', x)


def isnone(t):
    if t.op == 'const':
        return const(t.a[0] is None)
    if t.op == 'ite':
        a, b = isnone(t.a[1]), isnone(t.a[2])
        if a.op == 'const' and b.op == 'const':
            return tite(t.a[0], a, b)
        if a.op == 'const' or b.op == 'const':
            if a is TRUE:
                return tor(t.a[0], b)
            if a is FALSE:
                return tand(tnot(t.a[0]), b)
            if b is TRUE:
                return tor(tnot(t.a[0]), a)
            return tand(t.a[0], a)
        return tite(t.a[0], a, b)
    if t.op in ('bin', 'cmp', 'setcol', 'setloc', 'where', 'filt', 'oncol', 'td', 'list', 'tuple', 'dict', 'fmt', 'quantile',
                'agg', 'abs', 'isna', 'and', 'or', 'not', 'rowsel', 'listof', 'func', 'lam', 'cls', 'ext', 'obj', 'clip'):
        return FALSE
    if t.op == 'setattr':
        return isnone(t.a[0])
    if t.op == 'call':
        return mk('isnone', t) if t.a[0].op == 'ext' and t.a[0].a[0].endswith('infer_freq') else FALSE
    if t.op == 'mcall' and t.a[1] not in ('get', 'pop'):
        return FALSE
    if t.op == 'attr' and t.a[1] in ('index', 'values', 'columns', 'iloc', 'loc', 'shape', 'T'):
        return FALSE
    return mk('isnone', t)


def clip(x, lo, hi):
    return mk('clip', x, lo if lo is not None else NONE, hi if hi is not None else NONE)


def call(f, args, kws):
    args, kws = tuple(args), tuple(kws)
    if f.op != 'ext':
        return mk('call', f, args, tuple(sorted(kws, key=lambda p: p[0] or '')))
    n = f.a[0]
    if n in FSIG:
        args, kws = _named(FSIG[n], args, kws)
    else:
        kws = tuple(sorted(kws, key=lambda p: p[0] or ''))
    d = dict(kws)
    if not kws:
        if n in _U2BIN and len(args) == 2:
            return binop(_U2BIN[n], *args)
        if n in _U2CMP and len(args) == 2:
            return cmp(_U2CMP[n], *args)
        if n in ('numpy.logical_and', 'numpy.logical_or') and len(args) == 2:
            return (tand if n.endswith('and') else tor)(*args)
        if n in ('numpy.logical_not', 'numpy.invert', 'operator.not_', 'operator.invert') and len(args) == 1:
            return tnot(args[0])
        if n in ('numpy.negative', 'operator.neg') and len(args) == 1:
            return unop('-', args[0])
        if n in ('numpy.abs', 'numpy.absolute', 'builtins.abs', 'numpy.fabs') and len(args) == 1:
            if num(args[0]) is not None:
                return const(abs(num(args[0])))
            return mk('abs', args[0])
        if n in ('pandas.isna', 'pandas.isnull', 'numpy.isnan') and len(args) == 1:
            return isna(args[0])
        if n in ('pandas.notna', 'pandas.notnull') and len(args) == 1:
            return tnot(isna(args[0]))
        if n in ('builtins.float', 'builtins.int') and len(args) == 1 and args[0].op == 'const':
            try:
                return const((float if n.endswith('float') else int)(args[0].a[0]))
            except Exception:
                pass
        if n == 'builtins.str' and len(args) == 1 and args[0].op == 'const':
            return const(str(args[0].a[0]))
        if n == 'builtins.len' and len(args) == 1:
            if args[0].op in ('list', 'tuple'):
                return const(len(args[0].a[0]))
            if args[0].op == 'const' and isinstance(args[0].a[0], (str, tuple)):
                return const(len(args[0].a[0]))
            x = args[0]
            while (x.op == 'setattr' and x.a[1] in ('name', 'index')) or (x.op == 'mcall' and x.a[1] in ('sort_index', 'copy', 'rename', 'sort_values') and not
                                                                          any(k == 'axis' for k, _ in x.a[3])):
                x = x.a[0]
            if x is not args[0]:
                return call(f, [x], kws)
        if n == 'numpy.square' and len(args) == 1:
            return binop('**', args[0], const(2))
        if n == 'builtins.pow' and len(args) == 2:
            return binop('**', *args)
        if n in ('builtins.min', 'builtins.max') and len(args) >= 2 and all(num(x) is not None for x in args):
            return const((min if n.endswith('min') else max)(num(x) for x in args))
        if n in ('builtins.min', 'builtins.max'):
            xs = args if len(args) >= 2 else args[0].a[0] if len(args) == 1 and args[0].op in ('list', 'tuple') else ()
            if len(xs) >= 2 and not any(x.op == 'star' for x in xs):
                f = mk('ext', 'numpy.minimum' if n.endswith('min') else 'numpy.maximum')
                t = xs[0]
                for x in xs[1:]:
                    t = mk('call', f, (t, x), ())
                return t
            if len(xs) == 1:
                return xs[0]
        if n in ('numpy.sqrt', 'math.sqrt') and len(args) == 1:
            return binop('**', args[0], const(0.5))
    if n in ('numpy.percentile', 'numpy.nanpercentile', 'numpy.quantile', 'numpy.nanquantile') and 'a' in d and 'q' in d:
        return quant(d['a'], d['q'], n.endswith('percentile'), 'nan' in n.split('.')[1], [x for x in kws if x[0] not in 'aq'])
    if n == 'numpy.where' and {'condition', 'x', 'y'} <= set(d):
        return where(d['condition'], d['x'], d['y'])
    if n == 'numpy.clip' and 'a' in d:
        return clip(d['a'], d.get('a_min', d.get('min')), d.get('a_max', d.get('max')))
    if n in ('numpy.sum', 'numpy.mean', 'numpy.median', 'numpy.std', 'numpy.nansum', 'numpy.nanmean', 'numpy.nanmedian') and 'a' in d:
        b = n.split('.')[1]
        sk = b.startswith('nan')
        return agg(b[3:] if sk else b, d['a'], sk, tuple(x for x in kws if x[0] != 'a'))
    if n in ('pandas.Timedelta', 'pandas.to_timedelta', 'numpy.timedelta64', 'datetime.timedelta'):
        v = None
        if len(args) == 1 and args[0].op == 'const' and isinstance(args[0].a[0], str) and not kws:
            v = parse_td(args[0].a[0])
        elif len(args) == 1 and num(args[0]) is not None and not kws:
            v = num(args[0]) * (86400 if n.startswith('datetime') else 1e-9) if not n.startswith('numpy') else None
        elif len(args) == 2 and num(args[0]) is not None and args[1].op == 'const':
            u = args[1].a[0]
            if isinstance(u, str):
                f = _UNITS.get(u) or _UNITS.get(u.lower())
                v = num(args[0]) * f if f and u != 'M' and u != 'Y' else None
        elif len(args) == 1 and num(args[0]) is not None and set(d) == {'unit'} and d['unit'].op == 'const':
            f = _UNITS.get(d['unit'].a[0])
            v = num(args[0]) * f if f else None
        elif not args and kws and all(num(x) is not None and k in _UNITS for k, x in kws):
            v = sum(num(x) * _UNITS[k] for k, x in kws)
        elif len(args) == 1 and args[0].op == 'td':
            return args[0]
        if v is not None:
            return td(v)
    if n in ('pandas.Series',) and set(d) == {'data'} and not args and d['data'].op in ('oncol', 'rowsel', 'filt'):
        return d['data']
    return mk('call', f, args, kws)


def setcol(t, key, val):
    val = strip(val)
    if t.op == 'setcol' and t.a[1] is key:
        t = t.a[0]
    return mk('setcol', t, key, val)


def setitem(t, i, v):
    """t[i] = v"""
    if t.op == 'attr' and t.a[1] in ('loc', 'at', 'iloc', 'iat'):
        b = t.a[0]
        if t.a[1] in ('loc', 'at') and i.op == 'tuple' and len(i.a[0]) == 2:
            r, c = i.a[0]
            if c.op == 'const' and isinstance(c.a[0], str):
                if is_full_slice(r):
                    return b, setcol(b, c, v)
                if is_bool(r):
                    return b, setcol(b, c, where(r, v, strip(sub(b, c))))
                return b, setcol(b, c, mk('setloc', strip(sub(b, c)), t.a[1], r, v))
        if t.a[1] in ('loc', 'iloc') and is_bool(i):
            return b, where(i, v, b)
        if is_full_slice(i):
            return b, mk('fillall', b, v)
        return b, mk('setloc', b, t.a[1], i, v)
    if is_bool(i):
        return t, where(i, v, t)
    if i.op == 'const' and isinstance(i.a[0], str):
        return t, setcol(t, i, v)
    return t, mk('setloc', t, '', i, v)


def setattr_(t, name, v):
    if name not in PANDAS_ATTRS and is_frame(t):
        # pandas: attribute assignment to an existing column
        return setcol(t, const(name), v)
    if t.op == 'setattr' and t.a[1] == name:
        t = t.a[0]
    return mk('setattr', t, name, v)
