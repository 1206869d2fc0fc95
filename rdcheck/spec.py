"""Reference formulas: specification text is turned into terms by the same front end."""
import ast
import textwrap
from .loader import Mod, Func
from .interp import Interp, State, V
from .terms import *
from . import equiv

HEADER = '''
import numpy as np
import pandas as pd
import pvlib
import statsmodels.api as sm
from scipy.interpolate import interp1d
import arch
'''


class SpecMod(Mod):
    def __init__(self, prog, src):
        self.prog, self.name, self.path, self.rel = prog, 'rdtools._spec', '<spec>', '<spec>'
        self.src = HEADER + textwrap.dedent(src)
        self.tree = ast.parse(self.src)
        self.names, self.functions, self.classes = {}, {}, {}
        for n in self.tree.body:
            self._top(n)


def doc_types(fn):
    """numpydoc parameter types -> {'series','scalar','bool','str',...}"""
    out = {}
    doc = fn.doc or ''
    import re
    for m in re.finditer(r'^\s*([A-Za-z_][\w, ]*?)\s*:\s*(.+)$', doc, re.M):
        ty = m.group(2).lower()
        for nm in m.group(1).split(','):
            nm = nm.strip()
            if nm in fn.params + fn.kwonly and nm not in out:
                if 'dataframe' in ty:
                    out[nm] = 'frame'
                elif 'series' in ty:
                    out[nm] = 'series'
                elif 'array' in ty:
                    out[nm] = 'ndarray'
                elif 'bool' in ty:
                    out[nm] = 'bool'
                elif 'dict' in ty:
                    out[nm] = 'dict'
                elif 'str' in ty:
                    out[nm] = 'str'
                elif 'float' in ty or 'int' in ty:
                    out[nm] = 'scalar'
                elif 'numeric' in ty:
                    out[nm] = 'series'
    for p, d in fn.defaults.items():
        if p not in out and isinstance(d, ast.Constant):
            if isinstance(d.value, bool):
                out[p] = 'bool'
            elif isinstance(d.value, (int, float)):
                out[p] = 'scalar'
            elif isinstance(d.value, str):
                out[p] = 'str'
    return out


class Run:
    def __init__(self, prog, fn, consts=None, self_v=None, extra=None, hooks=None, opaque=(), vals=None, facts=()):
        self.fn = fn
        self.it = it = Interp(prog)
        it.opaque = set(opaque)
        it.hooks = hooks or {}
        self.types = doc_types(fn)
        it.ptypes = {k: v for k, v in self.types.items() if v in ('series', 'frame', 'ndarray', 'scalar')}
        consts = consts or {}
        vals = vals or {}
        args = {}
        names = list(fn.params) + list(fn.kwonly)
        if self_v is not None and names:
            names = names[1:]
        self.names = names
        for x in names:
            if x in vals:
                args[x] = vals[x](it) if callable(vals[x]) else vals[x]
            elif x in consts:
                args[x] = it.c(consts[x])
            else:
                args[x] = it.param(x)
        if fn.kwarg and (extra or {}).get('kwargs', True):
            args['**'] = it.param('**' + fn.kwarg)
        st = State()
        for t, val in facts:
            it.assume(t, val, st)
        sv = self_v(it, st) if callable(self_v) else self_v
        self.self_v = sv
        self.st, self.v = it.run(fn, args, st=st, self_v=sv)
        self.t = it.term(self.v, self.st) if self.st is not None else None
        self.events = it.events

    def scalars(self):
        return {k for k, v in self.types.items() if v in ('scalar', 'str', 'bool', 'dict')}

    def bools(self):
        return {k for k, v in self.types.items() if v == 'bool'}


def spec_term(prog, src, name, names, consts, types=None, facts=(), hooks=None, vals=None):
    m = SpecMod(prog, src)
    fn = m.functions[name]
    it = Interp(prog)
    it.ptypes = {k: v for k, v in (types or {}).items() if v in ('series', 'frame', 'ndarray', 'scalar')}
    it.hooks = hooks or {}
    args = {}
    vals = vals or {}
    for x in fn.params:
        if x in vals:
            args[x] = vals[x](it) if callable(vals[x]) else vals[x]
        else:
            args[x] = it.c(consts[x]) if x in consts else it.param(x)
    if fn.kwarg:
        args['**'] = it.param('**' + fn.kwarg)
    st = State()
    for t, val in facts:
        it.assume(t, val, st)
    st, v = it.run(fn, args, st=st)
    return it.term(v, st)


def component(t, path):
    """follow a component path such as (0,) or (2, 'YoY_values') through tuples, dicts and gates"""
    from . import build as B
    for p in path:
        t = B.sub(t, const(p))
    return t
