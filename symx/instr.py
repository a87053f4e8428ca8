"""Import-time instrumentation of the code under test."""
from __future__ import annotations
import ast
import builtins
import copy as _copy
import enum
import functools as _ft
import importlib.abc
import importlib.machinery
import importlib.util
import itertools as _it
import math
import operator
import os
import re as _re
import sys
import types as _pt
import z3 as _z3
from .core import (E, Sym, SymBool, SymInt, SymFloat, SymNum, Control,
                   Truncated, concrete, deep_concrete, deep_has_sym, is_sym, ti,
                   STEP_LIMIT, wrap_bool)
from . import strs
from .strs import SymStr, chars_of, mkstr, re_call, int_to_str, pad_int, \
    str_to_int, bfork, C as _C

FunctionType = _pt.FunctionType
MethodType = _pt.MethodType
BuiltinType = _pt.BuiltinFunctionType
MethodWrapper = type([].__len__)


# ---------------------------------------------------------------------------
# runtime helpers
# ---------------------------------------------------------------------------

def find_key(d, k):
    """(found, canonical key) of k in dict/set d under symbolic equality."""
    for e in d:
        if e is k:
            return True, e
    ks = is_sym(k)
    for e in list(d):
        if not ks and not is_sym(e) and type(e) is not tuple:
            if type(e) is type(k) or not ti(e, (Sym,)):
                if e == k:
                    return True, e
            continue
        if ti(e, str) != ti(k, str):
            continue
        if e == k:       # forks
            return True, e
    return False, k


def slow(d, k):
    return is_sym(k) or E.symkeys and any(is_sym(e) for e in d) or \
        (type(k) is tuple and deep_has_sym(k))


_MISSING = object()


class DictView:
    """Subscript access to a dict honouring symbolic keys."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        if not slow(d, k):
            return d[k]
        found, kk = find_key(d, k)
        if not found:
            if type(d).__missing__ if hasattr(type(d), '__missing__') else 0:
                return d[k]
            raise KeyError(k)
        return d[kk]

    def __setitem__(self, k, v):
        d = self.d
        if slow(d, k):
            k = find_key(d, k)[1]
        d[k] = v

    def __delitem__(self, k):
        d = self.d
        if slow(d, k):
            found, k = find_key(d, k)
            if not found:
                raise KeyError(k)
        del d[k]


class EnumView:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        if not is_sym(k):
            return self.d[k]
        for name, m in self.d.__members__.items():
            if k == name:
                return m
        raise KeyError(concrete(k) if False else 'symbolic name')


def clamp_index(i, n):
    """A concrete index with the same effect on a sequence of length n."""
    if type(i) is not SymInt:
        return i
    if E.fork(_z3.Or(i.e >= n, i.e < -n)):
        return n + 1
    return E.concretize(i.e, 'index')


def clamp_insert(i, n):
    if type(i) is not SymInt:
        return i
    return E.concretize(_z3.If(i.e < -n, _z3.IntVal(-n),
                               _z3.If(i.e > n, _z3.IntVal(n), i.e)), 'insert')


def clamp_slice(s, n):
    """A concrete slice selecting the same positions of a length-n sequence."""
    a, b, c = s.start, s.stop, s.step
    if not (is_sym(a) or is_sym(b) or is_sym(c)):
        return s
    c = concrete(c) if c is not None else None
    pos = c is None or c > 0

    def cl(x):
        if type(x) is not SymInt:
            return x
        e = x.e
        if pos:
            t = _z3.If(e < 0, _z3.If(e + n < 0, _z3.IntVal(0), e + n),
                       _z3.If(e > n, _z3.IntVal(n), e))
            return E.concretize(t, 'slice')
        t = _z3.If(e < 0, _z3.If(e + n < 0, _z3.IntVal(-1), e + n),
                   _z3.If(e >= n, _z3.IntVal(n - 1), e))
        v = E.concretize(t, 'slice')
        return -n - 1 if v == -1 else v
    return slice(cl(a), cl(b), c)


def char_at(d, k):
    """The character of a concrete string at a symbolic position: one term
    instead of a path for each position."""
    n = len(d)
    if E.fork(_z3.Or(k.e >= n, k.e < -n)):
        raise IndexError('string index out of range')
    at = _z3.If(k.e < 0, k.e + n, k.e)
    runs = []                       # [last position, code - position]
    for i, c in enumerate(d):
        if runs and runs[-1][1] == ord(c) - i:
            runs[-1][0] = i
        else:
            runs.append([i, ord(c) - i])
    e = at + runs[-1][1]
    for last, off in reversed(runs[:-1]):
        e = _z3.If(at <= last, at + off, e)
    return SymStr([_C(e, frozenset(map(ord, d)))])


class ListView:
    """Subscript access to a list/tuple/str with symbolic positions."""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        if type(k) is SymInt:
            if type(d) is str and len(d) > 4:
                return char_at(d, k)
            if type(d).__getitem__ in _BASE_GET:
                k = clamp_index(k, len(d))
        elif type(k) is slice:
            if type(d).__getitem__ in _BASE_GET:
                k = clamp_slice(k, len(d))
        return d[k]

    def __setitem__(self, k, v):
        d = self.d
        if type(d).__setitem__ is list.__setitem__:
            if type(k) is SymInt:
                k = clamp_index(k, len(d))
            elif type(k) is slice:
                k = clamp_slice(k, len(d))
        d[k] = v

    def __delitem__(self, k):
        d = self.d
        if type(d).__delitem__ is list.__delitem__:
            if type(k) is SymInt:
                k = clamp_index(k, len(d))
            elif type(k) is slice:
                k = clamp_slice(k, len(d))
        del d[k]


_BASE_GET = (list.__getitem__, tuple.__getitem__, str.__getitem__)


def list_method(x, f, name, a, k):
    n = len(x)
    if name in ('__setitem__', '__getitem__', '__delitem__'):
        i = a[0]
        if type(i) is SymInt:
            i = clamp_index(i, n)
        elif type(i) is slice:
            i = clamp_slice(i, n)
        return f(i, *a[1:])
    if name == 'pop' and a:
        return f(clamp_index(a[0], n))
    if name == 'insert':
        return f(clamp_insert(a[0], n), *a[1:])
    return f(*a, **k)


def sx_sub(d):
    if E.active:
        t = type(d)
        if t is list or t is tuple or t is str or (issubclass(t, list)):
            return ListView(d)
        if ti(d, dict) and not is_sym(d):
            return DictView(d)
        if ti(d, enum.EnumMeta):
            return EnumView(d)
    return d


def sx_in(k, c):
    if E.active and ti(c, (dict, set, frozenset)):
        if slow(c, k):
            return find_key(c, k)[0]
    if E.active and is_sym(k):
        if type(c) is str:
            if not ti(k, str):
                return k in c
            return k_in_str(k, c)
        if ti(c, type({}.keys())):
            return find_key(list(c), k)[0]
        if ti(c, enum.EnumMeta):
            return any(k == m.value for m in c)
    elif E.active and E.symkeys and ti(c, type({}.keys())):
        if any(is_sym(e) for e in c):
            return find_key(list(c), k)[0]
    return k in c


def k_in_str(k, c):
    return SymStr(chars_of(c)).__contains__(k)


def sx_notin(k, c):
    return not sx_in(k, c)


def sx_is(a, b):
    if type(a) is SymBool:
        a = bool(a)
    if type(b) is SymBool:
        b = bool(b)
    return a is b


def sx_isnot(a, b):
    return not sx_is(a, b)


def sx_eq(a, b):
    if E.active and E.symkeys and ti(a, dict) and ti(b, dict)\
            and (any(is_sym(k) for k in a) or any(is_sym(k) for k in b)):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            f, kk = find_key(b, k)
            if not f:
                return False
            r = sx_eq(v, b[kk])
            if not r:
                return False
        return True
    return a == b


def sx_ne(a, b):
    if E.active and E.symkeys and ti(a, dict) and ti(b, dict):
        return not sx_eq(a, b)
    return a != b


def sx_dict(*items):
    d = {}
    for it in items:
        if len(it) == 1:
            for k in it[0].keys():
                _dset(d, k, it[0][k])
        else:
            _dset(d, it[0], it[1])
    return d


def _dset(d, k, v):
    if E.active and slow(d, k):
        k = find_key(d, k)[1]
    d[k] = v


def sx_dictcomp(gen):
    d = {}
    for k, v in gen:
        _dset(d, k, v)
    return d


def sx_set(it):
    s = set()
    for k in it:
        if E.active and slow(s, k):
            f, k = find_key(s, k)
            if f:
                continue
        s.add(k)
    return s


def to_str(x):
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymFloat:
        return str(concrete(x))
    if t is SymBool:
        return str(bool(x))
    if ti(x, BaseException) and deep_has_sym(x.args):
        return 'exception with symbolic arguments'
    if (t is list or t is tuple or t is dict) and deep_has_sym(x):
        return str(deep_concrete(x))
    return str(x)


OPAQUE = '<symbolic>'


def sx_fstr(*parts):
    """f-string: symbolic strings are concatenated; other symbolic values are
    rendered as an opaque marker (message text is outside every claim)."""
    out = None
    buf = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if not E.active or not deep_has_sym(v):
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                try:
                    p = format(v, spec)
                except Control:
                    raise
            elif type(v) is SymStr and not spec and conv in (-1, 115):
                p = v
            elif type(v) is SymInt and not spec and conv in (-1, 115) \
                    and small_range(v):
                p = int_to_str(v)
            elif type(v) is SymInt and ti(spec, str) and \
                    _re.fullmatch(r'0?\d*d?', spec) and spec.startswith('0'):
                p = pad_int(v, int(spec.rstrip('d') or 0))
            else:
                p = OPAQUE
        buf.append(p)
    if any(type(b) is SymStr for b in buf):
        cs = []
        for b in buf:
            cs.extend(chars_of(b))
        return mkstr(cs)
    return ''.join(buf)


def small_range(v):
    return False


def sx_mod(a, b):
    """a % b where a may be a format string."""
    if E.active and ti(a, str) and not is_sym(a) and deep_has_sym(b):
        args = b if type(b) is tuple else (b,)
        out = []
        n = 0
        pos = 0
        for m in _re.finditer(r'%(0?)(\d*)([dscir%])', a):
            out.extend(chars_of(a[pos:m.start()]))
            pos = m.end()
            z, w, k = m.groups()
            if k == '%':
                out.append(37)
                continue
            v = args[n]
            n += 1
            if k in 'di' and type(v) is SymInt:
                s = pad_int(v, int(w)) if z and w else int_to_str(v)
                if w and not z:
                    s = s.rjust(int(w)) if type(s) is SymStr else \
                        s.rjust(int(w))
            elif k in 'di' and type(v) is SymFloat:
                s = '%d' % concrete(v)
            elif k == 's' and type(v) is SymStr and not w:
                s = v
            elif k == 'c' and type(v) is SymStr and not w:
                s = v
            elif is_sym(v) and k == 'r':
                s = OPAQUE
            else:
                s = m.group(0) % deep_concrete(v)
            out.extend(chars_of(s))
        out.extend(chars_of(a[pos:]))
        return mkstr(out)
    return a % b


_AUG = {'|': operator.ior, '*': operator.imul, '+': operator.iadd,
        '-': operator.isub, '&': operator.iand}


def sx_aug(op, a, b):
    """a op= b on a name."""
    if E.active:
        if op == '*' and ti(a, (list, tuple)) and type(b) is SymInt:
            b = concrete(b)
        elif op == '|' and ti(a, dict) and type(a).__ior__ is dict.__ior__ \
                and (E.symkeys or shallow_sym((b,), {})):
            return dict_method(a, '__ior__', (b,), {})
        elif op in '|-&' and ti(a, set) and (shallow_sym((a, b), {})):
            if op == '|':
                set_method(a, 'update', (b,), {})
            else:
                r = set_method(a, 'difference' if op == '-' else
                               'intersection', (b,), {})
                a.clear()
                for x in r:
                    a.add(x)
            return a
    return _AUG[op](a, b)


def sx_or(a, b):
    if E.active and (E.symkeys or shallow_sym((a, b), {})):
        if ti(a, dict) and ti(b, dict) and type(a).__or__ is dict.__or__:
            return dict_method(a, '__or__', (b,), {})
        if ti(a, (set, frozenset)) and ti(b, (set, frozenset)):
            return set_method(a, 'union', (b,), {})
    return a | b


def sx_mul(a, b):
    if E.active:
        if type(b) is SymInt and ti(a, (list, tuple)):
            b = concrete(b)
        elif type(a) is SymInt and ti(b, (list, tuple)):
            a = concrete(a)
    return a * b


def sx_fn(name):
    E.functions.add(name)


def sx_guard(exc):
    """First statement of broad exception handlers."""
    if ti(exc, Control):
        raise exc


# ---------------------------------------------------------------------------
# calls
# ---------------------------------------------------------------------------

INSTRUMENTED = '__sx_instrumented__'

HANDLERS = {}


def handler(f):
    def deco(h):
        HANDLERS[f] = h
        return h
    return deco


@handler(type)
def _h_type(*a, **k):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return type(*a, **k)


@handler(str)
def _h_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if ti(type(x), type) and '__str__' not in type(x).__dict__ \
                and False:
            pass
        return to_str(x)
    return str(*deep_concrete(list(a)), **k)


@handler(repr)
def _h_repr(x):
    if is_sym(x):
        if type(x) is SymInt:
            return int_to_str(x)
        return repr(concrete(x))
    return repr(deep_concrete(x))


@handler(format)
def _h_format(x, spec=''):
    return sx_fstr((x, -1, spec))


@handler(int)
def _h_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return int(bool(x))
        if type(x) is SymFloat:
            return x.__trunc__()
        if type(x) is SymStr:
            return str_to_int(x)
    return int(*deep_concrete(list(a)), **k)


@handler(float)
def _h_float(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is SymFloat:
            return x
        if type(x) is SymInt:
            import z3
            return SymFloat(z3.ToReal(x.e))
    return float(*deep_concrete(list(a)))


@handler(bool)
def _h_bool(*a):
    return bool(*a)


@handler(set)
def _h_set(*a):
    return sx_set(*a) if a else set()


@handler(dict)
def _h_dict(*a, **k):
    d = {}
    if a:
        if hasattr(a[0], 'keys'):
            for kk in a[0].keys():
                _dset(d, kk, a[0][kk])
        else:
            for kk, v in a[0]:
                _dset(d, kk, v)
    for kk, v in k.items():
        _dset(d, kk, v)
    return d


@handler(operator.index)
def _h_index(x):
    if type(x) is SymInt:
        return x
    return operator.index(x)


@handler(hash)
def _h_hash(x):
    return hash(deep_concrete(x))


_LIKE = {SymInt: 0, SymFloat: 0.0, SymBool: False, SymStr: ''}


@handler(getattr)
def _h_getattr(o, n, *d):
    n = concrete(n)
    like = _LIKE.get(type(o), o)
    if like is not o and not hasattr(like, n):
        o = like                  # no attribute, whatever the value
    return getattr(o, n, *d)


@handler(hasattr)
def _h_hasattr(o, n):
    return hasattr(_LIKE.get(type(o), o), concrete(n))


@handler(setattr)
def _h_setattr(o, n, v):
    return setattr(o, concrete(n), v)


@handler(ord)
def _h_ord(x):
    if type(x) is SymStr and len(x.c) == 1:
        c = x.c[0]
        return SymInt(c.e) if type(c) is not int else c
    return ord(concrete(x))


@handler(math.isnan)
def _h_isnan(x):
    return False if is_sym(x) else math.isnan(x)


@handler(math.isinf)
def _h_isinf(x):
    return False if is_sym(x) else math.isinf(x)


@handler(math.isfinite)
def _h_isfinite(x):
    return True if is_sym(x) else math.isfinite(x)


@handler(math.copysign)
def _h_copysign(a, b):
    if is_sym(b) and not is_sym(a):
        return -abs(float(a)) if b < 0 else abs(float(a))
    return math.copysign(concrete(a), concrete(b))


@handler(math.modf)
def _h_modf(x):
    if type(x) is SymFloat:
        t = x.__trunc__()
        return x - t, _h_float(t)
    return math.modf(concrete(x))


for _n in ('match', 'search', 'fullmatch', 'split', 'sub', 'subn', 'findall',
           'finditer'):
    HANDLERS[getattr(_re, _n)] = (
        lambda name: lambda *a, **k: re_call(name, *a, **k))(_n)

# builtins that are safe to call natively with proxies among the arguments:
# they only store, iterate or compare through the proxies' own protocols
def _wrapped(f):
    """A function that C code calls back, called the instrumented way."""
    if f is None or type(f) is FunctionType and INSTRUMENTED in f.__globals__:
        return f

    def call(*a, **k):
        return sx_call(f, *a, **k)
    return call


def _callback_first(fn):
    def h(f, *a, **k):
        return fn(_wrapped(f), *a, **k)
    HANDLERS[fn] = h


for _f in (map, filter, _it.takewhile, _it.dropwhile, _it.starmap,
           _ft.reduce):
    _callback_first(_f)


def _callback_key(fn):
    old = HANDLERS.get(fn, fn)

    def h(*a, **k):
        if k.get('key') is not None:
            k['key'] = _wrapped(k['key'])
        return old(*a, **k)
    HANDLERS[fn] = h


for _f in (sorted, min, max):
    _callback_key(_f)

SAFE = {isinstance, issubclass, callable, id, iter, next, enumerate, zip, map,
        filter, sorted, reversed, list, tuple, min, max, sum, any, all, len,
        abs, round, divmod, print, object, property, staticmethod,
        classmethod, super, math.floor, math.ceil, math.trunc, slice, pow,
        object.__new__, object.__setattr__, object.__getattribute__,
        operator.eq, operator.ne, operator.lt, operator.le, operator.gt,
        operator.ge, operator.add, operator.sub, operator.mul, operator.is_,
        operator.not_, operator.truth, operator.mod, operator.truediv,
        operator.floordiv, operator.neg, range, vars, dir}
SAFE |= {_ft.reduce, _ft.partial, _copy.copy, _copy.deepcopy, _it.chain,
         _it.islice, _it.zip_longest, _it.repeat, _it.product, _it.count,
         _it.takewhile, _it.dropwhile, _it.starmap, _it.chain.from_iterable}
SAFE_MODULE_FUNCS = {'copy', 'functools', 'itertools', 'typing',
                     'dataclasses', 'inspect', 'symx.sx', 'symx.core'}

DICT_METHODS = {'get', 'pop', 'setdefault', '__contains__', '__getitem__',
                '__setitem__', '__delitem__', 'update', '__ior__', '__or__',
                'fromkeys', '__ror__'}
SET_METHODS = {'add', 'discard', 'remove', '__contains__', 'update', 'union',
               'intersection', 'difference', 'issubset', 'issuperset',
               'symmetric_difference', 'isdisjoint', '__sub__', '__or__',
               '__and__', 'difference_update', 'intersection_update'}


def dict_method(d, name, a, k):
    """dict.<name> on the *base* dict implementation, symbolic keys."""
    if name in ('get', 'pop', '__getitem__', '__contains__', '__delitem__',
                'setdefault'):
        key = a[0]
        if not slow(d, key):
            return getattr(dict, name)(d, *a)
        found, kk = find_key(d, key)
        if name == '__contains__':
            return found
        if name == 'get':
            return dict.__getitem__(d, kk) if found else \
                (a[1] if len(a) > 1 else None)
        if name == 'setdefault':
            if not found:
                dict.__setitem__(d, kk, a[1] if len(a) > 1 else None)
            return dict.__getitem__(d, kk)
        if not found:
            if name == 'pop' and len(a) > 1:
                return a[1]
            raise KeyError(key)
        if name == '__getitem__':
            return dict.__getitem__(d, kk)
        v = dict.__getitem__(d, kk)
        dict.__delitem__(d, kk)
        return v if name == 'pop' else None
    if name == '__setitem__':
        key = a[0]
        if slow(d, key):
            key = find_key(d, key)[1]
        return dict.__setitem__(d, key, a[1])
    if name in ('update', '__ior__'):
        src = _h_dict(*a, **k) if a else dict(k)
        if E.symkeys:
            for kk, v in src.items():
                if slow(d, kk):
                    kk = find_key(d, kk)[1]
                dict.__setitem__(d, kk, v)
        else:
            dict.update(d, src)
        return d if name == '__ior__' else None
    if name in ('__or__', '__ror__'):
        x, y = (d, a[0]) if name == '__or__' else (a[0], d)
        r = {}
        for m in (x, y):
            for kk in m:
                _dset(r, kk, m[kk])
        return r
    return getattr(dict, name)(d, *a, **k)


def set_method(s, name, a, k):
    if name == 'add':
        if not find_key(s, a[0])[0]:
            s.add(a[0])
        return None
    if name in ('discard', 'remove'):
        f, kk = find_key(s, a[0])
        if f:
            s.discard(kk)
        elif name == 'remove':
            raise KeyError(a[0])
        return None
    if name == '__contains__':
        return find_key(s, a[0])[0]
    others = [list(x) for x in a]
    if name in ('union', '__or__'):
        return sx_set([*s, *[y for o in others for y in o]])
    if name == 'update':
        for o in others:
            for y in o:
                if not find_key(s, y)[0]:
                    s.add(y)
        return None
    if name in ('difference', '__sub__'):
        return {x for x in s if not any(find_key(o, x)[0] for o in others)}
    if name in ('intersection', '__and__'):
        return {x for x in s if all(find_key(o, x)[0] for o in others)}
    if name == 'issubset':
        return all(find_key(others[0], x)[0] for x in s)
    if name == 'issuperset':
        return all(find_key(s, x)[0] for x in others[0])
    if name == 'isdisjoint':
        return not any(find_key(s, x)[0] for x in others[0])
    raise Truncated('set method ' + name)


def shallow_sym(a, k):
    for x in a:
        t = type(x)
        if issubclass(t, Sym):
            return True
        if (t is list or t is tuple or t is dict or t is set) and \
                deep_has_sym(x):
            return True
    for x in k.values():
        t = type(x)
        if issubclass(t, Sym):
            return True
        if (t is list or t is tuple or t is dict) and deep_has_sym(x):
            return True
    return False


def sx_call(f, /, *a, **k):
    if not E.active:
        return f(*a, **k)
    E.steps += 1
    if E.steps > STEP_LIMIT:
        E.trunc_sites['step limit'] = E.trunc_sites.get('step limit', 0) + 1
        raise Truncated('step limit')
    t = type(f)
    if t is MethodType:
        ff = f.__func__
        if type(ff) is FunctionType and INSTRUMENTED in ff.__globals__:
            return f(*a, **k)
        if type(ff) is FunctionType:
            return foreign_call(f, ff, a, k)
        return f(*a, **k)
    if t is FunctionType:
        if INSTRUMENTED in f.__globals__:
            return f(*a, **k)
        return foreign_call(f, f, a, k)
    # types -------------------------------------------------------------
    if ti(f, type):
        h = HANDLERS.get(f)
        if h is not None:
            if f is dict and not a:
                return f(**k)
            if f is type and len(a) != 1:
                return f(*a, **k)
            return h(*a, **k)
        if f in SAFE:
            return f(*a, **k)
        if ti(f, enum.EnumMeta):
            if len(a) == 1 and is_sym(a[0]):
                for m in f:
                    if a[0] == m.value:
                        return m
                raise ValueError(f'symbolic value is not a valid {f.__name__}')
            return f(*a, **k)
        if f in (ValueError, TypeError, KeyError, IndexError, AttributeError,
                 Exception, OverflowError, RuntimeError):
            return f(*a, **k)             # keeps its arguments only
        if f.__flags__ & (1 << 9):        # heap type: python level class
            if issubclass(f, BaseException) or not issubclass(
                    f, (str, int, float, bytes)):
                return f(*a, **k)
        if shallow_sym(a, k):
            return f(*deep_concrete(list(a)),
                     **{q: deep_concrete(v) for q, v in k.items()})
        return f(*a, **k)
    # builtin functions and methods ---------------------------------------
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    try:
        if f in SAFE:
            return f(*a, **k)
    except TypeError:
        pass
    self = getattr(f, '__self__', None)
    name = getattr(f, '__name__', '')
    if self is not None and (t is BuiltinType or t is MethodWrapper):
        if ti(self, Sym):
            return f(*a, **k)
        if ti(self, dict):
            if name in DICT_METHODS and (E.symkeys or shallow_sym(a, {})):
                return dict_method(self, name, a, k)
            return f(*a, **k)
        if ti(self, list) or ti(self, tuple):
            if a and (is_sym(a[0]) or type(a[0]) is slice):
                return list_method(self, f, name, a, k)
            return f(*a, **k)
        if ti(self, (set, frozenset)):
            if name in SET_METHODS and (E.symkeys or shallow_sym(a, {})) and \
                    (deep_has_sym(set(self)) or shallow_sym(a, {})):
                return set_method(self, name, a, k)
            return f(*a, **k)
        if type(self) is str:
            if name == 'format' and shallow_sym(a, k):
                return str_format(self, a, k)
            if name == '__mod__':
                return sx_mod(self, *a)
            if name == 'join' and len(a) == 1:
                items = list(a[0])
                if any(type(i) is SymStr for i in items):
                    return SymStr(chars_of(self)).join(items)
                return self.join(items)
            if shallow_sym(a, k) and hasattr(SymStr, name):
                return getattr(SymStr(chars_of(self)), name)(*a, **k)
        if ti(self, type):
            if name == 'fromkeys' and shallow_sym(a, {}):
                v = a[1] if len(a) > 1 else None
                return sx_dictcomp((kk, v) for kk in a[0])
            if name == '__new__':
                return f(*a, **k)
        if type(self) is _re.Pattern and shallow_sym(a, k):
            if name in ('sub', 'subn'):
                return re_call(name, self, a[0], *a[1:], **k)
            return re_call(name, self, *a, **k)
        if name in ('__setattr__', '__getattribute__', '__delattr__',
                    '__init__', '__eq__', '__ne__', '__init_subclass__'):
            return f(*a, **k)
    if t is _ft.partial:
        return sx_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t in (type(str.join), type(str.__len__)):
        # unbound method descriptors: bind and retry
        if a:
            if is_sym(a[0]):
                return getattr(a[0], name)(*a[1:], **k)
            if f.__objclass__ in (dict, list, set, frozenset, str, tuple) \
                    and ti(a[0], f.__objclass__):
                return sx_call(f.__get__(a[0]), *a[1:], **k)
        return f(*a, **k)
    if t is _pt.GenericAlias:
        return f(*a, **k)
    if callable(f) and t is not BuiltinType and t is not MethodWrapper:
        call = getattr(t, '__call__', None)
        if type(call) is FunctionType:
            return f(*a, **k)
    if shallow_sym(a, k):
        return f(*deep_concrete(list(a)),
                 **{q: deep_concrete(v) for q, v in k.items()})
    return f(*a, **k)


def foreign_call(f, ff, a, k):
    """A python function that is not instrumented."""
    mod = ff.__globals__.get('__name__', '')
    if mod in SAFE_MODULE_FUNCS or mod.startswith('symx') or \
            not shallow_sym(a, k):
        return f(*a, **k)
    if mod == 're':
        return re_call(ff.__name__, *a, **k)
    if mod == 'enum':
        return f(*a, **k)
    if ff.__name__ in ('__init__', '__eq__', '__repr__', '__setattr__') or \
            ff.__qualname__.startswith('__create_fn__'):
        return f(*a, **k)
    return f(*deep_concrete(list(a)),
             **{q: deep_concrete(v) for q, v in k.items()})


def str_format(fmt, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.extend(chars_of(lit))
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            return fmt.format(*deep_concrete(list(a)), **{
                q: deep_concrete(x) for q, x in k.items()})
        if type(v) is SymInt and not spec:
            v = int_to_str(v)
        out.extend(chars_of(sx_fstr((v, -1 if not conv else ord(conv),
                                     spec or ''))))
    return mkstr(out)


# ---------------------------------------------------------------------------
# AST transformation
# ---------------------------------------------------------------------------

def _name(n):
    return ast.Name(n, ast.Load())


class Tx(ast.NodeTransformer):

    def __init__(self, module, redirect):
        self.module = module
        self.redirect = redirect
        self.stack = []

    def visit_Import(self, node):
        out = []
        for al in node.names:
            if al.name in self.redirect:
                out.append(ast.Import([ast.alias(self.redirect[al.name],
                                                 al.asname or al.name)]))
            else:
                out.append(ast.Import([al]))
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in self.redirect:
            node.module = self.redirect[node.module]
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        qual = '.'.join(self.stack)
        # decorators, defaults: evaluated outside; still transformed
        node = self.generic_visit(node)
        self.stack.pop()
        mark = ast.Expr(ast.Call(_name('__sx_fn__'),
                                 [ast.Constant(f'{self.module}:{qual}')], []))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(node.body[0].value, ast.Constant) and \
                isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, mark)
        return node

    visit_FunctionDef = _fn

    def visit_Return(self, node):
        node = self.generic_visit(node)
        if self.stack and self.stack[-1] == '__bool__' and node.value:
            # python itself calls __bool__ and wants a bool: decide it here
            node.value = ast.IfExp(node.value, ast.Constant(True),
                                   ast.Constant(False))
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        # annotations stay as they are
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in (
                'super', 'locals', 'globals', 'vars', 'exec', 'eval'):
            return self.generic_visit(node)
        node = self.generic_visit(node)
        return ast.Call(_name('__sx_call__'), [node.func, *node.args],
                        node.keywords)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        node.value = ast.Call(_name('__sx_sub__'), [node.value], [])
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        m = {ast.In: '__sx_in__', ast.NotIn: '__sx_notin__',
             ast.Is: '__sx_is__', ast.IsNot: '__sx_isnot__',
             ast.Eq: '__sx_eq__', ast.NotEq: '__sx_ne__'}
        if len(node.ops) == 1:
            o = node.ops[0]
            n = m.get(type(o))
            if n is None:
                return node
            if isinstance(o, (ast.Is, ast.IsNot)):
                c = node.comparators[0]
                if isinstance(c, ast.Constant) and c.value is None:
                    return node
            return ast.Call(_name(n), [node.left, node.comparators[0]], [])
        if any(type(o) in m for o in node.ops):
            # chained comparison: split with walrus temporaries
            return self.chain(node, m)
        return node

    _tmp = 0

    def chain(self, node, m):
        parts = []
        left = node.left
        for i, (o, c) in enumerate(zip(node.ops, node.comparators)):
            last = i == len(node.ops) - 1
            if last:
                right_def, right_use = c, None
            else:
                Tx._tmp += 1
                nm = f'__sx_t{Tx._tmp}'
                right_def = ast.NamedExpr(ast.Name(nm, ast.Store()), c)
                right_use = _name(nm)
            n = m.get(type(o))
            if n:
                parts.append(ast.Call(_name(n), [left, right_def], []))
            else:
                parts.append(ast.Compare(left, [o], [right_def]))
            left = right_use
        return ast.BoolOp(ast.And(), parts)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(_name('__sx_mod__'), [node.left, node.right], [])
        if isinstance(node.op, ast.BitOr):
            return ast.Call(_name('__sx_or__'), [node.left, node.right], [])
        if isinstance(node.op, ast.Mult):
            return ast.Call(_name('__sx_mul__'), [node.left, node.right], [])
        return node

    def visit_AugAssign(self, node):
        node = self.generic_visit(node)
        sym = {ast.BitOr: '|', ast.Mult: '*', ast.Sub: '-', ast.BitAnd: '&'}
        op = sym.get(type(node.op))
        if op and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], ast.Call(
                _name('__sx_aug__'),
                [ast.Constant(op), _name(node.target.id), node.value], []))
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], ast.Call(
                _name('__sx_mod__'), [_name(node.target.id), node.value], []))
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec else \
                    ast.Constant('')
                parts.append(ast.Tuple([val, ast.Constant(v.conversion),
                                        spec], ast.Load()))
        return ast.Call(_name('__sx_fstr__'), parts, [])

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            items.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return ast.Call(_name('__sx_dict__'), items, [])

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()),
                               node.generators)
        return ast.Call(_name('__sx_dictcomp__'), [gen], [])

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return ast.Call(_name('__sx_set__'),
                        [ast.GeneratorExp(node.elt, node.generators)], [])

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return ast.Call(_name('__sx_set__'),
                        [ast.Tuple(node.elts, ast.Load())], [])

    def visit_ExceptHandler(self, node):
        broad = node.type is None
        names = []
        if node.type is not None:
            ts = node.type.elts if isinstance(node.type, ast.Tuple) else \
                [node.type]
            broad = any(isinstance(t, ast.Name) and t.id == 'BaseException'
                        for t in ts)
        node = self.generic_visit(node)
        if broad:
            if node.type is None:
                node.type = _name('BaseException')
            if node.name is None:
                Tx._tmp += 1
                node.name = f'__sx_exc{Tx._tmp}'
            node.body.insert(0, ast.Expr(ast.Call(
                _name('__sx_guard__'), [_name(node.name)], [])))
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node


RUNTIME = dict(__sx_call__=sx_call, __sx_sub__=sx_sub, __sx_in__=sx_in,
               __sx_notin__=sx_notin, __sx_is__=sx_is, __sx_isnot__=sx_isnot,
               __sx_eq__=sx_eq, __sx_ne__=sx_ne, __sx_dict__=sx_dict,
               __sx_dictcomp__=sx_dictcomp, __sx_set__=sx_set,
               __sx_fstr__=sx_fstr, __sx_mod__=sx_mod, __sx_fn__=sx_fn,
               __sx_guard__=sx_guard, __sx_aug__=sx_aug, __sx_or__=sx_or,
               __sx_mul__=sx_mul, __sx_instrumented__=True)

builtins_ns = builtins.__dict__


def transform_source(src, filename, module, redirect):
    tree = ast.parse(src, filename)
    tree = Tx(module, redirect).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, redirect, is_pkg):
        self.path = path
        self.redirect = redirect
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = transform_source(src, self.path, module.__name__,
                                self.redirect)
        module.__dict__.update(RUNTIME)
        exec(code, module.__dict__)


REDIRECT = {'datetime': 'sx_datetime'}


class Finder(importlib.abc.MetaPathFinder):
    """Loads `roots` ({top level package: directory}) instrumented."""

    def __init__(self, roots, files):
        self.roots = roots
        self.files = files

    def find_spec(self, name, path=None, target=None):
        if name in self.files:
            p = self.files[name]
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p, {}, False))
        top, _, rest = name.partition('.')
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], top, *rest.split('.')) \
            if rest else os.path.join(self.roots[top], top)
        pkg = os.path.join(base, '__init__.py')
        if os.path.isfile(pkg):
            return importlib.util.spec_from_file_location(
                name, pkg, loader=Loader(pkg, REDIRECT, True),
                submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            p = base + '.py'
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p, REDIRECT, False))
        return None


def install(repo, verif):
    import _pydatetime
    roots = {'jsonclasses': repo, 'props': verif}
    files = {'sx_datetime': _pydatetime.__file__}
    sys.meta_path.insert(0, Finder(roots, files))
