"""C07: numeric and conversion transforms compute the documented function."""
import math
from symx.sx import Registry
from jsonclasses import types
from jsonclasses.excs import ValidationException
from props.util import klass, param, vexc, PARAM_FORMS

H = Registry()
BOUNDS = {
    'numbers': 'ints up to 10**9, floats k/8 up to 10**6 (pow and sqrt: '
               'values and operands of small magnitude, listed per harness)',
    'strings converted to numbers': "length 1..4 over digits and sign",
    'other values': 'null, bools, short strings, lists, dicts'}
ASSUMPTIONS = ['float arithmetic is exact on the sampled grid (multiples of '
               '1/8); rounding error of arbitrary doubles is outside',
               'divisors are non-zero']


def result(t, v):
    return klass({'a': t})(a=v).a


def num(sx, name, kind, big=10**9):
    return sx.int(name, -big, big) if kind == 'int' else \
        sx.float(name, -min(big, 10**6), min(big, 10**6))


KINDS = ('int', 'float')
ARITH = {
    'add': lambda sx, v, a: v + a, 'sub': lambda sx, v, a: v - a,
    'mul': lambda sx, v, a: v * a, 'div': lambda sx, v, a: v / a,
    'upperbond': lambda sx, v, a: a if v > a else v,
    'lowerbond': lambda sx, v, a: a if v < a else v}


@H(configs=[(n, f, k, p) for n in ARITH for f in PARAM_FORMS for k in KINDS
            for p in KINDS])
def arithmetic(sx, cfg):
    n, form, k, p = cfg
    v, a = num(sx, 'v', k), num(sx, 'a', p)
    if n == 'div':
        sx.assume(a != 0)
    r = result(getattr(types.any, n)(param(form, a)), v)
    sx.check(sx.same(r, ARITH[n](sx, v, a)), f'{n}: documented result')


@H(configs=[(f, b) for f in PARAM_FORMS for b in (2, 3, 7, -3)])
def modulo(sx, cfg):
    form, b = cfg
    v = sx.int('v', -10**6, 10**6)
    r = result(types.any.mod(param(form, b)), v)
    q = sx.int('q', -10**6, 10**6)
    sx.assume(q * b + r == v)
    sx.check(sx.And(r >= 0, r < b) if b > 0 else sx.And(r <= 0, r > b),
             'mod: remainder has the sign and range of the divisor')
    sx.check(sx.eq(r, v % b), 'mod: documented result')


@H(configs=[(f, p) for f in PARAM_FORMS for p in KINDS])
def power(sx, cfg):
    form, p = cfg
    v = sx.int('v', 0, 5)
    a = sx.int('a', -3, 3) if p == 'int' else sx.float('a', -2, 2, 2)
    r = result(types.any.pow(param(form, a)), v)
    want = 1 if p == 'int' else 1.0
    for _ in range(v):
        want = want * a
    sx.check(sx.eq(r, want), 'pow: the parameter raised to the value')


@H(configs=KINDS)
def absolute(sx, k):
    v = num(sx, 'v', k)
    r = result(types.any.abs, v)
    sx.check(sx.And(sx.Or(sx.eq(r, v), sx.eq(r, -v)), r >= 0), 'abs')
    sx.check(type(r) is type(v), 'abs keeps the type')


@H(configs=[(n, k) for n in ('round', 'ceil', 'floor') for k in KINDS])
def rounding(sx, cfg):
    n, k = cfg
    v = num(sx, 'v', k)
    r = result(getattr(types.any, n), v)
    sx.check(type(r) is int, f'{n}: gives an int')
    if n == 'ceil':
        sx.check(sx.And(r >= v, r - 1 < v), 'ceil: least int above')
    elif n == 'floor':
        sx.check(sx.And(r <= v, r + 1 > v), 'floor: greatest int below')
    else:
        d = r - v
        sx.check(sx.And(d * 2 <= 1, d * 2 >= -1), 'round: nearest int')
        sx.check(sx.Implies(sx.Or(d * 2 == 1, d * 2 == -1), r % 2 == 0),
                 'round: ties go to the even int')


@H(reach=('root', 'negative'))
def square_root(sx):
    v = sx.int('v', -20, 30)
    K = klass({'a': types.any.sqrt})
    got = []
    e = vexc(lambda: got.append(K(a=v)))
    if e is not None:
        sx.reach('negative')
        sx.check(v < 0, 'sqrt: only negative values are rejected')
        sx.check(set(e.keypath_messages) == {'a'}, 'sqrt: names the field')
    else:
        sx.reach('root')
        sx.check(v >= 0, 'sqrt: a negative value is rejected')
        sx.check(sx.eq(got[0].a, math.sqrt(v)), 'sqrt: square root')


@H()
def inverse(sx):
    b = sx.bool('b')
    sx.check(result(types.any.inverse, b) is (not b), 'inverse of a bool')


@H(configs=[(n, k) for n in ('add', 'sub', 'mul', 'div', 'mod', 'pow',
                             'upperbond', 'lowerbond', 'abs', 'round', 'ceil',
                             'floor', 'sqrt', 'inverse')
            for k in ('none', 'bool', 'str', 'list', 'dict', 'int')
            if (n == 'inverse') != (k == 'bool') and
            (n == 'inverse' or k != 'int')])
def others_unchanged(sx, cfg):
    """A transform leaves values of other kinds alone."""
    n, k = cfg
    v = sx.value('v', k)
    t = getattr(types.any, n)
    if n in ('add', 'sub', 'mul', 'div', 'mod', 'pow', 'upperbond',
             'lowerbond'):
        t = t(2)
    sx.check(sx.same(result(t, v), v), f'{n}: other values are unchanged')


@H(configs=[(n, f) for n in ('add', 'sub', 'mul', 'div', 'mod', 'pow',
                             'upperbond', 'lowerbond')
            for f in ('const', 'call1')])
def bool_unchanged(sx, cfg):
    n, f = cfg
    b = sx.bool('b')
    t = getattr(types.any, n)(param(f, 2))
    sx.check(result(t, b) is b, f'{n}: a bool is not a number')


# -- conversions ------------------------------------------------------------

@H(configs=[1, 2, 3, 4])
def string_to_int(sx, n):
    s = sx.str('s', n, '0123456789', minlen=n)
    neg = sx.bool('neg')
    r = result(types.any.toint, '-' + s if neg else s)
    want = 0
    for c in s:
        want = want * 10 + (ord(c) - 48)
    sx.check(sx.same(r, -want if neg else want), 'toint: decimal value')


@H(configs=['toint', 'tofloat', 'tobool', 'tostr'])
def from_bool(sx, n):
    b = sx.bool('b')
    r = result(getattr(types.any, n), b)
    want = {'toint': 1 if b else 0, 'tofloat': 1.0 if b else 0.0,
            'tobool': b, 'tostr': 'True' if b else 'False'}[n]
    sx.check(sx.same(r, want), f'{n}: of a bool')


@H(configs=['0', '1.5', '-2.25', '1e3', ' 7 ', '+4'])
def string_to_float(sx, s):
    r = result(types.any.tofloat, s)
    sx.check(type(r) is float and r == float(s), 'tofloat: decimal value')


@H(configs=[(n, k) for n in ('toint', 'tofloat', 'tostr')
            for k in ('none', 'int', 'float', 'list', 'dict', 'str')
            if not (n != 'tostr' and k == 'str') and
            not (n == 'tostr' and k in ('int', 'float'))])
def conversion_leaves(sx, cfg):
    n, k = cfg
    v = sx.value('v', k)
    sx.check(sx.same(result(getattr(types.any, n), v), v),
             f'{n}: other values are unchanged')


@H(configs=['none', 'int', 'float', 'str', 'list', 'elist', 'dict', 'edict'])
def to_bool(sx, k):
    v = sx.value('v', k)
    r = result(types.any.tobool, v)
    truth = {'none': lambda: False, 'int': lambda: v != 0,
             'float': lambda: v != 0, 'str': lambda: len(v) > 0,
             'list': lambda: True, 'dict': lambda: True,
             'elist': lambda: False, 'edict': lambda: False}[k]()
    sx.check(type(r) is bool, 'tobool: gives a bool')
    sx.check(sx.Iff(r, truth), 'tobool: truth value')


@H(configs=[5, 99, 1234])
def int_to_string(sx, m):
    v = sx.int('v', -m, m)
    r = result(types.any.tostr, v)
    sx.check(type(r) is str, 'tostr: gives a string')
    neg = r.startswith('-')
    sx.check(sx.Iff(neg, v < 0), 'tostr: sign')
    want = 0
    for c in (r[1:] if neg else r):
        want = want * 10 + (ord(c) - 48)
    sx.check(sx.eq(want, abs(v)), 'tostr: decimal digits')


@H()
def chain(sx):
    """Transforms apply left to right."""
    v = sx.int('v', -1000, 1000)
    a, b = sx.int('a', -50, 50), sx.int('b', -50, 50)
    r = result(types.int.add(a).mul(3).sub(b).abs, v)
    sx.check(sx.eq(r, abs((v + a) * 3 - b)), 'left to right')
