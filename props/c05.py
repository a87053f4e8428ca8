"""C05: number, length, choice, equality and prefix/suffix validators decide
exactly the documented predicate."""
from symx.sx import Registry
from jsonclasses import types
from props.util import klass, vexc, param, PARAM_FORMS

H = Registry()
BOUNDS = {
    'values': 'null, bool, ints up to 10**12, floats k/8 up to 10**6 in '
              'magnitude, strings of length 0..6 (affixes 0..4) over '
              "'aAb', lists of 0..6 small ints",
    'parameters': 'same domains; given as constant, callables of 0/1/2 '
                  'arguments, or a types pipeline'}
ASSUMPTIONS = ['floats are finite multiples of 1/8 (NaN and infinities are '
               'outside the bounds)']


def judge(sx, t, v, want, what, applies=True):
    """Validation of value v in a field of type t rejects iff not want."""
    obj = klass({'a': t})()
    obj.a = v
    e = vexc(lambda: obj.validate())
    if e is None:
        sx.reach('accepted')
        sx.check(want, f'{what}: an accepted value satisfies the rule')
    else:
        sx.reach('rejected')
        sx.check(sx.Not(want), f'{what}: a satisfying value is accepted')
        sx.check(set(e.keypath_messages) == {'a'},
                 f'{what}: the error names the field')


def number(sx, name, kind):
    return sx.int(name, -10**12, 10**12) if kind == 'int' else \
        sx.float(name, -10**6, 10**6)


NUM = {
    'min': lambda sx, v, a: v >= a, 'gte': lambda sx, v, a: v >= a,
    'max': lambda sx, v, a: v <= a, 'lte': lambda sx, v, a: v <= a,
    'gt': lambda sx, v, a: v > a, 'lt': lambda sx, v, a: v < a,
}


@H(configs=[(n, f, vk, pk) for n in NUM for f in PARAM_FORMS
            for vk in ('int', 'float') for pk in ('int', 'float')],
   reach=('accepted', 'rejected'))
def bounds(sx, cfg):
    n, form, vk, pk = cfg
    v = number(sx, 'v', vk)
    a = number(sx, 'a', pk)
    t = getattr(types.any, n)(param(form, a))
    judge(sx, t, v, NUM[n](sx, v, a), n)


@H(configs=[(f, vk, pk) for f in PARAM_FORMS for vk in ('int', 'float')
            for pk in ('int', 'float')], reach=('accepted', 'rejected'))
def between(sx, cfg):
    form, vk, pk = cfg
    v = number(sx, 'v', vk)
    a, b = number(sx, 'a', pk), number(sx, 'b', pk)
    t = types.any.range(param(form, a), param(form, b))
    judge(sx, t, v, sx.And(v >= a, v <= b), 'range')


SIGN = {
    'positive': lambda v: v > 0, 'negative': lambda v: v < 0,
    'nonnegative': lambda v: v >= 0, 'nonpositive': lambda v: v <= 0}


@H(configs=[(n, k) for n in SIGN for k in ('int', 'float')],
   reach=('accepted', 'rejected'))
def sign(sx, cfg):
    n, k = cfg
    v = number(sx, 'v', k)
    judge(sx, getattr(types.any, n), v, SIGN[n](v), n)


@H(configs=['even', 'odd'], reach=('accepted', 'rejected'))
def parity(sx, n):
    v = sx.int('v', -10**12, 10**12)
    judge(sx, getattr(types.int, n), v, v % 2 == (0 if n == 'even' else 1), n)


NOT_NUMBERS = ['none', 'bool', 'str', 'list', 'dict']


@H(configs=[(n, k) for n in [*NUM, 'range', *SIGN, 'even', 'odd']
            for k in NOT_NUMBERS])
def not_a_number(sx, cfg):
    """The number rules say nothing about other values."""
    n, k = cfg
    v = sx.value('v', k)
    a = sx.int('a', -999, 999)
    t = getattr(types.any, n)
    if n in NUM:
        t = t(a)
    elif n == 'range':
        t = t(a, a)
    judge(sx, t, v, True, n)


def sized(sx, kind):
    if kind == 'str':
        return sx.str('v', 6, 'ab')
    return [sx.int(f'v{i}', -2, 2) for i in range(sx.choice('n', 7))]


@H(configs=[(n, f, k) for n in ('length1', 'length2', 'minlength',
                                'maxlength')
            for f in PARAM_FORMS for k in ('str', 'list')],
   reach=('accepted', 'rejected'))
def lengths(sx, cfg):
    n, form, kind = cfg
    v = sized(sx, kind)
    size = len(v)
    a = sx.int('a', -3, 99)
    b = sx.int('b', -3, 99)
    if n == 'length1':
        t, want = types.any.length(param(form, a)), size == a
    elif n == 'length2':
        t = types.any.length(param(form, a), param(form, b))
        want = sx.And(size >= a, size <= b)
    elif n == 'minlength':
        t, want = types.any.minlength(param(form, a)), size >= a
    else:
        t, want = types.any.maxlength(param(form, a)), size <= a
    judge(sx, t, v, want, n)


@H(configs=[(n, k) for n in ('length1', 'length2', 'minlength', 'maxlength')
            for k in ('none', 'bool', 'int', 'float')])
def not_sized(sx, cfg):
    n, k = cfg
    v = sx.value('v', k)
    t = types.any
    t = t.length(1) if n == 'length1' else t.length(1, 2) \
        if n == 'length2' else getattr(t, n)(1)
    judge(sx, t, v, True, n)


SCALARS = ['int', 'str', 'bool', 'none', 'float', 'list']


@H(configs=[(f, k) for f in PARAM_FORMS for k in SCALARS],
   reach=('accepted', 'rejected'))
def oneof(sx, cfg):
    form, k = cfg
    v = sx.value('v', k, alpha='ab')
    choices = [sx.int('c0', -3, 3), sx.str('c1', 2, 'ab'), True, 0.5]
    choices = choices[:sx.choice('n', 5)]
    t = types.any.oneof(param(form, choices))
    want = True if v is None else sx.Or(*[sx.eq(v, c) for c in choices])
    judge(sx, t, v, want, 'oneof')


@H(configs=[(n, f, k, p) for n in ('eq', 'neq') for f in PARAM_FORMS
            for k in SCALARS for p in ('int', 'str', 'list', 'none')
            if not (f == 'types' and p == 'none')],
   reach=('accepted', 'rejected'))
def equality(sx, cfg):
    n, form, k, p = cfg
    v = sx.value('v', k, alpha='ab')
    a = sx.value('a', p, alpha='ab')
    same = sx.eq(v, a)
    want = same if n == 'eq' else sx.Not(same)
    if n == 'eq' and v is None:
        want = True
    judge(sx, getattr(types.any, n)(param(form, a)), v, want, n)


def seq(sx, name, kind, n):
    if kind == 'str':
        return sx.str(name, n, 'aAb')
    return [sx.int(f'{name}{i}', 0, 1) for i in range(sx.choice(name, n + 1))]


AFFIX = {
    'hasprefix': lambda sx, v, a: pre(sx, a, v),
    'isprefixof': lambda sx, v, a: pre(sx, v, a),
    'hassuffix': lambda sx, v, a: suf(sx, a, v),
    'issuffixof': lambda sx, v, a: suf(sx, v, a)}


def pre(sx, p, s):
    if len(p) > len(s):
        return False
    return sx.And(*[sx.eq(p[i], s[i]) for i in range(len(p))])


def suf(sx, p, s):
    if len(p) > len(s):
        return False
    d = len(s) - len(p)
    return sx.And(*[sx.eq(p[i], s[d + i]) for i in range(len(p))])


@H(configs=[(n, f, k) for n in AFFIX for f in PARAM_FORMS
            for k in ('str', 'list')], reach=('accepted', 'rejected'))
def affixes(sx, cfg):
    n, form, kind = cfg
    v = seq(sx, 'v', kind, 4)
    a = seq(sx, 'a', kind, 4)
    judge(sx, getattr(types.any, n)(param(form, a)), v, AFFIX[n](sx, v, a), n)


@H(configs=[(n, k) for n in AFFIX for k in ('none', 'int', 'bool')])
def affix_other(sx, cfg):
    n, k = cfg
    judge(sx, getattr(types.any, n)('ab'), sx.value('v', k), True, n)


@H(configs=['call1', 'call2', 'types'],
   reach=('accepted', 'rejected'))
def custom_validate(sx, form):
    """validate(callable): None/True accept, False and messages reject."""
    v = sx.int('v', -999, 999)
    a = sx.int('a', -999, 999)
    answer = sx.pick('answer', ['bool', 'msg', 'none'])

    def rule(x):
        ok = bool(x > a)
        if answer == 'none':
            return None
        if answer == 'msg':
            return None if ok else 'too small'
        return ok
    if form == 'call1':
        t = types.any.validate(lambda x: rule(x))
    elif form == 'call2':
        t = types.any.validate(lambda x, ctx: rule(x))
    else:
        answer = 'bool'
        t = types.any.validate(types.any.gt(lambda: a))
    judge(sx, t, v, True if answer == 'none' else v > a, 'validate')


@H(configs=['types', 'call1', 'call2', 'mixed'],
   reach=('accepted', 'rejected'))
def one_is_valid(sx, form):
    v = sx.int('v', -999, 999)
    a = sx.int('a', -999, 999)
    b = sx.int('b', -999, 999)
    n = sx.choice('n', 3)
    if form == 'types':
        subs = [types.any.gt(lambda: a), types.any.lt(lambda: b)]
    elif form == 'call1':
        subs = [lambda x: bool(x > a), lambda x: bool(x < b)]
    elif form == 'call2':
        subs = [lambda x, c: bool(x > a), lambda x, c: bool(x < b)]
    else:
        subs = [types.any.gt(lambda: a), lambda x: bool(x < b)]
    want = sx.Or(*[v > a, v < b][:n])
    judge(sx, types.any.oneisvalid(subs[:n]), v, want, 'oneisvalid')


@H(reach=('accepted', 'rejected'))
def conjunction(sx):
    """A chain of rules accepts exactly what every rule accepts."""
    v = sx.int('v', -999, 999)
    a, b, c = [sx.int(q, -999, 999) for q in 'abc']
    t = types.int.min(a).lt(b).neq(c).required
    judge(sx, t, v, sx.And(v >= a, v < b, v != c), 'chain')
