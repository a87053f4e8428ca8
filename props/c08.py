"""C08: string and list transforms compute the documented function."""
from symx.sx import Registry
from jsonclasses import types
from props.util import klass, param, PARAM_FORMS

H = Registry()
BOUNDS = {
    'strings': "length 0..4 over 'aB z1' and (case transforms) accented "
               'letters; whitespace harness adds tab and newline',
    'lists': '0..4 elements (ints in -3..3 or strings of length 0..2)',
    'positions and lengths': '-6..6'}
ASSUMPTIONS = ['CPython string methods are the oracle for case mapping',
               'pad characters are one character long']


def result(t, v):
    return klass({'a': t})(a=v).a


def text(sx, name='v', n=4, alpha='aB z1'):
    return sx.str(name, n, alpha)


def ints(sx, name='v', n=4):
    return [sx.int(f'{name}{i}', -3, 3) for i in range(sx.choice(name, n + 1))]


CASE = {'toupper': lambda s: s.upper(), 'tolower': lambda s: s.lower(),
        'tocap': lambda s: s.capitalize(), 'totitle': lambda s: s.title()}


@H(configs=[(n, k) for n in CASE for k in range(5)])
def case(sx, cfg):
    n, k = cfg
    v = sx.str('v', k, "aBzÉé 1'-", minlen=k)
    sx.check(sx.eq(result(getattr(types.any, n), v), CASE[n](v)),
             f'{n}: documented case mapping')


def is_blank(c):
    return c in ' \t\n'


@H(configs=[0, 1, 2, 3, 4, 5])
def trim(sx, k):
    v = sx.str('v', k, 'a \t\nB', minlen=k)
    r = result(types.any.trim, v)
    sx.check(r == '' or not is_blank(r[0]) and not is_blank(r[-1]),
             'trim: no whitespace at either end')
    i = 0
    while i < len(v) and is_blank(v[i]):
        i += 1
    sx.check(sx.And(len(r) <= len(v) - i, sx.eq(r, v[i:i + len(r)])),
             'trim: the text between is unchanged')
    sx.check(sx.all_chars(v[i + len(r):], is_blank),
             'trim: only whitespace is dropped')


@H(configs=[(f, k) for f in PARAM_FORMS for k in ('str', 'list')])
def truncate(sx, cfg):
    form, k = cfg
    v = text(sx) if k == 'str' else ints(sx)
    m = sx.int('m', 0, 6)
    r = result(types.any.truncate(param(form, m)), v)
    sx.check(sx.eq(len(r), m if m < len(v) else len(v)), 'truncate: length')
    sx.check(sx.eq(r, v[:len(r)]), 'truncate: keeps the leading part')


@H(configs=['str', 'list'])
def reverse(sx, k):
    v = text(sx) if k == 'str' else ints(sx)
    r = result(types.any.reverse(), v)
    n = len(v)
    sx.check(len(r) == n and sx.And(*[sx.eq(r[i], v[n - 1 - i])
                                      for i in range(n)]),
             'reverse: last to first')


@H(configs=[(f, k, w) for f in PARAM_FORMS for k in ('str', 'list')
            for w in ('append', 'prepend')])
def ends(sx, cfg):
    form, k, w = cfg
    if k == 'str':
        v, x = text(sx), sx.json('x', ['str', 'int'])
        part = x if isinstance(x, str) else str(x)
    else:
        v, x = ints(sx), sx.int('x', -3, 3)
        part = [x]
    r = result(getattr(types.any, w)(param(form, x)), v)
    sx.check(sx.same(r, v + part if w == 'append' else part + v),
             f'{w}: adds at the right end')


@H(configs=[(f, k) for f in PARAM_FORMS for k in ('str', 'list')])
def insert_at(sx, cfg):
    form, k = cfg
    i = sx.int('i', -6, 6)
    if k == 'str':
        v, x = text(sx), sx.str('x', 1, 'xy')
        part = x
    else:
        v, x = ints(sx), sx.int('x', 7, 9)
        part = [x]
    r = result(types.any.insertat(param(form, x), param(form, i)), v)
    n = len(v)
    at = i if i >= 0 else i + n
    at = 0 if at < 0 else n if at > n else at
    sx.check(sx.same(r, v[:at] + part + v[at:]), 'insertat: at the position')


@H(configs=[(f, w) for f in PARAM_FORMS for w in ('padstart', 'padend')])
def pad(sx, cfg):
    form, w = cfg
    v = text(sx)
    c = sx.str('c', 1, '*-', minlen=1)
    m = sx.int('m', -2, 7)
    r = result(getattr(types.any, w)(param(form, c), param(form, m)), v)
    sx.check(sx.eq(len(r), m if m > len(v) else len(v)), f'{w}: length')
    n = len(r) - len(v)
    kept, fill = (r[n:], r[:n]) if w == 'padstart' else \
        (r[:len(v)], r[len(v):])
    sx.check(sx.eq(kept, v), f'{w}: the value is kept')
    sx.check(sx.And(*[sx.eq(q, c) for q in fill]), f'{w}: fill character')


@H(configs=[(f, n) for f in PARAM_FORMS for n in range(4)])
def join(sx, cfg):
    form, n = cfg
    v = [sx.str(f'v{i}', 2, 'ab') for i in range(n)]
    s = sx.str('s', 2, ',;')
    r = result(types.any.join(param(form, s)), v)
    want = ''
    for i, q in enumerate(v):
        want = want + q if i == 0 else want + s + q
    sx.check(sx.same(r, want), 'join: parts separated')


@H(configs=[(f, s) for f in PARAM_FORMS for s in (',', 'ab')])
def split(sx, cfg):
    form, s = cfg
    v = sx.str('v', 5, 'ab,')
    r = result(types.any.split(param(form, s)), v)
    sx.check(isinstance(r, list) and len(r) >= 1, 'split: gives a list')
    want = ''
    for i, q in enumerate(r):
        sx.check(sx.Not(sx.contains(q, s)), 'split: no separator in a part')
        want = want + q if i == 0 else want + s + q
    sx.check(sx.eq(want, v), 'split: joining gives the value back')


@H(configs=[(f, o) for f in PARAM_FORMS for o in ('a', 'ab', 'aa')])
def replace(sx, cfg):
    form, o = cfg
    v = sx.str('v', 5, 'abc')
    n = sx.str('n', 2, 'xy')
    r = result(types.any.replace(param(form, o), param(form, n)), v)
    want, i = '', 0
    while i < len(v):
        if v[i:i + len(o)] == o:
            want = want + n
            i += len(o)
        else:
            want = want + v[i]
            i += 1
    sx.check(sx.eq(r, want), 'replace: every occurrence, left to right')


@H(configs=[(f, p) for f in PARAM_FORMS for p in ('a', 'a+', '[0-9]', '^a')])
def replacer(sx, cfg):
    form, p = cfg
    v = sx.str('v', 4, 'ab1')
    r = result(types.any.replacer(param(form, p), param(form, 'X')), v)
    want, i = '', 0
    while i < len(v):
        if p == 'a+' and v[i] == 'a':
            while i < len(v) and v[i] == 'a':
                i += 1
            want = want + 'X'
        elif (p == 'a' and v[i] == 'a') or (p == '[0-9]' and v[i] == '1') or \
                (p == '^a' and i == 0 and v[i] == 'a'):
            want = want + 'X'
            i += 1
        else:
            want = want + v[i]
            i += 1
    sx.check(sx.eq(r, want), 'replacer: every match')


@H(configs=['call', 'types'])
def map_items(sx, form):
    v = ints(sx)
    k = sx.int('k', -3, 3)
    f = (lambda x: x * 2 + k) if form == 'call' else types.any.mul(2).add(k)
    r = result(types.any.map(f), v)
    sx.check(sx.same(r, [x * 2 + k for x in v]), 'map: each item, in order')


@H(configs=['call', 'types', 'none'])
def filter_items(sx, form):
    v = ints(sx, n=3)
    k = sx.int('k', -3, 3)
    if form == 'types':
        f = types.any.gt(k)
    elif form == 'call':
        def f(x):
            return bool(x > k)
    else:
        def f(x):
            return None if x > k else False
    r = result(types.any.filter(f), v)
    want = [x for x in v if x > k]
    sx.check(sx.same(r, want), 'filter: the accepted items, in order')


@H(configs=['str', 'list', 'none', 'int', 'bool'])
def length(sx, k):
    v = text(sx) if k == 'str' else ints(sx) if k == 'list' else \
        sx.value('v', k)
    r = result(types.any.len, v)
    want = len(v) if k in ('str', 'list') else v
    sx.check(sx.same(r, want), 'len: number of elements')


@H(configs=['str', 'list', 'tuple', 'int', 'none', 'dict'])
def to_list(sx, k):
    if k == 'str':
        v = text(sx)
        want = [c for c in v]
    elif k == 'tuple':
        v = tuple(ints(sx))
        want = list(v)
    else:
        v = want = ints(sx) if k == 'list' else sx.value('v', k)
    sx.check(sx.same(result(types.any.tolist, v), want), 'tolist')


@H(configs=['none', 'int', 'str', 'list', 'dict', 'bool'])
def wrap(sx, k):
    v = sx.value('v', k)
    r = result(types.any.wrapintolist, v)
    sx.check(r is None if v is None else sx.same(r, [v]), 'wrapintolist')


@H(configs=[(f, k) for f in PARAM_FORMS for k in ('str', 'list')])
def at(sx, cfg):
    form, k = cfg
    v = text(sx) if k == 'str' else ints(sx)
    i = sx.int('i', -6, 6)
    n = len(v)
    sx.assume(sx.And(i < n, i >= -n))
    r = result(types.any.at(param(form, i)), v)
    sx.check(sx.eq(r, v[i if i >= 0 else i + n]), 'at: the element')


@H(configs=['call1', 'call2', 'types'])
def transform(sx, form):
    v = sx.json('v', ['int', 'none'])
    k = sx.int('k', -3, 3)
    if form == 'call1':
        t = types.any.transform(lambda x: x + k)
    elif form == 'call2':
        t = types.any.transform(lambda x, ctx: x + k)
    else:
        t = types.any.transform(types.any.add(k))
    r = result(t, v)
    sx.check(r is None if v is None else sx.eq(r, v + k),
             'transform: the callable applied to the value')


STRING_ONLY = ['toupper', 'tolower', 'tocap', 'totitle', 'trim', 'replace',
               'replacer', 'split', 'padstart', 'padend']
BOTH = ['reverse', 'append', 'prepend', 'insertat']
LIST_ONLY = ['join', 'map', 'filter']
ARGS = {'replace': ('a', 'b'), 'replacer': ('a', 'b'), 'split': (',',),
        'padstart': ('*', 5), 'padend': ('*', 5), 'append': (1,),
        'prepend': (1,), 'reverse': (), 'insertat': (1, 0), 'join': (',',),
        'map': (lambda x: x,), 'filter': (lambda x: True,),
        'truncate': (1,)}


@H(configs=[(n, k) for n in STRING_ONLY
            for k in ('none', 'int', 'bool', 'float', 'list', 'dict')] +
   [(n, k) for n in BOTH for k in ('none', 'int', 'bool', 'float', 'dict')] +
   [(n, k) for n in LIST_ONLY for k in ('none', 'int', 'bool', 'str',
                                        'dict')] +
   [('truncate', k) for k in ('none', 'int', 'bool', 'float')])
def others_unchanged(sx, cfg):
    n, k = cfg
    v = sx.value('v', k)
    t = getattr(types.any, n)
    if n in ARGS:
        t = t(*ARGS[n])
    sx.check(sx.same(result(t, v), v), f'{n}: other values are unchanged')


@H()
def chain(sx):
    """Transforms apply left to right."""
    v = sx.str('v', 3, 'aB ')
    r = result(types.str.trim.toupper.append('x').reverse().truncate(2), v)
    want = (v.strip().upper() + 'x')
    want = ''.join([want[len(want) - 1 - i] for i in range(len(want))])
    sx.check(sx.eq(r, want[:2]), 'left to right')
