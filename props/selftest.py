"""Self test of the engine: an operation on a symbolic value must give what
CPython gives on every concrete value it stands for. Not a property; run with
    python3-vt check.py SELFTEST"""
import re
from symx.sx import Registry

H = Registry()
BOUNDS = {'strings': 'to 3 characters over six alphabets',
          'numbers': 'integers -12..12, floats k/8 in -2..2'}
ALPHA = ['aB1', ' a\t', 'a.-', '_aA', '0z:', 'é9ß']


def outcome(f, *a):
    try:
        return f(*a)
    except (ValueError, TypeError, KeyError, IndexError, ZeroDivisionError,
            AttributeError, OverflowError) as e:
        return type(e).__name__


STR_OPS = {
    'upper': lambda s: s.upper(), 'lower': lambda s: s.lower(),
    'title': lambda s: s.title(), 'capitalize': lambda s: s.capitalize(),
    'swapcase': lambda s: s.swapcase(), 'strip': lambda s: s.strip(),
    'lstrip': lambda s: s.lstrip(), 'rstrip': lambda s: s.rstrip('a.'),
    'isalpha': lambda s: s.isalpha(), 'isalnum': lambda s: s.isalnum(),
    'isdigit': lambda s: s.isdigit(), 'isupper': lambda s: s.isupper(),
    'islower': lambda s: s.islower(), 'isspace': lambda s: s.isspace(),
    'isnumeric': lambda s: s.isnumeric(),
    'len': lambda s: len(s), 'bool': lambda s: bool(s),
    'rev': lambda s: s[::-1], 'slice': lambda s: s[1:], 'last': lambda s: s[-1],
    'first2': lambda s: s[:2], 'split': lambda s: s.split(),
    'splitdot': lambda s: s.split('.'), 'split1': lambda s: s.split('a', 1),
    'rsplit': lambda s: s.rsplit('a', 1),
    'partition': lambda s: s.partition('a'),
    'replace': lambda s: s.replace('a', 'xy'),
    'replace1': lambda s: s.replace('a', '', 1),
    'join': lambda s: '-'.join([s, 'a', s]), 'add': lambda s: 'x' + s + 'y',
    'mul': lambda s: s * 2, 'in': lambda s: 'a' in s, 'in2': lambda s: 'aa' in s,
    'inrev': lambda s: s in 'xaB1 y', 'starts': lambda s: s.startswith('a'),
    'ends': lambda s: s.endswith(('a', '1')), 'find': lambda s: s.find('a'),
    'rfind': lambda s: s.rfind('a'), 'index': lambda s: s.index('a'),
    'count': lambda s: s.count('a'), 'zfill': lambda s: s.zfill(4),
    'ljust': lambda s: s.ljust(4, '*'), 'rjust': lambda s: s.rjust(4),
    'lt': lambda s: s < 'a1', 'ge': lambda s: s >= 'a', 'eq': lambda s: s == 'a',
    'int': lambda s: int(s), 'format': lambda s: f'<{s}>',
    'percent': lambda s: '%s!' % s, 'fmt': lambda s: '{}:{}'.format(s, 1),
    'iter': lambda s: [c for c in s], 'list': lambda s: list(s),
    'sorted': lambda s: sorted(s), 'set': lambda s: len(set(s)),
    'dict': lambda s: {'a': 1, 'aa': 2}.get(s, 0),
    'key': lambda s: {s: 1, 'a': 2}, 'inlist': lambda s: s in ['a', 'B1', ''],
    'reversed': lambda s: ''.join(reversed(s)), 'isinst': lambda s: isinstance(s, str),
    'type': lambda s: type(s) is str, 'removeprefix': lambda s: s.removeprefix('a'),
    'removesuffix': lambda s: s.removesuffix('a'),
    'match': lambda s: 'A' if s == 'a' else ('B' if s else 'C'),
    'max': lambda s: max(s, 'a'), 'any': lambda s: any(c == 'a' for c in s),
    'all': lambda s: all(c != 'a' for c in s), 'ord': lambda s: [ord(c) for c in s],
    'enumerate': lambda s: [(i, c) for i, c in enumerate(s)],
    'str': lambda s: str(s), 'fold': lambda s: s.casefold(),
    'map': lambda s: ''.join(map(str.upper, s)),
    'sortedby': lambda s: sorted([s, 'B', 'a'], key=str.lower),
    'zip': lambda s: [a + b for a, b in zip(s, 'xyz')],
    'while': lambda s: _trim(s), 'try': lambda s: _tryint(s)}


def _trim(s):
    while s and s[0] == 'a':
        s = s[1:]
    return s


def _tryint(s):
    try:
        return int(s)
    except ValueError:
        return None


@H(configs=[(o, a) for o in STR_OPS for a in ALPHA])
def string(sx, cfg):
    op, alpha = cfg
    s = sx.str('s', 3, alpha)
    r = outcome(STR_OPS[op], s)
    v = sx.concrete(s)
    sx.check(sx.same(r, outcome(STR_OPS[op], v)), f'{op} agrees')


PATS = [r'a', r'^a', r'a$', r'^a*$', r'[a-z]+\d', r'(a|B)1?', r'\w+', r'\s',
        r'^[^a]{2,}$', r'a.?1', r'\bA', r'(?i)ab', r'a{2}', r'(a)(B)?', r'\Aa\Z',
        r'^$', r'_+', r'[_.-]a', r'(?=a)a', r'(.)(.)', r'a|b|1', r'.*?a']


@H(configs=[(p, h, a) for p in PATS for h in ('match', 'search', 'fullmatch')
            for a in ALPHA[:4]])
def regex(sx, cfg):
    pat, how, alpha = cfg
    s = sx.str('s', 3, alpha)
    r = getattr(re, how)(pat, s) is not None
    v = sx.concrete(s)
    sx.check(sx.same(r, getattr(re, how)(pat, v) is not None), 'agrees')


def groups(m):
    return None if m is None else (m.group(0), *m.groups())


@H(configs=[(p, a) for p in PATS for a in ALPHA[:4]])
def regex_groups(sx, cfg):
    pat, alpha = cfg
    s = sx.str('s', 3, alpha)
    r = groups(re.search(pat, s))
    t = re.sub(pat, '<>', s)
    v = sx.concrete(s)
    sx.check(sx.same(r, groups(re.search(pat, v))), 'groups agree')
    sx.check(sx.same(t, re.sub(pat, '<>', v)), 'substitution agrees')


NUM_OPS = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b,
    'mul': lambda a, b: a * b, 'div': lambda a, b: (a / 4, a / (b * 0)),
    'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b,
    'neg': lambda a, b: -a, 'abs': lambda a, b: abs(a) + abs(b),
    'pow': lambda a, b: a ** 2, 'lt': lambda a, b: a < b,
    'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b,
    'ne': lambda a, b: a != b, 'chain': lambda a, b: 0 <= a < b,
    'and': lambda a, b: a and b, 'or': lambda a, b: a or b,
    'not': lambda a, b: not a, 'min': lambda a, b: min(a, b),
    'max': lambda a, b: max(a, b, 1), 'int': lambda a, b: int(a),
    'float': lambda a, b: float(a), 'bool': lambda a, b: bool(a),
    'round': lambda a, b: round(a), 'sum': lambda a, b: sum([a, b, 1]),
    'in': lambda a, b: a in [1, 2, b], 'sorted': lambda a, b: sorted([a, b, 0]),
    'cond': lambda a, b: 'x' if a > b else 'y', 'is': lambda a, b: a is None,
    'isint': lambda a, b: isinstance(a, int), 'isf': lambda a, b: type(a) is float,
    'isb': lambda a, b: isinstance(a, bool), 'dict': lambda a, b: {a: 1}.get(b),
    'key': lambda a, b: {a: 1, b: 2}, 'list': lambda a, b: [a, b].index(b),
    'aug': lambda a, b: _aug(a, b), 'any': lambda a, b: any([a > 1, b > 1]),
    'tern': lambda a, b: (a, b) if a == b else (b, a),
    'set': lambda a, b: len({a, b}), 'str': lambda a, b: str(a),
    'range': lambda a, b: list(range(a, b)),
    'boolint': lambda a, b: ((a > b) + 1, 2 * (a == b), (a > 0) - (b > 0),
                             (a > b) < 1),
    'shift': lambda a, b: (a >> 1, a << 2, a & 1, a & 3),
    'bigdiv': lambda a, b: (divmod(a * 1000, 1500), (a + b) * 700 % 2100,
                            (a * 999) // 1000),
    'rounded': lambda a, b: round(a + 0.0),
    'keyed': lambda a, b: (sorted([a, b], key=abs), min([a, b], key=abs),
                           list(map(abs, [a, b])), list(filter(bool, [a, b]))),
    'raised': lambda a, b: _raised(a)}


def _raised(a):
    try:
        raise ValueError('no', a)
    except ValueError as e:
        return e.args


def _aug(a, b):
    x = a
    x += b
    x -= 1
    return x


def num(sx, name, k):
    return sx.int(name, -12, 12) if k == 'i' else sx.float(name, -2, 2)


@H(configs=[(o, k) for o in NUM_OPS for k in ('ii', 'if', 'fi', 'ff')
            if not (o == 'range' and k != 'ii' or o == 'mul' and k != 'ii')])
def number(sx, cfg):
    op, k = cfg
    hi = 3 if op in ('div', 'range', 'str', 'fmt') else 12
    a, b = num(sx, 'a', k[0]), num(sx, 'b', k[1])
    sx.assume(sx.And(a <= hi, a >= -hi, b <= hi, b >= -hi))
    r = outcome(NUM_OPS[op], a, b)
    x, y = sx.concrete(a), sx.concrete(b)
    sx.check(sx.same(r, outcome(NUM_OPS[op], x, y)), f'{op} agrees')


SEQ_OPS = {
    'get': lambda l, i: l[i], 'from': lambda l, i: l[i:], 'to': lambda l, i: l[:i],
    'step': lambda l, i: l[::i], 'set': lambda l, i: _set(l, i),
    'del': lambda l, i: _del(l, i), 'insert': lambda l, i: _ins(l, i),
    'pop': lambda l, i: (l.pop(i), l), 'slice': lambda l, i: _sl(l, i),
    'dels': lambda l, i: _dels(l, i)}


def _set(l, i):
    l[i] = 9
    return l


def _del(l, i):
    del l[i]
    return l


def _ins(l, i):
    l.insert(i, 9)
    return l


def _sl(l, i):
    l[i:i + 1] = [8, 9]
    return l


def _dels(l, i):
    del l[i:]
    return l


@H(configs=list(SEQ_OPS))
def positions(sx, op):
    n = sx.choice('n', 4)
    l = [10, 20, 30][:n]
    i = sx.int('i', -5, 5)
    r = outcome(SEQ_OPS[op], list(l), i)
    v = sx.concrete(i)
    sx.check(sx.same(r, outcome(SEQ_OPS[op], list(l), v)), f'{op} agrees')
