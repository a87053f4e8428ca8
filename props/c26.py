"""C26: random values have the asked form, whatever the random source gives."""
import random
import secrets
import sys
from symx.sx import Registry
from jsonclasses import types
from props.util import PARAM_FORMS, klass, param, persisted, vexc

H = Registry()
BOUNDS = {
    'random source': 'every function of the random and secrets modules that '
                     'picks a value is a stand-in with a symbolic result: any '
                     'value its documentation allows',
    'parameters': 'lengths 0..12, int bounds symbolic -5..5, float bounds '
                  'multiples of 1/8 in -5..5; constant, callable or chain',
    'places': 'input given or missing, list items, defaults, setonsave'}
ASSUMPTIONS = ['The random source behaves as documented; that values are '
               'evenly distributed is outside.']

LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
DIGITS = '0123456789'
PUNCS = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'
SETS = {'digits': DIGITS, 'alnums': LOWER + UPPER + DIGITS,
        'alnumpuncs': LOWER + UPPER + DIGITS + PUNCS}


class Source:
    """Stand-ins for the random functions, with symbolic results."""

    def __init__(self, sx):
        self.sx = sx
        self.drawn = []

    def note(self, v):
        self.drawn.append(v)
        return v

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if not start < stop:
            raise ValueError('empty range for randrange()')
        v = self.sx.int('random', -1000, 1000)
        self.sx.assume(self.sx.And(start <= v, v < stop))
        if step != 1:
            self.sx.assume((v - start) % step == 0)
        return self.note(v)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def randbelow(self, n):
        return self.randrange(0, n)

    def uniform(self, a, b):
        v = self.sx.float('random', -10, 10)
        lo, hi = (a, b) if a <= b else (b, a)
        self.sx.assume(self.sx.And(lo <= v, v <= hi))
        return self.note(v)

    def random(self):
        v = self.sx.float('random', 0, 1)
        self.sx.assume(v < 1)
        return self.note(v)

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError('Cannot choose from an empty sequence')
        if isinstance(seq, str):
            return self.note(self.sx.str('random', 1, seq, 1))
        return self.note(self.sx.pick('random', list(seq)))

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return [self.choice(population) for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        if not 0 <= k <= len(population):
            raise ValueError('Sample larger than population')
        got = []
        for _ in range(k):
            v = self.choice(population)
            for x in got:
                self.sx.assume(v != x)
            got.append(v)
        return got


NAMES = ['randrange', 'randint', 'uniform', 'random', 'choice', 'choices',
         'sample']


class Namespace:
    def __init__(self, source, original):
        self.source, self.original = source, original

    def __getattr__(self, name):
        if name in NAMES or name == 'randbelow':
            return getattr(self.source, name)
        return getattr(self.original, name)

    def Random(self, *args):
        return self

    SystemRandom = Random


class rigged:
    """Within, the code's random functions are the stand-ins."""

    def __init__(self, sx):
        self.source = Source(sx)
        self.saved = []

    def put(self, obj, name, value):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def __enter__(self):
        real = {getattr(random, n): n for n in NAMES}
        real[secrets.choice] = 'choice'
        real[secrets.randbelow] = 'randbelow'
        for m, mod in list(sys.modules.items()):
            if not m.startswith('jsonclasses') or mod is None:
                continue
            for n, v in list(vars(mod).items()):
                if v is random or v is secrets:
                    self.put(mod, n, Namespace(self.source, v))
                elif callable(v) and getattr(v, '__name__', None) in \
                        NAMES + ['randbelow'] and v in real:
                    self.put(mod, n, getattr(self.source, real[v]))
        for n in NAMES:
            self.put(random, n, getattr(self.source, n))
        self.put(secrets, 'choice', self.source.choice)
        self.put(secrets, 'randbelow', self.source.randbelow)
        return self.source

    def __exit__(self, *exc):
        for obj, name, value in reversed(self.saved):
            setattr(obj, name, value)


LENGTHS = [0, 1, 2, 6, 11, 12]


def well_formed(sx, s, kind, n):
    sx.check(isinstance(s, str) and len(s) == n, 'the string has exactly the '
             'asked length')
    sx.check(sx.all_chars(s, lambda c: c in SETS[kind]), 'and only allowed characters')


@H(configs=[(k, f, n) for k in SETS for f in PARAM_FORMS for n in LENGTHS],
   thorough=[(k, f, n) for k in SETS for f in PARAM_FORMS
             for n in range(0, 101, 4)])
def strings(sx, cfg):
    kind, form, n = cfg
    t = getattr(types.str, 'random' + kind)(param(form, n))
    K = klass({'f': t, 'g': types.int})
    with rigged(sx) as source:
        o = K(f=sx.str('in', 2, 'ab'), g=1) if sx.bool('given') else K(g=1)
    well_formed(sx, o.f, kind, n)
    sx.check(o.g == 1 and vexc(lambda: o.validate()) is None, 'a valid object')
    sx.check(len(source.drawn) >= n, 'each character is drawn')


@H(configs=PARAM_FORMS, reach=('ok', 'refused'))
def ints(sx, form):
    lo, hi = sx.int('lo', -5, 5), sx.int('hi', -5, 5)
    K = klass({'f': types.int.randomint(param(form, lo), param(form, hi))})
    made = []
    with rigged(sx):
        e = vexc(lambda: made.append(
            K(f=sx.int('in', 0, 9)) if sx.bool('given') else K()))
    if e is None:
        sx.reach('ok')
        v = made[0].f
        sx.check(isinstance(v, int), 'it is an int')
        sx.check(sx.And(lo <= v, v < hi), 'not below the minimum and below '
                 'the maximum')
    else:
        sx.reach('refused')
        sx.check(lo >= hi, 'exactly an empty range is refused')
        sx.check(list(e.keypath_messages) == ['f'], 'the error names the '
                 'field')
    sx.check(sx.Iff(e is None, lo < hi), 'exactly an empty range is refused')


@H(configs=[(f, k) for f in PARAM_FORMS for k in ('float', 'int')])
def floats(sx, cfg):
    form, kind = cfg
    make = sx.float if kind == 'float' else sx.int
    lo, hi = make('lo', -5, 5), make('hi', -5, 5)
    K = klass({'f': types.float.randomfloat(param(form, lo),
                                            param(form, hi))})
    with rigged(sx):
        o = K(f=1.5) if sx.bool('given') else K()
    sx.check(sx.Or(sx.And(lo <= o.f, o.f <= hi), sx.And(hi <= o.f,
                                                        o.f <= lo)),
             'the number lies between the bounds')
    sx.check(isinstance(o.f, float), 'it is a float')


@H(configs=[(k, w) for k in SETS for w in ('default', 'save', 'items',
                                           'call')])
def places(sx, cfg):
    """Random values as defaults and at save, drawn anew for every object."""
    kind, where = cfg
    r = getattr(types, 'random' + kind)(4)
    with rigged(sx) as source:
        if where == 'items':
            K = klass({'f': types.listof(
                getattr(types.str, 'random' + kind)(4))})
            o = K(f=['a', 'b'])
            got = list(o.f)
            sx.check(len(got) == 2, 'one for each item')
        elif where == 'default':
            K = klass({'f': types.str.default(r)})
            got = [K().f, K().f]
            sx.check(K(f='z').f == 'z', 'a default replaces nothing')
        elif where == 'save':
            K = klass({'f': types.str.setonsave(r)})
            o = K(f='z')
            sx.check(o.f == 'z', 'not before saving')
            o.save()
            got = [o.f]
            persisted(o)
            o.f = 'y'
            o.save()
            got.append(o.f)
        else:
            K = klass({'f': types.str, 'n': types.int,
                       'g': getattr(types.str, 'random' + kind)(
                           lambda o: 2 + 2)})
            got = [K().g, K().g]
    for s in got:
        well_formed(sx, s, kind, 4)
    sx.check(len(source.drawn) >= 8, 'each is drawn on its own')
