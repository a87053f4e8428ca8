"""C23: enum fields take exactly the allowed spellings and give them back."""
from enum import Enum
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted, vexc

H = Registry()
BOUNDS = {
    'enums': 'int values, str values, values that are names of other '
             'members, aliases',
    'settings': 'every combination of the input modifiers before or after '
                'enum, every output modifier',
    'input': 'ints 0..4, strings to 3 characters over A, B, C, a, b, c, 1, _; '
             'other kinds; members; null',
    'places': 'field, list item, dict item'}
ASSUMPTIONS = ['Member names are upper case, as the input modifiers '
               'document.']


class Num(Enum):
    A = 1
    B = 2
    ABC = 3
    A_1 = 4


class Txt(Enum):
    A = 'a1'
    BC = 'b'
    C = 'C1'


class Swap(Enum):
    A = 'B'
    B = 'A'


class Falsy(Enum):
    A = 0
    B = ''
    C = 2


class Other(Enum):
    A = 1


ENUMS = {'num': Num, 'txt': Txt, 'swap': Swap, 'falsy': Falsy}
IN = {'': (), 'n': ('inputname',), 'v': ('inputvalue',),
      'l': ('inputlname',), 'nv': ('inputname', 'inputvalue'),
      'vl': ('inputvalue', 'inputlname'), 'nl': ('inputname', 'inputlname'),
      'all': ('inputall',)}
OUT = ['', 'outputname', 'outputvalue', 'outputlname']
PLACES = ['f', 'l', 'd']


def chain(mods, e, out, after):
    t = types
    for m in () if after else mods:
        t = getattr(t, m)
    t = t.enum(e)
    for m in mods if after else ():
        t = getattr(t, m)
    return getattr(t, out) if out else t


def allowed(mods, after):
    s = set()
    for m in mods:
        s |= {'inputname': {'n'}, 'inputvalue': {'v'}, 'inputlname': {'l'},
              'inputall': {'n', 'v', 'l'}}[m]
    if not mods or after and 'inputall' not in mods:
        s.add('n')
    return s


def world(place, t):
    t = {'f': lambda: t, 'l': lambda: types.listof(t),
         'd': lambda: types.dictof(t)}[place]()
    return klass({'f': t}, 'C23K')


def pack(place, x):
    return x if place == 'f' else [x] if place == 'l' else {'k': x}


def unpack(place, x):
    return x if place == 'f' else x[0] if place == 'l' else x['k']


def meaning(sx, e, ways, x):
    """The member that x spells, or None."""
    if 'v' in ways:
        for m in e:
            if type(m.value) is type(x) and m.value == x:
                return m
    if isinstance(x, str):
        for m in e:
            if 'n' in ways and x == m.name:
                return m
        for m in e:
            if 'l' in ways and x == m.name.lower():
                return m
    return None


CASES = [(e, i, '', p, a) for e in ENUMS for i in IN for p in PLACES
         for a in (False, True) if p == 'f' or e == 'num']


def spelling(sx):
    k = sx.pick('kind', ['int', 'str'])
    return sx.int('i', 0, 4) if k == 'int' else sx.str('s', 3, 'ABCabc1_ ')


@H(configs=CASES, reach=('accepted', 'refused'))
def input(sx, cfg):
    ename, ins, out, place, after = cfg
    e = ENUMS[ename]
    ways = allowed(IN[ins], after)
    K = world(place, chain(IN[ins], e, out, after))
    x = spelling(sx)
    # upper case input to a lower case name only field is not specified
    if isinstance(x, str) and 'l' in ways:
        sx.assume(sx.Or(x == x.lower(), x == x.upper() if 'n' in ways
                        else False))
    got = []
    err = vexc(lambda: got.append(K(f=pack(place, x))))
    m = meaning(sx, e, ways, x)
    if m is None:
        sx.reach('refused')
        sx.check(err is not None, 'an unknown spelling is refused')
        key = {'f': 'f', 'l': 'f.0', 'd': 'f.k'}[place]
        sx.check(list(err.keypath_messages) == [key], 'the error names the '
                 'place')
    else:
        sx.reach('accepted')
        sx.check(err is None, 'an allowed spelling is accepted')
        sx.check(unpack(place, got[0].f) is m, 'it becomes the member that '
                 'it spells')
        sx.check(vexc(lambda: got[0].validate()) is None, 'which is valid')


@H(configs=[(e, o, p) for e in ENUMS for o in OUT for p in PLACES])
def output(sx, cfg):
    """Output is the chosen spelling; members are accepted as they are."""
    ename, out, place = cfg
    e = ENUMS[ename]
    K = world(place, chain((), e, out, False))
    m = sx.pick('member', list(e))
    o = K(f=pack(place, m))
    sx.check(unpack(place, o.f) is m, 'a member is taken as it is')
    sx.check(vexc(lambda: o.validate()) is None, 'a member is valid')
    j = unpack(place, o.tojson()['f'])
    want = {'': m.name, 'outputname': m.name, 'outputvalue': m.value,
            'outputlname': m.name.lower()}[out]
    sx.check(type(j) is type(want) and j == want, 'output is the chosen '
             'spelling')


@H(configs=[(e, w) for e in ENUMS for w in ('n', 'v', 'l')])
def round_trip(sx, cfg):
    """What is output is accepted and becomes the same member."""
    ename, way = cfg
    e = ENUMS[ename]
    t = {'n': types.inputname.enum(e).outputname,
         'v': types.inputvalue.enum(e).outputvalue,
         'l': types.inputlname.enum(e).outputlname}[way]
    K = klass({'f': t, 'l': types.listof(t)}, 'C23R')
    m, n = sx.pick('m', list(e)), sx.pick('n', list(e))
    o = K(f=m, l=[n, m])
    p = K(**o.tojson())
    sx.check(p.f is m and p.l[0] is n and p.l[1] is m, 'output is input for '
             'the same member')


@H(configs=[(e, p) for e in ENUMS for p in PLACES])
def assigned(sx, cfg):
    """An assigned value that is no member of this enum is invalid."""
    ename, place = cfg
    e = ENUMS[ename]
    K = world(place, types.enum(e).inputall)
    o = K(f=pack(place, list(e)[0]))
    k = sx.pick('kind', ['int', 'str', 'other', 'member', 'none', 'bool'])
    x = {'int': lambda: sx.int('i', 0, 4),
         'str': lambda: sx.str('s', 2, 'ABa1 '), 'other': lambda: Other.A,
         'member': lambda: sx.pick('m', list(e)), 'none': lambda: None,
         'bool': lambda: sx.bool('b')}[k]()
    if sx.bool('persisted'):
        persisted(o)
    o.f = pack(place, x)
    bad = k not in ('member', 'none') or k == 'none' and place != 'f'
    sx.check((vexc(lambda: o.validate()) is not None) == bad,
             'exactly members are valid')


@H(configs=['list', 'dict', 'bool', 'float'])
def other_kinds(sx, kind):
    """Values that cannot spell a member are refused, not stored."""
    x = {'list': lambda: [sx.int('i', 0, 3)],
         'dict': lambda: {'A': sx.int('i', 0, 3)},
         'bool': lambda: sx.bool('b'), 'float': lambda: 1.5}[kind]()
    out = sx.pick('in', ['', 'inputname', 'inputlname'] if kind == 'bool'
                  else ['', 'inputall', 'inputvalue'])
    t = types.enum(Num)
    K = klass({'f': getattr(types, out).enum(Num) if out else t}, 'C23O')
    sx.check(vexc(lambda: K(f=x)) is not None, 'other kinds are refused')
