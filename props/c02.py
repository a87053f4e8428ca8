"""C02: output never contains what the field's read rule hides."""
from datetime import date
from enum import Enum
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass

H = Registry()
BOUNDS = {
    'hiding rules': 'writeonly, internal, temp (and none, as control)',
    'fields': 'int, str, list, dict, embedded object, linked object (object '
              'and reference key), list of linked objects (objects and '
              'reference keys), computed',
    'place': 'the root, an object field, a list or dict of objects (one and '
             'two levels), a linked object, a list of linked objects, a union',
    'options': 'output_null, ignore_writeonly, reverse_relationship, class '
               'level output_null, camel case or plain keys',
    'values': 'the hidden value is any int above 1000 (or string over "xyz"); '
              'all other values are below'}
ASSUMPTIONS = []
RULES = ['none', 'writeonly', 'internal', 'temp']
KINDS = ['int', 'str', 'list', 'dict', 'obj', 'objlist', 'calc']


def leaves(j):
    if isinstance(j, dict):
        for k, v in j.items():
            yield from leaves(v)
    elif isinstance(j, list):
        for v in j:
            yield from leaves(v)
    else:
        yield j


def keys(j):
    if isinstance(j, dict):
        for k, v in j.items():
            yield k
            yield from keys(v)
    elif isinstance(j, list):
        for v in j:
            yield from keys(v)


def hidden(sx, out, s):
    """No part of the output is the hidden value."""
    return sx.And(*[sx.Not(sx.eq(x, s)) for x in leaves(out)
                    if isinstance(x, str) == isinstance(s, str) and
                    x is not None and x is not True and x is not False])


def ruled(rule, t):
    return t if rule == 'none' else getattr(t, rule)


def options(sx):
    return dict(output_null=sx.pick('null', [None, True, False]),
                ignore_writeonly=sx.bool('iw'),
                reverse_relationship=sx.bool('rr'))


def verdict(sx, rule, out, s, opts, names=('mySecret', 'my_secret')):
    shown = rule == 'none' or (rule in ('writeonly', 'internal') and
                               opts['ignore_writeonly'])
    if shown:
        sx.reach('shown')
        sx.check(sx.Not(hidden(sx, out, s)),
                 f'{rule}: a value that is not hidden is in the output')
    else:
        sx.reach('hidden')
        sx.check(hidden(sx, out, s), f'{rule}: a hidden value is not in the '
                 'output')
        sx.check(not any(k in names for k in keys(out)),
                 f'{rule}: a hidden field is not named in the output')


def build(rule, kind, conf=None):
    g = graph()
    In = klass({'x': types.int, 'z': types.int}, 'C02In', g=g, conf=conf)
    if kind == 'calc':
        t = types.int.getter(lambda this: this.src)
    else:
        t = {'int': types.int, 'str': types.str, 'list': types.listof(int),
             'dict': types.dictof(int), 'obj': types.objof('C02In'),
             'objlist': types.listof('C02In')}[kind]
    fields = {'my_secret': ruled(rule, t), 'other': types.int}
    if kind == 'calc':
        # the source of the computed value is itself hidden
        fields['src'] = types.int.writeonly.internal
    K = klass(fields, 'C02K', g=g, conf=conf)
    return K, In, g


def value(sx, kind, In):
    if kind == 'str':
        s = sx.str('s', 3, 'xyz', minlen=1)
        return s, s
    n = sx.int('s', 1001, 10**9)
    v = {'int': n, 'calc': n, 'list': [1, n], 'dict': {'k': n},
         'obj': In(x=n), 'objlist': [In(z=1), In(x=n)]}[kind]
    return n, v


def holder(sx, rule, kind, conf=None):
    K, In, g = build(rule, kind, conf)
    s, v = value(sx, kind, In)
    k = K(other=5)
    if kind == 'calc':
        k.update(src=v)
    else:
        k.update(my_secret=v)
    return k, s, K, g


@H(configs=[(r, k, c) for r in RULES for k in KINDS
            for c in ('camel', 'plain', 'null')
            if not (k == 'calc' and r != 'none' and r != 'writeonly')],
   reach=('shown', 'hidden'))
def at_root(sx, cfg):
    rule, kind, c = cfg
    conf = {'camel': None, 'plain': dict(output_key_strategy=lambda k: k),
            'null': dict(output_null=True)}[c]
    k, s, _, _ = holder(sx, rule, kind, conf)
    o = options(sx)
    if kind == 'calc' and o['ignore_writeonly']:
        return
    verdict(sx, rule, k.tojson(**o), s, o)


PLACES = ['o', 'l', 'd', 'oo', 'll', 'ld', 'dl', 'union']


@H(configs=[(r, k, p) for r in RULES for k in KINDS if k != 'calc'
            for p in PLACES], reach=('shown', 'hidden'))
def nested(sx, cfg):
    rule, kind, place = cfg
    k, s, K, g = holder(sx, rule, kind)
    M = klass({'o': types.objof('C02K')}, 'C02M', g=g)
    t = {'o': lambda: types.objof('C02K'),
         'l': lambda: types.listof('C02K'),
         'd': lambda: types.dictof('C02K'),
         'oo': lambda: types.objof('C02M'),
         'll': lambda: types.listof(types.listof('C02K')),
         'ld': lambda: types.listof(types.dictof('C02K')),
         'dl': lambda: types.dictof(types.listof('C02K')),
         'union': lambda: types.union([types.str, types.objof('C02K')]),
         }[place]()
    O = klass({'f': t, 'n': types.int}, 'C02O', g=g)
    v = {'o': k, 'l': [K(other=1), k], 'd': {'a': k}, 'oo': M(), 'll': [[k]],
         'ld': [{'a': k}], 'dl': {'a': [k]}, 'union': k}[place]
    if place == 'oo':
        v.o = k
    obj = O(n=1)
    obj.f = v
    o = options(sx)
    verdict(sx, rule, obj.tojson(**o), s, o)


@H(configs=[(r, w, c) for r in ('none', 'writeonly', 'internal')
            for w in ('object', 'key', 'many', 'keys')
            for c in ('root', 'o', 'l', 'link')], reach=('shown', 'hidden'))
def links(sx, cfg):
    """A hidden link shows neither the object nor its reference key."""
    rule, way, place = cfg
    g = graph()
    many = way in ('many', 'keys')
    t = types.listof('C02T') if many else types.objof('C02T')
    S = klass({'id': types.int.primary, 'my_secret': ruled(rule, t.linkto),
               'p': types.objof('C02P').linkto}, 'C02S', g=g)
    T = klass({'id': types.int.primary, 'x': types.int,
               'ss': types.listof('C02S').linkedby('my_secret')
               if not many else
               types.listof('C02S').linkedby('my_secret')}, 'C02T', g=g)
    P = klass({'id': types.int.primary,
               'ss': types.listof('C02S').linkedby('p')}, 'C02P', g=g)
    O = klass({'o': types.objof('C02S'), 'l': types.listof('C02S')}, 'C02O',
              g=g)
    s = sx.int('s', 1001, 10**9)
    obj = S(id=1)
    if way == 'object':
        obj.my_secret = T(id=s)
    elif way == 'key':
        obj.my_secret_id = s
    elif way == 'many':
        obj.my_secret = [T(id=s)]
    else:
        obj.my_secret_ids = [s]
    if place == 'o':
        root = O()
        root.o = obj
    elif place == 'l':
        root = O()
        root.l = [obj]
    elif place == 'link':
        root = P(id=2)
        root.ss = [obj]
    else:
        root = obj
    o = options(sx)
    names = ('mySecret', 'mySecretId', 'mySecretIds', 'my_secret')
    verdict(sx, rule, root.tojson(**o), s, o, names)


class Hue(Enum):
    RED = 1


@H(configs=[(r, k) for r in RULES for k in ('date', 'enum', 'bool', 'float',
                                            'any', 'union')])
def other_types(sx, cfg):
    """Hidden fields of the remaining types are not named in the output."""
    rule, kind = cfg
    t = {'date': types.date, 'enum': types.enum(Hue), 'bool': types.bool,
         'float': types.float, 'any': types.any,
         'union': types.union([types.int, types.str])}[kind]
    K = klass({'my_secret': ruled(rule, t), 'other': types.int})
    obj = K(other=1)
    obj.update(my_secret={
        'date': date(2020, 1, 2), 'enum': Hue.RED, 'bool': sx.bool('b'),
        'float': sx.float('f', -9, 9), 'any': sx.json('a', ['int', 'str']),
        'union': sx.int('u', -9, 9)}[kind])
    o = options(sx)
    out = obj.tojson(**o)
    shown = rule == 'none' or rule != 'temp' and o['ignore_writeonly']
    sx.check(('mySecret' in out) == shown, f'{rule}: named iff not hidden')


@H(configs=[('writeonly', 'readwrite'), ('internal', 'readwrite')])
def lifted(sx, cfg):
    """readwrite lifts the rule again."""
    rule, lift = cfg
    s = sx.int('s', 1001, 10**9)
    K = klass({'my_secret': getattr(getattr(types, rule).int, lift)})
    obj = K(my_secret=s)
    sx.check(sx.same(obj.tojson(), {'mySecret': s}), 'visible again')


SETS = [['a'], ['b', 'h'], ['h'], ['a', 'l', 'h'], ['l'], []]


@H(configs=[(r, w, p) for r in RULES for w in ('pick', 'omit', 'both')
            for p in ('root', 'o', 'l')])
def chosen(sx, cfg):
    """Picking and omitting fields shows exactly the chosen ones that are not
    hidden, of that object only."""
    rule, way, place = cfg
    lrule = 'none' if rule == 'temp' else rule
    g = graph()
    K = klass({'id': types.int.primary, 'a': types.int, 'b': types.int,
               'h': ruled(rule, types.int),
               'l': ruled(lrule, types.objof('C02T').linkto)}, 'C02K', g=g)
    T = klass({'id': types.int.primary,
               'ks': types.listof('C02K').linkedby('l')}, 'C02T', g=g)
    O = klass({'f': types.objof('C02K') if place == 'o' else
               types.listof('C02K'), 'a': types.int}, 'C02O', g=g)
    k, k2 = K(id=1), K(id=2)
    for x in (k, k2):
        x.update(a=2, b=3, h=sx.int('s', 1001, 10**9), l=T(id=1000))
    names = ['id', 'a', 'b', 'h', 'l']
    first = sx.pick('first', SETS)
    if way == 'pick':
        k.pick(first)
        shown = set(first)
    elif way == 'omit':
        k.omit(first)
        shown = set(names) - set(first)
    else:
        then = [f for f in first if sx.bool('omit ' + f)]
        k.pick(first)
        k.omit(then)
        shown = set(first) - set(then)
    o = dict(output_null=sx.bool('null'), ignore_writeonly=sx.bool('iw'))

    def want(shown):
        for f, r in (('h', rule), ('l', lrule)):
            if not (r == 'none' or r != 'temp' and o['ignore_writeonly']):
                shown = shown - {f}
        return shown | ({'lId'} if 'l' in shown else set())
    if place == 'root':
        outs = [k.tojson(**o), k2.tojson(**o)]
    else:
        root = O(a=1)
        root.f = k if place == 'o' else [k, k2]
        out = root.tojson(**o)
        sx.check(set(out) == {'f', 'a'}, 'the choice is of that object only')
        outs = [out['f']] if place == 'o' else out['f']
    sx.check(set(outs[0]) == want(shown), 'exactly the chosen fields')
    if len(outs) > 1:
        sx.check(set(outs[1]) == want(set(names)), 'no choice for others')
