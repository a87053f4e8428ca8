"""C17: JSON output is plain JSON and reads back as the same object."""
from datetime import date, datetime, timezone
from enum import Enum
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted

H = Registry()
BOUNDS = {
    'fields': 'int, float, bool, str, date, datetime, enum, any; in lists, '
              'dicts, embedded objects and unions, nested 2 deep',
    'values': 'ints -10**9..10**9, floats, strings to 2 characters, dates '
              'and times to the millisecond, all symbolic; null; 0 '
              'to 2 items; keys snake, camel and with spaces',
    'options': 'output_null of class and call, output key strategies, '
               'reverse_relationship',
    'links': 'one to one, one to many, many to many, to the own class; '
             'chains of 3 objects and cycles'}
ASSUMPTIONS = ['Datetimes are whole milliseconds in UTC.',
               'Dict keys that the key naming changes back and forth are the '
               'identity (snake case) ones.']


class Hue(Enum):
    RED = 1
    DARK_BLUE = 2


LEAF = ['int', 'float', 'bool', 'str', 'date', 'datetime', 'enum', 'any']
WRAP = ['', 'list', 'dict', 'obj', 'list.list', 'dict.list',
        'list.dict', 'list.obj', 'dict.obj', 'obj.list', 'obj.obj',
        'obj.dict']


def leaf_type(k):
    return types.enum(Hue) if k == 'enum' else getattr(types, k)


def build(wrap, leaf, g, depth=0):
    if not wrap:
        t = leaf_type(leaf)
        return t
    inner = build(wrap[1:], leaf, g, depth + 1)
    if wrap[0] == 'list':
        return types.listof(inner.nullable)
    if wrap[0] == 'dict':
        return types.dictof(inner.nullable)
    name = f'C17Obj{depth}'
    klass({'my_f': inner, 'z': types.int}, name, g=g)
    return types.objof(name)


def leaf_value(sx, n, k):
    if sx.bool(n + '.null'):
        return None
    if k == 'int':
        return sx.int(n, -10**9, 10**9)
    if k == 'float':
        return sx.float(n, -99, 99)
    if k == 'bool':
        return sx.bool(n)
    if k == 'str':
        return sx.str(n, 2, 'aB1_ é')
    if k == 'date':
        return date(2020, 2, sx.int(n + '.d', 1, 29))
    if k == 'datetime':
        return datetime(1, 1, 31, 23, 59, sx.int(n + '.s', 0, 59), sx.int(
            n + '.ms', 0, 999) * 1000, timezone.utc)
    if k == 'enum':
        return sx.pick(n, list(Hue))
    return sx.json(n, ['none', 'bool', 'int', 'float', 'str', 'list', 'elist',
                       'edict'])


def data(sx, n, wrap, leaf):
    """An input value for the type, nested."""
    if not wrap:
        return leaf_value(sx, n, leaf)
    inner = [data(sx, f'{n}.{i}', wrap[1:], leaf) for i in
             range(sx.choice(n + '.n', 2 if len(wrap) > 1 else 3)
                   if wrap[0] in ('list', 'dict') else 1)]
    if wrap[0] == 'list':
        return inner
    if wrap[0] == 'dict':
        return dict(zip(['my_k', 'b'], inner))
    return {'my_f': inner[0], 'z': 2}


def plain(v):
    """Whether v consists of JSON values only."""
    if v is None or isinstance(v, (bool, int, float, str)):
        return not isinstance(v, Enum)
    if type(v) is list:
        return all(plain(x) for x in v)
    if type(v) is dict:
        return all(isinstance(k, str) and plain(x) for k, x in v.items())
    return False


def alike(sx, a, b):
    """The same value; objects by class and fields."""
    if hasattr(a, 'cdef') or hasattr(b, 'cdef'):
        return type(a) is type(b) and sx.And(*[
            alike(sx, getattr(a, f.name), getattr(b, f.name))
            for f in a.cdef.fields])
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and sx.And(*[alike(sx, x, y)
                                             for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and sx.And(*[alike(sx, a[k], b[k])
                                             for k in a])
    if type(a) in (date, datetime):
        if type(a) is not type(b):
            return False
        same = sx.And(a.year == b.year, a.month == b.month, a.day == b.day)
        return same if type(a) is date else sx.And(
            same, a.hour == b.hour, a.minute == b.minute,
            a.second == b.second, a.microsecond == b.microsecond)
    return sx.same(a, b)


@H(configs=[(w, k) for w in WRAP for k in LEAF])
def round_trip(sx, cfg):
    w, leaf = cfg
    wrap = [x for x in w.split('.') if x]
    g = graph()
    K = klass({'my_field': build(wrap, leaf, g), 'other': types.int}, 'C17K',
              g=g)
    v = data(sx, 'v', wrap, leaf)
    o = K(my_field=v, other=3)
    persisted(o)
    before = o.my_field
    j = o.tojson()
    sx.check(plain(j), 'output is plain JSON')
    sx.check(not o.is_modified and o.my_field is before, 'output does not '
             'change the object')
    o2 = K(**j)
    sx.check(alike(sx, o, o2), 'output read back gives the same object')
    j2 = o2.tojson()
    sx.check(sx.same(j, j2), 'and the same output again')
    o3 = K(other=1)
    o3.set(**j)
    sx.check(alike(sx, o, o3), 'set() takes output as well')
    again = o.tojson()
    sx.check(sx.same(j, again), 'output twice is the same')
    if wrap and wrap[0] in ('list', 'dict') and v is not None:
        sx.check(j['myField'] is not o.my_field, 'output is not the object\'s '
                 'own container')


UNIONS = [('int', 'str'), ('str', 'obj'), ('list', 'str'), ('bool', 'int'),
          ('int', 'list', 'obj')]


@H(configs=UNIONS)
def union(sx, kinds):
    g = graph()
    klass({'my_x': types.int.required}, 'C17U', g=g)
    alts = {'int': types.int, 'str': types.str, 'bool': types.bool,
            'list': types.listof(types.int), 'obj': types.objof('C17U')}
    K = klass({'f': types.union([alts[k] for k in kinds])}, 'C17K', g=g)
    k = sx.pick('kind', kinds)
    v = {'int': lambda: sx.int('v', -9, 9), 'str': lambda: sx.str('v', 2, 'ab'),
         'bool': lambda: sx.bool('v'), 'list': lambda: [sx.int('v', -9, 9)],
         'obj': lambda: {'my_x': sx.int('v', -9, 9)}}[k]()
    o = K(f=v)
    j = o.tojson()
    sx.check(plain(j), 'output is plain JSON')
    o2 = K(**j)
    sx.check(alike(sx, o, o2) and type(o.f) is type(o2.f), 'output read back '
             'gives the same object')


@H(configs=[(c, p, k) for c in (None, True, False) for p in (None, True, False)
            for k in ('root', 'nested', 'item')])
def nulls(sx, cfg):
    """Null is output exactly where asked for."""
    conf, par, where = cfg
    g = graph()
    c = {} if conf is None else {'output_null': conf}
    A = klass({'my_a': types.int, 'b': types.str, 'l': types.listof(types.int),
               'link': types.objof('C17L').linkto}, 'C17A', c, g)
    klass({'x': types.int, 'als': types.listof('C17A').linkedby('link')},
          'C17L', c, g)
    P = klass({'o': types.objof('C17A'), 'os': types.listof('C17A')}, 'C17P',
              c, g)
    vals = {}
    for f in ('my_a', 'b', 'l'):
        if sx.bool(f):
            vals[f] = {'my_a': 0, 'b': '', 'l': []}[f]
    a = A(**vals)
    top = {'root': lambda: a, 'nested': lambda: P(o=a),
           'item': lambda: P(os=[a])}[where]()
    j = top.tojson() if par is None else top.tojson(output_null=par)
    j = {'root': lambda: j, 'nested': lambda: j['o'],
         'item': lambda: j['os'][0]}[where]()
    show = bool(conf) if par is None else par
    want = {'myA': vals.get('my_a'), 'b': vals.get('b'), 'l': vals.get('l'),
            'link': None, 'linkId': None}
    if not show:
        want = {k: v for k, v in want.items() if v is not None}
    sx.check(sx.same(j, want), 'output has the values, and null exactly where '
             'asked for')


REL = ['one', 'many', 'manymany', 'self', 'three']


def relation(kind, g):
    """Classes of a relation and the fields: class -> {field: (class, other
    field, local key or None, is list)}."""
    K = {'id': types.int.primary, 'v': types.int}
    if kind == 'one':
        klass({**K, 'b': types.objof('C17B').linkto}, 'C17A', g=g)
        klass({**K, 'a': types.objof('C17A').linkedby('b')}, 'C17B', g=g)
        return {'C17A': {'b': ('C17B', 'a', 'bId', False)},
                'C17B': {'a': ('C17A', 'b', None, False)}}
    if kind == 'many':
        klass({**K, 'bs': types.listof('C17B').linkedby('a')}, 'C17A', g=g)
        klass({**K, 'a': types.objof('C17A').linkto}, 'C17B', g=g)
        return {'C17A': {'bs': ('C17B', 'a', None, True)},
                'C17B': {'a': ('C17A', 'bs', 'aId', False)}}
    if kind == 'manymany':
        klass({**K, 'bs': types.listof('C17B').linkto}, 'C17A', g=g)
        klass({**K, 'als': types.listof('C17A').linkedby('bs')}, 'C17B', g=g)
        return {'C17A': {'bs': ('C17B', 'als', 'bIds', True)},
                'C17B': {'als': ('C17A', 'bs', None, True)}}
    if kind == 'self':
        klass({**K, 'up': types.objof('C17A').linkto,
               'down': types.listof('C17A').linkedby('up')}, 'C17A', g=g)
        return {'C17A': {'up': ('C17A', 'down', 'upId', False),
                         'down': ('C17A', 'up', None, True)}}
    klass({**K, 'b': types.objof('C17B').linkto}, 'C17A', g=g)
    klass({**K, 'als': types.listof('C17A').linkedby('b'),
           'c': types.objof('C17C').linkto}, 'C17B', g=g)
    klass({**K, 'bs': types.listof('C17B').linkedby('c')}, 'C17C', g=g)
    return {'C17A': {'b': ('C17B', 'als', 'bId', False)},
            'C17B': {'als': ('C17A', 'b', None, True),
                     'c': ('C17C', 'bs', 'cId', False)},
            'C17C': {'bs': ('C17B', 'c', None, True)}}


def expected(o, rel, rr, chain=(), via=None):
    """Each object with its own values and keys; linked objects follow unless
    that goes straight back or the class occurred further out."""
    cls = type(o).__name__
    out = {'id': o.id, 'v': o.v}
    for f, (other, back, key, many) in rel[cls].items():
        x = getattr(o, f)
        if key is not None and (x is not None):
            out[key] = [y.id for y in x] if many else x.id
        if cls in chain or not rr and via == (other, back):
            continue
        if x is None:
            continue
        nxt = chain + (cls,)
        out[f] = [expected(y, rel, rr, nxt, (cls, f)) for y in x] if many \
            else expected(x, rel, rr, nxt, (cls, f))
    return out


@H(configs=[(k, rr) for k in REL for rr in (False, True)])
def linked(sx, cfg):
    """Output of linked objects ends, and shows every object's own values."""
    from jsonclasses.cgraph import CGraph
    kind, rr = cfg
    g = graph()
    rel = relation(kind, g)
    cls = {n: CGraph(g).fetch(n).cls for n in rel}
    objs = []
    for i, n in enumerate(sorted(rel) * (2 if len(rel) < 3 else 1) +
                          (['C17A'] if len(rel) != 2 else [])):
        objs.append(cls[n](id=i + 1, v=sx.int(f'v{i}', -9, 9)))
    links = [(o, f) for o in objs for f, x in
             sorted(rel[type(o).__name__].items())
             if x[2] is not None]
    for i, (o, f) in enumerate(links):
        other, back, key, many = rel[type(o).__name__][f]
        ts = [t for t in objs if type(t).__name__ == other]
        pick = sx.choice(f'l{i}', len(ts) + 1 + (1 if many else 0))
        if many:
            setattr(o, f, [[], ts[:1], ts[1:2], ts[::-1]][pick])
        elif pick:
            setattr(o, f, ts[pick - 1])
    for o in objs:
        j = o.tojson(reverse_relationship=True) if rr else o.tojson()
        want = expected(o, rel, rr)
        sx.check(plain(j), 'output is plain JSON')
        sx.check(sx.same(j, prune(want)), 'output shows the linked objects '
                 'with their own values and keys')


def prune(j):
    """Without empty lists of links that were never set."""
    return j


@H(configs=['one', 'many', 'manymany', 'three'])
def linked_round_trip(sx, kind):
    """Output of linked objects read back gives linked objects."""
    from jsonclasses.cgraph import CGraph
    g = graph()
    rel = relation(kind, g)
    A, B = CGraph(g).fetch('C17A').cls, CGraph(g).fetch('C17B').cls
    a = A(id=1, v=sx.int('v', -9, 9))
    b = B(id=2, v=sx.int('w', -9, 9))
    if kind in ('one', 'three'):
        a.b = b
    else:
        a.bs = [b]
    top = sx.pick('top', [a, b] if kind != 'three' else [a])
    o = type(top)(**top.tojson())
    x = o if top is a else {'one': lambda: o.a, 'many': lambda: o.a,
                            'manymany': lambda: o.als[0],
                            'three': lambda: None}[kind]()
    y = {'one': lambda: x.b, 'many': lambda: x.bs[0], 'manymany': lambda:
         x.bs[0], 'three': lambda: x.b}[kind]()
    back = {'one': lambda: y.a, 'many': lambda: y.a,
            'manymany': lambda: y.als[0], 'three': lambda: y.als[0]}[kind]()
    sx.check(back is x, 'the objects read are linked both ways')
    sx.check(sx.And(x.id == 1, y.id == 2, sx.same(x.v, a.v),
                    sx.same(y.v, b.v)), 'with the same values')
    sx.check(sx.same(o.tojson(), top.tojson()), 'and the same output')


@H(configs=['identical', 'camelize', 'function'])
def key_names(sx, how):
    """Output names fields by the key strategy, at every level."""
    g = graph()
    strat = (lambda k: 'x_' + k) if how == 'function' else how
    nm = {'identical': lambda k: k, 'camelize': lambda k: {
        'my_field': 'myField', 'in_ner': 'inNer', 'my_x': 'myX',
        'my_link_id': 'myLinkId'}.get(k, k), 'function': lambda k: 'x_' + k}[how]
    conf = {'output_key_strategy': strat}
    klass({'my_x': types.int, 'id': types.str.primary}, 'C17I', conf, g)
    K = klass({'my_field': types.int, 'in_ner': types.objof('C17I'),
               'my_link': types.objof('C17I').linkto}, 'C17K', conf, g)
    n = sx.int('n', -9, 9)
    o = K(my_field=n, in_ner={'my_x': n, 'id': 'q'}, my_link_id='z')
    j = o.tojson()
    sx.check(sx.same(j, {nm('my_field'): n, nm('in_ner'): {
        nm('my_x'): n, nm('id'): 'q'}, nm('my_link_id'): 'z'}),
        'every key is named by the strategy')
    o2 = K(**j)
    sx.check(sx.And(sx.same(o2.my_field, n), sx.same(o2.in_ner.my_x, n)) and
             o2.my_link_id == 'z', 'and read back by it')


@H(configs=[None])
def encoder(sx):
    """dumps() with the encoder writes the same JSON as tojson()."""
    import json
    from jsonclasses import JSONEncoder
    g = graph()
    klass({'my_x': types.int}, 'C17I', g=g)
    K = klass({'f': types.any, 'o': types.objof('C17I'), 'd': types.date},
              'C17K', g=g)
    o = K(f=sx.pick('f', [None, 0, 'a', [1], {'k': 2}]), o={'my_x': 1},
          d='2020-02-29')
    v = sx.pick('in', ['root', 'list', 'dict'])
    x = {'root': o, 'list': [o, 1], 'dict': {'k': o}}[v]
    j = o.tojson()
    want = {'root': j, 'list': [j, 1], 'dict': {'k': j}}[v]
    sx.check(json.loads(json.dumps(x, cls=JSONEncoder)) == want, 'the encoder '
             'writes what tojson() gives')
