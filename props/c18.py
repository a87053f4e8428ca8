"""C18: a key path in input writes exactly the place it names."""
from datetime import date
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted, vexc

H = Registry()
BOUNDS = {
    'places': 'fields of nested objects, items of lists and dicts, fields of '
              'their items, nested 3 deep; ints, strings, dates and objects',
    'spelling': 'dots and brackets, field names and JSON names',
    'values': 'ints -10**6..10**6, strings to 2 characters, null, all '
              'symbolic; indices 0..2 of lists of 0 to 2 items; symbolic '
              'first and last names',
    'calls': 'set() and constructor; two paths and a plain key in one call'}
ASSUMPTIONS = ['Indices are not negative.']


def world():
    g = graph()
    X = {'my_x': types.int, 's': types.str, 'd': types.date}
    klass({**X, 'l': types.listof(types.int)}, 'C18J', g=g)
    klass({**X, 'l': types.listof(types.int), 'j': types.objof('C18J')},
          'C18I', g=g)
    K = klass({'n': types.int, 'my_o': types.objof('C18I'),
               'my_l': types.listof(types.int),
               'my_d': types.dictof(types.int),
               'lo': types.listof('C18I'), 'do': types.dictof('C18I'),
               'll': types.listof(types.listof(types.int)),
               'ld': types.listof(types.dictof(types.int)),
               'dl': types.dictof(types.listof(types.int)),
               'dd': types.dictof(types.dictof(types.int)),
               'dates': types.listof(types.date)}, 'C18K', g=g)
    return K, g


def obj(n):
    return {'my_x': n, 's': 's', 'd': '2020-01-01', 'l': [n, n + 1]}


def full():
    return {'n': 1, 'my_o': {**obj(10), 'j': obj(20)}, 'my_l': [2, 3],
            'my_d': {'a': 4, 'b': 5}, 'lo': [obj(30), {**obj(40),
                                                       'j': obj(50)}],
            'do': {'a': obj(60), 'b': {**obj(70), 'j': obj(80)}},
            'll': [[1, 2], [3]], 'ld': [{'a': 1, 'b': 2}, {'a': 3}],
            'dl': {'a': [1, 2], 'b': [3]}, 'dd': {'a': {'a': 1}, 'b': {}},
            'dates': ['2020-01-01', '2020-01-02']}


def snap(v):
    """The whole tree as plain nested values."""
    if hasattr(v, 'cdef'):
        return {f.name: snap(getattr(v, f.name)) for f in v.cdef.fields}
    if isinstance(v, list):
        return [snap(x) for x in v]
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    return v


def put(s, path, v):
    """The snapshot with the place of the path changed."""
    if not path:
        return v
    k = path[0]
    if isinstance(s, list):
        return [put(x, path[1:], v) if i == k else x for i, x in enumerate(s)]
    out = dict(s)
    out[k] = put(s.get(k), path[1:], v)
    return out


def containers(v, at=()):
    """Every object, list and dict of the tree with its place."""
    if hasattr(v, 'cdef'):
        out = [(at, v)]
        for f in v.cdef.fields:
            out += containers(getattr(v, f.name), at + (f.name,))
        return out
    if isinstance(v, list):
        return [(at, v)] + [c for i, x in enumerate(v)
                            for c in containers(x, at + (i,))]
    if isinstance(v, dict):
        return [(at, v)] + [c for k, x in v.items()
                            for c in containers(x, at + (k,))]
    return []


# places; 0 and 'a' stand for an index and a key that the solver chooses
PLACES = {
    'obj.int': ['my_o', 'my_x'], 'obj.str': ['my_o', 's'],
    'obj.date': ['my_o', 'd'], 'obj.obj.int': ['my_o', 'j', 'my_x'],
    'obj.list': ['my_o', 'l'], 'obj.item': ['my_o', 'l', 0],
    'obj.obj.item': ['my_o', 'j', 'l', 0],
    'item': ['my_l', 0], 'value': ['my_d', 'a'],
    'item.int': ['lo', 0, 'my_x'], 'item.date': ['lo', 0, 'd'],
    'item.item': ['lo', 0, 'l', 0], 'item.list': ['lo', 0, 'l'],
    'value.int': ['do', 'a', 'my_x'], 'value.item': ['do', 'a', 'l', 0],
    'item.obj.int': ['lo', 1, 'j', 'my_x'],
    'value.obj.str': ['do', 'b', 'j', 's'],
    'll': ['ll', 0, 0], 'ld': ['ld', 0, 'a'], 'dl': ['dl', 'a', 0],
    'dd': ['dd', 'a', 'a'], 'll.list': ['ll', 0], 'ld.dict': ['ld', 0],
    'dates': ['dates', 0]}
SPELL = ['dots', 'brackets', 'camel']
KIND = {'s': 'str', 'd': 'date', 'l': 'list', 'dates': 'date'}


def chosen(sx, path):
    """The path with solver chosen indices and keys, and how it is written."""
    out = []
    for i, p in enumerate(path):
        if p == 0:
            out.append(sx.choice(f'i{i}', 2))
        elif p == 'a':
            out.append(sx.pick(f'k{i}', ['a', 'b']))
        else:
            out.append(p)
    return out


def camel(p):
    return {'my_x': 'myX', 'my_o': 'myO', 'my_l': 'myL', 'my_d': 'myD'}.get(
        p, p)


def spell(path, how):
    if how == 'dots':
        return '.'.join(str(p) for p in path)
    if how == 'camel':
        return '.'.join(camel(p) if isinstance(p, str) else str(p)
                        for p in path)
    s = path[0]
    for p in path[1:]:
        s += f'[{p}]' if isinstance(p, int) or p in ('a', 'b') else '.' + p
    return s


def value(sx, place):
    """Input for the place and what it becomes."""
    path = PLACES[place]
    k = 'date' if place in ('dates', 'obj.date', 'item.date') else \
        'str' if path[-1] == 's' else \
        'list' if place in ('obj.list', 'item.list', 'll.list') else \
        'dict' if place == 'ld.dict' else 'int'
    if k == 'date':
        n = sx.pick('day', [1, 15, 28, 29, 31])
        return f'2021-03-{n:02}', date(2021, 3, n)
    if k == 'str':
        v = sx.str('v', 2, 'ab.[') if sx.bool('some') else None
        return v, v
    n = sx.int('v', -10**6, 10**6) if sx.bool('some') else None
    if k == 'list':
        return [n], [n]
    if k == 'dict':
        return {'a': n}, {'a': n}
    return n, n


def exists(s, path):
    """Whether the parent of the place is there."""
    for p in path[:-1]:
        if isinstance(s, list):
            if p >= len(s):
                return False
            s = s[p]
        else:
            s = s.get(p)
        if s is None:
            return False
    return not isinstance(s, list) or path[-1] < len(s)


def same_tree(sx, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and sx.And(*[same_tree(sx, a[k], b[k])
                                             for k in a])
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and sx.And(*[same_tree(sx, x, y)
                                             for x, y in zip(a, b)])
    if isinstance(a, date) and isinstance(b, date):
        return sx.And(a.year == b.year, a.month == b.month, a.day == b.day)
    return sx.same(a, b)


@H(configs=[(p, s) for p in PLACES for s in SPELL])
def writes(sx, cfg):
    place, how = cfg
    K, g = world()
    o = persisted(K(**full()))
    path = chosen(sx, PLACES[place])
    raw, want = value(sx, place)
    before = snap(o)
    conts = containers(o)
    key = spell(path, how)
    if not exists(before, path):
        e = sx.raises(Exception, lambda: o.set(**{key: raw}))
        sx.check(e is not None and same_tree(sx, snap(o), before), 'a place '
                 'that does not exist is refused')
        return
    o.set(**{key: raw})
    sx.check(same_tree(sx, snap(o), put(before, path, want)), 'the place has '
             'the value and everything else is as it was')
    now = {at: c for at, c in containers(o)}
    for at, c in conts:
        if at[:len(path)] != tuple(path):
            sx.check(now.get(at) is c, 'no object or container is replaced')


@H(configs=[(p, s) for p in ('obj.int', 'item', 'value', 'item.int', 'dd')
            for s in SPELL])
def tracked(sx, cfg):
    """The write is tracked like any other change."""
    place, how = cfg
    K, g = world()
    o = K(**full())
    for _, c in containers(o):
        if hasattr(c, 'cdef'):
            persisted(c)
    path = chosen(sx, PLACES[place])
    v = sx.int('v', -100, 100)
    before = snap(o)
    sx.assume(exists(before, path))
    old = before
    for p in path:
        old = old.get(p) if isinstance(old, dict) else old[p]
    o.set(**{spell(path, how): v})
    changed = sx.Not(sx.same(old, v))
    if place in ('obj.int', 'item.int'):
        holder = o.my_o if place == 'obj.int' else o.lo[path[1]]
        sx.check(sx.Implies(changed, holder.is_modified and
                            set(holder.modified_fields) == {'my_x'}),
                 'the object written to is modified')
    else:
        sx.check(sx.Implies(changed, o.is_modified and {
            f.split('.')[0] for f in o.modified_fields} == {path[0]}),
            'the object written to is modified')
    for at, c in containers(o):
        if hasattr(c, 'cdef') and c is not o and tuple(
                path[:len(at)]) != at:
            sx.check(not c.is_modified, 'other objects are not')


@H(configs=['set', 'init'])
def together(sx, call):
    """Several paths and plain keys in one call all take effect, in order."""
    K, g = world()
    v = [sx.int(f'v{i}', -9, 9) for i in range(4)]
    i, j = sx.choice('i', 2), sx.choice('j', 2)
    args = {'n': v[0], f'my_l.{i}': v[1], 'my_o.j.my_x': v[2],
            f'myL[{j}]': v[3]}
    if call == 'set':
        o = K(**full())
        before = snap(o)
        o.set(**args)
    else:
        f = full()
        before = snap(K(**f))
        f.update(args)
        o = K(**f)
    want = put(before, ['n'], v[0])
    want = put(want, ['my_l', i], v[1])
    want = put(want, ['my_o', 'j', 'my_x'], v[2])
    want = put(want, ['my_l', j], v[3])
    sx.check(same_tree(sx, snap(o), want), 'each takes effect')


@H(configs=[(p, st) for p in ('first', 'last', 'deep') for st in (None, True,
                                                                  False)])
def unknown(sx, cfg):
    """Names that are no fields are treated as in other input."""
    where, strict = cfg
    g = graph()
    c = {} if strict is None else {'strict_input': strict}
    klass({'ab': types.int, 'a_b': types.int}, 'C18J', c, g)
    klass({'ab': types.int, 'a_b': types.int, 'b': types.objof('C18J')},
          'C18I', c, g)
    K = klass({'ab': types.objof('C18I'), 'a_b': types.objof('C18I')}, 'C18K',
              c, g)
    one = {'ab': 1, 'a_b': 2}
    o = K(ab={**one, 'b': one}, a_b={**one, 'b': one})
    name = sx.concrete(sx.str('name', 3, 'abB_', 1))
    v = sx.int('v', 5, 9)
    key = {'first': name + '.ab', 'last': 'ab.' + name,
           'deep': 'a_b.b.' + name}[where]
    before = snap(o)
    ab, a_b = sx.eq(name, 'ab'), sx.Or(sx.eq(name, 'a_b'), sx.eq(name, 'aB'))
    if where == 'last':
        sx.assume(sx.Not(sx.eq(name, 'b')))
    e = vexc(lambda: o.set(**{key: v}))
    known = sx.Or(ab, a_b)
    sx.check(sx.Iff(e is not None, sx.And(sx.Not(known), strict is not False)),
             'an unknown name is an error exactly where input is strict')
    if where == 'first':
        p1, p2 = ['ab', 'ab'], ['a_b', 'ab']
    elif where == 'last':
        p1, p2 = ['ab', 'ab'], ['ab', 'a_b']
    else:
        p1, p2 = ['a_b', 'b', 'ab'], ['a_b', 'b', 'a_b']
    now = snap(o)
    sx.check(sx.Implies(ab, same_tree(sx, now, put(before, p1, v))), 'a known '
             'name is written')
    sx.check(sx.Implies(a_b, same_tree(sx, now, put(before, p2, v))),
             'a known name is written')
    sx.check(sx.Implies(sx.Not(known), same_tree(sx, now, before)), 'an '
             'unknown one is not')


@H(configs=['list', 'dict', 'linked'])
def objects(sx, kind):
    """An object written to an item is read like any input."""
    g = graph()
    I = klass({'id': types.int.primary, 'x': types.int, 'r':
               types.int.readonly, 'k': types.objof('C18K').linkto}, 'C18I',
              g=g)
    K = klass({'f': types.dictof('C18I') if kind == 'dict' else
               types.nonnull.listof('C18I') if kind == 'list' else
               types.nonnull.listof('C18I').linkedby('k')}, 'C18K', g=g)
    vs = [{'id': 1, 'x': 1}, {'id': 2, 'x': 2}]
    o = K(f=dict(zip('ab', vs)) if kind == 'dict' else vs)
    i = sx.choice('i', 2)
    k = 'ab'[i] if kind == 'dict' else i
    old = [o.f['a'], o.f['b']] if kind == 'dict' else list(o.f)
    v = sx.int('v', -9, 9)
    o.set(**{f'f.{k}': {'id': 3, 'x': v, 'r': v}})
    new = o.f[k]
    sx.check(type(new) is I, 'it becomes an object')
    sx.check(new.r is None and new.id == 3 and sx.same(new.x, v), 'with the '
             'rules of its class')
    other = o.f['ab'[1 - i]] if kind == 'dict' else o.f[1 - i]
    sx.check(other is old[1 - i] and len(o.f) == 2, 'the other item stays')
    if kind == 'linked':
        sx.check(new.k is o and other.k is o and old[i].k is None, 'links '
                 'follow')
