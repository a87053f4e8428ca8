"""C15: one primary key is one object, in input and among linked objects."""
from symx.sx import Registry
from jsonclasses import types
from jsonclasses.excs import JSONClassGraphMergeConflictException
from props.util import graph, klass

H = Registry()
BOUNDS = {
    'keys': 'symbolic ints 0..3 or strings of 1..2 characters; with and '
            'without a key',
    'names': '4 pairs of similar class names',
    'input': 'four occurrences of an object of one class at different places '
             'of nested input, each with other values; up to three levels',
    'links': '3 to 4 objects, linked by assignment, append, constructor and '
             'from either side, in every order; embedded objects'}
ASSUMPTIONS = ['Keys do not change after the object is made.',
               'Key values of one class are all of the declared type.']


def world(g, key):
    K = {'id': getattr(types, key).primary, 'a': types.int, 'b': types.int}
    U = klass({**K, 'ps': types.nonnull.listof('C15P').linkedby('u'),
               'cs': types.listof('C15C').linkedby('w')}, 'C15U', g=g)
    P = klass({**K, 'u': types.objof('C15U').linkto,
               'cs': types.listof('C15C').linkedby('p')}, 'C15P', g=g)
    C = klass({**K, 'w': types.objof('C15U').linkto,
               'p': types.objof('C15P').linkto}, 'C15C', g=g)
    return U, P, C


def key_of(sx, n, key):
    return sx.int(n, 0, 3) if key == 'int' else sx.str(n, 2, 'a1', 1)


def occurrence(sx, n, k):
    """Input of a user with the key and none, one or both of the values."""
    d = {'id': k}
    vals = sx.pick(n + '.vals', ['a', 'b', ''])
    if vals:
        d[vals] = sx.int(n + '.v', 1, 9)
    return d


def got(sx, seq, f, same):
    """What field f is after the occurrences that are the same object."""
    v = None
    for d, s in zip(seq, same):
        if s and f in d:
            v = d[f]
    return v


@H(configs=[(k, top) for k in ('int', 'str') for top in ('P', 'U', 'C')])
def repeated(sx, cfg):
    """Equal keys in one input are one object, different keys are not."""
    key, top = cfg
    U, P, C = world(graph(), key)
    n = 3
    ks = [key_of(sx, f'k{i}', key) for i in range(n)]
    ds = [occurrence(sx, f'o{i}', k) for i, k in enumerate(ks)]
    one = 1 if key == 'int' else 'a'
    two = 2 if key == 'int' else '1'
    if top == 'P':
        o = P(id=one, u=ds[0], cs=[{'id': one, 'w': ds[1]},
                                   {'id': two, 'w': ds[2]}])
        us = [o.u, o.cs[0].w, o.cs[1].w]
        ps = [o]
    elif top == 'U':
        o = U(**ds[0], ps=[{'id': one, 'cs': [{'id': one, 'w': ds[1]},
                                              {'id': two, 'w': ds[2]}]}])
        us = [o, o.ps[0].cs[0].w, o.ps[0].cs[1].w]
        ps = [o.ps[0]]
    else:
        o = C(id=one, w=ds[0], p={'id': one, 'u': ds[1], 'cs': [
            {'id': two, 'w': ds[2]}]})
        us = [o.w, o.p.u, [c for c in o.p.cs if c is not o][0].w]
        ps = [o.p]
    for i in range(n):
        for j in range(i):
            sx.check(sx.Iff(us[i] is us[j], sx.eq(ks[i], ks[j])), 'equal keys '
                     'are one object, different keys are different objects')
        sx.check(sx.same(us[i].id, ks[i]), 'the key is the one of the input')
        for f in ('a', 'b'):
            want = got(sx, ds, f, [u is us[i] for u in us])
            sx.check(sx.same(getattr(us[i], f), want), 'the object has the '
                     'values of all its occurrences')
    for p in ps:
        for c in p.cs:
            sx.check(c.p is p, 'the objects read are linked both ways')
            sx.check(len([1 for x in c.w.cs if x is c]) == 1, 'and once')
        if p.u is not None:
            sx.check(len([1 for x in p.u.ps if x is p]) == 1, 'and once')


@H(configs=['int', 'str'])
def across_classes(sx, key):
    """Equal keys of different classes are different objects."""
    U, P, C = world(graph(), key)
    ks = [key_of(sx, f'k{i}', key) for i in range(3)]
    o = P(id=ks[0], a=1, u={'id': ks[1], 'a': 2}, cs=[{'id': ks[2], 'a': 3}])
    sx.check(type(o.u) is U and type(o.cs[0]) is C and o.a == 1 and
             o.u.a == 2 and o.cs[0].a == 3, 'keys of other classes do not '
             'matter')
    sx.check(o._graph is o.u._graph and o._graph is o.cs[0]._graph and
             o._graph.get(o) is o and o._graph.get(o.u) is o.u and
             o._graph.get(o.cs[0]) is o.cs[0], 'one graph has them all')


NAMES = [('C15n', 'C15N'), ('C15X', 'C15XY'), ('C15a1', 'C15a'),
         ('C15_a', 'C15A')]


@H(configs=NAMES)
def names(sx, cfg):
    """Classes with similar names do not share keys."""
    g = graph()
    A = klass({'id': types.int.primary, 'v': types.int}, cfg[0], g=g)
    B = klass({'id': types.int.primary, 'w': types.int}, cfg[1], g=g)
    O = klass({'a': types.objof(cfg[0]), 'b': types.objof(cfg[1]),
               'l': types.listof(cfg[0]), 'm': types.listof(cfg[1])},
              'C15NO', g=g)
    i, j = sx.int('i', 0, 3), sx.int('j', 0, 3)
    v, w = sx.int('v', 1, 9), sx.int('w', 1, 9)
    o = O(a={'id': i, 'v': v}, b={'id': j, 'w': w}, l=[{'id': j}],
          m=[{'id': i}])
    sx.check(all(type(x) is A for x in (o.a, o.l[0])) and
             all(type(x) is B for x in (o.b, o.m[0])), 'an object is of the '
             'class of its field')
    sx.check(sx.all_eq([o.a.id, o.b.id, o.l[0].id, o.m[0].id, o.a.v, o.b.w],
                       [i, j, j, i, v, w]), 'with its own values')
    sx.check(sx.Iff(o.a is o.l[0], sx.eq(i, j)) and
             sx.Iff(o.b is o.m[0], sx.eq(i, j)), 'and is one object if the '
             'keys are equal')


@H(configs=[None])
def without_key(sx):
    """Objects without key are never merged."""
    U, P, C = world(graph(), 'int')
    n = sx.choice('n', 3)
    v = sx.int('v', 0, 1)
    o = U(a=v, ps=[{'a': v} for _ in range(n)],
          **({'id': 1} if sx.bool('key') else {}))
    sx.check(len(o.ps) == n and len({id(p) for p in o.ps}) == n and
             all(p.u is o for p in o.ps), 'each is an object of its own')


WAYS = ['assign', 'list', 'append', 'init', 'back']


def link(way, u, ps):
    if way == 'assign':
        for p in ps:
            p.u = u
    elif way == 'list':
        u.ps = ps
    elif way == 'append':
        for p in ps:
            u.ps.append(p)
    else:
        for p in reversed(ps):
            p.u = u


@H(configs=[(w, k) for w in WAYS for k in ('int', 'str')])
def linked(sx, cfg):
    """Linked objects share a graph; two objects with one key are refused."""
    way, key = cfg
    U, P, C = world(graph(), key)
    ks = [key_of(sx, f'k{i}', key) for i in range(3)]
    vs = [sx.int(f'v{i}', 0, 1) for i in range(2)]
    ps = [P(id=ks[0], a=vs[0]), P(id=ks[1], a=vs[1])]
    c = C(id=ks[2], a=2)
    made = []
    uk = 1 if key == 'int' else 'a'

    def run():
        if sx.bool('first'):
            c.p = ps[0]
        if way == 'init':
            u = U(id=uk, ps=ps)
        else:
            u = U(id=uk)
            link(way, u, ps)
        if c.p is None:
            c.p = ps[1]
        made.append(u)
    e = sx.raises(JSONClassGraphMergeConflictException, run)
    sx.check(sx.Iff(e is not None, sx.eq(ks[0], ks[1])), 'linking two objects '
             'with one key is refused, and nothing else')
    if e is None:
        u = made[0]
        every = [u, c] + ps
        for x in every:
            sx.check(x._graph is u._graph and u._graph.get(x) is x, 'all '
                     'linked objects are in one graph')
            sx.check(u._graph.has(x), 'and are found there')
        sx.check(len(list(u._graph)) == 4, 'each once')


@H(configs=['int', 'str'])
def unrelated(sx, key):
    """Objects that are not linked do not share a graph, equal keys or not."""
    U, P, C = world(graph(), key)
    ks = [key_of(sx, f'k{i}', key) for i in range(2)]
    a, b = U(id=ks[0]), U(id=ks[1])
    pa, pb = P(id=ks[0], u=a), P(id=ks[1])
    b.ps = [pb]
    sx.check(a._graph is not b._graph and a._graph is pa._graph and
             b._graph is pb._graph, 'each group has its own graph')
    sx.check(a._graph.get(a) is a and b._graph.get(b) is b, 'with its own '
             'objects')
    e = sx.raises(JSONClassGraphMergeConflictException,
                  lambda: setattr(pa, 'u', b))
    sx.check(sx.Iff(e is not None, sx.eq(ks[0], ks[1])), 'joining two groups '
             'is refused exactly if they have a key in common')
    if e is None:
        for x in (a, b, pa, pb):
            sx.check(a._graph.get(x) is x and x._graph is b._graph, 'the '
                     'joined graph has both groups')
