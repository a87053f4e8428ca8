"""C28: steps that look at other objects see the right ones, as they are."""
from symx.sx import Registry
from jsonclasses import types
from jsonclasses.excs import (UnauthorizedActionException,
                              ValidationException)
from jsonclasses.objref import ObjRef
from props.util import graph, klass, persisted, vexc

H = Registry()
BOUNDS = {
    'steps': 'this, getop, passin, fval, isobj, isobjof, assign, invalid, '
             'fmt; in getters, setters, rules, parameters and guards',
    'objects': 'the object itself, nested ones, linked ones (loaded or known '
               'by key), operators of three classes',
    'values': 'ints -3..3 symbolic, strings to 2 characters, null'}
ASSUMPTIONS = []


def num(sx, n):
    return sx.int(n, -3, 3)


def opt(sx, n):
    return num(sx, n) if sx.bool(n + '?') else None


@H(configs=['getter', 'rule', 'param', 'default', 'transform'])
def fval(sx, how):
    """this.fval is the current value of the field of the same object."""
    fields = {'a': types.int, 'b': types.int}
    see = types.this.fval('a')
    if how == 'getter':
        fields['c'] = types.int.getter(see)
    elif how == 'rule':
        fields['c'] = types.int.eq(see)
    elif how == 'param':
        fields['c'] = types.int.min(see)
    elif how == 'default':
        fields['c'] = types.int.default(see)
    else:
        fields['c'] = types.int.add(see)
    g = graph()
    K = klass(fields, 'C28K', g=g)
    O = klass({'a': types.int, 'o': types.objof('C28K'),
               'l': types.listof('C28K')}, 'C28O', g=g)
    a, b = num(sx, 'a'), num(sx, 'b')
    d = {'a': a}
    if how in ('rule', 'param', 'transform'):
        d['c'] = b
    where = sx.pick('where', ['root', 'o', 'l'])
    if where == 'root':
        o = K(**d)
    elif where == 'o':
        r = O(a=99, o=d)
        o = r.o
    else:
        r = O(a=99, l=[{'a': 98}, d])
        o = r.l[1]
    root = o if where == 'root' else r
    a2 = num(sx, 'a2')
    if how == 'getter':
        sx.check(sx.same(o.c, a), 'it is the value')
        o.a = a2
        sx.check(sx.same(o.c, a2), 'and the current one')
    elif how in ('rule', 'param'):
        def good(x, y):
            return y == x if how == 'rule' else y >= x
        sx.check(sx.Iff(vexc(lambda: root.validate()) is None, good(a, b)),
                 'the rule compares with the value')
        o.a = a2
        sx.check(sx.Iff(vexc(lambda: root.validate()) is None, good(a2, b)),
                 'and with the current one')
    elif how == 'default':
        sx.check(sx.same(o.c, a), 'the default is the value')
        o.a = a2
        sx.check(sx.same(o.c, a), 'at the time of input')
    else:
        sx.check(sx.same(o.c, a + b), 'the parameter is the value')


@H(configs=['loaded', 'key', 'none'])
def reference(sx, how):
    """The value of a link is the object, or what is known of it."""
    g = graph()
    seen = []

    def note(x):
        seen.append(x)
        return 0
    P = klass({'id': types.int.primary, 'u': types.objof('C28U').linkto,
               'v': types.int.getter(
                   types.this.fval('u').transform(note))}, 'C28P', g=g)
    U = klass({'id': types.int.primary,
               'ps': types.listof('C28P').linkedby('u'),
               'n': types.int.getter(
                   types.this.fval('ps').transform(note))}, 'C28U', g=g)
    k = sx.int('k', 0, 3)
    p = P(id=1)
    if how == 'loaded':
        p.u = U(id=k)
    elif how == 'key':
        p.u_id = k
    p.v
    if how == 'loaded':
        sx.check(seen[-1] is p.u, 'a loaded object is itself')
        p.u.n
        sx.check(len(seen[-1]) == 1 and seen[-1][0] is p, 'and the other '
                 'side the list of objects')
    elif how == 'key':
        sx.check(isinstance(seen[-1], ObjRef) and seen[-1].cls == 'C28U',
                 'an object not loaded is a reference to its class')
        sx.check(sx.same(seen[-1].id, k), 'with its key')
    else:
        sx.check(seen == [] or seen[-1] is None, 'no link is null')


OPS = ['U', 'V', 'S', 'none']


@H(configs=[(w, f) for w in ('guard', 'field') for f in ('class', 'name')])
def isobjof(sx, cfg):
    """isobjof accepts exactly objects of the class, named in the graph of
    the object."""
    where, form = cfg
    names = {}
    shared = None
    for i in (0, 1):
        g = graph()
        U = klass({'id': types.int.primary}, 'C28A', g=g)
        V = klass({'id': types.int.primary}, 'C28B', g=g)
        if form == 'class':
            rule = types.getop.isobjof(U)
        else:
            shared = rule = shared or types.getop.isobjof('C28A')
        if where == 'guard':
            K = klass({'n': types.int}, 'C28K', {'can_create': rule}, g)
        else:
            K = klass({'n': types.int.canc(rule)}, 'C28K', g=g)
        names[i] = K, U, V
    first = sx.choice('first', 2)
    for i in (first, 1 - first):
        K, U, V = names[i]
        other = names[1 - i][1]
        kind = sx.pick('op', ['U', 'V', 'other'])
        op = {'U': U, 'V': V, 'other': other}[kind](id=num(sx, 'id'))
        o = K(n=1)
        o.opby(op)
        e = sx.raises(UnauthorizedActionException if where == 'guard' else
                      ValidationException, lambda: o.save())
        sx.check((e is None) == (kind == 'U'), 'exactly an object of that '
                 'class is accepted')


@H(configs=['value', 'call', 'chain', 'passin'])
def assign(sx, how):
    """A setter that assigns changes exactly the field it names."""
    v, w = num(sx, 'v'), num(sx, 'w')
    to = {'value': 2, 'call': lambda: 3, 'chain': types.this.fval('b'),
          'passin': types.passin.mul(2)}[how]
    K = klass({'a': types.int, 'b': types.int,
               'c': types.int.getter(types.this.fval('a'))
               .setter(types.this.assign('a', to))})
    o = persisted(K(a=v, b=w))
    x = num(sx, 'x')
    o.c = x
    want = {'value': 2, 'call': 3, 'chain': w, 'passin': x * 2}[how]
    sx.check(sx.same((o.a, o.b), (want, w)), 'exactly the named field has '
             'the value')
    sx.check(sx.same(o.c, want), 'and the computed one follows')
    sx.check(sx.Iff('a' in o.modified_fields, want != v) and
             set(o.modified_fields) <= {'a'}, 'the change is recorded')


FMT = ['call1', 'call2', 'chain', 'after', 'twice']


@H(configs=[(f, p) for f in FMT for p in ('f', 'l', 'd', 'o')])
def fmt(sx, cfg):
    """A format is for output only."""
    how, place = cfg
    seen = []

    def two(x, ctx):
        seen.append(ctx)
        return x + '!'
    t = {'call1': types.str.fmt(lambda x: x + '!'),
         'call2': types.str.fmt(two),
         'chain': types.str.fmt(types.append('!')),
         'after': types.str.fmt(lambda x: x + '!').maxlength(2),
         'twice': types.str.fmt(lambda x: x + '#').fmt(
             types.append('!'))}[how]
    g = graph()
    In = klass({'v': t}, 'C28In', g=g)
    K = klass({'f': t, 'l': types.listof(t), 'd': types.dictof(t),
               'o': types.objof('C28In')}, 'C28K', g=g)
    s = sx.str('s', 2, 'ab!')
    o = K(**{place: {'f': s, 'l': [s, 'a'], 'd': {'k': s},
                     'o': {'v': s}}[place]})
    persisted(o)

    def now():
        return {'f': lambda: o.f, 'l': lambda: o.l[0],
                'd': lambda: o.d['k'], 'o': lambda: o.o.v}[place]()
    for _ in range(2):
        out = o.tojson()[place]
        got = {'f': lambda: out, 'l': lambda: out[0], 'd': lambda: out['k'],
               'o': lambda: out['v']}[place]()
        sx.check(sx.same(got, s + ('#!' if how == 'twice' else '!')),
                 'output is formatted')
        sx.check(sx.same(now(), s), 'the value stays')
    sx.check(o.modified_fields == () and vexc(lambda: o.validate()) is None,
             'nothing else changes')
    if how in ('call1', 'call2'):
        n = K().tojson(output_null=True)
        sx.check(n['f'] is None, 'null is not formatted')


@H(configs=['field', 'item', 'oneisvalid'])
def invalid(sx, where):
    """invalid accepts nothing."""
    v = sx.json('v', ['none', 'int', 'str', 'bool'])
    if where == 'field':
        K = klass({'f': types.any.invalid, 'g': types.int})
        o = K(g=1)
        o.f = v
        e = vexc(lambda: o.validate())
        sx.check(e is not None and list(e.keypath_messages) == ['f'], 'no '
                 'value is valid')
    elif where == 'item':
        K = klass({'f': types.listof(types.any.invalid)})
        n = sx.choice('n', 3)
        o = K()
        o.f = [v] * n
        e = vexc(lambda: o.validate())
        sx.check((e is None) == (n == 0), 'no item is valid')
    else:
        i = num(sx, 'i')
        K = klass({'f': types.int.oneisvalid([types.invalid,
                                              types.min(1)])})
        sx.check(sx.Iff(vexc(lambda: K(f=i).validate()) is None, i >= 1),
                 'another alternative may be')


@H(configs=['loaded', 'key', 'both'])
def isobj(sx, how):
    """A linked object is compared by class and key, loaded or not."""
    g = graph()
    U = klass({'id': types.int.primary,
               'ps': types.listof('C28P').linkedby('u')}, 'C28U', g=g)
    V = klass({'id': types.int.primary}, 'C28V', g=g)
    P = klass({'id': types.int.primary, 'u': types.objof('C28U').linkto},
              'C28P', {'can_create': types.getop.isobj(types.this.fval('u'))},
              g)
    j, k = sx.int('j', 0, 2), sx.int('k', 0, 2)
    p = P(id=1)
    if how == 'key':
        p.u_id = j
    else:
        p.u = U(id=j)
    kind = sx.pick('op', ['U', 'V', 'same'])
    if kind == 'same':
        sx.assume(how == 'both')
        op = p.u
    else:
        op = {'U': U, 'V': V}[kind](id=k)
    p.opby(op)
    e = sx.raises(UnauthorizedActionException, lambda: p.save())
    sx.check(sx.Iff(e is None, sx.Or(kind == 'same',
                                     sx.And(kind == 'U', sx.eq(j, k)))),
             'exactly the same object is accepted')
