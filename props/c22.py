"""C22: computed fields are always what their getter says, never stored."""
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted, vexc

H = Registry()
BOUNDS = {
    'getters': 'callable or chain over int and str fields, a list field, '
               'another computed field',
    'setters': 'callable or none',
    'history': 'constructor, set(), assignment, in place changes, save(), '
               'reset of the fields it depends on; input for the computed '
               'field itself under each name',
    'values': 'ints -3..3, symbolic; strings to 2 characters'}
ASSUMPTIONS = ['A getter is a function of the other fields.']


def world(g, log=None):
    def total(o):
        if log is not None:
            log.append(1)
        return o.a * 2 + o.b

    def put(v, o):
        o.a = v
        o.b = 0
    K = klass({'a': types.int, 'b': types.int,
               'my_sum': types.getter(total).int.max(5),
               'both': types.getter(lambda o: o.my_sum + 1).int,
               'size': types.getter(lambda o: len(o.l)).int,
               'rw': types.getter(lambda o: o.a + 10).setter(put).int,
               'c': types.getter(types.this.fval('a').add(3)).int,
               'l': types.nonnull.listof(types.int)}, 'C22K',
              {'reset_all_fields': True}, g)
    P = klass({'o': types.objof('C22K'), 'os': types.listof('C22K'),
               'd': types.dictof('C22K')}, 'C22P', g=g)
    return K, P


def num(sx, n):
    return sx.int(n, -3, 3)


def judge(sx, o, a, b, n):
    sx.check(sx.same(o.my_sum, a * 2 + b), 'a computed field is computed from '
             'the current values')
    sx.check(sx.same(o.both, a * 2 + b + 1), 'also from another computed '
             'field')
    sx.check(sx.same(o.size, n), 'also from a list')
    sx.check(sx.same(o.rw, a + 10), 'also with a setter')
    sx.check(sx.same(o.c, a + 3), 'also by a chain')


@H(configs=['assign', 'set', 'update', 'inplace', 'reset', 'save', 'input'])
def current(sx, how):
    K, P = world(graph())
    a, b = num(sx, 'a'), num(sx, 'b')
    o = K(a=a, b=b, l=[1])
    judge(sx, o, a, b, 1)
    if sx.bool('persisted'):
        persisted(o)
    x = num(sx, 'x')
    if how == 'assign':
        o.a = x
        judge(sx, o, x, b, 1)
    elif how == 'set':
        o.set(b=x)
        judge(sx, o, a, x, 1)
    elif how == 'update':
        o.update(a=x, b=x)
        judge(sx, o, x, x, 1)
    elif how == 'inplace':
        o.l.append(2)
        judge(sx, o, a, b, 2)
        o.l.clear()
        judge(sx, o, a, b, 0)
    elif how == 'reset':
        persisted(o)
        o.a = x
        o.l.append(1)
        o.reset()
        judge(sx, o, a, b, 1)
    elif how == 'save':
        o.save(skip_validation=True)
        judge(sx, o, a, b, 1)
    else:
        key = sx.pick('key', ['my_sum', 'mySum', 'both', 'size', 'c'])
        o.set(**{key: x})
        judge(sx, o, a, b, 1)
        sx.check(not o.is_modified, 'input for a computed field changes '
                 'nothing')
        o2 = K(a=a, b=b, l=[1], **{key: x})
        judge(sx, o2, a, b, 1)


@H(configs=['root', 'o', 'os', 'd'])
def output(sx, where):
    """Output and validation see the computed value, wherever the object is."""
    K, P = world(graph())
    a, b = num(sx, 'a'), num(sx, 'b')
    o = K(a=a, b=b, l=[1, 2])
    r = {'root': lambda: o, 'o': lambda: P(o=o), 'os': lambda: P(os=[o]),
         'd': lambda: P(d={'k': o})}[where]()
    if sx.bool('changed'):
        a = num(sx, 'x')
        o.a = a
    j = r.tojson()
    j = {'root': lambda: j, 'o': lambda: j['o'], 'os': lambda: j['os'][0],
         'd': lambda: j['d']['k']}[where]()
    sx.check(sx.same(j, {'a': a, 'b': b, 'mySum': a * 2 + b,
                         'both': a * 2 + b + 1, 'size': 2, 'rw': a + 10,
                         'c': a + 3, 'l': [1, 2]}), 'output contains the '
             'computed values')
    e = vexc(lambda: r.validate())
    sx.check(sx.Iff(e is None, a * 2 + b <= 5), 'validation judges the '
             'computed value')


@H(configs=['new', 'persisted'])
def assigned(sx, state):
    """Assigning calls the setter; without a setter it is refused."""
    K, P = world(graph())
    a, b, x = num(sx, 'a'), num(sx, 'b'), num(sx, 'x')
    o = K(a=a, b=b, l=[])
    if state == 'persisted':
        persisted(o)
    name = sx.pick('name', ['rw', 'my_sum', 'both', 'c', 'size'])
    if name == 'rw':
        o.rw = x
        judge(sx, o, x, 0, 0)
        if state == 'persisted':
            sx.check(sx.Iff(a != x, 'a' in o.modified_fields) and
                     'rw' not in o.modified_fields, 'the fields that the '
                     'setter changes are modified')
    else:
        e = sx.raises(Exception, lambda: setattr(o, name, x))
        sx.check(e is not None, 'a computed field without setter cannot be '
                 'assigned')
        judge(sx, o, a, b, 0)
        sx.check(not o.is_modified, 'and nothing changes')


@H(configs=[None])
def not_stored(sx):
    """A computed field is no stored data, is not modified and not saved."""
    log = []
    K, P = world(graph(), log)
    a, b = num(sx, 'a'), num(sx, 'b')
    o = persisted(K(a=a, b=b, l=[]))
    o.a = num(sx, 'x')
    sx.check(set(o._data_dict) == {'a', 'b', 'l'}, 'stored data are the '
             'stored fields')
    o.my_sum
    o.tojson()
    sx.check(set(o.modified_fields) <= {'a'}, 'a computed field is never '
             'reported as modified')
    o.save(skip_validation=True)
    sx.check(set(o.modified_fields) <= {'a'}, 'saving does not modify it')
    n = len(log)
    o.my_sum
    sx.check(len(log) == n + 1, 'each access computes it')
