"""C11: an object reports exactly the fields changed since it was stored."""
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted, roots, vexc

H = Registry()
BOUNDS = {
    'fields': 'int, str, list, dict, embedded object, any, temp, linked '
              'object with reference key, linked list',
    'history': 'up to 3 operations out of assignment, update(), set(), item '
               'changes, reference key assignment, storing; values symbolic '
               '(-3..3), so equal and different ones are both covered',
    'reads': 'validate(), is_valid, tojson(), attribute access, iteration, '
             'membership, slicing, copying, repr'}
ASSUMPTIONS = []


def num(sx, n):
    return sx.int(n, -3, 3)


def world():
    g = graph()
    In = klass({'v': types.int, 'w': types.int}, 'C11In', g=g)
    K = klass({'id': types.int.primary, 'a': types.int, 'b': types.int,
               's': types.str, 'l': types.listof(int),
               'd': types.dictof(int), 'o': types.objof('C11In'),
               'ol': types.listof('C11In'), 't': types.int.temp,
               'x': types.any}, 'C11K', g=g)
    return K, In


def start(sx):
    K, In = world()
    o = K(id=1, a=num(sx, 'a'), b=num(sx, 'b'), s=sx.str('s', 1, 'ab'),
          l=[num(sx, 'l')], d={'k': num(sx, 'd')}, t=1)
    o.o = In(v=1)
    o.ol = [In(v=2)]
    return o, In


def differs(sx, a, b):
    return sx.Not(sx.eq(a, b))


OPS = ['a', 'b', 's', 'l', 'd', 'li', 'di', 'anull']


def step(sx, o, op, how, i):
    """Apply one change; return (field, whether it changed)."""
    if op == 'anull':
        cur, new, f = o.a, None, 'a'
        changed = cur is not None
    elif op in 'ab':
        cur, new, f = getattr(o, op), num(sx, f'n{i}'), op
        changed = True if cur is None else differs(sx, cur, new)
    elif op == 's':
        cur, new, f = o.s, sx.str(f'n{i}', 1, 'ab'), op
        changed = differs(sx, cur, new)
    elif op == 'l':
        new, f = [num(sx, f'n{i}')], 'l'
        changed = True if len(o.l) != 1 else differs(sx, o.l[0], new[0])
    elif op == 'd':
        new, f = {'k': num(sx, f'n{i}')}, 'd'
        changed = True if len(o.d) != 1 else differs(sx, o.d['k'], new['k'])
    elif op == 'li':
        o.l.append(num(sx, f'n{i}'))
        return 'l', True
    elif op == 'di':
        o.d['m'] = num(sx, f'n{i}')
        return 'd', True
    if how == 'assign':
        setattr(o, f, new)
    elif how == 'update':
        o.update(**{f: new})
    else:
        o.set(**{f: new})
    sx.check(sx.same(getattr(o, f), new), 'the object holds the new value')
    return f, changed


def judge(sx, o, changed):
    """changed: {field: condition}."""
    got = roots(o)
    for f, c in changed.items():
        sx.check(sx.Iff(f in got, c), f'{f} is reported as modified exactly '
                 'when it was changed')
    sx.check(got <= set(changed), 'no other field is reported as modified')
    sx.check(sx.Iff(o.is_modified, sx.Or(*changed.values())),
             'is_modified tells whether a field was changed')
    sx.check(set(o.persisted_modified_fields) ==
             {f for f in o.modified_fields if f != 't'},
             'persisted_modified_fields leaves out temp fields only')


@H(configs=[(a, b, h) for a in OPS for b in OPS
            for h in ('assign', 'update', 'set')])
def tracked(sx, cfg):
    a, b, how = cfg
    o, _ = start(sx)
    persisted(o)
    judge(sx, o, {})
    changed = {}
    for i, op in enumerate((a, b)):
        f, c = step(sx, o, op, how, i)
        changed[f] = sx.Or(changed.get(f, False), c)
    judge(sx, o, changed)
    if sx.bool('again'):
        persisted(o)
        judge(sx, o, {})
        f, c = step(sx, o, b, how, 2)
        judge(sx, o, {f: c})


@H(configs=[(a, h) for a in OPS for h in ('assign', 'update', 'set')])
def new_object(sx, cfg):
    op, how = cfg
    o, _ = start(sx)
    step(sx, o, op, how, 0)
    sx.check(o.is_new and not o.is_modified and len(o.modified_fields) == 0,
             'a new object has no modified fields')


MIXED = [1, True, 1.0, 0, False, 0.0, '1', '', None, [], {}, [1], [True],
         {'k': 1}, {'k': True}]


@H(configs=['assign', 'update', 'set', 'list', 'dict', 'nested', 'insert'])
def mixed(sx, how):
    """A value that is equal but of another kind is another value."""
    K = klass({'x': types.any, 'l': types.listof(types.any),
               'd': types.dictof(types.any),
               'n': types.dictof(types.listof(types.any))}, 'C11M')
    a, b = sx.pick('a', MIXED), sx.pick('b', MIXED)
    o = K(x=a, l=[a], d={'k': a}, n={'k': [a]})
    o.x = a
    persisted(o)
    f = {'list': 'l', 'dict': 'd', 'nested': 'n', 'insert': 'l'}.get(how, 'x')
    if how == 'assign':
        o.x = b
    elif how == 'update':
        o.update(x=b)
    elif how == 'set':
        o.set(x=b)
    elif how == 'list':
        o.l[0] = b
    elif how == 'insert':
        o.l[0:1] = [b]
    elif how == 'dict':
        o.d['k'] = b
    else:
        o.n['k'][0] = b
    same = a is b or repr(a) == repr(b)
    if f == 'x':
        judge(sx, o, {f: not same})
    elif not same:
        judge(sx, o, {f: True})
    else:
        sx.check(roots(o) <= {f}, 'no other field is reported as modified')
    got = {'x': lambda: o.x, 'l': lambda: o.l[0], 'd': lambda: o.d['k'],
           'n': lambda: o.n['k'][0]}[f]()
    sx.check(repr(got) == repr(b), 'the object holds the new value')


READS = [lambda o: o.validate(), lambda o: o.is_valid, lambda o: o.tojson(),
         lambda o: o.tojson(output_null=True), lambda o: list(o.l),
         lambda o: 1 in o.l, lambda o: o.l[0:1], lambda o: o.l + [1],
         lambda o: o.l * 2, lambda o: o.l.copy(), lambda o: o.d.copy(),
         lambda o: list(o.d.items()), lambda o: o.d.get('q'),
         lambda o: o.l.index(o.l[0]), lambda o: o.l.count(1),
         lambda o: len(o.l), lambda o: sorted(o.l), lambda o: repr(o.d),
         lambda o: o == o, lambda o: o.opby(None), lambda o: o.previous_values,
         lambda o: setattr(o, '_private', 3), lambda o: o.unlinked_objects,
         lambda o: (o.l.extend([]), o.d.update({})),
         lambda o: vexc(lambda: o.set(nope=3)),
         lambda o: o.set(), lambda o: o.update()]


@H(configs=list(range(len(READS))))
def reads(sx, i):
    o, _ = start(sx)
    before = (o.a, o.s, list(o.l), dict(o.d))
    persisted(o)
    READS[i](o)
    judge(sx, o, {})
    sx.check(sx.same(before, (o.a, o.s, list(o.l), dict(o.d))), 'reading '
             'changes nothing')
    sx.check(not o.is_new and not o.is_deleted, 'reading keeps the state')


@H(configs=['o', 'ol'])
def embedded(sx, where):
    """An embedded object tracks its own changes."""
    o, In = start(sx)
    i = o.o if where == 'o' else o.ol[0]
    i.v = num(sx, 'v0')
    persisted(o)
    persisted(i)
    was = i.v
    new = num(sx, 'v1')
    i.v = new
    c = differs(sx, was, new)
    judge(sx, o, {})
    sx.check(sx.Iff('v' in i.modified_fields, c) and
             set(i.modified_fields) <= {'v'}, 'the embedded object reports '
             'its changed field')
    sx.check(sx.Iff(i.is_modified, c), 'the embedded object reports whether '
             'it changed')
    other = In(v=new)
    if where == 'o':
        o.o = other
        sx.check(o.o is other, 'a different object replaces an equal one')
    else:
        o.ol = [other]
        sx.check(o.ol[0] is other, 'a different object replaces an equal one')
    judge(sx, o, {where: True})


@H(configs=['temp', 'temp+a', 'nested', 'nest2'])
def stored_fields(sx, kind):
    g = graph()
    K = klass({'a': types.int, 't': types.int.temp,
               'n': types.listof(types.dictof(types.listof(int))),
               'm': types.dictof(types.dictof(int)),
               'u': types.listof(types.listof(int)).temp}, 'C11T', g=g)
    o = persisted(K(a=1, t=1, n=[{'x': [1]}], m={'p': {'q': 1}}, u=[[1]]))
    v = num(sx, 'v')
    want = set()
    if kind.startswith('temp'):
        o.t = v
        o.u[0].append(v)
        if kind == 'temp+a':
            o.a = v
            if o.is_modified and 'a' in o.modified_fields:
                want.add('a')
    elif kind == 'nested':
        o.n[0]['x'].append(v)
        want.add('n')
    else:
        o.m['p']['q'] = v
        want.add('m')
    got = {f.split('.')[0] for f in o.persisted_modified_fields}
    if kind == 'nest2':
        sx.check(got <= want, 'nested change is named by its field')
    else:
        sx.check(got == want, 'fields to store are the modified ones that '
                 'are not temp')


def linked_world():
    g = graph()
    A = klass({'id': types.int.primary, 'n': types.int,
               'bs': types.listof('C11B').linkedby('a')}, 'C11A', g=g)
    B = klass({'id': types.int.primary, 'n': types.int,
               'a': types.objof('C11A').linkto}, 'C11B', g=g)
    return A, B


@H(configs=['key', 'obj', 'list', 'remove', 'null', 'keynull', 'replace'])
def links(sx, how):
    """The side that stores the key reports a changed link."""
    A, B = linked_world()
    a1, a2, b = A(id=1), A(id=2), B(id=3)
    b.a = a1
    for x in (a1, a2, b):
        persisted(x)
    if how == 'key':
        k = num(sx, 'k')
        b.a_id = k
        c = k != 1
        sx.check(sx.same(b.a_id, k), 'the reference key is stored')
    elif how == 'obj':
        b.a = a2 if sx.bool('two') else a1
        c = b.a is a2
    elif how == 'list':
        a2.bs = [b]
        c = True
    elif how == 'remove':
        a1.bs.remove(b)
        c = True
    elif how == 'null':
        b.a = None
        c = True
    elif how == 'keynull':
        b.a_id = None
        c = True
    else:
        a1.bs = []
        c = True
    sx.check(sx.Iff('a' in b.modified_fields, c), 'a changed link is reported '
             'on the side that stores the key')
    sx.check(sx.Iff(b.is_modified, c), 'is_modified follows')
    sx.check('n' not in b.modified_fields and 'id' not in b.modified_fields,
             'only the link is reported')


@H(configs=['remove', 'replace', 'obj', 'null'])
def links_new(sx, how):
    A, B = linked_world()
    a1, a2, b = A(id=1), A(id=2), B(id=3)
    b.a = a1
    persisted(a1)
    persisted(a2)
    if how == 'remove':
        a1.bs.remove(b)
    elif how == 'replace':
        a1.bs = []
    elif how == 'obj':
        b.a = a2
    else:
        b.a = None
    sx.check(not b.is_modified and len(b.modified_fields) == 0, 'a new object '
             'has no modified fields')


@H(configs=['partial', 'full'])
def completed(sx, kind):
    """complete() keeps the recorded modifications."""
    K = klass({'a': types.int, 'b': types.int})
    o = K(a=1)
    if kind == 'partial':
        o._is_partial = True
    persisted(o)
    K._orm_complete = lambda self: self.update(b=5)
    v = num(sx, 'v')
    o.a = v
    o.complete()
    c = v != 1
    sx.check(sx.Iff('a' in o.modified_fields, c) and
             'b' not in o.modified_fields, 'fetching the rest of an object '
             'modifies nothing')
    sx.check(sx.Iff(o.is_modified, c), 'is_modified is kept')
    o.b = 7
    sx.check('b' in o.modified_fields and o.is_modified, 'later changes are '
             'reported')
