"""C10: validation reports every invalid field, under its own key path."""
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted, vexc

H = Registry()
BOUNDS = {
    'objects': 'root with plain fields, embedded objects directly, in a list '
               '(2), in a dict (2), list of dicts of lists, linked objects in '
               'cycles of 2 and 3',
    'items': '3 items of a list or dict, each null, a number or an object',
    'values': 'every leaf symbolic, -3..3, or null',
    'modes': 'validate(), validate(all_fields=True/False), class '
             'configuration validate_all_fields on/off, is_valid',
    'state': 'new objects, persisted objects with any subset of modified '
             'fields, at the root and inside'}
ASSUMPTIONS = []
# mode: (argument, class configuration, reports every field)
MODES = [(True, None, True), (False, None, False), (None, None, False),
         (None, True, True), (True, False, True), (False, True, False)]


def num(sx, n):
    return sx.int(n, -3, 3)


def judge(sx, obj, mode, bad):
    """bad: [(key path, is invalid)] in validation order."""
    arg, _, every = mode
    e = vexc(lambda: obj.validate(all_fields=arg) if arg is not None
             else obj.validate())
    any_bad = sx.Or(*[b for _, b in bad])
    if e is None:
        sx.check(sx.Not(any_bad), 'an object with an invalid field does not '
                 'pass validation')
        return
    got = set(e.keypath_messages)
    known = {k for k, _ in bad}
    sx.check(got <= known, 'an error names an existing field by key path')
    for k, b in bad:
        if k in got:
            sx.check(b, 'a field named in the error is invalid')
    if every:
        for k, b in bad:
            if k not in got:
                sx.check(sx.Not(b), 'every invalid field is named when all '
                         'fields are validated')
        if len(got) > 1:
            sx.reach('several')
    else:
        sx.check(len(got) == 1, 'one field is named unless all fields are '
                 'validated')


def conf(mode):
    return {} if mode[1] is None else {'validate_all_fields': mode[1]}


@H(configs=MODES, reach=())
def flat(sx, mode):
    K = klass({'my_a': types.int.min(0).required, 'b': types.int.max(1),
               'my_c': types.str.minlength(2)}, conf=conf(mode))
    a = num(sx, 'a') if sx.bool('an') else None
    b = num(sx, 'b')
    c = sx.str('c', 3, 'ab')
    o = K()
    o.update(my_a=a, b=b, my_c=c)
    judge(sx, o, mode, [('myA', True if a is None else a < 0), ('b', b > 1),
                        ('myC', len(c) < 2)])


@H(configs=MODES)
def valid_flag(sx, mode):
    K = klass({'a': types.int.min(0), 'b': types.int.max(1)}, conf=conf(mode))
    a, b = num(sx, 'a'), num(sx, 'b')
    o = K(a=a, b=b)
    bad = sx.Or(a < 0, b > 1)
    v = o.is_valid
    sx.check(sx.Iff(v, sx.Not(bad)), 'is_valid tells whether validate passes')
    r = vexc(lambda: o.validate())
    sx.check((r is None) == v, 'is_valid agrees with validate')


def family(mode):
    g = graph()
    In = klass({'a_b': types.int.min(0), 'c': types.int.max(1)}, 'C10In', g=g,
               conf=conf(mode))
    O = klass({'own': types.int.min(0), 'my_o': types.objof('C10In'),
               'my_l': types.listof('C10In'), 'my_d': types.dictof('C10In'),
               'last': types.int.min(0)}, 'C10O', g=g, conf=conf(mode))
    return In, O


@H(configs=[(m, w) for m in MODES for w in ('o', 'l', 'd', 'ld')])
def nested(sx, cfg):
    mode, where = cfg
    In, O = family(mode)
    own, last = num(sx, 'own'), num(sx, 'last')
    o = O(own=own, last=last)
    bad = [('own', own < 0)]

    def mk(n, path):
        a, c = num(sx, n + '.a'), num(sx, n + '.c')
        bad.append((path + '.aB', a < 0))
        bad.append((path + '.c', c > 1))
        return In(a_b=a, c=c)
    if where == 'o':
        o.my_o = mk('o', 'myO')
    if 'l' in where:
        o.my_l = [mk('l0', 'myL.0'), mk('l1', 'myL.1')][
            :2 if where == 'l' else 1]
        if where != 'l':
            del bad[3:]
    if 'd' in where:
        o.my_d = {'k_1': mk('d0', 'myD.k_1')}
    bad.append(('last', last < 0))
    judge(sx, o, mode, bad)


@H(configs=[(m, w) for m in MODES for w in ('l', 'd', 'lo', 'do')])
def items(sx, cfg):
    """Items of a list or dict: null, or a value (in an object)."""
    mode, where = cfg
    g = graph()
    In = klass({'a': types.int.min(0).required}, 'C10It', g=g,
               conf=conf(mode))
    item = types.int.min(0).required if where in 'ld' else \
        types.objof('C10It').required
    many = types.listof(item) if where[0] == 'l' else types.dictof(item)
    K = klass({'f': many, 'last': types.int.min(0)}, 'C10Its', g=g,
              conf=conf(mode))
    bad, vals = [], []
    for i, k in enumerate([0, 1, 2] if where[0] == 'l' else 'xyz'):
        if sx.bool(f'null{i}'):
            vals.append(None)
            bad.append((f'f.{k}', True))
            continue
        v = num(sx, f'v{i}')
        vals.append(v if where in 'ld' else In(a=v))
        bad.append((f'f.{k}' if where in 'ld' else f'f.{k}.a', v < 0))
    last = num(sx, 'last')
    o = K()
    o.update(f=vals if where[0] == 'l' else dict(zip('xyz', vals)), last=last)
    judge(sx, o, mode, bad + [('last', last < 0)])


@H(configs=MODES)
def deep(sx, mode):
    K = klass({'v': types.listof(types.dictof(types.listof(
        types.int.min(0)).maxlength(2))).maxlength(1)}, conf=conf(mode))
    vs = [num(sx, f'v{i}') for i in range(3)]
    n = sx.pick('n', [1, 2, 3])
    two = sx.bool('two')
    o = K()
    o.v = [{'x': vs[:n], 'y': []}] + ([{}] if two else [])
    bad = [(f'v.0.x.{i}', v < 0) for i, v in enumerate(vs[:n])]
    bad += [('v.0.x', n > 2), ('v', two)]
    judge(sx, o, mode, bad)


@H(configs=[(m, k) for m in MODES for k in ('one', 'many', 'three')])
def linked(sx, cfg):
    """Linked objects are validated once each, in cycles too."""
    mode, kind = cfg
    g = graph()
    count = {}

    def seen(v, ctx):
        count[id(ctx.owner)] = count.get(id(ctx.owner), 0) + 1
    f = types.int.validate(seen)
    many = kind == 'many'
    A = klass({'id': types.int.primary, 'n': f, 'v': types.int.min(0),
               'b': types.listof('C10B').linkedby('a') if many
               else types.objof('C10B').linkto}, 'C10A', g=g, conf=conf(mode))
    B = klass({'id': types.int.primary, 'n': f, 'v': types.int.min(0),
               'a': types.objof('C10A').linkto if many
               else types.objof('C10A').linkedby('b'),
               'c': types.objof('C10C').linkto}, 'C10B', g=g, conf=conf(mode))
    C = klass({'id': types.int.primary, 'n': f, 'v': types.int.min(0),
               'b': types.objof('C10B').linkedby('c')}, 'C10C', g=g,
              conf=conf(mode))
    va, vb, vc = num(sx, 'a'), num(sx, 'b'), num(sx, 'c')
    a, b, c = A(id=1, n=1, v=va), B(id=2, n=1, v=vb), C(id=3, n=1, v=vc)
    if many:
        b2 = B(id=4, n=1, v=vc)
        a.b = [b, b2]
        bad = [('v', va < 0), ('b.0.v', vb < 0), ('b.1.v', vc < 0)]
    else:
        a.b = b
        bad = [('v', va < 0), ('b.v', vb < 0)]
        if kind == 'three':
            b.c = c
            bad += [('b.c.v', vc < 0)]
    judge(sx, a, mode, bad)
    sx.check(all(x == 1 for x in count.values()), 'each linked object is '
             'validated once')


@H(configs=[(m, n) for m in MODES[:4] for n in (0, 1, 2, 3, 4)])
def modified_only(sx, cfg):
    """A persisted object validates its modified fields, a new one all."""
    mode, n = cfg
    K = klass({'a': types.int.min(0), 'b': types.listof(types.int.min(0)),
               'c': types.int.min(0).required, 'a_b': types.int.min(0),
               'ab': types.int.min(0)}, conf=conf(mode))
    o = K()
    o.update(a=num(sx, 'a'), b=[num(sx, 'b')], a_b=num(sx, 'e'),
             ab=num(sx, 'f'), c=num(sx, 'c') if sx.bool('cn') else None)
    new = n == 3
    if not new:
        persisted(o)
    bad = []
    if n in (1, 2):
        v = num(sx, 'a2')
        sx.assume(v != o.a)
        o.a = v
    if n == 2:
        o.b.append(num(sx, 'b2'))
    if n == 4:
        v = num(sx, 'e2')
        sx.assume(v != o.a_b)
        o.a_b = v
    if n in (1, 2) or new:
        bad.append(('a', o.a < 0))
    if n == 2 or new:
        bad += [(f'b.{i}', x < 0) for i, x in enumerate(o.b)]
    if new:
        bad.append(('c', True if o.c is None else o.c < 0))
    if n == 4 or new:
        bad.append(('aB', o.a_b < 0))
    if new:
        bad.append(('ab', o.ab < 0))
    judge(sx, o, mode, bad)


@H(configs=[(m, w) for m in MODES[:4] for w in ('o', 'l', 'd')])
def modified_inside(sx, cfg):
    """A change inside an embedded object of a persisted root is validated."""
    mode, where = cfg
    In, O = family(mode)
    o, i = O(own=1, last=1), In(a_b=1, c=1)
    if where == 'o':
        o.my_o, path = i, 'myO'
    elif where == 'l':
        o.my_l, path = [In(a_b=1, c=1), i], 'myL.1'
    else:
        o.my_d, path = {'k': i}, 'myD.k'
    for x in [o, i] + list(o.my_l or []):
        persisted(x)
    v = num(sx, 'v')
    i.a_b = v
    judge(sx, o, mode, [(path + '.aB', v < 0)])


@H(configs=['o', 'l', 'd', 'root', 'lo'])
def owner(sx, where):
    """Callables receive the object that has the field."""
    g = graph()
    seen = []

    def note(v, ctx):
        seen.append(ctx.owner)
    klass({'lim': types.int, 'add': types.int,
           'v': types.int.min(lambda o: o.lim).validate(note),
           't': types.int.add(lambda o: o.add),
           'w': types.int.presentwith('lim'),
           'sub': types.objof('C10P').presentwith('add')},
          'C10P', g=g)
    O = klass({'lim': types.int, 'o': types.objof('C10P'),
               'l': types.listof('C10P'),
               'lo': types.listof(types.dictof('C10P')),
               'd': types.dictof('C10P')}, 'C10Q', g=g)
    P = O.cdef.jconf.cgraph.fetch('C10P').cls
    lim, v, add, t = (num(sx, x) for x in ('lim', 'v', 'add', 't'))
    data = {'lim': lim, 'v': v}
    with_t = sx.bool('with_t')
    if with_t:
        data.update(add=add, t=t)
    if sx.bool('with_w'):
        data['w'] = 1
    if sx.bool('with_sub'):
        data['sub'] = {'v': 0, 'lim': 0, 'w': 1}
    if where == 'root':
        o = i = P(**data)
        path = ''
    else:
        o = O(lim=9, **{where: {'o': data, 'l': [data], 'd': {'k': data},
                                'lo': [{'k': data}]}[where]})
        i = {'o': lambda: o.o, 'l': lambda: o.l[0], 'd': lambda: o.d['k'],
             'lo': lambda: o.lo[0]['k']}[where]()
        path = {'o': 'o.', 'l': 'l.0.', 'd': 'd.k.', 'lo': 'lo.0.k.'}[where]
    if with_t:
        sx.check(sx.same(i.t, t + add), 'a callable parameter of a transform '
                 'receives the object itself')
    judge(sx, o, (True, None, True), [
        (path + 'v', v < lim), (path + 'w', 'w' not in data),
        (path + 'sub', with_t and 'sub' not in data)])
    sx.check(all(x is i or x is i.sub for x in seen) and
             any(x is i for x in seen),
             'a validator receives the object that has the field')


@H(configs=['o', 'l', 'd', 'root'])
def compared(sx, where):
    """compare sees the previous value of the object that has the field."""
    g = graph()
    calls = []

    def cmp(old, new):
        calls.append((old, new))
        return new > old
    P = klass({'v': types.int.compare(cmp)}, 'C10R', g=g)
    O = klass({'o': types.objof('C10R'), 'l': types.listof('C10R'),
               'd': types.dictof('C10R'), 'v': types.int}, 'C10S', g=g)
    old, new = num(sx, 'old'), num(sx, 'new')
    i = P(v=old)
    if where == 'root':
        o, path = i, 'v'
    else:
        o = O(v=5)
        if where == 'o':
            o.o, path = i, 'o.v'
        elif where == 'l':
            o.l, path = [i], 'l.0.v'
        else:
            o.d, path = {'k': i}, 'd.k.v'
    persisted(o)
    persisted(i)
    i.v = new
    if sx.bool('twice'):
        new = num(sx, 'new2')
        i.v = new
    changed = i.is_modified
    judge(sx, o, (True, None, True), [
        (path, sx.And(changed, new <= old))])
    if calls:
        sx.reach('compared')
        sx.check(sx.And(*[sx.And(sx.eq(a, old), sx.eq(b, new))
                          for a, b in calls]),
                 'compare gets the persisted and the current value')


@H(configs=[(m, w) for m in MODES[:3] for w in ('l', 'd', 'oo')])
def same_key(sx, cfg):
    """Different embedded objects with one primary key are all validated."""
    mode, where = cfg
    g = graph()
    In = klass({'id': types.int.primary, 'v': types.int.min(0)}, 'C10E', g=g)
    O = klass({'o': types.objof('C10E'), 'p': types.objof('C10E'),
               'l': types.listof('C10E'), 'd': types.dictof('C10E')}, 'C10F',
              g=g)
    i, j = sx.int('i', 1, 2), sx.int('j', 1, 2)
    v, w = num(sx, 'v'), num(sx, 'w')
    x, y = In(id=i, v=v), In(id=j, v=w)
    o = O()
    if where == 'l':
        o.l, paths = [x, y], ['l.0.v', 'l.1.v']
    elif where == 'd':
        o.d, paths = {'a': x, 'b': y}, ['d.a.v', 'd.b.v']
    else:
        o.o, o.p, paths = x, y, ['o.v', 'p.v']
    judge(sx, o, mode, [(paths[0], v < 0), (paths[1], w < 0)])


@H(configs=['obj', 'list'])
def required_link(sx, kind):
    """A required link is satisfied by an object or by its reference key."""
    g = graph()
    B = klass({'id': types.int.primary}, 'C10T', g=g)
    A = klass({'id': types.int.primary,
               'b': types.objof('C10T').linkto.required if kind == 'obj'
               else types.listof('C10T').linkto.nullable.required},
              'C10U', g=g)
    O = klass({'l': types.listof('C10U')}, 'C10V', g=g)
    a = A(id=1)
    state = sx.pick('state', ['none', 'key', 'obj'])
    k = sx.int('k', 0, 3)
    if state == 'key':
        if kind == 'obj':
            a.b_id = k
        else:
            a.b_ids = [k]
            a.__dict__['b'] = None
    elif state == 'obj':
        a.b = B(id=2) if kind == 'obj' else [B(id=2)]
    else:
        a.b = None
    bad = state == 'none'
    if sx.bool('inside'):
        o = O()
        o.l = [a]
        judge(sx, o, (True, None, True), [('l.0.b', bad)])
    else:
        judge(sx, a, (True, None, True), [('b', bad)])
