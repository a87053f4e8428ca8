"""C16: guarded actions happen only with permission."""
from symx.sx import Registry
from jsonclasses import types
from jsonclasses.excs import UnauthorizedActionException
from props.util import graph, klass, persisted, vexc

H = Registry()
BOUNDS = {
    'guards': '1 to 3 per action, each a callable answering None, True, '
              'False or a message, or a chain comparing operator and object',
    'operators': 'none, an object of another or the same class, the object '
                 'itself; codes and keys symbolic, 0..3',
    'actions': 'create, update, delete, read; field guards canc, canu, canw, '
               'canr with 1 to 4 arguments',
    'places': 'the root, a nested object, a list item, an unlinked object'}
ASSUMPTIONS = ['A guard that is a callable answers None, a bool or a str.']

ACTIONS = ['create', 'update', 'delete', 'read']
ANSWERS = ['none', 'true', 'false', 'message', 'empty', 'compare', 'chain',
           'notnull']


def answer(kind):
    return {'none': None, 'true': True, 'false': False,
            'message': 'not you', 'empty': ''}[kind]


def guard(kind, log):
    """A guard of the given kind, and whether it permits."""
    if kind == 'chain':
        return (types.getop.fval('code').eq(types.this.fval('code')),
                lambda sx, o, op: sx.eq(o.code, op.code))
    if kind == 'notnull':
        return (types.getop.fval('code').required.min(2),
                lambda sx, o, op: op.code >= 2)
    if kind == 'compare':
        def check(o, op):
            log.append('guard')
            if o.code < op.code:
                return True
            return False
        return check, lambda sx, o, op: o.code < op.code

    def fixed(o, op):
        log.append('guard')
        return answer(kind)
    return fixed, lambda sx, o, op: kind in ('none', 'true')


def act(action, obj):
    if action in ('create', 'update'):
        obj.save()
    elif action == 'delete':
        obj.delete()
    else:
        obj.tojson()


def guarded(sx, action, kinds, listed):
    """(class, permission, log): the class with the guards on the action and
    refusing guards on no other one."""
    log = []
    gs = [guard(k, log) for k in kinds]

    def allowed(o, op):
        return sx.And(*[p(sx, o, op) for _, p in gs])
    g = graph()
    conf = {f'can_{action}': [x for x, _ in gs] if listed else gs[0][0]}
    for other in ACTIONS:
        if other != action:
            conf[f'can_{other}'] = [lambda o, op: True]
    for ev in ('create', 'update', 'delete'):
        conf[f'on_{ev}'] = adder(log, f'on_{ev}')
    K = klass({'id': types.int.primary, 'code': types.int,
               'v': types.int.setonsave(lambda x: noted(log, x))}, 'C16K', conf,
              g)
    U = klass({'id': types.int.primary, 'code': types.int}, 'C16U', g=g)
    K._database_write = lambda self: log.append('write')
    K._orm_delete = lambda self: log.append('orm_delete')
    return K, U, allowed, log


def adder(log, what):
    def fn(o, op):
        log.append(what)
    return fn


def noted(log, x):
    log.append('setonsave')
    return x


CASES = [(a, (k,), li) for a in ACTIONS for k in ANSWERS
         for li in (False, True)]
CASES += [(a, (k1, k2), True) for a in ACTIONS for k1 in ANSWERS
          for k2 in ANSWERS]
MORE = CASES + [(a, (k1, k2, k3), True) for a in ACTIONS for k1 in ANSWERS
                for k2 in ANSWERS for k3 in ANSWERS]
EFFECTS = ('on_create', 'on_update', 'on_delete', 'write', 'orm_delete',
           'setonsave')


@H(configs=CASES, thorough=MORE)
def actions(sx, cfg):
    """An action happens exactly when there is an operator and every guard
    permits it; a refused action has no effect."""
    action, kinds, listed = cfg
    K, U, allowed, log = guarded(sx, action, kinds, listed)
    o = K(id=1, code=sx.int('code', 0, 3), v=5)
    if action != 'create':
        persisted(o)
    if action == 'update':
        o.v = 6
    who = sx.pick('who', ['none', 'user', 'same', 'self'])
    ok = True
    if who == 'none':
        ok = False
        if sx.bool('cleared'):
            o.opby(U(id=1, code=sx.int('ucode', 0, 3)))
            o.opby(None)
    else:
        op = o if who == 'self' else (U if who == 'user' else K)(
            id=2, code=sx.int('ucode', 0, 3))
        sx.check(o.opby(op) is o, 'opby() returns the object')
        ok = allowed(o, op)
    before = (o.is_new, o.is_modified, tuple(o.modified_fields), o.v, o.code)
    del log[:]
    refused = sx.raises(UnauthorizedActionException, lambda: act(action, o))
    sx.check(sx.Iff(ok, refused is None), 'an action is refused exactly when '
             'a guard refuses it or nobody acts')
    done = [x for x in log if x in EFFECTS]
    if refused is not None:
        sx.check(not done, 'a refused action has no effect')
        after = (o.is_new, o.is_modified, tuple(o.modified_fields), o.v,
                 o.code)
        sx.check(sx.eq(list(before), list(after)), 'a refused action changes '
                 'nothing')
    else:
        want = {'create': ['on_create', 'setonsave', 'write'],
                'update': ['on_update', 'setonsave', 'write'],
                'delete': ['on_delete', 'orm_delete'], 'read': []}[action]
        sx.check(done == want, 'a permitted action happens')


@H(configs=ACTIONS)
def unguarded(sx, action):
    """Guards of other actions do not matter, and without guards no operator
    is needed."""
    conf = {f'can_{a}': (lambda o, op: False) for a in ACTIONS if a != action}
    log = []
    K = klass({'id': types.int.primary, 'v': types.int}, 'C16F', conf)
    K._database_write = lambda self: log.append('write')
    K._orm_delete = lambda self: log.append('orm_delete')
    o = K(id=1, v=sx.int('v', 0, 3))
    if action != 'create':
        persisted(o)
    if sx.bool('op'):
        o.opby(o)
    act(action, o)
    sx.check(len(log) == (0 if action == 'read' else 1), 'the action happens')


FORMS = ['call1', 'call2', 'call3', 'call4', 'chain', 'isobj']


def checker(form, kind):
    """A field guard; the object's code, the value or the user decide."""
    if form == 'chain':
        return types.getop.fval('code').eq(types.this.fval('code'))
    if form == 'isobj':
        return types.getop.isobj(types.this.fval('u'))

    def decide(c):
        if c:
            return None if kind == 'null' else True
        return {'message': 'no', 'empty': ''}.get(kind, False)
    if form == 'call1':
        return lambda op: decide(op.code == 2)
    if form == 'call2':
        return lambda op, o: decide(op.code == o.code)
    if form == 'call3':
        return lambda op, o, v: decide(op.code == o.code and v is not None)
    return lambda op, o, v, c: decide(op.code == c.owner.code)


def permits(sx, form, o, op, v):
    if op is None:
        return False
    if form == 'call1':
        return sx.eq(op.code, 2)
    if form == 'call3':
        return sx.And(sx.eq(op.code, o.code), v is not None)
    if form == 'isobj':
        return sx.And(o.u_id is not None, sx.eq(o.u_id, op.id))
    return sx.eq(op.code, o.code)


FIELD = [(m, f, k) for m in ('canc', 'canu', 'canw') for f in FORMS
         for k in (('bool', 'message', 'empty', 'null') if f.startswith('call')
                   else ('bool',))]


def field_world(mod, form, kind):
    g = graph()
    t = getattr(types.int, mod)(checker(form, kind))
    K = klass({'id': types.int.primary, 'code': types.int, 'f': t,
               'u': types.objof('C16U').linkto, 'rest': types.int}, 'C16G',
              g=g)
    U = klass({'id': types.int.primary, 'code': types.int,
               'k': types.listof('C16G').linkedby('u')}, 'C16U', g=g)
    P = klass({'k': types.objof('C16G'), 'ks': types.listof('C16G')}, 'C16P',
              g=g)
    return K, U, P


def operator(sx, U, o):
    if sx.bool('operator'):
        return U(id=sx.int('uid', 0, 2), code=sx.int('ucode', 0, 3))
    return None


@H(configs=FIELD)
def field_write(sx, cfg):
    """A guarded field is created or updated only with permission."""
    mod, form, kind = cfg
    K, U, P = field_world(mod, form, kind)
    v = sx.int('v', 0, 3) if sx.bool('some') else None
    o = K(id=9, code=sx.int('code', 0, 3), f=v, rest=1)
    if form == 'isobj':
        how = sx.pick('owner', ['none', 'key', 'object'])
        if how == 'key':
            o.u_id = sx.int('oid', 0, 2)
        elif how == 'object':
            o.u = U(id=sx.int('oid', 0, 2), code=0)
    new = sx.bool('new')
    touched = True
    if not new:
        persisted(o)
        if o.u is not None:
            persisted(o.u)
        touched = sx.bool('touched')
        if touched:
            v = sx.int('v2', 4, 6)
            o.f = v
        else:
            o.rest = 2
    op = operator(sx, U, o)
    if sx.bool('nested'):
        root = P(k=None, ks=[])
        if sx.bool('inlist'):
            root.ks.append(o)
        else:
            root.k = o
    else:
        root = o
    root.opby(op)
    e = vexc(lambda: root.validate())
    applies = (mod in ('canc', 'canw') if new else
               touched and mod in ('canu', 'canw'))
    ok = permits(sx, form, o, op, v) if applies else True
    sx.check(sx.Iff(ok, e is None), 'a guarded field is written exactly with '
             'permission')
    if e is not None:
        sx.check(len(e.keypath_messages) == 1 and
                 list(e.keypath_messages)[0].split('.')[-1] == 'f',
                 'the refusal names the field')


@H(configs=[(f, k) for f in FORMS for k in ('bool', 'message', 'empty', 'null')
            if f.startswith('call') or k == 'bool'])
def field_read(sx, cfg):
    """A guarded field is in the output only with permission."""
    form, kind = cfg
    K, U, P = field_world('canr', form, kind)
    v = sx.int('v', 0, 3)
    o = K(id=9, code=sx.int('code', 0, 3), f=v, rest=1)
    if form == 'isobj' and sx.bool('owned'):
        o.u_id = sx.int('oid', 0, 2)
    op = operator(sx, U, o)
    where = sx.pick('where', ['root', 'obj', 'list'])
    root = o
    if where != 'root':
        root = P(k=o if where == 'obj' else None,
                 ks=[o] if where == 'list' else [])
    root.opby(op)
    nulls = sx.bool('nulls')
    j = root.tojson(output_null=nulls, ignore_writeonly=sx.bool('iw'))
    j = j if where == 'root' else j['k'] if where == 'obj' else j['ks'][0]
    ok = permits(sx, form, o, op, v)
    sx.check(sx.Iff(ok, j.get('f') is not None), 'a guarded field is shown '
             'exactly with permission')
    if j.get('f') is not None:
        sx.check(sx.same(j['f'], v), 'the value shown is the value')
    sx.check(('f' in j) or not nulls, 'a hidden field is null when nulls are '
             'shown')
    sx.check(sx.same(j.get('rest'), 1), 'other fields are shown')


@H(configs=['key', 'object'])
def link_read(sx, how):
    """canr hides a linked object and its reference key."""
    g = graph()
    K = klass({'id': types.int.primary, 'code': types.int,
               'u': types.objof('C16L').linkto.canr(
                   lambda op, o: op.code == o.code)}, 'C16M', g=g)
    U = klass({'id': types.int.primary, 'code': types.int,
               'k': types.listof('C16M').linkedby('u')}, 'C16L', g=g)
    o = K(id=9, code=sx.int('code', 0, 3))
    uid = sx.int('uid', 100, 200)
    if how == 'key':
        o.u_id = uid
    else:
        o.u = U(id=uid, code=7)
    op = U(id=3, code=sx.int('ucode', 0, 3)) if sx.bool('op') else None
    o.opby(op)
    j = o.tojson()
    ok = op is not None and o.code == op.code
    if ok:
        sx.check(sx.eq(j.get('uId'), uid), 'the key is shown with permission')
        sx.check(('u' in j) == (how == 'object'), 'the object is shown with '
                 'permission')
    else:
        sx.check('u' not in j and 'uId' not in j, 'nothing of the link is '
                 'shown without permission')


@H(configs=[(c, n) for c in ('isobj', 'isthis') for n in ('op', 'this')])
def identity(sx, cfg):
    """Being the same object: the same class and primary key."""
    kind, _ = cfg
    g = graph()
    t = types.getop.isobj(types.this) if kind == 'isobj' else \
        types.getop.isthis
    K = klass({'id': types.int.primary, 'v': types.int}, 'C16I',
              {'can_update': t}, g)
    L = klass({'id': types.int.primary, 'v': types.int}, 'C16J', g=g)
    ids = [sx.int('i', 0, 3) if sx.bool('si') else None,
           sx.int('j', 0, 3) if sx.bool('sj') else None]
    o = persisted(K(id=ids[0], v=1))
    who = sx.pick('who', ['self', 'twin', 'other'])
    op = o if who == 'self' else (K if who == 'twin' else L)(id=ids[1], v=1)
    o.opby(op)
    ok = who == 'self' or who == 'twin' and None not in ids and \
        ids[0] == ids[1]
    e = sx.raises(UnauthorizedActionException, lambda: o.save())
    sx.check(sx.Iff(ok, e is None), 'the operator is the object exactly with '
             'the same class and key')


def asops(log):
    def one(op):
        log.append((op,))
        return op

    def two(op, o):
        log.append((op, o))
        return op

    def three(op, o, ctx):
        log.append((op, o, ctx))
        return op
    return {'direct': None, 'one': one, 'two': two, 'three': three}


@H(configs=['direct', 'one', 'two', 'three', 'boss'])
def assigned(sx, how):
    """The operator becomes the value of an asop field of a new object, and
    only of a new one."""
    g = graph()
    log = []
    t = types.objof('C16O').linkto
    if how == 'boss':
        t = t.asop(lambda op: op.boss)
    else:
        fn = asops(log)[how]
        t = t.asop(fn) if fn else t.asopd
    K = klass({'id': types.int.primary, 'v': types.int, 'u': t}, 'C16N', g=g)
    U = klass({'id': types.int.primary, 'boss': types.objof('C16O'),
               'k': types.listof('C16N').linkedby('u')}, 'C16O', g=g)
    uid, bid = sx.int('uid', 1, 9), sx.int('bid', 1, 9)
    op = U(id=uid, boss=U(id=bid))
    o = K(id=1, v=1)
    new = sx.bool('new')
    old = None
    if not new:
        if sx.bool('had'):
            old = sx.int('old', 1, 9)
            o.u_id = old
        persisted(o)
    e = vexc(lambda: o.validate())
    sx.check((e is None) == (not new), 'a new object without operator is '
             'invalid')
    if e is not None:
        sx.check(list(e.keypath_messages) == ['u'], 'the message names the '
                 'field')
    o.opby(op)
    if new:
        sx.check(sx.eq(o.u_id, bid if how == 'boss' else uid),
                 'the operator is assigned')
        sx.check(vexc(lambda: o.validate()) is None, 'the object is valid')
        if how in ('two', 'three'):
            sx.check(log[0][1] is o, 'the transformer gets the object')
    else:
        sx.check(sx.eq(o.u_id, old), 'a persisted object keeps its value')
        sx.check(not o.is_modified, 'a persisted object is not modified')
        o.u_id = None
        if o.is_modified:
            e = vexc(lambda: o.validate())
            sx.check(e is not None, 'the assigned operator cannot be removed')


@H(configs=['chain', 'call'])
def nested_operator(sx, how):
    """Rules of nested objects see the operator of the root."""
    g = graph()
    seen = []

    def see(op, o, v):
        seen.append((op, o, v))
        return op.code == v
    t = types.int.canw(see if how == 'call' else types.getop.fval('code').eq(
        types.this.fval('f')))
    N = klass({'f': t}, 'C16Q', g=g)
    R = klass({'n': types.objof('C16Q'), 'ns': types.listof('C16Q'),
               'd': types.dictof('C16Q'), 'code': types.int}, 'C16R', g=g)
    v = sx.int('v', 0, 3)
    place = sx.pick('place', ['n', 'ns', 'd'])
    x = N(f=v)
    r = R(**{place: x if place == 'n' else [x] if place == 'ns' else
             {'a': x}})
    op = R(code=sx.int('code', 0, 3))
    x.opby(R(code=9))
    r.opby(op)
    e = vexc(lambda: r.validate())
    sx.check(sx.Iff(v == op.code, e is None), 'the operator of the root '
             'decides')
    if how == 'call':
        sx.check(all(s[0] is op and s[1] is x for s in seen), 'the rule gets '
                 'the operator of the root and the object itself')
