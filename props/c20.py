"""C20: saving and deleting run their steps once, in order."""
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted, vexc

H = Registry()
BOUNDS = {
    'events': 'on_create, on_update, on_delete (0 to 3 callbacks, 1 or 2 '
              'arguments), field callbacks onsave, onupdate, onwrite (every '
              'number of arguments), save steps, the write itself',
    'objects': 'new, persisted, modified, unmodified; valid or invalid; with '
               'nested, linked and up to 3 unlinked objects',
    'values': 'symbolic, -3..3; null'}
ASSUMPTIONS = ['The storage layer is a stand-in that records the write.']


def cb(log, what, args, extra=None):
    if args == 1:
        def fn(o):
            log.append((what, o))
            if extra:
                extra(o)
    else:
        def fn(o, op):
            log.append((what, o, op))
            if extra:
                extra(o)
    return fn


def noted(log, what):
    def fn(x):
        log.append((what, x))
        return x
    return fn


def lifecycle(sx, log, n, args, listed=True, extra=None):
    conf = {}
    for ev in ('create', 'update', 'delete'):
        cs = [cb(log, f'{ev}{i}', args, extra if i == 0 else None)
              for i in range(n)]
        if cs:
            conf[f'on_{ev}'] = cs if listed else cs[0]
    K = klass({'id': types.int.primary, 'w': types.int,
               'v': types.int.max(2).setonsave(noted(log, 'set'))},
              'C20K', conf)
    K._database_write = lambda self: log.append(('write', self))
    K._orm_delete = lambda self: log.append(('orm', self))
    K._orm_restore = lambda self: log.append(('restore', self))
    return K


@H(configs=[(n, a, li) for n in (0, 1, 2, 3) for a in (1, 2)
            for li in (True, False) if n < 2 or li])
def order(sx, cfg):
    n, args, listed = cfg
    log = []
    K = lifecycle(sx, log, n, args, listed)
    v = sx.int('v', -3, 3)
    o = K(id=1, v=v, w=0)
    op = K(id=2) if sx.bool('op') else None
    if op is not None:
        o.opby(op)
    new = sx.bool('new')
    if not new:
        persisted(o)
        o.w = 1
    act = sx.pick('act', ['save', 'skip', 'delete', 'restore'])
    del log[:]
    ev = 'create' if new else 'update'
    if act == 'delete':
        sx.check(o.delete() is o, 'delete() returns the object')
        ev, want = 'delete', [('orm', o)]
    elif act == 'restore':
        sx.check(o.restore() is o, 'restore() returns the object')
        sx.check(log == [('restore', o)], 'restoring runs no callback')
        return
    else:
        e = vexc(lambda: o.save(skip_validation=act == 'skip'))
        bad = v > 2 and new and act == 'save'
        sx.check((e is not None) == bad, 'save refuses exactly an invalid '
                 'object')
        want = [] if bad else [('set', v), ('write', o)]
    want = [(f'{ev}{i}', o) + ((op,) if args == 2 else ())
            for i in range(n)] + want
    sx.check([x[0] for x in log] == [x[0] for x in want],
             'callbacks, save steps and the write happen once, in order')
    for x, y in zip(log, want):
        sx.check(x[0] == 'set' or all(a is b for a, b in zip(x[1:], y[1:]))
                 and len(x) == len(y),
                 'a callback gets the object and the operator')


@H(configs=[(e, a) for e in ('create', 'update') for a in (1, 2)])
def callback_changes(sx, cfg):
    """What a callback changes is validated and written."""
    event, args = cfg
    log = []
    x = sx.int('x', -3, 4)

    def change(o):
        o.v = x
    K = lifecycle(sx, log, 2, args, True, change)
    o = K(id=1, v=0, w=0)
    if event == 'update':
        persisted(o)
        o.w = 3
    e = vexc(lambda: o.save())
    ok = x <= 2
    sx.check(sx.Iff(ok, e is None), 'a change made by a callback is '
             'validated')
    sx.check(sx.Iff(ok, log[-1][0] == 'write'), 'an invalid object is not '
             'written')
    sx.check(sx.same(o.v, x), 'the change stays')


@H(configs=[(k, n) for k, m in (('onsave', 2), ('onupdate', 4),
                                ('onwrite', 3)) for n in range(m)])
def field_callbacks(sx, cfg):
    """onsave, onwrite and onupdate are called when they should be, with the
    values."""
    kind, n = cfg
    log = []
    fns = [lambda: log.append(()), lambda a: log.append((a,)),
           lambda a, b: log.append((a, b)),
           lambda a, b, c: log.append((a, b, c))]
    g = graph()
    N = klass({'f': getattr(types.int, kind)(fns[n]), 'z': types.int},
              'C20N', g=g)
    K = klass({'n': types.objof('C20N'), 'ns': types.listof('C20N'),
               'd': types.dictof('C20N')}, 'C20R', g=g)
    x = sx.int('x', -3, 3) if sx.bool('sx') else None
    o = N(f=x, z=0)
    where = sx.pick('where', ['root', 'n', 'ns', 'd'])
    root = o
    if where != 'root':
        root = K(**{where: o if where == 'n' else [o] if where == 'ns'
                    else {'k': o}})
    state = sx.pick('state', ['new', 'untouched', 'other', 'changed',
                              'twice'])
    y = x
    if state != 'new':
        persisted(o)
        if root is not o:
            persisted(root)
    if state == 'other':
        o.z = 1
    if state in ('changed', 'twice'):
        y = sx.int('y', -3, 3) if sx.bool('sy') else None
        o.f = y
    if state == 'twice':
        y = sx.int('y2', -3, 3)
        o.f = y
    changed = 'f' in o.modified_fields
    root.save()
    calls = 1
    if kind == 'onsave':
        calls = 1 if state == 'new' or o.is_modified else 0
    if kind == 'onwrite':
        calls = 1 if state == 'new' or changed else 0
    if kind == 'onupdate':
        calls = 1 if changed else 0
    sx.check(len(log) == calls, f'{kind} is called once exactly when due')
    if log and n:
        c = log[0]
        if kind == 'onupdate' and n >= 2:
            sx.check(sx.eq(c[0], x) and sx.eq(c[1], y), 'onupdate gets the '
                     'old and the new value')
        else:
            sx.check(sx.eq(c[0], y), f'{kind} gets the value')
    sx.check(sx.eq(o.f, y), f'{kind} does not change the value')


@H(configs=[(k, op) for k in ('onupdate', 'onwrite', 'onsave')
            for op in ('append', 'pop', 'item', 'assign', 'none')])
def container_callbacks(sx, cfg):
    """Changes inside a list field count as changes of the field."""
    kind, op = cfg
    log = []
    K = klass({'f': getattr(types.listof(types.int), kind)(
        lambda v: log.append(list(v))), 'z': types.int}, 'C20C')
    a, b = sx.int('a', 0, 3), sx.int('b', 0, 3)
    o = persisted(K(f=[a], z=0))
    if op == 'append':
        o.f.append(b)
    elif op == 'pop':
        o.f.pop()
    elif op == 'item':
        o.f[0] = b
    elif op == 'assign':
        o.f = [b, a]
    o.z = 1
    changed = 'f' in o.modified_fields
    o.save()
    due = changed or kind == 'onsave'
    sx.check(len(log) == (1 if due else 0), f'{kind} is called once exactly '
             'when due')
    sx.check(op in ('none', 'item') or changed, 'the change is seen')


@H(configs=[(a, n) for a in ('save', 'skip') for n in (1, 2, 3)])
def unlinked(sx, cfg):
    """Saving an object saves every object unlinked from it, once."""
    how, n = cfg
    g = graph()
    log = []
    A = klass({'id': types.int.primary, 'bs': types.listof('C20B')
               .linkedby('a'), 'w': types.int}, 'C20A',
              {'on_update': lambda o: log.append(('update', o)),
               'on_create': lambda o: log.append(('create', o))}, g)
    B = klass({'id': types.int.primary, 'a': types.objof('C20A').linkto,
               'v': types.int.max(3)}, 'C20B',
              {'on_update': lambda o: log.append(('update', o)),
               'on_create': lambda o: log.append(('create', o))}, g)
    for k in (A, B):
        k._database_write = lambda self: log.append(('write', self))
    vs = [sx.int(f'v{i}', 0, 4) for i in range(3)]
    same = sx.bool('same')
    bs = [B(id=None if same else i, v=vs[0] if same else vs[i])
          for i in range(3)]
    a = A(id=1, bs=list(bs), w=0)
    for x in [a, *bs]:
        persisted(x)
    gone = bs[:n]
    how2 = sx.pick('way', ['remove', 'assign', 'other', 'pop'])
    if how2 == 'remove':
        for b in gone:
            a.bs.remove(b)
    elif how2 == 'assign':
        a.bs = bs[n:]
    elif how2 == 'pop':
        for b in gone:
            a.bs.pop(0)
    else:
        for b in gone:
            b.a = None
    for i, b in enumerate(gone):
        b.v = 1
    left = [x for x in a.unlinked_objects.get('bs') or []]
    sx.check(len(left) == n, 'the unlinked objects are known')
    a.save(skip_validation=how == 'skip')
    for b in gone:
        sx.check(len([1 for w, o in log if w == 'write' and o is b]) == 1,
                 'an unlinked object is written once')
        sx.check(len([1 for w, o in log if w == 'update' and o is b]) == 1,
                 'its callbacks run once')
    sx.check(len([1 for w, o in log if w == 'write' and o is a]) == 1,
             'the object itself is written once')
    sx.check(len([1 for w, o in log if w == 'update' and o is a]) == 1,
             'the callbacks of the object run once')
    sx.check(log[0][1] is a and log[1][1] is a,
             'the object is written first')
    for b in bs[n:]:
        sx.check(not [1 for w, o in log if o is b], 'a linked object is not '
                 'written by this')
    sx.check(not any(a.unlinked_objects.values()), 'nothing stays unlinked '
             'after saving')
    k = len(log)
    a.save(skip_validation=how == 'skip')
    sx.check(len(log) == k + 2, 'a later save writes the object only')


@H(configs=['root', 'nested', 'linked', 'list'])
def invalid_not_written(sx, where):
    """An invalid object is neither written nor changed by save steps."""
    g = graph()
    log = []
    N = klass({'v': types.int.max(2).setonsave(lambda x: x + 1),
               'r': types.objof('C20J').linkto}, 'C20I', g=g)
    J = klass({'id': types.int.primary, 's': types.int.setonsave(
        lambda x: x + 1), 'n': types.objof('C20I') if where != 'linked' else
        types.objof('C20I').linkedby('r'), 'l': types.listof('C20I'),
        'm': types.int.max(2)}, 'C20J', g=g)
    J._database_write = lambda self: log.append('write')
    x, m = sx.int('x', 0, 4), sx.int('m', 0, 4)
    n = N(v=x)
    o = J(id=1, s=0, m=m)
    if where in ('nested', 'linked'):
        o.n = n
    elif where == 'list':
        o.l = [n]
    skip, allf = sx.bool('skip'), sx.bool('all')
    e = vexc(lambda: o.save(skip_validation=skip, validate_all_fields=allf))
    ok = sx.And(m <= 2, sx.Or(where == 'root', x <= 2))
    if skip:
        ok = True
    sx.check(sx.Iff(ok, e is None), 'save validates unless told otherwise')
    if e is None:
        sx.check(log == ['write'] and o.s == 1, 'a valid object is written')
        sx.check(sx.same(n.v, x + (0 if where == 'root' else 1)),
                 'save steps of nested objects run once')
    else:
        sx.check(log == [] and o.s == 0 and sx.same(n.v, x), 'an invalid '
                 'object is not written and not changed')
        if allf and where != 'root':
            sx.check(sx.Iff(sx.And(m > 2, x > 2),
                            len(e.keypath_messages) == 2), 'all fields are '
                     'reported when asked for')
