"""C13: previous values and reset restore exactly the stored state."""
from symx.sx import Registry
from jsonclasses import types
from jsonclasses.excs import (JSONClassResetError,
                              JSONClassResetNotEnabledError)
from props.util import graph, klass, persisted

H = Registry()
BOUNDS = {
    'fields': 'int, str, list, dict, list of lists, dict of lists, any '
              'holding a list or dict, linked object with its reference key',
    'history': 'up to 3 changes by assignment, item change or reference key, '
               'also through containers taken out before; values symbolic '
               '(-3..3)',
    'classes': 'reset_all_fields on/off; fields with compare or onupdate'}
ASSUMPTIONS = ['Changes inside linked lists are outside: the code excludes '
               'them from reset by design.']


def num(sx, n):
    return sx.int(n, -3, 3)


def fields():
    return {'a': types.int, 's': types.str, 'l': types.listof(int),
            'd': types.dictof(int), 'll': types.listof(types.listof(int)),
            'dl': types.dictof(types.listof(int)), 'x': types.any,
            'y': types.any}


def plain(v):
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def state(o):
    return {f: plain(getattr(o, f)) for f in
            ('a', 's', 'l', 'd', 'll', 'dl', 'x', 'y')}


def start(sx, K):
    o = K(a=num(sx, 'a') if sx.bool('an') else None, s='a',
          l=[num(sx, 'l0'), 1], d={'k': num(sx, 'd0')}, ll=[[1], []],
          dl={'k': [1], 'm': []})
    o.x = [1, [2], {}, []]
    o.y = {'k': [1], 'm': {}, 'n': []}
    return persisted(o)


OPS = {
    'a': lambda o, v: setattr(o, 'a', v),
    'anull': lambda o, v: setattr(o, 'a', None),
    's': lambda o, v: setattr(o, 's', 'b'),
    'l': lambda o, v: setattr(o, 'l', [v]),
    'lnull': lambda o, v: setattr(o, 'l', None),
    'lapp': lambda o, v: o.l is not None and o.l.append(v),
    'lset': lambda o, v: o.l and o.l.__setitem__(0, v),
    'lclr': lambda o, v: o.l is not None and o.l.clear(),
    'lsort': lambda o, v: o.l is not None and o.l.reverse(),
    'd': lambda o, v: setattr(o, 'd', {'m': v}),
    'dset': lambda o, v: o.d.__setitem__('k', v),
    'dpop': lambda o, v: o.d.pop('k', None),
    'll': lambda o, v: o.ll[0].append(v),
    'llnew': lambda o, v: (o.ll.append([v]), o.ll[-1].append(v)),
    'lle': lambda o, v: o.ll[1].append(v),
    'dl': lambda o, v: o.dl['k'].append(v),
    'dle': lambda o, v: o.dl['m'].append(v),
    'xe': lambda o, v: o.x[2].__setitem__('k', v),
    'xn': lambda o, v: o.x[3].append([v]),
    'ye': lambda o, v: o.y['m'].__setitem__('k', v),
    'yn': lambda o, v: o.y['n'].append({'k': v}),
    'x': lambda o, v: o.x.append(v),
    'xx': lambda o, v: o.x[1].append(v),
    'y': lambda o, v: o.y['k'].append(v),
    'upd': lambda o, v: o.update(a=v, l=[v, v]),
    'set': lambda o, v: o.set(a=v, d={'q': v}),
}
NAMES = list(OPS)
PAIRS = [(a, b) for a in NAMES for b in NAMES]


@H(configs=PAIRS)
def reset(sx, cfg):
    K = klass(fields(), conf={'reset_all_fields': True})
    o = start(sx, K)
    want = state(o)
    for i, n in enumerate(cfg):
        OPS[n](o, num(sx, f'v{i}'))
    now = state(o)
    for f in o.previous_values:
        sx.check(sx.same(plain(o.previous_values[f]), want[f]),
                 'a previous value is the stored value')
    for f in want:
        if f not in o.previous_values:
            sx.check(sx.same(now[f], want[f]), 'every changed field has a '
                     'previous value')
    o.reset()
    sx.check(sx.same(state(o), want), 'reset restores every field')
    sx.check(not o.is_modified and o.modified_fields == () and
             o.previous_values == {}, 'reset leaves an unmodified object')
    if sx.bool('later'):
        o.l.append(7)
        o.ll[0].append(7)
        sx.check({f.split('.')[0] for f in o.modified_fields} == {'l', 'll'},
                 'restored containers are tracked')
        o.reset()
        sx.check(sx.same(state(o), want), 'reset works again')


@H(configs=['l', 'd', 'll', 'x'])
def detached(sx, f):
    """A container replaced by an assignment no longer affects the object."""
    K = klass(fields(), conf={'reset_all_fields': True})
    o = start(sx, K)
    want = state(o)
    old = getattr(o, f)
    setattr(o, f, {'m': 3} if f == 'd' else [[3]] if f == 'll' else [9])
    v = num(sx, 'v')
    if f == 'd':
        old['z'] = v
    elif f == 'll':
        old[0].append(v)
    else:
        old.append(v)
    sx.check(sx.same(plain(o.previous_values[f]), want[f]),
             'the previous value is the stored one')
    o.reset()
    sx.check(sx.same(state(o), want), 'reset restores every field')


@H(configs=NAMES)
def disabled(sx, name):
    """Without reset_all_fields nothing is recorded and reset is refused."""
    K = klass(fields())
    o = start(sx, K)
    OPS[name](o, num(sx, 'v'))
    now = state(o)
    flags = o.is_modified, o.modified_fields
    sx.check(o.previous_values == {}, 'no previous values are recorded')
    sx.check(sx.raises(JSONClassResetNotEnabledError, o.reset) is not None,
             'reset is refused')
    sx.check(sx.same(state(o), now) and
             flags == (o.is_modified, o.modified_fields), 'a refused reset '
             'changes nothing')


@H(configs=NAMES)
def new_object(sx, name):
    K = klass(fields(), conf={'reset_all_fields': True})
    o = start(sx, K)
    o._mark_new()
    OPS[name](o, num(sx, 'v'))
    now = state(o)
    sx.check(o.previous_values == {}, 'a new object has no previous values')
    sx.check(sx.raises(JSONClassResetError, o.reset) is not None,
             'a new object cannot be reset')
    sx.check(sx.same(state(o), now), 'a refused reset changes nothing')


@H(configs=[(k, m) for k in ('int', 'list', 'dict', 'nested')
            for m in ('compare', 'onupdate', 'umin')])
def single(sx, cfg):
    """A field with a comparing rule has its previous value by itself."""
    kind, rule = cfg
    if rule == 'umin':
        if kind != 'int':
            return
        t = types.int.umininterval(2)
    else:
        t = {'int': types.int, 'list': types.listof(int),
             'dict': types.dictof(int),
             'nested': types.listof(types.listof(int))}[kind]
        t = getattr(t, rule)(lambda a, b: None)
    K = klass({'f': t, 'g': types.int})
    v = num(sx, 'v')
    first = {'int': v, 'list': [v], 'dict': {'k': v}, 'nested': [[v]]}[kind]
    o = persisted(K(f=first, g=1))
    w = num(sx, 'w')
    if kind == 'int':
        o.f = w
        changed = w != v
        if sx.bool('twice'):
            u = num(sx, 'u')
            changed = sx.Or(changed, u != v)
            o.f = u
    else:
        changed = True
        if kind == 'list':
            o.f.append(w)
        elif kind == 'dict':
            o.f['m'] = w
        else:
            o.f[0].append(w)
    o.g = 2
    sx.check(sx.Iff('f' in o.previous_values, changed), 'the previous value '
             'is recorded exactly when the field changed')
    sx.check(set(o.previous_values) <= {'f'}, 'and of no other field')
    if 'f' in o.previous_values:
        sx.check(sx.same(plain(o.previous_values['f']), first),
                 'the previous value is the stored value')


@H(configs=[True, False])
def primary(sx, allf):
    K = klass({'id': types.int.primary, 'a': types.int},
              conf={'reset_all_fields': True} if allf else None)
    i = num(sx, 'i')
    o = persisted(K(id=i, a=1))
    sx.check(sx.eq(o._previous_id, i), 'the previous id is the stored one')
    o.a = 2
    sx.check(sx.eq(o._previous_id, i), 'the previous id is the stored one')
    j = num(sx, 'j')
    o.id = j
    sx.check(sx.eq(o._previous_id, i), 'the previous id is the stored one')
    o.id = num(sx, 'k')
    sx.check(sx.eq(o._previous_id, i), 'the previous id is the stored one')


LINKS = ['key', 'keynull', 'obj', 'null', 'other', 'otherlist']


@H(configs=[(s, a, b) for s in ('linked', 'keyonly', 'empty') for a in LINKS
            for b in LINKS + [None]])
def links(sx, cfg):
    """Reset restores a linked object together with its reference key."""
    begin, *ops = cfg
    g = graph()
    A = klass({'id': types.int.primary,
               'bs': types.listof('C13B').linkedby('a')}, 'C13A', g=g)
    B = klass({'id': types.int.primary, 'n': types.int,
               'a': types.objof('C13A').linkto}, 'C13B', g=g,
              conf={'reset_all_fields': True})
    a1, a2, b = A(id=1), A(id=2), B(id=3, n=0)
    if begin == 'linked':
        b.a = a1
    elif begin == 'keyonly':
        b.a_id = sx.int('k', 1, 3)
    want = b.a, b.a_id
    persisted(b)
    for i, op in enumerate(ops):
        if op == 'key':
            b.a_id = sx.int(f'k{i}', 0, 3)
        elif op == 'keynull':
            b.a_id = None
        elif op == 'obj':
            b.a = a2
        elif op == 'null':
            b.a = None
        elif op == 'other' and b.a is not None:
            b.a.bs.remove(b)
        elif op == 'otherlist':
            a2.bs = [b]
    b.n = 1
    b.reset()
    sx.check(b.a is want[0], 'reset restores the linked object')
    sx.check(sx.eq(b.a_id, want[1]), 'reset restores the reference key')
    sx.check(not b.is_modified and b.modified_fields == (), 'reset leaves an '
             'unmodified object')
    for x in (a1, a2):
        n = len([y for y in (x.bs or []) if y is b])
        sx.check(n == (1 if b.a is x else 0), 'both sides agree after reset')
