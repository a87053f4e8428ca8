"""C01: input never writes what the field's write rule protects."""
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass

H = Registry()
BOUNDS = {
    'write rules': 'none, readonly, internal, writeonce, writenonnull',
    'fields': 'int, str, list, dict, embedded object, linked object, list of '
              'linked objects',
    'input': 'constructor or set(), plain key, camel case key, dotted or '
             'bracketed key path, reference key; at the root, inside an '
             'object field, a list or dict of objects, or in a repeated '
             'object of the same input; new value symbolic or null',
    'prior value': 'null or symbolic; ints -10**6..10**6, strings to length 2'}
ASSUMPTIONS = []
RULES = ['none', 'readonly', 'internal', 'writeonce', 'writenonnull']


def ruled(rule, t):
    if rule == 'none':
        return t
    return getattr(t, rule)


def expect(rule, prior, new):
    if rule in ('readonly', 'internal'):
        return prior
    if rule == 'writeonce':
        return new if prior is None else prior
    if rule == 'writenonnull':
        return prior if new is None else new
    return new


def number(sx, n):
    return sx.int(n, -10**6, 10**6)


KINDS = ['int', 'str', 'list', 'dict', 'obj']


def world(rule, kind):
    """Class with a protected field my_f, and a class that contains it."""
    g = graph()
    klass({'x': types.int, 'z': types.int}, 'C01In', g=g)
    t = {'int': types.int, 'str': types.str, 'list': types.listof(int),
         'dict': types.dictof(int), 'obj': types.objof('C01In')}[kind]
    K = klass({'id': types.int.primary, 'my_f': ruled(rule, t),
               'other': types.int}, 'C01K', g=g)
    O = klass({'o': types.objof('C01K'), 'l': types.listof('C01K'),
               'd': types.dictof('C01K')}, 'C01O', g=g)
    return K, O, g


def fresh(sx, kind, name):
    if kind == 'int':
        return number(sx, name)
    if kind == 'str':
        return sx.str(name, 2, 'ab')
    if kind == 'list':
        return [number(sx, name)]
    return {'k' if kind == 'dict' else 'x': number(sx, name)}


def state(v):
    if v is None:
        return None
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    if hasattr(v, '__is_jsonclass__'):
        return {'x': v.x}
    return v


def put(obj, kind, v):
    """Give the field a value from the program's side."""
    if kind == 'obj' and v is not None:
        cls = obj.__class__.cdef.jconf.cgraph.fetch('C01In').cls
        v = cls(**v)
    elif isinstance(v, list):
        v = list(v)
    elif isinstance(v, dict):
        v = dict(v)
    obj.update(my_f=v)
    obj._mark_unmodified()
    return obj


def judge(sx, rule, obj, prior, new, before=None):
    want = expect(rule, prior, new)
    got = state(obj.my_f)
    sx.check(sx.same(got, want), f'{rule}: a protected field keeps its value '
             'and any other takes the input')
    if want is prior and not obj.is_new:
        sx.reach('kept')
        sx.check(not obj.is_modified and len(obj.modified_fields) == 0,
                 f'{rule}: rejected input leaves the object unmodified')


def both(sx, kind):
    prior = fresh(sx, kind, 'p') if sx.bool('prior') else None
    new = fresh(sx, kind, 'n') if sx.bool('new') else None
    return prior, new


@H(configs=[(r, k, n) for r in RULES for k in KINDS for n in ('my_f', 'myF')])
def by_set(sx, cfg):
    rule, kind, key = cfg
    K, _, _ = world(rule, kind)
    prior, new = both(sx, kind)
    obj = put(K(id=1), kind, prior)
    obj.set(**{key: new})
    judge(sx, rule, obj, prior, new)
    if sx.bool('again'):
        third = fresh(sx, kind, 't')
        now = state(obj.my_f)
        obj.set(**{key: third})
        sx.check(sx.same(state(obj.my_f), expect(rule, now, third)),
                 f'{rule}: holds for every later input')


@H(configs=[(r, k, n) for r in RULES for k in KINDS for n in ('my_f', 'myF')])
def by_init(sx, cfg):
    rule, kind, key = cfg
    K, _, _ = world(rule, kind)
    new = fresh(sx, kind, 'n') if sx.bool('new') else None
    judge(sx, rule, K(id=1, **{key: new}), None, new)


@H(configs=[(r, w) for r in RULES for w in ('default', 'callable')])
def by_init_default(sx, cfg):
    """A protected field gets its default, whatever the input says."""
    rule, w = cfg
    dv = number(sx, 'd')
    K = klass({'my_f': ruled(rule, types.int).default(
        dv if w == 'default' else (lambda: dv))})
    new = number(sx, 'n')
    got = K(my_f=new).my_f
    sx.check(got == (dv if rule in ('readonly', 'internal') else new),
             f'{rule}: default against input')


@H(configs=[(r, k, w, how) for r in RULES for k in KINDS
            for w in ('o', 'l', 'd') for how in ('init', 'set')])
def nested_new(sx, cfg):
    """Objects built from nested input."""
    rule, kind, where, how = cfg
    K, O, _ = world(rule, kind)
    new = fresh(sx, kind, 'n') if sx.bool('new') else None
    inner = {'id': 1, sx.pick('key', ['my_f', 'myF']): new}
    v = {'o': inner, 'l': [{'id': 2}, inner], 'd': {'a': inner}}[where]
    if how == 'init':
        obj = O(**{where: v})
    else:
        obj = O()
        obj.set(**{where: v})
    got = {'o': lambda: obj.o, 'l': lambda: obj.l[1],
           'd': lambda: obj.d['a']}[where]()
    judge(sx, rule, got, None, new)


PATHS = {'o': ['o.my_f', 'o[my_f]'], 'l': ['l[1].my_f', 'l.1.my_f'],
         'd': ['d.a.my_f', 'd[a].my_f']}


@H(configs=[(r, k, p) for r in RULES for k in KINDS for w in PATHS
            for p in PATHS[w]])
def nested_path(sx, cfg):
    """Key paths that end at a protected field of an existing object."""
    rule, kind, path = cfg
    K, O, _ = world(rule, kind)
    prior, new = both(sx, kind)
    k = put(K(id=1), kind, prior)
    obj = O()
    obj.o = k
    obj.l = [K(id=2), k]
    obj.d = {'a': k}
    obj._mark_unmodified()
    obj.set(**{path: new})
    judge(sx, rule, k, prior, new)


INTO = {'list': ['my_f[0]', 'my_f.0'], 'dict': ['my_f.k', 'my_f[k]'],
        'obj': ['my_f.x', 'my_f[x]']}


@H(configs=[(r, p, w) for r in RULES for k in INTO for p in INTO[k]
            for w in ('root', 'o', 'l')])
def into_path(sx, cfg):
    """Key paths that lead into the protected value itself."""
    rule, path, where = cfg
    kind = next(k for k in INTO if path in INTO[k])
    K, O, _ = world(rule, kind)
    prior = fresh(sx, kind, 'p')
    n = number(sx, 'n')
    k = put(K(id=1), kind, prior)
    if where == 'root':
        k.set(**{path: n})
    else:
        obj = O()
        obj.o = k
        obj.l = [k]
        obj._mark_unmodified()
        obj.set(**{('o.' if where == 'o' else 'l[0].') + path: n})
    new = [n] if kind == 'list' else {'k' if kind == 'dict' else 'x': n}
    kept = rule in ('readonly', 'internal', 'writeonce')
    sx.check(sx.same(state(k.my_f), prior if kept else new),
             f'{rule}: a key path into a protected value changes nothing')
    if kept:
        sx.check(not k.is_modified, 'and leaves the object unmodified')


@H(configs=[(r, how) for r in RULES for how in ('init', 'set')])
def repeated(sx, cfg):
    """The same object twice in one input: the rules hold for both."""
    rule, how = cfg
    K, O, _ = world(rule, 'int')
    a = number(sx, 'a') if sx.bool('fa') else None
    b = number(sx, 'b') if sx.bool('fb') else None
    v = {'l': [{'id': 1, 'my_f': a}, {'id': 1, 'my_f': b}]}
    if how == 'init':
        obj = O(**v)
    else:
        obj = O()
        obj.set(**v)
    k = obj.l[0]
    if obj.l[1] is k:
        sx.check(sx.same(k.my_f, expect(rule, expect(rule, None, a), b)),
                 f'{rule}: a repeated object obeys the rule')


def linked(rule, many=False):
    g = graph()
    t = types.listof('C01T') if many else types.objof('C01T')
    S = klass({'id': types.int.primary, 'my_t': ruled(rule, t.linkto),
               'other': types.int}, 'C01S', g=g)
    T = klass({'id': types.int.primary,
               'ss': types.listof('C01S').linkedby('my_t')}, 'C01T', g=g)
    O = klass({'o': types.objof('C01S')}, 'C01LO', g=g)
    return S, T, O


WAYS = ['object', 'my_t_id', 'myTId']


@H(configs=[(r, w, p, n) for r in RULES for w in WAYS
            for p in ('none', 'object', 'key') for n in ('set', 'path')])
def link(sx, cfg):
    """Linked object: given as an object or by its reference key."""
    rule, way, before, how = cfg
    S, T, O = linked(rule)
    p, n = sx.int('p', 1, 999), sx.int('n', 1, 999)
    sx.assume(p != n)
    s = S(id=1)
    if before == 'object':
        s.my_t = T(id=p)
    elif before == 'key':
        s.my_t_id = p
    s._mark_unmodified()
    held = s.my_t
    key, val = ('my_t', {'id': n}) if way == 'object' else (way, n)
    if how == 'set':
        s.set(**{key: val})
    else:
        o = O()
        o.o = s
        o._mark_unmodified()
        o.set(**{'o.' + key: val})
    prior = None if before == 'none' else p
    want = expect(rule, prior, n)
    sx.check(sx.same(s.my_t_id, want), f'{rule}: the link follows the rule')
    if want is prior:
        sx.check(s.my_t is held and not s.is_modified,
                 f'{rule}: a protected link is left alone')
    elif way == 'object':
        sx.check(s.my_t is not None and sx.eq(s.my_t.id, n),
                 'the new object is linked')


@H(configs=[(r, w) for r in RULES for w in WAYS])
def link_init(sx, cfg):
    rule, way = cfg
    S, T, O = linked(rule)
    n = sx.int('n', 1, 999)
    s = S(id=1, **({'my_t': {'id': n}} if way == 'object' else {way: n}))
    sx.check(sx.same(s.my_t_id, expect(rule, None, n)),
             f'{rule}: the link follows the rule')


@H(configs=[(r, w) for r in ('none', 'readonly', 'internal')
            for w in ('objects', 'my_t_ids', 'myTIds')])
def links(sx, cfg):
    rule, way = cfg
    S, T, O = linked(rule, many=True)
    p, n = sx.int('p', 1, 999), sx.int('n', 1, 999)
    sx.assume(p != n)
    s = S(id=1)
    s.my_t = [T(id=p)]
    s._mark_unmodified()
    s.set(**({'my_t': [{'id': n}]} if way == 'objects' else {way: [n]}))
    want = expect(rule, p, n)
    sx.check(sx.all_eq(list(s.my_t_ids), [want]),
             f'{rule}: the links follow the rule')


@H(configs=RULES)
def trusted(sx, rule):
    """The program itself may always write."""
    K, _, _ = world(rule, 'int')
    obj = K()
    a, b = number(sx, 'a'), number(sx, 'b')
    obj.my_f = a
    sx.check(sx.same(obj.my_f, a), 'assignment writes')
    obj.update(my_f=b)
    sx.check(sx.same(obj.my_f, b), 'update writes')
