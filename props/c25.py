"""C25: fetching from the store loads what is linked and modifies nothing."""
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted, vexc

H = Registry()
BOUNDS = {
    'links': 'one or many, key stored here or there, also inside chains '
             '(fobj, crossfetch)',
    'store': 'up to 3 stored rows with symbolic keys 1..3 and symbolic '
             'reference keys 1..3 or none',
    'history': 'an own change, a change of the reference key and its undoing '
               'before the fetch; a change and a reset after it'}
ASSUMPTIONS = ['The store is a stand-in that answers id, ids, one and find '
               'queries from its rows, in the order asked for.',
               'A field is fetched while it is not loaded.']


class Query:
    def __init__(self, result, many=False):
        self.result, self.many = result, many

    @property
    def optional(self):
        return self

    def exec(self):
        return self.result


def matches(row, cond):
    """Whether the row has the given values (one, or any of a list)."""
    for k, v in cond.items():
        have = row.get(k)
        vs = v if isinstance(v, list) else [v]
        hs = have if isinstance(have, list) else [have]
        if not any(h == x for h in hs for x in vs
                   if h is not None and x is not None):
            return False
    return True


def stored(cls, row, log):
    log.append(row)
    return persisted(cls(**row))


def store(cls, rows, log):
    """Give the class a store with the rows."""
    def one(**cond):
        found = [r for r in rows if matches(r, cond)]
        return Query(stored(cls, found[0], log) if found else None)
    cls.id = staticmethod(lambda key: one(id=key))
    cls.one = staticmethod(one)
    cls.ids = staticmethod(lambda keys: Query(
        [stored(cls, r, log) for k in keys for r in rows if r['id'] == k]))
    cls.find = staticmethod(lambda **cond: Query(
        [stored(cls, r, log) for r in rows if matches(r, cond)]))


def world(conf=None):
    g = graph()
    U = klass({'id': types.int.primary, 'n': types.int,
               'ps': types.listof('C25P').linkedby('u'),
               'card': types.objof('C25C').linkedby('u'),
               'gs': types.listof('C25G').linkto}, 'C25U', conf, g)
    P = klass({'id': types.int.primary, 'n': types.int,
               'u': types.objof('C25U').linkto}, 'C25P', conf, g)
    C = klass({'id': types.int.primary, 'n': types.int,
               'u': types.objof('C25U').linkto}, 'C25C', conf, g)
    G = klass({'id': types.int.primary, 'n': types.int,
               'us': types.listof('C25U').linkedby('gs')}, 'C25G', conf, g)
    return U, P, C, G


def unmodified(sx, objs):
    for o in objs:
        sx.check(not o.is_modified and o.modified_fields == () and
                 o.previous_values == {}, 'nothing is modified by fetching')
        sx.check(not o.is_new, 'what is fetched is not new')


LINKS = ['u', 'ps', 'card', 'gs', 'us']


def case(sx, link, conf=None):
    """(object, fetched rows expected, other side's field, log)."""
    U, P, C, G = world(conf)
    log = []
    ref = [sx.int(f'r{i}', 1, 3) if sx.bool(f'has{i}') else None
           for i in range(2)]
    if link == 'u':
        k = sx.int('k', 1, 3)
        rows = [{'id': i, 'n': i * 10} for i in (1, 2, 3)]
        store(U, rows, log)
        o = P(id=7, n=0)
        o.u_id = k
        return o, [r for r in rows if r['id'] == k], 'ps', log
    if link == 'ps':
        rows = [{'id': 11 + i, 'n': i, **({'u_id': r} if r is not None
                                          else {})}
                for i, r in enumerate(ref)]
        store(P, rows, log)
        o = U(id=sx.int('id', 1, 3), n=0)
        return o, [r for r in rows if matches(r, {'u_id': o.id})], 'u', log
    if link == 'card':
        rows = [{'id': 11 + i, 'n': i, **({'u_id': r} if r is not None
                                          else {})}
                for i, r in enumerate(ref)]
        store(C, rows, log)
        o = U(id=sx.int('id', 1, 3), n=0)
        return o, [r for r in rows if matches(r, {'u_id': o.id})][:1], 'u', log
    if link == 'gs':
        rows = [{'id': i, 'n': i * 10} for i in (1, 2, 3)]
        store(G, rows, log)
        o = U(id=1, n=0)
        a, b = sx.int('a', 1, 3), sx.int('b', 1, 3)
        sx.assume(a != b)
        o.g_ids = [a, b]
        return o, [r for k in (a, b) for r in rows if r['id'] == k], 'us', log
    rows = [{'id': 11 + i, 'n': i, 'g_ids': [r] if r is not None else []}
            for i, r in enumerate(ref)]
    store(U, rows, log)
    o = G(id=sx.int('id', 1, 3), n=0)
    return o, [r for r in rows if matches(r, {'g_ids': o.id})], 'gs', log


def judge(sx, o, link, want, back):
    got = getattr(o, link)
    many = link in ('ps', 'gs', 'us')
    got = list(got or []) if many else [] if got is None else [got]
    sx.check(len(got) == len(want), 'exactly the linked objects are loaded')
    for x, row in zip(got, want):
        sx.check(sx.same((x.id, x.n), (row['id'], row['n'])), 'they have the '
                 'stored values, in order')
        there = getattr(x, back)
        there = there if isinstance(there, list) else [there]
        sx.check(len([1 for y in there if y is o]) == 1, 'they link back')
    return got


@H(configs=[(k, r, i) for k in LINKS for r in (False, True)
            for i in (False, True)], reach=('some',))
def include(sx, cfg):
    link, reset, own = cfg
    o, want, back, log = case(sx, link, {'reset_all_fields': reset})
    keys = keys_of(o)
    persisted(o)
    if own:
        o.n = 5
    sx.check(o.include(link) is o, 'include returns the object')
    got = judge(sx, o, link, want, back)
    sx.check(sx.same(keys_of(o), keys), 'the stored keys stay')
    if got:
        sx.reach('some')
    for x, row in zip(got, want):
        for k in ('u_id', 'g_ids'):
            if k in row:
                sx.check(sx.same(plain(getattr(x, k)), row[k]), 'also those '
                         'of the fetched objects')
    if own:
        sx.check(set(o.modified_fields) == {'n'} and o.is_modified,
                 'a change made before is kept')
        sx.check(set(o.previous_values) == ({'n'} if reset else set()),
                 'and so is its previous value')
        unmodified(sx, got)
    else:
        unmodified(sx, [o] + got)
    if reset and not o.is_new:
        o.n = 6
        o.reset()
        sx.check(o.n == 0, 'reset restores the changed field')
        judge(sx, o, link, want, back)


def plain(v):
    return list(v) if isinstance(v, list) else v


def keys_of(o):
    return [plain(getattr(o, k)) for k in ('u_id', 'g_ids') if hasattr(o, k)]


@H(configs=LINKS)
def include_new(sx, link):
    """A new object stays a new one."""
    o, want, back, log = case(sx, link)
    o.include(link)
    got = judge(sx, o, link, want, back)
    unmodified(sx, got)
    sx.check(o.is_new and not o.is_modified and o.modified_fields == (),
             'a new object stays new')


@H(configs=['u', 'gs'])
def changed_key(sx, link):
    """The key as it is now is fetched; its change stays recorded."""
    U, P, C, G = world({'reset_all_fields': True})
    log = []
    rows = [{'id': i, 'n': i * 10} for i in (1, 2, 3)]
    a, b = sx.int('a', 1, 3), sx.int('b', 1, 3)
    if link == 'u':
        store(U, rows, log)
        o = P(id=7)
        o.u_id = a
        persisted(o)
        o.u_id = b
    else:
        store(G, rows, log)
        o = U(id=7)
        o.g_ids = [a]
        persisted(o)
        o.g_ids = [b]
    o.include(link)
    judge(sx, o, link, [r for r in rows if r['id'] == b],
          'ps' if link == 'u' else 'us')
    sx.check(sx.Iff(link in o.modified_fields, a != b) and
             set(o.modified_fields) <= {link}, 'the change stays recorded')
    sx.check(sx.Iff(o.is_modified, a != b), 'and is_modified')
    o.reset()
    sx.check(sx.same(keys_of(o), [a] if link == 'u' else [[a]]),
             'reset restores the stored key')


@H(configs=[(r, m) for r in (False, True) for m in (False, True)])
def complete(sx, cfg):
    """Only a partial object is completed, and that modifies nothing."""
    reset, change = cfg
    K = klass({'a': types.int, 'b': types.int, 'l': types.listof(int)},
              conf={'reset_all_fields': reset})
    calls = []

    def fetch(self):
        calls.append(self)
        self.update(b=v, l=[v])
    K._orm_complete = fetch
    v, w = sx.int('v', -3, 3), sx.int('w', -3, 3)
    o = persisted(K(a=1))
    partial = sx.bool('partial')
    o._is_partial = partial
    if partial:
        o._partial_picks = ['a']
    if change:
        o.a = w
    before = (o.is_modified, o.modified_fields, dict(o.previous_values))
    sx.check(o.complete() is o, 'complete returns the object')
    sx.check(len(calls) == (1 if partial else 0), 'exactly partial objects '
             'are completed')
    sx.check(sx.same((o.is_modified, o.modified_fields,
                      dict(o.previous_values)), before), 'completing '
             'modifies nothing')
    sx.check(sx.same((o.b, plain(o.l)), (v, [v]) if partial else
                     (None, None)), 'what is missing is there')
    if partial:
        o.l.append(1)
        sx.check('l' in o.modified_fields, 'later changes are recorded')
        if reset:
            o.reset()
            sx.check(sx.same((o.a, o.b, plain(o.l)), (1, v, [v])),
                     'reset goes back to what is stored')


@H(configs=['loaded', 'unloaded', 'none'])
def chain(sx, how):
    """fobj is the linked object, fetched if it is not loaded."""
    g = graph()
    log = []
    seen = []

    def note(x):
        seen.append(x)
        return None if x is None else x.n
    P = klass({'id': types.int.primary, 'u': types.objof('C25W').linkto,
               'v': types.int.getter(
                   types.this.fobj('u').transform(note))}, 'C25Q', g=g)
    U = klass({'id': types.int.primary, 'n': types.int,
               'ps': types.listof('C25Q').linkedby('u')}, 'C25W', g=g)
    rows = [{'id': i, 'n': i * 10} for i in (1, 2, 3)]
    k = sx.int('k', 1, 3)
    store(U, rows if how == 'unloaded' else [], log)
    o = P(id=1)
    if how == 'loaded':
        o.u = U(id=k, n=7)
    elif how == 'unloaded':
        o.u_id = k
    persisted(o)
    want = {'loaded': 7, 'unloaded': k * 10, 'none': None}[how]
    sx.check(sx.same(o.v, want), 'the value is the one of the linked object')
    sx.check(o.modified_fields == () and not o.is_modified, 'nothing is '
             'modified by fetching')
    if how == 'unloaded':
        sx.check(sx.same(o.v, want) and len(log) == 1, 'it is fetched once')
        sx.check(o.u is seen[0], 'and then loaded')


@H(configs=['same', 'other'])
def cross(sx, keys):
    """crossfetch finds the object with the value of this one."""
    g = graph()
    log = []
    fk = 'code' if keys == 'same' else 'n'
    args = ('C25Y', 'code') if keys == 'same' else ('C25Y', 'code', 'n')
    found = []

    def note(x):
        found.append(x)
        return x.id
    P = klass({'id': types.int.primary, 'code': types.int,
               'r': types.int.validate(types.crossfetch(*args)
                                       .validate(lambda y: note(y) == 2)
                                       )}, 'C25X', g=g)
    U = klass({'id': types.int.primary, 'code': types.int, 'n': types.int},
              'C25Y', g=g)
    rows = [{'id': i, fk: sx.int(f'c{i}', 0, 2)} for i in (1, 2)]
    store(U, rows, log)
    o = P(id=9, code=sx.int('code', 0, 2), r=1)
    e = vexc(lambda: o.validate())
    hit = [r['id'] for r in rows if matches(r, {fk: o.code})][:1]
    sx.check((e is None) == (hit == [2]), 'valid exactly if the object found '
             'satisfies the rule')
    if hit:
        sx.check(len(found) == 1 and found[0].id == hit[0], 'the object with '
                 'that value is found')
    else:
        sx.check(e is not None and list(e.keypath_messages) == ['r'],
                 'no such object is an error of the field')
