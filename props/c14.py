"""C14: both sides of a link, and the reference keys, always agree."""
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted

H = Registry()
BOUNDS = {
    'relations': 'one to one, one to many, local key list to object, local '
                 'key list to list, many to many through a join table',
    'objects': '2 on each side, new or persisted, with equal or different '
               'contents',
    'history': 'every sequence of 2 (thorough: 3) link operations, the later '
               'ones from a smaller set: assignment '
               'of an object, null or list, append, insert, extend, remove, '
               'pop, del, clear, item and slice assignment, reference key '
               'assignment',
    'positions': 'a list of 3 linked objects with symbolic keys, symbolic '
                 'positions and slice bounds in -5..5',
    'values': 'reference key values symbolic'}
ASSUMPTIONS = ['Linked objects of one class have different primary keys.',
               'Under reference key lists, a list holds an object once.']


def world(sx, rel, ids=True, contents=True):
    g = graph()
    k = {'id': types.int.primary, 'n': types.int}
    if rel == '11':
        A = klass({**k, 'b': types.objof('C14B').linkedby('a')}, 'C14A', g=g)
        B = klass({**k, 'a': types.objof('C14A').linkto}, 'C14B', g=g)
    elif rel == '1n':
        A = klass({**k, 'b': types.listof('C14B').linkedby('a')}, 'C14A', g=g)
        B = klass({**k, 'a': types.objof('C14A').linkto}, 'C14B', g=g)
    elif rel == 'k1':
        A = klass({**k, 'b': types.listof('C14B').linkto}, 'C14A', g=g)
        B = klass({**k, 'a': types.objof('C14A').linkedby('b')}, 'C14B', g=g)
    elif rel == 'kn':
        A = klass({**k, 'b': types.listof('C14B').linkto}, 'C14A', g=g)
        B = klass({**k, 'a': types.listof('C14A').linkedby('b')}, 'C14B', g=g)
    else:
        A = klass({**k, 'b': types.listof('C14B').linkedthru('a')}, 'C14A',
                  g=g)
        B = klass({**k, 'a': types.listof('C14A').linkedthru('b')}, 'C14B',
                  g=g)
    ids = [1, 2, 1, 2] if ids else [None] * 4
    ns = [sx.int(f'n{i}', 0, 1) if contents else 0 for i in range(4)]
    return [A(id=ids[0], n=ns[0]), A(id=ids[1], n=ns[1]),
            B(id=ids[2], n=ns[2]), B(id=ids[3], n=ns[3])]


def has(v, obj):
    if isinstance(v, list):
        return sum(1 for x in v if x is obj)
    return 1 if v is obj else 0


def judge(sx, rel, objs):
    As, Bs = objs[:2], objs[2:]
    for a in As:
        for b in Bs:
            x, y = has(a.b, b), has(b.a, a)
            sx.check(x <= 1 and y <= 1, 'an object is linked once')
            sx.check(x == y, 'both sides of a link agree')
            if x:
                sx.check(has(a.unlinked_objects.get('b') or [], b) == 0 and
                         has(b.unlinked_objects.get('a') or [], a) == 0,
                         'a linked object is not listed as unlinked')
    if rel in ('11', '1n'):
        for b in Bs:
            if b.a is not None:
                sx.check(b.a_id == b.a.id, 'the reference key is the key of '
                         'the linked object')
    if rel in ('k1', 'kn'):
        for a in As:
            if a.b is not None:
                sx.check(list(a.b_ids) == [b.id for b in a.b], 'the reference '
                         'keys are the keys of the linked objects')


LISTOPS = ['assign', 'assign2', 'assign0', 'null', 'append', 'insert',
           'extend', 'remove', 'pop', 'pop0', 'del', 'clear', 'item', 'slice',
           'iadd', 'reverse', 'sort']
OBJOPS = ['obj', 'objnull']


def do(side, target, other, second, op):
    """One operation on the link attribute of target."""
    f = side
    v = getattr(target, f)
    if op == 'obj':
        setattr(target, f, other)
    elif op == 'objnull' or op == 'null':
        setattr(target, f, None)
    elif op == 'assign':
        setattr(target, f, [other])
    elif op == 'assign2':
        setattr(target, f, [second, other])
    elif op == 'assign0':
        setattr(target, f, [])
    elif op == 'clear':
        if v is not None:
            v.clear()
    elif op == 'reverse':
        if v is not None:
            v.reverse()
    elif op == 'sort':
        if v is not None:
            v.sort(key=lambda x: -(x.id or 0))
    elif op == 'pop':
        if v:
            v.pop()
    elif op == 'pop0':
        if v:
            v.pop(0)
    elif op == 'del':
        if v:
            del v[-1]
    elif op == 'remove':
        if v is not None and has(v, other):
            v.remove(other)
    elif v is None or has(v, other):
        return
    elif op == 'append':
        v.append(other)
    elif op == 'insert':
        v.insert(0, other)
    elif op == 'extend':
        v.extend([other])
    elif op == 'iadd':
        v += [other]
    elif op == 'item':
        if v:
            v[0] = other
    elif op == 'slice':
        v[0:1] = [other]


def ops_of(rel, side):
    is_list = {'11': '', '1n': 'b', 'k1': 'b', 'kn': 'ab', 'nn': 'ab'}[rel]
    return LISTOPS if side in is_list else OBJOPS


def step(sx, rel, objs, side, op, i):
    As, Bs = objs[:2], objs[2:]
    mine, others = (As, Bs) if side == 'b' else (Bs, As)
    t = sx.choice(f'target{i}', 2)
    o = sx.choice(f'other{i}', 2)
    do(side, mine[t], others[o], others[1 - o], op)
    if op in ('obj', 'assign', 'append', 'insert', 'extend', 'iadd') and \
            getattr(mine[t], side) is not None:
        sx.check(has(getattr(mine[t], side), others[o]) == 1,
                 'the linked object is there')
    if op in ('objnull', 'null', 'assign0', 'clear'):
        sx.check(not getattr(mine[t], side), 'the link is gone')
    if op == 'assign2':
        sx.check([id(x) for x in getattr(mine[t], side)] ==
                 [id(others[1 - o]), id(others[o])], 'a list assigned keeps '
                 'its order')


RELS = ['11', '1n', 'k1', 'kn', 'nn']
FEW = ['assign', 'assign2', 'null', 'append', 'insert', 'remove', 'pop', 'item', 'slice',
       'reverse', 'obj', 'objnull']
STEPS = {r: [(s, op) for s in 'ab' for op in ops_of(r, s)] for r in RELS}
SECOND = {r: [x for x in STEPS[r] if x[1] in FEW] for r in RELS}
SEQS = [(r, x) for r in RELS for x in STEPS[r]]


def run(sx, rel, first, n, ids, stored):
    objs = world(sx, rel, ids)
    if stored:
        for x in objs:
            persisted(x)
    if rel not in ('11', '1n'):
        for a in objs[:2]:
            if a.b is None:
                a.b = []
    step(sx, rel, objs, *first, 0)
    judge(sx, rel, objs)
    for i in range(1, n):
        side, op = sx.pick(f'op{i}', SECOND[rel])
        step(sx, rel, objs, side, op, i)
        judge(sx, rel, objs)
    return objs


@H(configs=[(r, x, True) for r, x in SEQS],
   thorough=[(r, x, st) for r, x in SEQS for st in (False, True)])
def sequence(sx, cfg):
    rel, first, stored = cfg
    # start from a linked state, then two (three) operations
    objs = world(sx, rel)
    if stored:
        for x in objs:
            persisted(x)
    a1, a2, b1, b2 = objs
    if rel == '11':
        a1.b = b1
    else:
        a1.b = [b1, b2]
        if a2.b is None:
            a2.b = []
    judge(sx, rel, objs)
    step(sx, rel, objs, *first, 0)
    judge(sx, rel, objs)
    for i in range(1, 3 if sx.tier == 'thorough' else 2):
        side, op = sx.pick(f'op{i}', SECOND[rel])
        step(sx, rel, objs, side, op, i)
        judge(sx, rel, objs)


@H(configs=[(r, x) for r, x in SEQS if r in ('11', '1n', 'nn')])
def without_ids(sx, cfg):
    """Objects without primary key values link as well."""
    rel, first = cfg
    run(sx, rel, first, 2, False, False)


@H(configs=['11', '1n'])
def by_key(sx, rel):
    """Assigning a reference key drops a linked object with another key."""
    objs = world(sx, rel)
    a1, a2, b1, b2 = objs
    b1.a = a1
    if rel == '1n':
        b2.a = a1
    if sx.bool('stored'):
        for x in objs:
            persisted(x)
    k = sx.int('k', 0, 3) if sx.bool('some') else None
    b1.a_id = k
    sx.check(sx.eq(b1.a_id, k), 'the reference key is the assigned one')
    if b1.a is not None:
        sx.check(sx.eq(b1.a.id, k), 'the linked object has the reference key')
    judge(sx, rel, objs)
    b1.a = a2
    sx.check(b1.a_id == 2 and b1.a is a2, 'linking again sets the key')
    judge(sx, rel, objs)


@H(configs=['k1', 'kn'])
def by_keys(sx, rel):
    """Assigning or changing a list of reference keys."""
    objs = world(sx, rel)
    a1, a2, b1, b2 = objs
    a1.b = [b1, b2]
    a2.b = []
    if sx.bool('stored'):
        for x in objs:
            persisted(x)
    how = sx.pick('how', ['assign', 'remove', 'append', 'null', 'pop', 'item',
                          'reverse', 'sort', 'slice', 'del'])
    ks = []
    if how == 'assign':
        ks = [sx.int('k0', 0, 3), 5][:sx.pick('n', [0, 1, 2])]
        a1.b_ids = list(ks)
    elif how == 'remove':
        a1.b_ids.remove(2)
        ks = [1]
    elif how == 'pop':
        a1.b_ids.pop(0)
        ks = [2]
    elif how == 'append':
        a1.b_ids.append(7)
        ks = [1, 2, 7]
    elif how == 'item':
        ks = [sx.int('k0', 3, 5), 2]
        a1.b_ids[0] = ks[0]
    elif how == 'slice':
        ks = [sx.int('k0', 3, 5), sx.int('k1', 3, 5), 2]
        a1.b_ids[0:1] = ks[:2]
    elif how == 'reverse':
        a1.b_ids.reverse()
        ks = [2, 1]
    elif how == 'sort':
        a1.b_ids.sort(key=lambda k: -k)
        ks = [2, 1]
    elif how == 'del':
        del a1.b_ids[-1]
        ks = [1]
    else:
        a1.b_ids = None
    sx.check(sx.eq(list(a1.b_ids), ks), 'the reference keys are the assigned '
             'ones')
    if how in ('reverse', 'sort'):
        sx.check([b.id for b in a1.b] == ks, 'the linked objects follow the '
                 'order of their keys')
    for b in a1.b or []:
        sx.check(sx.Or(*[sx.eq(b.id, k) for k in ks]), 'a linked object has '
                 'one of the reference keys')
    for b in (b1, b2):
        if not has(a1.b, b):
            sx.check(sx.Not(sx.Or(*[sx.eq(b.id, k) for k in ks])),
                     'an object with a reference key stays linked')
        sx.check(has(b.a, a1) == has(a1.b, b), 'both sides agree')
    if not a1.is_new:
        c = sx.Or(how != 'assign', len(ks) != 2)
        sx.check(sx.Implies(c, 'b' in a1.modified_fields),
                 'a changed list of reference keys is reported')
        n = len(a1.modified_fields)
        persisted(a1)
        a1.b_ids.append(9)
        sx.check(a1.modified_fields == ('b',), 'a list of reference keys '
                 'stays tracked')


POSITIONAL = ['insert', 'pop', 'del', 'item', 'delslice', 'setslice', 'step',
              'reverse', 'sort', 'extend']


@H(configs=[(r, op) for r in ('1n', 'k1', 'kn', 'nn') for op in POSITIONAL])
def positions(sx, cfg):
    """Any position of a list of three; keys symbolic."""
    rel, op = cfg
    a, _, b, _ = world(sx, rel, contents=False)
    A, B = type(a), type(b)
    ids = [sx.int(f'id{i}', 10, 59) for i in range(5)]
    for i in range(5):
        for j in range(i):
            sx.assume(ids[i] != ids[j])
    bs = [B(id=k) for k in ids]
    a.b = bs[:3]
    if sx.bool('stored'):
        for x in [a, *bs]:
            persisted(x)
    plain = bs[:3]
    i, j = sx.int('i', -5, 5), sx.int('j', -5, 5)
    for v in (a.b, plain):
        if op == 'insert':
            v.insert(i, bs[3])
        elif op == 'pop':
            sx.assume(sx.And(i >= -3, i < 3))
            v.pop(i)
        elif op == 'del':
            sx.assume(sx.And(i >= -3, i < 3))
            del v[i]
        elif op == 'item':
            sx.assume(sx.And(i >= -3, i < 3))
            v[i] = bs[4]
        elif op == 'delslice':
            del v[i:j]
        elif op == 'setslice':
            v[i:j] = [bs[4], bs[3]]
        elif op == 'step':
            v[::2] = [bs[4], bs[3]]
        elif op == 'reverse':
            v.reverse()
        elif op == 'sort':
            v.sort(key=lambda x: x.id)
        else:
            v += [bs[4], bs[3]]
    sx.check([id(x) for x in a.b] == [id(x) for x in plain], 'a list of '
             'linked objects is the list a plain list would be')
    if rel[0] == 'k':
        sx.check(len(a.b_ids) == len(plain) and sx.all_eq(
            list(a.b_ids), [x.id for x in plain]), 'the reference keys are '
            'the keys in order')
    for b in bs:
        sx.check(has(b.a, a) == has(plain, b), 'both sides agree')
        if rel == '1n':
            sx.check(sx.Iff(has(plain, b) == 1, b.a_id == a.id)
                     if has(plain, b) else b.a is None, 'the reference key is '
                     'that of the object')


@H(configs=[(r, w) for r in RELS for w in ('init', 'set')])
def by_input(sx, cfg):
    """Links made from nested input agree on both sides."""
    rel, how = cfg
    a1, a2, b1, b2 = world(sx, rel)
    A, B = type(a1), type(b1)
    n = sx.int('n', 0, 3)
    many = rel != '11'
    data = {'b': [{'id': 5, 'n': n}, {'id': 6}] if many
            else {'id': 5, 'n': n}}
    if how == 'init':
        a = A(id=9, **data)
    else:
        a = a1
        if sx.bool('had'):
            a.b = [b1] if many else b1
        a.set(**data)
    got = list(a.b) if many else [a.b]
    sx.check([b.id for b in got] == ([5, 6] if many else [5]) and
             all(isinstance(b, B) for b in got), 'input creates the linked '
             'objects')
    sx.check(sx.eq(got[0].n, n), 'with their values')
    judge(sx, rel, [a, a2, *(got + [b1])[:2]])
    if how == 'set' and has(b1.a, a):
        sx.check(has(a.b, b1) == 1, 'a replaced object is unlinked')


@H(configs=['1n', 'nn', '11'])
def unlinked(sx, rel):
    """Unlinked objects are remembered on both sides until linked again."""
    objs = world(sx, rel)
    a1, a2, b1, b2 = objs
    if rel == '11':
        a1.b = b1
    else:
        a1.b = [b1, b2]
    for x in objs:
        persisted(x)
    how = sx.pick('how', ['this', 'that', 'replace'])
    if how == 'this':
        if rel == '11':
            a1.b = None
        else:
            a1.b.remove(b1)
    elif how == 'that':
        if rel == 'nn':
            b1.a.remove(a1)
        else:
            b1.a = None
    elif rel == '11':
        a1.b = b2
    else:
        a1.b = [b2]
    sx.check(has(a1.unlinked_objects.get('b') or [], b1) == 1,
             'an unlinked object is remembered')
    sx.check(has(b1.unlinked_objects.get('a') or [], a1) == 1,
             'an unlinked object is remembered on the other side')
    if sx.bool('again'):
        if rel == '11':
            a1.b = b1
        else:
            a1.b.append(b1)
        judge(sx, rel, objs)


@H(configs=['k1', 'kn'])
def partly_loaded(sx, rel):
    """Keys of objects that are not loaded survive changes to the list."""
    a1, a2, b1, b2 = world(sx, rel)
    ks = [sx.int('k0', 3, 6), 9][:sx.pick('n', [1, 2])]
    a1.b_ids = list(ks)
    if sx.bool('stored'):
        persisted(a1)
    if a1.b is None:
        a1.b = []
        sx.assume(sx.eq(list(a1.b_ids), ks))
    a1.b.append(b1)
    for k in ks:
        sx.check(sx.contains_item(a1.b_ids, k), 'a key that is not loaded '
                 'stays')
    sx.check(sx.contains_item(a1.b_ids, 1), 'the new key is added')
    if sx.bool('more'):
        a1.b.append(b2)
        a1.b.remove(b1)
        for k in ks + [2]:
            sx.check(sx.contains_item(a1.b_ids, k), 'the other keys stay')
        sx.check(sx.Not(sx.contains_item(a1.b_ids, 1)), 'the key of the '
                 'removed object is removed')
