"""C12: tracked lists and dicts behave like plain ones and report changes."""
from symx.sx import Registry
from jsonclasses import types, jsonclass

H = Registry()

BOUNDS = {
    'list length': '0..3 (thorough 0..4)', 'elements': 'ints in -3..3',
    'indices / slice bounds': '-5..5 or absent', 'slice steps':
    'absent, 1, 2, -1, -2', 'dict size': '0..2', 'dict keys':
    "strings over 'ab' of length 0..1 (plus fixed keys)",
    'nesting': 'one list/dict inside a list/dict',
    'operations per run': '1 (2 in the sequence harness)'}
ASSUMPTIONS = ['CPython list/dict are the oracle',
               'the owner is a persisted object (not new, unmodified)']


@jsonclass(class_graph='c12')
class Box:
    l: list[int] = types.listof(int)
    d: dict[str, int] = types.dictof(int)
    ll: list[list[int]] = types.listof(types.listof(int))
    ld: list[dict[str, int]] = types.listof(types.dictof(int))
    dl: dict[str, list[int]] = types.dictof(types.listof(int))
    dd: dict[str, dict[str, int]] = types.dictof(types.dictof(int))


@jsonclass(class_graph='c12')
class AnyBox:
    l: list = types.listof(types.any)
    d: dict = types.dictof(types.any)


def persisted(obj):
    obj._mark_unmodified()
    return obj


def roots(obj):
    return {f.split('.')[0] for f in obj.modified_fields}


def both(sx, real, model, op):
    """Apply op to both; return (exc, result) of each, and compare them."""
    def run(x):
        try:
            return None, op(x)
        except (IndexError, ValueError, TypeError, KeyError) as e:
            return type(e), None
    me, mr = run(model)
    re_, rr = run(real)
    sx.check(me is re_, f'same exception as a plain container '
                        f'({me and me.__name__} vs {re_ and re_.__name__})')
    return me, mr, rr


def slice_of(sx, small):
    if small:
        return slice(sx.int('start', -3, 3), sx.int('stop', -3, 3))

    def b(n):
        return sx.int(n, -5, 5) if sx.bool(n + '?') else None
    return slice(b('start'), b('stop'), sx.pick('step', [None, 1, 2, -1, -2]))


LIST_OPS = ['append', 'extend', 'extend_tuple', 'extend_gen', 'extend_self',
            'insert', 'remove', 'sort', 'sort_rev', 'sort_key', 'clear',
            'pop', 'pop_i', 'reverse', 'add', 'iadd', 'iadd_gen',
            'iadd_self', 'imul', 'setitem', 'setslice', 'setslice_gen',
            'delitem', 'delslice', 'read']


def list_op(sx, name, small=False):
    """An operation (a function of the container) with symbolic arguments."""
    v = sx.int('v', -3, 3)
    w = sx.int('w', -3, 3)
    i = sx.int('i', -5, 5)
    if name == 'append':
        return lambda x: x.append(v)
    if name == 'extend':
        vs = [v, w][:sx.choice('n', 3)]
        return lambda x: x.extend(list(vs))
    if name == 'extend_tuple':
        return lambda x: x.extend((v, w))
    if name == 'extend_gen':
        return lambda x: x.extend(q for q in [v, w])
    if name == 'extend_self':
        return lambda x: x.extend(x)
    if name == 'insert':
        return lambda x: x.insert(i, v)
    if name == 'remove':
        return lambda x: x.remove(v)
    if name == 'sort':
        return lambda x: x.sort()
    if name == 'sort_rev':
        return lambda x: x.sort(reverse=True)
    if name == 'sort_key':
        return lambda x: x.sort(key=lambda e: -e)
    if name == 'clear':
        return lambda x: x.clear()
    if name == 'pop':
        return lambda x: x.pop()
    if name == 'pop_i':
        return lambda x: x.pop(i)
    if name == 'reverse':
        return lambda x: x.reverse()
    if name == 'add':
        return lambda x: x + [v]
    if name == 'iadd':
        def f(x):
            x += [v, w]
            return x
        return f
    if name == 'iadd_gen':
        def f(x):
            x += (q for q in [v, w])
            return x
        return f
    if name == 'iadd_self':
        def f(x):
            x += x
            return x
        return f
    if name == 'imul':
        n = sx.int('n', -1, 3)

        def f(x):
            x *= n
            return x
        return f
    if name == 'setitem':
        def f(x):
            x[i] = v
        return f
    if name in ('setslice', 'setslice_gen'):
        s = slice_of(sx, small)
        vs = [v, w][:sx.choice('n', 3)]

        def f(x):
            x[s] = list(vs) if name == 'setslice' else (q for q in vs)
        return f
    if name == 'delitem':
        def f(x):
            del x[i]
        return f
    if name == 'delslice':
        s = slice_of(sx, small)

        def f(x):
            del x[s]
        return f
    if name == 'read':
        k = sx.pick('read', ['len', 'get', 'slice', 'in', 'index', 'count',
                             'iter', 'eq', 'copy', 'rev'])
        s = slice(i, None) if k == 'slice' else None
        return {
            'len': lambda x: len(x), 'get': lambda x: x[i],
            'slice': lambda x: list(x[s]), 'in': lambda x: v in x,
            'index': lambda x: x.index(v), 'count': lambda x: x.count(v),
            'iter': lambda x: [q for q in x], 'eq': lambda x: x == [v, w],
            'copy': lambda x: list(x.copy()),
            'rev': lambda x: list(reversed(x))}[k]
    raise ValueError(name)


def list_init(sx, n):
    return [sx.int(f'e{q}', -3, 3) for q in range(n)]


LENS = [0, 1, 2, 3]


@H(configs=[(o, n) for o in LIST_OPS for n in LENS],
   thorough=[(o, n) for o in LIST_OPS for n in (0, 1, 2, 3, 4)],
   reach=('changed', 'unchanged', 'raised'))
def list_ops(sx, cfg):
    op, n = cfg
    init = list_init(sx, n)
    box = persisted(Box(l=list(init)))
    model = list(init)
    f = list_op(sx, op)
    exc, mr, rr = both(sx, box.l, model, f)
    if exc is not None:
        sx.reach('raised')
    sx.check(sx.same(list(box.l), model), f'{op}: contents as a plain list')
    if mr is not model:
        sx.check(sx.same(mr, rr), f'{op}: result as a plain list')
    else:
        sx.check(rr is box.l, f'{op}: in-place operation returns the list')
    changed = sx.Not(sx.same(model, init))
    if box.is_modified:
        sx.reach('changed')
        sx.check(roots(box) == {'l'}, f'{op}: only the list field is reported')
    else:
        sx.reach('unchanged')
        sx.check(sx.Not(changed), f'{op}: a changed list is reported')
    sx.check(box.is_modified == (len(box.modified_fields) > 0),
             f'{op}: modified flag and field set agree')
    if op == 'read' or op == 'add':
        sx.check(not box.is_modified, 'reading does not mark as modified')


@H(configs=[(o, n) for o in LIST_OPS for n in (1, 2)])
def list_ops_new(sx, cfg):
    """A new object never reports modifications but mutates all the same."""
    op, n = cfg
    init = list_init(sx, n)
    box = Box(l=list(init))
    model = list(init)
    both(sx, box.l, model, list_op(sx, op))
    sx.check(sx.same(list(box.l), model), f'{op}: contents as a plain list')
    sx.check(not box.is_modified and box.modified_fields == (),
             f'{op}: a new object has no modified fields')


DICT_OPS = ['set', 'del', 'pop', 'pop_default', 'popitem', 'setdefault',
            'setdefault1', 'update', 'update_pairs', 'update_iter',
            'update_kw', 'update_both', 'ior', 'ior_pairs', 'ior_iter',
            'clear', 'read', 'or']


def key(sx, name):
    return sx.str(name, 1, 'ab')


def dict_op(sx, name):
    k = key(sx, 'k')
    if name in ('update', 'update_pairs', 'update_iter', 'ior', 'ior_pairs',
                'ior_iter'):
        k2 = key(sx, 'k2')
    v = sx.int('v', -3, 3)
    w = sx.int('w', -3, 3)
    if name == 'set':
        def f(x):
            x[k] = v
        return f
    if name == 'del':
        def f(x):
            del x[k]
        return f
    if name == 'pop':
        return lambda x: x.pop(k)
    if name == 'pop_default':
        return lambda x: x.pop(k, w)
    if name == 'popitem':
        return lambda x: x.popitem()
    if name == 'setdefault':
        return lambda x: x.setdefault(k, v)
    if name == 'setdefault1':
        return lambda x: x.setdefault(k)
    if name == 'update':
        return lambda x: x.update({k: v, k2: w})
    if name == 'update_pairs':
        return lambda x: x.update([(k, v), (k2, w)])
    if name == 'update_iter':
        return lambda x: x.update(iter([(k, v), (k2, w)]))
    if name == 'update_kw':
        return lambda x: x.update(a=v, c=w)
    if name == 'update_both':
        return lambda x: x.update({k: v}, a=w)
    if name == 'ior':
        def f(x):
            x |= {k: v, k2: w}
            return x
        return f
    if name == 'ior_pairs':
        def f(x):
            x |= [(k, v), (k2, w)]
            return x
        return f
    if name == 'ior_iter':
        def f(x):
            x |= iter([(k, v), (k2, w)])
            return x
        return f
    if name == 'clear':
        return lambda x: x.clear()
    if name == 'or':
        return lambda x: x | {'z': v}
    if name == 'read':
        q = sx.pick('read', ['len', 'get', 'getd', 'getitem', 'in', 'keys',
                             'values', 'items', 'eq', 'copy'])
        return {
            'len': lambda x: len(x), 'get': lambda x: x.get(k),
            'getd': lambda x: x.get(k, w), 'getitem': lambda x: x[k],
            'in': lambda x: k in x, 'keys': lambda x: list(x.keys()),
            'values': lambda x: list(x.values()),
            'items': lambda x: list(x.items()), 'eq': lambda x: x == {'a': v},
            'copy': lambda x: dict(x.copy())}[q]
    raise ValueError(name)


@H(configs=[(o, n) for o in DICT_OPS for n in (0, 1, 2)],
   reach=('changed', 'unchanged', 'raised'))
def dict_ops(sx, cfg):
    op, n = cfg
    init = {}
    if n >= 1:
        init[sx.str('k0', 1, 'ab', minlen=1)] = sx.int('v0', -3, 3)
    if n >= 2:
        init['c'] = sx.int('v1', -3, 3)
    box = persisted(Box(d=dict(init)))
    model = dict(init)
    exc, mr, rr = both(sx, box.d, model, dict_op(sx, op))
    if exc is not None:
        sx.reach('raised')
    sx.check(sx.same(list(box.d.items()), list(model.items())),
             f'{op}: contents and order as a plain dict')
    if mr is not model:
        sx.check(sx.same(mr, rr), f'{op}: result as a plain dict')
    else:
        sx.check(rr is box.d, f'{op}: in-place operation returns the dict')
    if box.is_modified:
        sx.reach('changed')
        sx.check(roots(box) == {'d'}, f'{op}: only the dict field is reported')
    else:
        sx.reach('unchanged')
        sx.check(sx.same(dict(model), dict(init)),
                 f'{op}: a changed dict is reported')
    sx.check(box.is_modified == (len(box.modified_fields) > 0),
             f'{op}: modified flag and field set agree')
    if op in ('read', 'or'):
        sx.check(not box.is_modified, 'reading does not mark as modified')


@H(configs=[(o, n) for o in DICT_OPS for n in (1,)])
def dict_ops_new(sx, cfg):
    op, n = cfg
    init = {sx.str('k0', 1, 'ab', minlen=1): sx.int('v0', -3, 3)}
    box = Box(d=dict(init))
    model = dict(init)
    both(sx, box.d, model, dict_op(sx, op))
    sx.check(sx.same(list(box.d.items()), list(model.items())),
             f'{op}: contents as a plain dict')
    sx.check(not box.is_modified and box.modified_fields == (),
             f'{op}: a new object has no modified fields')


# -- nested containers: whatever enters a tracked container becomes tracked

def nested_value(sx, kind):
    x = sx.int('x', -3, 3)
    return [x] if kind == 'list' else {'x': x}


def mutate(sx, c):
    """Change a nested container (it holds at least one element)."""
    y = sx.int('y', 4, 6)
    if isinstance(c, list):
        m = sx.pick('mut', ['append', 'set', 'pop', 'clear', 'extend'])
        {'append': lambda: c.append(y),
         'set': lambda: c.__setitem__(0, y),
         'pop': lambda: c.pop(),
         'clear': lambda: c.clear(),
         'extend': lambda: c.extend([y])}[m]()
    else:
        m = sx.pick('mut', ['set', 'add', 'pop', 'clear', 'update'])
        {'set': lambda: c.__setitem__('x', y),
         'add': lambda: c.__setitem__('q', y),
         'pop': lambda: c.pop('x'),
         'clear': lambda: c.clear(),
         'update': lambda: c.update({'x': y})}[m]()


INTO_LIST = ['assign', 'init', 'append', 'extend', 'insert', 'iadd',
             'setitem', 'setslice', 'imul', 'extslice', 'negslice']


@H(configs=[(how, kind, n) for how in INTO_LIST for kind in ('list', 'dict')
            for n in (1, 2)], reach=('mutated',))
def nested_in_list(sx, cfg):
    how, kind, n = cfg
    fname = 'll' if kind == 'list' else 'ld'
    seed = [[0] if kind == 'list' else {'x': 0} for _ in range(n)]
    new = nested_value(sx, kind)
    i = sx.int('i', -3, 3)
    if how == 'init':
        box = persisted(Box(**{fname: seed + [new]}))
        lst = getattr(box, fname)
        expect = seed + [new]
    else:
        box = persisted(Box(**{fname: list(seed)}))
        lst = getattr(box, fname)
        expect = list(seed)
        if how == 'assign':
            expect = seed + [new]
            setattr(box, fname, list(expect))
            lst = getattr(box, fname)
        else:
            def op(x):
                if how == 'append':
                    x.append(new)
                elif how == 'extend':
                    x.extend([new])
                elif how == 'insert':
                    x.insert(i, new)
                elif how == 'iadd':
                    x += [new]
                elif how == 'setitem':
                    x[i] = new
                elif how == 'setslice':
                    x[i:i] = [new]
                elif how == 'imul':
                    x *= 2
                elif how == 'extslice':
                    x[::2] = [new] * len(x[::2])
                elif how == 'negslice':
                    x[::-1] = [new] * len(x)
            exc, _, _ = both(sx, lst, expect, op)
            if exc is None:
                sx.check(box.is_modified and roots(box) == {fname},
                         f'{how}: adding is reported')
    sx.check(sx.same(lst, expect), f'{how}: contents equal the plain list')
    box._mark_unmodified()
    sx.check(not box.is_modified, 'clean before the nested change')
    at = sx.choice('at', len(lst))
    target = lst[at]
    before = [list(q) if kind == 'list' else dict(q) for q in lst]
    mutate(sx, target)
    sx.reach('mutated')
    now = [list(q) if kind == 'list' else dict(q) for q in lst]
    sx.check(sx.Implies(sx.Not(sx.same(before, now)), box.is_modified),
             f'{how}: a change inside the nested container is reported')
    if box.is_modified:
        sx.check(roots(box) == {fname}, f'{how}: reported under its field')


INTO_DICT = ['assign', 'init', 'setitem', 'update', 'update_pairs',
             'update_kw', 'setdefault', 'ior']


@H(configs=[(how, kind) for how in INTO_DICT for kind in ('list', 'dict')],
   reach=('mutated',))
def nested_in_dict(sx, cfg):
    how, kind = cfg
    fname = 'dl' if kind == 'list' else 'dd'
    seed = {'a': [0] if kind == 'list' else {'x': 0}}
    new = nested_value(sx, kind)
    k = sx.str('k', 1, 'ab', minlen=1)
    if how == 'update_kw':
        k = 'b'
    if how == 'init':
        box = persisted(Box(**{fname: {**seed, k: new}}))
        expect = {**seed, k: new}
    else:
        box = persisted(Box(**{fname: dict(seed)}))
        expect = dict(seed)
        if how == 'assign':
            expect[k] = new
            setattr(box, fname, dict(expect))
        else:
            def op(x):
                if how == 'setitem':
                    x[k] = new
                elif how == 'update':
                    x.update({k: new})
                elif how == 'update_pairs':
                    x.update([(k, new)])
                elif how == 'update_kw':
                    x.update(b=new)
                elif how == 'setdefault':
                    x.setdefault(k, new)
                elif how == 'ior':
                    x |= {k: new}
            both(sx, getattr(box, fname), expect, op)
    dct = getattr(box, fname)
    sx.check(sx.same(dct, expect), f'{how}: contents equal the plain dict')
    box._mark_unmodified()
    keys = list(dct)
    target = dct[keys[sx.choice('at', len(keys))]]
    before = [list(q) if kind == 'list' else dict(q) for q in dct.values()]
    mutate(sx, target)
    sx.reach('mutated')
    now = [list(q) if kind == 'list' else dict(q) for q in dct.values()]
    sx.check(sx.Implies(sx.Not(sx.same(before, now)), box.is_modified),
             f'{how}: a change inside the nested container is reported')
    if box.is_modified:
        sx.check(roots(box) == {fname}, f'{how}: reported under its field')


SEQ = ['append', 'insert', 'remove', 'pop_i', 'setitem', 'delitem',
       'setslice', 'delslice', 'reverse', 'iadd']


@H(configs=[(a, b) for a in ('insert', 'setitem', 'delslice') for b in SEQ],
   thorough=[(a, b) for a in SEQ for b in SEQ])
def list_sequences(sx, cfg):
    """Two operations in a row on the same list."""
    a, b = cfg
    init = list_init(sx, 2)
    box = persisted(Box(l=list(init)))
    model = list(init)
    small = True
    both(sx, box.l, model, list_op(sx, a, small))
    both(sx, box.l, model, list_op(sx, b, small))
    sx.check(sx.same(list(box.l), model), f'{a};{b}: contents')
    if not box.is_modified:
        sx.check(sx.same(model, init), f'{a};{b}: a change is reported')
