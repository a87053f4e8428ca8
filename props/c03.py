"""C03: strict classes refuse every unknown key; others ignore it."""
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, vexc

H = Registry()
BOUNDS = {
    'keys': 'every string of length 1..4 (thorough 1..6) over the letters of '
            'the declared names plus others, next to 0..1 known keys',
    'strictness': 'class level true/false/default, graph default, field level '
                  'strict',
    'update': '31 names, alone and beside known ones',
    'place': 'root (keys from a list), object field, list, dict, two levels, '
             'linked object'}
ASSUMPTIONS = ['at the root, keys come from a fixed list (Python requires '
               'real strings for keyword arguments)']

KNOWN = {'ab', 'a_b', 'aB', 'tt', 'tt_id', 'ttId', 'us', 'u_ids', 'uIds',
         'id'}


def classes(conf, g=None):
    g = g or graph()
    K = klass({'id': types.int.primary, 'ab': types.int, 'a_b': types.int,
               'tt': types.objof('C03T').linkto,
               'us': types.listof('C03T').linkto}, 'C03K', g=g, conf=conf)
    klass({'id': types.int.primary}, 'C03T', g=g)
    return K, g


def state(k):
    return [k.id, k.ab, k.a_b, k.tt, k.tt_id, list(k.us or []),
            list(k.u_ids)]


def known_key(key, sx):
    return sx.Or(*[sx.eq(key, n) for n in KNOWN])


STRICT = {'true': dict(strict_input=True), 'false': dict(strict_input=False),
          'default': {}}
PLACES = ['o', 'l', 'd', 'oo', 'll', 'link', 'links']


def wrap(place, inner):
    return {'o': ('o', inner), 'l': ('l', [{'ab': 1}, inner]),
            'd': ('d', {'k': inner}), 'oo': ('m', {'o': inner}),
            'll': ('ll', [[inner]]), 'link': ('o', inner),
            'links': ('l', [inner])}[place]


PATHS = {'o': 'o', 'l': 'l.1', 'd': 'd.k', 'oo': 'm.o', 'll': 'll.0.0',
         'link': 'o', 'links': 'l.0'}


def outer(g, place, strict_field=False):
    def mk():
        t = types.objof('C03K')
        return t.strict if strict_field else t
    klass({'o': mk()}, 'C03M', g=g)
    if place in ('link', 'links'):
        f = {'id': types.int.primary, 'o': mk().linkto,
             'l': types.listof(mk()).linkto}
    else:
        f = {'o': mk(), 'l': types.listof(mk()), 'd': types.dictof(mk()),
             'm': types.objof('C03M'), 'll': types.listof(types.listof(mk()))}
    return klass(f, 'C03O', g=g)


def dig(obj, place):
    return {'o': lambda: obj.o, 'l': lambda: obj.l[1],
            'd': lambda: obj.d['k'], 'oo': lambda: obj.m.o,
            'll': lambda: obj.ll[0][0], 'link': lambda: obj.o,
            'links': lambda: obj.l[0]}[place]()


@H(configs=[(s, p, h) for s in STRICT for p in PLACES
            for h in ('init', 'set')],
   reach=('refused', 'known', 'ignored'))
def nested_key(sx, cfg):
    s, place, how = cfg
    K, g = classes(STRICT[s])
    O = outer(g, place)
    key = sx.str('key', 4 if sx.tier == 'quick' else 6, 'abBtTIdus_ie',
                 minlen=1)
    v = sx.int('v', -99, 99)
    # whether the key is a known one is a formula over its characters
    known = known_key(key, sx)
    inner = {key: None} if sx.bool('null') else {key: v}
    if sx.bool('extra'):
        sx.assume(sx.Not(sx.eq(key, 'ab')))
        inner = {'ab': 7, **inner}
    f, val = wrap(place, inner)
    sx.assume(sx.Not(sx.Or(*[sx.eq(key, n) for n in
                             ('us', 'u_ids', 'uIds', 'tt')])))
    if place == 'links':
        # in a list of links, {"_add": key} and {"_del": key} are commands
        sx.assume(sx.Not(sx.Or(sx.eq(key, '_add'), sx.eq(key, '_del'))))
    box = []

    def go():
        if how == 'init':
            box.append(O(**{f: val}))
        else:
            o = O()
            o.set(**{f: val})
            box.append(o)
    e = vexc(go)
    if e is not None:
        sx.reach('refused')
        sx.check(s != 'false', 'only strict classes refuse keys')
        sx.check(sx.Not(known), 'a known key is not refused')
        sx.check(len(e.keypath_messages) == 1 and sx.eq(
            list(e.keypath_messages)[0], PATHS[place] + '.' + key),
            'the error names the key')
    else:
        if s != 'false':
            sx.reach('known')
            sx.check(known, 'a strict class refuses every unknown key')
        else:
            k = dig(box[0], place)
            if not known:
                sx.reach('ignored')
                sx.check(sx.all_eq(state(k), [
                    None, 7 if len(inner) == 2 else None, None, None, None,
                    [], []]), 'an unknown key has no effect')


ROOT_KEYS = sorted(KNOWN) + ['abc', 'AB', 'a_B', 'a-b', 'tt_ids', 'ttIds',
                             'us_ids', 'u_id', 'ID', '_id', 'A_b', 'Ab', 'T',
                             'is_new', '_graph', 'set', 'id_', 'aBC']


@H(configs=[(s, h) for s in STRICT for h in ('init', 'set')],
   reach=('refused', 'taken'))
def root_key(sx, cfg):
    s, how = cfg
    K, g = classes(STRICT[s])
    key = sx.pick('key', ROOT_KEYS)
    v = None if sx.bool('null') else [] if key in ('us', 'u_ids', 'uIds') \
        else None if key == 'tt' else sx.int('v', 1, 99)
    first = sx.bool('first')
    args = {key: v, 'ab': 3} if first and key != 'ab' else \
        {'ab': 3, key: v} if key != 'ab' else {key: v}
    box = []

    def go():
        if how == 'init':
            box.append(K(**args))
        else:
            k = K()
            k.set(**args)
            box.append(k)
    e = vexc(go)
    if e is not None:
        sx.reach('refused')
        sx.check(s != 'false' and key not in KNOWN,
                 'only an unknown key of a strict class is refused')
        sx.check(set(e.keypath_messages) == {key}, 'the error names the key')
    else:
        sx.reach('taken')
        sx.check(s == 'false' or key in KNOWN,
                 'a strict class refuses every unknown key')
        if key not in KNOWN:
            sx.check(sx.all_eq(state(box[0]), [None, 3, None, None, None, [],
                                               []]),
                     'an unknown key has no effect')
            sx.check(box[0].is_new and not callable(box[0].is_new),
                     'attributes of the object are out of reach')


@H(configs=[(s, p, h) for s in ('false',)
            for p in ('o', 'l', 'd', 'll') for h in ('init', 'set')],
   reach=('refused', 'known'))
def field_strict(sx, cfg):
    """A strict field refuses unknown keys of a class that is not strict."""
    s, place, how = cfg
    K, g = classes(STRICT[s])
    O = outer(g, place, strict_field=True)
    key = sx.str('key', 4, 'abBIdus_ie', minlen=1)
    known = known_key(key, sx)
    f, val = wrap(place, {key: None})
    sx.assume(sx.Not(sx.Or(*[sx.eq(key, n) for n in ('us', 'uIds')])))

    def go():
        if how == 'init':
            O(**{f: val})
        else:
            O().set(**{f: val})
    e = vexc(go)
    sx.reach('refused' if e else 'known')
    sx.check(sx.Iff(e is None, known),
             'a strict field accepts exactly the known keys')


@H(configs=[True, False])
def graph_default(sx, strict):
    """The graph's default strictness applies where the class has none."""
    g = graph()
    K, g = classes({}, g=g)
    K.cdef.jconf.cgraph.default_config._strict_input = strict
    key = sx.pick('key', ['ab', 'zz'])
    e = vexc(lambda: K(**{key: 1}))
    sx.check((e is not None) == (strict and key == 'zz'),
             'the graph default decides')


@H(configs=[(s, w) for s in ('true', 'false') for w in ('sub', 'base')])
def subclass(sx, cfg):
    """A subclass accepts the names it inherits and its own."""
    from jsonclasses import jsonclass
    s, w = cfg
    g = graph()
    Base = klass({'ab': types.int}, 'C03B', g=g, conf=dict(
        strict_input=s == 'true'))
    ns = {'__annotations__': {'cd': object}, 'cd': types.int,
          '__module__': __name__}
    Sub = jsonclass(class_graph=g, strict_input=s == 'true')(
        type('C03S', (Base,), ns))
    key = sx.pick('key', ['ab', 'cd', 'ef'])
    v = sx.int('v', -99, 99)
    cls = Sub if w == 'sub' else Base
    names = ('ab', 'cd') if w == 'sub' else ('ab',)
    e = vexc(lambda: cls(**{key: v}))
    sx.check((e is not None) == (s == 'true' and key not in names),
             'inherited names are known')
    if e is None and key in names:
        sx.check(sx.same(getattr(cls(**{key: v}), key), v), 'and taken')


@H(configs=list(STRICT), reach=('refused', 'taken'))
def trusted(sx, s):
    """update() refuses names it does not know and then changes nothing."""
    K, g = classes(STRICT[s])
    key = sx.pick('key', ROOT_KEYS + ['__x', '_ab', 'ab_'])
    v = [] if key in ('us', 'u_ids') else None if key == 'tt' else \
        sx.int('v', 1, 99)
    k = K(ab=3)
    args = sx.pick('order', [{key: v}, {key: v, 'ab': 4}, {'ab': 4, key: v},
                             {'id': 5, key: v, 'ab': 4}])
    if key in ('ab', 'id'):
        args = {key: v}
    before = state(k)
    try:
        k.update(**args)
    except ValueError:
        sx.reach('refused')
        sx.check(key not in KNOWN or key in ('aB', 'ttId', 'uIds'),
                 'update takes every field name and reference key')
        sx.check(sx.all_eq(state(k), before), 'a refused update has no effect')
    else:
        sx.reach('taken')
        sx.check(key in KNOWN, 'update refuses every unknown name')
        for n, x in args.items():
            sx.check(sx.same(list(getattr(k, n)) if n in ('us', 'u_ids')
                             else getattr(k, n), x), 'and sets the others')
