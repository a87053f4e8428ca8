"""C21: defaults fill exactly the missing values; presence rules hold."""
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted, vexc

H = Registry()
BOUNDS = {
    'defaults': 'a value, a callable, a chain; of a scalar, list, dict and '
                'object field; class level defaults; followed by a transform '
                'and a rule',
    'input': 'key missing, null, falsy or other value, under the field name '
             'or the JSON name; constructor and set()',
    'presence': 'required, present, presentwith, presentwithout (1 to 3 '
                'referred fields), nonnull, nullable; every subset of fields '
                'present',
    'values': 'ints -3..3 and strings to 2 characters, symbolic'}
ASSUMPTIONS = ['Null input to a field with a default modifier takes the '
               'default, as the modifier documents.']

FORMS = ['value', 'call', 'chain', 'class']


def field(form, t, d):
    """(types, class default) of a field with default d()."""
    if form == 'value':
        return t.default(d())
    if form == 'call':
        return t.default(lambda: d())
    if form == 'chain':
        return t.default(types.default(lambda: d()))
    raise ValueError(form)


def scalar(sx, name, kind):
    if kind == 'int':
        return sx.int(name, -3, 3)
    if kind == 'str':
        return sx.str(name, 2, 'ab')
    if kind == 'bool':
        return sx.bool(name)
    if kind == 'float':
        return sx.float(name, -1, 1)
    if kind == 'list':
        return [sx.int(name, -3, 3)][:sx.choice(name + 'n', 2)]
    return {'k': sx.int(name, -3, 3)}


TYPES = {'int': types.int, 'str': types.str, 'bool': types.bool,
         'float': types.float, 'list': types.listof(types.int),
         'dict': types.dictof(types.int)}


@H(configs=[(f, k) for f in FORMS[:3] for k in TYPES])
def default(sx, cfg):
    form, kind = cfg
    d = scalar(sx, 'd', kind)
    K = klass({'some_f': field(form, TYPES[kind], lambda: d),
               'g': types.int}, 'C21D')
    key = sx.pick('key', ['some_f', 'someF'])
    how = sx.pick('how', ['missing', 'null', 'value'])
    v = None
    kw = {'g': 1}
    if how == 'value':
        v = scalar(sx, 'v', kind)
    if how != 'missing':
        kw[key] = v
    o = K(**kw)
    sx.check(sx.same(o.some_f, v if how == 'value' else d), 'the default '
             'replaces exactly a missing or null value')
    sx.check(vexc(lambda: o.validate()) is None, 'the value is valid')
    if kind in ('list', 'dict') and how != 'value':
        b = K()
        if kind == 'list':
            o.some_f.append(9)
        else:
            o.some_f['x'] = 9
        sx.check(sx.same(b.some_f, d) and sx.same(K().some_f, d),
                 'a default is not shared between objects')
    if sx.bool('persisted'):
        persisted(o)
    before = o.some_f
    o.set(g=2)
    sx.check(o.some_f is before or sx.same(o.some_f, before), 'set() without '
             'the key leaves the field')
    if sx.bool('again'):
        w = scalar(sx, 'w', kind)
        o.set(**{key: w})
        sx.check(sx.same(o.some_f, w), 'set() with a value takes the value')
    o.some_f = None
    sx.check(o.some_f is None, 'an assignment takes no default')


@H(configs=['missing', 'null', 'value'])
def class_default(sx, how):
    """A plain class level default is taken when the key is missing."""
    d, v = sx.int('d', -3, 3), sx.int('v', -3, 3)
    s = sx.str('s', 2, 'ab')
    g = graph()
    K = klass({'f': d, 't': s}, 'C21C', g=g, ann={'f': int, 't': str})
    kw = {} if how == 'missing' else {'f': None if how == 'null' else v}
    o = K(**kw)
    sx.check(sx.same(o.f, {'missing': d, 'null': None, 'value': v}[how]),
             'a class level default is taken exactly when the key is missing')
    sx.check(sx.same(o.t, s), 'and for every other field')
    e = vexc(lambda: o.validate())
    sx.check((e is None) == (how != 'null'), 'a field annotated with a type '
             'is required')


@H(configs=[(f, w) for f in FORMS[:3] for w in ('before', 'after')])
def steps_around(sx, cfg):
    """Steps after a default see the default, steps before see the input."""
    form, where = cfg
    d, p = sx.int('d', -3, 3), sx.int('p', -3, 3)
    t = types.int
    if where == 'before':
        t = field(form, t, lambda: d).add(p).max(3)
    else:
        t = field(form, t.add(p), lambda: d).max(3)
    K = klass({'f': t}, 'C21S')
    v = sx.int('v', -3, 3) if sx.bool('given') else None
    o = K(**({} if v is None and sx.bool('missing') else {'f': v}))
    if v is None:
        want = d + p if where == 'before' else d
    else:
        want = v + p
    sx.check(sx.same(o.f, want), 'a default takes part in the pipeline at its '
             'place')
    e = vexc(lambda: o.validate())
    sx.check(sx.Iff(e is None, want <= 3), 'rules judge the default too')


@H(configs=['init', 'nested', 'list', 'dict'])
def nested_default(sx, where):
    """Objects created by nested input take their defaults."""
    g = graph()
    d = sx.int('d', -3, 3)
    N = klass({'f': types.int.default(d), 'z': types.int}, 'C21N', g=g)
    K = klass({'o': types.objof('C21N'), 'l': types.listof('C21N'),
               'd': types.dictof('C21N')}, 'C21M', g=g)
    x = {'z': sx.int('z', 0, 3)}
    v = None
    if sx.bool('given'):
        v = sx.int('v', -3, 3)
        x['f'] = v
    if where == 'init':
        n = N(**x)
    elif where == 'nested':
        n = K(o=x).o
    elif where == 'list':
        n = K(l=[x]).l[0]
    else:
        n = K(d={'a': x}).d['a']
    sx.check(sx.same(n.f, d if v is None else v), 'a nested object takes its '
             'default')


@H(configs=[(r, k) for r in ('required', 'present')
            for k in ('int', 'str', 'bool', 'list', 'dict', 'object')])
def presence(sx, cfg):
    """A required field is refused exactly when it is null; falsy values are
    values."""
    rule, kind = cfg
    g = graph()
    if kind == 'object':
        t = types.objof('C21O')
    else:
        t = TYPES[kind]
    O = klass({'z': types.int}, 'C21O', g=g)
    K = klass({'f': getattr(t, rule), 'g': types.int}, 'C21P', g=g)
    how = sx.pick('how', ['missing', 'null', 'value'])
    kw = {'g': 0}
    if how == 'null':
        kw['f'] = None
    elif how == 'value':
        kw['f'] = O() if kind == 'object' else scalar(sx, 'v', kind)
    o = K(**kw)
    e = vexc(lambda: o.validate())
    sx.check((e is None) == (how == 'value'), f'{rule} refuses exactly null')
    if e is not None:
        sx.check(list(e.keypath_messages) == ['f'], 'naming the field')
    if how == 'value':
        persisted(o)
        o.f = None
        e = vexc(lambda: o.validate())
        sx.check(e is not None, f'{rule} refuses null assigned later')


@H(configs=['with', 'without1', 'without2', 'without3'])
def companions(sx, cfg):
    """presentwith and presentwithout look at the other fields' presence."""
    n = 1 if cfg == 'with' else int(cfg[-1])
    names = [f'a{i}' for i in range(n)]
    kinds = ['int', 'str', 'bool']
    if cfg == 'with':
        t = types.int.presentwith('a0')
    else:
        t = types.int.presentwithout(names if n > 1 else 'a0')
    g = graph()
    fs = {m: TYPES[kinds[i]] for i, m in enumerate(names)}
    K = klass({**fs, 'f': t}, 'C21W', g=g)
    P = klass({'o': types.objof('C21W'), 'l': types.listof('C21W')}, 'C21X',
              g=g)
    kw = {}
    for i, m in enumerate(names):
        if sx.bool(f'has{i}'):
            kw[m] = scalar(sx, m, kinds[i])
    there = bool(kw)
    if sx.bool('has'):
        kw['f'] = sx.int('f', -1, 1)
    place = sx.pick('place', ['root', 'o', 'l'])
    o = K(**kw) if place == 'root' else \
        P(**{place: kw if place == 'o' else [kw]})
    e = vexc(lambda: o.validate())
    need = there if cfg == 'with' else not there
    sx.check((e is None) == (not need or 'f' in kw), 'a field is required '
             'exactly with (without) its companions')


@H(configs=[(c, n) for c in ('list', 'dict') for n in
            ('nonnull', 'plain', 'nullable', 'required')])
def collections(sx, cfg):
    """nonnull makes null an empty collection; items are required unless
    nullable."""
    kind, rule = cfg
    of = types.listof if kind == 'list' else types.dictof
    item = types.int
    if rule == 'nonnull':
        t = getattr(types.nonnull, 'listof' if kind == 'list' else
                    'dictof')(item)
    elif rule == 'nullable':
        t = of(types.nullable.int)
    elif rule == 'required':
        t = of(item).required
    else:
        t = of(item)
    K = klass({'f': t, 'g': types.int}, 'C21L')
    how = sx.pick('how', ['missing', 'null', 'empty', 'one', 'hole'])
    x = sx.int('x', -3, 3)
    v = {'empty': [], 'one': [x], 'hole': [x, None]}.get(how)
    if v is not None and kind == 'dict':
        v = {str(i): y for i, y in enumerate(v)}
    kw = {} if how == 'missing' else {'f': v}
    o = K(**kw)
    gone = how in ('missing', 'null')
    empty = [] if kind == 'list' else {}
    if gone and rule == 'nonnull':
        sx.check(sx.same(o.f, empty), 'a nonnull collection is empty instead '
                 'of null')
        if kind == 'list':
            o.f.append(1)
            sx.check(K(**kw).f == [], 'and its own')
    else:
        sx.check(sx.same(o.f, v), 'other collections take the input')
    e = vexc(lambda: o.validate())
    bad = gone and rule == 'required' or how == 'hole' and rule != 'nullable'
    sx.check((e is None) == (not bad), 'null is refused exactly where it is '
             'not allowed')
    if how == 'hole' and bad:
        sx.check(list(e.keypath_messages) == ['f.1'], 'the null item is '
                 'named')
