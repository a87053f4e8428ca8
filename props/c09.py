"""C09: every pipeline step runs at its stage, once and in order."""
from itertools import product
from symx.sx import Registry
from jsonclasses import types
from props.util import graph, klass, persisted, vexc

H = Registry()
BOUNDS = {
    'pipelines': 'every sequence of up to 4 (thorough: 5) rules and '
                 'transforms; up to 3 save steps with rules between them',
    'places': 'a field of the root, an item of a list, of a dict, of a list '
              'of lists, a field of an object in a field, list or dict',
    'values': 'input and rule parameters symbolic, -6..6; null',
    'events': 'constructor, set(), assignment, update(), validate(), '
              'tojson(), is_valid, save(), repeated'}
ASSUMPTIONS = ['A pipeline with a transform after a save step is left out: '
               'the code does not define its stage.']


def seqs(n):
    return [''.join(p) for k in range(1, n + 1)
            for p in product('VT', repeat=k)]


def num(sx, n):
    return sx.int(n, -6, 6)


def build(sx, seq):
    """types plus, per step, its meaning as a function."""
    t = types.int
    steps = []
    for i, c in enumerate(seq):
        p = num(sx, f'p{i}')
        if c == 'V':
            if i % 2:
                t = t.max(p)
                steps.append(('V', lambda x, p=p: x <= p))
            else:
                t = t.min(p)
                steps.append(('V', lambda x, p=p: x >= p))
        elif i % 2:
            t = t.add(p)
            steps.append(('T', lambda x, p=p: x + p))
        else:
            t = t.transform(lambda x: x * 2 + 1)
            steps.append(('T', lambda x: x * 2 + 1))
    return t, steps


def stages(sx, steps, x):
    """(eager rules hold, transformed value)."""
    last = max([i for i, (c, _) in enumerate(steps) if c == 'T'], default=-1)
    ok = []
    for i, (c, f) in enumerate(steps):
        if c == 'T':
            x = f(x)
        elif i < last:
            ok.append(f(x))
    return sx.And(*ok), x


def late(sx, steps, x):
    last = max([i for i, (c, _) in enumerate(steps) if c == 'T'], default=-1)
    return sx.And(*[f(x) for i, (c, f) in enumerate(steps)
                    if c == 'V' and i > last])


PLACES = ['f', 'l', 'd', 'll', 'o', 'ol', 'od']


def world(place, t):
    g = graph()
    if place[0] == 'o':
        klass({'v': t}, 'C09In', g=g)
    ft = {'f': lambda: t, 'l': lambda: types.listof(t),
          'd': lambda: types.dictof(t),
          'll': lambda: types.listof(types.listof(t)),
          'o': lambda: types.objof('C09In'),
          'ol': lambda: types.listof('C09In'),
          'od': lambda: types.dictof('C09In')}[place]()
    return klass({'v': ft, 'z': types.int}, 'C09K', g=g)


def pack(place, x):
    return {'f': lambda: x, 'l': lambda: [x], 'd': lambda: {'k': x},
            'll': lambda: [[x]], 'o': lambda: {'v': x},
            'ol': lambda: [{'v': x}], 'od': lambda: {'k': {'v': x}}}[place]()


def unpack(place, o):
    v = o.v
    return {'f': lambda: v, 'l': lambda: v[0], 'd': lambda: v['k'],
            'll': lambda: v[0][0], 'o': lambda: v.v,
            'ol': lambda: v[0].v, 'od': lambda: v['k'].v}[place]()


PATH = {'f': 'v', 'l': 'v.0', 'd': 'v.k', 'll': 'v.0.0', 'o': 'v.v',
        'ol': 'v.0.v', 'od': 'v.k.v'}
QUICK = [(s, p, h) for s in seqs(3) for p in PLACES for h in ('init', 'set')] \
    + [(s, 'f', 'init') for s in seqs(4) if len(s) == 4]
DEEP = QUICK + [(s, p, 'init') for s in seqs(5) if len(s) > 3
                for p in ('f', 'l', 'o')]


@H(configs=QUICK, thorough=DEEP)
def by_input(sx, cfg):
    seq, place, how = cfg
    t, steps = build(sx, seq)
    K = world(place, t)
    x = num(sx, 'x')
    data = {'v': pack(place, x)}
    ok, want = stages(sx, steps, x)
    box = []

    def go():
        if how == 'init':
            box.append(K(**data))
        else:
            o = K(z=1)
            box.append(o)
            o.set(**data)
    e = vexc(go)
    if e is not None:
        sx.check(sx.Not(ok), 'input is refused only when a rule before a '
                 'transform is broken')
        sx.check(set(e.keypath_messages) == {PATH[place]},
                 'the error names the field')
        return
    sx.check(ok, 'input that breaks a rule before a transform is refused at '
             'once')
    o = box[0]
    sx.check(sx.same(unpack(place, o), want), 'the field holds the input '
             'transformed once by each step, in order')
    e = vexc(lambda: o.validate())
    sx.check(sx.Iff(e is None, late(sx, steps, want)), 'validation applies '
             'exactly the rules after the last transform')
    sx.check(sx.same(unpack(place, o), want), 'validation does not transform')
    j = o.tojson()['v']
    sx.check(sx.same(j, pack(place, want)), 'output does not transform')
    sx.check(sx.same(unpack(place, o), want), 'output does not change the '
             'object')


@H(configs=[(s, h) for s in seqs(3) for h in ('assign', 'update', 'item')])
def by_program(sx, cfg):
    """Assignment neither transforms nor validates."""
    seq, how = cfg
    t, steps = build(sx, seq)
    place = 'l' if how == 'item' else 'f'
    K = world(place, t)
    x = num(sx, 'x')
    o = K(z=1)
    if how == 'assign':
        o.v = x
    elif how == 'update':
        o.update(v=x)
    else:
        o.v = []
        o.v.append(x)
    sx.check(sx.same(unpack(place, o), x), 'an assigned value is stored as '
             'it is')
    e = vexc(lambda: o.validate())
    sx.check(sx.Iff(e is None, late(sx, steps, x)), 'validation of an '
             'assigned value applies exactly the rules after the last '
             'transform')
    sx.check(sx.same(unpack(place, o), x), 'validation does not transform')


@H(configs=[(s, p) for s in seqs(3) for p in PLACES])
def null(sx, cfg):
    """A null passes every step of an optional field unchanged."""
    seq, place = cfg
    t, steps = build(sx, seq)
    calls = []
    t = types.nullable.int.transform(lambda x: calls.append(x) or 1) \
        if sx.bool('cb') else t.nullable
    K = world(place, t)
    o = K(v=pack(place, None))
    sx.check(unpack(place, o) is None and calls == [], 'null is not '
             'transformed')
    sx.check(vexc(lambda: o.validate()) is None, 'null is valid in an '
             'optional field')


@H(configs=['f', 'l', 'd', 'o', 'ol', 'od'])
def again(sx, place):
    """Each input is transformed exactly once, also over an earlier value."""
    p = num(sx, 'p')
    K = world(place, types.int.add(p).transform(lambda v: v * 3))
    x, y = num(sx, 'x'), num(sx, 'y')
    o = K(v=pack(place, x))
    if sx.bool('persisted'):
        persisted(o)
    if sx.bool('other'):
        o.set(z=num(sx, 'z'))
        sx.check(sx.same(unpack(place, o), (x + p) * 3), 'input for another '
                 'field does not transform this one again')
    o.set(v=pack(place, y))
    sx.check(sx.same(unpack(place, o), (y + p) * 3), 'a later input replaces '
             'the value by its own transformation')


def adder(p):
    return lambda x: x + p


def saver(seq, sx):
    """types with save steps (S) and rules (V) after them."""
    t = types.int
    steps = []
    for i, c in enumerate(seq):
        p = num(sx, f'p{i}')
        if c == 'V':
            t = t.max(p) if i % 2 else t.min(p)
            steps.append(('V', (lambda x, p=p: x <= p) if i % 2
                          else (lambda x, p=p: x >= p)))
        elif i % 2:
            t = t.setonsave(adder(p))
            steps.append(('S', adder(p)))
        else:
            t = t.setonsave(lambda x: x * 2 + 1)
            steps.append(('S', lambda x: x * 2 + 1))
    return t, steps


SAVES = [''.join(p) for k in (1, 2, 3) for p in product('VS', repeat=k)
         if 'S' in p]


@H(configs=[(s, p) for s in SAVES for p in ('f', 'o', 'ol', 'od')],
   reach=('saved', 'refused'))
def on_save(sx, cfg):
    seq, place = cfg
    t, steps = saver(seq, sx)
    K = world(place, t)
    x = num(sx, 'x')
    o = K(v=pack(place, x))
    sx.check(sx.same(unpack(place, o), x), 'save steps do not run on input')
    first = seq.index('S')
    before = sx.And(*[f(x) for c, f in steps[:first] if c == 'V'])
    e = vexc(lambda: o.validate())
    sx.check(sx.Iff(e is None, before), 'validation applies the rules before '
             'the first save step')
    sx.check(sx.same(unpack(place, o), x), 'save steps do not run on '
             'validation')
    o.tojson()
    y, oks = x, [before]
    for c, f in steps[first:]:
        if c == 'S':
            y = f(y)
        else:
            oks.append(f(y))
    e = vexc(lambda: o.save())
    if e is None:
        sx.reach('saved')
        sx.check(sx.And(*oks), 'save refuses a value that breaks a rule')
        sx.check(sx.same(unpack(place, o), y), 'save applies each save step '
                 'once, in order')
    else:
        sx.reach('refused')
        sx.check(sx.Not(sx.And(*oks)), 'save refuses only a value that breaks '
                 'a rule')


@H(configs=[(p, k) for p in ('f', 'o', 'ol', 'od')
            for k in ('setonsave', 'fsetonsave')])
def when_saved(sx, cfg):
    """setonsave runs when its object is new or modified; fsetonsave always."""
    place, kind = cfg
    K = world(place, getattr(types.int, kind)(lambda x: x + 1))
    x = num(sx, 'x')
    o = K(v=pack(place, x), z=1)
    inner = {'f': lambda: o, 'o': lambda: o.v, 'ol': lambda: o.v[0],
             'od': lambda: o.v['k']}[place]()
    state = sx.pick('state', ['new', 'saved', 'modified', 'othermod'])
    if state != 'new':
        persisted(o)
        persisted(inner)
    runs = 1
    if state == 'saved':
        runs = 1 if kind == 'fsetonsave' else 0
    if state == 'modified':
        n = num(sx, 'n')
        runs = sx.Ite(sx.Or(kind == 'fsetonsave', n != x), 1, 0)
        inner.v = n
        x = n
    if state == 'othermod':
        o.z = 2
        runs = 1 if kind == 'fsetonsave' or inner is o else 0
    o.save()
    sx.check(sx.same(unpack(place, o), x + runs), f'{kind} runs once per save '
             'of a new or modified object')
