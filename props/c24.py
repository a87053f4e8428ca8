"""C24: a class behaves the same however its fields are written down."""
from datetime import date, datetime
from enum import Enum
from typing import Annotated, Any, ForwardRef, Optional, Union
from symx.sx import Registry
from jsonclasses import jsonclass, jsonenum, linkto, linkedby, linkedthru, \
    types
from props.util import graph, klass, vexc

H = Registry()
BOUNDS = {
    'annotations': 'every scalar, list, dict, class, enum and union form, '
                   'optional or required, nested 2 deep, as Python objects '
                   'and as strings; links of every kind',
    'inputs': 'missing, null, and JSON values of every kind: ints, floats, '
              'strings to 2 characters, lists and dicts of up to 2 of them, '
              'nested to depth 2',
    'chains': 'any of 20 modifiers added to a shared chain',
    'inheritance': 'up to 3 levels, fields added and replaced'}
ASSUMPTIONS = ['String annotations are the ones Python makes from the '
               'annotation text.']


class C24Enum(Enum):
    RED = 'r'
    BLUE = 'b'


def world(g):
    """A fresh graph with a class and an enum to refer to."""
    E = Enum('C24Enum', {'RED': 'r', 'BLUE': 'b'})
    E = jsonenum(class_graph=g)(E)
    O = klass({'x': types.int.required}, 'C24Obj', g=g)
    return E, O


# what is written -> the types it means, required unless optional
def meaning(g):
    T = types
    i, s = T.int, T.str
    req = lambda t: t.required
    return {
        'int': i, 'float': T.float, 'bool': T.bool, 'str': s, 'date': T.date,
        'datetime': T.datetime, 'Any': T.any, 'C24Obj': T.objof('C24Obj'),
        'C24Enum': T.enum('C24Enum'),
        'list[int]': T.listof(req(i)), 'dict[str, int]': T.dictof(req(i)),
        'list[C24Obj]': T.listof(req(T.objof('C24Obj'))),
        'dict[str, C24Obj]': T.dictof(req(T.objof('C24Obj'))),
        'list[C24Enum]': T.listof(req(T.enum('C24Enum'))),
        'list[Optional[int]]': T.listof(i),
        'list[int | None]': T.listof(i),
        'dict[str, Optional[int]]': T.dictof(i),
        'dict[str, int | None]': T.dictof(i),
        'list[list[int]]': T.listof(req(T.listof(req(i)))),
        'list[dict[str, int]]': T.listof(req(T.dictof(req(i)))),
        'dict[str, list[int]]': T.dictof(req(T.listof(req(i)))),
        'dict[str, dict[str, int]]': T.dictof(req(T.dictof(req(i)))),
        'Union[int, None]': i, 'Union[int, str, None]': T.union([i, s]),
        'Union[None, int]': i, 'Union[None, int, str]': T.union([i, s]),
        'Union[int, None, str]': T.union([i, s]), 'None | int': i,
        'None | int | str': T.union([i, s]),
        'int | None | str': T.union([i, s]),
        'list[Union[None, int]]': T.listof(i),
        'list[None | int]': T.listof(i),
        'dict[str, Union[None, int]]': T.dictof(i),
        'dict[str, None | int]': T.dictof(i),
        'list[int | None | str]': T.listof(T.union([i, s])),
        'Union[int, str]': T.union([i, s]), 'int | str': T.union([i, s]),
        'Union[list[int], str]': T.union([T.listof(req(i)), s]),
        'list[int] | str': T.union([T.listof(req(i)), s]),
        'Union[dict[str, int], str]': T.union([T.dictof(req(i)), s]),
        'Union[str, dict[str, int]]': T.union([s, T.dictof(req(i))]),
        'Union[str, dict[str, list[int]]]': T.union([s, T.dictof(
            req(T.listof(req(i))))]),
        'dict[str, int] | str': T.union([T.dictof(req(i)), s]),
        'Union[C24Obj, int]': T.union([T.objof('C24Obj'), i]),
        'C24Obj | int': T.union([T.objof('C24Obj'), i]),
        'list[Union[int, str]]': T.listof(req(T.union([i, s]))),
        'list[int | str]': T.listof(req(T.union([i, s]))),
        'dict[str, Union[int, str]]': T.dictof(req(T.union([i, s]))),
        'dict[str, int | str]': T.dictof(req(T.union([i, s]))),
        'bool | int | str': T.union([T.bool, i, s]),
        'Union[bool, int, str]': T.union([T.bool, i, s]),
        'List[int]': T.listof(req(i)), 'Dict[str, int]': T.dictof(req(i)),
    }


FORMS = sorted(meaning(''))
OPTS = ['plain', 'Optional', 'bar']


def spelled(form, opt):
    return {'plain': form, 'Optional': f'Optional[{form}]',
            'bar': f'{form} | None'}[opt]


def raw(sx, kinds=('none', 'bool', 'int', 'str', 'list', 'dict')):
    """Input for the field: missing, or some JSON value."""
    k = sx.pick('k', ['missing', 'scalar', 'list', 'dict', 'obj', 'llist',
                      'ldict', 'lobj', 'dlist', 'ddict', 'dobj', 'date'])
    leaf = lambda n: sx.json(n, ['none', 'bool', 'int', 'float', 'str'])
    if k == 'missing':
        return {}
    if k == 'date':
        return {'f': sx.pick('d', ['2020-02-29', '2020-02-29T01:02:03.456Z',
                                   'RED', 'red', 'r', 'x', ''])}
    obj = lambda n: {'x': leaf(n)} if sx.bool(n + '.x') else {}
    v = {'scalar': lambda: leaf('v'),
         'list': lambda: [leaf(f'v{i}') for i in range(sx.choice('n', 2))],
         'dict': lambda: {'k': leaf('v')} if sx.bool('n') else {},
         'obj': lambda: obj('v'), 'llist': lambda: [[leaf('v')]],
         'ldict': lambda: [{'k': leaf('v')}], 'lobj': lambda: [obj('v')],
         'dlist': lambda: {'k': [leaf('v')]},
         'ddict': lambda: {'k': {'k': leaf('v')}},
         'dobj': lambda: {'k': obj('v')}}[k]()
    return {'f': v}


def outcome(K, data):
    """What a user sees of an object made from the data."""
    out = []
    made = []
    e = vexc(lambda: made.append(K(**data)))
    out.append(None if e is None else sorted(e.keypath_messages.items()))
    if e is None:
        e = vexc(lambda: made[0].validate(all_fields=True))
        out.append(None if e is None else sorted(e.keypath_messages.items()))
        if e is None:
            out.append(made[0].tojson(output_null=True))
    return out


@H(configs=[(f, o, w) for f in FORMS for o in OPTS
            for w in ('string', 'object')])
def annotated(sx, cfg):
    form, opt, how = cfg
    g1, g2 = graph(), graph()
    E, O = world(g1)
    world(g2)
    text = spelled(form, opt)
    if how == 'string':
        ann = text
    else:
        from typing import List, Dict
        ann = eval(text, dict(Optional=Optional, Union=Union, Any=Any,
                              date=date, datetime=datetime, C24Enum=E,
                              C24Obj=O, List=List, Dict=Dict))
    t = meaning(g2)[form]
    K1 = plainclass({'f': ann}, 'C24K', g1)
    nullable = 'None' in form and form[:4] not in ('list', 'dict')
    req = opt == 'plain' and not nullable
    K2 = klass({'f': t.required if req else t}, 'C24K', g=g2)
    data = raw(sx)
    r1, r2 = outcome(K1, data), outcome(K2, data)
    sx.check(sx.same(r1, r2), 'the annotation means the types')


def plainclass(ann, name, g, defaults=None, conf=None):
    ns = {'__annotations__': ann, '__module__': __name__,
          '__qualname__': name, **(defaults or {})}
    return jsonclass(class_graph=g, **(conf or {}))(type(name, (), ns))


@H(configs=['list', 'optional', 'dict', 'union'])
def forward(sx, form):
    """A name inside an annotation is the class of that name."""
    g1, g2 = graph(), graph()
    ann = {'list': list['C24Obj'], 'optional': Optional['C24Obj'],
           'dict': dict[str, 'C24Obj'],
           'union': Union['C24Obj', int, None]}[form]
    o = types.objof('C24Obj')
    t = {'list': types.listof(o.required).required, 'optional': o,
         'dict': types.dictof(o.required).required,
         'union': types.union([o, types.int])}[form]
    K1 = plainclass({'f': ann}, 'C24K', g1)
    K2 = klass({'f': t}, 'C24K', g=g2)
    world(g1)
    world(g2)
    data = raw(sx)
    sx.check(sx.same(outcome(K1, data), outcome(K2, data)), 'the name is the '
             'class')


@H(configs=['int', 'str', 'bool', 'list', 'obj'])
def defaults(sx, kind):
    """A value after the annotation is the default."""
    g1, g2 = graph(), graph()
    world(g1)
    world(g2)
    ann = {'int': int, 'str': str, 'bool': bool, 'list': Optional[list[int]],
           'obj': 'Optional[C24Obj]'}[kind]
    t = {'int': types.int, 'str': types.str, 'bool': types.bool,
         'list': types.listof(types.int.required),
         'obj': types.objof('C24Obj')}[kind]
    if kind in ('int', 'str', 'bool'):
        t = t.required
        v = {'int': lambda: sx.int('default', -5, 5),
             'str': lambda: sx.str('default', 2, 'ab'),
             'bool': lambda: sx.bool('default')}[kind]()
    else:
        v = None
    K1 = plainclass({'f': ann}, 'C24K', g1, {'f': v})
    K2 = klass({'f': t.default(v) if v is not None else t}, 'C24K', g=g2)
    data = raw(sx)
    sx.assume(sx.Not(sx.same(data.get('f', 0), None)))
    sx.check(sx.same(outcome(K1, data), outcome(K2, data)), 'the value is the '
             'default')


LINKS = {
    'one': (('C24B', 'linkto'), ('C24A', "linkedby('b')"), False, False),
    'many': (('C24B', 'linkto'), ('list[C24A]', "linkedby('b')"), False, True),
    'manymany': (('list[C24B]', "linkedthru('b')"),
                 ('list[C24A]', "linkedthru('b')"), True, True)}


def link_types(text, spec):
    lst = text.startswith('list[')
    name = text[5:-1] if lst else text
    t = types.listof(name) if lst else types.objof(name)
    if spec == 'linkto':
        return t.linkto.required
    how, arg = spec[:-2].split("('")
    t = t.nonnull if lst else t
    return getattr(t, how)(arg).required


@H(configs=[(k, w) for k in LINKS for w in ('string', 'object')])
def linked(sx, cfg):
    """Annotated links are the links that types make."""
    kind, how = cfg
    (ta, sa), (tb, sb), many_a, many_b = LINKS[kind]
    res = []
    v = [sx.int(f'v{i}', -9, 9) for i in range(2)]
    top = sx.pick('top', ['a', 'b'])
    for ann in (True, False):
        g = graph()
        if ann and how == 'string':
            spec = lambda t, s: f'Annotated[{t}, {s}]'
            an = {'x': 'int', 'b': spec(ta, sa)}
            bn = {'x': 'int', 'b': spec(tb, sb)}
        else:
            sp = {'linkto': linkto, "linkedby('b')": linkedby('b'),
                  "linkedthru('b')": linkedthru('b')}
            ref = lambda t: list[ForwardRef(t[5:-1])] if t.startswith(
                'list[') else ForwardRef(t)
            an = {'x': int, 'b': Annotated[ref(ta), sp[sa]]}
            bn = {'x': int, 'b': Annotated[ref(tb), sp[sb]]}
        if ann:
            A = plainclass(an, 'C24A', g)
            B = plainclass(bn, 'C24B', g)
        else:
            A = klass({'x': types.int.required, 'b': link_types(ta, sa)},
                      'C24A', g=g)
            B = klass({'x': types.int.required, 'b': link_types(tb, sb)},
                      'C24B', g=g)
        if top == 'a':
            d = {'x': v[1]}
            o = A(x=v[0], b=[d] if many_a else d)
            p = o.b[0] if many_a else o.b
            back = p.b[0] if many_b else p.b
        else:
            d = {'x': v[1]}
            o = B(x=v[0], b=[d] if many_b else d)
            p = o.b[0] if many_b else o.b
            back = p.b[0] if many_a else p.b
        sx.check(back is o, 'annotated links go both ways')
        e = vexc(lambda: o.validate(all_fields=True))
        empty = vexc(lambda: A(x=v[0]).validate())
        res.append([o.tojson(), p.tojson(), e is None, empty is None,
                    sorted(o.cdef.reference_names),
                    sorted(o.cdef.list_reference_names)])
    sx.check(sx.same(res[0], res[1]), 'annotated links are the links of '
             'types')


CHAIN = {
    'required': lambda t: t.required, 'min': lambda t: t.min(3),
    'max': lambda t: t.max(-3), 'default': lambda t: t.default(7),
    'readonly': lambda t: t.readonly, 'writeonly': lambda t: t.writeonly,
    'internal': lambda t: t.internal, 'primary': lambda t: t.primary,
    'writeonce': lambda t: t.writeonce, 'temp': lambda t: t.temp,
    'unique': lambda t: t.unique, 'add': lambda t: t.add(1),
    'validate': lambda t: t.validate(lambda v: False),
    'compare': lambda t: t.compare(lambda a, b: False),
    'setonsave': lambda t: t.setonsave(lambda v: 1),
    'present': lambda t: t.present, 'invalid': lambda t: t.invalid,
    'presentwith': lambda t: t.presentwith('g'),
    'even': lambda t: t.even, 'transform':
    lambda t: t.transform(lambda v: 9)}
SUFFIX = {'none': lambda t: t, 'min': lambda t: t.min(-1),
          'default': lambda t: t.default(2)}


@H(configs=[(c, s) for c in CHAIN for s in SUFFIX])
def chains(sx, cfg):
    """A chain derived from another leaves the other one as it was."""
    c, s = cfg
    base = types.int
    CHAIN[c](base)
    field = SUFFIX[s](base)
    klass({'f': CHAIN[c](field), 'g': types.int}, 'C24Other', g=graph())
    K1 = klass({'f': field, 'g': types.int}, 'C24K')
    CHAIN[c](field)
    K2 = klass({'f': SUFFIX[s](types.int), 'g': types.int}, 'C24K')
    data = {} if sx.bool('missing') else {
        'f': sx.json('f', ['none', 'int', 'str'])}
    K1o, K2o = outcome(K1, data), outcome(K2, data)
    sx.check(sx.same(K1o, K2o), 'the chain is as it was')
    n = [f.name for f in K1.cdef.fields if f.fdef.primary]
    sx.check(n == [] and not K1.cdef.unique_fields, 'the chain is as it was')


HOW = ['types', 'annotation', 'mixed']


@H(configs=[(h, n) for h in HOW for n in (1, 2)])
def inherited(sx, cfg):
    """A subclass has the fields of its parents and changes none of them."""
    how, levels = cfg
    res = []
    over = sx.bool('override')
    data = {}
    for f in ('a', 'b', 'c'):
        if sx.bool(f + '.in'):
            data[f] = sx.json(f, ['none', 'int', 'str'])

    def fields(names):
        out = {}
        for n in names:
            t = {'a': types.int.min(0), 'b': types.int.required,
                 'c': types.str.default('q')}[n]
            out[n] = t
        return out

    def one(names, name, g, bases=(), extra=None):
        ns = {'__annotations__': {}, '__module__': __name__,
              '__qualname__': name}
        for k, t in {**fields(names), **(extra or {})}.items():
            if how == 'annotation' and k == 'b' or how == 'mixed' and \
                    k == 'b' and levels == 2:
                ns['__annotations__'][k] = int
            else:
                ns['__annotations__'][k] = object
                ns[k] = t
        return jsonclass(class_graph=g)(type(name, tuple(bases), ns))
    ex = {'a': types.int.max(5)} if over else {}
    g1, g2, g3 = graph(), graph(), graph()
    P = one('ab', 'C24P', g1)
    M = one('', 'C24M', g1, [P]) if levels == 2 else P
    S = one('c', 'C24S', g1, [M], ex)
    flat = one('abc', 'C24S', g2, (), ex)
    alone = one('ab', 'C24P', g3)
    sx.check(sx.same(outcome(S, data), outcome(flat, data)), 'a subclass '
             'behaves as if it had written all fields itself')
    sx.check(sx.same(outcome(P, data), outcome(alone, data)), 'defining a '
             'subclass does not change the parent')
    sx.check([f.name for f in P.cdef.fields] == ['a', 'b'] and
             [f.name for f in S.cdef.fields] == ['a', 'b', 'c'], 'the fields '
             'are those of the class and its parents')


@H(configs=['before', 'after', 'never'])
def inherited_links(sx, when):
    """Links of a class are the same with subclasses."""
    g = graph()
    A = klass({'x': types.int, 'bs': types.listof('C24B').linkedby('a')},
              'C24A', g=g)

    def sub():
        return jsonclass(class_graph=g)(type('C24S', (A,), {
            '__annotations__': {'y': object}, 'y': types.int,
            '__module__': __name__}))
    if when == 'before':
        sub()
    B = klass({'x': types.int, 'a': types.objof('C24A').linkto}, 'C24B', g=g)
    if when == 'after':
        sub()
    v = sx.int('v', -9, 9)
    how = sx.pick('how', ['input', 'back', 'assign', 'append', 'ref'])
    b = B(x=v)
    if how == 'input':
        a = A(bs=[{'x': v}])
        b = a.bs[0]
    elif how == 'ref':
        b = B(x=v, a={'x': 1})
        a = b.a
    else:
        a = A(x=1)
        if how == 'back':
            b.a = a
        elif how == 'assign':
            a.bs = [b]
        else:
            a.bs = []
            a.bs.append(b)
    sx.check(type(a) is A and type(b) is B and b.a is a and
             len(a.bs) == 1 and a.bs[0] is b, 'the link goes both ways')


@H(configs=['obj', 'list', 'enum', 'union'])
def shared(sx, kind):
    """Types used by several classes mean the names of each class's graph."""
    t = {'obj': types.objof('C24Obj'), 'list': types.listof('C24Obj'),
         'enum': types.enum('C24Enum').inputall,
         'union': types.union([types.objof('C24Obj'), types.str])}[kind]
    g1, g2 = graph(), graph()
    world(g1)
    E = jsonenum(class_graph=g2)(Enum('C24Enum', {'RED': 'x', 'DARK': 'r'}))
    klass({'x': types.str.required}, 'C24Obj', g=g2)
    g3, g4 = graph(), graph()
    t3 = {'obj': types.objof('C24Obj'), 'list': types.listof('C24Obj'),
          'enum': types.enum('C24Enum').inputall,
          'union': types.union([types.objof('C24Obj'), types.str])}
    world(g3)
    jsonenum(class_graph=g4)(Enum('C24Enum', {'RED': 'x', 'DARK': 'r'}))
    klass({'x': types.str.required}, 'C24Obj', g=g4)
    K1 = klass({'f': t, 'g': types.int}, 'C24K', g=g1)
    first = sx.bool('first')
    data = raw(sx)
    if first:
        outcome(K1, data)
    K2 = klass({'f': t, 'g': types.int}, 'C24K', g=g2)
    L1 = klass({'f': t3[kind], 'g': types.int}, 'C24K', g=g3)
    L2 = klass({'f': {'obj': types.objof('C24Obj'),
                      'list': types.listof('C24Obj'),
                      'enum': types.enum('C24Enum').inputall,
                      'union': types.union([types.objof('C24Obj'),
                                            types.str])}[kind],
                'g': types.int}, 'C24K', g=g4)
    sx.check(sx.same(outcome(K2, data), outcome(L2, data)) , 'the names are '
             'those of the class')
    sx.check(sx.same(outcome(K1, data), outcome(L1, data)), 'the names are '
             'those of the class')
