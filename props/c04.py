"""C04: validation accepts exactly the values of the declared type, whatever
the input, and reports everything else as a validation error."""
from datetime import date, datetime, timezone
from enum import Enum
from symx.sx import Registry
from jsonclasses import types
from jsonclasses.excs import ValidationException
from props.util import graph, klass, vexc

H = Registry()
BOUNDS = {
    'types': 'int, float, bool, str, date, datetime, enum, any, object, '
             'union, and lists/dicts of them (two container levels), items '
             'required or optional, field required or optional',
    'values': 'null, bool, int, float, string, list, dict, date, datetime, '
              'enum member, object of the class / of another class, arbitrary '
              'plain object; containers of 0..2 arbitrary items (inner ones of '
              '0..1)'}
ASSUMPTIONS = ['only JSON kinds and the listed Python kinds are supplied']


class Color(Enum):
    RED = 1
    BLUE = 2


class Plain:
    """Something that is no JSON value at all."""


INNER = klass({'x': types.int, 'y': types.str.required}, 'C04Inner', g='c04')
OTHER = klass({'x': types.int}, 'C04Other', g='c04')


def new_class(fields):
    return klass(fields, name=graph().upper(), g='c04')

# descriptors: (kind, required, args...)
SCALAR = ('int', 'float', 'bool', 'str', 'date', 'datetime', 'any')


def build(d, item=False):
    k, req = d[0], d[1]
    if k in SCALAR:
        t = getattr(types, k)
    elif k == 'enum':
        t = types.enum(Color)
    elif k == 'obj':
        t = types.objof(INNER)
    elif k == 'list':
        t = types.listof(build(d[2], True))
    elif k == 'dict':
        t = types.dictof(build(d[2], True))
    elif k == 'union':
        t = types.union([build(x) for x in d[2]])
    else:
        raise ValueError(k)
    return t.required if req else t.nullable if item else t


def conforms(d, v):
    """The documented meaning of a type, written independently."""
    k, req = d[0], d[1]
    if v is None:
        return not req
    if k == 'any':
        return True
    if k == 'int':
        return type(v) is int
    if k == 'bool':
        return type(v) is bool
    if k == 'float':
        return isinstance(v, float)
    if k == 'str':
        return isinstance(v, str)
    if k == 'date':
        return isinstance(v, date)
    if k == 'datetime':
        return isinstance(v, datetime)
    if k == 'enum':
        return isinstance(v, Color)
    if k == 'obj':
        return isinstance(v, INNER) and conforms(('int', False), v.x) and \
            conforms(('str', True), v.y)
    if k == 'list':
        return isinstance(v, list) and all(conforms(d[2], x) for x in v)
    if k == 'dict':
        return isinstance(v, dict) and all(conforms(d[2], x)
                                           for x in v.values())
    if k == 'union':
        return any(conforms(x, v) for x in d[2])
    raise ValueError(k)


KINDS = ['none', 'bool', 'int', 'float', 'str', 'date', 'datetime', 'enum',
         'obj', 'badobj', 'otherobj', 'plain', 'list', 'dict']
FLAT = [k for k in KINDS if k not in ('list', 'dict')]


def deep(d):
    """How far the values for a type are nested."""
    if d[0] == 'union':
        return max(deep(x) for x in d[2])
    return 1 + deep(d[2]) if d[0] in ('list', 'dict') else 0


def gen(sx, name, depth, few=False):
    k = sx.pick(name, ['none', 'int', 'str', 'obj', 'elist'] if few else
                KINDS if depth > 0 else FLAT + ['elist'])
    if k == 'elist':
        return []
    if k == 'none':
        return None
    if k == 'bool':
        return sx.bool(name + '.b')
    if k == 'int':
        return sx.int(name + '.i', -10**9, 10**9)
    if k == 'float':
        return sx.float(name + '.f', -999, 999)
    if k == 'str':
        return sx.str(name + '.s', 2, 'ab1')
    if k == 'date':
        return date(2020, 5, 4)
    if k == 'datetime':
        return datetime(2020, 5, 4, 3, 2, 1)
    if k == 'enum':
        return Color.BLUE
    if k == 'obj':
        return INNER(x=1, y='a')
    if k == 'badobj':
        o = INNER(x=1)
        o.y = sx.pick(name + '.y', [None, 5])
        return o
    if k == 'otherobj':
        return OTHER(x=1)
    if k == 'plain':
        return Plain()
    n = sx.choice(name + '.n', 2 if name.count('.') else 3)
    items = [gen(sx, f'{name}.{i}', depth - 1, i == 1) for i in range(n)]
    if n == 2 and sx.bool(name + '.swap'):
        items.reverse()
    if k == 'list':
        return items
    return {'ab'[i]: x for i, x in enumerate(items)}


LEAVES = ['int', 'float', 'bool', 'str', 'date', 'datetime', 'any', 'enum',
          'obj']
TYPES = [(k, r) for k in LEAVES for r in (True, False)]
TYPES += [(c, r, (k, q)) for c in ('list', 'dict') for k in LEAVES
          for r, q in ((True, True), (False, False))]
TYPES += [('list', True, ('list', True, ('int', True))),
          ('list', False, ('dict', False, ('str', False))),
          ('dict', True, ('list', True, ('str', True))),
          ('dict', False, ('dict', True, ('bool', False))),
          ('list', True, ('list', False, ('obj', True)))]
TYPES += [('union', True, (('int', False), ('str', False))),
          ('union', False, (('bool', False), ('float', False))),
          ('union', False, (('int', False), ('list', False, ('str', True)))),
          ('list', True, ('union', True, (('int', False), ('enum', False)))),
          ('union', False, (('obj', False), ('str', False)))]


@H(configs=TYPES, reach=('accepted', 'rejected'))
def assigned(sx, d):
    """An assigned value passes validation iff it is of the declared type."""
    obj = new_class({'a': build(d), 'b': types.str})()
    v = gen(sx, 'v', max(1, deep(d)))
    obj.a = v
    e = vexc(lambda: obj.validate())
    ok = conforms(d, v)
    if e is None:
        sx.reach('accepted')
        sx.check(ok, f'{d[0]}: an accepted value is of the declared type')
    else:
        sx.reach('rejected')
        sx.check(not ok, f'{d[0]}: a value of the declared type is accepted')
        sx.check(all(k == 'a' or k.startswith('a.')
                     for k in e.keypath_messages),
                 'the error names the field')
    sx.check(obj.is_valid == ok, 'is_valid agrees with validate')


JSON = ['none', 'bool', 'int', 'float', 'str', 'list', 'dict']


def json_value(sx, name, depth, few=False):
    """An arbitrary JSON value, dates, names and objects included."""
    k = sx.pick(name, ['none', 'int', 'str'] if few else JSON + ['datestr', 'name', 'objdict'] if depth > 0 else
                JSON[:5] + ['datestr', 'name', 'objdict'])
    if k == 'datestr':
        return '2020-05-04'
    if k == 'name':
        return 'RED'
    if k == 'objdict':
        r = {}
        if sx.bool(name + '.hasx'):
            r['x'] = sx.pick(name + '.x', [None, 'q', 7])
        if sx.bool(name + '.hasy'):
            r['y'] = sx.pick(name + '.y', [None, 'q', 7])
        return r
    if k == 'none':
        return None
    if k == 'bool':
        return sx.bool(name + '.b')
    if k == 'int':
        return sx.int(name + '.i', -10**9, 10**9)
    if k == 'float':
        return sx.float(name + '.f', -999, 999)
    if k == 'str':
        return sx.str(name + '.s', 2, 'ab1')
    n = sx.choice(name + '.n', 2 if name.count('.') else 3)
    items = [json_value(sx, f'{name}.{i}', depth - 1, i == 1)
             for i in range(n)]
    if n == 2 and sx.bool(name + '.swap'):
        items.reverse()
    return items if k == 'list' else {'xy'[i]: x for i, x in enumerate(items)}


REJECT = object()


def taken(d, v):
    """What the field should hold for JSON input v, or REJECT."""
    k = d[0]
    if v is None:
        return REJECT if d[1] else None
    if k == 'any':
        return v
    if k in ('int', 'bool'):
        return v if conforms(d, v) else REJECT
    if k == 'float':
        if type(v) is int:
            return float(v)
        return v if isinstance(v, float) else REJECT
    if k == 'str':
        return v if isinstance(v, str) else REJECT
    if k in ('date', 'datetime'):
        if not isinstance(v, str) or v != '2020-05-04':
            return REJECT
        return date(2020, 5, 4) if k == 'date' else \
            datetime(2020, 5, 4, tzinfo=timezone.utc)
    if k == 'enum':
        return Color.RED if isinstance(v, str) and v == 'RED' else REJECT
    if k == 'obj':
        if not isinstance(v, dict):
            return REJECT
        x = taken(('int', False), v.get('x'))
        y = taken(('str', True), v.get('y'))
        return REJECT if x is REJECT or y is REJECT else (x, y)
    if k == 'list':
        if not isinstance(v, list):
            return REJECT
        r = [taken(d[2], x) for x in v]
        return REJECT if any(x is REJECT for x in r) else r
    if k == 'dict':
        if not isinstance(v, dict):
            return REJECT
        r = {a: taken(d[2], x) for a, x in v.items()}
        return REJECT if any(x is REJECT for x in r.values()) else r
    raise ValueError(k)


def plain(v):
    """Field values with objects written as (x, y)."""
    if isinstance(v, INNER):
        return (v.x, v.y)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {a: plain(x) for a, x in v.items()}
    return v


@H(configs=[(d, how) for d in TYPES for how in ('init', 'set')],
   reach=('accepted', 'rejected'))
def received(sx, cfg):
    """Any JSON input ends as a validation error or a well typed object."""
    d, how = cfg
    cls = new_class({'a': build(d), 'b': types.str})
    v = json_value(sx, 'v', max(1, deep(d)))
    box = []
    union = 'union' in str(d)
    want = None if union else taken(d, v)

    def go():
        if how == 'init':
            box.append(cls(a=v))
        else:
            box.append(cls())
            box[0].set(a=v)
        box.append('taken')
        box[0].validate()
    e = vexc(go)
    if e is None:
        sx.reach('accepted')
        sx.check(conforms(d, box[0].a),
                 f'{d[0]}: an accepted input is of the declared type')
        if not union:
            sx.check(want is not REJECT, f'{d[0]}: input of a wrong kind is '
                     'rejected')
            sx.check(sx.same(plain(box[0].a), want),
                     f'{d[0]}: an accepted input is stored as given')
    else:
        if not union:
            sx.check(want is REJECT, f'{d[0]}: well formed input is accepted')
        sx.reach('rejected')
        sx.check(len(e.keypath_messages) > 0 and
                 all(k == 'a' or k.startswith('a.')
                     for k in e.keypath_messages),
                 'the error names the field')
        if len(box) == 2:
            sx.check(not conforms(d, box[0].a),
                     f'{d[0]}: a well typed object is accepted')


LINK_KINDS = ['none', 'bool', 'int', 'str', 'elist', 'list', 'obj', 'other',
              'objlist', 'mixlist', 'otherlist', 'nulllist', 'dict', 'plain']


def link_value(sx, cls, other, k, conc):
    if k in ('none', 'bool', 'int', 'str', 'elist', 'list', 'dict'):
        return sx.value('v', k)
    if k == 'obj':
        return cls(id=1)
    if k == 'other':
        return other(id=1)
    if k == 'objlist':
        return [cls(id=1), cls(id=2)]
    if k == 'mixlist':
        return [cls(id=1), sx.int('m', -9, 9)]
    if k == 'otherlist':
        return [other(id=1)]
    if k == 'nulllist':
        return [cls(id=1), None]
    return Plain()


@H(configs=[(f, k, n) for f in ('one', 'many', 'back', 'thru')
            for k in LINK_KINDS for n in ('new', 'old')])
def linked(sx, cfg):
    """Fields that link objects: the same, for any assigned value."""
    f, k, age = cfg
    g = graph()
    A = klass({'id': types.int.primary.required,
               'one': types.objof('C04B').linkto,
               'many': types.listof('C04B').linkto}, 'C04A', g=g)
    B = klass({'id': types.int.primary.required,
               'back': types.listof('C04A').linkedby('one'),
               'thru': types.listof('C04A').linkedby('many')}, 'C04B', g=g)
    cls, tgt = (A, B) if f in ('one', 'many') else (B, A)
    obj = cls(id=9)
    if age == 'old':
        obj._mark_unmodified()
    v = link_value(sx, tgt, OTHER2, k, None)
    setattr(obj, f, v)
    e = vexc(lambda: obj.validate())
    if f == 'one':
        ok = v is None or isinstance(v, tgt)
    else:
        ok = v is None or (isinstance(v, list) and all(
            x is None or isinstance(x, tgt) for x in v))
    if v is None and f != 'one':
        return
    if k == 'nulllist':
        # whether null items are allowed follows from the item declaration
        return
    sx.check((e is None) == ok,
             'a linked field accepts exactly objects of its class')


OTHER2 = klass({'id': types.int.primary}, 'C04Other2')


@H(configs=[(f, k, how) for f in ('one', 'many', 'back', 'thru')
            for k in ('none', 'bool', 'int', 'str', 'list', 'elist', 'dict',
                      'objdict', 'objdicts', 'mixdicts')
            for how in ('init', 'set')])
def linked_received(sx, cfg):
    f, k, how = cfg
    g = graph()
    A = klass({'id': types.int.primary.required,
               'one': types.objof('C04B').linkto,
               'many': types.listof('C04B').linkto}, 'C04A', g=g)
    B = klass({'id': types.int.primary.required,
               'back': types.listof('C04A').linkedby('one'),
               'thru': types.listof('C04A').linkedby('many')}, 'C04B', g=g)
    cls, tgt = (A, B) if f in ('one', 'many') else (B, A)
    i = sx.int('i', 1, 99)
    if k == 'objdict':
        v = {'id': i}
    elif k == 'objdicts':
        j = sx.int('j', 1, 99)
        sx.assume(i != j)
        v = [{'id': i}, {'id': j}]
    elif k == 'mixdicts':
        v = [{'id': i}, sx.json('m', ['none', 'int', 'str', 'list'])]
    else:
        v = sx.value('v', k)
    box = []

    def go():
        if how == 'init':
            box.append(cls(id=100, **{f: v}))
        else:
            box.append(cls(id=100))
            box[0].set(**{f: v})
        box[0].validate()
    e = vexc(go)
    if e is None:
        got = getattr(box[0], f)
        if f == 'one':
            sx.check(got is None or isinstance(got, tgt),
                     'an accepted link is an object of its class')
        else:
            sx.check(got is None or isinstance(got, list) and all(
                x is None or isinstance(x, tgt) for x in got),
                'accepted links are objects of their class')
    elif k in ('objdict', 'objdicts'):
        sx.check((f == 'one') != (k == 'objdict'),
                 'well formed linked objects are accepted')
