"""Helpers shared by the harness modules."""
from jsonclasses import jsonclass
from jsonclasses.excs import ValidationException

COUNT = [0]


def graph():
    """A fresh class graph name."""
    COUNT[0] += 1
    return f'h{COUNT[0]}'


def klass(fields, name='K', conf=None, g=None, ann=None):
    """A new json class with the given {field name: types} definitions."""
    ns = {'__annotations__': {k: (ann or {}).get(k, object) for k in fields},
          '__module__': __name__, '__qualname__': name}
    ns.update(fields)
    cls = type(name, (), ns)
    return jsonclass(class_graph=g or graph(), **(conf or {}))(cls)


def vexc(fn):
    """The ValidationException raised by fn, or None."""
    try:
        fn()
    except ValidationException as e:
        return e
    return None


def valid(obj):
    return vexc(lambda: obj.validate()) is None


def persisted(obj):
    obj._mark_unmodified()
    return obj


def roots(obj):
    return {f.split('.')[0] for f in obj.modified_fields}


PARAM_FORMS = ['const', 'call0', 'call1', 'call2', 'types']


def param(form, value):
    """A modifier parameter in one of the accepted forms."""
    from jsonclasses import types
    if form == 'const':
        return value
    if form == 'call0':
        return lambda: value
    if form == 'call1':
        return lambda obj: value
    if form == 'call2':
        return lambda obj, ctx: value
    if form == 'types':
        return types.default(lambda: value)
    raise ValueError(form)
