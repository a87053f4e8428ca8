"""Harness API, shared by the symbolic run and the concrete replay."""
from __future__ import annotations


class Violation(BaseException):
    """Raised by the concrete provider when an assertion is false."""


class Skip(BaseException):
    """Raised by the concrete provider when an assumption is false."""


class Registry(list):
    """Collects the harnesses of one property module."""

    def __call__(self, configs=(None,), thorough=None, reach=()):
        """configs: the quick tier's concrete configurations; thorough: the
        configurations of the thorough tier (default: the same)."""
        def deco(fn):
            self.append(dict(name=fn.__name__, fn=fn, quick=list(configs),
                             thorough=list(thorough if thorough is not None
                                           else configs),
                             reach=tuple(reach)))
            return fn
        return deco

    def get(self, name):
        return next(h for h in self if h['name'] == name)


class Base:
    """Operations common to both providers."""
    tier = 'quick'

    def pick(self, name, options):
        options = list(options)
        return options[self.choice(name, len(options))]

    def bool(self, name):
        return self.choice(name, 2) == 1

    def raises(self, exc, fn):
        """Run fn; return the exception if it is an instance of exc, None if
        it returned. Other exceptions propagate (and are violations)."""
        try:
            fn()
        except exc as e:
            return e
        return None

    def all_eq(self, xs, ys):
        if len(xs) != len(ys):
            return False
        return self.And(*[self.same(a, b) for a, b in zip(xs, ys)])

    def contains_item(self, xs, v):
        return self.Or(*[self.eq(x, v) for x in list(xs)])

    def json(self, name, kinds, **kw):
        """An arbitrary value of one of the given kinds."""
        k = self.pick(name + '.kind', kinds)
        return self.value(name, k, **kw)

    def value(self, name, k, lo=-3, hi=3, slen=2, alpha='ab1'):
        if k == 'none':
            return None
        if k == 'bool':
            return self.bool(name + '.b')
        if k == 'int':
            return self.int(name + '.i', lo, hi)
        if k == 'float':
            return self.float(name + '.f', lo, hi)
        if k == 'str':
            return self.str(name + '.s', slen, alpha)
        if k == 'list':
            return [self.int(name + '.l0', lo, hi)]
        if k == 'elist':
            return []
        if k == 'slist':
            return [self.str(name + '.l0', slen, alpha)]
        if k == 'dict':
            return {'k': self.int(name + '.d0', lo, hi)}
        if k == 'edict':
            return {}
        raise ValueError(k)


class ConcSX(Base):
    """Concrete provider used by replay: values come from a solver model."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.used = {}
        self.labels = []

    def _name(self, n):
        k = self.used.get(n, 0)
        self.used[n] = k + 1
        return n if k == 0 else f'{n}#{k}'

    def int(self, name, lo, hi):
        return self.values.get(self._name(name), lo)

    def float(self, name, lo, hi, den=8):
        return float(self.values.get(self._name(name), lo))

    def str(self, name, maxlen, alphabet, minlen=0):
        return self.values.get(self._name(name), alphabet[0] * minlen)

    def choice(self, name, n):
        return self.values.get(self._name(name), 0)

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg):
        if not c:
            raise Violation(msg)

    def reach(self, label):
        self.labels.append(label)

    def And(self, *a): return all(a)
    def Or(self, *a): return any(a)
    def Not(self, a): return not a
    def Implies(self, a, b): return (not a) or bool(b)
    def Iff(self, a, b): return bool(a) == bool(b)
    def Ite(self, c, a, b): return a if c else b

    def eq(self, a, b):
        return a == b

    def same(self, a, b):
        """Equality of value and (recursively) of JSON type."""
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if isinstance(a, int) and isinstance(b, float) or \
                isinstance(a, float) and isinstance(b, int):
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y)
                                            for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(
                k in b and self.same(v, b[k]) for k, v in a.items())
        if a is b:
            return True
        return a == b

    def concrete(self, x):
        return x

    def all_chars(self, s, pred):
        return all(pred(c) for c in s)

    def any_char(self, s, pred):
        return any(pred(c) for c in s)

    def contains(self, s, sub):
        return sub in s

    def re_match(self, how, pattern, s, flags=0):
        import re
        return getattr(re, how)(pattern, s, flags) is not None
