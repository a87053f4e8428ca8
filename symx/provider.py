"""Symbolic provider of the harness API."""
from __future__ import annotations
import z3
from .core import (E, Sym, SymBool, SymInt, SymFloat, concrete, const_value,
                   is_sym, num_term, ti, wrap_bool)
from .strs import C, SymStr, mkstr, chars_of, AND, OR, NOT, c_pred
from .sx import Base


def fm(x):
    """truth value as python bool or z3 formula, without forking."""
    if x is True or x is False:
        return x
    t = type(x)
    if t is SymBool:
        return x.e
    if ti(x, z3.BoolRef):
        return x
    if x is None:
        return False
    if issubclass(t, Sym):
        if t is SymStr:
            return len(x.c) > 0
        return x.e != 0
    return bool(x)


def wb(f):
    return f if f is True or f is False else wrap_bool(f)


class SymSX(Base):
    symbolic = True

    def __init__(self, tier):
        self.tier = tier

    def _name(self, n):
        k = E.names.get(n, 0)
        E.names[n] = k + 1
        return n if k == 0 else f'{n}#{k}'

    def int(self, name, lo, hi):
        name = self._name(name)
        v = z3.Int(name)
        E.add(z3.And(v >= lo, v <= hi))
        E.bounds[name] = (lo, hi)
        if E.model is not None and E.model_ok:
            mv = E.model.eval(v, model_completion=False)
            mv = const_value(mv)
            if mv is None or not lo <= mv <= hi:
                if E.pos >= len(E.prefix):
                    E.model_ok = False
        E.values.append((name, lambda m: const_value(
            m.eval(v, model_completion=True))))
        return SymInt(v) if lo != hi else lo

    def float(self, name, lo, hi, den=8):
        """Multiples of 1/den in [lo, hi] (exactly representable)."""
        name = self._name(name)
        v = z3.Int(name + '*')
        E.add(z3.And(v >= int(lo * den), v <= int(hi * den)))
        E.bounds[name + '*'] = (int(lo * den), int(hi * den))
        if E.pos >= len(E.prefix):
            E.model_ok = False
        E.values.append((name, lambda m: const_value(
            m.eval(v, model_completion=True)) / den))
        return SymFloat(z3.ToReal(v) / den)

    def str(self, name, maxlen, alphabet, minlen=0):
        name = self._name(name)
        n = minlen + E.choose(name + '.len', maxlen - minlen + 1)
        dom = frozenset(ord(c) for c in alphabet)
        cs = []
        for i in range(n):
            v = z3.Int(f'{name}[{i}]')
            pts = sorted(dom)
            E.bounds[f'{name}[{i}]'] = (pts[0], pts[-1])
            rs = []
            for p in pts:
                if rs and rs[-1][1] == p - 1:
                    rs[-1][1] = p
                else:
                    rs.append([p, p])
            E.add(z3.Or([z3.And(v >= a, v <= b) for a, b in rs]))
            cs.append(C(v, dom) if len(dom) > 1 else pts[0])
        if n and E.pos >= len(E.prefix):
            E.model_ok = False

        def read(m):
            return ''.join(chr(c if type(c) is int else const_value(
                m.eval(c.e, model_completion=True))) for c in cs)
        E.values.append((name, read))
        return mkstr(cs)

    def choice(self, name, n):
        name = self._name(name)
        i = E.choose(name, n)
        E.values.append((name, lambda m: i))
        return i

    def assume(self, c):
        c = fm(c)
        if c is True:
            return
        if c is False:
            from .core import Infeasible
            raise Infeasible()
        E.assume(c)

    def check(self, c, msg):
        c = fm(c)
        E.check(c, msg)

    def reach(self, label):
        # a label counts only when the solver confirms the path condition
        if label not in E.reach:
            E._model()
            E.reach[label] = 0
        E.reach[label] += 1
        E.labels.append(label)

    def And(self, *a): return wb(AND(fm(x) for x in a))
    def Or(self, *a): return wb(OR(fm(x) for x in a))
    def Not(self, a): return wb(NOT(fm(a)))
    def Implies(self, a, b): return wb(OR([NOT(fm(a)), fm(b)]))

    def Iff(self, a, b):
        a, b = fm(a), fm(b)
        if a is True or a is False:
            a, b = b, a
        if b is True:
            return wb(a)
        if b is False:
            return wb(NOT(a))
        return wb(a == b)

    def Ite(self, c, a, b):
        c = fm(c)
        if c is True:
            return a
        if c is False:
            return b
        ta, tb = num_term(a), num_term(b)
        if ta is not None and tb is not None and ta[1] == tb[1]:
            e = z3.If(c, ta[0], tb[0])
            return SymFloat(e) if ta[1] else SymInt(e)
        return a if E.fork(c) else b

    def eq(self, a, b):
        if ti(a, (list, tuple)) and ti(b, (list, tuple)) and \
                ti(a, list) == ti(b, list):
            if len(a) != len(b):
                return False
            return self.And(*[self.eq(x, y) for x, y in zip(a, b)])
        if ti(a, dict) and ti(b, dict):
            return self._dict(a, b, self.eq)
        r = a == b
        return wb(fm(r))

    def _dict(self, a, b, eq):
        if len(a) != len(b):
            return False
        out = []
        for k, v in a.items():
            if is_sym(k) or any(is_sym(x) for x in b):
                # some key of b equals k and carries an equal value
                out.append(self.Or(*[self.And(self.eq(k, k2), eq(v, v2))
                                     for k2, v2 in b.items()]))
            elif k not in b:
                return False
            else:
                out.append(eq(v, b[k]))
        return self.And(*out)

    def same(self, a, b):
        if ti(a, bool) != ti(b, bool):
            return False
        if ti(a, int) and ti(b, float) or \
                ti(a, float) and ti(b, int):
            return False
        if ti(a, (list, tuple)) and ti(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.And(*[self.same(x, y) for x, y in zip(a, b)])
        if ti(a, dict) and ti(b, dict):
            return self._dict(a, b, self.same)
        if a is b:
            return True
        r = a == b
        return wb(fm(r))

    def concrete(self, x):
        return concrete(x)

    def all_chars(self, s, pred):
        return wb(AND(c_pred(c, pred) for c in chars_of(s)))

    def any_char(self, s, pred):
        return wb(OR(c_pred(c, pred) for c in chars_of(s)))

    def contains(self, s, sub):
        sc, oc = chars_of(s), chars_of(sub)
        return wb(OR(SymStr(sc)._at(oc, i)
                     for i in range(len(sc) - len(oc) + 1)))

    def re_match(self, how, pattern, s, flags=0):
        """Whether re.<how>(pattern, s) matches, as a formula."""
        from .strs import get_rx
        if type(s) is not SymStr:
            import re
            return getattr(re, how)(pattern, s, flags) is not None
        return wb(get_rx(pattern, flags).formula(how, chars_of(s)))
