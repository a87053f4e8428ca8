"""Symbolic strings (bounded length, bounded alphabet) and regex over them."""
from __future__ import annotations
import re as _re
import z3
from .core import (E, Sym, SymBool, SymInt, wrap_bool, concrete, CONCRETIZERS,
                   const_value, Truncated, ti)

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c


class C:
    """A symbolic character: an Int term and the finite set it ranges over."""
    __slots__ = ('e', 'dom')

    def __init__(self, e, dom):
        self.e = e
        self.dom = dom


def ranges(points):
    pts = sorted(points)
    out = []
    for p in pts:
        if out and out[-1][1] == p - 1:
            out[-1][1] = p
        else:
            out.append([p, p])
    return out


_in_cache = {}


def c_in(c, points):
    """Formula/bool: char c lies in the set `points` (a set of ints)."""
    if type(c) is int:
        return c in points
    sub = c.dom & points
    if not sub:
        return False
    if len(sub) == len(c.dom):
        return True
    neg = len(sub) * 2 > len(c.dom)
    s = (c.dom - sub) if neg else sub
    f = z3.Or([c.e == a if a == b else z3.And(c.e >= a, c.e <= b)
               for a, b in _merge(s, c.dom)])
    return z3.Not(f) if neg else f


def _merge(s, dom):
    """Ranges covering s that contain no other member of dom."""
    key = (s, dom)
    r = _in_cache.get(key)
    if r is None:
        out = []
        cur = None
        for p in sorted(dom):
            if p in s:
                if cur is None:
                    cur = [p, p]
                else:
                    cur[1] = p
            elif cur is not None:
                out.append(cur)
                cur = None
        if cur is not None:
            out.append(cur)
        r = _in_cache[key] = out
    return r


def c_eq(a, b):
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        if b not in a.dom:
            return False
        if len(a.dom) == 1:
            return True
        return a.e == b
    if not (a.dom & b.dom):
        return False
    return a.e == b.e


def AND(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is not True:
            out.append(f)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def OR(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is not False:
            out.append(f)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def NOT(f):
    if f is True or f is False:
        return not f
    return z3.Not(f)


def bfork(f):
    return f if f is True or f is False else E.fork(f)


def mkbool(f):
    return f if f is True or f is False else wrap_bool(f)


def c_map(c, fn):
    """Map a char through fn: str->str where the result is one character."""
    if type(c) is int:
        return ord(fn(chr(c)))
    groups = {}
    for p in c.dom:
        groups.setdefault(ord(fn(chr(p))) - p, set()).add(p)
    if len(groups) == 1:
        d = next(iter(groups))
        if d == 0:
            return c
        return C(c.e + d, frozenset(p + d for p in c.dom))
    items = sorted(groups.items(), key=lambda kv: -len(kv[1]))
    e = c.e + items[0][0]
    for d, pts in items[1:]:
        cond = c_in(c, frozenset(pts))
        e = z3.If(cond, c.e + d, e)
    return C(e, frozenset(ord(fn(chr(p))) for p in c.dom))


def split_multi(c, fn):
    """Resolve characters whose image under fn is not a single character."""
    if type(c) is int:
        return [ord(x) for x in fn(chr(c))]
    odd = [p for p in sorted(c.dom) if len(fn(chr(p))) != 1]
    for p in odd:
        if E.fork(c.e == p):
            return [ord(x) for x in fn(chr(p))]
    if odd:
        c = C(c.e, c.dom - frozenset(odd))
    return [c_map(c, fn)]


def chars_of(x):
    t = type(x)
    if t is SymStr:
        return x.c
    if ti(x, str):
        return [ord(ch) for ch in x]
    return None


def mkstr(chars):
    chars = list(chars)
    for ch in chars:
        if type(ch) is not int:
            return SymStr(chars)
    return ''.join(map(chr, chars))


def is_str(x):
    return ti(x, str)


_ALL = {}


def dom_where(c, pred):
    return frozenset(p for p in c.dom if pred(chr(p)))


def c_pred(c, pred):
    if type(c) is int:
        return pred(chr(c))
    return c_in(c, dom_where(c, pred))


class SymStr(Sym):
    __slots__ = ('c',)

    def __init__(self, chars):
        self.c = list(chars)

    @property
    def __class__(self):
        return str

    def __len__(self): return len(self.c)
    def __bool__(self): return len(self.c) > 0

    def eq_formula(self, o):
        oc = chars_of(o)
        if oc is None:
            return None
        if len(oc) != len(self.c):
            return False
        return AND(c_eq(a, b) for a, b in zip(self.c, oc))

    def __eq__(self, o):
        if o is self:
            return True
        f = self.eq_formula(o)
        return NotImplemented if f is None else mkbool(f)

    def __ne__(self, o):
        f = self.eq_formula(o)
        return NotImplemented if f is None else mkbool(NOT(f))

    def _lt(self, o, orequal):
        oc = chars_of(o)
        if oc is None:
            return NotImplemented
        f = (len(self.c) < len(oc)) or (orequal and len(self.c) == len(oc))
        for a, b in reversed(list(zip(self.c, oc))):
            ae = a if type(a) is int else a.e
            be = b if type(b) is int else b.e
            lt = ae < be
            f = OR([lt, AND([c_eq(a, b), f])])
        return mkbool(f)

    def __lt__(self, o): return self._lt(o, False)
    def __le__(self, o): return self._lt(o, True)

    def __gt__(self, o):
        r = self._lt(o, True)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else SymBool(z3.Not(r.e))

    def __ge__(self, o):
        r = self._lt(o, False)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else SymBool(z3.Not(r.e))

    def __hash__(self):
        E.symkeys = True
        return 78

    def __getitem__(self, i):
        from .instr import clamp_index, clamp_slice
        if type(i) is slice:
            return mkstr(self.c[clamp_slice(i, len(self.c))])
        return mkstr([self.c[clamp_index(i, len(self.c))]])

    def __iter__(self):
        for ch in self.c:
            yield mkstr([ch])

    def __add__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else mkstr(self.c + list(oc))

    def __radd__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else mkstr(list(oc) + self.c)

    def __mul__(self, n):
        return mkstr(self.c * concrete(n))
    __rmul__ = __mul__

    def __contains__(self, o):
        oc = chars_of(o)
        if oc is None:
            raise TypeError("'in <string>' requires string as left operand, "
                            f"not {o.__class__.__name__}")
        return bfork(OR(self._at(oc, i)
                        for i in range(len(self.c) - len(oc) + 1)))

    def _at(self, oc, i):
        if i < 0 or i + len(oc) > len(self.c):
            return False
        return AND(c_eq(a, b) for a, b in zip(self.c[i:i + len(oc)], oc))

    def __mod__(self, o):
        return concrete(self) % o

    def __str__(self): return concrete(self)

    def __repr__(self):
        return repr(concrete(self)) if E.active else f'<SymStr {len(self.c)}>'

    def __format__(self, s): return format(concrete(self), s)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    # -- predicates
    def startswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return mkstr(self.c[slice(_ci(start), _ci(end))]).startswith(p)
        if isinstance(p, tuple):
            return mkbool(OR(_f(self.startswith(q)) for q in p))
        pc = chars_of(p)
        if pc is None:
            raise TypeError('startswith first arg must be str')
        return mkbool(self._at(pc, 0))

    def endswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return mkstr(self.c[slice(_ci(start), _ci(end))]).endswith(p)
        if isinstance(p, tuple):
            return mkbool(OR(_f(self.endswith(q)) for q in p))
        pc = chars_of(p)
        if pc is None:
            raise TypeError('endswith first arg must be str')
        return mkbool(self._at(pc, len(self.c) - len(pc)))

    def _all(self, pred):
        if not self.c:
            return False
        return mkbool(AND(c_pred(c, pred) for c in self.c))

    def isalpha(self): return self._all(str.isalpha)
    def isalnum(self): return self._all(str.isalnum)
    def isdigit(self): return self._all(str.isdigit)
    def isdecimal(self): return self._all(str.isdecimal)
    def isnumeric(self): return self._all(str.isnumeric)
    def isspace(self): return self._all(str.isspace)

    def isascii(self):
        return mkbool(AND(c_pred(c, str.isascii) for c in self.c))

    def isprintable(self):
        return mkbool(AND(c_pred(c, str.isprintable) for c in self.c))

    def _cased(self, ok):
        def cased(ch): return ch.isupper() or ch.islower() or ch.istitle()
        some = OR(c_pred(c, cased) for c in self.c)
        allok = AND(OR([c_pred(c, ok), NOT(c_pred(c, cased))]) for c in self.c)
        return mkbool(AND([some, allok]))

    def isupper(self): return self._cased(str.isupper)
    def islower(self): return self._cased(str.islower)

    # -- case
    def _mapall(self, fn):
        out = []
        for c in self.c:
            out.extend(split_multi(c, fn))
        return mkstr(out)

    def encode(self, encoding='utf-8', errors='strict'):
        return SymBytes(self)

    def upper(self): return self._mapall(str.upper)
    def lower(self): return self._mapall(str.lower)
    def swapcase(self): return self._mapall(str.swapcase)
    def casefold(self): return self._mapall(str.casefold)

    def capitalize(self):
        if not self.c:
            return ''
        return mkstr(split_multi(self.c[0], lambda ch: ch.title())) + \
            mkstr(self.c[1:]).lower()

    def title(self):
        out = []
        prev = False
        for c in self.c:
            if prev:
                out.extend(split_multi(c, str.lower))
            else:
                out.extend(split_multi(c, lambda ch: ch.title()))
            prev = bfork(c_pred(c, lambda ch: ch.isupper() or ch.islower()
                                or ch.istitle()))
        return mkstr(out)

    # -- trimming / padding
    def _strip_pred(self, chars):
        if chars is None:
            return lambda c: c_pred(c, str.isspace)
        cc = chars_of(chars)
        return lambda c: OR(c_eq(c, d) for d in cc)

    def lstrip(self, chars=None):
        p = self._strip_pred(chars)
        i = 0
        while i < len(self.c) and bfork(p(self.c[i])):
            i += 1
        return mkstr(self.c[i:])

    def rstrip(self, chars=None):
        p = self._strip_pred(chars)
        i = len(self.c)
        while i > 0 and bfork(p(self.c[i - 1])):
            i -= 1
        return mkstr(self.c[:i])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars)

    def removeprefix(self, p):
        if bfork(_f(self.startswith(p))):
            return mkstr(self.c[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and bfork(_f(self.endswith(p))):
            return mkstr(self.c[:-len(p)])
        return self

    def ljust(self, w, fill=' '):
        n = concrete(w) - len(self.c)
        f = chars_of(fill)
        if len(f) != 1:
            raise TypeError('The fill character must be exactly one character '
                            'long')
        return mkstr(self.c + list(f) * max(0, n))

    def rjust(self, w, fill=' '):
        n = concrete(w) - len(self.c)
        f = chars_of(fill)
        if len(f) != 1:
            raise TypeError('The fill character must be exactly one character '
                            'long')
        return mkstr(list(f) * max(0, n) + self.c)

    def zfill(self, w):
        n = concrete(w) - len(self.c)
        if n <= 0:
            return self
        z = [48] * n
        if self.c and bfork(c_in(self.c[0], frozenset((43, 45)))):
            return mkstr(self.c[:1] + z + self.c[1:])
        return mkstr(z + self.c)

    def center(self, w, fill=' '):
        return concrete(self).center(concrete(w), concrete(fill))

    # -- searching
    def find(self, sub, start=None, end=None):
        s, e, _ = slice(_ci(start), _ci(end)).indices(len(self.c))
        oc = chars_of(sub)
        for i in range(s, e - len(oc) + 1):
            if bfork(self._at(oc, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rfind(self, sub, start=None, end=None):
        s, e, _ = slice(_ci(start), _ci(end)).indices(len(self.c))
        oc = chars_of(sub)
        for i in range(e - len(oc), s - 1, -1):
            if bfork(self._at(oc, i)):
                return i
        return -1

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        s, e, _ = slice(_ci(start), _ci(end)).indices(len(self.c))
        oc = chars_of(sub)
        if not oc:
            return max(0, e - s + 1)
        n, i = 0, s
        while i + len(oc) <= e:
            if bfork(self._at(oc, i)):
                n += 1
                i += len(oc)
            else:
                i += 1
        return n

    def split(self, sep=None, maxsplit=-1):
        maxsplit = concrete(maxsplit)
        out = []
        if sep is None:
            cur = []
            i = 0
            n = len(self.c)
            while i < n:
                c = self.c[i]
                if bfork(c_pred(c, str.isspace)):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                else:
                    if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                        rest = mkstr(self.c[i:])
                        out.append(rest.rstrip())
                        return out
                    cur.append(c)
                i += 1
            if cur:
                out.append(mkstr(cur))
            return out
        oc = chars_of(sep)
        if not oc:
            raise ValueError('empty separator')
        i = last = 0
        while i + len(oc) <= len(self.c):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if bfork(self._at(oc, i)):
                out.append(mkstr(self.c[last:i]))
                i += len(oc)
                last = i
            else:
                i += 1
        out.append(mkstr(self.c[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if concrete(maxsplit) < 0:
            return self.split(sep)
        return [*concrete(self).rsplit(concrete(sep), concrete(maxsplit))]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):])

    def splitlines(self, keepends=False):
        return concrete(self).splitlines(keepends)

    def replace(self, old, new, count=-1):
        oc, nc = chars_of(old), list(chars_of(new))
        count = concrete(count)
        out = []
        n = 0
        if not oc:
            for c in self.c:
                if count < 0 or n < count:
                    out.extend(nc)
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out.extend(nc)
            return mkstr(out)
        i = 0
        while i < len(self.c):
            if (count < 0 or n < count) and bfork(self._at(oc, i)):
                out.extend(nc)
                n += 1
                i += len(oc)
            else:
                out.append(self.c[i])
                i += 1
        return mkstr(out)

    def join(self, it):
        out = []
        for k, s in enumerate(it):
            if k:
                out.extend(self.c)
            sc = chars_of(s)
            if sc is None:
                raise TypeError(f'sequence item {k}: expected str instance, '
                                f'{s.__class__.__name__} found')
            out.extend(sc)
        return mkstr(out)

    def translate(self, table):
        return concrete(self).translate(table)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if not hasattr(str, n):
            raise AttributeError(f"'str' object has no attribute '{n}'")

        def call(*a, **k):
            from .core import deep_concrete
            return getattr(concrete(self), n)(*[deep_concrete(x) for x in a],
                                              **{q: deep_concrete(x)
                                                 for q, x in k.items()})
        return call


def _f(b):
    """bool/SymBool -> bool/formula"""
    return b.e if type(b) is SymBool else b


def _ci(x):
    return None if x is None else concrete(x)


def _conc_str(s):
    return ''.join(chr(ch if type(ch) is int else E.concretize(ch.e, 'char'))
                   for ch in s.c)


CONCRETIZERS[SymStr] = _conc_str


# -- numbers <-> strings ----------------------------------------------------

def int_to_str(n):
    """str(SymInt): split on sign and number of digits."""
    e = n.e
    out = []
    if E.fork(e < 0):
        out.append(45)
        e = -e
    d = 1
    while not E.fork(e < 10 ** d):
        d += 1
        if d > 20:
            raise Truncated('int_to_str')
    digs = frozenset(range(48, 58))
    for k in range(d - 1, -1, -1):
        t = e if k == 0 else e / (10 ** k)
        t = z3.simplify(t % 10 + 48) if not (k == d - 1) else \
            z3.simplify(t + 48)
        v = const_value(t)
        out.append(v if v is not None else C(t, digs))
    return mkstr(out)


def pad_int(n, width):
    """'%0<width>d' % n for a non-negative SymInt below 10**width."""
    e = n.e
    if E.fork(z3.Or(e < 0, e >= 10 ** width)):
        s = int_to_str(n)
        return s.zfill(width)
    digs = frozenset(range(48, 58))
    out = []
    for k in range(width - 1, -1, -1):
        t = e if k == 0 else e / (10 ** k)
        t = z3.simplify(t % 10 + 48 if k != width - 1 else t + 48)
        v = const_value(t)
        out.append(v if v is not None else C(t, digs))
    return mkstr(out)


_DIG = frozenset(range(48, 58))


def str_to_int(s):
    """int(SymStr) for the ASCII decimal syntax (others: concretised)."""
    t = s.strip()
    cs = list(chars_of(t))
    neg = False
    orig = s

    def bad():
        raise ValueError('invalid literal for int() with base 10')
    if cs and bfork(c_in(cs[0], frozenset((43, 45)))):
        neg = bfork(c_eq(cs[0], 45))
        cs = cs[1:]
    if not cs:
        bad()
    for c in cs:
        if type(c) is not int and any(chr(p).isdecimal() and p not in _DIG
                                      for p in c.dom):
            return int(concrete(orig))
    # underscores between digits are legal
    val = 0
    lastus = True
    for i, c in enumerate(cs):
        if bfork(c_in(c, _DIG)):
            d = c - 48 if type(c) is int else c.e - 48
            val = val * 10 + d
            lastus = False
        elif bfork(c_eq(c, 95)) and not lastus and i + 1 < len(cs):
            lastus = True
        else:
            bad()
    if lastus:
        bad()
    if isinstance(val, int):
        return -val if neg else val
    val = z3.simplify(-val if neg else val)
    v = const_value(val)
    return v if v is not None else SymInt(val)


# -- regex ------------------------------------------------------------------

MAXC = 0x110000


class Unsupported(Exception):
    pass


class RX:
    """Existence matching of a parsed pattern over a symbolic string."""

    def __init__(self, pat, flags=0):
        if isinstance(pat, _re.Pattern):
            flags = pat.flags
            pat = pat.pattern
        self.tree = sre_parse.parse(pat, flags)
        self.flags = self.tree.state.flags
        self.pat = pat
        self._sets = {}

    def set_of(self, c, key, node):
        """Sub-domain of char c accepted by a single-character node."""
        dom = c.dom if type(c) is not int else frozenset((c,))
        k = (key, dom)
        r = self._sets.get(k)
        if r is None:
            r = frozenset(p for p in dom if self.accepts(node, p))
            self._sets[k] = r
        return r

    def accepts(self, node, p):
        op, av = node
        ic = self.flags & _re.IGNORECASE
        ch = chr(p)
        cands = {p}
        if ic:
            for x in (ch.lower(), ch.upper()):
                if len(x) == 1:
                    cands.add(ord(x))
        if op is sre_c.LITERAL:
            return any(q == av for q in cands)
        if op is sre_c.NOT_LITERAL:
            return not any(q == av for q in cands)
        if op is sre_c.ANY:
            return bool(self.flags & _re.DOTALL) or p != 10
        if op is sre_c.IN:
            neg = False
            hit = False
            for o, a in av:
                if o is sre_c.NEGATE:
                    neg = True
                elif o is sre_c.LITERAL:
                    hit = hit or a in cands
                elif o is sre_c.RANGE:
                    hit = hit or any(a[0] <= q <= a[1] for q in cands)
                elif o is sre_c.CATEGORY:
                    hit = hit or self.cat(a, p)
                else:
                    raise Unsupported(str(o))
            return hit != neg
        if op is sre_c.CATEGORY:
            return self.cat(av, p)
        raise Unsupported(str(op))

    def cat(self, a, p):
        ch = chr(p)
        asc = self.flags & _re.ASCII
        if a in (sre_c.CATEGORY_DIGIT, sre_c.CATEGORY_NOT_DIGIT):
            r = ch.isdecimal() and (not asc or p < 128)
            return r != (a is sre_c.CATEGORY_NOT_DIGIT)
        if a in (sre_c.CATEGORY_SPACE, sre_c.CATEGORY_NOT_SPACE):
            r = ch.isspace() and (not asc or p < 128)
            return r != (a is sre_c.CATEGORY_NOT_SPACE)
        if a in (sre_c.CATEGORY_WORD, sre_c.CATEGORY_NOT_WORD):
            r = (ch.isalnum() or ch == '_') and (not asc or p < 128)
            return r != (a is sre_c.CATEGORY_NOT_WORD)
        raise Unsupported(str(a))

    # a "state set" is {pos: formula}
    def seq(self, nodes, st, s):
        for nd in nodes:
            st = self.node(nd, st, s)
            if not st:
                return st
        return st

    @staticmethod
    def merge(a, b):
        for k, f in b.items():
            a[k] = OR([a[k], f]) if k in a else f
        return a

    def node(self, nd, st, s):
        op, av = nd
        n = len(s)
        if op in (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.ANY, sre_c.IN,
                  sre_c.CATEGORY):
            out = {}
            for i, f in st.items():
                if i < n:
                    g = c_in(s[i], self.set_of(s[i], id(nd), nd))
                    h = AND([f, g])
                    if h is not False:
                        out[i + 1] = h
            return out
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, sub = av
            cur = dict(st)
            out = {}
            k = 0
            if lo == 0:
                out = self.merge(out, cur)
            while True:
                if hi is not sre_c.MAXREPEAT and k >= hi:
                    break
                nxt = self.seq(sub, cur, s)
                k += 1
                if k >= lo:
                    out = self.merge(out, dict(nxt))
                if not nxt or k > lo + n + 1:
                    break
                cur = nxt
            return out
        if op is sre_c.SUBPATTERN:
            group, af, df, p = av
            if af or df:
                raise Unsupported('inline flags')
            return self.seq(p, st, s)
        if op is sre_c.BRANCH:
            out = {}
            for alt in av[1]:
                out = self.merge(out, self.seq(alt, dict(st), s))
            return out
        if op is sre_c.AT:
            out = {}
            for i, f in st.items():
                g = self.at(av, i, s)
                h = AND([f, g])
                if h is not False:
                    out[i] = h
            return out
        if op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            direction, p = av
            if direction != 1:
                raise Unsupported('lookbehind')
            out = {}
            for i, f in st.items():
                r = self.seq(p, {i: True}, s)
                g = OR(r.values())
                if op is sre_c.ASSERT_NOT:
                    g = NOT(g)
                h = AND([f, g])
                if h is not False:
                    out[i] = h
            return out
        raise Unsupported(str(op))

    def at(self, av, i, s):
        n = len(s)
        if av is sre_c.AT_BEGINNING:
            if self.flags & _re.MULTILINE:
                return OR([i == 0, c_eq(s[i - 1], 10) if i else False])
            return i == 0
        if av is sre_c.AT_BEGINNING_STRING:
            return i == 0
        if av is sre_c.AT_END:
            if i == n:
                return True
            if self.flags & _re.MULTILINE:
                return c_eq(s[i], 10)
            return c_eq(s[i], 10) if i == n - 1 else False
        if av is sre_c.AT_END_STRING:
            return i == n
        if av in (sre_c.AT_BOUNDARY, sre_c.AT_NON_BOUNDARY):
            def w(j):
                if not 0 <= j < n:
                    return False
                return c_pred(s[j], lambda ch: ch.isalnum() or ch == '_')
            a, b = w(i - 1), w(i)
            x = OR([AND([a, NOT(b)]), AND([NOT(a), b])])
            return x if av is sre_c.AT_BOUNDARY else NOT(x)
        raise Unsupported(str(av))

    def formula(self, mode, s):
        if mode == 'search':
            return OR(f for i in range(len(s) + 1)
                      for f in self.seq(self.tree, {i: True}, s).values())
        r = self.seq(self.tree, {0: True}, s)
        if mode == 'fullmatch':
            return r.get(len(s), False)
        return OR(r.values())

    # -- ordered (backtracking) matching: forks on every character test
    def bt(self, nodes, idx, i, groups, s, k):
        """Yield-free CPS backtracking. k(i, groups) -> result or None."""
        if idx == len(nodes):
            return k(i, groups)
        op, av = nodes[idx]

        def cont(j, g):
            return self.bt(nodes, idx + 1, j, g, s, k)
        if op in (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.ANY, sre_c.IN,
                  sre_c.CATEGORY):
            if i < len(s) and bfork(c_in(s[i], self.set_of(
                    s[i], id(nodes[idx]), nodes[idx]))):
                return cont(i + 1, groups)
            return None
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, sub = av

            def rep(count, j, g, last):
                def more():
                    if hi is not sre_c.MAXREPEAT and count >= hi:
                        return None
                    if count >= lo and j == last:
                        return None
                    return self.bt(sub, 0, j, g, s,
                                   lambda j2, g2: rep(count + 1, j2, g2, j))
                if count < lo:
                    return more()
                if op is sre_c.MAX_REPEAT:
                    r = more()
                    return r if r is not None else cont(j, g)
                r = cont(j, g)
                return r if r is not None else more()
            return rep(0, i, groups, -1)
        if op is sre_c.SUBPATTERN:
            group, af, df, p = av
            if af or df:
                raise Unsupported('inline flags')

            def done(j, g):
                if group is not None:
                    g = dict(g)
                    g[group] = (i, j)
                return cont(j, g)
            return self.bt(p, 0, i, groups, s, done)
        if op is sre_c.BRANCH:
            for alt in av[1]:
                r = self.bt(alt, 0, i, groups, s, cont)
                if r is not None:
                    return r
            return None
        if op is sre_c.AT:
            return cont(i, groups) if bfork(self.at(av, i, s)) else None
        if op in (sre_c.ASSERT, sre_c.ASSERT_NOT):
            direction, p = av
            if direction != 1:
                raise Unsupported('lookbehind')
            r = self.bt(p, 0, i, groups, s, lambda j, g: (j, g))
            ok = (r is not None) == (op is sre_c.ASSERT)
            if not ok:
                return None
            return cont(i, r[1] if r is not None and
                        op is sre_c.ASSERT else groups)
        raise Unsupported(str(op))

    def find_at(self, s, i):
        return self.bt(self.tree, 0, i, {}, s, lambda j, g: (j, g))


class SymMatch:
    """Result of a symbolic match that is known to exist on this path."""

    def __init__(self, rx, string, mode):
        self.rx = rx
        self.string = string
        self.mode = mode
        self._r = None

    def _resolve(self):
        if self._r is None:
            s = chars_of(self.string)
            if self.mode == 'fullmatch':
                r = self.rx.bt(self.rx.tree, 0, 0, {}, s,
                               lambda j, g: (j, g) if j == len(s) else None)
                self._r = (0, *r)
            else:
                for i in range(len(s) + 1):
                    r = self.rx.find_at(s, i)
                    if r is not None:
                        self._r = (i, *r)
                        break
                    if self.mode == 'match':
                        break
        return self._r

    def span(self, g=0):
        i, j, gs = self._resolve()
        if g == 0:
            return i, j
        if isinstance(g, str):
            g = self.rx.tree.state.groupdict[g]
        return gs.get(g, (-1, -1))

    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]

    def _g(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else mkstr(chars_of(self.string)[a:b])

    def group(self, *gs):
        if not gs:
            return self._g(0)
        if len(gs) == 1:
            return self._g(gs[0])
        return tuple(self._g(g) for g in gs)

    __getitem__ = _g

    def groups(self, default=None):
        return tuple(self._g(g, default)
                     for g in range(1, self.rx.tree.state.groups))

    def groupdict(self, default=None):
        return {n: self._g(n, default)
                for n in self.rx.tree.state.groupdict}

    def __bool__(self): return True


_rx_cache = {}


def get_rx(pat, flags):
    k = (pat, int(flags))
    r = _rx_cache.get(k)
    if r is None:
        r = _rx_cache[k] = RX(pat, int(flags))
    return r


def re_call(name, pat, string, *args, **kw):
    """re.<name>(pat, string, ...) with a symbolic string."""
    pat = concrete(pat)
    if name in ('match', 'search', 'fullmatch'):
        flags = args[0] if args else kw.get('flags', 0)
        try:
            rx = get_rx(pat, flags)
            f = rx.formula(name, chars_of(string))
        except Unsupported:
            return getattr(_re, name)(pat, concrete(string), flags)
        return SymMatch(rx, string, name) if bfork(f) else None
    if name == 'split':
        maxsplit = args[0] if args else kw.get('maxsplit', 0)
        flags = args[1] if len(args) > 1 else kw.get('flags', 0)
        rx = get_rx(pat, flags)
        s = chars_of(string)
        out, last, i, n = [], 0, 0, 0
        while i <= len(s):
            if maxsplit and n >= maxsplit:
                break
            r = rx.find_at(s, i)
            if r is None or (r[0] == i and i == last and False):
                i += 1
                continue
            j, g = r
            out.append(mkstr(s[last:i]))
            for q in range(1, rx.tree.state.groups):
                out.append(mkstr(s[g[q][0]:g[q][1]]) if q in g else None)
            n += 1
            last = j
            i = j if j > i else i + 1
        out.append(mkstr(s[last:]))
        return out
    if name in ('sub', 'subn'):
        repl, text = string, args[0]
        count = args[1] if len(args) > 1 else kw.get('count', 0)
        flags = args[2] if len(args) > 2 else kw.get('flags', 0)
        rx = get_rx(pat, flags)
        if isinstance(repl, str) and '\\' in concrete(repl):
            tmpl = concrete(repl)

            def rep(m):
                out = []
                for piece in _re.split(r'(\\\d)', tmpl):
                    if _re.fullmatch(r'\\\d', piece):
                        v = m._g(int(piece[1]))
                        out.extend(chars_of(v) if v is not None else [])
                    else:
                        out.extend(chars_of(piece))
                return mkstr(out)
        elif isinstance(repl, str):
            def rep(m): return repl
        else:
            rep = repl
        s = chars_of(text)
        out, i, n = [], 0, 0
        while i <= len(s):
            r = rx.find_at(s, i) if not (count and n >= count) else None
            if r is None:
                if i < len(s):
                    out.append(s[i])
                i += 1
                continue
            m = SymMatch(rx, text, 'search')
            m._r = (i, *r)
            out.extend(chars_of(rep(m)))
            n += 1
            if r[0] > i:
                i = r[0]
            else:
                if i < len(s):
                    out.append(s[i])
                i += 1
        res = mkstr(out)
        return (res, n) if name == 'subn' else res
    if name in ('findall', 'finditer'):
        rx = get_rx(pat, args[0] if args else kw.get('flags', 0))
        s = chars_of(string)
        ms, i = [], 0
        while i <= len(s):
            r = rx.find_at(s, i)
            if r is None:
                i += 1
                continue
            m = SymMatch(rx, string, 'search')
            m._r = (i, *r)
            ms.append(m)
            i = r[0] if r[0] > i else i + 1
        if name == 'finditer':
            return iter(ms)
        ng = rx.tree.state.groups - 1
        return [m.group() if ng == 0 else
                (m._g(1, '') if ng == 1 else
                 tuple(m._g(q, '') for q in range(1, ng + 1))) for m in ms]
    from .core import deep_concrete
    return getattr(_re, name)(pat, *deep_concrete([string, *args]), **kw)


class SymBytes:
    """The bytes of a symbolic string: passed on and decoded, not examined."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def decode(self, encoding='utf-8', errors='strict'):
        return self.s

    def __len__(self):
        return len(self.s)

    def __bool__(self):
        return len(self.s) > 0

    def __eq__(self, o):
        if type(o) is SymBytes:
            return self.s == o.s
        if type(o) is bytes:
            return self.s == o.decode()
        return NotImplemented

    __hash__ = None
