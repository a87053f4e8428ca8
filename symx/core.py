"""Engine: path exploration, solver, numeric proxies."""
from __future__ import annotations
import time
import z3

z3.set_param('auto_config', True)


class Control(BaseException):
    """Engine control flow. Never caught by instrumented code."""


class Infeasible(Control):
    """The current path condition has become unsatisfiable / was assumed away."""


class Truncated(Control):
    """The current path ran into an engine bound (concretisation, steps)."""


class CheckFailed(Control):
    def __init__(self, msg, values):
        super().__init__(msg)
        self.msg = msg
        self.values = values


class EngineError(Control):
    """Something is wrong with the engine itself (nondeterminism, unknown)."""


CONC_LIMIT = 64
STEP_LIMIT = 400_000


class Engine:
    """Depth-first exploration by re-execution of decision prefixes."""

    def __init__(self, timeout_ms=20000):
        self.timeout_ms = timeout_ms
        self.reset_stats()
        self.active = False
        self.functions = set()

    def reset_stats(self):
        self.stats = dict(paths=0, infeasible=0, truncated=0, forks=0,
                          queries=0, checks=0, checks_symbolic=0,
                          checks_concrete=0, concretised=0, unknown=0,
                          max_depth=0, bounds=0)
        self.solver_s = 0.0
        self.reach = {}
        self.trunc_sites = {}
        self.samples = []

    # -- one path ---------------------------------------------------------
    def start_path(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.SolverFor('QF_LIRA') if False else z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.model = model if not prefix or model is not None else None
        self.model_ok = model is not None or not prefix
        self.names = {}
        self.bounds = {}       # declared range of each variable
        self.bcache = {}       # term id -> (term, lo, hi)
        self.values = []       # (name, kind, payload) to be read from a model
        self.symkeys = False
        self.steps = 0
        self.conc_count = 0
        self.pending = []
        self.active = True
        self.labels = []

    def _model(self):
        """A model of the current path condition."""
        if self.model is None or not self.model_ok:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                self.stats['unknown'] += 1
                raise Truncated('solver unknown')
            self.model = self.solver.model()
            self.model_ok = True
        return self.model

    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.solver_s += time.perf_counter() - t
        self.stats['queries'] += 1
        return r

    def add(self, c):
        self.solver.add(c)

    def assume(self, c):
        """Constrain the path by c (a z3 Bool)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if self.model is not None and self.model_ok:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model_ok = False
        # feasibility is established lazily, but assumptions are checked at
        # once so that no assertion is evaluated on an infeasible path
        if self.pos >= len(self.prefix):
            self._model()

    def fork(self, c):
        """Decide a z3 Bool on this path; the other side is explored later."""
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        b = self.by_bounds(c)
        if b is not None:
            self.stats['bounds'] += 1
            return b
        h = 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != 'b':
                raise EngineError(f'nondeterministic replay at {self.pos}: '
                                  f'{d} vs branch {c}')
            if self.model is not None and d[1] == 0 and z3.is_true(
                    self.model.eval(c, model_completion=True)) != d[2]:
                raise EngineError(f'nondeterministic replay at {self.pos}')
            self.pos += 1
            self.trace.append(d)
            if d[1] == 0:
                self.add(c if d[2] else z3.Not(c))
            return d[2]
        m = self._model()
        v = z3.is_true(m.eval(c, model_completion=True))
        other = z3.Not(c) if v else c
        self.stats['forks'] += 1
        r = self._check(other)
        if r == z3.sat:
            self.pending.append((self.trace + [('b', h, not v)],
                                 self.solver.model()))
        elif r == z3.unknown:
            self.stats['unknown'] += 1
            self.pending.append((self.trace + [('b', h, not v)], None))
        else:
            h = 1              # implied by the path condition: not added
        self.pos += 1
        self.trace.append(('b', h, v))
        self.prefix = self.trace
        if h == 0:
            self.add(c if v else z3.Not(c))
        return v

    # -- interval arithmetic over the declared ranges -------------------------
    def by_bounds(self, c):
        """True/False if the declared ranges of the variables decide c."""
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.by_bounds(c.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = k == z3.Z3_OP_OR
            rs = [self.by_bounds(x) for x in c.children()]
            if stop in rs:
                return stop
            return (not stop) if all(r is (not stop) for r in rs) else None
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                     z3.Z3_OP_EQ):
            return None
        x, y = c.arg(0), c.arg(1)
        if not z3.is_int(x):
            return None
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            x, y = y, x
        xl, xh = self.range(x)
        yl, yh = self.range(y)
        if xl is None or yl is None:
            return None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE):
            return True if xh <= yl else False if xl > yh else None
        if k in (z3.Z3_OP_LT, z3.Z3_OP_GT):
            return True if xh < yl else False if xl >= yh else None
        if xl == xh == yl == yh:
            return True
        return False if xh < yl or yh < xl else None

    def range(self, e):
        i = e.get_id()
        r = self.bcache.get(i)
        if r is None:
            r = self.bcache[i] = (e, *self._range(e))
        return r[1], r[2]

    def _range(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            return v, v
        if not z3.is_int(e):
            return None, None
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.bounds.get(e.decl().name(), (None, None)) \
                if e.num_args() == 0 else (None, None)
        if k == z3.Z3_OP_ITE:
            d = self.by_bounds(e.arg(0))
            a = self.range(e.arg(2 if d is False else 1))
            b = self.range(e.arg(1 if d is True else 2))
            if a[0] is None or b[0] is None:
                return None, None
            return min(a[0], b[0]), max(a[1], b[1])
        if k not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS,
                     z3.Z3_OP_MUL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            return None, None
        rs = [self.range(x) for x in e.children()]
        if any(lo is None for lo, _ in rs):
            if k == z3.Z3_OP_MOD and rs[1][0] is not None and \
                    rs[1][0] == rs[1][1] > 0:
                return 0, rs[1][0] - 1
            return None, None
        lo, hi = rs[0]
        if k == z3.Z3_OP_UMINUS:
            return -hi, -lo
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            n, n2 = rs[1]
            if n != n2 or n <= 0:
                return None, None
            if k == z3.Z3_OP_IDIV:
                return lo // n, hi // n
            return (lo % n, hi % n) if lo // n == hi // n else (0, n - 1)
        for l2, h2 in rs[1:]:
            if k == z3.Z3_OP_ADD:
                lo, hi = lo + l2, hi + h2
            elif k == z3.Z3_OP_SUB:
                lo, hi = lo - h2, hi - l2
            else:
                ps = (lo * l2, lo * h2, hi * l2, hi * h2)
                lo, hi = min(ps), max(ps)
        return lo, hi

    def choose(self, name, n):
        """n-ary nondeterministic choice (a symbolic selector)."""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] != 'c' or d[1] != (name, n):
                raise EngineError(f'nondeterministic replay: {d} vs {name}')
            self.pos += 1
            self.trace.append(d)
            return d[2]
        m = self.model if self.model_ok else None
        for i in range(n - 1, 0, -1):
            self.pending.append((self.trace + [('c', (name, n), i)], m))
        self.pos += 1
        self.trace.append(('c', (name, n), 0))
        self.prefix = self.trace
        self.stats['forks'] += n - 1
        return 0

    def concretize(self, e, why=''):
        """Enumerate the feasible values of a z3 Int/Real/Bool term."""
        e = z3.simplify(e)
        v = const_value(e)
        if v is not None:
            return v
        n = 0
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if d[0] != 'v':
                    raise EngineError(f'nondeterministic replay: {d} vs value')
                val, eq = d[1], d[2]
                self.pos += 1
                self.trace.append(d)
                c = e == val_term(e, val)
                self.add(c if eq else z3.Not(c))
                if eq:
                    return val
                n += 1
                continue
            n += 1
            if n > CONC_LIMIT:
                self.trunc_sites[why] = self.trunc_sites.get(why, 0) + 1
                raise Truncated('concretisation limit ' + why)
            m = self._model()
            val = const_value(m.eval(e, model_completion=True))
            c = e == val_term(e, val)
            self.stats['concretised'] += 1
            r = self._check(z3.Not(c))
            if r != z3.unsat:
                if r == z3.unknown:
                    self.stats['unknown'] += 1
                self.pending.append((self.trace + [('v', val, False)],
                                     self.solver.model() if r == z3.sat
                                     else None))
            self.pos += 1
            self.trace.append(('v', val, True))
            self.prefix = self.trace
            self.add(c)
            return val

    # -- assertions -------------------------------------------------------
    def check(self, c, msg):
        self.stats['checks'] += 1
        if isinstance(c, SymBool):
            c = c.e
        if c is True or c is False or c is None:
            c = bool(c)
        elif not isinstance(c, z3.ExprRef):
            c = bool(c)
        if isinstance(c, z3.ExprRef):
            self.stats['checks_symbolic'] += 1
            c2 = z3.simplify(c)
            if z3.is_true(c2):
                return
            r = self._check(z3.Not(c2))
            if r == z3.unsat:
                return
            if r == z3.unknown:
                self.stats['unknown'] += 1
                raise Truncated('unknown verdict: ' + msg)
            raise CheckFailed(msg, self.read_values(self.solver.model()))
        self.stats['checks_concrete'] += 1
        if not c:
            # the path condition must be satisfiable: ask the solver
            raise CheckFailed(msg, self.read_values(self._model()))

    def read_values(self, model):
        out = {}
        for name, fn in self.values:
            out[name] = fn(model)
        return out

    # -- exploration ------------------------------------------------------
    def explore(self, fn, max_paths=10**9, deadline=None, on_fail=None):
        """Run fn() over all paths. on_fail(failure) -> True to go on."""
        stack = [([], None)]
        while stack:
            if deadline is not None and time.time() > deadline:
                self.stats['truncated'] += len(stack)
                self.trunc_sites['time budget'] = len(stack)
                return False
            if self.stats['paths'] >= max_paths:
                self.stats['truncated'] += len(stack)
                self.trunc_sites['path budget'] = len(stack)
                return False
            prefix, model = stack.pop()
            self.start_path(prefix, model)
            failure = None
            try:
                fn()
            except Infeasible:
                self.stats['infeasible'] += 1
            except Truncated as t:
                self.stats['truncated'] += 1
                k = str(t)
                self.trunc_sites[k] = self.trunc_sites.get(k, 0) + 1
            except CheckFailed as f:
                failure = (f.msg, f.values)
            except Control:
                raise
            except BaseException as e:  # noqa
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                try:
                    vals = self.read_values(self._model())
                    failure = (f'unexpected {type(e).__name__}: {_short(e)}',
                               vals, e)
                except (Infeasible, Truncated):
                    self.stats['infeasible'] += 1
            finally:
                self.active = False
            self.stats['paths'] += 1
            self.stats['max_depth'] = max(self.stats['max_depth'],
                                          len(self.trace))
            if failure is None and len(self.samples) < 3 and self.labels:
                try:
                    self.samples.append(
                        dict(labels=list(self.labels),
                             inputs=self.read_values(self._model()),
                             decisions=len(self.trace)))
                except Control:
                    pass
            stack.extend(self.pending)
            if failure is not None and on_fail is not None:
                if not on_fail(failure):
                    return False
        return True


def _short(e):
    try:
        s = str(e)
    except BaseException:  # noqa
        s = '?'
    return s[:200]


E = Engine()


def const_value(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_rational_value(e):
        return e.numerator_as_long() / e.denominator_as_long()
    return None


def val_term(e, v):
    if z3.is_bool(e):
        return z3.BoolVal(v)
    if z3.is_real(e):
        return real_term(v)
    return z3.IntVal(v)


def real_term(v):
    if isinstance(v, int):
        return z3.RealVal(v)
    n, d = float(v).as_integer_ratio()
    return z3.Q(n, d)


class Sym:
    """Base class of all proxies."""
    __slots__ = ()


def is_sym(x):
    return issubclass(type(x), Sym)


def ti(x, c):
    """isinstance without touching x.__class__ of the code under test."""
    t = type(x)
    return issubclass(t, c) or (issubclass(t, Sym) and
                                issubclass(x.__class__, c))


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.fork(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if type(o) is bool:
            return SymBool(self.e if o else z3.Not(self.e))
        if type(o) is SymBool:
            return SymBool(self.e == o.e)
        return self._int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SymBool(z3.Not(r.e)) if type(r) is SymBool else not r

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __and__(self, o):
        b = as_bool_term(o)
        return NotImplemented if b is None else SymBool(z3.And(self.e, b))
    __rand__ = __and__

    def __or__(self, o):
        b = as_bool_term(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = as_bool_term(o)
        return NotImplemented if b is None else SymBool(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __repr__(self):
        return repr(bool(self)) if E.active else f'<SymBool {self.e}>'

    def __str__(self):
        return str(bool(self))

    def __format__(self, s):
        return format(bool(self), s)

    def __getattr__(self, n):
        if not hasattr(bool, n):
            raise AttributeError(n)
        return getattr(bool(self), n)


def _bool_arith(op):
    """bool is an int: arithmetic and comparison are those of 0 and 1."""
    def fn(self, *a):
        a = [x._int() if type(x) is SymBool else x for x in a]
        return getattr(self._int(), op)(*a)
    fn.__name__ = op
    return fn


for _op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'divmod',
            'pow'):
    for _r in ('', 'r'):
        setattr(SymBool, f'__{_r}{_op}__', _bool_arith(f'__{_r}{_op}__'))
for _op in ('lt', 'le', 'gt', 'ge', 'neg', 'pos', 'abs'):
    setattr(SymBool, f'__{_op}__', _bool_arith(f'__{_op}__'))


def as_bool_term(o):
    if type(o) is SymBool:
        return o.e
    if type(o) is bool:
        return z3.BoolVal(o)
    return None


def wrap_bool(e):
    e2 = z3.simplify(e)
    if z3.is_true(e2):
        return True
    if z3.is_false(e2):
        return False
    return SymBool(e2)


def num_term(o):
    """(term, is_real) of a number-like value or None."""
    t = type(o)
    if t is SymInt:
        return o.e, False
    if t is SymFloat:
        return o.e, True
    if t is bool:
        return z3.IntVal(int(o)), False
    if t is int:
        return z3.IntVal(o), False
    if t is float:
        if o != o or o in (float('inf'), float('-inf')):
            return None
        return real_term(o), True
    if t is SymBool:
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0)), False
    if isinstance(o, int) and not is_sym(o):
        return z3.IntVal(int(o)), False
    return None


def _special(o):
    return type(o) is float and (o != o or o in (float('inf'), float('-inf')))


class SymNum(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _mk(self, e, real):
        e = z3.simplify(e)
        v = const_value(e)
        if v is not None:
            return float(v) if real else v
        return SymFloat(e) if real else SymInt(e)

    def _cmp(self, o, op):
        if _special(o):
            if o != o:
                return False
            return op(0, o)   # any finite number compares like 0 with inf
        r = num_term(o)
        if r is None:
            return NotImplemented
        return wrap_bool(op(self.e, r[0]))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return r

    def __ne__(self, o):
        if _special(o):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return E.fork(self.e != 0)

    def _real(self):
        return type(self) is SymFloat

    def _arith(self, o, op, rev=False):
        if _special(o):
            c = concrete(self)
            return op(o, c) if rev else op(c, o)
        r = num_term(o)
        if r is None:
            return NotImplemented
        real = r[1] or self._real()
        a, b = self.e, r[0]
        if real:
            a = z3.ToReal(a) if z3.is_int(a) else a
            b = z3.ToReal(b) if z3.is_int(b) else b
        if rev:
            a, b = b, a
        return self._mk(op(a, b), real)

    def __add__(self, o):
        if type(o) is float and o == 0 and not self._real():
            return SymFloat(z3.ToReal(self.e))
        return self._arith(o, lambda a, b: a + b)
    def __radd__(self, o): return self._arith(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)) and not self._real():
            return o * self.__index__()
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def _div(self, o, rev, kind):
        if _special(o):
            c = concrete(self)
            a, b = (o, c) if rev else (c, o)
            return {'t': lambda: a / b, 'f': lambda: a // b,
                    'm': lambda: a % b}[kind]()
        r = num_term(o)
        if r is None:
            return NotImplemented
        real = r[1] or self._real()
        a, b = self.e, r[0]
        if rev:
            a, b = b, a
        if E.fork(b == 0):
            raise ZeroDivisionError('division by zero')
        if kind == 't':
            a = z3.ToReal(a) if z3.is_int(a) else a
            b = z3.ToReal(b) if z3.is_int(b) else b
            return self._mk(a / b, True)
        if real:
            a = z3.ToReal(a) if z3.is_int(a) else a
            b = z3.ToReal(b) if z3.is_int(b) else b
            q = z3.ToReal(z3.ToInt(a / b))
            return self._mk(q if kind == 'f' else a - b * q, True)
        n = const_value(b)
        if type(n) is int and n > 0:
            # the quotient, where the ranges leave one, or two for the large
            # divisors of calendar arithmetic, keeps the terms linear
            a = z3.simplify(a)
            lo, hi = E.range(a)
            if lo is not None:
                q, q2 = lo // n, hi // n
                if q2 == q + 1 and n >= 1000 and not E.fork(a < q2 * n):
                    q = q2
                elif q2 > q + 1 or q2 == q + 1 and n < 1000:
                    q = None
                if q is not None:
                    return q if kind == 'f' else self._mk(a - q * n, False)
        # python floor semantics from z3's euclidean division
        if E.fork(b > 0):
            q, m = a / b, a % b
        else:
            q, m = (-a) / (-b), -((-a) % (-b))
        return self._mk(q if kind == 'f' else m, False)

    def __truediv__(self, o): return self._div(o, False, 't')
    def __rtruediv__(self, o): return self._div(o, True, 't')
    def __floordiv__(self, o): return self._div(o, False, 'f')
    def __rfloordiv__(self, o): return self._div(o, True, 'f')
    def __mod__(self, o): return self._div(o, False, 'm')
    def __rmod__(self, o): return self._div(o, True, 'm')

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self): return self._mk(-self.e, self._real())
    def __pos__(self): return self

    def __abs__(self):
        return self._mk(z3.If(self.e < 0, -self.e, self.e), self._real())

    def __pow__(self, o, mod=None):
        if mod is None and type(o) is int and 0 <= o <= 4:
            if o == 0:
                return 1.0 if self._real() else 1
            r = self.e
            for _ in range(o - 1):
                r = r * self.e
            return self._mk(r, self._real())
        return pow(concrete(self), concrete(o)) if mod is None else \
            pow(concrete(self), concrete(o), concrete(mod))

    def __rpow__(self, o, mod=None):
        return pow(concrete(o), concrete(self))

    def __hash__(self):
        E.symkeys = True
        return 77

    def __floor__(self):
        if not self._real():
            return self
        return self._mk(z3.ToInt(self.e), False)

    def __ceil__(self):
        if not self._real():
            return self
        return self._mk(-z3.ToInt(-self.e), False)

    def __trunc__(self):
        if not self._real():
            return self
        return self._mk(z3.If(self.e >= 0, z3.ToInt(self.e),
                              -z3.ToInt(-self.e)), False)

    def __round__(self, nd=None):
        if not self._real():
            if nd is None:
                return self
            return round(concrete(self), nd)
        if nd is None:
            if self.e.decl().kind() == z3.Z3_OP_TO_REAL:
                return self._mk(self.e.arg(0), False)
            f = z3.ToInt(self.e)
            d = self.e - z3.ToReal(f)
            half = z3.Q(1, 2)
            r = z3.If(d < half, f, z3.If(d > half, f + 1,
                                         z3.If(f % 2 == 0, f, f + 1)))
            return self._mk(r, False)
        return round(concrete(self), nd)

    def __repr__(self):
        if not E.active:
            return f'<{type(self).__name__} {self.e}>'
        return repr(concrete(self))

    def __str__(self):
        return str(concrete(self))

    def __format__(self, spec):
        return format(concrete(self), spec)

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if not hasattr(float if self._real() else int, n):
            raise AttributeError(n)
        return getattr(concrete(self), n)


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return E.concretize(self.e, 'int index')

    __int__ = __index__

    def __float__(self):
        return float(E.concretize(self.e, 'int->float'))

    def bit_length(self):
        return concrete(self).bit_length()

    @property
    def real(self): return self

    def is_integer(self): return True

    def _bit(self, o, f):
        return f(concrete(self), concrete(o))


    def __and__(self, o):
        if type(o) is int and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)
        return self._bit(o, lambda a, b: a & b)

    def __rand__(self, o): return self._bit(o, lambda a, b: b & a)
    def __or__(self, o): return self._bit(o, lambda a, b: a | b)
    def __ror__(self, o): return self._bit(o, lambda a, b: b | a)
    def __xor__(self, o): return self._bit(o, lambda a, b: a ^ b)

    def __lshift__(self, o):
        if type(o) is int and 0 <= o < 64:
            return self * (1 << o)
        return self._bit(o, lambda a, b: a << b)

    def __rshift__(self, o):
        if type(o) is int and 0 <= o < 64:
            return self // (1 << o)
        return self._bit(o, lambda a, b: a >> b)

    def __invert__(self): return -self - 1


class SymFloat(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __float__(self):
        return float(E.concretize(self.e, 'float'))

    def __int__(self):
        return int(float(self))

    def is_integer(self):
        return wrap_bool(z3.IsInt(self.e))


CONCRETIZERS = {}


def concrete(x):
    """Concretise one value (enumerating the alternatives)."""
    t = type(x)
    if t is SymInt:
        return E.concretize(x.e, 'int')
    if t is SymFloat:
        return float(E.concretize(x.e, 'float'))
    if t is SymBool:
        return bool(x)
    f = CONCRETIZERS.get(t)
    if f is not None:
        return f(x)
    return x


def deep_has_sym(x, depth=3):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if depth <= 0:
        return False
    if t is list or t is tuple or t is set or t is frozenset:
        for i in x:
            if deep_has_sym(i, depth - 1):
                return True
        return False
    if t is dict:
        for k, v in x.items():
            if deep_has_sym(k, depth - 1) or deep_has_sym(v, depth - 1):
                return True
        return False
    return False


def deep_concrete(x, depth=4):
    t = type(x)
    if issubclass(t, Sym):
        return concrete(x)
    if depth <= 0:
        return x
    if t is list or t is set or t is frozenset or t is tuple:
        if not deep_has_sym(x):
            return x
        return t([deep_concrete(i, depth - 1) for i in x])
    if t is dict:
        if not deep_has_sym(x):
            return x
        return {deep_concrete(k, depth - 1): deep_concrete(v, depth - 1)
                for k, v in x.items()}
    return x
