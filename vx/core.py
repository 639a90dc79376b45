"""Symbolic execution core: path state, solver-decided branches and symbolic values.

A path is one execution of a harness over the real (instrumented) code. Every branch on a symbolic value is decided by
the solver: both sides are checked for satisfiability under the path condition, one is followed and the other is queued,
so the queue is empty exactly when every value within the bounds is covered.
"""
import time as _time

import z3

_clock = _time.perf_counter


class PathAbort(BaseException):
    """The path cannot continue (infeasible assumption, or over a bound)."""


class Violation:
    def __init__(self, msg, inputs, finding):
        self.msg, self.inputs, self.finding = msg, inputs, finding


class State:
    """The state of the path being executed (one per process)."""

    def __init__(self):
        self.active = False
        self.reset([])
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.caps = 0

    def reset(self, prefix):
        self.solver = z3.Solver()
        self.prefix = list(prefix)
        self.trail = []          # (value) of each decision that was not implied
        self.pending = []        # prefixes of the other side
        self.inputs = {}         # name -> (kind, payload)
        self.names = {}
        self.aborted = None
        self.violations = []
        self.reached = []
        self.checks = 0
        self.model = None
        self.fresh = 0
        self.incomplete = []
        self.forks = 0

    # -- solver ---------------------------------------------------------
    def _check(self, *assumptions):
        t = _clock()
        r = self.solver.check(*assumptions)
        self.solver_time += _clock() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def abort(self, why):
        if self.aborted is None:
            self.aborted = why
        raise PathAbort(why)

    def add(self, expr):
        self.solver.add(expr)
        if self.model is not None and not z3.is_true(self.model.eval(expr, True)):
            self.model = None

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r != z3.sat:
                self.abort('infeasible' if r == z3.unsat else 'unknown')
            self.model = self.solver.model()
        return self.model

    def decide(self, expr):
        """Decide a branch; both sides are followed when both are feasible."""
        if self.aborted is not None:
            raise PathAbort(self.aborted)
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        i = len(self.trail)
        if i < len(self.prefix):
            val = self.prefix[i]
            self.trail.append(val)
            self.add(expr if val else z3.Not(expr))
            return val
        model = self.get_model()
        val = z3.is_true(model.eval(expr, True))
        other = z3.Not(expr) if val else expr
        r = self._check(other)
        if r != z3.unsat:
            if r == z3.unknown:
                self.incomplete.append('unknown')
            self.forks += 1
            self.pending.append(self.trail + [not val])
        self.trail.append(val)
        self.solver.add(expr if val else z3.Not(expr))
        return val

    def at_step(self, var, step):
        """Is the (otherwise free) position of a preemption at this step: it is larger than all the earlier steps."""
        if self.aborted is not None:
            raise PathAbort(self.aborted)
        i = len(self.trail)
        if i < len(self.prefix):
            hit = self.prefix[i]
        else:
            hit = False
            self.forks += 1
            self.pending.append(self.trail + [True])
        self.trail.append(hit)
        if hit:
            self.add(var == step)
        return hit

    def assume(self, expr):
        if self.aborted is not None:
            raise PathAbort(self.aborted)
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        self.add(expr)
        if z3.is_false(expr) or self.model is None and self._check() == z3.unsat:
            self.abort('assumption')

    def check(self, expr, msg, finding=None):
        """Assert on this path: the solver looks for any value on this path for which it fails."""
        if self.aborted is not None:
            raise PathAbort(self.aborted)
        self.checks += 1
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        r = self._check(z3.Not(expr))
        if r == z3.unknown:
            self.incomplete.append('unknown check')
        if r == z3.sat:
            m = self.solver.model()
            self.violations.append(Violation(msg, self.values(m), finding))
            # go on with the values for which it holds
            self.add(expr)
            if self._check() != z3.sat:
                self.abort('violated')
            self.model = None

    def realize_limit(self):
        return 80

    # -- inputs ---------------------------------------------------------
    def name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s~%d' % (name, n)

    def values(self, model):
        out = {}
        for name, (kind, payload) in self.inputs.items():
            if kind == 'int':
                out[name] = model.eval(payload, True).as_long()
            elif kind == 'bool':
                out[name] = z3.is_true(model.eval(payload, True))
            elif kind == 'real':
                v = model.eval(payload, True)
                out[name] = float(v.as_fraction())
            elif kind == 'str':
                out[name] = [c if isinstance(c, int) else model.eval(c, True).as_long() for c in payload]
            elif kind == 'const':
                out[name] = payload
        return out


ST = State()


# ---------------------------------------------------------------------------------------------- symbolic values
class Sym:
    """Base of all the symbolic values."""
    __slots__ = ()


def is_sym(v):
    return issubclass(type(v), Sym)


def to_bool_expr(v):
    if type(v) is SBool:
        return v.e
    if z3.is_expr(v):
        return v
    return z3.BoolVal(bool(v))


def to_int_expr(v):
    t = type(v)
    if t is SInt:
        return v.e
    if t is SBool:
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if t is bool:
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(int(v))
    return None


def to_real_expr(v):
    t = type(v)
    if t is SReal:
        return v.e
    e = to_int_expr(v)
    if e is not None:
        return z3.ToReal(e)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return None
        n, d = v.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d)
    return None


def mk_int(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def mk_real(e):
    return SReal(z3.simplify(e))


def realize(v):
    """Make a value concrete: every value it can have is followed on a path of its own."""
    if issubclass(type(v), Sym):
        return v._realize()
    return v


class SBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ST.decide(self.e)

    def _realize(self):
        return ST.decide(self.e)

    def __eq__(self, o):
        if type(o) in (SBool, bool):
            return mk_bool(self.e == to_bool_expr(o))
        a = to_int_expr(o)
        return NotImplemented if a is None else mk_bool(to_int_expr(self) == a)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_bool(z3.Not(to_bool_expr(r)))

    def __hash__(self):
        return hash(self._realize())

    def __invert__(self):
        return mk_int(-to_int_expr(self) - 1)

    def __and__(self, o):
        if type(o) in (SBool, bool):
            return mk_bool(z3.And(self.e, to_bool_expr(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (SBool, bool):
            return mk_bool(z3.Or(self.e, to_bool_expr(o)))
        return NotImplemented

    __ror__ = __or__

    def _int(self):
        return mk_int(to_int_expr(self))

    def __index__(self):
        return int(self._realize())

    def __int__(self):
        return int(self._realize())

    def __float__(self):
        return float(self._realize())

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __repr__(self):
        return repr(self._realize())

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return bool, (self._realize(),)


def _num(o):
    """Get (expr, is_real) of a number or None."""
    e = to_int_expr(o)
    if e is not None:
        return e, False
    e = to_real_expr(o)
    if e is not None:
        return e, True
    return None


class SNum(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, op, swap=False):
        if isinstance(o, float) and not is_sym(o) and (o != o or o in (float('inf'), float('-inf'))):
            return NotImplemented
        n = _num(o)
        if n is None:
            return NotImplemented
        real = n[1] or type(self) is SReal
        a = to_real_expr(self) if real else self.e
        b = to_real_expr(o) if real else n[0]
        if swap:
            a, b = b, a
        return op(a, b), real

    def _arith(self, o, op, swap=False):
        r = self._bin(o, op, swap)
        if r is NotImplemented:
            return r
        return mk_real(r[0]) if r[1] else mk_int(r[0])

    def _cmp(self, o, op, inf):
        if isinstance(o, float) and not is_sym(o):
            if o != o:
                return False
            if o in (float('inf'), float('-inf')):
                return inf(o > 0)
        r = self._bin(o, op)
        return r if r is NotImplemented else mk_bool(r[0])

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)) and not is_sym(o):
            return o * self.__index__()
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return type(self)(z3.simplify(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda pos: pos)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda pos: pos)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda pos: not pos)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda pos: not pos)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda pos: False)
        return r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda pos: True)
        if isinstance(o, float) and not is_sym(o) and o != o:
            return True
        return r

    def __bool__(self):
        return ST.decide(self.e != 0)

    def __hash__(self):
        return hash(self._realize())

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def _div(self, o, swap):
        if _num(o) is None:
            return NotImplemented
        d = self if swap else o
        if (d == 0) if not is_sym(d) else bool(mk_bool(to_real_expr(d) == 0)):
            raise ZeroDivisionError('division by zero')
        a, b = to_real_expr(self), to_real_expr(o)
        if swap:
            a, b = b, a
        return mk_real(a / b)

    def _floordiv(self, a, b):
        """Python floor division of ints as (quotient, remainder)."""
        if mk_bool(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if mk_bool(b < 0):
            a, b, neg = -a, -b, True
        else:
            neg = False
        q, r = a / b, a % b
        return q, (-r if neg else r)

    def __floordiv__(self, o):
        return self._fdm(o, False)[0]

    def __rfloordiv__(self, o):
        return self._fdm(o, True)[0]

    def __mod__(self, o):
        return self._fdm(o, False)[1]

    def __rmod__(self, o):
        return self._fdm(o, True)[1]

    def __divmod__(self, o):
        return self._fdm(o, False)

    def _fdm(self, o, swap):
        if _num(o) is None:
            return NotImplemented, NotImplemented
        if type(self) is SInt and to_int_expr(o) is not None:
            a, b = self.e, to_int_expr(o)
            if swap:
                a, b = b, a
            q, r = self._floordiv(a, b)
            return mk_int(q), mk_int(r)
        a, b = to_real_expr(self), to_real_expr(o)
        if swap:
            a, b = b, a
        if mk_bool(b == 0):
            raise ZeroDivisionError('float modulo')
        q = z3.ToReal(z3.ToInt(a / b))
        return mk_real(q), mk_real(a - q * b)


class SInt(SNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def _realize(self):
        return concretize(self.e)

    def __index__(self):
        return self._realize()

    def __int__(self):
        return self._realize()

    def __float__(self):
        return float(self._realize())

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __repr__(self):
        return repr(self._realize())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self._realize(), spec)

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return mk_int(self.e % (o + 1))
        return self._realize() & realize(o)

    __rand__ = __and__

    def __or__(self, o):
        return self._realize() | realize(o)

    __ror__ = __or__

    def __lshift__(self, o):
        return self * (1 << realize(o))

    def __rshift__(self, o):
        return self // (1 << realize(o))

    def __pow__(self, o):
        return self._realize() ** realize(o)

    def to_bytes(self, *a, **k):
        return self._realize().to_bytes(*a, **k)

    def is_integer(self):
        return True

    def bit_length(self):
        return self._realize().bit_length()

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return int, (self._realize(),)


class SReal(SNum):
    """A float, modelled as a real number (no rounding, no NaN, no infinity)."""
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def _realize(self):
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        # not enumerable: follow a single value, and say so
        v = ST.get_model().eval(e, True)
        ST.incomplete.append('real concretised')
        ST.assume(e == v)
        return float(v.as_fraction())

    def __float__(self):
        return self._realize()

    def floor(self):
        return mk_int(z3.ToInt(self.e))

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -mk_int(z3.ToInt(-self.e))

    def __trunc__(self):
        return mk_int(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __int__(self):
        return realize(self.__trunc__())

    def __round__(self, n=None):
        if n:
            return self
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal(1) / 2
        return mk_int(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))

    def __repr__(self):
        return repr(self._realize())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self._realize(), spec)

    def __deepcopy__(self, memo):
        return self


def concretize(e, limit=None):
    """Follow each value of an int expression on its own path, smallest found by the solver first."""
    e = z3.simplify(e)
    n = 0
    while True:
        if z3.is_int_value(e):
            return e.as_long()
        if ST.aborted is not None:
            raise PathAbort(ST.aborted)
        i = len(ST.trail)
        if i < len(ST.prefix):
            entry = ST.prefix[i]
            # entries of concretisation are ('=', value) or ('#', values that are excluded)
            if type(entry) is tuple and entry[0] == '=':
                ST.trail.append(entry)
                ST.add(e == entry[1])
                return entry[1]
            if type(entry) is tuple:
                return _pick(e, list(entry[1]), limit)
            ST.incomplete.append('nondeterminism')
            ST.abort('nondeterminism')
        return _pick(e, [], limit)


def _pick(e, excluded, limit=None):
    for v in excluded:
        ST.add(e != v)
    if len(excluded) >= (limit or ST.realize_limit()):
        ST.caps += 1
        ST.incomplete.append('concretisation cap')
        ST.abort('cap')
    m = ST.get_model()
    v = m.eval(e, True).as_long()
    r = ST._check(e != v)
    base = ST.trail
    if r != z3.unsat:
        ST.forks += 1
        ST.pending.append(base + [('#', tuple(excluded) + (v,))])
    ST.trail.append(('=', v))
    ST.solver.add(e == v)
    return v
