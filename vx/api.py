"""What a harness sees: the same harness runs on symbolic values (X) and on the values of a counterexample (Concrete)."""
import contextlib

FAIL = object()


class Base:
    symbolic = False

    def __init__(self):
        self.cleanups = []

    def patch(self, obj, name, value):
        """Replace an attribute until the end of the path."""
        missing = name not in vars(obj) if hasattr(obj, '__dict__') else False
        old = getattr(obj, name, None)

        def undo():
            if missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.cleanups.append(undo)
        setattr(obj, name, value)

    def defer(self, fn):
        self.cleanups.append(fn)

    def cleanup(self):
        while self.cleanups:
            fn = self.cleanups.pop()
            try:
                fn()
            except Exception:
                pass

    @contextlib.contextmanager
    def no_raise(self, msg):
        """The body must not raise."""
        try:
            yield
        except BaseException as e:
            if type(e).__name__ in ('PathAbort', 'Deadlock', 'Killed'):
                raise
            self.check(False, '%s: raised %s: %s' % (msg, type(e).__name__, e))

    def pick(self, name, options):
        """One of the options, each of them on its own path."""
        options = list(options)
        return options[self.index(name, len(options))]

    def combine(self, options, most=None):
        """One of the options for each name, where at most so many are not the first option."""
        at = {k: self.int(str(k), 0, len(v) - 1) for k, v in options.items()}
        if most is not None:
            given = 0
            for k in at:
                given = self.ite(at[k] > 0, 1, 0) + given
            self.assume(given <= most)
        return {k: v[int(at[k])] for k, v in options.items()}

    def flag(self, name):
        return self.index(name, 2) == 1

    def all(self, parts):
        for p in parts:
            if not p:
                return False
        return True


class X(Base):
    """Inputs are symbolic."""
    symbolic = True

    def __init__(self):
        super().__init__()
        import z3
        from . import core, strings
        self.z3, self.core, self.strings = z3, core, strings
        self.st = core.ST

    def int(self, name, lo=None, hi=None):
        name = self.st.name(name)
        v = self.z3.Int(name)
        self.st.inputs[name] = ('int', v)
        if lo is not None:
            self.st.assume(v >= lo)
        if hi is not None:
            self.st.assume(v <= hi)
        if lo is not None and lo == hi:
            return lo
        return self.core.SInt(v)

    def real(self, name, lo, hi):
        name = self.st.name(name)
        v = self.z3.Real(name)
        self.st.inputs[name] = ('real', v)
        self.st.assume(v >= lo)
        self.st.assume(v <= hi)
        return self.core.SReal(v)

    def bool(self, name):
        name = self.st.name(name)
        v = self.z3.Bool(name)
        self.st.inputs[name] = ('bool', v)
        return self.core.SBool(v)

    def index(self, name, n):
        name = self.st.name(name)
        v = self.z3.Int(name)
        self.st.inputs[name] = ('int', v)
        self.st.assume(self.z3.And(v >= 0, v < n))
        if n == 1:
            return 0
        return self.core.concretize(v, n)

    def enum(self, name, options):
        """One of the texts, decided only as far as the code looks at it."""
        name = self.st.name(name)
        v = self.z3.Int(name)
        self.st.inputs[name] = ('int', v)
        self.st.assume(self.z3.And(v >= 0, v < len(options)))
        return self.strings.SEnum(v, list(options))

    def str(self, name, length, alphabet=None, ranges=None):
        """Text of the given length; the characters are from the alphabet, or from ranges of code points."""
        name = self.st.name(name)
        chars = [self.z3.Int('%s[%d]' % (name, i)) for i in range(length)]
        self.st.inputs[name] = ('str', chars)
        for c in chars:
            if alphabet is not None:
                self.st.assume(self.z3.Or(*[c == ord(a) for a in alphabet]))
            elif ranges is not None:
                self.st.assume(self.z3.Or(*[self.z3.And(c >= lo, c <= hi) for lo, hi in ranges]))
            else:
                self.st.assume(self.z3.And(c >= 0, c <= 0x10ffff))
        return self.strings.mk_str(chars)

    def expr(self, v):
        return self.core.to_bool_expr(v)

    def assume(self, cond):
        self.st.assume(self.expr(cond))

    def check(self, cond, msg, finding=None):
        self.st.check(self.expr(cond), msg, finding)

    def reached(self, what='end'):
        self.st.reached.append(what)

    def eq(self, a, b):
        """Deep equality as a single condition (no branches)."""
        r = self._eq(a, b)
        return r

    def _eq(self, a, b):
        core = self.core
        if core.is_sym(a) or core.is_sym(b):
            r = a == b
            if r is NotImplemented:
                return False
            return r
        if (type(a) is list or type(a) is tuple) and (type(b) is list or type(b) is tuple):
            if len(a) != len(b):
                return False
            return self.conj(self._eq(x, y) for x, y in zip(a, b))
        if type(a) is dict and type(b) is dict:
            if list(sorted(map(repr, a))) != list(sorted(map(repr, b))):
                return False
            return self.conj(self._eq(v, b[k]) for k, v in a.items())
        return a == b

    def conj(self, parts):
        out = []
        for p in parts:
            if type(p) is bool:
                if not p:
                    return False
                continue
            out.append(self.expr(p))
        if not out:
            return True
        return self.core.mk_bool(self.z3.And(*out))

    def disj(self, parts):
        out = []
        for p in parts:
            if type(p) is bool:
                if p:
                    return True
                continue
            out.append(self.expr(p))
        if not out:
            return False
        return self.core.mk_bool(self.z3.Or(*out))

    def neg(self, p):
        return (not p) if type(p) is bool else self.core.mk_bool(self.z3.Not(self.expr(p)))

    def implies(self, a, b):
        return self.disj([self.neg(a), b])

    def ite(self, c, a, b):
        if type(c) is bool:
            return a if c else b
        return self.core.mk_int(self.z3.If(c.e, self.core.to_int_expr(a), self.core.to_int_expr(b)))

    def value(self, v):
        """The value for a message."""
        return '?' if self.core.is_sym(v) else v


class Concrete(Base):
    """Inputs are the values of one path."""

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.names = {}
        self.failures = []
        self.marks = []
        self.checks = 0

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s~%d' % (name, n)

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else (min(0, hi) if hi is not None else 0)
        return self.inputs.get(self._name(name), d)

    def real(self, name, lo, hi):
        return self.inputs.get(self._name(name), float(lo))

    def bool(self, name):
        return self.inputs.get(self._name(name), False)

    def index(self, name, n):
        v = self.inputs.get(self._name(name), 0)
        return v if 0 <= v < n else 0

    def enum(self, name, options):
        return list(options)[self.index(name, len(options))]

    def str(self, name, length, alphabet=None, ranges=None):
        d = ord(alphabet[0]) if alphabet else (ranges[0][0] if ranges else 97)
        v = self.inputs.get(self._name(name), None)
        if v is None or len(v) != length:
            v = [d] * length
        return ''.join(map(chr, v))

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, cond, msg, finding=None):
        self.checks += 1
        if not cond:
            self.failures.append((msg, finding))

    def reached(self, what='end'):
        self.marks.append(what)

    def eq(self, a, b):
        return a == b or ((type(a) is list or type(a) is tuple) and (type(b) is list or type(b) is tuple) and list(a) == list(b))

    def conj(self, parts):
        return all(bool(p) for p in parts)

    def disj(self, parts):
        return any(bool(p) for p in parts)

    def neg(self, p):
        return not p

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def value(self, v):
        return v


class AssumptionFailed(BaseException):
    pass
