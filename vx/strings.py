"""Symbolic text: a concrete number of characters, each of which can be symbolic."""
import z3

from .core import ST, Sym, SInt, SBool, is_sym, mk_bool, mk_int, realize, concretize, to_int_expr

WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160]


def chars_of(s):
    """Get the characters of a str or symbolic text, or None."""
    if issubclass(type(s), SText):
        return s.chars
    if type(s) is str or isinstance(s, str) and not is_sym(s):
        return [ord(c) for c in str.__str__(s)]
    return None


def mk_str(chars):
    if all(type(c) is int for c in chars):
        return ''.join(map(chr, chars))
    return SStr(chars)


def ceq(a, b):
    """Expression (or bool) for two characters being equal."""
    if type(a) is int and type(b) is int:
        return a == b
    return a == b


def _and(parts):
    out = []
    for p in parts:
        if p is False:
            return False
        if p is True:
            continue
        out.append(p)
    if not out:
        return True
    return mk_bool(z3.And(*out))


def _in_set(c, codes):
    if type(c) is int:
        return c in codes
    return mk_bool(z3.Or(*[c == k for k in codes]))


class SText(Sym):
    """All symbolic values that are a str."""
    __slots__ = ()

    @property
    def __class__(self):
        return str

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return str, (self._realize(),)

    def _realize(self):
        return ''.join(chr(c if type(c) is int else concretize(c)) for c in self.chars)

    def __hash__(self):
        return hash(self._realize())

    def __str__(self):
        return self._realize()

    def __repr__(self):
        return repr(self._realize())

    def __format__(self, spec):
        return format(self._realize(), realize(spec))

    def vx_str(self):
        return self

    # -- generic text operations over self.chars ------------------------
    def vx_len(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __len__(self):
        return len(self.chars)

    def __iter__(self):
        return iter([mk_str([c]) for c in self.chars])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(realize(i.start), realize(i.stop), realize(i.step))
            return mk_str(self.chars[i])
        return mk_str([self.chars[realize(i)]])

    def __eq__(self, o):
        oc = chars_of(o)
        if oc is None:
            return NotImplemented
        if len(oc) != len(self.chars):
            return False
        return _and(ceq(a, b) for a, b in zip(self.chars, oc))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if type(r) is bool else mk_bool(z3.Not(r.e))

    def _lt(self, a, b, strict):
        for x, y in zip(a, b):
            if type(x) is int and type(y) is int:
                if x != y:
                    return x < y
                continue
            if mk_bool(x < y):
                return True
            if mk_bool(x > y):
                return False
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else self._lt(self.chars, oc, True)

    def __le__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else self._lt(self.chars, oc, False)

    def __gt__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else self._lt(oc, self.chars, True)

    def __ge__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else self._lt(oc, self.chars, False)

    def __add__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else mk_str(self.chars + oc)

    def __radd__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else mk_str(oc + self.chars)

    def __mul__(self, n):
        return mk_str(self.chars * realize(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return str_mod(self, args)

    def _at(self, i, sub):
        """Is sub at position i (bool or SBool)."""
        return _and(ceq(a, b) for a, b in zip(self.chars[i:i + len(sub)], sub))

    def contains(self, o):
        sub = chars_of(o)
        if sub is None:
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(o).__name__)
        if not sub:
            return True
        parts = []
        for i in range(len(self.chars) - len(sub) + 1):
            m = self._at(i, sub)
            if m is True:
                return True
            if m is not False:
                parts.append(m.e)
        return mk_bool(z3.Or(*parts)) if parts else False

    def __contains__(self, o):
        return bool(self.contains(o))

    def _range(self, start, end):
        n = len(self.chars)
        start, end, _ = slice(realize(start), realize(end)).indices(n)
        return start, end

    def find(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._range(start, end)
        for i in range(s, e - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = chars_of(sub)
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, *a):
        return self._realize().count(realize(sub), *a)

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return any(self.startswith(p, start, end) for p in prefix)
        if start is not None or end is not None:
            s, e = self._range(start, end)
            return self_or_str(mk_str(self.chars[s:e])).startswith(prefix)
        sub = chars_of(prefix)
        if sub is None:
            raise TypeError('startswith first arg must be str or a tuple of str, not %s' % type(prefix).__name__)
        if len(sub) > len(self.chars):
            return False
        return self._at(0, sub)

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return any(self.endswith(p, start, end) for p in suffix)
        if start is not None or end is not None:
            s, e = self._range(start, end)
            return self_or_str(mk_str(self.chars[s:e])).endswith(suffix)
        sub = chars_of(suffix)
        if sub is None:
            raise TypeError('endswith first arg must be str or a tuple of str, not %s' % type(suffix).__name__)
        if len(sub) > len(self.chars):
            return False
        return self._at(len(self.chars) - len(sub), sub)

    def removeprefix(self, prefix):
        return self[len(chars_of(prefix)):] if self.startswith(prefix) else self

    def removesuffix(self, suffix):
        n = len(chars_of(suffix))
        return self[:len(self.chars) - n] if n and self.endswith(suffix) else self

    def split(self, sep=None, maxsplit=-1):
        maxsplit = realize(maxsplit)
        if sep is None:
            out, cur = [], []
            for i, c in enumerate(self.chars):
                if _in_set(c, WS):
                    if cur:
                        out.append(mk_str(cur))
                        cur = []
                        continue
                else:
                    if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                        out.append(self_or_str(mk_str(self.chars[i:])).rstrip())
                        return out
                    cur.append(c)
            if cur:
                out.append(mk_str(cur))
            return out
        sub = chars_of(sep)
        if not sub:
            raise ValueError('empty separator')
        out, last, i = [], 0, 0
        while i <= len(self.chars) - len(sub):
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(i, sub):
                out.append(mk_str(self.chars[last:i]))
                i += len(sub)
                last = i
            else:
                i += 1
        out.append(mk_str(self.chars[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = realize(maxsplit)
        if sep is None:
            return self._realize().rsplit(None, maxsplit)
        sub = chars_of(sep)
        out, end = [], len(self.chars)
        i = end - len(sub)
        while i >= 0:
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(i, sub):
                out.append(mk_str(self.chars[i + len(sub):end]))
                end = i
                i -= len(sub)
            else:
                i -= 1
        out.append(mk_str(self.chars[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        n = len(chars_of(sep))
        return mk_str(self.chars[:i]), mk_str(self.chars[i:i + n]), mk_str(self.chars[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        n = len(chars_of(sep))
        return mk_str(self.chars[:i]), mk_str(self.chars[i:i + n]), mk_str(self.chars[i + n:])

    def splitlines(self, keepends=False):
        return self._realize().splitlines(keepends)

    def replace(self, old, new, count=-1):
        parts = self.split(old, count) if len(chars_of(old)) else None
        if parts is None:
            return self._realize().replace(realize(old), realize(new), count)
        return str_join(new, parts)

    def _strip_set(self, chars):
        return WS if chars is None else [c if type(c) is int else concretize(c) for c in chars_of(chars)]

    def lstrip(self, chars=None):
        codes, i = self._strip_set(chars), 0
        while i < len(self.chars) and _in_set(self.chars[i], codes):
            i += 1
        return mk_str(self.chars[i:])

    def rstrip(self, chars=None):
        codes, i = self._strip_set(chars), len(self.chars)
        while i > 0 and _in_set(self.chars[i - 1], codes):
            i -= 1
        return mk_str(self.chars[:i])

    def strip(self, chars=None):
        return self_or_str(self_or_str(self.lstrip(chars)).rstrip(chars))

    def _case(self, lo, hi, delta, name):
        out = []
        for c in self.chars:
            if type(c) is int:
                out.extend(ord(x) for x in getattr(chr(c), name)())
            elif mk_bool(c < 128):
                out.append(z3.simplify(z3.If(z3.And(c >= lo, c <= hi), c + delta, c)))
            else:
                out.extend(ord(x) for x in getattr(chr(concretize(c)), name)())
        return mk_str([c.as_long() if not type(c) is int and z3.is_int_value(c) else c for c in out])

    def lower(self):
        return self._case(65, 90, 32, 'lower')

    def upper(self):
        return self._case(97, 122, -32, 'upper')

    def casefold(self):
        return self._case(65, 90, 32, 'casefold')

    def isdigit(self):
        return self._realize().isdigit()

    def encode(self, encoding='utf-8', errors='strict'):
        enc = str(realize(encoding)).lower().replace('_', '-')
        if enc in ('utf-8', 'utf8') and errors in ('strict', 'backslashreplace', 'replace', 'ignore'):
            out = []
            for i, c in enumerate(self.chars):
                sur = 0xD800 <= c <= 0xDFFF if type(c) is int else mk_bool(z3.And(c >= 0xD800, c <= 0xDFFF))
                if not sur:
                    out.append(c)
                elif errors == 'strict':
                    raise UnicodeEncodeError('utf-8', '?' * i + '\ud800' + '?' * (len(self.chars) - i - 1), i, i + 1,
                                             'surrogates not allowed')
                elif errors == 'replace':
                    out.append(63)
                elif errors == 'backslashreplace':
                    out.extend((92, 117))
                    for k in (12, 8, 4, 0):
                        d = (c >> k) % 16 if type(c) is int else (c / 2 ** k) % 16
                        if type(c) is int:
                            out.append(ord('0123456789abcdef'[d]))
                        else:
                            d = z3.simplify(z3.If(d < 10, 48 + d, 87 + d))
                            out.append(d.as_long() if z3.is_int_value(d) else d)
            return SUtf8(out)
        return self._realize().encode(encoding, errors)

    def format(self, *a, **k):
        return self._realize().format(*a, **k)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError(name)

        def method(*a, **k):
            return getattr(self._realize(), name)(*[realize(x) for x in a], **k)
        return method


class SStr(SText):
    __slots__ = ('chars',)

    def __init__(self, chars):
        self.chars = chars


class SDec(SText):
    """The decimal text of a symbolic int; it is only expanded to characters when it has to be."""
    __slots__ = ('v', '_chars')

    def __init__(self, v):
        self.v = v
        self._chars = None

    @property
    def chars(self):
        if self._chars is None:
            e = self.v.e
            neg = bool(mk_bool(e < 0))
            a = z3.simplify(-e if neg else e)
            n = 1
            while mk_bool(a >= 10 ** n):
                n += 1
            out = [ord('-')] if neg else []
            for i in range(n - 1, -1, -1):
                d = z3.simplify(48 + (a / (10 ** i)) % 10)
                out.append(d.as_long() if z3.is_int_value(d) else d)
            self._chars = out
        return self._chars

    def __eq__(self, o):
        if type(o) is SDec:
            return self.v == o.v
        if type(o) is str:
            try:
                n = int(o)
            except ValueError:
                return False
            return self.v == n if str(n) == o else False
        return SText.__eq__(self, o)

    __hash__ = SText.__hash__

    def __bool__(self):
        return True

    def _realize(self):
        return str(self.v._realize())

    def vx_int(self):
        return self.v

    def strip(self, chars=None):
        return self if chars is None else SText.strip(self, chars)

    def encode(self, encoding='utf-8', errors='strict'):
        return SUtf8(self)


class SUtf8(Sym):
    """Text that is encoded as UTF-8."""
    __slots__ = ('text',)

    def __init__(self, chars):
        self.text = chars if issubclass(type(chars), SText) else mk_str(chars)

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding='utf-8', errors='strict'):
        if str(encoding).lower().replace('_', '-') in ('utf-8', 'utf8'):
            return self.text
        return self._realize().decode(encoding, errors)

    def _realize(self):
        return realize(self.text).encode('utf-8')

    def __len__(self):
        return len(self._realize())

    def __eq__(self, o):
        if issubclass(type(o), SUtf8):
            return self.text == o.text
        return self._realize() == o

    def __hash__(self):
        return hash(self._realize())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self._realize(), name)


class SEnum(SText):
    """One of a fixed set of texts; it is only decided as far as comparisons need."""
    __slots__ = ('idx', 'options')

    def __init__(self, idx, options):
        self.idx = idx
        self.options = options

    @property
    def chars(self):
        return [ord(c) for c in self._realize()]

    def _realize(self):
        return self.options[concretize(self.idx)]

    def _where(self, pred):
        hits = [i for i, o in enumerate(self.options) if pred(o)]
        if not hits:
            return False
        if len(hits) == len(self.options):
            return True
        return mk_bool(z3.Or(*[self.idx == i for i in hits]))

    def __eq__(self, o):
        if type(o) is str:
            return self._where(lambda x: x == o)
        if type(o) is SEnum:
            return mk_bool(z3.Or(*[z3.And(self.idx == i, o.idx == j) for i, a in enumerate(self.options)
                                   for j, b in enumerate(o.options) if a == b]))
        return SText.__eq__(self, o)

    __hash__ = SText.__hash__

    def __bool__(self):
        return bool(self._where(lambda x: len(x) > 0))

    def __len__(self):
        return len(self._realize())

    def lower(self):
        return SEnum(self.idx, [o.lower() for o in self.options])

    def upper(self):
        return SEnum(self.idx, [o.upper() for o in self.options])

    def strip(self, chars=None):
        return SEnum(self.idx, [o.strip(chars) for o in self.options])

    def encode(self, encoding='utf-8', errors='strict'):
        return SUtf8(self)


def self_or_str(s):
    return s


def str_of(v):
    """str(v) of a symbolic value."""
    if issubclass(type(v), SText):
        return v
    if type(v) is SInt:
        return SDec(v)
    return str(realize(v))


def int_of(v):
    """int(v) of a symbolic value."""
    if type(v) is SInt:
        return v
    if type(v) is SBool:
        return mk_int(to_int_expr(v))
    if type(v) is SDec:
        return v.v
    if issubclass(type(v), SText):
        if type(v) is SEnum:
            return int(v._realize())
        return _int_of_chars(v)
    if hasattr(v, '__trunc__') and is_sym(v):
        return v.__trunc__()
    return int(realize(v))


def _int_of_chars(v):
    v = v.strip()
    chars = chars_of(v)
    neg = False
    if chars and len(chars) > 1:
        c = chars[0]
        if c == 45 if type(c) is int else mk_bool(c == 45):
            neg, chars = True, chars[1:]
    total = z3.IntVal(0)
    for c in chars:
        ok = 48 <= c <= 57 if type(c) is int else mk_bool(z3.And(c >= 48, c <= 57))
        if not ok:
            return int(realize(v))
        total = total * 10 + (c - 48)
    if not chars:
        return int(realize(v))
    return mk_int(-total if neg else total)


def str_join(sep, parts):
    parts = list(parts)
    sc = chars_of(sep)
    out = []
    for i, p in enumerate(parts):
        pc = chars_of(p)
        if pc is None:
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(p).__name__))
        if i:
            out.extend(sc)
        out.extend(pc)
    return mk_str(out)


def str_mod(fmt, args):
    """'fmt' % args."""
    if isinstance(args, tuple):
        flat = list(args)
    elif isinstance(args, dict):
        return realize(fmt) % {k: realize(v) for k, v in args.items()}
    else:
        flat = [args]
    if isinstance(fmt, str) and not is_sym(fmt) and len(flat) == 1 and fmt == '%s':
        return vx_tostr(flat[0])
    fc = chars_of(fmt)
    out, i, n = [], 0, 0
    while i < len(fc):
        c = fc[i]
        if type(c) is not int:
            c = concretize(c)
        if c != 37:
            out.append(c)
            i += 1
            continue
        k = fc[i + 1] if i + 1 < len(fc) else None
        if k == 37:
            out.append(37)
        elif k in (115, 100) and n < len(flat) and (k == 115 or type(flat[n]) in (SInt, int)):
            out.extend(chars_of(vx_tostr(flat[n])))
            n += 1
        else:
            return realize(fmt) % tuple(realize(a) for a in flat)
        i += 2
    if n != len(flat):
        raise TypeError('not all arguments converted during string formatting')
    return mk_str(out)


def vx_tostr(v):
    from .runtime import vx_str
    return vx_str(v)
