"""The symbolic versions of the operations that python implements in C."""
import builtins
import os.path
import re
import sys
import types

import z3

from .core import (ST, Sym, SBool, SInt, SNum, SReal, is_sym, mk_bool, realize, to_real_expr)
from .strings import (SStr, SText, SDec, SUtf8, chars_of, int_of, str_join, str_mod, str_of, mk_str, vx_tostr)

BUILTIN = types.BuiltinFunctionType
CLASS_DICT = type.__dict__['__dict__'].__get__
METHOD_DESC = (types.WrapperDescriptorType, types.MethodDescriptorType)
METHOD_WRAPPER = types.MethodWrapperType


def one_of(t, types_):
    """Is it one of these types, without the methods of its metaclass."""
    for other in types_:
        if t is other:
            return True
    return False


PAIRS = (tuple, list)


def _any_sym(args, kwargs):
    for a in args:
        if issubclass(type(a), Sym):
            return True
        if one_of(type(a), PAIRS) and any(issubclass(type(x), Sym) for x in a):
            return True
    for a in kwargs.values():
        if issubclass(type(a), Sym):
            return True
    return False


def deep_realize(v):
    if issubclass(type(v), Sym):
        return realize(v)
    if type(v) is tuple:
        return tuple(deep_realize(x) for x in v)
    if type(v) is list:
        return [deep_realize(x) for x in v]
    if type(v) is dict:
        return {deep_realize(k): deep_realize(x) for k, x in v.items()}
    return v


def vx_len(v, *a):
    if issubclass(type(v), SText):
        if type(v) is SDec:
            return len(v.chars)
        return v.vx_len()
    return len(v, *a)


CONTAINERS = (list, tuple, dict)


def holds_sym(v, seen=None):
    """Does a container hold a symbolic value."""
    if is_sym(v):
        return True
    if issubclass(type(v), BaseException):
        v = BaseException.args.__get__(v)
    if not one_of(type(v), CONTAINERS) or not v:
        return False
    seen = set() if seen is None else seen
    if id(v) in seen:
        return False
    seen.add(id(v))
    return any(holds_sym(x, seen) for x in (v.values() if type(v) is dict else v))


def text_of(v, stack=()):
    """repr() of a container that holds symbolic values."""
    if is_sym(v):
        return vx_repr(v)
    if not one_of(type(v), CONTAINERS):
        if issubclass(type(v), BaseException) and type(v).__repr__ is BaseException.__repr__:
            given = BaseException.args.__get__(v)
            if holds_sym(given):
                return str_join('', [type(v).__name__, str_join('', ['(', text_of(given[0], stack), ')']) if len(given) == 1 else text_of(given, stack)])
        return repr(v)
    if any(v is o for o in stack):
        return {list: '[...]', tuple: '(...)', dict: '{...}'}[type(v)]
    stack += (v,)
    if type(v) is dict:
        items = [str_join('', [text_of(k, stack), ': ', text_of(i, stack)]) for k, i in v.items()]
        return str_join('', ['{', str_join(', ', items), '}'])
    items = str_join(', ', [text_of(i, stack) for i in v])
    if type(v) is list:
        return str_join('', ['[', items, ']'])
    return str_join('', ['(', items, ',)' if len(v) == 1 else ')'])


def vx_str(*args, **kwargs):
    if len(args) == 1 and not kwargs and is_sym(args[0]):
        return str_of(args[0])
    if args and issubclass(type(args[0]), SUtf8):
        return args[0].decode(*args[1:])
    if len(args) == 1 and not kwargs:
        t = type(args[0])
        # str() of an object is allowed to have a symbolic text
        m = CLASS_DICT(t).get('__str__')
        if type(m) is types.FunctionType and getattr(m, '_vx_symbolic', False):
            return m(args[0])
        if issubclass(t, BaseException) and t.__str__ is BaseException.__str__:
            given = BaseException.args.__get__(args[0])
            if holds_sym(given):
                return text_of(given) if len(given) > 1 else vx_str(given[0])
        if one_of(t, CONTAINERS) and holds_sym(args[0]):
            return text_of(args[0])
    return str(*args, **kwargs)


def vx_int(*args, **kwargs):
    if len(args) == 1 and is_sym(args[0]):
        return int_of(args[0])
    return int(*[realize(a) for a in args], **kwargs)


def vx_float(*args):
    if len(args) == 1 and is_sym(args[0]):
        v = args[0]
        if issubclass(type(v), SNum) or type(v) is SBool:
            return SReal(to_real_expr(v))
        if type(v) is SDec:
            return SReal(to_real_expr(v.v))
        return float(realize(v))
    return float(*args)


def vx_bool(*args):
    if len(args) == 1:
        v = args[0]
        if type(v) is SBool:
            return v
        if issubclass(type(v), SNum):
            return mk_bool(v.e != 0)
    return bool(*args)


def vx_type(*args):
    if len(args) == 1 and is_sym(args[0]):
        return args[0].__class__
    return type(*args)


def vx_isinstance(v, t):
    return isinstance(v, t)


def vx_repr(v):
    if type(v) is SInt:
        return str_of(v)
    if issubclass(type(v), SText) and type(v) in (SStr, SDec):
        # the characters that are not escaped
        codes = [c for c in chars_of(v)]
        if all(mk_bool(z3.And(c >= 32, c < 127, c != 39, c != 92)) if type(c) is not int
               else 32 <= c < 127 and c not in (39, 92) for c in codes):
            return str_join('', ["'", v, "'"])
    if one_of(type(v), CONTAINERS) and holds_sym(v):
        return text_of(v)
    return repr(realize(v))


def _join(*args):
    return os.path.join(*args)


def vx_basename(p):
    if issubclass(type(p), SText):
        i = p.rfind('/') + 1
        return p[i:]
    return os.path.basename(p)


def vx_dirname(p):
    if issubclass(type(p), SText):
        i = p.rfind('/') + 1
        head = p[:i]
        if vx_len(head) and not all_slash(head):
            head = head.rstrip('/') if issubclass(type(head), SText) else head.rstrip('/')
        return head
    return os.path.dirname(p)


def all_slash(h):
    return bool(h == '/' * vx_len(h))


def vx_split(p):
    if issubclass(type(p), SText):
        return vx_dirname(p), vx_basename(p)
    return os.path.split(p)


def vx_range(*args):
    return range(*[realize(a) for a in args])


def vx_minmax(name):
    orig = getattr(builtins, name)

    def fn(*args, **kwargs):
        if len(args) == 2 and not kwargs and (issubclass(type(args[0]), SNum) or issubclass(type(args[1]), SNum)):
            a, b = args
            less = (b < a) if name == 'min' else (b > a)
            if type(less) is SBool and all(type(x) in (SInt, int) for x in args):
                import z3
                from .core import to_int_expr, mk_int
                return mk_int(z3.If(less.e, to_int_expr(b), to_int_expr(a)))
            return b if less else a
        return orig(*args, **kwargs)
    return fn


def vx_hash(v):
    return hash(v)


def vx_id(v):
    return id(v)


def vx_round(v, n=None):
    return v.__round__(n) if is_sym(v) else (round(v) if n is None else round(v, n))


def vx_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return a // b, a % b
    return divmod(a, b)


def vx_abs(v):
    return abs(v)


def vx_ord(c):
    if issubclass(type(c), SText):
        ch = c.chars[0]
        return ch if type(ch) is int else SInt(ch)
    return ord(c)


def vx_chr(c):
    if type(c) is SInt:
        return mk_str([c.e])
    return chr(c)


def vx_any(it):
    return any(it)


def vx_format(v, spec=''):
    if is_sym(v) and not (is_sym(spec) or len(spec)):
        return str_of(v)
    return format(realize(v), realize(spec))


def vx_hasattr(o, name):
    return hasattr(o, realize(name))


def vx_getattr(o, name, *d):
    return getattr(o, realize(name), *d)


def vx_sum(it, start=0):
    total = start
    for x in it:
        total = total + x
    return total


def vx_math_isnan(v):
    import math
    return False if is_sym(v) else math.isnan(v)


def vx_math_isinf(v):
    import math
    return False if is_sym(v) else math.isinf(v)


def vx_math_isfinite(v):
    import math
    return True if is_sym(v) else math.isfinite(v)


def vx_math_floor(v):
    import math
    return v.floor() if type(v) is SReal else (v if type(v) is SInt else math.floor(v))


def vx_math_ceil(v):
    import math
    return v.__ceil__() if type(v) is SReal else (v if type(v) is SInt else math.ceil(v))


TABLE = {}
# python functions of these modules get concrete text and numbers
STDLIB = set(sys.stdlib_module_names) - {'threading', 'concurrent', 'contextlib', 'functools', 'abc', 'typing', 'copy',
                                         'queue', 'logging', 'weakref', '_weakrefset', 'collections', 'traceback',
                                         'unittest', 'dataclasses', 'enum', 'types'}


def _fill():
    import math
    for orig, fn in [
        (len, vx_len), (str, vx_str), (int, vx_int), (float, vx_float), (bool, vx_bool), (type, vx_type),
        (repr, vx_repr), (os.path.basename, vx_basename), (os.path.dirname, vx_dirname), (os.path.split, vx_split),
        (range, vx_range), (min, vx_minmax('min')), (max, vx_minmax('max')), (round, vx_round), (divmod, vx_divmod),
        (ord, vx_ord), (chr, vx_chr), (format, vx_format), (hasattr, vx_hasattr), (getattr, vx_getattr),
        (sum, vx_sum), (math.isnan, vx_math_isnan), (math.isinf, vx_math_isinf), (math.isfinite, vx_math_isfinite),
        (math.floor, vx_math_floor), (math.ceil, vx_math_ceil),
    ]:
        TABLE[orig] = fn


_fill()


def _vx_map(fn, *its):
    return map(vx_fn(fn), *its)


def _vx_filter(fn, it):
    return filter(fn if fn is None else vx_fn(fn), it)


def _vx_sorted(it, **kwargs):
    if kwargs.get('key') is not None:
        kwargs['key'] = vx_fn(kwargs['key'])
    return sorted(it, **kwargs)


# the functions that they call are called without the program
TABLE[map], TABLE[filter], TABLE[sorted] = _vx_map, _vx_filter, _vx_sorted

# builtins for which symbolic arguments (or arguments that hold them) are fine as they are
SAFE = {isinstance, issubclass, id, hash, iter, next, callable, any, all, sorted, print, abs, setattr, delattr, enumerate,
        zip, map, filter, reversed, list, tuple, dict, set, frozenset, object, super, property, staticmethod, classmethod,
        BaseException}
SAFE_TYPES = (list, dict, set, frozenset, tuple)
SYM_METHODS = (str,)


def _str_method(fn):
    """A method of a concrete str."""
    def call(*args, **kwargs):
        if not _any_sym(args, kwargs):
            if fn.__name__ == 'join' and len(args) == 1 and not one_of(type(args[0]), PAIRS):
                parts = list(args[0])
                if any(is_sym(p) for p in parts):
                    return str_join(fn.__self__, parts)
                return fn(parts)
            return fn(*args, **kwargs)
        s, name = fn.__self__, fn.__name__
        if name == 'join':
            return str_join(s, args[0])
        if name in ('startswith', 'endswith', 'find', 'rfind', 'index', 'rindex', 'split', 'rsplit', 'partition',
                    'rpartition', 'replace', 'strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix'):
            from .strings import SStr
            return getattr(SStr([ord(c) for c in s]), name)(*args, **kwargs)
        if name == 'format':
            return _str_format(s, args, kwargs)
        return fn(*[deep_realize(a) for a in args], **{k: deep_realize(v) for k, v in kwargs.items()})
    return call


def _str_format(s, args, kwargs):
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if spec or conv or not (field == '' or field.isdigit() or field in kwargs):
            return s.format(*[deep_realize(a) for a in args], **{k: deep_realize(v) for k, v in kwargs.items()})
        if field in kwargs:
            out.append(vx_tostr(kwargs[field]))
        else:
            i = auto if field == '' else int(field)
            auto += 1
            out.append(vx_tostr(args[i]))
    return str_join('', out)


def _descriptor(fn):
    """An unbound method of a builtin type, e.g. str.__str__."""
    def call(*args, **kwargs):
        if args and is_sym(args[0]):
            name = fn.__name__
            if name in ('__str__',) and issubclass(type(args[0]), SText):
                return args[0]
            if fn.__objclass__ is str:
                m = getattr(args[0], name)
                if name == '__getitem__' or not name.startswith('__'):
                    return m(*args[1:], **kwargs)
                if name == '__len__':
                    return vx_len(args[0])
            if name in ('__class__',):
                return args[0].__class__
        if args and fn.__objclass__ is str and _any_sym(args, kwargs):
            return _str_method(getattr(args[0], fn.__name__))(*args[1:], **kwargs)
        return fn(*[realize(a) for a in args], **kwargs)
    return call


def _builtin(fn):
    """Some other builtin: it gets concrete arguments, each possible value is followed."""
    def call(*args, **kwargs):
        if _any_sym(args, kwargs):
            args = [deep_realize(a) for a in args]
            kwargs = {k: deep_realize(v) for k, v in kwargs.items()}
        return fn(*args, **kwargs)
    return call


def _is_user_class(t):
    return bool(type.__dict__['__flags__'].__get__(t) & (1 << 9))   # heap type, so it is defined in python


def vx_fn(f):
    if not ST.active:
        return f
    t = type(f)
    if t is types.FunctionType:
        r = TABLE.get(f)
        if r is not None:
            return r
        return _builtin(f) if (f.__module__ or '').split('.')[0] in STDLIB else f
    if t is types.MethodType:
        return f
    if t is BUILTIN:
        r = TABLE.get(f)
        if r is not None:
            return r
        s = f.__self__
        if s is None or issubclass(type(s), types.ModuleType):
            return f if f in SAFE else _builtin(f)
        ts = type(s)
        if ts is str:
            return _str_method(f)
        if ts in (re.Pattern, re.Match):
            return _builtin(f)
        if ts in SAFE_TYPES or CLASS_DICT(ts).get('__module__', 'builtins') != 'builtins':
            return f
        if issubclass(type(s), type):
            return _builtin(f) if any(s is b for b in (str, int, float, bytes)) else f
        return _builtin(f) if ts in (bytes, bytearray, int, float) else f
    if issubclass(type(f), type):
        r = TABLE.get(f)
        if r is not None:
            return r
        if f in SAFE or _is_user_class(f) or issubclass(f, BaseException):
            return f
        if f.__module__ == 'builtins':
            return _builtin(f)
        return f
    if one_of(t, METHOD_DESC):
        return _descriptor(f) if f.__objclass__ in (str, int, float, object) else f
    return f


def vx_mod(a, b):
    if is_sym(a) and isinstance(a, str) or issubclass(type(a), str) and (_any_sym((b,), {}) or _has_sym_text(b)):
        return str_mod(a, b)
    return a % b


def _has_sym_text(b):
    for x in b if type(b) is tuple else (b,):
        m = CLASS_DICT(type(x)).get('__str__') if not is_sym(x) else None
        if type(m) is types.FunctionType and getattr(m, '_vx_symbolic', False):
            return True
    return False


def vx_in(a, b):
    if is_sym(a):
        if issubclass(type(b), SText):
            return b.contains(a)
        if type(b) is str:
            from .strings import SStr
            return SStr([ord(c) for c in b]).contains(a)
        if one_of(type(b), (dict, set, frozenset)) or type(b).__name__ in ('dict_keys',):
            for k in list(b):
                if k is a or (type(k) is str or is_sym(k) or type(k) is int) and k == a:
                    return True
            return False
    elif issubclass(type(b), SText):
        return b.contains(a)
    return a in b


def vx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        if type(p) is not tuple:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = vx_repr(v)
        elif conv == 115:
            v = vx_str(v)
        elif conv == 97:
            v = ascii(realize(v))
        if spec is None or (not is_sym(spec) and spec == ''):
            out.append(str_of(v) if is_sym(v) else (vx_str(v) if _has_sym_text((v,)) else format(v)))
        else:
            out.append(format(realize(v), realize(spec)))
    if any(is_sym(o) for o in out):
        return str_join('', out)
    return ''.join(out)


NAMES = {'_vx_fn': vx_fn, '_vx_mod': vx_mod, '_vx_in': vx_in, '_vx_fstr': vx_fstr}
