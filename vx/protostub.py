"""Symbolic stand-ins for the generated protobuf classes.

They are built from the real message descriptors and apply the rules of the real classes: field names, types, ranges of
integers, valid UTF-8 in text, None leaves a field unset, repeated fields and maps are copied. The real classes are used
when a path is replayed.
"""
import sys
import types

from .core import SBool, SInt, SNum, is_sym, mk_bool, realize
from .strings import SText, SUtf8

T_DOUBLE, T_FLOAT, T_INT64, T_UINT64, T_INT32, T_FIXED64, T_FIXED32, T_BOOL, T_STRING = 1, 2, 3, 4, 5, 6, 7, 8, 9
T_MESSAGE, T_BYTES, T_UINT32, T_ENUM, T_SFIXED32, T_SFIXED64, T_SINT32, T_SINT64 = 11, 12, 13, 14, 15, 16, 17, 18
RANGES = {T_INT64: (-2 ** 63, 2 ** 63 - 1), T_UINT64: (0, 2 ** 64 - 1), T_INT32: (-2 ** 31, 2 ** 31 - 1),
          T_FIXED64: (0, 2 ** 64 - 1), T_FIXED32: (0, 2 ** 32 - 1), T_UINT32: (0, 2 ** 32 - 1),
          T_ENUM: (-2 ** 31, 2 ** 31 - 1), T_SFIXED32: (-2 ** 31, 2 ** 31 - 1), T_SFIXED64: (-2 ** 63, 2 ** 63 - 1),
          T_SINT32: (-2 ** 31, 2 ** 31 - 1), T_SINT64: (-2 ** 63, 2 ** 63 - 1)}


def _utf8(v, field):
    if issubclass(type(v), SText) and not hasattr(v, 'options') and not hasattr(v, 'v'):
        import z3
        for c in v.chars:
            if type(c) is int:
                if 0xD800 <= c <= 0xDFFF:
                    raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
            elif mk_bool(z3.And(c >= 0xD800, c <= 0xDFFF)):
                raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
    elif type(v) is str or not is_sym(v):
        v.encode('utf-8')
    return v


def check_scalar(ftype, v, name, enum=None):
    if ftype == T_STRING:
        if isinstance(v, (bytes, bytearray)):
            return v.decode('utf-8')
        if not isinstance(v, str):
            raise TypeError('bad argument type for built-in operation: %s is %s' % (name, type(v).__name__))
        return _utf8(v, name)
    if ftype == T_BYTES:
        if isinstance(v, str) and not isinstance(v, bytes):
            raise TypeError('%s has to be bytes' % name)
        if not isinstance(v, (bytes, bytearray)):
            raise TypeError('%s has to be bytes' % name)
        return v
    if ftype == T_BOOL:
        if type(v) is SBool:
            return v
        if type(v) is SInt:
            return mk_bool(v.e != 0)
        if not isinstance(v, int):
            raise TypeError('%s has to be bool' % name)
        return bool(v)
    if ftype in (T_DOUBLE, T_FLOAT):
        if issubclass(type(v), SNum):
            return v
        return float(realize(v))
    if ftype == T_ENUM and isinstance(v, str):
        return enum.values_by_name[realize(v)].number
    if isinstance(v, str) or not isinstance(v, int) and not (isinstance(v, float) and not is_sym(v) and v.is_integer()):
        raise TypeError('%s has to be int, not %s' % (name, type(v).__name__))
    lo, hi = RANGES[ftype]
    if isinstance(v, float) and not is_sym(v):
        v = int(v)
    if v < lo or v > hi:
        raise ValueError('Value out of range: %s' % name)
    return v


class Repeated(list):
    pass


class StubMessage:
    DESC = None

    def __init__(self, **kwargs):
        self.__dict__['_f'] = {}
        for k, v in kwargs.items():
            if k not in self.FIELDS:
                raise ValueError('Protocol message %s has no "%s" field.' % (self.DESC.name, k))
            if v is None:
                continue
            self._init(self.FIELDS[k], v)

    def _init(self, fd, v):
        if is_map(fd):
            kf, vf = fd.message_type.fields_by_name['key'], fd.message_type.fields_by_name['value']
            out = {}
            for k, x in v.items():
                k = check_scalar(kf.type, k, fd.name)
                if vf.type == T_MESSAGE:
                    if not isinstance(x, StubMessage) or x.DESC.full_name != vf.message_type.full_name:
                        raise TypeError('wrong message in map %s' % fd.name)
                    out[k] = x
                else:
                    out[k] = check_scalar(vf.type, x, fd.name, vf.enum_type)
            self._f[fd.name] = out
        elif is_repeated(fd):
            out = Repeated()
            for x in v:
                if fd.type == T_MESSAGE:
                    out.append(self._msg(fd, x))
                else:
                    out.append(check_scalar(fd.type, x, fd.name, fd.enum_type))
            self._f[fd.name] = out
        elif fd.type == T_MESSAGE:
            self._set(fd, self._msg(fd, v))
        else:
            self._set(fd, check_scalar(fd.type, v, fd.name, fd.enum_type))

    @staticmethod
    def _msg(fd, v):
        if type(v) is dict:
            return CLASSES[fd.message_type.full_name](**v)
        if not isinstance(v, StubMessage) or v.DESC.full_name != fd.message_type.full_name:
            raise TypeError('Parameter to MergeFrom() must be instance of same class: %s got %s' % (
                fd.name, type(v).__name__))
        return v

    def _set(self, fd, v):
        if fd.containing_oneof is not None:
            for other in fd.containing_oneof.fields:
                self._f.pop(other.name, None)
        self._f[fd.name] = v

    def __getattr__(self, name):
        if name not in type(self).FIELDS:
            raise AttributeError(name)
        fd = self.FIELDS[name]
        if name in self._f:
            return self._f[name]
        if is_map(fd):
            return self._f.setdefault(name, {})
        if is_repeated(fd):
            return self._f.setdefault(name, Repeated())
        if fd.type == T_MESSAGE:
            return CLASSES[fd.message_type.full_name]()
        return fd.default_value

    def __setattr__(self, name, v):
        if name not in type(self).FIELDS:
            raise AttributeError('Assignment not allowed (no field "%s" in protocol message object).' % name)
        fd = self.FIELDS[name]
        if is_map(fd) or is_repeated(fd) or fd.type == T_MESSAGE:
            raise AttributeError('Assignment not allowed to message, map, or repeated field "%s"' % name)
        if v is None:
            raise TypeError('None is not a valid value of %s' % name)
        self._set(fd, check_scalar(fd.type, v, name, fd.enum_type))

    def HasField(self, name):
        fd = self.FIELDS[name]
        if is_repeated(fd):
            raise ValueError('no presence: %s' % name)
        if fd.type != T_MESSAGE and fd.containing_oneof is None and not fd.has_presence:
            raise ValueError('no presence: %s' % name)
        return name in self._f

    def WhichOneof(self, name):
        for fd in self.DESC.oneofs_by_name[name].fields:
            if fd.name in self._f:
                return fd.name
        return None

    def ListFields(self):
        return [(fd, self._f[fd.name]) for fd in self.DESC.fields if fd.name in self._f]

    def CopyFrom(self, other):
        self._f.clear()
        self._f.update(other._f)

    MergeFrom = CopyFrom

    def __eq__(self, o):
        return self is o or isinstance(o, StubMessage) and self.DESC is o.DESC and self._f == o._f

    __hash__ = None

    def SerializeToString(self):
        return b''

    def ByteSize(self):
        return 0

    def __bool__(self):
        return True


def is_repeated(fd):
    r = getattr(fd, 'is_repeated', None)
    return (fd.label == 3) if r is None else (r() if callable(r) else r)


def is_map(fd):
    return fd.type == T_MESSAGE and fd.message_type.GetOptions().map_entry


CLASSES = {}


def _make(desc):
    cls = type(desc.name, (StubMessage,), {'DESC': desc, 'FIELDS': {f.name: f for f in desc.fields}})
    CLASSES[desc.full_name] = cls
    for n in desc.nested_types:
        _make(n)
    return cls


def install():
    """Replace the deepproto message modules."""
    import deepproto.proto.common.v1.common_pb2 as common
    import deepproto.proto.resource.v1.resource_pb2 as resource
    import deepproto.proto.tracepoint.v1.tracepoint_pb2 as tracepoint
    import deepproto.proto.poll.v1.poll_pb2 as poll
    import deepproto.proto.poll.v1.poll_pb2_grpc as poll_grpc
    import deepproto.proto.tracepoint.v1.tracepoint_pb2_grpc as tp_grpc
    assert poll_grpc and tp_grpc
    for mod in (common, resource, tracepoint, poll):
        stub = types.ModuleType(mod.__name__)
        for name in dir(mod):
            v = getattr(mod, name)
            if hasattr(v, 'DESCRIPTOR') and issubclass(type(v), type):
                setattr(stub, name, _make(v.DESCRIPTOR))
            elif not name.startswith('__'):
                setattr(stub, name, v)
        sys.modules[mod.__name__] = stub
        parent, _, child = mod.__name__.rpartition('.')
        setattr(sys.modules[parent], child, stub)
