"""Independent reading of values: what a variable table has to say about the objects of the program."""

CONTAINERS = (list, tuple, set, frozenset, dict)
LEAVES = (str, int, float, bool, type(None), bytes, complex, type)


def demangled(cls, name):
    """The names that a private attribute can have."""
    own = cls.lstrip('_')
    if own and name.startswith('_%s__' % own) and not name.endswith('__'):
        return [name, name[len(own) + 1:]]
    return [name]


def text_of(value):
    """The text of a value: the number of elements of containers."""
    if any(type(value) is t for t in CONTAINERS):
        return 'Size: %d' % len(value)
    return str(value)


def children_of(value, limit=10):
    """The children of a value with the names that they can have, or None for leaves."""
    if type(value) is not dict and any(type(value) is t for t in CONTAINERS):
        return [([str(i)], v) for i, v in list(enumerate(value))[:limit]]
    if type(value) is dict:
        return [([str(k)], v) for k, v in list(value.items())]
    if isinstance(value, BaseException):
        return [([str(i)], v) for i, v in list(enumerate(value.args))[:limit]]
    if isinstance(value, LEAVES):
        return []
    attrs = getattr(value, '__dict__', None)
    if type(attrs) is dict:
        return [(demangled(type(value).__name__, k), v) for k, v in list(attrs.items())]
    return []


class Reading:
    """What a value was when it was read: it does not change with the value."""

    def __init__(self, value, depth=5, limit=10, known=None):
        known = {} if known is None else known
        self.value = value
        self.type = type(value).__name__
        self.text = text_of(value)
        self.children = []
        known[id(value)] = self
        if depth > 1:
            for names, child in children_of(value, limit):
                self.children.append((names, known.get(id(child)) or Reading(child, depth - 1, limit, known)))


def differences(x, table, ref, reading, what, length=1024, done=None):
    """The conditions under which a reference stands for a value."""
    done = set() if done is None else done
    if ref is None:
        return [(False, '%s is recorded' % what)]
    if (ref.vid, id(reading)) in done:
        return []
    done.add((ref.vid, id(reading)))
    entry = table.get(ref.vid)
    if entry is None:
        return [(False, '%s is in the table' % what)]
    text = reading.text
    out = [(x.eq(entry.type, reading.type), 'type of %s' % what), (x.eq(entry.value, text[:length]), 'value of %s' % what),
           (x.eq(entry.truncated, len(text) > length), '%s is marked as truncated' % what),
           (len(entry.children) == len(reading.children), 'number of children of %s' % what)]
    names = [c.name for c in entry.children]
    for i, (options, child) in enumerate(reading.children):
        ok = i < len(names) and names[i] in options
        if not ok:
            out.append((False, 'name of a child of %s' % what))
            continue
        c = entry.children[i]
        if c.original_name is not None:
            out.append((c.original_name == options[0], 'original name of a child of %s' % what))
        out += differences(x, table, c, child, '%s.%s' % (what, names[i]), length, done)
    return out


def check_all(x, conditions, what):
    """Check all the conditions at once: how many there are depends on the values that are shared."""
    message = what
    if not x.symbolic:
        message = '%s: %s' % (what, ', '.join([m for c, m in conditions if not c][:3]))
    x.check(x.conj([c for c, m in conditions]), message)


def compare(x, table, ref, reading, what, length=1024):
    """Check that a reference stands for a value."""
    check_all(x, differences(x, table, ref, reading, what, length), what)


def compare_all(x, table, refs, readings, what, length=1024):
    """Check that named references stand for named values."""
    out = [([r.name for r in refs] == list(readings), 'names')]
    done = set()
    for ref, (name, reading) in zip(refs, readings.items()):
        out += differences(x, table, ref, reading, name, length, done)
    check_all(x, out, what)
