"""The mixin methods of the mapping and sequence base classes."""


class Iterable:
    pass


class Sized:
    pass


class Container:
    pass


class Hashable:
    pass


class Callable:
    pass


class Iterator(Iterable):
    pass


class Generator(Iterator):
    pass


class Collection(Sized, Iterable, Container):
    pass


class Sequence(Collection):
    pass


class MutableSequence(Sequence):
    pass


class Set(Collection):
    pass


class MutableSet(Set):
    pass


class Mapping(Collection):
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    def keys(self):
        return [k for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __eq__(self, other):
        if not isinstance(other, Mapping):
            return NotImplemented
        return dict(self.items()) == dict(other.items())

    def __ne__(self, other):
        return not self == other


_M = object()


class MutableMapping(Mapping):
    def pop(self, key, default=_M):
        try:
            value = self[key]
        except KeyError:
            if default is _M:
                raise
            return default
        else:
            del self[key]
            return value

    def popitem(self):
        for key in self:
            value = self[key]
            del self[key]
            return key, value
        raise KeyError

    def clear(self):
        for k in list(self.keys()):
            del self[k]

    def update(self, other=(), **kwds):
        if isinstance(other, Mapping):
            for key in other:
                self[key] = other[key]
        elif hasattr(other, 'keys'):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default
