"""Small parts of the standard library, written in Python."""


class cached_property:
    def __init__(self, func):
        self.func = func
        self.attrname = None

    def __set_name__(self, owner, name):
        self.attrname = name

    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        v = self.func(instance)
        instance.__dict__[self.attrname] = v
        return v


class SimpleNamespace:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class auto:
    pass


DC_MISSING = SimpleNamespace()


class dc_field:
    def __init__(self, default=DC_MISSING, default_factory=DC_MISSING, init=True, repr=True, compare=True, hash=None,
                 metadata=None, kw_only=False):
        self.default = default
        self.default_factory = default_factory
        self.init = init
