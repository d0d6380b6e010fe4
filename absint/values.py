"""Abstract values of the analyser.

A value is one of
  * a Python constant (None, bool, int, float, str, bytes, Ellipsis, builtin types / functions used as constants)
  * a container (list, dict, tuple, OSet, deque as RObj payload ...) of abstract values
  * Sym: an opaque value, known only by its provenance (op, args) and, sometimes, by its type
  * HostVal: an opaque object of the host program / a plugin, with the type category the scenario gives to it
  * RObj / RClass / RFunc / RModule: objects, classes, functions and modules of the analysed program
"""
from fractions import Fraction


class Sym:
    """An opaque value, identified by its provenance."""
    __slots__ = ('op', 'args', 'ty', 'n', 'meta', '__weakref__')
    op: str

    def __repr__(self):
        if self.op == 'lin':
            c, ts = self.args
            s = ' + '.join(('%s' % a if k == 1 else '%s*%s' % (k, a)) for a, k in ts)
            return '(%s%s)' % (s, '' if c == 0 else ' + %s' % c)
        if self.op == 'concat':
            return 'concat(%s)' % ', '.join(repr(a) for a in self.args)
        if self.op == 'in':
            return '<%s>' % (self.args[0],)
        return '%s(%s)' % (self.op, ', '.join(map(show, self.args)))


def show(v, depth=0):
    if depth > 4:
        return '...'
    if isinstance(v, (list, tuple)):
        br = '[]' if isinstance(v, list) else '()'
        return br[0] + ', '.join(show(x, depth + 1) for x in v[:6]) + (', ...' if len(v) > 6 else '') + br[1]
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (show(k, depth + 1), show(x, depth + 1)) for k, x in list(v.items())[:6]) + '}'
    try:
        s = repr(v)
    except Exception:
        s = '<%s>' % type(v).__name__
    return s if len(s) < 300 else s[:297] + '...'


class Interner:
    def __init__(self):
        self.tab = {}
        self.n = 0

    def sym(self, op, args=(), ty=None, meta=None):
        key = (op, tuple(vkey(a) for a in args))
        s = self.tab.get(key)
        if s is None:
            s = Sym()
            s.op, s.args, s.ty, s.meta = op, tuple(args), ty, meta
            self.n += 1
            s.n = self.n
            self.tab[key] = s
        elif s.ty is None and ty is not None:
            s.ty = ty
        return s


def vkey(v):
    """A hashable key for an abstract value (identity for mutable things)."""
    if isinstance(v, (bool, int, float, str, bytes, type(None), Fraction)):
        return (type(v).__name__, v)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(vkey(x) for x in v)
    return ('id', Ref(v))


class Ref:
    """Identity wrapper which keeps the object alive (so that ids are not reused)."""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __hash__(self):
        return id(self.o)

    def __eq__(self, other):
        return isinstance(other, Ref) and other.o is self.o


class HostVal(Sym):
    """An object of the host program. payload: modelled content, for builtin container types."""
    __slots__ = ('label', 'cls', 'payload', 'attrs', 'traits')

    def __init__(self, label, cls, payload=None, attrs=None, traits=()):
        self.op, self.args, self.ty, self.n, self.meta = 'host', (label,), cls, 0, None
        self.label, self.cls, self.payload = label, cls, payload
        self.attrs = attrs if attrs is not None else {}
        self.traits = set(traits)

    def __repr__(self):
        return '<host %s>' % self.label


class HostClass:
    """The class of a host object which is not one of the plain builtin types."""

    def __init__(self, label, name, bases=(object,), traits=()):
        self.label, self.name, self.bases, self.traits = label, name, tuple(bases), set(traits)

    def __repr__(self):
        return '<hostclass %s>' % self.label


class RModule:
    def __init__(self, name, path, ns):
        self.name, self.path, self.ns = name, path, ns

    def __repr__(self):
        return '<module %s>' % self.name


class ExtModule:
    """A module which is not analysed."""

    def __init__(self, name):
        self.name = name
        self.ns = {}

    def __repr__(self):
        return '<ext module %s>' % self.name


class Ext:
    """An attribute of a module that is not analysed: an opaque callable / class."""

    def __init__(self, name, module=None):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class RClass:
    def __init__(self, name, bases, ns, module, node=None):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.mro = None
        self.is_enum = False
        self.flags = set()
        self.qual = name

    def __repr__(self):
        return '<class %s>' % self.qual


class RObj:
    __slots__ = ('cls', 'attrs', 'native', 'oid', '__weakref__')

    def __init__(self, cls, oid=0):
        self.cls, self.attrs, self.native, self.oid = cls, {}, None, oid

    def __repr__(self):
        if self.cls.is_enum:
            return '%s.%s' % (self.cls.name, self.attrs.get('_name_'))
        return '<%s#%s>' % (self.cls.name, self.oid)


class RFunc:
    def __init__(self, name, node, module, closure, defaults, kwdefaults, cls_ctx):
        self.name, self.node, self.module, self.closure = name, node, module, closure
        self.defaults, self.kwdefaults, self.cls_ctx = defaults, kwdefaults, cls_ctx
        self.attrs = {}
        self.qual = name
        self.owner = None        # class cell for super()
        self.info = None

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound:
    __slots__ = ('obj', 'fn')

    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn

    def __repr__(self):
        return '<bound %r of %s>' % (self.fn, show(self.obj))


class RStatic:
    def __init__(self, fn):
        self.fn = fn


class RClassMethod:
    def __init__(self, fn):
        self.fn = fn


class RProp:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Native:
    """A callable provided by the analyser: fn(interp, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class NMethod:
    """A method of a native container / constant / Sym."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return '<method %s of %s>' % (self.name, show(self.obj))


class OSet:
    """An insertion ordered set of abstract values."""

    def __init__(self, items=(), frozen=False):
        self.d = {}
        self.frozen = frozen
        for i in items:
            self.d[vkey(i)] = i

    def add(self, v):
        self.d[vkey(v)] = v

    def __iter__(self):
        return iter(list(self.d.values()))

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return '{%s}' % ', '.join(show(x) for x in self.d.values())


class Unknown:
    """'cannot tell' result of an abstract operation."""


class PyExc(Exception):
    """An exception of the analysed program."""

    def __init__(self, value, site=None):
        self.value = value
        self.site = site
        self.trace = []


class HostError(Exception):
    """An exception of unknown type, raised by foreign code (derives from Exception)."""


class HostBaseError(BaseException):
    """An exception of unknown type, raised by foreign code (derives from BaseException only)."""


class Undecided(BaseException):
    """The analysis cannot continue on this path (unsupported construct, budget)."""

    def __init__(self, why, site=None):
        super().__init__(why)
        self.why, self.site = why, site


class Pruned(BaseException):
    """This path is not feasible / not of interest."""


class Finding(BaseException):
    """A violated obligation."""

    def __init__(self, rule, msg, site=None, extra=None):
        super().__init__(msg)
        self.rule, self.msg, self.site, self.extra = rule, msg, site, extra
