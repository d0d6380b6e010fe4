"""Models of the builtin functions, types and of the parts of the standard library that are not interpreted from a stub.

Every model works on abstract values.  If all arguments are constants the constant result is computed.
"""
import builtins
import collections
import os.path
from fractions import Fraction

from values import *          # noqa: F401,F403
from interp import (MISSING, SCALARS, CONTAINERS, NativeSlot, LRU, DefDict, DView, GenObj, STDLIB_EXC, NATIVE_CMP)
import ast

STR_METHODS = {n for n in dir(str) if not n.startswith('__')}
BYTES_METHODS = {n for n in dir(bytes) if not n.startswith('__')}
LIST_METHODS = {n for n in dir(list) if not n.startswith('__')}
TUPLE_METHODS = {'count', 'index'}
DICT_METHODS = {n for n in dir(collections.OrderedDict) if not n.startswith('__')}
SET_METHODS = {n for n in dir(set) if not n.startswith('__')}
DEQUE_METHODS = {n for n in dir(collections.deque) if not n.startswith('__')}
INT_METHODS = {n for n in dir(int) if not n.startswith('__')}
FLOAT_METHODS = {n for n in dir(float) if not n.startswith('__')}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem',
            'add', 'discard', 'appendleft', 'popleft', 'extendleft', 'rotate', 'difference_update',
            'intersection_update', 'symmetric_difference_update', 'move_to_end'}
STR_BOOL = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isnumeric',
            'isidentifier', 'isdecimal', 'istitle', 'isascii', 'isprintable'}
STR_INT = {'find', 'rfind', 'index', 'rindex', 'count'}
SLOTS = ('__str__', '__repr__', '__eq__', '__ne__', '__hash__', '__len__', '__iter__', '__contains__', '__getitem__',
         '__setitem__', '__delitem__', '__enter__', '__exit__', '__call__', '__next__', '__class__', '__format__',
         '__getattribute__', '__setattr__', '__init__', '__get__', '__lt__', '__gt__', '__le__', '__ge__', '__add__',
         '__dict__', '__doc__', '__reversed__', '__bool__', '__sizeof__', '__dir__')


def is_const(v):
    if isinstance(v, SCALARS):
        return True
    if isinstance(v, (list, tuple)):
        return all(is_const(x) for x in v)
    return False


def install(it):
    b = {}
    for n, o in vars(builtins).items():
        if isinstance(o, type) and issubclass(o, BaseException):
            b[n] = o
    for t in (int, float, str, bool, bytes, bytearray, list, tuple, dict, object, type, range, slice, complex,
              set, frozenset):
        b[t.__name__] = t
    b['NotImplemented'] = NotImplemented
    b['Ellipsis'] = Ellipsis
    b['__debug__'] = True
    b['memoryview'] = Ext('builtins.memoryview')
    for n, f in list(globals().items()):
        if n.startswith('b_'):
            name = n[2:]
            b[name] = Native(name, f)
    for n in ('locals', 'globals', 'vars', 'dir', 'eval', 'exec'):
        b[n] = Native(n, lambda i, a, k, n=n: i.undecided('indirect ' + n))
    b['_vars'] = Native('vars', lambda i, a, k: i.getattr(a[0], '__dict__'))
    b['_dir'] = Native('dir', m_dir)
    b['_locals'] = b['locals']
    it.builtins = b
    it.model_flags = set()
    it.tls = {}
    it.hooks = {}
    it.tasks = []
    it.spawned = []
    it.boundary_hook = None
    it.eval_hook = None
    it.object_slots = {
        '__init__': Native('object.__init__', lambda i, a, k: None),
        '__getattribute__': Native('object.__getattribute__', slot_getattribute),
        '__setattr__': Native('object.__setattr__', slot_setattr),
        '__delattr__': Native('object.__delattr__', lambda i, a, k: i.delattr(a[0], a[1])),
        '__str__': Native('object.__str__', lambda i, a, k: i.to_str(a[0]) if not isinstance(a[0], RObj) else i.sym('str', a[0], ty=str)),
        '__repr__': Native('object.__repr__', lambda i, a, k: i.sym('repr', a[0], ty=str)),
        '__eq__': Native('object.__eq__', lambda i, a, k: True if a[0] is a[1] else NotImplemented),
        '__ne__': Native('object.__ne__', lambda i, a, k: a[0] is not a[1]),
        '__hash__': Native('object.__hash__', lambda i, a, k: i.sym('hash', a[0], ty=int)),
        '__format__': Native('object.__format__', lambda i, a, k: i.to_str(a[0])),
        '__new__': Native('object.__new__', lambda i, a, k: i.new_obj(a[0])),
        '__reduce__': Native('object.__reduce__', lambda i, a, k: i.undecided('reduce')),
        '__init_subclass__': Native('object.__init_subclass__', lambda i, a, k: None),
    }
    it.eval_builtin = lambda name, args, kw, fr: m_eval(it, name, args, kw, fr)
    it.native_types.update({
        'collections.deque': collections.deque, 'collections.OrderedDict': collections.OrderedDict,
        'collections.defaultdict': DefDict, 'types.ModuleType': type(os),
        'typing.TYPE_CHECKING': False, 'fractions.Fraction': Fraction,
        'types.NoneType': type(None),
    })
    import stdlib_model
    stdlib_model.install(it)


# -------------------------------------------------------------------- slots

def slot_getattribute(i, a, k):
    o, name = i.resolve(a[0]), a[1]
    if isinstance(o, RObj):
        return i.obj_getattr_default(o, name)
    if isinstance(o, HostVal):
        return host_raw_getattr(i, o, name)
    return i.getattr(o, name)


def host_raw_getattr(i, o, name):
    """object.__getattribute__(host object, name): no code of the class is run (for __dict__)."""
    if name in o.attrs and o.attrs[name] is not MISSING:
        v = o.attrs[name]
        from interp import Lazy
        if isinstance(v, Lazy):
            v = o.attrs[name] = v.make()
        return v
    if name == '__class__':
        return o.cls
    if name == '__dict__':
        i.throw(AttributeError, "object has no attribute '__dict__'")
    return i.host_getattr(o, name)


def slot_setattr(i, a, k):
    o = i.resolve(a[0])
    if isinstance(o, RObj):
        i.obj_setattr_default(o, a[1], a[2])
    else:
        i.setattr(o, a[1], a[2])


# -------------------------------------------------------------------- builtin functions

def b_len(i, a, k):
    return length(i, a[0])


def length(i, v):
    v = i.resolve(v)
    if isinstance(v, (str, bytes, list, tuple, dict, collections.deque, OSet, DView, range)):
        return len(v)
    if isinstance(v, RObj):
        from interp import MISSING as M
        if i.find_cls_attr(v.cls, '__len__') is not M:
            return i.call_method(v, '__len__')
        if v.native is not None:
            return length(i, v.native)
        i.throw(TypeError, "object of type '%s' has no len()" % v.cls.name)
    if isinstance(v, HostVal):
        if isinstance(v.payload, (list, tuple, dict)) and v.cls in (list, tuple, dict, set, frozenset, collections.deque):
            if 'long' in v.traits:
                s = i.sym('len', v, ty=int)
                i.assume((Fraction(-len(v.payload)), {s: Fraction(1)}))
                return s
            return len(v.payload)
        if v.cls in (int, float, bool, type(None)):
            i.throw(TypeError, 'object has no len()')
        if v.cls not in (str, bytes):
            i.foreign('len', v, memo=True)
        s = i.sym('len', v, ty=int)
        i.assume((Fraction(0), {s: Fraction(1)}))
        if i.short is not None and v.cls is str:
            i.assume((Fraction(i.short), {s: Fraction(-1)}))
        return s
    if isinstance(v, RClass) and v.is_enum:
        return len(set(map(id, v.ns['__members__'].values())))
    if isinstance(v, Sym):
        if v.ty in (int, float, bool, type(None)):
            i.throw(TypeError, 'object has no len()')
        if v.op == 'concat':
            r = 0
            for p in v.args:
                r = i.lin_add(r, length(i, p if i.is_strish(p) else i.sym('str', p, ty=str)))
            return r
        if v.op == 'split':
            return i.count_of(v, 1)
        s = i.sym('len', v, ty=int)
        i.assume((Fraction(0), {s: Fraction(1)}))
        if i.short is not None and v.ty is str:
            i.assume((Fraction(i.short), {s: Fraction(-1)}))
        if v.op == 'slice' and v.args[1] is None and v.args[3] is None:
            src = length(i, v.args[0])
            d = i.diff(src, s)
            i.assume(d)
            d = i.diff(v.args[2], s)
            if d is not None and i.entails(i.lin_of(v.args[2])):
                i.assume(d)
        return s
    if isinstance(v, (Ext, ExtModule)):
        s = i.sym('len', v, ty=int)
        i.assume((Fraction(0), {s: Fraction(1)}))
        return s
    i.throw(TypeError, "object of type '%s' has no len()" % i.type_name(v))


def b_isinstance(i, a, k):
    return i.isinstance(a[0], a[1])


def b_issubclass(i, a, k):
    c = i.resolve(a[0])
    if isinstance(c, (RClass, type, HostClass, Ext)):
        return i.is_subclass(c, a[1])
    if isinstance(c, Sym):
        return i.fact(('issubclass', c, a[1]))
    i.throw(TypeError, 'issubclass() arg 1 must be a class')


def b_id(i, a, k):
    v = i.resolve(a[0])
    for x, y in i.same_id:
        if x is v:
            v = y                     # this object lives where y has been
    return i.sym('id', v, ty=int)


def b_hash(i, a, k):
    v = i.resolve(a[0])
    if isinstance(v, RObj):
        m = i.find_cls_attr(v.cls, '__hash__')
        if isinstance(m, RFunc):
            return i.call_method(v, '__hash__')
    i.hashable(v)
    return i.sym('hash', v, ty=int)


def b_repr(i, a, k):
    return i.to_repr(a[0])


b_ascii = b_repr


def b_format(i, a, k):
    return i.format_value(a[0], a[1] if len(a) > 1 else '')


def b_callable(i, a, k):
    v = i.resolve(a[0])
    if isinstance(v, (RFunc, Native, NMethod, NativeSlot, RClass, type, Ext, HostClass, LRU)):
        return True
    if isinstance(v, Bound):
        return b_callable(i, [v.fn], k) if isinstance(v.fn, Sym) else True
    if isinstance(v, RObj):
        return i.find_cls_attr(v.cls, '__call__') is not MISSING
    if isinstance(v, HostVal):
        if '__call__' in v.attrs:
            return True
        return i.fact(('callable', v)) if isinstance(v.cls, HostClass) else False
    if isinstance(v, Sym):
        if v.ty is not None:
            return False
        return i.fact(('callable', v))
    return False


def b_getattr(i, a, k):
    name = i.resolve(a[1])
    if isinstance(name, Sym):
        o = i.resolve(a[0])
        if isinstance(o, HostVal):
            i.foreign('getattr', o, memo=True, extra=(name,))
            return HostVal('%s.<%r>' % (o.label, name), HostClass('attr', 'Thing'))
        if isinstance(o, Sym):
            return i.sym('attr', o, name)
        return opaque_getattr(i, o, name, a[2] if len(a) > 2 else MISSING)
    if not isinstance(name, str):
        i.throw(TypeError, 'attribute name must be string')
    return i.getattr(a[0], name, a[2] if len(a) > 2 else MISSING)


def opaque_getattr(i, o, name, default):
    """The attribute with an opaque name: one of the methods, or there is none."""
    if isinstance(o, RObj):
        names = []
        for c in o.cls.mro:
            if isinstance(c, RClass):
                names += [n for n in c.ns if not n.startswith('_') and n not in names]
        names += [n for n in o.attrs if not n.startswith('_') and n not in names]
        for n in names:
            if i.eq(name, n):
                return i.getattr(o, n)
    if default is not MISSING:
        return default
    i.throw(AttributeError, name)


def interp_consts():
    import interp
    return interp


def b_hasattr(i, a, k):
    r = i.getattr(a[0], i.resolve(a[1]), MISSING_MARK)
    return r is not MISSING_MARK


MISSING_MARK = Native('missing', None)


def b_setattr(i, a, k):
    i.setattr(a[0], i.resolve(a[1]), a[2])


def b_delattr(i, a, k):
    i.delattr(a[0], i.resolve(a[1]))


def b_print(i, a, k):
    i.event('effect', 'print', *a)


def b_input(i, a, k):
    i.event('effect', 'input')
    return i.fresh('input', str)


def b_open(i, a, k):
    return i.ext_call('open', a, k)


def b___import__(i, a, k):
    return i.import_module(a[0])


def b_compile(i, a, k):
    src = i.resolve(a[0])
    mode = i.resolve(a[2]) if len(a) > 2 else k.get('mode', 'exec')
    if type(src) is str and mode in ('eval', 'exec'):
        # the source is known: the compiler decides whether it is one
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            i.native(compile, src, '<source>', mode)
        return i.sym('code', src)
    i.foreign('compile', a[0])
    return i.sym('code', *a[:1])


def b_iter(i, a, k):
    v = i.resolve(a[0])
    if len(a) > 1:
        def sent():
            while True:
                x = i.call(v, [], {})
                if i.truth(i.rich_eq(i.resolve(x), a[1])):
                    return
                yield x
        return GenObj(i, sent())
    if isinstance(v, GenObj):
        return v
    if isinstance(v, RObj) and i.find_cls_attr(v.cls, '__iter__') is not MISSING:
        return i.call_method(v, '__iter__')
    if isinstance(v, HostVal) and 'iterator' in v.traits:
        i.foreign('iter', v, memo=True)
        return v
    src = i.iterate(v, lazy=True)
    return GenObj(i, iter_of(src))


def iter_of(src):
    for x in src:
        yield x


def b_next(i, a, k):
    v = i.resolve(a[0])
    try:
        if isinstance(v, GenObj):
            try:
                return v.step('next')
            except StopIteration:
                i.throw(StopIteration)
        if isinstance(v, RObj):
            return i.call_method(v, '__next__')
        if isinstance(v, HostVal):
            i.foreign('consume', v)
            if not i.fact(('has-next', v)):
                i.throw(StopIteration)
            return i.sym('elem', v, 0)
        if isinstance(v, Sym):
            if not i.fact(('has-next', v)):
                i.throw(StopIteration)
            return i.sym('elem', v, 0)
        i.throw(TypeError, 'object is not an iterator')
    except PyExc as e:
        if len(a) > 1 and isinstance(e.value, StopIteration):
            return a[1]
        raise


def b_enumerate(i, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)

    def g():
        n = start
        for x in i.iterate(a[0], lazy=True):
            yield (n, x)
            n = n + 1 if isinstance(n, int) else i.lin_add(n, 1)
    return GenObj(i, g())


def b_zip(i, a, k):
    def g():
        its = [iter(i.iterate(x, lazy=True)) for x in a]
        while its:
            row = []
            for x in its:
                try:
                    row.append(next(x))
                except StopIteration:
                    return
            yield tuple(row)
    return GenObj(i, g())


def b_map(i, a, k):
    def g():
        for row in (i.iterate(a[1], lazy=True) if len(a) == 2 else b_zip(i, a[1:], {}).iter()):
            yield i.call(a[0], [row] if len(a) == 2 else list(row), {})
    return GenObj(i, g())


def b_filter(i, a, k):
    def g():
        for x in i.iterate(a[1], lazy=True):
            if i.truth(x if a[0] is None else i.call(a[0], [x], {})):
                yield x
    return GenObj(i, g())


def b_reversed(i, a, k):
    v = i.resolve(a[0])
    if isinstance(v, RObj) and i.find_cls_attr(v.cls, '__reversed__') is not MISSING:
        return i.call_method(v, '__reversed__')
    return GenObj(i, iter_of(list(i.iterate(v))[::-1]))


def b_any(i, a, k):
    for x in i.iterate(a[0], lazy=True):
        if i.truth(x):
            return True
    return False


def b_all(i, a, k):
    for x in i.iterate(a[0], lazy=True):
        if not i.truth(x):
            return False
    return True


def b_sum(i, a, k):
    r = a[1] if len(a) > 1 else k.get('start', 0)
    for x in i.iterate(a[0]):
        r = i.binop(ast.Add(), r, x)
    return r


def extreme(i, a, k, op):
    key = k.get('key')
    items = list(i.iterate(a[0])) if len(a) == 1 else list(a)
    if not items:
        if 'default' in k:
            return k['default']
        i.throw(ValueError, 'arg is an empty sequence')
    best = items[0]
    bk = i.call(key, [best], {}) if key is not None else best
    for x in items[1:]:
        xk = i.call(key, [x], {}) if key is not None else x
        if i.truth(i.compare_op(op, xk, bk)):
            best, bk = x, xk
    return best


def b_min(i, a, k):
    return extreme(i, a, k, ast.Lt())


def b_max(i, a, k):
    return extreme(i, a, k, ast.Gt())


def sort_list(i, items, k):
    key = k.get('key')
    rev = i.truth(k.get('reverse', False))
    rows = [(i.call(key, [x], {}) if key is not None else x, x) for x in items]
    out = []
    for kx, x in rows:
        pos = len(out)
        while pos > 0:
            ky = out[pos - 1][0]
            if rev:
                before = i.truth(i.compare_op(ast.Lt(), ky, kx))
            else:
                before = i.truth(i.compare_op(ast.Lt(), kx, ky))
            if not before:
                break
            pos -= 1
        out.insert(pos, (kx, x))
    return [x for _, x in out]


def b_sorted(i, a, k):
    return sort_list(i, list(i.iterate(a[0])), k)


def numfn(name, fn, ty=None):
    def f(i, a, k):
        args = [i.resolve(x) for x in a]
        if all(isinstance(x, SCALARS) for x in args):
            return i.native(fn, *args)
        v = args[0]
        if isinstance(v, RObj):
            m = {'abs': '__abs__', 'round': '__round__'}.get(name)
            if m and i.find_cls_attr(v.cls, m) is not MISSING:
                return i.call_method(v, m, args[1:])
            i.throw(TypeError, name)
        if isinstance(v, HostVal):
            i.foreign(name, v, memo=True)
        return i.sym(name, *args, ty=ty or (v.ty if isinstance(v, Sym) else None))
    return f


def b_abs(i, a, k):
    v = i.resolve(a[0])
    if isinstance(v, Sym) and v.ty in (int, float) and not isinstance(v, HostVal):
        if i.truth(i.compare_op(ast.GtE(), v, 0)):
            return v
        return i.lin_scale(v, Fraction(-1))
    return numfn('abs', abs)(i, a, k)


def b_round(i, a, k):
    v = i.resolve(a[0])
    if isinstance(v, Sym) and v.ty is int and len(a) == 1:
        return v
    v = i.resolve(a[0])
    if len(a) == 1 and isinstance(v, Sym) and not isinstance(v, HostVal):
        if v.ty is int:
            return v
        q = i.sym('round', v, ty=int)
        d = i.diff(v, q)
        if d is not None:
            i.assume((Fraction(1, 2) + d[0], d[1]))
            i.assume((Fraction(1, 2) - d[0], {x: -c for x, c in d[1].items()}))
        return q
    return numfn('round', round, int if len(a) == 1 else None)(i, a, k)


def b_divmod(i, a, k):
    return (i.binop(ast.FloorDiv(), a[0], a[1]), i.binop(ast.Mod(), a[0], a[1]))


b_pow = numfn('pow', pow)
b_chr = numfn('chr', chr, str)
b_ord = numfn('ord', ord, int)
b_hex = numfn('hex', hex, str)
b_bin = numfn('bin', bin, str)
b_oct = numfn('oct', oct, str)


def b_property(i, a, k):
    return RProp(*(a + [k.get(n) for n in ('fget', 'fset', 'fdel')][len(a):]))


def b_staticmethod(i, a, k):
    return RStatic(a[0])


def b_classmethod(i, a, k):
    return RClassMethod(a[0])


def b_super(i, a, k):
    return Super(a[0], a[1])


def m_dir(i, a, k):
    o = i.resolve(a[0])
    if isinstance(o, RObj):
        out = list(o.attrs)
        for c in o.cls.mro:
            if isinstance(c, RClass):
                out += [n for n in c.ns if n not in out]
        return out
    if isinstance(o, (RModule, RClass)):
        return list(o.ns)
    if isinstance(o, HostVal):
        i.foreign('dir', o, memo=True)
    return [i.sym('dir', o, 0, ty=str)]


def m_eval(i, name, args, kw, fr):
    expr = i.resolve(args[0])
    if isinstance(expr, Sym) and expr.op == 'code':
        expr = expr.args[0]          # compiled before
    if isinstance(expr, str) and i.eval_hook is not None:
        expr = expr.strip(' \t') if isinstance(expr, str) and type(expr) is str else expr
    g = args[1] if len(args) > 1 else kw.get('globals', MISSING)
    lo = args[2] if len(args) > 2 else kw.get('locals', MISSING)
    if g is None:
        g = MISSING
    scope = 'given' if g is not MISSING else 'agent'
    if g is MISSING:
        env = {}
        env.update(fr.module.ns)
        g = env
        if lo is MISSING:
            lo = dict(fr.env.vars)
    if lo is MISSING or lo is None:
        lo = g
    i.event('eval', name, expr, g, lo, scope=scope)
    if i.eval_hook is not None:
        return i.eval_hook(i, name, expr, g, lo, scope)
    i.foreign('eval', expr)
    n = i.nfresh['eval'] = i.nfresh.get('eval', 0) + 1
    return HostVal('eval#%d' % n, HostClass('evaltype%d' % n, 'Thing'))


# -------------------------------------------------------------------- types as callables

def call_type(i, t, a, k):
    if t is str:
        if not a:
            return ''
        if len(a) > 1 or k:
            v = i.resolve(a[0])
            if isinstance(v, bytes) and all(isinstance(x, str) for x in list(a[1:]) + list(k.values())):
                return i.native(str, v, *a[1:], **k)
            return decode(i, v, list(a[1:]), k)
        return i.to_str(a[0])
    if t is bool:
        return i.truth(a[0]) if a else False
    if t is int:
        return to_int(i, a, k)
    if t is float:
        return to_float(i, a)
    if t is list:
        return list(i.iterate(a[0])) if a else []
    if t is tuple:
        if not a:
            return ()
        v = i.resolve(a[0])
        return v if isinstance(v, tuple) else tuple(i.iterate(v))
    if t is set or t is frozenset:
        s = OSet([i.hashable(x) for x in i.iterate(a[0])] if a else [])
        s.frozen = t is frozenset
        return s
    if t is dict or t is collections.OrderedDict:
        d = {} if t is dict else collections.OrderedDict()
        if a:
            for kk, v in i.dict_items(a[0]):
                i.dict_put(d, kk, v)
        for kk, v in k.items():
            i.dict_put(d, kk, v)
        return d
    if t is DefDict:
        d = DefDict()
        d.factory = a[0] if a else None
        if len(a) > 1:
            for kk, v in i.dict_items(a[1]):
                i.dict_put(d, kk, v)
        return d
    if t is collections.deque:
        ml = a[1] if len(a) > 1 else k.get('maxlen')
        return collections.deque(i.iterate(a[0]) if a else (), ml)
    if t is type:
        if len(a) == 3:
            bases = [b for b in i.iterate(a[1])]
            c = i.make_class(a[0], bases, a[2], i.stack[-1].module)
            return c
        return type_value(i, a[0])
    if t is object:
        c = getattr(i, 'plain_object', None)
        if c is None:
            c = i.plain_object = i.make_class('object', [], {}, None)
        return i.new_obj(c)
    if t is range:
        args = [i.resolve(x) for x in a]
        if all(isinstance(x, int) for x in args):
            return i.native(range, *args)
        n = args[0] if len(args) == 1 else args[1]
        lo = 0 if len(args) == 1 else args[0]

        def g():
            j = lo
            while i.truth(i.compare_op(ast.Lt(), j, n)):
                yield j
                j = i.binop(ast.Add(), j, 1)
        return GenObj(i, g())
    if t is slice:
        return slice(*a)
    if t is bytes or t is bytearray:
        if not a:
            return b''
        v = i.resolve(a[0])
        if isinstance(v, (bytes, str, int)) and all(isinstance(x, str) for x in a[1:]):
            return i.native(bytes, v, *a[1:])
        if i.is_strish(v):
            return encode(i, v, list(a[1:]), k)
        return i.sym('bytes', v, ty=bytes)
    if issubclass(t, BaseException):
        try:
            return t(*a)
        except TypeError as e:
            raise PyExc(e, i.site())
    if all(is_const(x) for x in a):
        return i.native(t, *a, **k)
    i.undecided('call of type %s' % t.__name__)


def type_value(i, v):
    v = i.resolve(v)
    if isinstance(v, HostVal):
        return v.cls
    t = i.type_of(v)
    if t is None:
        return i.sym('type', v)
    return t


def to_int(i, a, k):
    if not a:
        return 0
    v = i.resolve(a[0])
    if len(a) > 1 or k:
        if isinstance(v, (str, bytes)):
            return i.native(int, v, *a[1:], **k)
        if not i.fact(('int-ok', v, tuple(a[1:]))):
            i.throw(ValueError, 'invalid literal for int()')
        return i.sym('int', v, *a[1:], ty=int)
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    if isinstance(v, (float, str, bytes)):
        return i.native(int, v)
    if v is None:
        i.throw(TypeError, "int() argument must be a string or a number, not 'NoneType'")
    if isinstance(v, HostVal):
        if v.cls in (int, bool):
            return v
        if v.cls is type(None):
            i.throw(TypeError, 'int() argument')
        if v.cls is str:
            if not i.fact(('int-ok', v)):
                i.throw(ValueError, 'invalid literal for int()')
            return i.sym('int', v, ty=int)
        i.foreign('int', v, memo=True)
        return i.sym('int', v, ty=int)
    if isinstance(v, Sym):
        if v.ty in (int, bool):
            return v
        if v.op == 'str' and isinstance(v.args[0], Sym) and v.args[0].ty is int:
            return v.args[0]
        if v.ty is float:
            q = i.sym('int', v, ty=int)
            d = i.diff(v, q)
            if d is not None:
                if i.truth(i.compare_op(ast.GtE(), v, 0)):
                    i.assume(d)
                    i.assume((Fraction(1) - d[0], {x: -c for x, c in d[1].items()}), True)
                else:
                    i.assume((-d[0], {x: -c for x, c in d[1].items()}))
                    i.assume((Fraction(1) + d[0], d[1]), True)
            return q
        key = ('int-ok', v)
        if not i.fact(key):
            i.throw(ValueError, 'invalid literal for int()')
        return i.sym('int', v, ty=int)
    if isinstance(v, RObj):
        for m in ('__int__', '__index__'):
            if i.find_cls_attr(v.cls, m) is not MISSING:
                return i.call_method(v, m)
        if v.cls.is_enum:
            pass
    i.throw(TypeError, "int() argument must be a string or a number, not '%s'" % i.type_name(v))


def to_float(i, a):
    if not a:
        return 0.0
    v = i.resolve(a[0])
    if isinstance(v, (bool, int, float, str, bytes, Fraction)):
        return i.native(float, v)
    if v is None:
        i.throw(TypeError, "float() argument must be a string or a number, not 'NoneType'")
    if isinstance(v, HostVal):
        if v.cls is float:
            return v
        if v.cls in (int, bool):
            return i.sym('float', v, ty=float)
        if v.cls is str:
            if not i.fact(('float-ok', v)):
                i.throw(ValueError, 'could not convert string to float')
            return i.sym('float', v, ty=float)
        if v.cls in (list, dict, tuple, set, frozenset, type(None)):
            i.throw(TypeError, 'float() argument must be a string or a number')
        i.foreign('float', v, memo=True)
        return i.sym('float', v, ty=float)
    if isinstance(v, Sym):
        if v.ty is float:
            return v
        if v.ty in (int, bool):
            r = i.sym('float', v, ty=float)
            d = i.diff(r, v)
            i.assume(d)
            i.assume((-d[0], {x: -q for x, q in d[1].items()}))
            return r
        if not i.fact(('float-ok', v)):
            i.throw(ValueError, 'could not convert string to float')
        return i.sym('float', v, ty=float)
    if isinstance(v, RObj) and i.find_cls_attr(v.cls, '__float__') is not MISSING:
        return i.call_method(v, '__float__')
    i.throw(TypeError, "float() argument must be a string or a number")


def native_init(i, o, a, k):
    n = o.native
    if isinstance(n, dict):
        if a:
            for kk, v in i.dict_items(a[0]):
                i.dict_put(n, kk, v)
        for kk, v in k.items():
            n[kk] = v
    elif isinstance(n, list):
        if a:
            n.extend(i.iterate(a[0]))
    elif isinstance(n, collections.deque):
        if a:
            n.extend(i.iterate(a[0]))
    elif isinstance(n, OSet):
        if a:
            for x in i.iterate(a[0]):
                n.add(x)
    elif isinstance(n, tuple):
        o.native = tuple(a)


def slot_call(i, slot, a, k):
    """An inherited builtin method, called with self as first argument (or a class method)."""
    name = slot.name
    o = i.resolve(a[0]) if a else None
    if name == '__init__':
        if isinstance(o, RObj):
            native_init(i, o, a[1:], k)
        return None
    if name == '__new__':
        c = o
        return i.new_obj(c) if isinstance(c, RClass) else call_type(i, c, a[1:], k)
    if isinstance(o, RObj):
        if issubclass(slot.cls, BaseException):
            if name == '__str__':
                n = o.native if isinstance(o.native, tuple) else ()
                return '' if not n else (i.to_str(n[0]) if len(n) == 1 else i.to_repr(n))
            if name == '__repr__':
                return i.sym('repr', o, ty=str)
            if name == 'with_traceback':
                return o
            return None
        target = o.native
    else:
        target = o
    if name == '__getitem__':
        return i.getitem(target, a[1])
    if name == '__setitem__':
        return i.setitem(target, a[1], a[2])
    if name == '__delitem__':
        return i.delitem(target, a[1])
    if name == '__len__':
        return length(i, target)
    if name == '__contains__':
        return i.contains(target, a[1])
    if name == '__iter__':
        return GenObj(i, iter_of(i.iterate(target, lazy=True)))
    if name == '__eq__':
        return i.rich_eq(target, a[1])
    if name == '__str__' and (i.is_strish(target) or isinstance(target, HostVal) and target.cls is str):
        return target
    if name == '__str__' and isinstance(target, HostVal) and str in i.mro_of(target.cls):
        return i.sym('str', target, ty=str)          # the characters, without the code of the subclass
    if name in ('__str__', '__repr__'):
        return i.to_repr(target)
    if name in ('__hash__',):
        return i.sym('hash', target, ty=int)
    return native_call(i, target, name, a[1:], k)


# -------------------------------------------------------------------- attributes of natives

def method_names(v, t):
    if isinstance(v, OSet):
        return SET_METHODS
    if t is str:
        return STR_METHODS
    if t is bytes:
        return BYTES_METHODS
    if t in (int, bool):
        return INT_METHODS
    if t in (float, Fraction):
        return FLOAT_METHODS
    if isinstance(t, type):
        if issubclass(t, dict):
            return DICT_METHODS
        if issubclass(t, list):
            return LIST_METHODS
        if issubclass(t, tuple):
            return TUPLE_METHODS
        if issubclass(t, collections.deque):
            return DEQUE_METHODS
        if t in (set, frozenset):
            return SET_METHODS
    return None


def native_attr(i, o, name):
    if isinstance(o, RFunc):
        if name in o.attrs:
            return o.attrs[name]
        if name == '__name__':
            return o.name
        if name == '__qualname__':
            return o.qual
        if name == '__module__':
            return o.module.name if o.module else ''
        if name == '__dict__':
            return o.attrs
        if name == '__doc__':
            return None
        if name == '__get__':
            return Native('__get__', lambda i_, a, k: Bound(a[0], o) if a[0] is not None else o)
        if name == '__call__':
            return o
        if name == '__code__':
            return i.sym('code-of', o)
        if name in ('__annotations__',):
            return {}
        if name == '__defaults__':
            return tuple(o.defaults)
        if name == '__class__':
            return i.type_of(o)
        return MISSING
    if isinstance(o, Bound):
        if name == '__self__':
            return o.obj
        if name == '__func__':
            return o.fn
        if name == '__call__':
            return o
        return native_attr(i, o.fn, name)
    if isinstance(o, Native):
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__get__':
            return Native('__get__', lambda i_, a, k: i_.call(o, [a[0]], {}))
        if name == '__call__':
            return o
        if name == '__doc__':
            return None
        return MISSING
    if isinstance(o, RProp):
        if name == 'setter':
            return Native('setter', lambda i_, a, k: RProp(o.fget, a[0], o.fdel))
        if name == 'getter':
            return Native('getter', lambda i_, a, k: RProp(a[0], o.fset, o.fdel))
        if name == 'deleter':
            return Native('deleter', lambda i_, a, k: RProp(o.fget, o.fset, a[0]))
        if name in ('fget', 'fset', 'fdel'):
            return getattr(o, name)
        if name == '__get__':
            return Native('__get__', lambda i_, a, k: i_.call(o.fget, [a[0]], {}))
        return MISSING
    if isinstance(o, (RStatic, RClassMethod)):
        if name == '__func__':
            return o.fn
        return native_attr(i, o.fn, name)
    if isinstance(o, LRU):
        if name == 'cache_clear':
            return Native('cache_clear', lambda i_, a, k: o.memo.clear())
        if name == '__wrapped__':
            return o.fn
        return native_attr(i, o.fn, name)
    if isinstance(o, HostClass):
        if name == '__name__' or name == '__qualname__':
            if 'odd-meta' in o.traits:
                i.foreign('getattr', o, memo=True, extra=(name,))
            return o.name
        if name == '__mro__':
            return tuple(i.mro_of(o))
        if name == '__bases__':
            return o.bases
        if name == '__module__':
            return i.sym('module-of', o.label, ty=str)
        if name == '__class__':
            return type
        if name == '__dict__':
            return {}
        if name in ('__iter__', '__next__') and o.name in interp_consts().ITERATOR_CLASSES:
            return Native(name, lambda i_, a, k: i_.foreign('iter' if name == '__iter__' else 'consume', a[0], a[0]))
        i.foreign('getattr', o, memo=True, extra=(name,))
        if isinstance(name, str) and name.startswith('__') and not any(isinstance(b, type) and hasattr(b, name) for b in i.mro_of(o)):
            if not i.fact(('hasattr', o, name), 'hasattr'):
                return MISSING
        return i.sym('attr', o, name)
    if isinstance(o, type):
        if name in ('__name__', '__qualname__'):
            return o.__name__
        if name == '__module__':
            return o.__module__
        if name == '__mro__':
            return o.__mro__
        if name == '__bases__':
            return o.__bases__
        if name == '__doc__':
            return None
        if name == '__class__':
            return type
        if name == '__dict__':
            return {'__name__': Native('type.__name__', lambda i_, a, k: class_name(i_, a[0])),
                    '__qualname__': Native('type.__qualname__', lambda i_, a, k: class_name(i_, a[0])),
                    '__dict__': Native('type.__dict__', lambda i_, a, k: i_.getattr(a[0], '__dict__'))} if o is type else {}
        if o is object and name in i.object_slots:
            return i.object_slots[name]
        if o is type:
            if name == '__getattribute__':
                return Native('type.__getattribute__', lambda i_, a, k: i_.getattr(a[0], a[1]))
            if name in ('__repr__', '__str__'):
                return Native('type.__repr__', lambda i_, a, k: i_.to_repr(a[0]))
        if name == 'fromkeys' and issubclass(o, dict):
            return Native('fromkeys', lambda i_, a, k: fromkeys(i_, o, a))
        if name == 'from_bytes':
            return Native('from_bytes', lambda i_, a, k: i_.native(int.from_bytes, *a, **k) if is_const(a) else i_.sym('from_bytes', *a, ty=int))
        if name == '__new__':
            return Native('__new__', lambda i_, a, k: i_.new_obj(a[0]) if isinstance(a[0], RClass) else call_type(i_, a[0], a[1:], k))
        if hasattr(o, name):
            return NativeSlot(o, name)
        return MISSING
    if isinstance(o, NativeSlot):
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__get__':
            return Native('__get__', lambda i_, a, k: Bound(a[0], o))
        return MISSING
    if isinstance(o, BaseException):
        if name in ('__traceback__', '__cause__', '__context__'):
            return None
        if name == '__dict__':
            return dict(o.__dict__)
        if name == '__class__':
            return type(o)
        if name == 'with_traceback':
            return Native('with_traceback', lambda i_, a, k: o)
        if name == '__str__':
            return Native('__str__', lambda i_, a, k: i_.to_str(o))
        if name == '__repr__':
            return Native('__repr__', lambda i_, a, k: i_.to_repr(o))
        if hasattr(o, name):
            v = getattr(o, name)
            if isinstance(v, SCALARS + CONTAINERS):
                return v
        return MISSING
    if isinstance(o, GenObj):
        if name == '__next__':
            return Native('__next__', lambda i_, a, k: b_next(i_, [o], {}))
        if name == '__iter__':
            return Native('__iter__', lambda i_, a, k: o)
        if name == 'close':
            def close(i_, a, k):
                o.done = True
                o.g.close()
            return Native('close', close)
        if name == 'send':
            return Native('send', lambda i_, a, k: gen_step(i_, o, 'send', a[0]))
        if name == 'throw':
            return Native('throw', lambda i_, a, k: gen_step(i_, o, 'throw', PyExc(i_.make_exc(a[0]), i_.site())))
        return MISSING
    if isinstance(o, slice):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
        return MISSING
    if isinstance(o, Sym):
        t = o.ty
        names = method_names(o, t) if t is not None else None
        if names is not None:
            if name in names:
                return NMethod(o, name)
            if name == '__class__':
                return t
            if name in SLOTS and hasattr(t, name):
                return NMethod(o, name)
            if name in ('real', 'numerator'):
                return o
            return MISSING
        if t is type(None):
            return MISSING
        if isinstance(t, RClass):
            v = i.find_cls_attr(t, name)
            if isinstance(v, RFunc):
                return Bound(o, v)
        if o.op == 'type' and name in ('__name__', '__qualname__'):
            return i.sym('tname', o.args[0], ty=str)
        return NMethod(o, name) if name in STR_METHODS | DICT_METHODS | LIST_METHODS else i.sym('attr', o, name)
    t = i.type_of(o)
    names = method_names(o, t)
    if names is not None and name in names:
        if name in ('real', 'numerator') and isinstance(o, (int, float)):
            return o
        return NMethod(o, name)
    if isinstance(o, DefDict) and name == 'default_factory':
        return o.factory
    if name == '__class__':
        return t
    if name in SLOTS and isinstance(t, type) and hasattr(t, name) and name != '__dict__':
        return NMethod(o, name)
    if isinstance(o, DView) and name == 'mapping':
        return o.d
    if isinstance(o, NMethod) and name == '__name__':
        return o.name
    if isinstance(o, NMethod) and name == '__self__':
        return o.obj
    return MISSING


def class_name(i, c):
    """type.__dict__['__name__'].__get__(cls): no code of a metaclass is run."""
    c = i.resolve(c)
    if isinstance(c, RClass):
        return c.name
    if isinstance(c, HostClass):
        return c.name
    if isinstance(c, type):
        return c.__name__
    if isinstance(c, Sym) and c.op == 'type':
        return i.sym('tname', c.args[0], ty=str)
    return i.sym('tname', c, ty=str)


def fromkeys(i, t, a):
    d = {} if t is dict else t()
    for x in i.iterate(a[0]):
        i.dict_put(d, x, a[1] if len(a) > 1 else None)
    return d


def gen_step(i, o, how, x):
    try:
        return o.step(how, x)
    except StopIteration:
        i.throw(StopIteration)


# -------------------------------------------------------------------- methods of natives

def native_call(i, o, name, a, k):
    if isinstance(o, HostVal):
        return host_call(i, o, name, a, k)
    if name in SLOTS:
        return slot_method(i, o, name, a, k)
    if isinstance(o, str) or (isinstance(o, Sym) and (o.ty is str or (o.ty is None and name in STR_METHODS - {'index', 'count'}))):
        return str_call(i, o, name, a, k)
    if isinstance(o, bytes):
        a = [i.resolve(x) for x in a]
        if is_const(a) and is_const(list(k.values())):
            if name == 'decode':
                return i.native(o.decode, *a, **k)
            return i.native(getattr(o, name), *a, **k)
        return i.sym('bytes.' + name, o, *a)
    if isinstance(o, Sym):
        return sym_call(i, o, name, a, k)
    if isinstance(o, dict):
        return dict_call(i, o, name, a, k)
    if isinstance(o, list):
        return list_call(i, o, name, a, k)
    if isinstance(o, tuple):
        return seq_query(i, o, name, a)
    if isinstance(o, collections.deque):
        return deque_call(i, o, name, a, k)
    if isinstance(o, OSet):
        return set_call(i, o, name, a, k)
    if isinstance(o, (int, float)):
        if name == 'to_bytes' and is_const(a):
            return i.native(o.to_bytes, *a, **k)
        if is_const(a):
            return i.native(getattr(o, name), *a, **k)
    i.undecided('method %s of %s' % (name, show(o)))


def slot_method(i, o, name, a, k):
    if name == '__str__':
        return i.to_str(o)
    if name == '__repr__':
        return i.to_repr(o)
    if name == '__len__':
        return length(i, o)
    if name == '__contains__':
        return i.contains(o, a[0])
    if name == '__getitem__':
        return i.getitem(o, a[0])
    if name == '__setitem__':
        return i.setitem(o, a[0], a[1])
    if name == '__delitem__':
        return i.delitem(o, a[0])
    if name == '__iter__':
        return b_iter(i, [o], {})
    if name == '__eq__':
        return i.rich_eq(o, a[0])
    if name == '__ne__':
        return not i.truth(i.rich_eq(o, a[0]))
    if name == '__hash__':
        return b_hash(i, [o], {})
    if name == '__format__':
        return i.format_value(o, a[0])
    if name == '__add__':
        return i.binop(ast.Add(), o, a[0])
    if name == '__init__':
        return None
    if name == '__getattribute__':
        return i.getattr(o, a[0])
    if name in ('__lt__', '__gt__', '__le__', '__ge__'):
        return i.compare_op({'__lt__': ast.Lt, '__gt__': ast.Gt, '__le__': ast.LtE, '__ge__': ast.GtE}[name](), o, a[0])
    if name == '__bool__':
        return i.truth(o)
    if name == '__reversed__':
        return b_reversed(i, [o], {})
    i.undecided('slot %s' % name)


def sym_call(i, o, name, a, k):
    if o.ty in (int, bool):
        if name == 'to_bytes':
            n = a[0] if a else k.get('length', 1)
            order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
            return i.sym('to_bytes', o, n, order, ty=bytes)
        if name == 'bit_length':
            return i.sym('bit_length', o, ty=int)
        return i.sym('call', i.sym('attr', o, name), *a)
    if o.ty is float:
        if name == 'is_integer':
            return i.sym('is_integer', o, ty=bool)
        return i.sym('call', i.sym('attr', o, name), *a)
    if o.ty is bytes or o.op in ('to_bytes', 'encode'):
        if name == 'decode':
            return decode(i, o, a, k)
        if name == 'hex':
            return i.sym('hexof', o, ty=str, )
        return i.sym('bytes.' + name, o, *a)
    if name == 'items':
        return [(i.sym('key', o, n, ty=str), i.sym('val', o, n)) for n in range(i.count_of(o))]
    if name == 'keys':
        return [i.sym('key', o, n, ty=str) for n in range(i.count_of(o))]
    if name == 'values':
        return [i.sym('val', o, n) for n in range(i.count_of(o))]
    if name == 'get':
        if i.fact(('has-key', o, a[0])):
            return i.sym('item', o, a[0])
        return a[1] if len(a) > 1 else None
    if name in MUTATORS:
        i.event('mutate', name, o, *a)
        return i.sym('call', i.sym('attr', o, name), *[x for x in a if not isinstance(x, (list, dict))])
    i.event('opaque-call', '%s.%s' % (show(o), name), tuple(a))
    n = i.nfresh['call'] = i.nfresh.get('call', 0) + 1
    return i.sym('call', i.sym('attr', o, name), n)


# ---- strings

def encode(i, v, a, k):
    enc = a[0] if a else k.get('encoding', 'utf-8')
    err = a[1] if len(a) > 1 else k.get('errors', 'strict')
    utf = isinstance(enc, str) and enc.lower().replace('_', '-') in ('utf-8', 'utf8')
    if utf and err in ('strict', 'ignore', 'replace', 'backslashreplace', 'xmlcharrefreplace', 'namereplace'):
        if err == 'strict' and not utf8_clean(i, v):
            fail_utf8(i, v)
        return i.sym('encode', v, 'utf-8', err, ty=bytes)
    if utf and err in ('surrogatepass', 'surrogateescape'):
        return i.sym('encode', v, 'utf-8', err, ty=bytes)
    if not i.fact(('encodes', v, enc, err)):
        i.throw(UnicodeEncodeError, 'x', 'x', 0, 1, 'cannot encode')
    return i.sym('encode', v, enc, err, ty=bytes)


def fail_utf8(i, v):
    """A string that cannot be encoded (lone surrogates), if the scenario has such strings."""
    if i.can_fault is not None and i.fault is None and i.can_fault('utf8', v):
        key = ('utf8', vkey(v))
        if key not in i.host_memo:
            i.host_memo[key] = i.choose(2, 'utf8')
            if i.host_memo[key]:
                i.fault = ('utf8', v, 'UnicodeEncodeError', i.site(), i.trail())
    if i.host_memo.get(('utf8', vkey(v))):
        raise PyExc(UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed'), i.site())


def utf8_clean(i, v):
    v = i.resolve(v)
    if isinstance(v, str):
        try:
            v.encode('utf-8')
            return True
        except UnicodeEncodeError:
            return False
    if not isinstance(v, Sym):
        return True
    if v.meta and 'utf8' in v.meta:
        return True
    if v.op in ('decode', 'hexof', 'len', 'id', 'uuid'):
        return True
    if v.op == 'concat':
        return all(utf8_clean(i, x) if i.is_strish(x) else utf8_clean(i, i.sym('str', x, ty=str)) for x in v.args)
    if v.op == 'str':
        x = v.args[0]
        return isinstance(x, Sym) and x.ty in (int, float, bool)
    if v.op in ('format', 'slice', 'item', 'elem', 'str.strip', 'str.lower', 'str.upper', 'str.replace', 'str.lstrip',
                'str.rstrip'):
        x = v.args[0]
        return (isinstance(x, Sym) and x.ty in (int, float, bool)) or (i.is_strish(x) and utf8_clean(i, x))
    return False


def decode(i, v, a, k):
    enc = a[0] if a else k.get('encoding', 'utf-8')
    err = a[1] if len(a) > 1 else k.get('errors', 'strict')
    if isinstance(v, Sym) and v.op == 'encode' and isinstance(enc, str) and v.args[1] == enc.lower().replace('utf8', 'utf-8'):
        if v.args[2] == 'strict':
            return v.args[0]
        if v.args[2] in ('surrogatepass', 'surrogateescape'):
            if err == v.args[2]:
                return v.args[0]
        elif utf8_clean(i, v.args[0]):
            return v.args[0]
        return i.sym('decode', v, ty=str)
    if err == 'strict':
        if not i.fact(('decodes', v, enc)):
            i.throw(UnicodeDecodeError, 'utf-8', b'x', 0, 1, 'invalid')
    return i.sym('decode', v, enc, err, ty=str)


def str_call(i, o, name, a, k):
    a = [i.resolve(x) for x in a]
    if isinstance(o, str) and is_const(a) and is_const(list(k.values())) and name != 'format':
        return i.native(getattr(o, name), *a, **k)
    if name == 'join':
        parts = []
        for n, x in enumerate(i.iterate(a[0])):
            x = i.resolve(x)
            if n:
                parts.append(o)
            if not i.is_strish(x):
                if isinstance(x, Sym) and x.ty is None:
                    x = i.sym('str', x, ty=str) if False else x
                else:
                    i.throw(TypeError, 'sequence item %d: expected str instance, %s found' % (n, i.type_name(x)))
            parts.append(x)
        return i.concat(parts)
    if name == 'format':
        if isinstance(o, str):
            return str_format(i, o, a, k)
        return i.sym('str.format', o, ty=str)
    if name == 'format_map':
        return str_format(i, o, [], dict(i.dict_items(a[0])))
    if name == 'encode':
        return encode(i, o, a, k)
    if name in ('startswith', 'endswith'):
        return starts(i, o, name, a[0])
    if name in STR_BOOL:
        return i.sym('str.' + name, o, *a, ty=bool)
    if name in STR_INT:
        if name in ('index', 'rindex') and not i.fact(('in', a[0], o)):
            i.throw(ValueError, 'substring not found')
        return i.sym('str.' + name, o, *a, ty=int)
    if name in ('split', 'rsplit', 'splitlines'):
        ms = a[1] if len(a) > 1 else k.get('maxsplit', -1)
        sep = a[0] if a else k.get('sep')
        s = i.sym('split', o, name, sep, ms)
        hi = 2 if not isinstance(ms, int) or ms < 0 else min(2, ms + 1)
        n = i.facts.get(('count', vkey(s)))
        if n is None:
            n = i.facts[('count', vkey(s))] = 1 + i.choose(hi, 'split')
        if n == 1:
            return [o]
        return [i.sym('elem', s, j, ty=str) for j in range(n)]
    if name in ('partition', 'rpartition'):
        if i.fact(('in', a[0], o)):
            return tuple(i.sym('part', o, name, a[0], n, ty=str) if n != 1 else a[0] for n in range(3))
        return (o, '', '') if name == 'partition' else ('', '', o)
    if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'casefold', 'title', 'capitalize', 'swapcase',
                'removeprefix', 'removesuffix', 'replace', 'zfill', 'ljust', 'rjust', 'center', 'expandtabs',
                'translate'):
        if name in ('strip', 'lstrip', 'rstrip') and isinstance(o, Sym) and o.op == 'str.' + name and o.args[1:] == tuple(a):
            return o
        if name in ('removeprefix', 'removesuffix'):
            if not i.truth(starts(i, o, 'startswith' if name == 'removeprefix' else 'endswith', a[0])):
                return o
            n = length(i, a[0])
            return i.getitem(o, slice(n, None, None) if name == 'removeprefix' else slice(None, i.lin_scale(n, Fraction(-1)), None))
        for v in a:
            if not isinstance(v, SCALARS) and not isinstance(v, Sym):
                i.throw(TypeError, name)
        return i.sym('str.' + name, o, *a, ty=str)
    i.undecided('str method %s' % name)


def starts(i, o, name, p):
    if isinstance(p, tuple):
        return any(i.truth(starts(i, o, name, x)) for x in p)
    if p is None or isinstance(p, (int, float, list, dict)):
        i.throw(TypeError, '%s first arg must be str' % name)
    if isinstance(p, str) and p == '':
        return True
    if p is o:
        return True
    if isinstance(o, Sym) and o.op == 'concat' and name == 'startswith':
        f = o.args[0]
        if f is p or (isinstance(f, str) and isinstance(p, str) and f.startswith(p)):
            return True
        if isinstance(f, str) and isinstance(p, str) and len(p) <= len(f):
            return False
        if isinstance(f, str) and isinstance(p, str) and not p.startswith(f):
            return False
    if isinstance(p, Sym) and p.ty is str:
        # a prefix that is known to be empty
        if i.tri_eq(p, '') is True:
            return True
    return i.sym(name, o, p, ty=bool)


def str_format(i, o, a, k):
    import string
    parts = []
    auto = 0
    try:
        pieces = list(string.Formatter().parse(o))
    except ValueError as e:
        raise PyExc(e, i.site())
    for lit, field, spec, conv in pieces:
        if lit:
            parts.append(lit)
        if field is None:
            continue
        head = field
        for ch in '.[':
            head = head.split(ch)[0]
        rest = field[len(head):]
        if head == '':
            v = a[auto]
            auto += 1
        elif head.isdigit():
            v = i.native(lambda: a[int(head)])
        else:
            if head not in k:
                i.throw(KeyError, head)
            v = k[head]
        while rest:
            if rest[0] == '.':
                n = len(rest[1:].replace('[', '.').split('.')[0])
                v = i.getattr(v, rest[1:1 + n])
                rest = rest[1 + n:]
            else:
                key, _, rest = rest[1:].partition(']')
                v = i.getitem(v, int(key) if key.isdigit() else key)
        if conv == 'r':
            v = i.to_repr(v)
        elif conv == 's':
            v = i.to_str(v)
        parts.append(i.format_value(v, spec or ''))
    return i.concat(parts)


# ---- containers

def dict_call(i, d, name, a, k):
    if name in MUTATORS:
        i.mutating(d)
    if name == 'get':
        kk = i.dict_find(d, a[0])
        if kk is MISSING:
            return a[1] if len(a) > 1 else k.get('default')
        return d[kk]
    if name in ('keys', 'values', 'items'):
        return DView(d, name)
    if name == 'copy':
        c = dict(d) if type(d) is dict else type(d)(d)
        if isinstance(d, DefDict):
            c.factory = d.factory
        return c
    if name == 'pop':
        kk = i.dict_find(d, a[0])
        if kk is MISSING:
            if len(a) > 1:
                return a[1]
            i.throw(KeyError, a[0])
        return d.pop(kk)
    if name == 'update':
        for s in a:
            for kk, v in i.dict_items(s):
                i.dict_put(d, kk, v)
        for kk, v in k.items():
            i.dict_put(d, kk, v)
        return None
    if name == 'setdefault':
        kk = i.dict_find(d, a[0])
        if kk is MISSING:
            d[i.hashable(a[0])] = a[1] if len(a) > 1 else None
            return d[a[0]]
        return d[kk]
    if name == 'clear':
        d.clear()
        return None
    if name == 'popitem':
        if not d:
            i.throw(KeyError, 'dictionary is empty')
        last = i.truth(k.get('last', a[0] if a else True))
        kk = list(d)[-1 if last else 0]
        v = d.pop(kk)
        return (kk, v)
    if name == 'move_to_end':
        kk = i.dict_find(d, a[0])
        if kk is MISSING:
            i.throw(KeyError, a[0])
        if i.truth(k.get('last', a[1] if len(a) > 1 else True)):
            d[kk] = d.pop(kk)
        else:
            rest = [(x, y) for x, y in d.items() if x is not kk]
            v = d[kk]
            d.clear()
            d[kk] = v
            for x, y in rest:
                d[x] = y
        return None
    i.undecided('dict method ' + name)


def seq_query(i, o, name, a):
    if name == 'index':
        for n, x in enumerate(o):
            if x is a[0] or i.truth(i.rich_eq(i.resolve(x), i.resolve(a[0]))):
                return n
        i.throw(ValueError, 'not in list')
    if name == 'count':
        return sum(1 for x in o if x is a[0] or i.truth(i.rich_eq(i.resolve(x), i.resolve(a[0]))))
    i.undecided('sequence method ' + name)


def remove_from(i, o, v):
    for n, x in enumerate(list(o)):
        if x is v or i.truth(i.rich_eq(i.resolve(x), i.resolve(v))):
            del o[n]
            return None
    i.throw(ValueError, 'list.remove(x): x not in list')


def list_call(i, o, name, a, k):
    if name in MUTATORS:
        i.mutating(o)
    if name == 'append':
        o.append(a[0])
        return None
    if name == 'extend':
        o.extend(i.iterate(a[0]))
        return None
    if name == 'insert':
        n = i.resolve(a[0])
        if not isinstance(n, int):
            i.undecided('insert at opaque index')
        o.insert(n, a[1])
        return None
    if name == 'pop':
        n = i.resolve(a[0]) if a else -1
        if not isinstance(n, int):
            i.undecided('pop at opaque index')
        return i.native(o.pop, n)
    if name == 'remove':
        return remove_from(i, o, a[0])
    if name == 'clear':
        o.clear()
        return None
    if name == 'copy':
        return list(o)
    if name == 'reverse':
        o.reverse()
        return None
    if name == 'sort':
        o[:] = sort_list(i, list(o), k)
        return None
    return seq_query(i, o, name, a)


def deque_call(i, o, name, a, k):
    if name in MUTATORS:
        i.mutating(o)
    if name in ('append', 'appendleft'):
        getattr(o, name)(a[0])
        return None
    if name in ('extend', 'extendleft'):
        getattr(o, name)(list(i.iterate(a[0])))
        return None
    if name in ('pop', 'popleft'):
        return i.native(getattr(o, name))
    if name == 'remove':
        return remove_from(i, o, a[0])
    if name == 'clear':
        o.clear()
        return None
    if name == 'copy':
        return collections.deque(o, o.maxlen)
    if name == 'rotate':
        o.rotate(a[0] if a else 1)
        return None
    if name == 'insert':
        o.insert(a[0], a[1])
        return None
    if name == 'reverse':
        o.reverse()
        return None
    if name == 'maxlen':
        return o.maxlen
    return seq_query(i, o, name, a)


def set_call(i, o, name, a, k):
    if name in MUTATORS:
        i.mutating(o)
    if name == 'add':
        if not i.contains(o, a[0]):
            o.add(i.hashable(a[0]))
        return None
    if name in ('discard', 'remove'):
        kx = vkey(i.resolve(a[0]))
        if kx in o.d:
            del o.d[kx]
        elif name == 'remove':
            i.throw(KeyError, a[0])
        return None
    if name == 'update':
        for s in a:
            for x in i.iterate(s):
                o.add(i.hashable(x))
        return None
    if name == 'clear':
        o.d.clear()
        return None
    if name == 'copy':
        return OSet(o)
    if name == 'pop':
        if not o.d:
            i.throw(KeyError, 'pop from an empty set')
        kx = next(iter(o.d))
        return o.d.pop(kx)
    ops = {'union': ast.BitOr, 'intersection': ast.BitAnd, 'difference': ast.Sub, 'symmetric_difference': ast.BitXor}
    if name in ops:
        r = OSet(o)
        for s in a:
            r = i.set_op(ops[name], r, OSet(i.iterate(s)))
        return r
    if name in ('difference_update', 'intersection_update'):
        r = i.set_op(ast.Sub if name[0] == 'd' else ast.BitAnd, o, OSet(i.iterate(a[0])))
        o.d = r.d
        return None
    if name == 'issubset':
        return all(x in OSet(i.iterate(a[0])).d for x in o.d)
    if name == 'issuperset':
        return all(vkey(x) in o.d for x in i.iterate(a[0]))
    if name == 'isdisjoint':
        return all(vkey(x) not in o.d for x in i.iterate(a[0]))
    i.undecided('set method ' + name)


def host_call(i, o, name, a, k):
    """A method of a builtin container / string of the host program."""
    if name in MUTATORS and o.cls not in (str, bytes):
        i.foreign('mutate', o, extra=(name,) + tuple(a))
    if o.cls is str:
        if name in SLOTS:
            return slot_method(i, o, name, a, k)
        return str_call(i, o, name, a, k)
    if o.cls in (int, float, bool, bytes):
        i.event('opaque-call', '%s.%s' % (o.label, name))
        return i.sym('hostcall', o, name, *a)
    p = o.payload
    if name in ('keys', 'values', 'items') and isinstance(p, dict):
        i.event('host', 'live-view', o)
        return HostView(p, name, o)
    if isinstance(p, dict):
        if name in SLOTS:
            return slot_method(i, o, name, a, k)
        return dict_call(i, p, name, a, k)
    if isinstance(p, (list, tuple)):
        if name in SLOTS:
            return slot_method(i, o, name, a, k)
        if o.cls in (set, frozenset):
            return set_call(i, OSet(p), name, a, k)
        if name in MUTATORS:
            return list_call(i, p, name, a, k) if isinstance(p, list) else None
        if name == 'copy':
            return list(p)
        return seq_query(i, p, name, a)
    i.event('opaque-call', '%s.%s' % (o.label, name))
    return i.sym('hostcall', o, name, *a)


class HostView(DView):
    """A live view of a dict of the host."""

    def __init__(self, d, kind, host):
        DView.__init__(self, d, kind)
        self.host = host
