"""The abstract interpreter: statements, expressions, calls, classes, modules of the analysed program."""
import ast
import builtins
import collections
import os
import time
from fractions import Fraction

from values import *          # noqa: F401,F403
import values as V
from poly import Poly

RET, BRK, CNT = 'ret', 'brk', 'cnt'
MISSING = type('MISSING', (), {'__repr__': lambda s: '<missing>'})()
SCALARS = (bool, int, float, str, bytes, type(None), type(Ellipsis), complex, Fraction)
CONTAINERS = (list, dict, tuple, OSet, collections.deque)

STDLIB_EXC = {n: o for n, o in vars(builtins).items() if isinstance(o, type) and issubclass(o, BaseException)}

BENIGN_BASES = {'abc.ABC', 'typing.Generic', 'typing.Protocol', 'enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.StrEnum',
                'enum.IntFlag', 'builtins.object'}

_AST_CACHE = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _AST_CACHE:
        with open(path, 'rb') as f:
            _AST_CACHE[key] = ast.parse(f.read(), path)
    return _AST_CACHE[key]


class Info:
    """Static facts about a function: its local names, whether it is a generator."""

    def __init__(self, node):
        self.locals, self.globals, self.nonlocals = set(), set(), set()
        self.is_gen = False
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        self.params = [x.arg for x in a.posonlyargs + a.args]
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self.scan(s)
        self.locals -= self.globals | self.nonlocals

    def scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self.scan(d)
            if isinstance(n, ast.ClassDef):
                for b in n.bases:
                    self.scan(b)
            else:
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    self.scan(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.scan(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets and the first iterable belong to us
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    self.locals.add(c.target.id)
            self.scan(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, ast.Global):
            self.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            self.locals.add(n.rest)
        for c in ast.iter_child_nodes(n):
            self.scan(c)


_INFO = {}


def info_of(node):
    i = _INFO.get(node)
    if i is None:
        i = _INFO[node] = Info(node)
    return i


class Env:
    __slots__ = ('vars', 'parent', 'kind', 'info')

    def __init__(self, parent=None, kind='func', info=None):
        self.vars, self.parent, self.kind, self.info = {}, parent, kind, info


class Fr:
    """An activation."""
    __slots__ = ('env', 'module', 'cls_ctx', 'func', 'line', 'exc', 'first')

    def __init__(self, env, module, cls_ctx, func):
        self.env, self.module, self.cls_ctx, self.func = env, module, cls_ctx, func
        self.line, self.exc, self.first = 0, None, None


class Event:
    __slots__ = ('kind', 'name', 'args', 'site', 'thread', 'locks', 'trail', 'n', 'extra')

    def __repr__(self):
        return '%s %s%s @%s' % (self.kind, self.name, show(self.args), self.site)


ITERATOR_CLASSES = ('generator', 'list_iterator', 'list_reverseiterator', 'tuple_iterator', 'set_iterator', 'dict_keyiterator', 'map', 'zip', 'filter', 'enumerate',
                    'reversed', '_io.TextIOWrapper')
KNOWN_CLASSES = {n: HostClass(n, n) for n in ('generator', 'list_iterator', 'list_reverseiterator', 'tuple_iterator', 'set_iterator', 'dict_keyiterator', 'map', 'zip',
                                              'filter', 'enumerate', 'reversed', 'module', 'function', 'traceback', 'coroutine', 'async_generator',
                                              'builtin_function_or_method', 'frame', 'code', 'mappingproxy', 'type')}
KNOWN_CLASSES['type'].bases = (type,)


class Interp:
    MAX_DEPTH = 110
    MAX_STEPS = 400000
    MAX_LOOP = 400

    def __init__(self, path, src_root, stub_root, cover=None):
        self.path = path                      # the decisions of this path
        self.src_root, self.stub_root = src_root, stub_root
        self.modules = {}
        self.intern = Interner()
        self.poly = Poly()
        self.bind = {}                        # Sym -> constant it is known to be equal to
        self.facts = {}                       # atom key -> bool
        self.eqs = {}                         # (k1, k2) -> bool
        self.events = []
        self.stack = []
        self.steps = 0
        self.deadline = None
        self.same_id = []
        self.short = None              # when set: no opaque text is longer than this
        self.nobj = 0
        self.nfresh = {}
        self.thread = 'main'
        self.locks_held = {}                  # thread -> list of lock objects
        self.fault = None                     # the fault taken on this path
        self.can_fault = None                 # predicate(kind, target) -> list of exception classes
        self.host_memo = {}
        self.models = {}
        self.overrides = {}
        self.cover = cover if cover is not None else set()
        self.sched = None
        self.on_access = None
        self.now = None                       # frozen clock, if any
        self.wall = None
        self.last_time = None
        self.missing_modules = set()
        self.sources = {}         # modules of the scenario: source text, or (exception class, args)
        self.module_models = {}
        self.env = {}                         # modelled os.environ
        self.native_types = {}
        self.unsupported = []
        self.quiet_calls = 0
        import builtins_model
        builtins_model.install(self)
        self.EXPR = {k: getattr(self, 'x_' + k.__name__, None) for k in ast.expr.__subclasses__()}
        self.STMT = {k: getattr(self, 's_' + k.__name__, None) for k in ast.stmt.__subclasses__()}

    # ---------------------------------------------------------------- misc

    def site(self):
        for fr in reversed(self.stack):
            if fr.module is not None and fr.module.path and fr.module.path.startswith(self.src_root):
                return '%s:%s' % (os.path.relpath(fr.module.path, self.src_root), fr.line)
        return '?'

    def trail(self):
        out = []
        for fr in self.stack:
            if fr.module is not None and fr.module.path and fr.module.path.startswith(self.src_root):
                out.append('%s:%s(%s)' % (os.path.relpath(fr.module.path, self.src_root), fr.line,
                                          fr.func.qual if fr.func else '<module>'))
        return out

    def sym(self, op, *args, ty=None):
        return self.intern.sym(op, args, ty)

    def fresh(self, name, ty=None):
        n = self.nfresh[name] = self.nfresh.get(name, 0) + 1
        return self.intern.sym('in', ('%s#%d' % (name, n),), ty)

    def inp(self, name, ty=None):
        """A named opaque input."""
        return self.intern.sym('in', (name,), ty)

    def event(self, kind, name, *args, **extra):
        e = Event()
        e.kind, e.name, e.args, e.site, e.thread = kind, name, args, self.site(), self.thread
        e.locks = tuple(self.locks_held.get(self.thread, ()))
        e.trail = None
        e.extra = extra
        e.n = len(self.events)
        self.events.append(e)
        return e

    def undecided(self, why):
        raise Undecided(why, self.site())

    def choose(self, n, label):
        return self.path.choose(n, label)

    def throw(self, exc_type, *args):
        e = exc_type(*args) if isinstance(exc_type, type) else exc_type
        raise PyExc(e, self.site())

    # ---------------------------------------------------------------- foreign operations

    def foreign(self, kind, target, result=None, memo=False, extra=()):
        """An operation that runs code which is not analysed. It may raise."""
        ev = self.event('host', kind, target, *extra)
        if self.can_fault is not None and self.fault is None:
            classes = self.can_fault(kind, target)
            if classes:
                key = (kind, vkey(target))
                if not (memo and key in self.host_memo):
                    i = self.choose(1 + len(classes), 'raise:%s' % kind)
                    if memo:
                        self.host_memo[key] = None
                    if i > 0:
                        cls = classes[i - 1]
                        self.fault = (kind, target, cls.__name__, self.site(), self.trail())
                        if memo:
                            self.host_memo[key] = cls
                        raise PyExc(cls('raised by %s of %s' % (kind, show(target))), self.site())
        if memo:
            cls = self.host_memo.get((kind, vkey(target)))
            if cls is not None:
                raise PyExc(cls('raised by %s of %s' % (kind, show(target))), self.site())
        return result

    # ---------------------------------------------------------------- numbers

    def lin_of(self, v):
        """(const, {atom: coef}) or None."""
        if isinstance(v, bool):
            return Fraction(int(v)), {}
        if isinstance(v, int):
            return Fraction(v), {}
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return None
            return Fraction(v), {}
        if isinstance(v, Fraction):
            return v, {}
        if isinstance(v, HostVal):
            return None
        if isinstance(v, Sym):
            b = self.resolve(v)
            if b is not v:
                return self.lin_of(b)
            if v.op == 'lin':
                return v.args[0], dict(v.args[1])
            if v.ty in (int, float, bool) or v.ty is None:
                return Fraction(0), {v: Fraction(1)}
        return None

    def lin(self, c, ts, ty=int):
        ts = {a: k for a, k in ts.items() if k != 0}
        if not ts:
            if c.denominator == 1 and ty is int:
                return int(c)
            return float(c) if c.denominator != 1 else (int(c) if ty is int else float(c))
        if c == 0 and len(ts) == 1:
            (a, k), = ts.items()
            if k == 1 and (a.ty is ty or ty is not float):
                return a
        items = tuple(sorted(ts.items(), key=lambda t: t[0].n))
        key = ('lin', c, tuple((a.n, k) for a, k in items), ty)
        s = self.intern.tab.get(key)
        if s is None:
            s = Sym()
            s.op, s.args, s.ty, s.meta = 'lin', (c, items), ty, None
            self.intern.n += 1
            s.n = self.intern.n
            self.intern.tab[key] = s
        return s

    def numty(self, a, b):
        for v in (a, b):
            t = v.ty if isinstance(v, Sym) else type(v)
            if t is float or t is None:
                return float if t is float else None
        return int

    def lin_add(self, a, b, sign=1):
        la, lb = self.lin_of(a), self.lin_of(b)
        if la is None or lb is None:
            return None
        ts = dict(la[1])
        for x, k in lb[1].items():
            ts[x] = ts.get(x, 0) + sign * k
        return self.lin(la[0] + sign * lb[0], ts, self.numty(a, b))

    def lin_scale(self, a, k, ty=None):
        la = self.lin_of(a)
        if la is None:
            return None
        return self.lin(la[0] * k, {x: v * k for x, v in la[1].items()}, ty or self.numty(a, 1))

    def assume(self, form, strict=False):
        self.poly.add(form, strict)

    def decide_lin(self, form, strict):
        """Decide form >= 0 (> 0), forking if both are possible."""
        c, ts = form
        if not ts:
            return c > 0 or (c == 0 and not strict)
        neg = (-c, {a: -k for a, k in ts.items()})
        can_t = self.poly.feasible_with(form, strict)
        can_f = self.poly.feasible_with(neg, not strict)
        if can_t and not can_f:
            return True
        if can_f and not can_t:
            return False
        if not can_t and not can_f:
            raise Pruned()
        r = self.choose(2, 'cmp') == 0
        if r:
            self.poly.add(form, strict)
        else:
            self.poly.add(neg, not strict)
        return r

    def entails(self, form, strict=False):
        c, ts = form
        if not ts:
            return c > 0 or (c == 0 and not strict)
        neg = (-c, {a: -k for a, k in ts.items()})
        return not self.poly.feasible_with(neg, not strict)

    def diff(self, a, b):
        la, lb = self.lin_of(a), self.lin_of(b)
        if la is None or lb is None:
            return None
        ts = dict(la[1])
        for x, k in lb[1].items():
            ts[x] = ts.get(x, 0) - k
        return la[0] - lb[0], {x: k for x, k in ts.items() if k != 0}

    # ---------------------------------------------------------------- equality, truth

    def resolve(self, v):
        while isinstance(v, Sym) and not isinstance(v, HostVal):
            b = self.bind.get(v, MISSING)
            if b is MISSING:
                return v
            v = b
        return v

    def known_class(self, name):
        """The classes of the interpreter which are not builtin names."""
        return KNOWN_CLASSES[name]

    def type_of(self, v):
        """The (abstract) type of a value, None if not known."""
        if isinstance(v, HostVal):
            return v.cls
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, RObj):
            return v.cls
        if isinstance(v, OSet):
            return frozenset if v.frozen else set
        if isinstance(v, (RFunc, Native, NMethod, Bound)):
            return type(len) if isinstance(v, (Native, NMethod)) else type(lambda: 0)
        if isinstance(v, (RModule, ExtModule)):
            return type(os)
        if isinstance(v, (RClass, HostClass)):
            return type
        return type(v)

    def tri_eq(self, a, b):
        """True, False or None (unknown)."""
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if not sa and not sb:
            if isinstance(a, SCALARS) and isinstance(b, SCALARS):
                return a == b
            if isinstance(a, type) and isinstance(b, type):
                return a is b
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if type(a) is not type(b):
                    return False
                if len(a) != len(b):
                    return False
                res = True
                for x, y in zip(a, b):
                    r = self.tri_eq(x, y)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                return res
            if isinstance(a, dict) and isinstance(b, dict):
                if set(map(vkey, a)) != set(map(vkey, b)):
                    return False if all(isinstance(k, SCALARS) for k in list(a) + list(b)) else None
                res = True
                bb = {vkey(k): v for k, v in b.items()}
                for k, v in a.items():
                    r = self.tri_eq(v, bb[vkey(k)])
                    if r is False:
                        return False
                    if r is None:
                        res = None
                return res
            if isinstance(a, Bound) and isinstance(b, Bound):
                return a.obj is b.obj and a.fn is b.fn
            if isinstance(a, OSet) and isinstance(b, OSet):
                return set(a.d) == set(b.d)
            if isinstance(a, NMethod) and isinstance(b, NMethod):
                return a.obj is b.obj and a.name == b.name
            return False
        # at least one is opaque
        if sa and sb and a.op == b.op:
            x, y = a, b
            if a.op == 'str' and isinstance(a.args[0], Sym) and isinstance(b.args[0], Sym):
                x, y = a.args[0], b.args[0]
            if x.op == 'id' and y.op == 'id' and x is not y:
                return False              # identities of objects that are alive at the same time
        ta, tb = self.type_of(a), self.type_of(b)
        if ta is str and tb is str and not (isinstance(a, HostVal) or isinstance(b, HostVal)):
            r = self.str_reduce(a, b)
            if r is None:
                return False
            p, q = r
            if not p and not q:
                return True
            if len(p) == 1 and len(q) == 1:
                for x, y in ((p[0], q[0]), (q[0], p[0])):
                    if isinstance(x, Sym) and x.op == 'str' and len(x.args) == 1 and self.type_of(x.args[0]) is int:
                        if isinstance(y, str):
                            if str(int(y)) != y if y.lstrip('-').isdigit() else True:
                                return False
                            return self.tri_eq(x.args[0], int(y))
                        if isinstance(y, Sym) and y.op == 'str' and self.type_of(y.args[0]) is int:
                            return self.tri_eq(x.args[0], y.args[0])
            a, b = self.join_parts(p), self.join_parts(q)
            if a is b:
                return True
            sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if a is None or b is None:
            o = b if a is None else a
            if self.type_of(o) is not None and self.type_of(o) is not type(None):
                return False
        num = (int, float, bool)
        if ta in num and tb in num:
            d = self.diff(a, b)
            if d is not None:
                if not d[1]:
                    return d[0] == 0
                if self.entails(d) and self.entails((-d[0], {x: -k for x, k in d[1].items()})):
                    return True
                if not (self.poly.feasible_with(d, False) and
                        self.poly.feasible_with((-d[0], {x: -k for x, k in d[1].items()}), False)):
                    return False
        elif ta is not None and tb is not None and ta is not tb and not (
                isinstance(ta, HostClass) or isinstance(tb, HostClass)):
            if isinstance(ta, type) and isinstance(tb, type) and not (ta in num and tb in num):
                return False
        if sa and sb:
            if a.op == 'host' and b.op == 'host':
                return self.eqs.get(self.eqkey(a, b))
            if self.distinct(a, b):
                return False
        if isinstance(a, (list, tuple, dict, RObj, RClass, RFunc, RModule)) or isinstance(
                b, (list, tuple, dict, RObj, RClass, RFunc, RModule)):
            o = b if sa is False else a
            if isinstance(o, Sym) and o.ty is not None:
                pass
        return self.eqs.get(self.eqkey(a, b))

    def eqkey(self, a, b):
        ka, kb = vkey(a), vkey(b)
        return (ka, kb) if self.okey(a) <= self.okey(b) else (kb, ka)

    def okey(self, v):
        if isinstance(v, Sym):
            return (1, v.n, getattr(v, 'label', ''))
        return (0, 0, repr(v) if isinstance(v, SCALARS) else str(id(v)))

    def str_parts(self, v):
        v = self.resolve(v)
        if isinstance(v, str):
            return [v] if v else []
        if isinstance(v, Sym) and v.op == 'concat':
            out = []
            for x in v.args:
                x = self.resolve(x)
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != '':
                    out.append(x)
            return out
        return [v]

    def str_reduce(self, a, b):
        """Equality of two texts, without what they have in common: (a', b'), or None if they cannot be equal."""
        p, q = self.str_parts(a), self.str_parts(b)
        for rev in (False, True):
            while p and q:
                i = -1 if rev else 0
                x, y = p[i], q[i]
                if x is y:
                    p.pop(i)
                    q.pop(i)
                    continue
                if isinstance(x, str) and isinstance(y, str):
                    n = min(len(x), len(y))
                    if (x[-n:] if rev else x[:n]) != (y[-n:] if rev else y[:n]):
                        return None
                    for l, z in ((p, x), (q, y)):
                        r = z[:-n] if rev else z[n:]
                        if r:
                            l[i] = r
                        else:
                            l.pop(i)
                    continue
                break
        for l, o in ((p, q), (q, p)):
            if not l and o:
                if any(isinstance(x, str) or self.nonempty_str(x) for x in o):
                    return None
        return p, q

    def nonempty_str(self, v):
        return isinstance(v, Sym) and v.op == 'str' and self.type_of(v.args[0]) in (int, bool, float)

    def join_parts(self, p):
        if not p:
            return ''
        if len(p) == 1:
            return p[0]
        return self.sym('concat', *p, ty=str)

    def distinct(self, a, b):
        """Two opaque values that are known to be different."""
        if a is b:
            return False
        if 'distinct' in (a.meta or ()) and 'distinct' in (b.meta or ()):
            return True
        if a.op == b.op and a.op in ('id', 'str', 'lower', 'concat') and len(a.args) == len(b.args):
            if a.op == 'id':
                return a.args[0] is not b.args[0]
            if a.op == 'str' and isinstance(a.args[0], Sym) and isinstance(b.args[0], Sym):
                x, y = a.args[0], b.args[0]
                if x.ty is int and y.ty is int:
                    return self.tri_eq(x, y) is False
        return False

    def eq(self, a, b):
        """Equality as a decision."""
        r = self.tri_eq(a, b)
        if r is not None:
            if isinstance(a, RObj) or isinstance(b, RObj):
                pass
            return r
        a, b = self.resolve(a), self.resolve(b)
        if self.type_of(a) is str and self.type_of(b) is str and not (isinstance(a, HostVal) or isinstance(b, HostVal)):
            p, q = self.str_reduce(a, b)
            if len(p) == 1 and len(q) == 1:
                for x, y in ((p[0], q[0]), (q[0], p[0])):
                    if isinstance(x, Sym) and x.op == 'str' and len(x.args) == 1 and self.type_of(x.args[0]) is int:
                        if isinstance(y, str):
                            return self.eq(x.args[0], int(y))
                        if isinstance(y, Sym) and y.op == 'str' and self.type_of(y.args[0]) is int:
                            return self.eq(x.args[0], y.args[0])
            a, b = self.join_parts(p), self.join_parts(q)
        for x in (a, b):
            if isinstance(x, HostVal) and not (x.cls in (int, float, bool, str, bytes, type(None))):
                self.foreign('eq', x, memo=True)
        ta, tb = self.type_of(a), self.type_of(b)
        num = (int, float, bool)
        if ta in num and tb in num:
            d = self.diff(a, b)
            if d is not None:
                if self.choose(2, 'eq') == 0:
                    neg = (-d[0], {x: -k for x, k in d[1].items()})
                    if not self.poly.feasible_with(d, False):
                        raise Pruned()
                    self.poly.add(d, False)
                    self.poly.add(neg, False)
                    if not isinstance(a, Sym) or not isinstance(b, Sym):
                        s, c = (a, b) if isinstance(a, Sym) else (b, a)
                        if s.op != 'lin' and not isinstance(s, HostVal):
                            self.bind[s] = c
                    return True
                i = self.choose(2, 'ne')
                neg = (-d[0], {x: -k for x, k in d[1].items()})
                f = d if i == 0 else neg
                if not self.poly.feasible_with(f, True):
                    raise Pruned()
                self.poly.add(f, True)
                return False
        r = self.choose(2, 'eq') == 0
        self.eqs[self.eqkey(a, b)] = r
        if r:
            for s, c in ((a, b), (b, a)):
                if isinstance(s, Sym) and not isinstance(s, HostVal) and isinstance(c, SCALARS):
                    self.bind[s] = c
                    break
        return r

    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str, bytes, list, tuple, dict, collections.deque, OSet, Fraction)):
            return bool(len(v)) if isinstance(v, OSet) else bool(v)
        if isinstance(v, HostVal):
            if v.payload is not None and isinstance(v.payload, (list, tuple, dict)) and v.cls in (list, tuple, dict, set, frozenset):
                return len(v.payload) > 0
            if 'falsy' in v.traits:
                return False
            if v.cls in (str, int, float, bool, bytes) or 'truthy' in v.traits:
                if 'truthy' in v.traits:
                    return True
                return self.fact(('truth', v))
            if isinstance(v.cls, HostClass) and 'default-bool' in v.cls.traits:
                return True
            self.foreign('bool', v, memo=True)
            return self.fact(('truth', v))
        if isinstance(v, Sym):
            if v.op == 'rel':
                return self.decide_rel(v)
            if v.op == 'not':
                return not self.truth(v.args[0])
            if v.op == 'eqv':
                return self.eq(v.args[0], v.args[1])
            if v.ty in (int, float):
                d = self.lin_of(v)
                if d is not None:
                    return not self.eq(v, 0)
            if v.ty is str:
                if v.op == 'concat' and any(isinstance(a, str) and a for a in v.args):
                    return True
                return not self.eq(v, '')
            if v.op == 'elems':
                return True
            return self.fact(('truth', v))
        if isinstance(v, RObj):
            m = self.find_cls_attr(v.cls, '__bool__')
            if m is not MISSING:
                return self.truth(self.call_method(v, '__bool__'))
            m = self.find_cls_attr(v.cls, '__len__')
            if m is not MISSING:
                return self.truth(self.call_method(v, '__len__'))
            if v.native is not None:
                return self.truth(v.native)
            return True
        return True

    def fact(self, key, label='truth'):
        k = (key[0],) + tuple(vkey(x) for x in key[1:])
        if k not in self.facts:
            self.facts[k] = self.choose(2, label) == 0
        return self.facts[k]

    def decide_rel(self, s):
        op, a, b = s.args
        if op in ('<', '>=', '<=', '>'):
            d = self.diff(a, b)
            if d is None:
                return self.fact(('rel', op, a, b))
            neg = (-d[0], {x: -k for x, k in d[1].items()})
            if op == '>=':
                return self.decide_lin(d, False)
            if op == '>':
                return self.decide_lin(d, True)
            if op == '<=':
                return self.decide_lin(neg, False)
            return self.decide_lin(neg, True)
        raise AssertionError(op)

    # ---------------------------------------------------------------- modules

    def find_module(self, name):
        rel = name.replace('.', '/')
        for root in (self.src_root, self.stub_root):
            for cand in (rel + '/__init__.py', rel + '.py'):
                p = os.path.join(root, cand)
                if os.path.isfile(p):
                    return p
        d = os.path.join(self.src_root, rel)
        if os.path.isdir(d) and name.split('.')[0] == 'deep':
            return d
        return None

    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.sources:
            src = self.sources[name]
            if not isinstance(src, str):
                self.throw(*src)
            try:
                return self.load_source(name, src)
            except PyExc:
                self.modules.pop(name, None)
                raise
        if name in self.missing_modules or any(name.startswith(x + '.') for x in self.missing_modules):
            self.throw(ModuleNotFoundError, "No module named '%s'" % name)
        parent = None
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
        m = self.modules.get(name)
        if m is not None:
            return m
        p = self.find_module(name)
        if p is None:
            if name in self.module_models:
                m = self.module_models[name](self)
            elif name.split('.')[0] == 'deep':
                self.throw(ModuleNotFoundError, "No module named '%s'" % name)
            else:
                m = ExtModule(name)
            self.modules[name] = m
        else:
            m = RModule(name, p, {'__name__': name, '__file__': p})
            m.ns['__package__'] = name if p.endswith('__init__.py') else name.rpartition('.')[0]
            self.modules[name] = m
            if not os.path.isdir(p):
                tree = parse_file(p)
                env = Env(None, 'module')
                env.vars = m.ns
                fr = Fr(env, m, None, None)
                self.stack.append(fr)
                try:
                    self.block(tree.body, fr)
                except PyExc:
                    self.modules.pop(name, None)
                    raise
                finally:
                    self.stack.pop()
            over = self.overrides.get(name)
            if over:
                m.ns.update(over)
        if parent is not None:
            parent.ns[name.rsplit('.', 1)[1]] = m
        return m

    def mod_attr(self, m, name, default=MISSING):
        if name in m.ns:
            return m.ns[name]
        if isinstance(m, ExtModule):
            if name.startswith('__') and name.endswith('__') and default is not MISSING:
                return default
            full = m.name + '.' + name
            if full in self.models:
                v = self.models[full]
                if callable(v) and not isinstance(v, (type, Native, RClass)):
                    v = Native(full, v)
            elif full in self.modules:
                v = self.modules[full]
            else:
                v = self.native_types.get(full, MISSING)
                if v is MISSING:
                    v = Ext(full)
            m.ns[name] = v
            return v
        if (m.name + '.' + name) in self.modules:
            return self.modules[m.name + '.' + name]
        if name == '__dict__':
            return m.ns
        if default is not MISSING:
            return default
        self.throw(AttributeError, "module '%s' has no attribute '%s'" % (m.name, name))

    # ---------------------------------------------------------------- statements

    def block(self, stmts, fr):
        for s in stmts:
            r = self.STMT[s.__class__](s, fr)
            if r is not None:
                return r
        return None

    def tick(self, node, fr):
        fr.line = node.lineno
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            self.undecided('step budget')
        if self.deadline is not None and not self.steps & 255 and time.time() > self.deadline:
            self.undecided('time budget')

    def s_Expr(self, s, fr):
        self.tick(s, fr)
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        return None

    def s_Return(self, s, fr):
        self.tick(s, fr)
        return (RET, self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        return (BRK, None)

    def s_Continue(self, s, fr):
        return (CNT, None)

    def s_Assign(self, s, fr):
        self.tick(s, fr)
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        self.tick(s, fr)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
        if fr.env.kind == 'class' and isinstance(s.target, ast.Name):
            fr.env.vars.setdefault('__annotations__', {})[s.target.id] = s.annotation

    def s_AugAssign(self, s, fr):
        self.tick(s, fr)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            self.store_name(t.id, self.augop(s.op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            n = self.mangle(t.attr, fr)
            old = self.getattr(o, n)
            self.setattr(o, n, self.augop(s.op, old, self.ev(s.value, fr)))
        else:
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            old = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, old, self.ev(s.value, fr)))

    def augop(self, op, a, b):
        a = self.resolve(a)
        if isinstance(op, ast.Add) and isinstance(a, (list, collections.deque)):
            self.mutating(a)
            a.extend(self.iterate(b))
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, dict):
            self.mutating(a)
            for k, v in self.dict_items(b):
                self.setitem(a, k, v)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, OSet) and not a.frozen:
            for x in self.iterate(b):
                a.add(x)
            return a
        if isinstance(a, RObj):
            m = {ast.Add: '__iadd__', ast.Sub: '__isub__', ast.BitOr: '__ior__'}.get(type(op))
            if m and self.find_cls_attr(a.cls, m) is not MISSING:
                return self.call_method(a, m, [b])
        return self.binop(op, a, b)

    def s_Delete(self, s, fr):
        self.tick(s, fr)
        for t in s.targets:
            if isinstance(t, ast.Name):
                env = fr.env
                if t.id in env.vars:
                    del env.vars[t.id]
                else:
                    self.throw(NameError, t.id)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), self.mangle(t.attr, fr))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))

    def s_If(self, s, fr):
        self.tick(s, fr)
        return self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def s_While(self, s, fr):
        n = 0
        while True:
            self.tick(s, fr)
            if not self.truth(self.ev(s.test, fr)):
                break
            n += 1
            if n > self.MAX_LOOP:
                self.undecided('loop bound')
            r = self.block(s.body, fr)
            if r is not None:
                if r[0] is BRK:
                    return None
                if r[0] is RET:
                    return r
        return self.block(s.orelse, fr)

    def s_For(self, s, fr):
        self.tick(s, fr)
        n = 0
        for v in self.iterate(self.ev(s.iter, fr), lazy=True):
            n += 1
            if n > self.MAX_LOOP:
                self.undecided('loop bound')
            self.tick(s, fr)
            self.assign(s.target, v, fr)
            r = self.block(s.body, fr)
            if r is not None:
                if r[0] is BRK:
                    return None
                if r[0] is RET:
                    return r
        return self.block(s.orelse, fr)

    def s_Try(self, s, fr):
        r = None
        try:
            try:
                r = self.block(s.body, fr)
            except PyExc as e:
                h = self.handler_for(s, e, fr)
                if h is None:
                    raise
                r = self.run_handler(h, e, fr)
            else:
                if r is None:
                    r = self.block(s.orelse, fr)
        except (Undecided, Pruned, Finding):
            raise
        except PyExc:
            r2 = self.block(s.finalbody, fr)
            if r2 is not None:
                return r2
            raise
        else:
            r2 = self.block(s.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    s_TryStar = None

    def handler_for(self, s, e, fr):
        for h in s.handlers:
            if h.type is None:
                return h
            fr.line = h.lineno
            if self.exc_matches(e.value, self.ev(h.type, fr)):
                return h
        return None

    def run_handler(self, h, e, fr):
        if h.name:
            self.store_name(h.name, e.value, fr)
        old = fr.exc
        fr.exc = e
        try:
            return self.block(h.body, fr)
        except PyExc as e2:
            if e2 is not e and isinstance(e2.value, BaseException) and isinstance(e.value, BaseException):
                pass
            raise
        finally:
            fr.exc = old
            if h.name:
                fr.env.vars.pop(h.name, None)

    def exc_class(self, exc):
        if isinstance(exc, (RObj, HostVal)):
            return exc.cls
        return type(exc)

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        return self.is_subclass(self.exc_class(exc), t)

    def s_Raise(self, s, fr):
        self.tick(s, fr)
        if s.exc is None:
            for f in reversed(self.stack):
                if f.exc is not None:
                    raise f.exc
                if f.func is not None and f is not fr:
                    break
            for f in reversed(self.stack):
                if f.exc is not None:
                    raise f.exc
            self.throw(RuntimeError, 'No active exception to reraise')
        v = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        raise PyExc(self.make_exc(v), self.site())

    def make_exc(self, v):
        v = self.resolve(v)
        if isinstance(v, type) and issubclass(v, BaseException):
            return v()
        if isinstance(v, RClass):
            return self.call(v, [], {})
        if isinstance(v, BaseException) or isinstance(v, RObj):
            return v
        if isinstance(v, (Ext, Sym)):
            return HostError(v)
        self.throw(TypeError, 'exceptions must derive from BaseException')

    def s_Assert(self, s, fr):
        self.tick(s, fr)
        if not self.truth(self.ev(s.test, fr)):
            self.throw(AssertionError, *([self.ev(s.msg, fr)] if s.msg else []))

    def s_Global(self, s, fr):
        return None

    s_Nonlocal = s_Global

    def s_Import(self, s, fr):
        self.tick(s, fr)
        for al in s.names:
            m = self.import_module(al.name)
            if al.asname:
                self.store_name(al.asname, m, fr)
            else:
                self.store_name(al.name.split('.')[0], self.modules[al.name.split('.')[0]], fr)

    def s_ImportFrom(self, s, fr):
        self.tick(s, fr)
        if s.level:
            pkg = fr.module.ns['__package__'].split('.')
            base = '.'.join(pkg[:len(pkg) - (s.level - 1)])
            name = base + ('.' + s.module if s.module else '')
        else:
            name = s.module
        m = self.import_module(name)
        for al in s.names:
            if al.name == '*':
                names = m.ns.get('__all__') or [k for k in m.ns if not k.startswith('_')]
                for k in list(names):
                    self.store_name(k, m.ns[k], fr)
                continue
            v = self.from_import(m, al.name)
            self.store_name(al.asname or al.name, v, fr)

    def from_import(self, m, name):
        if isinstance(m, ExtModule):
            full = m.name + '.' + name
            if full in self.missing_modules:
                self.throw(ImportError, full)
            if full in self.module_models or self.find_module(full):
                return self.import_module(full)
            return self.mod_attr(m, name)
        if name in m.ns:
            return m.ns[name]
        full = m.name + '.' + name
        if full in self.modules or self.find_module(full) or full in self.module_models:
            return self.import_module(full)
        self.throw(ImportError, "cannot import name '%s' from '%s'" % (name, m.name))

    def s_FunctionDef(self, s, fr):
        self.tick(s, fr)
        f = self.make_func(s, fr, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.store_name(s.name, v, fr)

    def s_AsyncFunctionDef(self, s, fr):
        self.s_FunctionDef(s, fr)

    def make_func(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        env = fr.env
        while env is not None and env.kind == 'class':
            env = env.parent
        f = RFunc(name, node, fr.module, env, defaults, kwd, fr.cls_ctx)
        if fr.cls_ctx and fr.env.kind == 'class':
            f.qual = fr.cls_ctx + '.' + name
        if fr.func is not None and fr.env.kind != 'class':
            f.owner = fr.func.owner
            f.first_hint = None
        return f

    def s_ClassDef(self, s, fr):
        self.tick(s, fr)
        bases, flags = [], set()
        for b in s.bases:
            v = self.ev(b, fr)
            if isinstance(v, Ext) and v.name in BENIGN_BASES:
                flags.add(v.name)
            elif isinstance(v, RClass) or isinstance(v, type) or isinstance(v, (Ext, HostClass)):
                bases.append(v)
            elif isinstance(v, Native) or isinstance(v, Sym):
                pass
        kw = {k.arg: self.ev(k.value, fr) for k in s.keywords if k.arg}
        if isinstance(kw.get('metaclass'), Ext):
            flags.add(kw['metaclass'].name)
        env = Env(fr.env, 'class')
        cfr = Fr(env, fr.module, s.name, fr.func)
        cfr.line = s.lineno
        env.vars['__module__'] = fr.module.name
        env.vars['__qualname__'] = s.name
        self.stack.append(cfr)
        try:
            self.block(s.body, cfr)
        finally:
            self.stack.pop()
        c = self.make_class(s.name, bases, env.vars, fr.module, s, flags)
        del kw
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.store_name(s.name, v, fr)

    def make_class(self, name, bases, ns, module, node=None, flags=()):
        bases = [b for b in bases if b is not object] or [object]
        c = RClass(name, bases, dict(ns), module, node)
        c.flags = set(flags)
        for b in bases:
            if isinstance(b, RClass):
                c.flags |= b.flags
        c.mro = self.c3(c)
        for k, v in list(c.ns.items()):
            fns = [v]
            if isinstance(v, (RStatic, RClassMethod)):
                fns = [v.fn]
            elif isinstance(v, RProp):
                fns = [v.fget, v.fset, v.fdel]
            for f in fns:
                if isinstance(f, RFunc) and f.owner is None:
                    f.owner = c
        c.is_enum = bool(c.flags & {'enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.StrEnum', 'enum.IntFlag'})
        if c.is_enum:
            members = {}
            i = 0
            for k, v in list(c.ns.items()):
                if k.startswith('_') or isinstance(v, (RFunc, RStatic, RClassMethod, RProp, RClass)):
                    continue
                if isinstance(v, RObj) and v.cls.name == 'auto':
                    v = i + 1
                o = RObj(c, 0)
                i += 1
                o.attrs.update({'_name_': k, 'name': k, '_value_': v, 'value': v})
                dup = next((m for m in members.values() if self.tri_eq(m.attrs['value'], v) is True), None)
                members[k] = dup or o
                c.ns[k] = dup or o
            c.ns['__members__'] = members
        hook = None
        for b in c.mro[1:]:
            if isinstance(b, RClass) and '__init_subclass__' in b.ns:
                hook = b.ns['__init_subclass__']
                break
        if hook is not None:
            fn = hook.fn if isinstance(hook, RClassMethod) else hook
            self.call(fn, [c], {})
        for k, v in list(c.ns.items()):
            if isinstance(v, RObj) and self.find_cls_attr(v.cls, '__set_name__') is not MISSING:
                self.call_method(v, '__set_name__', [c, k])
        return c

    def c3(self, c):
        seqs = [list(self.mro_of(b)) for b in c.bases] + [list(c.bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    del s[0]
                elif h in s:
                    s.remove(h)
        if object not in out:
            out.append(object)
        else:
            out.remove(object)
            out.append(object)
        return out

    def mro_of(self, c):
        if isinstance(c, RClass):
            return c.mro
        if isinstance(c, type):
            return list(c.__mro__)
        if isinstance(c, HostClass):
            out = [c]
            for b in c.bases:
                for x in self.mro_of(b):
                    if x not in out:
                        out.append(x)
            return out
        return [c, object]

    # ---- with

    def s_With(self, s, fr):
        self.tick(s, fr)
        return self.do_with(s.items, s.body, fr)

    def with_enter(self, item, fr):
        m = self.ev(item.context_expr, fr)
        ex = self.special(m, '__exit__')
        en = self.special(m, '__enter__')
        v = self.call(en, [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, fr)
        return m, ex

    def exc_triple(self, e):
        cls = self.exc_class(e.value)
        return [cls, e.value, self.inp('traceback')]

    def do_with(self, items, body, fr):
        if not items:
            return self.block(body, fr)
        m, ex = self.with_enter(items[0], fr)
        try:
            r = self.do_with(items[1:], body, fr)
        except PyExc as e:
            old = fr.exc
            fr.exc = e
            try:
                sup = self.truth(self.call(ex, self.exc_triple(e), {}))
            finally:
                fr.exc = old
            if not sup:
                raise
            return None
        self.call(ex, [None, None, None], {})
        return r

    def special(self, o, name):
        v = self.getattr(o, name, MISSING)
        if v is MISSING:
            self.throw(AttributeError, name)
        return v

    # ---- match

    def s_Match(self, s, fr):
        self.tick(s, fr)
        v = self.ev(s.subject, fr)
        for c in s.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                return self.block(c.body, fr)
        return None

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare_op(ast.Eq(), v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, fr) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            if not self.isinstance(v, self.ev(p.cls, fr)):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and self.ev(p.cls, fr) in (str, int, float, bool, bytes, list, dict, tuple, set):
                    if not self.match(p.patterns[0], v, fr):
                        return False
                else:
                    names = self.getattr(self.ev(p.cls, fr), '__match_args__')
                    for n, sp in zip(names, p.patterns):
                        if not self.match(sp, self.getattr(v, n), fr):
                            return False
            for n, sp in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match(sp, self.getattr(v, n), fr):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            v = self.resolve(v)
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(x, y, fr) for x, y in zip(p.patterns, v))
            i = star[0]
            tail = len(p.patterns) - i - 1
            if len(v) < i + tail:
                return False
            if not all(self.match(x, y, fr) for x, y in zip(p.patterns[:i], v[:i])):
                return False
            if p.patterns[i].name:
                self.store_name(p.patterns[i].name, list(v[i:len(v) - tail]), fr)
            return all(self.match(x, y, fr) for x, y in zip(p.patterns[i + 1:], v[len(v) - tail:]))
        if isinstance(p, ast.MatchMapping):
            v = self.resolve(v)
            if not isinstance(v, dict):
                return False
            used = []
            for k, sp in zip(p.keys, p.patterns):
                k = self.ev(k, fr)
                kk = self.dict_find(v, k)
                if kk is MISSING or not self.match(sp, v[kk], fr):
                    return False
                used.append(kk)
            if p.rest:
                self.store_name(p.rest, {k: x for k, x in v.items() if k not in used}, fr)
            return True
        self.undecided('match pattern')

    # ---------------------------------------------------------------- generators

    def gblock(self, stmts, fr):
        for s in stmts:
            r = yield from self.gstmt(s, fr)
            if r is not None:
                return r
        return None

    def has_yield(self, node):
        h = getattr(node, '_hasyield', None)
        if h is None:
            h = False
            todo = [node]
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    h = True
                    break
                if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
            node._hasyield = h
        return h

    def gexpr(self, e, fr):
        """Evaluate an expression which may be a yield."""
        if isinstance(e, ast.Yield):
            v = self.ev(e.value, fr) if e.value is not None else None
            return (yield v)
        if isinstance(e, ast.YieldFrom):
            for v in self.iterate(self.ev(e.value, fr), lazy=True):
                yield v
            return None
        if self.has_yield(e):
            self.undecided('yield inside an expression')
        return self.ev(e, fr)

    def gstmt(self, s, fr):
        if not self.has_yield(s):
            return self.STMT[s.__class__](s, fr)
        self.tick(s, fr)
        if isinstance(s, ast.Expr):
            yield from self.gexpr(s.value, fr)
            return None
        if isinstance(s, ast.Assign):
            v = yield from self.gexpr(s.value, fr)
            for t in s.targets:
                self.assign(t, v, fr)
            return None
        if isinstance(s, ast.AnnAssign):
            v = yield from self.gexpr(s.value, fr)
            self.assign(s.target, v, fr)
            return None
        if isinstance(s, ast.Return):
            v = yield from self.gexpr(s.value, fr)
            return (RET, v)
        if isinstance(s, ast.If):
            t = yield from self.gexpr(s.test, fr)
            return (yield from self.gblock(s.body if self.truth(t) else s.orelse, fr))
        if isinstance(s, ast.While):
            n = 0
            while self.truth((yield from self.gexpr(s.test, fr))):
                n += 1
                if n > self.MAX_LOOP:
                    self.undecided('loop bound')
                r = yield from self.gblock(s.body, fr)
                if r is not None:
                    if r[0] is BRK:
                        return None
                    if r[0] is RET:
                        return r
            return (yield from self.gblock(s.orelse, fr))
        if isinstance(s, ast.For):
            for v in self.iterate((yield from self.gexpr(s.iter, fr)), lazy=True):
                self.assign(s.target, v, fr)
                r = yield from self.gblock(s.body, fr)
                if r is not None:
                    if r[0] is BRK:
                        return None
                    if r[0] is RET:
                        return r
            return (yield from self.gblock(s.orelse, fr))
        if isinstance(s, ast.Try):
            r = None
            try:
                try:
                    r = yield from self.gblock(s.body, fr)
                except PyExc as e:
                    h = self.handler_for(s, e, fr)
                    if h is None:
                        raise
                    if h.name:
                        self.store_name(h.name, e.value, fr)
                    old = fr.exc
                    fr.exc = e
                    try:
                        r = yield from self.gblock(h.body, fr)
                    finally:
                        fr.exc = old
                else:
                    if r is None:
                        r = yield from self.gblock(s.orelse, fr)
            except (Undecided, Pruned, Finding):
                raise
            except PyExc:
                r2 = yield from self.gblock(s.finalbody, fr)
                if r2 is not None:
                    return r2
                raise
            except GeneratorExit:
                # the generator is closed: run the finally block without yields
                for st in s.finalbody:
                    self.STMT[st.__class__](st, fr)
                raise
            else:
                r2 = yield from self.gblock(s.finalbody, fr)
                if r2 is not None:
                    return r2
            return r
        if isinstance(s, ast.With):
            return (yield from self.gwith(s.items, s.body, fr))
        if isinstance(s, ast.Match):
            v = yield from self.gexpr(s.subject, fr)
            for c in s.cases:
                if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                    return (yield from self.gblock(c.body, fr))
            return None
        self.undecided('yield in %s' % type(s).__name__)

    def gwith(self, items, body, fr):
        if not items:
            return (yield from self.gblock(body, fr))
        m, ex = self.with_enter(items[0], fr)
        try:
            r = yield from self.gwith(items[1:], body, fr)
        except PyExc as e:
            if not self.truth(self.call(ex, self.exc_triple(e), {})):
                raise
            return None
        except GeneratorExit:
            self.call(ex, [GeneratorExit, GeneratorExit(), None], {})
            raise
        self.call(ex, [None, None, None], {})
        return r

    def make_gen(self, func, fr):
        g = self.gbody(func, fr)
        return GenObj(self, g, fr)

    def gbody(self, func, fr):
        r = yield from self.gblock(func.node.body, fr)
        return r[1] if r is not None and r[0] is RET else None

    # ---------------------------------------------------------------- names

    def mangle(self, name, fr):
        c = fr.cls_ctx
        if c and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (c.lstrip('_'), name)
        return name

    def load_name(self, name, fr):
        name = self.mangle(name, fr) if name.startswith('__') else name
        env = fr.env
        if name in env.vars:
            return env.vars[name]
        if env.info is not None and name in env.info.locals and env.kind == 'func':
            self.throw(UnboundLocalError, name)
        skip = env.info is not None and name in env.info.globals
        if not skip:
            env = env.parent
            while env is not None:
                if env.kind != 'class' and name in env.vars:
                    return env.vars[name]
                env = env.parent
        ns = fr.module.ns
        if name in ns:
            return ns[name]
        b = self.builtins.get(name, MISSING)
        if b is not MISSING:
            return b
        if fr.cls_ctx and name.startswith('_' + fr.cls_ctx.lstrip('_') + '__'):
            pass
        self.throw(NameError, "name '%s' is not defined" % name)

    def store_name(self, name, v, fr):
        name = self.mangle(name, fr) if name.startswith('__') else name
        env = fr.env
        if env.kind == 'comp':
            env.vars[name] = v
            return
        if env.info is not None:
            if name in env.info.globals:
                fr.module.ns[name] = v
                return
            if name in env.info.nonlocals:
                p = env.parent
                while p is not None:
                    if p.kind == 'func' and name in p.vars:
                        p.vars[name] = v
                        return
                    p = p.parent
        env.vars[name] = v

    def assign(self, t, v, fr):
        c = t.__class__
        if c is ast.Name:
            self.store_name(t.id, v, fr)
        elif c is ast.Attribute:
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif c is ast.Subscript:
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev(t.slice, fr), v)
        elif c in (ast.Tuple, ast.List):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = self.unpack(v, len(t.elts), bool(star))
            if not star:
                if len(vals) != len(t.elts):
                    self.throw(ValueError, 'unpack')
                for x, y in zip(t.elts, vals):
                    self.assign(x, y, fr)
            else:
                i = star[0]
                tail = len(t.elts) - i - 1
                if len(vals) < i + tail:
                    self.throw(ValueError, 'not enough values to unpack')
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, list(vals[i:len(vals) - tail]), fr)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - tail:]):
                    self.assign(x, y, fr)
        elif c is ast.Starred:
            self.assign(t.value, v, fr)
        else:
            self.undecided('assign to %s' % c.__name__)

    def unpack(self, v, n, star):
        v = self.resolve(v)
        if isinstance(v, Sym) and not isinstance(v, HostVal):
            if v.op in ('split',):
                # an opaque split: fits or not
                if self.fact(('unpack', v, n), 'unpack'):
                    return [self.sym('elem', v, i, ty=str) for i in range(n)]
                self.throw(ValueError, 'not enough values to unpack (expected %d)' % n)
            if v.ty in (int, float, bool):
                self.throw(TypeError, 'cannot unpack')
            if v.op != 'elems':
                return [self.sym('elem', v, i) for i in range(n)]
        return list(self.iterate(v))

    # ---------------------------------------------------------------- expressions

    def ev(self, e, fr):
        return self.EXPR[e.__class__](e, fr)

    def x_Constant(self, e, fr):
        return e.value

    def x_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def x_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        fr.line = e.lineno
        n = e.attr
        if n.startswith('__'):
            n = self.mangle(n, fr)
        return self.getattr(o, n)

    def x_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev(e.slice, fr)
        return self.getitem(o, k)

    def x_Slice(self, e, fr):
        return slice(*[self.ev(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def x_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def x_List(self, e, fr):
        return list(self.elts(e.elts, fr))

    def x_Set(self, e, fr):
        return OSet(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def x_Starred(self, e, fr):
        self.undecided('starred')

    def x_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.dict_items(self.ev(v, fr)):
                    self.dict_put(d, kk, vv)
            else:
                kk = self.ev(k, fr)
                self.dict_put(d, kk, self.ev(v, fr))
        return d

    def x_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Sym) or v.ty is not bool else False
            if not isand and t:
                return v if not isinstance(v, Sym) or v.ty is not bool else True
        return v

    def x_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        v = self.resolve(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else (+v if isinstance(e.op, ast.UAdd) else ~v)
        if isinstance(v, RObj):
            return self.call_method(v, {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(e.op)])
        if isinstance(e.op, ast.USub):
            r = self.lin_scale(v, Fraction(-1))
            if r is not None:
                return r
        return self.sym('unary', type(e.op).__name__, v)

    def x_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        fr.line = e.lineno
        return self.binop(e.op, a, b)

    def x_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        r = True
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(x, fr)
            r = self.compare_op(op, a, b)
            if i < len(e.ops) - 1:
                if not self.truth(r):
                    return False
            a = b
        return r

    def x_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def x_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        env = f.env
        if env.kind == 'comp':
            while env.kind == 'comp':
                env = env.parent
            env.vars[e.target.id] = v
        else:
            self.store_name(e.target.id, v, fr)
        return v

    def x_Lambda(self, e, fr):
        return self.make_func(e, fr, '<lambda>')

    def x_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(self.x_FormattedValue(p, fr))
        return self.concat(parts)

    def x_FormattedValue(self, e, fr):
        v = self.ev(e.value, fr)
        if e.conversion == 114:
            v = self.to_repr(v)
        elif e.conversion == 115:
            v = self.to_str(v)
        spec = self.ev(e.format_spec, fr) if e.format_spec is not None else ''
        return self.format_value(v, spec)

    def format_value(self, v, spec):
        v = self.resolve(v)
        if isinstance(spec, str) and spec == '':
            return self.to_str(v)
        if isinstance(v, SCALARS) and isinstance(spec, str):
            return self.native(format, v, spec)
        if isinstance(v, RObj) and self.find_cls_attr(v.cls, '__format__') is not MISSING:
            return self.call_method(v, '__format__', [spec])
        if isinstance(v, HostVal):
            self.foreign('format', v, memo=True)
        elif isinstance(v, Sym) and v.ty is str and 'fmt' in self.model_flags:
            if not self.fact(('fmt-ok', v, spec), 'format spec'):
                self.throw(ValueError, 'Unknown format code for object of type str')
        return self.sym('format', v, spec, ty=str)

    def x_ListComp(self, e, fr):
        out = []
        self.comp(e.generators, 0, fr, lambda f: out.append(self.ev(e.elt, f)))
        return out

    def x_SetComp(self, e, fr):
        out = OSet()
        self.comp(e.generators, 0, fr, lambda f: out.add(self.ev(e.elt, f)))
        return out

    def x_DictComp(self, e, fr):
        out = {}

        def put(f):
            k = self.ev(e.key, f)
            self.dict_put(out, k, self.ev(e.value, f))
        self.comp(e.generators, 0, fr, put)
        return out

    def comp_frame(self, fr):
        env = Env(fr.env, 'comp')
        f = Fr(env, fr.module, fr.cls_ctx, fr.func)
        f.first = fr.first
        f.line = fr.line
        f.exc = fr.exc
        if fr.env.kind == 'class':
            env.vars.update(fr.env.vars)
        return f

    def comp(self, gens, i, fr, sink, f=None):
        first = f is None
        if first:
            src = self.ev(gens[0].iter, fr)
            f = self.comp_frame(fr)
        else:
            src = self.ev(gens[i].iter, f)
        g = gens[i]
        n = 0
        for v in self.iterate(src, lazy=True):
            n += 1
            if n > self.MAX_LOOP:
                self.undecided('loop bound')
            self.assign(g.target, v, f)
            if all(self.truth(self.ev(c, f)) for c in g.ifs):
                if i + 1 < len(gens):
                    self.comp(gens, i + 1, fr, sink, f)
                else:
                    sink(f)

    def x_GeneratorExp(self, e, fr):
        src = self.ev(e.generators[0].iter, fr)
        f = self.comp_frame(fr)

        def gen(i, source):
            g = e.generators[i]
            for v in self.iterate(source, lazy=True):
                self.assign(g.target, v, f)
                if all(self.truth(self.ev(c, f)) for c in g.ifs):
                    if i + 1 < len(e.generators):
                        yield from gen(i + 1, self.ev(e.generators[i + 1].iter, f))
                    else:
                        yield self.ev(e.elt, f)
        return GenObj(self, gen(0, src), f)

    def x_Yield(self, e, fr):
        self.undecided('yield inside an expression')

    x_YieldFrom = x_Yield

    def x_Await(self, e, fr):
        self.undecided('await')

    def x_Call(self, e, fr):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and 'super' not in fr.env.vars:
            return self.zero_super(fr)
        fn = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.ev(k.value, fr)):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr)
        fr.line = e.lineno
        if fn.__class__ is Native and fn.name in ('locals', 'globals', 'vars', 'dir', 'eval', 'exec'):
            return self.frame_builtin(fn.name, args, kw, fr)
        return self.call(fn, args, kw)

    def frame_builtin(self, name, args, kw, fr):
        if name == 'globals':
            return fr.module.ns
        if name == 'locals' or (name == 'vars' and not args):
            return dict(fr.env.vars)
        if name in ('eval', 'exec'):
            return self.eval_builtin(name, args, kw, fr)
        if name == 'dir' and not args:
            return sorted(fr.env.vars)
        return self.call(self.builtins['_' + name], args, kw)

    def zero_super(self, fr):
        f = fr
        env = fr.env
        while env is not None and env.kind == 'comp':
            env = env.parent
        owner = f.func.owner if f.func is not None else None
        if owner is None:
            self.undecided('super() without class')
        return Super(owner, fr.first)

    # ---------------------------------------------------------------- operators

    OPS = {ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__'), ast.Mult: ('__mul__', '__rmul__'),
           ast.Div: ('__truediv__', '__rtruediv__'), ast.FloorDiv: ('__floordiv__', '__rfloordiv__'),
           ast.Mod: ('__mod__', '__rmod__'), ast.Pow: ('__pow__', '__rpow__'), ast.BitOr: ('__or__', '__ror__'),
           ast.BitAnd: ('__and__', '__rand__'), ast.BitXor: ('__xor__', '__rxor__'),
           ast.LShift: ('__lshift__', '__rlshift__'), ast.RShift: ('__rshift__', '__rrshift__'),
           ast.MatMult: ('__matmul__', '__rmatmul__')}

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        t = op.__class__
        # strings
        if t is ast.Mod and (isinstance(a, str) or (isinstance(a, Sym) and a.ty is str and not isinstance(a, HostVal))):
            return self.percent(a, b)
        if t is ast.Add and (self.is_strish(a) or self.is_strish(b)):
            if self.is_strish(a) and self.is_strish(b):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return self.concat([a, b])
            ta, tb = self.type_of(a), self.type_of(b)
            if ta is not None and tb is not None:
                self.throw(TypeError, 'can only concatenate str')
            return self.concat([a, b])
        if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)) or (
                isinstance(a, SCALARS) and isinstance(b, SCALARS)):
            return self.native(NATIVE_OP[t], a, b)
        if t is ast.Add:
            if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (list, tuple)) and isinstance(b, HostVal) and isinstance(b.payload, type(a)):
                return a + b.payload
        if t is ast.Mult and isinstance(a, (list, tuple, str)) and isinstance(b, int):
            return a * b
        if t is ast.BitOr and isinstance(a, dict) and isinstance(b, dict):
            d = dict(a)
            for k, v in b.items():
                self.dict_put(d, k, v)
            return d
        if isinstance(a, OSet) and isinstance(b, OSet):
            return self.set_op(t, a, b)
        if t is ast.BitOr and isinstance(a, (type, RClass, Ext)):
            return (a, b) if not isinstance(b, tuple) else (a,) + b
        f, rf = self.OPS[t]
        if isinstance(a, RObj) and self.find_cls_attr(a.cls, f) is not MISSING:
            return self.call_method(a, f, [b])
        if isinstance(b, RObj) and self.find_cls_attr(b.cls, rf) is not MISSING:
            return self.call_method(b, rf, [a])
        for x in (a, b):
            if isinstance(x, HostVal):
                self.foreign('binop', x, memo=True)
                return self.sym('binop', t.__name__, a, b)
        # numbers
        if t is ast.Add or t is ast.Sub:
            r = self.lin_add(a, b, 1 if t is ast.Add else -1)
            if r is not None:
                return r
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(y, (int, float, Fraction)):
                    r = self.lin_scale(x, Fraction(y), self.numty(x, y) or float)
                    if r is not None:
                        return r
        if t is ast.Div and isinstance(b, (int, float)) and b != 0:
            r = self.lin_scale(a, 1 / Fraction(b), float)
            if r is not None:
                return r
        if t in (ast.FloorDiv, ast.Mod) and isinstance(b, int) and b > 0:
            la = self.lin_of(a)
            if la is not None and self.numty(a, b) is int:
                q = self.sym('floordiv', a, b, ty=int)
                d = self.diff(a, self.lin_scale(q, Fraction(b)))
                self.assume(d)
                self.assume((Fraction(b - 1) - d[0], {x: -k for x, k in d[1].items()}))
                if t is ast.FloorDiv:
                    return q
                return self.lin_add(a, self.lin_scale(q, Fraction(b)), -1)
        if a is None or b is None:
            self.throw(TypeError, 'unsupported operand type(s)')
        if isinstance(a, Sym) or isinstance(b, Sym):
            ta, tb = self.type_of(a), self.type_of(b)
            num = (int, float, bool)
            bad = (str, list, dict, tuple, type(None))
            if (ta in num and tb in bad) or (tb in num and ta in bad and t is not ast.Mult):
                self.throw(TypeError, 'unsupported operand type(s)')
            if t in (ast.Mod, ast.Div, ast.FloorDiv) and isinstance(a, Sym) and a.ty is str and t is not ast.Mod:
                self.throw(TypeError, 'unsupported operand type(s)')
            ty = None
            if ta in num and tb in num:
                ty = float if (t is ast.Div or float in (ta, tb)) else int
                if t in (ast.Mod, ast.Div, ast.FloorDiv) and isinstance(b, Sym):
                    if self.eq(b, 0):
                        self.throw(ZeroDivisionError, 'division by zero')
            return self.sym('binop', t.__name__, a, b, ty=ty)
        if isinstance(a, (list, tuple, dict)) and isinstance(b, (list, tuple, dict)):
            return self.native(NATIVE_OP[t], a, b)
        if isinstance(a, (RObj, RFunc, RClass)) or isinstance(b, (RObj, RFunc, RClass)) or True:
            self.throw(TypeError, 'unsupported operand type(s) for %s' % t.__name__)

    def set_op(self, t, a, b):
        if t is ast.BitOr:
            return OSet(list(a) + list(b))
        if t is ast.BitAnd:
            return OSet(x for x in a if vkey(x) in b.d)
        if t is ast.Sub:
            return OSet(x for x in a if vkey(x) not in b.d)
        if t is ast.BitXor:
            return OSet([x for x in a if vkey(x) not in b.d] + [x for x in b if vkey(x) not in a.d])
        self.throw(TypeError, 'set op')

    def is_strish(self, v):
        return isinstance(v, str) or (isinstance(v, Sym) and v.ty is str)

    def native(self, fn, *args, **kw):
        try:
            return fn(*args, **kw)
        except (PyExc, Undecided, Pruned, Finding):
            raise
        except Exception as e:
            raise PyExc(e, self.site())

    def identical(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        if isinstance(a, (bool, type(None))) and isinstance(b, (bool, type(None))):
            return a is b
        if isinstance(a, (int, str, float, bytes)) and type(a) is type(b):
            return a == b
        if a == () and b == () and isinstance(a, tuple) and isinstance(b, tuple):
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(s, HostVal):
                if o is None:
                    return s.cls is type(None)
                if isinstance(o, HostVal):
                    return False
                if isinstance(o, bool):
                    return self.fact(('is', s, o)) if s.cls is bool else False
                return False
            if o is None:
                if s.ty is not None:
                    return s.ty is type(None)
                if s.op in ('rel', 'concat', 'lin', 'str'):
                    return False
                if self.eq(s, None):
                    return True
                return False
            if isinstance(o, bool):
                if s.ty is not None and s.ty is not bool:
                    return False
                return self.eq(s, o)
            if isinstance(o, (RObj, RClass, RFunc, RModule, list, dict, tuple, type, HostClass)):
                return False if s.ty is not None else self.eq(s, o)
            return self.eq(s, o)
        return False

    def compare_op(self, op, a, b):
        t = op.__class__
        if t is ast.Is:
            return self.identical(a, b)
        if t is ast.IsNot:
            return not self.identical(a, b)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.truth(self.contains(b, a))
        a, b = self.resolve(a), self.resolve(b)
        if t in (ast.Eq, ast.NotEq):
            r = self.rich_eq(a, b)
            if t is ast.Eq:
                return r
            if isinstance(a, RObj) and self.find_cls_attr(a.cls, '__ne__') is not MISSING:
                return self.call_method(a, '__ne__', [b])
            return not self.truth(r)
        name = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t]
        if isinstance(a, SCALARS) and isinstance(b, SCALARS) or (
                isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not self.has_sym(a) and not self.has_sym(b)):
            return self.native(NATIVE_CMP[name], a, b)
        dn = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
        rn = {'<': '__gt__', '<=': '__ge__', '>': '__lt__', '>=': '__le__'}
        if isinstance(a, RObj):
            if self.find_cls_attr(a.cls, dn[name]) is not MISSING:
                return self.call_method(a, dn[name], [b])
        if isinstance(b, RObj):
            if self.find_cls_attr(b.cls, rn[name]) is not MISSING:
                return self.call_method(b, rn[name], [a])
        if isinstance(a, OSet) and isinstance(b, OSet):
            ka, kb = set(a.d), set(b.d)
            return self.native(NATIVE_CMP[name], ka, kb)
        for x in (a, b):
            if isinstance(x, HostVal):
                self.foreign('cmp', x, memo=True)
                return self.sym('cmp', name, a, b, ty=bool)
        num = (int, float, bool)
        ta, tb = self.type_of(a), self.type_of(b)
        if (ta in num or ta is None) and (tb in num or tb is None) and a is not None and b is not None:
            d = self.diff(a, b)
            if d is not None:
                if not d[1]:
                    return self.native(NATIVE_CMP[name], d[0], 0)
                return self.sym('rel', name, a, b, ty=bool)
        if a is None or b is None or (ta in num and tb in (str, list, dict, type(None))) or (
                tb in num and ta in (str, list, dict, type(None))):
            self.throw(TypeError, "'%s' not supported" % name)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                if self.tri_eq(x, y) is True:
                    continue
                if self.eq(x, y):
                    continue
                return self.compare_op({'<': ast.Lt(), '<=': ast.Lt(), '>': ast.Gt(), '>=': ast.Gt()}[name], x, y)
            return self.native(NATIVE_CMP[name], len(a), len(b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.sym('cmp', name, a, b, ty=bool)
        self.throw(TypeError, "'%s' not supported" % name)

    def has_sym(self, v):
        if isinstance(v, Sym):
            return True
        if isinstance(v, (list, tuple)):
            return any(self.has_sym(x) for x in v)
        return not isinstance(v, SCALARS)

    def rich_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, HostClass) and 'odd-meta' in x.traits and x is not y:
                self.foreign('eq', x, memo=True)
                return False
            if isinstance(x, RObj):
                m = self.find_cls_attr(x.cls, '__eq__')
                if m is not MISSING and m is not object.__eq__:
                    r = self.call_method(x, '__eq__', [y])
                    if r is not NotImplemented:
                        return r
                elif x.native is not None:
                    return self.rich_eq(x.native, y.native if isinstance(y, RObj) and y.native is not None else y)
        r = self.tri_eq(a, b)
        if r is not None and not (isinstance(a, (list, tuple, dict)) and isinstance(b, (list, tuple, dict))):
            return r
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if x is not y and not self.truth(self.rich_eq(self.resolve(x), self.resolve(y))):
                    return False
            return True
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            for k, v in a.items():
                kk = self.dict_find(b, k)
                if kk is MISSING:
                    return False
                if b[kk] is not v and not self.truth(self.rich_eq(self.resolve(v), self.resolve(b[kk]))):
                    return False
            return True
        if r is not None:
            return r
        return self.eq(a, b)

    def contains(self, c, v):
        c, v = self.resolve(c), self.resolve(v)
        if isinstance(c, str) and isinstance(v, str):
            return v in c
        if isinstance(c, dict):
            return self.dict_find(c, v) is not MISSING
        if isinstance(c, (list, tuple, collections.deque)):
            for x in c:
                if x is v:
                    return True
            for x in c:
                if self.truth(self.rich_eq(self.resolve(x), v)):
                    return True
            return False
        if isinstance(c, OSet):
            if vkey(v) in c.d:
                return True
            for x in c:
                if isinstance(x, Sym) or isinstance(v, Sym):
                    if self.eq(x, v):
                        return True
            return False
        if isinstance(c, range):
            if isinstance(v, int):
                return v in c
            if isinstance(v, Sym):
                lo, hi = (c.start, c.stop)
                return self.truth(self.compare_op(ast.GtE(), v, lo)) and self.truth(self.compare_op(ast.Lt(), v, hi))
        if isinstance(c, RObj):
            if self.find_cls_attr(c.cls, '__contains__') is not MISSING:
                return self.truth(self.call_method(c, '__contains__', [v]))
            if c.native is not None:
                return self.contains(c.native, v)
            if self.find_cls_attr(c.cls, '__iter__') is not MISSING:
                return any(self.truth(self.rich_eq(self.resolve(x), v)) for x in self.iterate(c))
        if isinstance(c, HostVal):
            if isinstance(c.payload, (dict, list, tuple)) and c.cls in (dict, list, tuple, set, frozenset):
                return self.contains(c.payload, v)
            if c.cls is not str:
                self.foreign('contains', c, memo=True)
            return self.fact(('in', v, c))
        if isinstance(c, RClass) and c.is_enum:
            return any(m is v for m in c.ns['__members__'].values())
        if isinstance(c, (GenObj,)):
            return any(self.truth(self.rich_eq(self.resolve(x), v)) for x in self.iterate(c))
        if isinstance(c, Sym):
            if c.ty in (int, float, bool):
                self.throw(TypeError, 'not iterable')
            return self.fact(('in', v, c))
        if isinstance(c, (bytes,)) or isinstance(c, (type({}.keys()), type({}.values()), type({}.items()))):
            return any(self.truth(self.rich_eq(self.resolve(x), v)) for x in self.iterate(c))
        if isinstance(c, str):
            if isinstance(v, Sym):
                return self.fact(('in', v, c))
            self.throw(TypeError, 'requires string as left operand')
        if hasattr(c, '__iter__'):
            return any(self.truth(self.rich_eq(self.resolve(x), v)) for x in self.iterate(c))
        self.throw(TypeError, 'argument of type %s is not iterable' % type(c).__name__)

    # ---------------------------------------------------------------- strings

    def concat(self, parts):
        out = []
        for p in parts:
            p = self.resolve(p)
            if isinstance(p, Sym) and p.op == 'concat':
                out.extend(p.args)
            else:
                out.append(p)
        res = []
        for p in out:
            if isinstance(p, str):
                if p == '':
                    continue
                if res and isinstance(res[-1], str):
                    res[-1] += p
                    continue
            res.append(p)
        if not res:
            return ''
        if len(res) == 1 and (isinstance(res[0], str) or (isinstance(res[0], Sym) and res[0].ty is str)):
            return res[0]
        return self.sym('concat', *res, ty=str)

    def percent(self, fmt, args):
        fmt = self.resolve(fmt)
        if not isinstance(fmt, str):
            # an opaque template: formatting can fail
            if isinstance(fmt, Sym) and fmt.op == 'concat':
                pass
            return self.sym('percent', fmt, args if not isinstance(args, (list, dict)) else self.sym('args'), ty=str)
        import re
        a = args
        if isinstance(a, dict):
            vals = None
        elif isinstance(a, tuple):
            vals = list(a)
        else:
            vals = [a]
        parts = []
        pos = 0
        for m in re.finditer(r'%(\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            conv = m.group(6)
            if conv == '%':
                parts.append('%')
                continue
            if m.group(2) is not None:
                v = self.getitem(a, m.group(2))
            else:
                if not vals:
                    self.throw(TypeError, 'not enough arguments for format string')
                v = vals.pop(0)
            v = self.resolve(v)
            plain = not m.group(3) and not m.group(4) and not m.group(5)
            if conv == 's' and plain:
                parts.append(self.to_str(v))
            elif conv in 'ra' and plain:
                parts.append(self.to_repr(v))
            elif isinstance(v, SCALARS):
                parts.append(self.native(lambda f, x: f % (x,), '%' + (m.group(3) or '') + (m.group(4) or '') + (
                    '.' + m.group(5) if m.group(5) else '') + conv, v))
            elif conv in 'di' and plain and isinstance(v, Sym) and v.ty is int:
                parts.append(self.to_str(v))
            else:
                if isinstance(v, HostVal):
                    self.foreign('format', v, memo=True)
                elif conv in 'dioxXeEfFgG' and self.type_of(v) not in (int, float, bool, None):
                    self.throw(TypeError, '%%%s format: a number is required' % conv)
                parts.append(self.sym('format', v, m.group(0), ty=str))
        rest = fmt[pos:]
        if '%' in rest:
            self.throw(ValueError, 'incomplete format')
        parts.append(rest)
        if vals:
            self.throw(TypeError, 'not all arguments converted during string formatting')
        return self.concat(parts)

    def to_str(self, v):
        v = self.resolve(v)
        if isinstance(v, str):
            return v
        if isinstance(v, (bool, int, float, type(None), bytes, Fraction)):
            return str(v) if not isinstance(v, Fraction) else str(float(v))
        if isinstance(v, HostVal):
            if v.cls in (int, float, bool, type(None)):
                return self.sym('str', v, ty=str)
            if v.cls is str:
                return v
            self.foreign('str', v, memo=True)
            if 'odd-str' in v.traits:
                r = v.attrs.get('@str')
                if r is None:
                    r = v.attrs['@str'] = HostVal('str(%s)' % v.label, HostClass('OddStr', 'OddStr', (str,)), None, {'@of': v})
                return r
            return self.sym('str', v, ty=str)
        if isinstance(v, Sym):
            if v.ty is str:
                return v
            if v.ty in (int, float, bool, None) or True:
                if v.ty is bool and v.op in ('rel', 'cmp'):
                    return str(self.truth(v))
                return self.sym('str', v, ty=str)
        if isinstance(v, RObj):
            for n in ('__str__', '__repr__'):
                m = self.find_cls_attr(v.cls, n)
                if m is not MISSING and isinstance(m, (RFunc, RStatic, Native)):
                    return self.call_method(v, n)
            if v.cls.is_enum:
                return '%s.%s' % (v.cls.name, v.attrs['_name_'])
            if v.native is not None:
                if isinstance(v.native, tuple) and self.is_exc_class(v.cls):
                    a = v.native
                    return '' if not a else (self.to_str(a[0]) if len(a) == 1 else self.to_repr(a))
                return self.to_repr(v.native)
            return self.sym('str', v, ty=str)
        if isinstance(v, BaseException):
            if isinstance(v, (HostError, HostBaseError)):
                self.foreign('exc-str', v, memo=True)
                return self.sym('str', v, ty=str)
            a = v.args
            if not a:
                return ''
            if len(a) == 1:
                if isinstance(v, KeyError):
                    return self.to_repr(a[0])
                return self.to_str(a[0])
            return self.to_repr(tuple(a))
        if isinstance(v, CONTAINERS):
            return self.to_repr(v)
        if isinstance(v, type):
            return repr(v)
        return self.sym('str', v, ty=str)

    def to_repr(self, v):
        v = self.resolve(v)
        if isinstance(v, (str, bool, int, float, type(None), bytes)):
            return repr(v)
        if isinstance(v, HostVal):
            if v.cls not in (int, float, bool, str, bytes, type(None)):
                self.foreign('repr', v, memo=True)
            return self.sym('repr', v, ty=str)
        if isinstance(v, (list, tuple, dict, OSet, collections.deque)):
            parts = []
            if isinstance(v, dict):
                parts.append('{')
                for i, (k, x) in enumerate(v.items()):
                    parts += [', ' if i else '', self.to_repr(k), ': ', self.to_repr(x)]
                parts.append('}')
            else:
                br = '[]' if isinstance(v, list) else ('()' if isinstance(v, tuple) else '{}')
                parts.append(br[0])
                for i, x in enumerate(v):
                    parts += [', ' if i else '', self.to_repr(x)]
                parts.append(br[1])
            return self.concat(parts)
        if isinstance(v, RObj):
            m = self.find_cls_attr(v.cls, '__repr__')
            if m is not MISSING and isinstance(m, RFunc):
                return self.call_method(v, '__repr__')
            if v.cls.is_enum:
                return '<%s.%s>' % (v.cls.name, v.attrs['_name_'])
            if v.native is not None:
                return self.to_repr(v.native)
            return self.sym('repr', v, ty=str)
        if isinstance(v, type):
            return repr(v)
        return self.sym('repr', v, ty=str)

    # ---------------------------------------------------------------- iteration

    def iterate(self, v, lazy=False):
        """A python iterable over the abstract elements."""
        v = self.resolve(v)
        if isinstance(v, (list, tuple, str, bytes, range, collections.deque)):
            if isinstance(v, list) and lazy:
                return self.live_list(v)
            if isinstance(v, collections.deque) and lazy:
                return self.live_deque(v)
            return list(v)
        if isinstance(v, dict):
            return self.live_dict(v, lambda: list(v)) if lazy else list(v)
        if isinstance(v, DView):
            return self.live_dict(v.d, v.items) if lazy else v.items()
        if isinstance(v, OSet):
            return list(v)
        if isinstance(v, GenObj):
            return v.iter()
        if isinstance(v, RObj):
            if self.find_cls_attr(v.cls, '__iter__') is not MISSING:
                return self.iterate(self.call_method(v, '__iter__'), lazy)
            if v.native is not None:
                return self.iterate(v.native, lazy)
            if self.find_cls_attr(v.cls, '__next__') is not MISSING:
                return self.next_iter(v)
            if self.find_cls_attr(v.cls, '__getitem__') is not MISSING:
                return self.getitem_iter(v)
            self.throw(TypeError, 'object is not iterable')
        if isinstance(v, RClass) and v.is_enum:
            return list(dict.fromkeys(v.ns['__members__'].values()))
        if isinstance(v, HostVal):
            if isinstance(v.payload, (list, tuple)) and v.cls in (list, tuple, set, frozenset):
                if v.cls in (list, set) and lazy:
                    self.event('host', 'live-iter', v)
                return list(v.payload)
            if isinstance(v.payload, dict) and v.cls is dict:
                if lazy:
                    self.event('host', 'live-iter', v)
                return list(v.payload)
            if v.cls in (int, float, bool, type(None)):
                self.throw(TypeError, 'not iterable')
            if v.cls is str or v.cls is bytes:
                return [self.sym('elem', v, i, ty=str) for i in range(self.count_of(v))]
            kind = 'consume' if 'iterator' in v.traits else 'iter'
            self.foreign(kind, v, memo=True)
            if isinstance(v.payload, (list, tuple, dict)):
                return list(v.payload)
            return [self.sym('elem', v, i) for i in range(self.count_of(v))]
        if isinstance(v, Sym):
            if v.ty in (int, float, bool, type(None)):
                self.throw(TypeError, 'not iterable')
            et = str if v.ty is str or v.op == 'split' else None
            lo = 1 if v.op == 'split' else 0
            return [self.sym('elem', v, i, ty=et) for i in range(self.count_of(v, lo))]
        if isinstance(v, (Ext, ExtModule)):
            return [self.sym('elem', v, i) for i in range(self.count_of(v))]
        if v is None or isinstance(v, SCALARS) or isinstance(v, (RFunc, RClass, Bound, Native)):
            self.throw(TypeError, "'%s' object is not iterable" % self.type_name(v))
        if isinstance(v, BaseException):
            self.throw(TypeError, 'not iterable')
        if hasattr(v, '__next__') or hasattr(v, '__iter__'):
            return v
        self.throw(TypeError, 'not iterable')

    def count_of(self, v, lo=0, hi=2):
        key = ('count', vkey(v))
        if key not in self.facts:
            self.facts[key] = lo + self.choose(hi - lo + 1, 'count')
        return self.facts[key]

    def live_list(self, v):
        i = 0
        while i < len(v):
            yield v[i]
            i += 1

    def live_deque(self, v):
        n = len(v)
        for x in list(v):
            if len(v) != n:
                self.throw(RuntimeError, 'deque mutated during iteration')
            yield x

    def live_dict(self, d, items):
        n = len(d)
        for x in items():
            if len(d) != n:
                self.throw(RuntimeError, 'dictionary changed size during iteration')
            yield x
        if len(d) != n:
            self.throw(RuntimeError, 'dictionary changed size during iteration')

    def next_iter(self, v):
        while True:
            try:
                x = self.call_method(v, '__next__')
            except PyExc as e:
                if isinstance(e.value, StopIteration):
                    return
                raise
            yield x

    def getitem_iter(self, v):
        i = 0
        while i < 50:
            try:
                x = self.call_method(v, '__getitem__', [i])
            except PyExc as e:
                if isinstance(e.value, IndexError):
                    return
                raise
            yield x
            i += 1

    def dict_items(self, d):
        """Pairs of a mapping (for ** and update)."""
        d = self.resolve(d)
        if isinstance(d, dict):
            return list(d.items())
        if isinstance(d, RObj) and isinstance(d.native, dict):
            return list(d.native.items())
        if isinstance(d, HostVal) and isinstance(d.payload, dict):
            return list(d.payload.items())
        if isinstance(d, RObj):
            if self.find_cls_attr(d.cls, 'keys') is not MISSING:
                return [(k, self.getitem(d, k)) for k in self.iterate(self.call_method(d, 'keys'))]
        if isinstance(d, HostVal):
            self.foreign('iter', d, memo=True)
        if isinstance(d, Sym):
            if d.ty in (int, float, bool, str, type(None)):
                self.throw(TypeError, 'not a mapping')
            return [(self.sym('key', d, i, ty=str), self.sym('val', d, i)) for i in range(self.count_of(d))]
        if d is None or isinstance(d, SCALARS):
            self.throw(TypeError, 'not a mapping')
        return [tuple(self.iterate(x)) for x in self.iterate(d)]

    # ---------------------------------------------------------------- dicts

    def hashable(self, k):
        k = self.resolve(k)
        if isinstance(k, (list, dict)) or (isinstance(k, OSet) and not k.frozen):
            self.throw(TypeError, "unhashable type: '%s'" % self.type_name(k))
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        if isinstance(k, HostVal):
            if k.cls in (list, dict, set):
                self.throw(TypeError, 'unhashable type')
            if not isinstance(k.cls, type):
                self.foreign('hash', k, memo=True)
        return k

    def dict_find(self, d, k):
        """The key of d that equals k, or MISSING."""
        k = self.hashable(k)
        if k in d:
            return k
        if isinstance(k, Sym) or isinstance(k, RObj) or any(isinstance(x, (Sym, RObj)) for x in d):
            for x in list(d):
                if isinstance(x, Sym) or isinstance(k, Sym):
                    if x is k:
                        return x
                    r = self.tri_eq(x, k)
                    if r is True:
                        return x
            for x in list(d):
                if isinstance(x, RObj) and isinstance(k, RObj) and not x.cls.is_enum:
                    if self.find_cls_attr(k.cls, '__eq__') not in (MISSING, object.__eq__):
                        if self.truth(self.rich_eq(x, k)):
                            return x
                elif (isinstance(x, Sym) or isinstance(k, Sym)) and self.tri_eq(x, k) is None:
                    if self.may_alias(x, k) and self.eq(x, k):
                        return x
        return MISSING

    def may_alias(self, a, b):
        for v in (a, b):
            if isinstance(v, Sym) and v.meta and 'distinct' in v.meta:
                return False
            if isinstance(v, HostVal):
                return False
        return True

    def dict_put(self, d, k, v):
        kk = self.dict_find(d, k)
        d[self.hashable(k) if kk is MISSING else kk] = v

    # ---------------------------------------------------------------- items

    def index(self, k):
        k = self.resolve(k)
        if isinstance(k, bool):
            return int(k)
        return k

    def getitem(self, o, k):
        o, k = self.resolve(o), self.resolve(k)
        if isinstance(o, dict):
            if isinstance(o, collections.defaultdict):
                pass
            kk = self.dict_find(o, k)
            if kk is MISSING:
                if isinstance(o, DefDict) and o.factory is not None:
                    v = self.call(o.factory, [], {})
                    o[self.hashable(k)] = v
                    return v
                self.throw(KeyError, k)
            return o[kk]
        if isinstance(o, (list, tuple, str, bytes, range, collections.deque)):
            if isinstance(k, slice):
                parts = [self.resolve(x) for x in (k.start, k.stop, k.step)]
                if all(x is None or isinstance(x, int) for x in parts):
                    if isinstance(o, collections.deque):
                        self.throw(TypeError, 'deque slice')
                    return o[slice(*parts)]
                if isinstance(o, (str, bytes)):
                    return self.sym('slice', o, *parts, ty=type(o))
                return self.slice_seq(o, parts)
            k = self.index(k)
            if isinstance(k, int):
                return self.native(lambda: o[k])
            if isinstance(k, Sym):
                for i, x in enumerate(o):
                    if self.eq(k, i):
                        return x
                self.throw(IndexError, 'index out of range')
            self.throw(TypeError, 'indices must be integers')
        if isinstance(o, RObj):
            if self.find_cls_attr(o.cls, '__getitem__') is not MISSING:
                return self.call_method(o, '__getitem__', [k])
            if o.native is not None:
                if isinstance(o.native, dict) and self.find_cls_attr(o.cls, '__missing__') is not MISSING:
                    kk = self.dict_find(o.native, k)
                    if kk is MISSING:
                        return self.call_method(o, '__missing__', [k])
                    return o.native[kk]
                return self.getitem(o.native, k)
            self.throw(TypeError, 'object is not subscriptable')
        if isinstance(o, RClass):
            if o.is_enum:
                m = o.ns['__members__'].get(k)
                if m is None:
                    self.throw(KeyError, k)
                return m
            return o
        if isinstance(o, HostVal):
            if isinstance(o.payload, (dict, list, tuple)) and o.cls in (dict, list, tuple):
                r = self.getitem(o.payload, k)
                return r
            if o.cls is str:
                if isinstance(k, slice):
                    parts = [self.resolve(k.start), self.resolve(k.stop), self.resolve(k.step)]
                    if self.short is not None and parts[0] in (0, None) and parts[2] is None and isinstance(parts[1], int) and parts[1] >= self.short:
                        return o
                    return self.sym('slice', o, *parts, ty=str)
                return self.sym('item', o, k, ty=str)
            self.foreign('getitem', o, memo=True, extra=(k,))
            return self.sym('item', o, k)
        if isinstance(o, Sym):
            if isinstance(k, slice):
                parts = [self.resolve(x) for x in (k.start, k.stop, k.step)]
                return self.slice_sym(o, parts)
            if o.ty in (int, float, bool, type(None)):
                self.throw(TypeError, 'not subscriptable')
            if o.op == 'split' and isinstance(k, int):
                n = self.count_of(o, 1)
                i = k if k >= 0 else n + k
                if not 0 <= i < n:
                    self.throw(IndexError, 'list index out of range')
                return self.sym('elem', o, i, ty=str)
            return self.sym('item', o, k, ty=str if o.ty is str else None)
        if isinstance(o, type) or isinstance(o, Ext) or isinstance(o, (Native, tuple)):
            return o
        if isinstance(o, DView):
            self.throw(TypeError, 'not subscriptable')
        self.throw(TypeError, "'%s' object is not subscriptable" % self.type_name(o))

    def slice_sym(self, o, parts):
        st, sp, step = parts
        if st in (0, None) and step is None:
            st = None
            if isinstance(sp, Sym) and sp.op == 'len' and sp.args[0] is o:
                return o
            if self.short is not None and o.ty is str and st is None and isinstance(sp, int) and sp >= self.short:
                return o
        if o.ty is str or o.ty is None:
            return self.sym('slice', o, st, sp, step, ty=o.ty)
        return self.sym('slice', o, st, sp, step, ty=o.ty)

    def slice_seq(self, o, parts):
        """A slice of a known sequence with opaque bounds: decide how long it is."""
        st, sp, step = parts
        if step is not None:
            self.undecided('slice step')
        n = len(o)
        lo = self.bound_index(st, 0, n)
        hi = self.bound_index(sp, n, n)
        return o[lo:hi] if not isinstance(o, collections.deque) else list(o)[lo:hi]

    def bound_index(self, b, default, n):
        if b is None:
            return default
        if isinstance(b, int):
            return max(0, b + n) if b < 0 else min(b, n)
        for i in range(n):
            if self.truth(self.compare_op(ast.LtE(), b, i)):
                return i
        return n

    def setitem(self, o, k, v):
        o, k = self.resolve(o), self.resolve(k)
        if isinstance(o, dict):
            self.mutating(o)
            self.dict_put(o, k, v)
        elif isinstance(o, (list, collections.deque)):
            self.mutating(o)
            if isinstance(k, slice):
                o[slice(*[self.resolve(x) for x in (k.start, k.stop, k.step)])] = list(self.iterate(v))
                return
            if not isinstance(k, int):
                self.undecided('list store at opaque index')
            self.native(lambda: o.__setitem__(k, v))
        elif isinstance(o, RObj):
            if self.find_cls_attr(o.cls, '__setitem__') is not MISSING:
                self.call_method(o, '__setitem__', [k, v])
            elif o.native is not None:
                self.setitem(o.native, k, v)
            else:
                self.throw(TypeError, 'object does not support item assignment')
        elif isinstance(o, HostVal):
            self.foreign('setitem', o, extra=(k, v))
            if isinstance(o.payload, dict):
                self.dict_put(o.payload, k, v)
        elif isinstance(o, Sym):
            self.event('mutate', 'setitem', o, k, v)
        elif isinstance(o, Ext):
            self.event('ext', o.name + '.__setitem__', k, v)
        else:
            self.throw(TypeError, 'object does not support item assignment')

    def delitem(self, o, k):
        o, k = self.resolve(o), self.resolve(k)
        if isinstance(o, dict):
            kk = self.dict_find(o, k)
            if kk is MISSING:
                self.throw(KeyError, k)
            self.mutating(o)
            del o[kk]
        elif isinstance(o, (list, collections.deque)):
            self.mutating(o)
            if isinstance(k, slice):
                del o[slice(*[self.resolve(x) for x in (k.start, k.stop, k.step)])]
                return
            self.native(lambda: o.__delitem__(k))
        elif isinstance(o, RObj):
            if self.find_cls_attr(o.cls, '__delitem__') is not MISSING:
                self.call_method(o, '__delitem__', [k])
            elif o.native is not None:
                self.delitem(o.native, k)
            else:
                self.throw(TypeError, 'no item deletion')
        elif isinstance(o, HostVal):
            self.foreign('delitem', o, extra=(k,))
            if isinstance(o.payload, dict):
                o.payload.pop(k, None)
        elif isinstance(o, Ext):
            self.event('ext', o.name + '.__delitem__', k)
        else:
            self.event('mutate', 'delitem', o, k)

    def mutating(self, container):
        if self.on_access is not None:
            self.on_access('w', container, None)

    # ---------------------------------------------------------------- attributes

    def find_cls_attr(self, cls, name):
        if isinstance(cls, RClass):
            for c in cls.mro:
                if isinstance(c, RClass):
                    if name in c.ns:
                        return c.ns[name]
                elif isinstance(c, type):
                    if c is object:
                        continue
                    if name in c.__dict__:
                        return NativeSlot(c, name)
            return MISSING
        if isinstance(cls, type):
            return getattr(cls, name, MISSING)
        return MISSING

    def type_name(self, v):
        t = self.type_of(v)
        if isinstance(t, RClass):
            return t.name
        if isinstance(t, type):
            return t.__name__
        return 'object'

    def getattr(self, o, name, default=MISSING):
        if o.__class__ is RObj:
            return self.obj_getattr(o, name, default)
        o = self.resolve(o)
        if isinstance(o, RObj):
            return self.obj_getattr(o, name, default)
        return self.attr_other(o, name, default)

    def obj_getattr(self, o, name, default=MISSING):
        ga = self.find_cls_attr(o.cls, '__getattribute__')
        if isinstance(ga, RFunc):
            try:
                return self.call(ga, [o, name], {})
            except PyExc as e:
                if default is not MISSING and self.exc_matches(e.value, AttributeError):
                    return default
                raise
        return self.obj_getattr_default(o, name, default)

    def obj_getattr_default(self, o, name, default=MISSING):
        cls = o.cls
        ca = self.find_cls_attr(cls, name)
        if ca.__class__ is RProp:
            if ca.fget is None:
                self.throw(AttributeError, name)
            try:
                return self.call(ca.fget, [o], {})
            except PyExc as e:
                if self.exc_matches(e.value, AttributeError):
                    gx = self.find_cls_attr(cls, '__getattr__')
                    if isinstance(gx, RFunc):
                        return self.call(gx, [o, name], {})
                    if default is not MISSING:
                        return default
                raise
        if isinstance(ca, RObj) and self.find_cls_attr(ca.cls, '__get__') is not MISSING and (
                self.find_cls_attr(ca.cls, '__set__') is not MISSING):
            return self.call_method(ca, '__get__', [o, cls])
        if self.on_access is not None:
            self.on_access('r', o, name)
        if name in o.attrs:
            return o.attrs[name]
        if ca is not MISSING:
            return self.bind_attr(ca, o, cls)
        if name == '__class__':
            return cls
        if name == '__dict__':
            return o.attrs
        if o.native is not None and not name.startswith('__'):
            r = self.attr_other(o.native, name, MISSING if default is MISSING else default)
            return r
        if self.is_exc_class(cls):
            if name == 'args':
                return o.native if isinstance(o.native, tuple) else ()
            if name in ('__cause__', '__context__', '__traceback__'):
                return None
            if name == 'with_traceback':
                return Native('with_traceback', lambda i, a, k: o)
        if name in ('__str__', '__repr__', '__eq__', '__hash__', '__init__', '__getattribute__', '__setattr__',
                    '__format__', '__ne__'):
            return Bound(o, self.object_slots[name])
        if name == '__doc__':
            return None
        if name == '__module__':
            return cls.module.name if cls.module else None
        gx = self.find_cls_attr(cls, '__getattr__')
        if isinstance(gx, RFunc):
            try:
                return self.call(gx, [o, name], {})
            except PyExc as e:
                if default is not MISSING and self.exc_matches(e.value, AttributeError):
                    return default
                raise
        for b in cls.mro:
            if isinstance(b, (Ext, HostClass)):
                # the attribute can come from a base class we do not see
                if default is MISSING:
                    return Bound(o, self.sym('attr', b.name if isinstance(b, Ext) else b, name))
        if default is not MISSING:
            return default
        self.throw(AttributeError, "'%s' object has no attribute '%s'" % (cls.name, name))

    def bind_attr(self, ca, o, cls):
        k = ca.__class__
        if k is RFunc or k is Native or k is NativeSlot:
            return Bound(o, ca) if o is not None else ca
        if k is RStatic:
            return ca.fn
        if k is RClassMethod:
            return Bound(cls, ca.fn)
        if k is RProp:
            return self.call(ca.fget, [o], {}) if o is not None else ca
        if k is RObj and self.find_cls_attr(ca.cls, '__get__') is not MISSING:
            return self.call_method(ca, '__get__', [o, cls])
        if k is LRU:
            return Bound(o, ca) if o is not None else ca
        return ca

    def is_exc_class(self, cls):
        return any(isinstance(b, type) and issubclass(b, BaseException) for b in self.mro_of(cls))

    def attr_other(self, o, name, default):
        k = o.__class__
        if k is RModule or k is ExtModule:
            return self.mod_attr(o, name, default)
        if k is RClass:
            return self.cls_getattr(o, name, default)
        if k is Super:
            return self.super_getattr(o, name, default)
        if isinstance(o, HostVal):
            return self.host_getattr(o, name, default)
        if isinstance(o, Ext):
            full = o.name + '.' + name
            if full in self.models:
                v = self.models[full]
                return Native(full, v) if not isinstance(v, (type, Native, RClass, str, int)) else v
            if full in self.native_types:
                return self.native_types[full]
            if name == '__name__':
                return o.name.rsplit('.', 1)[1]
            if name in ('__exit__', '__enter__'):
                self.throw(AttributeError, name)
            return Ext(full)
        import builtins_model as bm
        r = bm.native_attr(self, o, name)
        if r is not MISSING:
            return r
        if default is not MISSING:
            return default
        self.throw(AttributeError, "'%s' object has no attribute '%s'" % (self.type_name(o), name))

    def cls_getattr(self, c, name, default=MISSING):
        v = self.find_cls_attr(c, name)
        if v is not MISSING:
            if isinstance(v, (RFunc, Native, RProp, NativeSlot)):
                return v
            return self.bind_attr(v, None, c)
        if name == '__name__':
            return c.name
        if name == '__qualname__':
            return c.qual
        if name == '__module__':
            return c.module.name if c.module else ''
        if name == '__mro__':
            return tuple(c.mro)
        if name == '__bases__':
            return tuple(c.bases)
        if name == '__dict__':
            return c.ns
        if name == '__doc__':
            return None
        if name == '__class__':
            return type
        if name == '__subclasses__':
            return Native('__subclasses__', lambda i, a, k: [])
        if name in self.object_slots:
            return self.object_slots[name]
        if name == 'register':
            return Native('register', lambda i, a, k: a[0])
        for b in c.mro:
            if isinstance(b, Ext) and default is MISSING:
                return Ext(b.name + '.' + name)
            if isinstance(b, HostClass):
                return self.sym('attr', b, name)
        if default is not MISSING:
            return default
        self.throw(AttributeError, "type object '%s' has no attribute '%s'" % (c.name, name))

    def super_getattr(self, s, name, default=MISSING):
        o = s.obj
        cls = o.cls if isinstance(o, RObj) else o
        mro = self.mro_of(cls)
        i = mro.index(s.cls) if s.cls in mro else -1
        for c in mro[i + 1:]:
            if isinstance(c, RClass):
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(o, RClass):
                        if isinstance(v, RClassMethod):
                            return Bound(o, v.fn)
                        return v.fn if isinstance(v, RStatic) else v
                    return self.bind_attr(v, o, cls)
            elif isinstance(c, type) and c is not object:
                if name in c.__dict__:
                    return Bound(o, NativeSlot(c, name))
            elif isinstance(c, Ext):
                return self.sym('superattr', c.name, name) if False else Native(
                    c.name + '.' + name, lambda i, a, k, c=c: i.ext_call(c.name + '.' + name, [o] + a, k))
        if name in self.object_slots:
            return Bound(o, self.object_slots[name])
        if default is not MISSING:
            return default
        self.throw(AttributeError, "'super' object has no attribute '%s'" % name)

    def host_getattr(self, o, name, default=MISSING):
        if name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, Lazy):
                v = o.attrs[name] = v.make()
            if v is MISSING:
                if default is not MISSING:
                    return default
                self.throw(AttributeError, "host object has no attribute '%s'" % name)
            return v
        if name == '__class__':
            if isinstance(o.cls, HostClass):
                # can be a property of the class (proxies)
                self.foreign('getattr', o, memo=True, extra=(name,))
                if 'odd-class' in o.traits:
                    return HostClass('class-of(%s)' % o.label, 'Pretended', (object,))
            return o.cls
        cls = o.cls
        if isinstance(cls, type):
            if o.payload is not None or cls in (str, int, float, bool, bytes, list, tuple, dict, set, frozenset):
                return NMethod(o, name)
            if cls is type(None):
                self.throw(AttributeError, "'NoneType' object has no attribute '%s'" % name)
        if 'closed' in o.traits:
            if default is not MISSING:
                return default
            self.throw(AttributeError, "host object has no attribute '%s'" % name)
        try:
            self.foreign('getattr', o, memo=True, extra=(name,))
        except PyExc as e:
            if default is not MISSING and self.exc_matches(e.value, AttributeError):
                return default
            raise
        if default is not MISSING:
            if not self.fact(('hasattr', o, name), 'hasattr'):
                return default
        elif name not in ('__enter__', '__exit__') and 'maybe-attrs' in o.traits:
            if not self.fact(('hasattr', o, name), 'hasattr'):
                self.throw(AttributeError, name)
        v = HostVal('%s.%s' % (o.label, name), HostClass('type(%s.%s)' % (o.label, name), 'Thing'))
        o.attrs[name] = v
        return v

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, RObj):
            sa = self.find_cls_attr(o.cls, '__setattr__')
            if isinstance(sa, RFunc):
                self.call(sa, [o, name, v], {})
                return
            self.obj_setattr_default(o, name, v)
        elif isinstance(o, RClass):
            o.ns[name] = v
        elif isinstance(o, RModule):
            o.ns[name] = v
        elif isinstance(o, ExtModule):
            self.event('ext', o.name + '.' + name + '=', v)
            o.ns[name] = v
        elif isinstance(o, RFunc):
            o.attrs[name] = v
        elif isinstance(o, HostVal):
            self.foreign('setattr', o, extra=(name, v))
            o.attrs[name] = v
        elif isinstance(o, Sym):
            self.event('mutate', 'setattr', o, name, v)
        elif isinstance(o, Ext):
            self.event('ext', o.name + '.' + name + '=', v)
        elif isinstance(o, BaseException):
            try:
                setattr(o, name, v)
            except (TypeError, AttributeError):
                pass
        elif isinstance(o, Bound):
            self.throw(AttributeError, name)
        elif isinstance(o, (Native,)):
            pass
        else:
            self.throw(AttributeError, "'%s' object has no attribute '%s'" % (self.type_name(o), name))

    def obj_setattr_default(self, o, name, v):
        ca = self.find_cls_attr(o.cls, name)
        if isinstance(ca, RProp):
            if ca.fset is None:
                self.throw(AttributeError, "can't set attribute '%s'" % name)
            self.call(ca.fset, [o, v], {})
            return
        if isinstance(ca, RObj) and self.find_cls_attr(ca.cls, '__set__') is not MISSING:
            self.call_method(ca, '__set__', [o, v])
            return
        slots = self.slots_of(o.cls)
        if slots is not None and name not in slots:
            self.throw(AttributeError, "no attribute '%s'" % name)
        if self.on_access is not None:
            self.on_access('w', o, name)
        o.attrs[name] = v

    def slots_of(self, cls):
        """The set of slots if the class has no instance dict."""
        out = set()
        for c in cls.mro:
            if isinstance(c, RClass):
                s = c.ns.get('__slots__')
                if s is None:
                    return None
                for x in (s if isinstance(s, (list, tuple)) else [s]):
                    if isinstance(x, str):
                        out.add('_%s%s' % (c.name.lstrip('_'), x) if x.startswith('__') and not x.endswith('__') else x)
            elif c is not object:
                return None
        return out

    def delattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, RObj):
            da = self.find_cls_attr(o.cls, '__delattr__')
            if isinstance(da, RFunc):
                self.call(da, [o, name], {})
                return
            if self.on_access is not None:
                self.on_access('w', o, name)
            if name not in o.attrs:
                self.throw(AttributeError, name)
            del o.attrs[name]
        elif isinstance(o, RClass):
            o.ns.pop(name, None)
        elif isinstance(o, HostVal):
            self.foreign('delattr', o, extra=(name,))
            o.attrs.pop(name, None)
        else:
            self.event('mutate', 'delattr', o, name)

    # ---------------------------------------------------------------- types

    def is_subclass(self, c, t):
        t = self.resolve(t)
        if isinstance(t, tuple):
            return any(self.is_subclass(c, x) for x in t)
        if t is object:
            return True
        if isinstance(c, Ext):
            return isinstance(t, Ext) and t.name == c.name
        if isinstance(t, RClass) and any(isinstance(x, RClass) and x.name == 'ABCMeta' for x in t.mro):
            pass
        for b in self.mro_of(c):
            if b is t:
                return True
            if isinstance(b, Ext) and isinstance(t, Ext) and b.name == t.name:
                return True
            if isinstance(b, type) and isinstance(t, type):
                try:
                    if issubclass(b, t):
                        return True
                except TypeError:
                    pass
        if isinstance(t, Ext) or (isinstance(t, RClass) and t.module is not None and t.module.name == '_collections_abc'):
            return self.ext_abc(c, t)
        return False

    ABC = {'Sequence': (list, tuple, str, bytes, range, collections.deque), 'MutableSequence': (list, collections.deque), 'Mapping': (dict,),
           'MutableMapping': (dict,), 'Iterable': (list, tuple, str, bytes, dict, set, frozenset, range, collections.deque),
           'Collection': (list, tuple, str, bytes, dict, set, frozenset, range, collections.deque),
           'Sized': (list, tuple, str, bytes, dict, set, frozenset, range, collections.deque),
           'Set': (set, frozenset), 'Container': (list, tuple, str, bytes, dict, set, frozenset),
           'MutableSet': (set,), 'Hashable': (str, int, float, tuple, bytes, frozenset, type(None)),
           'Number': (int, float, complex), 'Real': (int, float), 'Integral': (int,)}

    ITERATORS = ('Iterator', 'Iterable', 'Generator', 'Sized', 'Container', 'Collection', 'Sequence', 'Mapping', 'Callable', 'Reversible', 'Set')

    def ext_abc(self, c, t):
        short = t.name.rsplit('.', 1)[1] if '.' in t.name else t.name
        if isinstance(c, HostClass) and short in self.ITERATORS and all(b is object for b in c.bases):
            if c.name in ITERATOR_CLASSES:
                return short in ('Iterator', 'Iterable') or (short == 'Generator' and c.name == 'generator')
            if c.name in ('function', 'type', 'builtin_function_or_method'):
                return short == 'Callable'
            if c.name in KNOWN_CLASSES or 'default-bool' in c.traits:
                return False
            return self.fact(('issubclass', c, short), 'issubclass')
        if (isinstance(t, RClass) or t.name.split('.')[0] in ('typing', 'collections', 'numbers')) and short in self.ABC:
            for b in self.mro_of(c):
                if isinstance(b, type) and b is not object and issubclass(b, self.ABC[short]):
                    return True
                if isinstance(b, RClass) and short in ('Mapping', 'MutableMapping') and b.name in (
                        'MutableMapping', 'Mapping'):
                    return True
        return False

    def isinstance(self, v, t):
        v, t = self.resolve(v), self.resolve(t)
        if isinstance(t, tuple):
            # decided one after the other
            return any(self.isinstance(v, x) for x in t)
        if t is object:
            return True
        if isinstance(v, HostVal):
            if isinstance(t, Ext) and t.name in v.traits:
                return True
            c = v.cls
            return self.is_subclass(c, t)
        if isinstance(v, Sym):
            if isinstance(t, Ext) and isinstance(v.meta, tuple) and t.name in v.meta:
                return True
            if v.ty is not None:
                if isinstance(v.ty, (type, RClass, HostClass, Ext)):
                    return self.is_subclass(v.ty, t)
            if isinstance(t, (RClass, Ext)) and v.op in ('lin', 'rel', 'concat', 'str', 'len'):
                return False
            r = self.fact(('isinstance', v, t), 'isinstance')
            if r and t in (str, int, float, bool, bytes):
                v.ty = t
            return r
        if isinstance(v, RObj):
            if isinstance(t, Ext) and v.native is not None:
                return self.is_subclass(v.cls, t) or self.is_subclass(type(v.native), t)
            return self.is_subclass(v.cls, t)
        if isinstance(v, OSet):
            return self.is_subclass(frozenset if v.frozen else set, t)
        if isinstance(v, RClass):
            return t is type
        if isinstance(v, GenObj):
            if t is KNOWN_CLASSES['generator']:
                return True
            return isinstance(t, Ext) and t.name.rsplit('.', 1)[-1] in ('Generator', 'GeneratorType', 'Iterator', 'Iterable')
        if isinstance(v, Fraction):
            return t is float
        if isinstance(v, (RFunc, Bound, Native, NMethod)):
            if t is KNOWN_CLASSES['function']:
                return isinstance(v, RFunc)
            return isinstance(t, Ext) and t.name.rsplit('.', 1)[-1] in ('Callable', 'FunctionType', 'MethodType')
        return self.is_subclass(type(v), t)

    # ---------------------------------------------------------------- calls

    def call_method(self, o, name, args=(), kw=None):
        if isinstance(o, RObj):
            ca = self.find_cls_attr(o.cls, name)
            if ca is MISSING:
                return self.call(self.getattr(o, name), list(args), kw or {})
            return self.call(self.bind_attr(ca, o, o.cls), list(args), kw or {})
        return self.call(self.getattr(o, name), list(args), kw or {})

    def call(self, fn, args, kw):
        k = fn.__class__
        if k is Bound:
            return self.call(fn.fn, [fn.obj] + list(args), kw)
        if k is RFunc:
            return self.call_func(fn, args, kw)
        if k is Native:
            return fn.fn(self, list(args), kw)
        if k is RClass:
            return self.instantiate(fn, args, kw)
        if k is NMethod:
            import builtins_model as bm
            return bm.native_call(self, fn.obj, fn.name, list(args), kw)
        if k is NativeSlot:
            import builtins_model as bm
            return bm.slot_call(self, fn, list(args), kw)
        if k is LRU:
            return fn.call(self, list(args), kw)
        if isinstance(fn, type):
            import builtins_model as bm
            return bm.call_type(self, fn, list(args), kw)
        fn = self.resolve(fn)
        if isinstance(fn, Ext):
            return self.ext_call(fn.name, list(args), kw)
        if k is RStatic:
            return self.call(fn.fn, args, kw)
        if isinstance(fn, RObj):
            if self.find_cls_attr(fn.cls, '__call__') is not MISSING:
                return self.call_method(fn, '__call__', args, kw)
            if fn.native is not None and callable(fn.native):
                return fn.native(self, list(args), kw)
            self.throw(TypeError, "'%s' object is not callable" % fn.cls.name)
        if isinstance(fn, HostVal):
            hook = fn.attrs.get('__call__')
            if hook is not None:
                return self.call(hook, args, kw)
            self.foreign('call', fn, extra=(tuple(args),))
            n = self.nfresh['call'] = self.nfresh.get('call', 0) + 1
            return HostVal('%s(..)#%d' % (fn.label, n), HostClass('type(%s())' % fn.label, 'Thing'))
        if isinstance(fn, HostClass):
            self.foreign('call', fn, extra=(tuple(args),))
            return HostVal('%s()' % fn.label, fn)
        if isinstance(fn, Sym):
            if fn.ty in (int, float, bool, str):
                self.throw(TypeError, 'not callable')
            self.event('opaque-call', show(fn), tuple(args))
            n = self.nfresh['call'] = self.nfresh.get('call', 0) + 1
            return self.sym('call', fn, n)
        if k is Super or fn is None or isinstance(fn, SCALARS) or isinstance(fn, CONTAINERS):
            self.throw(TypeError, "'%s' object is not callable" % self.type_name(fn))
        if callable(fn):
            self.undecided('call of %r' % (fn,))
        self.throw(TypeError, 'not callable')

    def ext_call(self, name, args, kw):
        m = self.models.get(name)
        if m is not None:
            return m(self, args, kw) if not isinstance(m, Native) else m.fn(self, args, kw)
        self.event('ext', name, tuple(args), kw)
        n = self.nfresh['ext:' + name] = self.nfresh.get('ext:' + name, 0) + 1
        if self.can_fault is not None and self.fault is None:
            classes = self.can_fault('ext', name)
            if classes:
                i = self.choose(1 + len(classes), 'raise:ext')
                if i:
                    self.fault = ('ext', name, classes[i - 1].__name__, self.site(), self.trail())
                    raise PyExc(classes[i - 1]('raised by %s' % name), self.site())
        s = self.sym('ext', name, n)
        return s

    def call_func(self, f, args, kw):
        node = f.node
        info = f.info
        if info is None:
            info = f.info = info_of(node)
        if len(self.stack) > self.MAX_DEPTH:
            self.undecided('call depth')
        env = Env(f.closure, 'func', info)
        fr = Fr(env, f.module, f.cls_ctx, f)
        fr.line = node.lineno
        self.bind_args(f, node.args, args, kw, env.vars)
        if args:
            fr.first = args[0]
        elif f.closure is not None and getattr(f, 'first_hint', None) is not None:
            fr.first = f.first_hint
        if info.params and env.vars.get(info.params[0]) is not None and not args:
            fr.first = env.vars.get(info.params[0])
        self.cover.add((f.module.name, f.qual, node.lineno))
        if info.is_gen:
            return self.make_gen(f, fr)
        self.stack.append(fr)
        try:
            if self.entry_hook is not None:
                self.entry_hook(self, f)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            r = self.block(node.body, fr)
            return r[1] if r is not None and r[0] is RET else None
        finally:
            self.stack.pop()

    def bind_args(self, f, a, args, kw, out):
        args = list(args)
        pos = a.posonlyargs + a.args
        kw = dict(kw)
        n = len(pos)
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kw and p not in a.posonlyargs:
                    self.throw(TypeError, "%s() got multiple values for argument '%s'" % (f.name, p.arg))
                out[p.arg] = args[i]
            elif p.arg in kw:
                out[p.arg] = kw.pop(p.arg)
            else:
                j = i - (n - len(f.defaults))
                if j >= 0:
                    out[p.arg] = f.defaults[j]
                else:
                    self.throw(TypeError, "%s() missing required argument: '%s'" % (f.name, p.arg))
        if a.vararg:
            out[a.vararg.arg] = tuple(args[n:])
        elif len(args) > n:
            self.throw(TypeError, '%s() takes %d positional arguments but %d were given' % (f.name, n, len(args)))
        for p in a.kwonlyargs:
            if p.arg in kw:
                out[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                out[p.arg] = f.kwdefaults[p.arg]
            else:
                self.throw(TypeError, "%s() missing keyword-only argument '%s'" % (f.name, p.arg))
        if a.kwarg:
            out[a.kwarg.arg] = kw
        elif kw:
            self.throw(TypeError, "%s() got an unexpected keyword argument '%s'" % (f.name, next(iter(kw))))
        # private parameter names are mangled inside classes
        if f.cls_ctx:
            for k in list(out):
                if k.startswith('__') and not k.endswith('__'):
                    out['_%s%s' % (f.cls_ctx.lstrip('_'), k)] = out.pop(k)

    def new_obj(self, cls):
        self.nobj += 1
        o = RObj(cls, self.nobj)
        for b in cls.mro:
            if isinstance(b, type) and b is not object:
                if issubclass(b, BaseException):
                    o.native = ()
                elif issubclass(b, dict):
                    o.native = {}
                elif issubclass(b, list):
                    o.native = []
                elif issubclass(b, collections.deque):
                    o.native = collections.deque()
                elif issubclass(b, set):
                    o.native = OSet()
                break
        return o

    def instantiate(self, cls, args, kw):
        if cls.is_enum:
            for m in cls.ns['__members__'].values():
                if self.tri_eq(m.attrs['value'], args[0]) is True or m is args[0]:
                    return m
            if isinstance(self.resolve(args[0]), Sym):
                for m in cls.ns['__members__'].values():
                    if self.eq(m.attrs['value'], args[0]):
                        return m
            self.throw(ValueError, '%s is not a valid %s' % (show(args[0]), cls.name))
        new = self.find_cls_attr(cls, '__new__')
        if isinstance(new, (RFunc, RStatic)):
            o = self.call(new.fn if isinstance(new, RStatic) else new, [cls] + list(args), kw)
            if not isinstance(o, RObj) or not self.is_subclass(o.cls, cls):
                return o
        else:
            if self.abstract_methods(cls):
                self.throw(TypeError, "Can't instantiate abstract class %s" % cls.name)
            o = self.new_obj(cls)
        init = self.find_cls_attr(cls, '__init__')
        if isinstance(init, RFunc):
            if isinstance(o.native, tuple):
                o.native = tuple(args)
            self.call_func(init, [o] + list(args), kw)
        elif isinstance(init, (NativeSlot,)) or o.native is not None:
            import builtins_model as bm
            bm.native_init(self, o, list(args), kw)
        elif args or kw:
            ext = [b for b in cls.mro if isinstance(b, (Ext, HostClass))]
            if not ext and not isinstance(new, (RFunc, RStatic)):
                self.throw(TypeError, '%s() takes no arguments' % cls.name)
        return o

    def abstract_methods(self, cls):
        ab = getattr(cls, '_abstract', None)
        if ab is None:
            ab = []
            seen = set()
            isabc = bool(cls.flags & {'abc.ABC', 'abc.ABCMeta', 'typing.Protocol'})
            for c in cls.mro:
                if isinstance(c, RClass):
                    for k, v in c.ns.items():
                        if k in seen:
                            continue
                        seen.add(k)
                        f = v.fget if isinstance(v, RProp) else (v.fn if isinstance(v, (RStatic, RClassMethod)) else v)
                        if isinstance(f, RFunc) and f.attrs.get('__isabstractmethod__'):
                            ab.append(k)
            if not isabc:
                ab = []
            cls._abstract = ab
        return ab


class NativeSlot:
    """A method that a class of the program inherits from a builtin type."""

    def __init__(self, cls, name):
        self.cls, self.name = cls, name

    def __repr__(self):
        return '<slot %s.%s>' % (self.cls.__name__, self.name)


class LRU:
    """functools.lru_cache / cache."""

    def __init__(self, fn):
        self.fn, self.memo = fn, []

    def call(self, it, args, kw):
        for a, k, v in self.memo:
            if len(a) == len(args) and all(it.tri_eq(x, y) is True for x, y in zip(a, args)) and k == kw:
                return v
        v = it.call(self.fn, args, kw)
        self.memo.append((list(args), dict(kw), v))
        return v


class DefDict(dict):
    factory = None


class DView:
    """A live view of a dict."""

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def items(self):
        if self.kind == 'keys':
            return list(self.d.keys())
        if self.kind == 'values':
            return list(self.d.values())
        return list(self.d.items())

    def __iter__(self):
        return iter(self.items())

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return '<dict %s>' % self.kind


class Lazy:
    def __init__(self, make):
        self.make = make


class GenObj:
    """A generator object (of the analysed program, or an iterator)."""

    def __init__(self, it, g, fr=None):
        self.it, self.g, self.fr = it, g, fr
        self.done = False
        self.result = None

    def step(self, how, *a):
        if self.done:
            raise StopIteration
        if self.fr is not None:
            self.it.stack.append(self.fr)
        n = len(self.it.stack)
        try:
            return getattr(self.g, how)(*a) if how != 'next' else next(self.g)
        except StopIteration as e:
            self.done = True
            self.result = e.value
            raise
        except BaseException:
            self.done = True
            raise
        finally:
            if self.fr is not None:
                del self.it.stack[n - 1:]

    def iter(self):
        while True:
            try:
                v = self.step('next')
            except StopIteration:
                return
            yield v

    def __iter__(self):
        return self.iter()

    def __repr__(self):
        return '<generator>'


import operator as _op
NATIVE_OP = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv,
             ast.Mod: _op.mod, ast.Pow: _op.pow, ast.BitOr: _op.or_, ast.BitAnd: _op.and_, ast.BitXor: _op.xor,
             ast.LShift: _op.lshift, ast.RShift: _op.rshift, ast.MatMult: _op.matmul}
NATIVE_CMP = {'<': _op.lt, '<=': _op.le, '>': _op.gt, '>=': _op.ge}
