"""What the property specifications share: scenario registry, the event source of the interpreter loop, snapshot oracle."""
from kit import *


class S:
    """One scenario: fn(it) walks one abstract history and states its obligations."""

    def __init__(self, name, fn, max_paths=1500, max_time=40, known=(), need=()):
        self.name, self.fn, self.max_paths, self.max_time = name, fn, max_paths, max_time
        self.known, self.need = known, need


def product(**axes):
    keys = list(axes)

    def rec(i, cur):
        if i == len(keys):
            yield dict(cur)
            return
        for v in axes[keys[i]]:
            cur[keys[i]] = v
            yield from rec(i + 1, cur)
    return rec(0, {})


def exc_name(e):
    v = e.value
    return type_name_of(v) if isinstance(v, HostVal) else v.cls.name if isinstance(v, RObj) else type(v).__name__


class Prog:
    """Delivers the events of a program to the installed trace function, with the protocol of the interpreter loop:
    the function set with sys.settrace gets 'call', what it returns is the local trace function of that frame, a
    local trace function which returns None stays, and a trace function which raises is removed."""

    def __init__(self, it, fn, thread='main', rule='C01.raises'):
        self.it, self.fn, self.local, self.thread, self.rule = it, fn, {}, thread, rule
        self.stack = []
        self.results = []
        self.raised = None

    def deliver(self, fn, frame, event, arg):
        it = self.it
        old, it.thread = it.thread, self.thread
        try:
            r = it.call(fn, [frame, event, arg], {})
        except PyExc as e:
            self.raised = e
            raise Finding(self.rule, 'the trace function raises %s into the application on a %r event' % (exc_name(e), event),
                          e.site or it.last_site())
        finally:
            it.thread = old
        self.results.append(r)
        return r

    def call(self, frame, line=None):
        if line is not None:
            frame.attrs['f_lineno'] = line
        frame.attrs['f_back'] = self.stack[-1] if self.stack else frame.attrs.get('f_back')
        self.stack.append(frame)
        if self.fn is None:
            return None
        r = self.deliver(self.fn, frame, 'call', None)
        self.local[Ref(frame)] = r
        return r

    def event(self, frame, event, arg=None):
        fn = self.local.get(Ref(frame))
        if fn is None:
            return None
        r = self.deliver(fn, frame, event, arg)
        if r is not None:
            self.local[Ref(frame)] = r
        return r

    def line(self, frame, line):
        frame.attrs['f_lineno'] = line
        return self.event(frame, 'line')

    def ret(self, frame, value=None, line=None):
        if line is not None:
            frame.attrs['f_lineno'] = line
        r = self.event(frame, 'return', value)
        if self.stack and self.stack[-1] is frame:
            self.stack.pop()
        return r

    def exc(self, frame, typ, value, tb=None):
        return self.event(frame, 'exception', (typ, value, tb if tb is not None else HostVal('tb', HostClass('tb', 'traceback'))))

    def unwind(self, frame, typ, value):
        self.exc(frame, typ, value)
        return self.ret(frame, None)


def tp_of(it, snap):
    return it.get(it.get(snap, 'tracepoint'), 'id')


def effects_of(it):
    """What the actions of the agent did: (kind, tracepoint id or tag, event)."""
    out = []
    for e in it.events:
        if e.kind != 'boundary':
            continue
        if e.name == 'push':
            out.append(('snapshot', tp_of(it, e.args[0])))
        elif e.name == 'tplog':
            out.append(('log', e.args[2]))
        elif e.name == 'metric':
            out.append(('metric', e.args[2]))
        elif e.name == 'span.create':
            out.append(('span', e.args[3]))
    return out


# -------------------------------------------------------------------- clock, feasibility

def at_time(it, t):
    """The wall clock (ns) shows t from now on."""
    it.wall = t


def instants(it, n, positive=True):
    """n instants in order, any distance (also none) between them. The first is well after 1970."""
    from fractions import Fraction
    ts = [it.intsym('t%d' % (k + 1)) for k in range(n)]
    it.assume((Fraction(-10 ** 15), {ts[0]: Fraction(1)}))
    for a, b in zip(ts, ts[1:]):
        it.assume((Fraction(0), {b: Fraction(1), a: Fraction(-1)}))
    return ts


def ge(it, a, b, k=0):
    """The form a - b - k >= 0."""
    d = it.diff(a, b)
    return (d[0] - k, d[1])


def negate(f):
    return (-f[0], {x: -k for x, k in f[1].items()})


def feasible(it, *cons):
    """Whether the constraints (form, strict) can hold together on this path."""
    from poly import Poly
    p = Poly()
    p.cons, p.seen = list(it.poly.cons), set(it.poly.seen)
    for f, strict in cons:
        if not p.feasible_with(f, strict):
            return False
        p.add(f, strict)
    return True


# -------------------------------------------------------------------- another thread

def interfere(it, action, mark=None, only_unlocked=False):
    """From here on, until the returned function is called, the whole of `action` happens in another thread before one
    of the accesses of this thread to shared state (or never). A switch to a thread that has to wait for a lock of
    this thread is not a schedule."""
    mark = it.nobj if mark is None else mark
    me = it.thread
    st = {'done': False, 'off': False, 'site': None, 'n': 0}

    def switch(kind, obj, name=None):
        if st['done'] or st['off'] or it.thread != me:
            return
        if isinstance(obj, RObj) and obj.oid > mark:
            return
        st['n'] += 1
        if it.choose(2, 'switch') == 1:
            st['done'] = True
            st['site'] = it.site()
            it.witness.add('interleaved')
            old = it.thread
            it.thread = 't2'
            try:
                action()
            finally:
                it.thread = old
    it.on_access = switch

    def stop():
        st['off'] = True
        it.on_access = None
        return st
    return stop


# -------------------------------------------------------------------- lifetime

def alive(it, v):
    """Whether something of the agent still refers to v (also from a temporary value)."""
    from values import RFunc, Bound
    seen = set()
    todo = []
    for fr in it.stack:
        e = fr.env
        while e is not None:
            todo.append(e.vars)
            e = e.parent
    f = sys._getframe()
    while f is not None:
        if os.sep + 'specs' + os.sep not in f.f_code.co_filename:
            todo += [x for k, x in f.f_locals.items() if not isinstance(x, Interp)]
        f = f.f_back
    for m in it.modules.values():
        todo.append(m.ns)
    while todo:
        x = todo.pop()
        if x is v:
            return True
        if isinstance(x, (str, int, float, type(None), type, Interp)) or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, dict):
            todo += list(x.keys())
            todo += list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif isinstance(x, HostVal):
            todo += list(x.attrs.values())
            if x.payload is not None:
                todo.append(x.payload)
        elif isinstance(x, RObj):
            todo.append(x.attrs)
            todo.append(x.native)
        elif isinstance(x, Bound):
            todo += [x.obj, x.fn]
        elif isinstance(x, RFunc):
            e = x.closure
            while e is not None:
                todo.append(e.vars)
                e = e.parent
            todo += list(x.attrs.values())
        elif isinstance(x, GenObj) and x.fr is not None:
            todo.append(x.fr.env.vars)
        elif hasattr(x, 'd') and isinstance(getattr(x, 'd'), dict):
            todo.append(x.d)
    return False


def reuse_id(it, new, old):
    """The new object takes the place of the old one in memory, when nothing refers to that any more."""
    if not alive(it, old):
        it.same_id.append((new, old))
        it.witness.add('identity reused')
        return True
    return False


# -------------------------------------------------------------------- what a snapshot has to say about a value

def type_name_of(v):
    if isinstance(v, HostVal):
        c = v.cls
        return c.name if isinstance(c, HostClass) else c.__name__
    return type(v).__name__


def py_bases(c):
    """The builtin classes a host class derives from."""
    if isinstance(c, type):
        return c.__mro__
    out = []
    for b in c.bases:
        out += list(py_bases(b))
    return out


def kind_of(v):
    if not isinstance(v, HostVal):
        if isinstance(v, (list, tuple, set, frozenset, dict)):
            return 'dict' if isinstance(v, dict) else 'list'
        return 'str' if isinstance(v, str) else 'scalar'
    c = v.cls
    if c is str:
        return 'str'
    if c is dict:
        return 'dict'
    if c in (list, tuple, set, frozenset):
        return 'list'
    if isinstance(c, type):
        if issubclass(c, Exception):
            return 'exception'
        return 'scalar'
    if c.name in ('list_iterator', 'list_reverseiterator', 'generator'):
        return 'iterator'
    if c.name in ('type', 'module', 'traceback', 'function'):
        return 'opaque'
    bs = py_bases(c)
    if Exception in bs:
        return 'exception'
    if any(b in (dict, list, tuple, set, frozenset, str, int) for b in bs):
        return 'derived'
    return 'object'


def payload_of(v):
    return v.payload if isinstance(v, HostVal) else v


def text_of(it, v):
    """The text of a value: a term, or None when any text will do."""
    k = kind_of(v)
    if k == 'str':
        return v
    if k in ('dict', 'list'):
        return 'Size: %d' % len(payload_of(v))
    if k in ('iterator',):
        return None
    if isinstance(v, HostVal):
        return it.sym('str', v, ty=str)
    return str(v)


def demangle(cls, name):
    if isinstance(cls, str) and isinstance(name, str):
        p = '_' + cls.lstrip('_') + '__'
        if name.startswith(p):
            return name[len(p) - 2:]
    return name


def children_of(v):
    """[(name, original name, value)], or None when the children of such a value are not specified."""
    k = kind_of(v)
    if k == 'dict':
        return [(key, None, x) for key, x in payload_of(v).items()]
    if k == 'list':
        return [(str(i), None, x) for i, x in enumerate(payload_of(v))]
    if k == 'exception':
        return [(str(i), None, x) for i, x in enumerate(v.attrs.get('args', ()))]
    if k == 'object':
        d = v.attrs.get('__dict__')
        if d is None:
            return []
        if d.payload is None:
            return None
        cls = type_name_of(v)
        out = []
        for key, x in d.payload.items():
            n = demangle(cls, key)
            out.append((n, key if n is not key and n != key else None, x))
        return out
    if k in ('scalar', 'str'):
        return []
    return None


class Limits:
    def __init__(self, variables=1000, string=1024, collection=10, depth=5):
        self.variables, self.string, self.collection, self.depth = variables, string, collection, depth


class SnapCheck:
    """Compares the variable table of one snapshot with the objects it was taken of."""

    def __init__(self, it, snap, rule='C02.value', limits=None, placeholders=(), budget_hit=False, closed='C07.closed', once='C07.one-object-one-id'):
        self.it, self.snap, self.rule, self.limits = it, snap, rule, limits or Limits()
        self.table = snap.table if hasattr(snap, 'table') else it.get(snap, 'var_lookup')
        self.missing = []            # (depth, what): not there because of the budget
        self.placeholders = {vkey(p) for p in placeholders}
        self.budget_hit = budget_hit
        self.closed, self.once = closed, once
        self.by_vid = {}             # vid -> object
        self.by_obj = {}             # object key -> vid
        self.levels = {}
        self.expanded = {}

    def entry(self, vid, what):
        it = self.it
        v = it.resolve(vid)
        it.check(isinstance(v, (str, int)), self.closed, '%s refers to %s, which is not an id' % (what, show(v)))
        for k, e in self.table.items():
            if k == v:
                return e
        it.check(False, self.closed, '%s refers to id %r, which is not in the variable table %s' % (what, v, sorted(map(str, self.table))))

    def okey(self, v):
        return vkey(v)

    def ref(self, varid, v, what, level, root=False):
        """A VariableId which has to denote v."""
        it = self.it
        vid = it.resolve(it.get(varid, 'vid'))
        e = self.entry(vid, what)
        k = self.okey(v)
        if vid in self.by_vid:
            it.check(self.same(self.by_vid[vid], v), self.once, '%s: id %s stands for two objects: %s and %s' % (what, vid, show(self.by_vid[vid]), show(v)))
        else:
            if k in self.by_obj:
                it.check(self.by_obj[k] == vid, self.once, '%s: object %s has two ids (%s, %s)' % (what, show(v), self.by_obj[k], vid))
            self.by_vid[vid] = v
            self.by_obj[k] = vid
            self.value(e, v, what)
        lv = self.levels.get(vid)
        if lv is None or level < lv:
            self.levels[vid] = level
        if vid not in self.expanded:
            self.expanded[vid] = True
            self.children(e, v, what, level)
        return e

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, HostVal) or isinstance(b, HostVal):
            return False
        return type(a) is type(b) and a == b

    def value(self, e, v, what):
        it = self.it
        tn = it.resolve(it.get(e, 'type'))
        it.check(it.tri_eq(tn, type_name_of(v)) is True, self.rule, '%s: type %s, the object is a %s' % (what, show(tn), show(type_name_of(v))))
        self.text(it.get(e, 'value'), it.get(e, 'truncated'), v, what)

    def text(self, val, flag, v, what):
        it = self.it
        val = it.resolve(val)
        base = text_of(it, v)
        it.check(isinstance(val, (str, Sym)) and it.type_of(val) is str, self.rule, '%s: the value %s is not a text' % (what, show(val)))
        n = self.limits.string
        if base is None or vkey(v) in self.placeholders:
            if isinstance(val, str) and n is not None:
                it.check(len(val) <= n, 'C05.string', '%s: value of length %d, limit %d' % (what, len(val), n))
            return
        base = it.resolve(base)
        if isinstance(base, str) and not isinstance(base, HostVal):
            if isinstance(n, Sym) and isinstance(val, Sym):
                it.check(val.op == 'slice' and val.args[0] == base and val.args[1] in (None, 0) and val.args[2] is n, self.rule,
                         '%s: value %s, the text of the object is %r' % (what, show(val), base))
                return
            it.check(isinstance(val, str), self.rule, '%s: value %s, the text of the object is %r' % (what, show(val), base))
            if isinstance(n, int):
                it.check(val == base[:n], self.rule, '%s: value %r, the text of the object is %r (limit %d)' % (what, val, base, n))
                trunc = it.truth(flag)
                it.check(trunc == (len(base) > n), 'C05.truncated-flag', '%s: truncated=%s for a text of %d, limit %d' % (what, trunc, len(base), n))
            return
        from builtins_model import length
        ln = length(it, base)
        over = ge(it, ln, n, 1)
        cut = isinstance(val, Sym) and val.op == 'slice' and len(val.args) >= 3 and it.resolve(val.args[0]) is base and val.args[1] in (None, 0) \
            and it.tri_eq(val.args[2], n) is True
        it.check(val is base or cut, self.rule, '%s: value %s, the text of the object is %s' % (what, show(val), show(base)))
        if val is base:
            it.check(not feasible(it, (over, False)), 'C05.string', '%s: the text can be longer than the limit' % what)
        if it.truth(flag):
            it.check(not feasible(it, (negate(over), True)), 'C05.truncated-flag', '%s: marked truncated when the text can be within the limit' % what)
        else:
            it.check(not feasible(it, (over, False)), 'C05.truncated-flag', '%s: not marked truncated when the text can be longer than the limit' % what)

    def children(self, e, v, what, level):
        it = self.it
        got = list(it.iterate(it.get(e, 'children')))
        want = children_of(v)
        kind = kind_of(v)
        if want is None or (vkey(v) in self.placeholders):
            for c in got:
                self.entry(it.get(c, 'vid'), what)
            return
        depth_cut = False
        if kind == 'list':
            it.check(len(got) <= self.limits.collection or kind != 'list', 'C05.collection',
                     '%s: %d elements, limit %d' % (what, len(got), self.limits.collection))
        if got:
            it.check(level + 1 <= self.limits.depth, 'C05.depth', '%s: children at depth %d, limit %d' % (what, level + 1, self.limits.depth))
        elif want and level + 1 >= self.limits.depth:
            depth_cut = True
        if depth_cut:
            return
        self.names(got, want, what, level, limited=self.limits.collection if kind in ('list', 'exception') else None)

    def names(self, got, want, what, level, limited=None):
        """The references got have to be exactly those wanted."""
        it = self.it
        want = list(want)
        full = len(want)
        if limited is not None and kindless(want):
            pass
        seen = set()
        for c in got:
            name, orig = it.resolve(it.get(c, 'name')), it.resolve(it.get(c, 'original_name'))
            vid = it.resolve(it.get(c, 'vid'))
            hit = None
            for i, (wn, wo, wv) in enumerate(want):
                if i in seen:
                    continue
                if self.name_is(name, orig, wn, wo):
                    # several names can look the same: take the one of this object, if there is one
                    if vid in self.by_vid and not self.same(self.by_vid[vid], wv) and any(
                            j != i and j not in seen and self.name_is(name, orig, want[j][0], want[j][1]) for j in range(len(want))):
                        continue
                    hit = i
                    break
            it.check(hit is not None, self.rule, '%s has a child %s%s which the object does not have' % (what, show(name), ' (originally %s)' % show(orig) if orig else ''))
            seen.add(hit)
            self.ref(c, want[hit][2], '%s.%s' % (what, show(want[hit][0])), level + 1)
        missing = [show(want[i][0]) for i in range(full) if i not in seen]
        if missing:
            if limited is not None and len(got) >= min(limited, full):
                return
            if self.budget_hit:
                self.missing.append((level + 1, '%s.%s' % (what, missing[0])))
                return
            it.check(False, self.rule, '%s misses %s' % (what, ', '.join(missing[:4])))

    def name_is(self, name, orig, wn, wo):
        it = self.it
        if isinstance(wn, str) and not isinstance(wn, HostVal):
            ok = name == wn
        elif isinstance(wn, HostVal):
            # any text for the key
            ok = name is wn or name is it.sym('str', wn, ty=str) or (vkey(wn) in self.placeholders)
        elif isinstance(wn, Sym):
            ok = it.tri_eq(name, wn) is True
        else:
            ok = name == str(wn)
        if not ok:
            return False
        return (orig is None and wo is None) or (wo is not None and orig == wo) or (wo is None and orig == wn)

    def all_reachable(self, rule='C07.closed'):
        """Every reference of the table resolves, also those the expected graph does not reach."""
        it = self.it
        for k, e in self.table.items():
            for c in it.iterate(it.get(e, 'children')):
                self.entry(it.get(c, 'vid'), 'child of %s' % (k,))


def kindless(x):
    return True


def watch_results(it, snap):
    return [(it.resolve(it.get(w, 'expression')), it.resolve(it.get(w, 'source')), it.resolve(it.get(w, 'result')), it.resolve(it.get(w, 'error')), w)
            for w in it.iterate(it.get(snap, 'watches'))]


# -------------------------------------------------------------------- background work

def run_task(it, fut, thread='worker'):
    """One accepted task runs on a thread of the pool."""
    old, it.thread = it.thread, thread
    try:
        it.m(fut, '_run')
    finally:
        it.thread = old


def run_tasks(it, any_order=False, thread='worker'):
    """All tasks that are accepted, in the order of their submission (or in any)."""
    n = 0
    while it.tasks:
        k = it.choose(len(it.tasks), 'task') if any_order else 0
        run_task(it, it.tasks[k], thread)
        n += 1
        if n > 50:
            it.undecided('tasks without end')


def mentions(t, x):
    if t is x:
        return True
    if isinstance(t, Sym):
        return any(mentions(a, x) for a in t.args)
    if isinstance(t, (tuple, list)):
        return any(mentions(a, x) for a in t)
    return False
