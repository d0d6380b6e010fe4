"""Shared machinery of the property specifications: scenarios, host objects, exploration, reports."""
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'absint'))
sys.setrecursionlimit(30000)

from values import *                                        # noqa: E402,F401,F403
from values import show, vkey                               # noqa: E402
from interp import (Interp, KNOWN_CLASSES, MISSING, Lazy, GenObj, DView, SCALARS, CONTAINERS)   # noqa: E402,F401
from path import Path, next_prefix                          # noqa: E402
import random                                               # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
STUBS = os.path.join(HERE, '..', 'absint', 'stubs')


class AnchorLost(BaseException):
    """A public name the property is stated over does not exist any more."""


class NewInterp(Interp):
    def __init__(self, path, cover):
        super().__init__(path, SRC, STUBS, cover)
        self.witness = set()
        self.now = True                     # frozen clock unless the scenario says otherwise
        self.obligations = 0

    # ---------------------------------------------------------------- scenario helpers

    def harness(self):
        if 'vharness' not in self.modules:
            p = os.path.join(HERE, 'harness.py')
            with open(p) as f:
                self.load_source('vharness', f.read(), p)
        return self.modules['vharness'].ns

    def mod(self, name):
        try:
            return self.import_module(name).ns
        except PyExc as e:
            raise AnchorLost('module %s: %r' % (name, e.value))

    def public(self, module, name):
        ns = self.mod(module)
        v = ns.get(name, MISSING)
        if v is MISSING:
            raise AnchorLost('%s.%s' % (module, name))
        return v

    def new(self, cls, *args, **kw):
        return self.call(cls, list(args), kw)

    def m(self, obj, name, *args, **kw):
        """Call a method."""
        f = self.getattr(obj, name, MISSING)
        if f is MISSING:
            raise AnchorLost('%s.%s' % (self.type_name(obj), name))
        return self.call(f, list(args), kw)

    def get(self, obj, name):
        v = self.getattr(obj, name, MISSING)
        if v is MISSING:
            raise AnchorLost('%s.%s' % (self.type_name(obj), name))
        return v

    def attempt(self, fn, *a, **k):
        """(value, None) or (None, exception of the program)."""
        try:
            return fn(*a, **k), None
        except PyExc as e:
            return None, e

    def check(self, ok, rule, msg, site=None, extra=None):
        self.obligations += 1
        if not ok:
            raise Finding(rule, msg, site or self.last_site(), extra)

    def last_site(self):
        for e in reversed(self.events):
            if e.site != '?':
                return e.site
        return '?'

    def boundary(self, kind):
        return [e for e in self.events if e.kind == 'boundary' and e.name == kind]

    def strsym(self, name, *meta):
        s = self.inp(name, str)
        if meta:
            s.meta = tuple(set(s.meta or ()) | set(meta))
        return s

    def intsym(self, name, lo=None, hi=None):
        from fractions import Fraction
        s = self.inp(name, int)
        if lo is not None:
            self.assume((Fraction(-lo), {s: Fraction(1)}))
        if hi is not None:
            self.assume((Fraction(hi), {s: Fraction(-1)}))
        return s

    # ---------------------------------------------------------------- host objects

    def hclass(self, label, name=None, bases=(object,), traits=()):
        if name is None:
            name = 'Thing_' + label.replace('.', '_')
        if name in KNOWN_CLASSES and not traits:
            return KNOWN_CLASSES[name]
        return HostClass(label, name, bases, traits)

    def hobj(self, label, attrs=None, traits=(), cls=None):
        """An object of a class of the program: with an instance dict, and nothing else that can be relied on."""
        cls = cls or self.hclass(label)
        h = HostVal(label, cls, None, {}, set(traits))
        if attrs is not None:
            h.attrs['__dict__'] = HostVal(label + '.__dict__', dict, dict(attrs))
            for k, v in attrs.items():
                if isinstance(k, str):
                    h.attrs[k] = v
        return h

    def hstr(self, label, *meta):
        h = HostVal(label, str)
        h.meta = tuple(meta)
        return h

    def hint(self, label):
        return HostVal(label, int)

    def hlist(self, label, items):
        return HostVal(label, list, list(items))

    def hdict(self, label, items):
        return HostVal(label, dict, dict(items))

    def htuple(self, label, items):
        return HostVal(label, tuple, tuple(items))

    def hset(self, label, items):
        return HostVal(label, set, list(items))

    def code(self, filename, name, flags=0, first=1, lines=None):
        attrs = {'co_filename': filename, 'co_name': name, 'co_flags': flags, 'co_firstlineno': first, 'co_qualname': name,
                 '@lines': lines or [], 'co_varnames': (), 'co_argcount': 0, 'co_freevars': (), 'co_cellvars': (), 'co_code': b''}
        c = HostVal('code:%s' % show(name), HostClass('code', 'code', (object,), {'default-bool'}), None, attrs, {'closed', 'types.CodeType'})
        if lines is not None:
            c.attrs['co_lines'] = Native('co_lines', lambda i, a, k: [(n * 2, n * 2 + 2, ln) for n, ln in enumerate(lines)])
        return c

    def frame(self, label, filename='/app/src/target.py', name='func', line=10, flocals=None, back=None, globs=None,
              flags=0, first=1, lines=None, code=None):
        code = code or self.code(filename, name, flags, first, lines)
        fl = HostVal(label + '.f_locals', dict, dict(flocals or {}))
        fg = HostVal(label + '.f_globals', dict, dict(globs if globs is not None else {'__name__': 'target'}))
        fr = HostVal(label, HostClass('frame', 'frame', (object,), {'default-bool'}), None, {
            'f_code': code, 'f_lineno': line, 'f_locals': fl, 'f_globals': fg, 'f_back': back, 'f_lasti': self.inp(label + '.lasti', int),
            'f_builtins': HostVal(label + '.f_builtins', dict, {}), 'f_trace': None, 'f_trace_lines': True,
            'f_trace_opcodes': False}, {'closed', 'types.FrameType'})
        return fr

    # ---------------------------------------------------------------- the agent

    def handler(self, custom=None, plugins=(), resource=None):
        h = self.harness()
        r = self.call(h['make_handler'], [dict(custom or {}), list(plugins), resource], {})
        return r

    def trigger(self, tp_id='tp1', path='target.py', line=10, args=None, watches=None, metrics=None):
        t = self.call(self.public('deep.api.tracepoint.trigger', 'build_trigger'),
                      [tp_id, path, line, dict(args or {}), list(watches or []), list(metrics or [])], {})
        return t

    def install(self, handler, triggers):
        self.m(handler, 'new_config', list(triggers))

    def pushed(self):
        return [e.args[0] for e in self.boundary('push')]

    def trace(self, handler, frame, event, arg=None):
        """One event of the trace function of the interpreter loop. Returns the result."""
        return self.call(self.get(handler, 'trace_call'), [frame, event, arg], {})


# -------------------------------------------------------------------- exploration

class Result:
    def __init__(self, name):
        self.name = name
        self.paths = self.pruned = self.obligations = self.steps = 0
        self.undecided = {}
        self.findings = {}
        self.witness = {}
        self.sites = set()
        self.cover = set()
        self.exhaustive = True
        self.anchor = None
        self.crash = None
        self.wall = 0.0
        self.outcomes = set()

    def as_dict(self):
        d = dict(self.__dict__)
        d['cover'] = sorted('%s:%s' % (m, q) for m, q, _ in self.cover)
        d['sites'] = sorted(self.sites)
        d['outcomes'] = sorted(self.outcomes)
        return d


def explore(name, fn, max_paths=3000, max_time=60, seed=1, stop_after=12):
    """Walk all paths of one scenario."""
    res = Result(name)
    t0 = time.time()
    prefix = []
    rnd = random.Random(seed)
    walk = False
    while True:
        if res.paths >= max_paths or time.time() - t0 > max_time:
            res.exhaustive = False
            break
        if not walk and (res.paths >= max_paths * 0.7 or time.time() - t0 > max_time * 0.7):
            # too many paths: the rest of the budget is spread over the tree
            walk = True
            res.exhaustive = False
        p = RandomPath(rnd) if walk else Path(prefix)
        it = NewInterp(p, res.cover)
        it.deadline = t0 + max_time * 1.3 + 5
        try:
            fn(it)
            res.outcomes.add('ok')
        except Finding as f:
            key = (f.rule, f.msg[:160])
            if key not in res.findings:
                res.findings[key] = describe(it, f, p)
            res.outcomes.add('finding')
        except PyExc as e:
            # an exception of the program which the scenario did not expect is not decided here
            k = 'uncaught %s at %s' % (type(e.value).__name__ if not isinstance(e.value, RObj) else e.value.cls.name, e.site)
            k += ' ' + str(getattr(e.value, 'args', ''))[:120]
            res.undecided[k] = res.undecided.get(k, 0) + 1
        except Pruned:
            res.pruned += 1
        except Undecided as u:
            k = '%s at %s' % (u.why, u.site)
            res.undecided[k] = res.undecided.get(k, 0) + 1
        except AnchorLost as a:
            res.anchor = str(a)
            break
        except RecursionError:
            res.undecided['recursion'] = res.undecided.get('recursion', 0) + 1
        except Exception as e:
            tb = traceback.format_exc(limit=-4)
            k = 'analyser: %s %s' % (type(e).__name__, str(e)[:80])
            res.undecided[k] = res.undecided.get(k, 0) + 1
            if os.environ.get('VERIF_DEBUG'):
                print(tb, it.site(), file=sys.stderr)
        res.paths += 1
        res.steps += it.steps
        res.obligations += it.obligations
        for w in it.witness:
            res.witness[w] = res.witness.get(w, 0) + 1
        for e in it.events:
            if e.kind in ('boundary', 'host', 'eval') and e.site != '?':
                res.sites.add('%s@%s' % (e.name if e.kind != 'host' else 'host-' + e.name, e.site.split(':')[0]))
        if len(res.findings) >= stop_after:
            res.exhaustive = False
            break
        if not walk:
            prefix = next_prefix(p.taken)
            if prefix is None:
                break
    res.wall = time.time() - t0
    return res


class RandomPath(Path):
    def __init__(self, rnd):
        super().__init__([])
        self.rnd = rnd

    def choose(self, n, label):
        if n <= 0:
            raise Pruned()
        if n == 1:
            return 0
        if len(self.taken) >= self.limit:
            raise Undecided('decision budget')
        c = self.rnd.randrange(n)
        self.taken.append((c, n, label))
        return c


def describe(it, f, p):
    lines = ['rule: %s' % f.rule, 'violation: %s' % f.msg, 'at: %s' % f.site]
    if it.fault:
        kind, target, cls, site, trail = it.fault
        lines.append('exception edge: %s raised by %s of %s at %s' % (cls, kind, show(target), site))
        lines += ['    via %s' % t for t in trail]
    lines.append('decisions: %s' % ' '.join('%s=%d/%d' % (l, c, n) for c, n, l in p.taken))
    ev = [e for e in it.events if e.kind in ('boundary', 'eval', 'hook', 'effect', 'task', 'thread', 'log')]
    lines.append('effects of the path:')
    lines += ['    %s %s%s @%s%s' % (e.kind, e.name, show(e.args)[:200], e.site, '' if e.thread == 'main' else ' [%s]' % e.thread)
              for e in ev[-30:]]
    if f.extra:
        lines.append('detail: %s' % (f.extra,))
    return {'rule': f.rule, 'msg': f.msg, 'site': f.site, 'text': '\n'.join(lines)}


ASSUMPTIONS = [
    'CPython executes the analysed constructs as the language reference says; the modelled standard library functions behave as documented',
    'the interpreter loop delivers trace events with the protocol of sys.settrace (see specs/lib.py Prog)',
    'collections of unknown size are represented by 0, 1 or 2 generic elements unless a scenario says otherwise',
    'at most one exception edge is taken per path in fault enumeration',
]
