"""C13 Registering a tracepoint in code returns a handle that removes exactly it."""
from lib import *
from rig import Rig
import c11

RULES = {
    'C13.active': 'a registered tracepoint acts at its location with the arguments, watches and metrics that were given',
    'C13.alongside': 'registered tracepoints act next to each other and next to those of the service',
    'C13.removes-it': 'unregister stops that tracepoint',
    'C13.only-it': 'unregister stops no other tracepoint, whatever their location and settings',
    'C13.twice': 'unregister a second time does nothing, and raises nothing',
}
EXPLANATION = ('Histories of registrations (equal ones, ones on the same line with other settings, other places, uninterpretable ones), removals (each handle, in each order, again) and service updates, '
               'with the background tasks at any point in any order, against a multiset of registrations.')

MS = 10 ** 6
T0 = 10 ** 18
ON = {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'no_frame'}

# kind: (path, line, args, watches, metrics)
KINDS = {
    'same': ('target.py', 10, ON, ['w'], []),
    'other-watch': ('target.py', 10, ON, ['v'], []),
    'other-line': ('target.py', 11, ON, ['w'], []),
    'other-file': ('other.py', 10, ON, ['w'], []),
    'method': ('target.py', 10, dict(ON, method_name='func'), ['w'], []),
    'log': ('target.py', 10, dict(ON, snapshot='no_collect', log_msg='text'), [], []),
    'metric': ('target.py', 10, dict(ON, snapshot='no_collect'), [], ['m']),
    'cond': ('target.py', 10, dict(ON, condition='c'), [], []),
    'span': ('target.py', 10, dict(ON, snapshot='no_collect', span='line'), [], []),
    'default': ('target.py', 10, None, None, None),
    'bad': ('target.py', 10, {'stage': 'nonsense'}, ['w'], []),
}


class Reg(Rig):
    def __init__(self, it, plugins=True):
        Rig.__init__(self, it, plugins=plugins)
        it.eval_hook = lambda i, name, expr, g, lo, scope: True
        self.runs = 0
        self.handles = []       # (kind, handle, active)
        self.svc = []

    def add(self, kind):
        it = self.it
        path, line, args, watches, metrics = KINDS[kind]
        if args is None:
            v, e = it.attempt(it.m, self.deep, 'register_tracepoint', path, line)
        else:
            v, e = it.attempt(self.register, dict(args), list(watches), [c11.md(it, m) for m in metrics], path=path, line=line)
        it.check(e is None, 'C13.active', 'register_tracepoint raises %s' % (exc_name(e) if e else ''), e.site if e else None)
        self.handles.append([kind, v, True])

    def drop(self, k):
        it = self.it
        kind, h, on = self.handles[k]
        v, e = it.attempt(it.m, h, 'unregister')
        it.check(e is None, 'C13.removes-it' if on else 'C13.twice', 'unregister raises %s' % (exc_name(e) if e else ''), e.site if e else None)
        self.handles[k][2] = False

    def poll_svc(self, n):
        it = self.it
        self.svc = ['s%d' % k for k in range(n)]
        e = self.poll(self.update([self.tp(x, ON, [x], line=10) for x in self.svc], 'h%d' % n))
        it.check(e is None, 'C13.alongside', 'the update is refused')

    def acts(self, thread='main'):
        """[(what, kind of effect)] of one run, sorted; what: id of the service, or the watches and place."""
        it = self.it
        self.runs += 1
        eff = self.run(T0 + self.runs * 2000 * MS, extra=lambda f, name: name == 'func', flocals={}, thread=thread)
        out = []
        for tid, kind, place, e in eff:
            if kind == 'push':
                tpc = it.get(e.args[0], 'tracepoint')
                w = '+'.join(str(it.resolve(x)) for x in it.iterate(it.get(tpc, 'watches')))
                out.append(('push', w, place[0], place[2] + str(place[3])))
            elif kind == 'metric':
                out.append(('metric', str(it.resolve(e.args[2])), place[0], place[2] + str(place[3])))
            else:
                out.append((kind, '', place[0], place[2] + str(place[3])))
        return sorted(out), eff

    def want(self):
        out = [('push', s, 'target.py', 'line10') for s in self.svc]
        for kind, h, on in self.handles:
            if not on or kind == 'bad':
                continue
            path, line, args, watches, metrics = KINDS[kind]
            args = args or {}
            if kind == 'default' and h in self.fired:
                continue
            place = 'call9' if 'method_name' in args else 'line%d' % line
            if args.get('snapshot') != 'no_collect':
                out.append(('push', '+'.join(watches or []), path, place))
            if 'log_msg' in args:
                out.append(('tplog', '', path, place))
            if 'span' in args:
                out.append(('span.create', '', path, place))
            out += [('metric', m, path, place) for m in metrics or []]
            if kind == 'default':
                self.fired.append(h)
        return sorted(out)

    fired = None

    def verify(self, what, rule='C13.only-it', any_order=True):
        it = self.it
        if self.fired is None:
            self.fired = []
        self.settle(any_order)
        got, eff = self.acts()
        want = self.want()
        more = list(got)
        for x in want:
            if x in more:
                more.remove(x)
        less = list(want)
        for x in got:
            if x in less:
                less.remove(x)
        it.check(not more, 'C13.removes-it', '%s: acts, and is not registered: %s' % (what, more))
        it.check(not less, rule, '%s: registered, and does not act: %s' % (what, less))
        return eff


def one(kind):
    """A single registration has what was given; removed, twice."""
    def fn(it):
        r = Reg(it)
        r.add(kind)
        eff = r.verify('registered', 'C13.active')
        path, line, args, watches, metrics = KINDS[kind]
        for tid, k, place, e in eff:
            if k == 'push':
                tpc = it.get(e.args[0], 'tracepoint')
                got = (it.resolve(it.get(tpc, 'path')), it.resolve(it.get(tpc, 'line_no')), [it.resolve(x) for x in it.iterate(it.get(tpc, 'watches'))])
                it.check(got == (path, line, list(watches or [])), 'C13.active', 'the snapshot names the tracepoint %s, registered was %s' % (got, (path, line, watches)), e.site)
                ga = {it.resolve(a): it.resolve(b) for a, b in it.dict_items(it.get(tpc, 'args'))}
                it.check(ga == (args or {}), 'C13.active', 'the snapshot has the arguments %s, given were %s' % (ga, args), e.site)
                res = [x[0] for x in watch_results(it, e.args[0]) if x[1] == 'WATCH']
                it.check(res == list(watches or []), 'C13.active', 'watch results %s, given watches %s' % (res, watches), e.site)
        r.drop(0)
        r.verify('unregistered')
        r.drop(0)
        r.verify('unregistered twice', 'C13.twice')
    return fn


def pair(a, b, svc):
    """Two registrations, one removed, the other stays; then again; then the other."""
    def fn(it):
        r = Reg(it)
        if svc:
            r.poll_svc(1)
        r.add(a)
        r.add(b)
        r.verify('both', 'C13.alongside')
        k = it.choose(2, 'which')
        r.drop(k)
        r.verify('one removed')
        r.drop(k)
        r.verify('removed again', 'C13.twice')
        r.drop(1 - k)
        r.verify('both removed')
    return fn


def identity(kinds, order):
    """The ids tell equal registrations apart."""
    def fn(it):
        r = Reg(it)
        ids = []
        known = set()
        for k, kind in enumerate(kinds):
            r.add(kind)
            r.settle(True)
            got, eff = r.acts()
            new = {it.resolve(e[0]) for e in eff if e[1] in ('push', 'tplog', 'span.create')} - known
            it.check(len(new) == 1, 'C13.alongside', 'registration %d of %s: %d new tracepoints act' % (k + 1, kinds, len(new)))
            known |= new
            ids.append(new.pop())
        left = list(ids)
        for k in order:
            twice = not r.handles[k][2]
            r.drop(k)
            if ids[k] in left:
                left.remove(ids[k])
            r.settle(True)
            got, eff = r.acts()
            have = {it.resolve(e[0]) for e in eff if e[1] in ('push', 'tplog', 'span.create')}
            it.check(have == set(left), 'C13.twice' if twice else 'C13.only-it', 'after unregister of %s of %s: %d act, %d are registered; wrong ones: %s' % (
                order[:order.index(k) + 1], kinds, len(have), len(left), [ids.index(x) if x in ids else '?' for x in have ^ set(left)]))
    return fn


def state_kept(it):
    """Each has its own count: removing the one that has fired leaves the other, and a new one is new."""
    r = Reg(it)
    d = {'fire_count': '1', 'fire_period': '0'}
    h1 = r.register(dict(d), ['w'], [])
    r.settle()
    n = lambda: len([x for x in r.acts()[0] if x[0] == 'push'])        # noqa: E731
    it.check(n() == 1, 'C13.active', 'the first does not act')
    h2 = r.register(dict(d), ['w'], [])
    r.settle()
    it.m(h1, 'unregister')
    r.settle()
    it.check(n() == 1, 'C13.only-it', 'the second, which has not fired, does not act when the first is removed')
    h3 = r.register(dict(d), ['w'], [])
    r.settle()
    it.check(n() == 1, 'C13.active', 'a new registration of the same tracepoint does not act')
    it.m(h2, 'unregister')
    it.m(h3, 'unregister')
    r.settle()
    it.check(n() == 0, 'C13.removes-it', 'acts when removed')


def count_kept(it):
    """Changes of other tracepoints do not give a tracepoint its fires back, nor take them."""
    r = Reg(it)
    r.register({'fire_count': '2', 'fire_period': '0'}, ['w'], [])
    r.settle()
    n = lambda: len([x for x in r.acts()[0] if x[0] == 'push' and x[1] == 'w'])        # noqa: E731
    it.check(n() == 1, 'C13.active', 'does not act')
    k = it.choose(3, 'between')
    if k == 0:
        r.poll_svc(2)
    elif k == 1:
        h = r.register(dict(ON), ['v'], [])
        r.settle(True)
        it.m(h, 'unregister')
    else:
        r.register(dict(ON), ['w2'], [])
    r.settle(True)
    it.check(n() == 1, 'C13.only-it', 'the second fire is gone')
    it.check(n() == 0, 'C13.only-it', 'a third fire with fire_count 2')


def reused(what):
    """The lists and dictionaries that are given belong to the caller, who changes them later."""
    def fn(it):
        r = Reg(it)
        args, watches, metrics = dict(ON), ['w'], [c11.md(it, 'm')]
        r.add('other-watch')
        it.m(r.deep, 'register_tracepoint', 'target.py', 10, args, watches, metrics)
        if it.choose(2, 'settle') == 0:
            r.settle()
        if what == 'watches':
            watches.append('x')
        elif what == 'watches-clear':
            watches.clear()
        elif what == 'args':
            args['snapshot'] = 'no_collect'
            args['condition'] = 'false'
            args['fire_count'] = '0'
        elif what == 'args-clear':
            args.clear()
        elif what == 'metrics':
            metrics.append(c11.md(it, 'm2'))
        elif what == 'metrics-clear':
            metrics.clear()
        elif what == 'second':
            watches[0] = 'x'
            args['log_msg'] = 'text'
            it.m(r.deep, 'register_tracepoint', 'target.py', 11, args, watches, metrics)
        r.settle()
        got, eff = r.acts()
        for tid, kind, place, e in eff:
            if kind == 'push' and place[3] == 10 and watchnames(it, e) != ['v']:
                it.check(watchnames(it, e) == ['w'], 'C13.active', 'the watches are %s, given were [w]' % watchnames(it, e), e.site)
                tpc = it.get(e.args[0], 'tracepoint')
                ga = {it.resolve(a): it.resolve(b) for a, b in it.dict_items(it.get(tpc, 'args'))}
                it.check(ga == ON, 'C13.active', 'the snapshot has the arguments %s, given were %s' % (ga, ON), e.site)
        ten = sorted(x[1] for x in got if x[3] == 'line10')
        it.check(ten == ['m', 'v', 'w'], 'C13.active', 'at the line act %s' % ten)
    return fn


def watchnames(it, e):
    return [it.resolve(x) for x in it.iterate(it.get(it.get(e.args[0], 'tracepoint'), 'watches'))]


def history(ops, any_settle=True):
    """ops: kinds, '-k' (unregister the k-th), 'sN' (the service sends N)."""
    def fn(it):
        r = Reg(it, plugins=True)
        for n, o in enumerate(ops):
            if o[0] == '-':
                r.drop(int(o[1:]))
            elif o[0] == 's' and o[1:].isdigit():
                r.poll_svc(int(o[1:]))
            else:
                r.add(o)
            if any_settle and it.choose(2, 'settle') == 1:
                r.verify(' '.join(ops[:n + 1]))
        r.verify(' '.join(ops))
    return fn


def free_history(first, n):
    """Any n operations after the first ones."""
    def fn(it):
        r = Reg(it)
        done = []
        for o in first:
            r.add(o)
            done.append(o)
        for _ in range(n):
            m = len(r.handles)
            k = it.choose(m + 3, 'op')
            if k < m:
                r.drop(k)
                done.append('-%d' % k)
            else:
                o = ('same', 'other-watch', 's1')[k - m]
                if o == 's1':
                    r.poll_svc(1 if len(r.svc) != 1 else 2)
                else:
                    r.add(o)
                done.append(o)
        r.verify(' '.join(done))
    return fn


def race(kind):
    """Two threads of the application: unregister or register at the same time."""
    def fn(it):
        r = Reg(it)
        for o in ('same', 'other-watch', 'same'):
            r.add(o)
        r.settle()

        def other():
            if kind == 'same-handle':
                r.drop(0)
            elif kind == 'two-handles':
                r.drop(1)
            elif kind == 'register':
                r.add('other-line')
            elif kind == 'task':
                run_tasks(it, thread='t2')
        stop = interfere(it, other)
        if kind == 'register':
            r.add('method')
        elif kind == 'task':
            r.add('method')
            r.drop(0)
        else:
            r.drop(0)
        st = stop()
        if not st['done']:
            other()
        r.verify('at the same time (%s)' % kind)
    return fn


def scenarios(tier):
    full = tier != 'quick'
    out = [S('one/%s' % k, one(k)) for k in KINDS]
    ks = list(KINDS)
    for a in ks:
        for b in ks:
            if full or a in ('same', 'default', 'bad') or b == 'same' or a == b:
                out.append(S('pair/%s-%s' % (a, b), pair(a, b, False), max_time=10))
        out.append(S('pair-svc/%s' % a, pair(a, 'same', True), max_time=10))
    for kinds in (('same', 'same'), ('same', 'same', 'same'), ('same', 'other-line', 'same'), ('same', 'method', 'same', 'log'), ('log', 'log', 'log'), ('span', 'same', 'span'),
                  ('cond', 'cond', 'same', 'same')):
        n = len(kinds)
        for order in ([0], [n - 1], [1, 0], [0, 0, 1], [n - 1, n - 1, 0], [1, 1, 1]):
            out.append(S('identity/%s/%s' % ('-'.join(kinds), ''.join(map(str, order))), identity(kinds, order), max_time=10))
    out += [S('state', state_kept), S('count', count_kept)]
    out += [S('reused/%s' % w, reused(w)) for w in ('watches', 'watches-clear', 'args', 'args-clear', 'metrics', 'metrics-clear', 'second')]
    for h in ('same same s2 -0 s1 -1', 's1 same -0 s2 same -0 -1', 'same -0 -0 same -0', 'bad same -0 -0 -1', 'same other-watch s1 -1 s0', 'method metric log -1 s1 -0',
              'same s0 s1 s0', 'same bad same -1 -0', 'span log same -0 -1', 's2 same same same -1 -1 -0'):
        out.append(S('history/%s' % h.replace(' ', '_'), history(h.split()), max_paths=300, max_time=6 if not full else 40))
    for f in (['same'], ['same', 'same'], ['same', 'other-watch'], ['bad', 'same']):
        out.append(S('free/%s' % '-'.join(f), free_history(f, 3 if not full else 4), max_paths=2000, max_time=10))
    out += [S('race/%s' % k, race(k), max_time=10) for k in ('same-handle', 'two-handles', 'register', 'task')]
    return out
