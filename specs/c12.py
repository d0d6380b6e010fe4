"""C12 What the agent acts on converges to the service's latest configuration plus the registrations in code."""
from lib import *
from rig import Rig

RULES = {
    'C12.converges': 'when all tasks have run: exactly the latest configuration of the service and the current registrations act',
    'C12.hash': 'each poll request has the hash of the latest configuration that was received (none before the first)',
    'C12.no-change': 'a no change answer alters neither the tracepoints nor the hash',
    'C12.failed-poll': 'after a poll that fails or cannot be understood the last good configuration and its hash are in force, and polling continues',
    'C12.hit': 'a hit during a change sees the old or the new configuration, whole',
}
EXPLANATION = ('Histories of poll responses (update, the same hash again, empty, no change, error, unknown type, no message), registrations and removals, '
               'with the tasks that apply them run at any point and in any order; each task, poll, registration or hit preempted by another action at any access to shared state.')

MS = 10 ** 6
T0 = 10 ** 18
MANY = {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'no_frame'}
# the versions of the configuration: name of the watch -> (id, line)
VERSIONS = {
    'A': {'a1': ('t1', 10), 'a2': ('t2', 11)},
    'B': {'b1': ('t1', 10), 'b3': ('t3', 10)},
    'C': {'c4': ('t4', 11)},
    'E': {},
}


class World(Rig):
    def __init__(self, it):
        Rig.__init__(self, it, plugins=False)
        self.svc = []            # watches of the latest configuration
        self.hash = ''
        self.codes = []          # (watch, registration)
        self.n = 0
        self.runs = 0

    def msg(self, v, hash_):
        return self.update([self.tp(i, MANY, [w], line=ln) for w, (i, ln) in VERSIONS[v].items()], hash_, ts=1000 - self.n)      # the clock of the service can be set back

    # every operation, with what it means
    def op(self, name):
        it = self.it
        self.n += 1
        k = len(self.requests)
        if name in VERSIONS:
            h = 'h%d' % self.n
            e = self.poll(self.msg(name, h))
            it.check(e is None, 'C12.converges', 'an update is refused: %s' % (exc_name(e) if e else ''), e.site if e else None)
            self.asked(k)
            self.svc, self.hash = sorted(VERSIONS[name]), h
        elif name == 'same-hash':
            self.poll(self.msg('C', self.hash))
            self.asked(k)
            self.svc = sorted(VERSIONS['C'])
        elif name == 'no-change':
            self.poll(self.no_change(self.hash))
            self.asked(k)
        elif name == 'no-change-odd':
            self.poll(self.no_change('other', tps=[self.tp('t9', MANY, ['x9'])]))
            self.asked(k)
        elif name.startswith('error'):
            exc = {'error': it.hooked_exc('RpcError') if hasattr(it, 'hooked_exc') else RuntimeError('unavailable'), 'error-value': ValueError('bad frame')}[name]
            self.poll(PyExc(exc))
            self.asked(k)
        elif name == 'unknown':
            self.poll(it.new(it.public('deepproto.proto.poll.v1.poll_pb2', 'PollResponse'), ts_nanos=5, current_hash='zz',
                             response=[self.tp('t8', MANY, ['x8'])], response_type=7))
            self.asked(k)
        elif name == 'nothing':
            self.poll(None)
            self.asked(k)
        elif name == 'register':
            w = 'r%d' % self.n
            self.codes.append((w, self.register(dict(MANY), [w], [], line=10)))
        elif name in ('unregister', 'unregister-first'):
            if self.codes:
                w, h = self.codes.pop(0 if name == 'unregister-first' else -1)
                it.m(h, 'unregister')
        else:
            raise KeyError(name)

    def asked(self, k):
        it = self.it
        for q in self.requests[k:]:
            h = it.resolve(it.get(q, 'current_hash'))
            it.check(h == self.hash, 'C12.hash', 'the poll reports the hash %r, the latest configuration has %r' % (h, self.hash))

    def acting(self):
        """The watches of the snapshots of one run."""
        it = self.it
        self.runs += 1
        eff = self.run(T0 + self.runs * MS, extra=lambda f, name: f == 'target.py' and name == 'func', flocals={})
        return sorted(self.watches_of(e[3].args[0]) for e in eff if e[1] == 'push')

    def watches_of(self, snap):
        it = self.it
        return '+'.join(str(it.resolve(x)) for x in it.iterate(it.get(it.get(snap, 'tracepoint'), 'watches')))

    def want(self):
        return sorted(self.svc + [w for w, _ in self.codes])

    def settled(self, what, rule='C12.converges', any_order=True):
        it = self.it
        self.settle(any_order)
        got = self.acting()
        it.check(got == self.want(), rule, '%s: %s act, configured are %s' % (what, got, self.want()))


def evals(it):
    it.eval_hook = lambda i, name, expr, g, lo, scope: 1


OPS = ['A', 'B', 'E', 'same-hash', 'no-change', 'no-change-odd', 'error', 'unknown', 'nothing', 'register', 'unregister', 'unregister-first', 'error-value']


CHANGING = ('A', 'B', 'E', 'same-hash', 'register', 'unregister')


def rule_of(op):
    return 'C12.no-change' if op.startswith('no-change') else 'C12.failed-poll' if op.startswith(('error', 'unknown', 'nothing')) else 'C12.converges'


def history(first, rest, settle_each=True):
    """These operations first; then one of each set in rest."""
    def fn(it):
        evals(it)
        w = World(it)
        done = []
        for o in list(first) + list(rest):
            if isinstance(o, (list, tuple)):
                o = o[it.choose(len(o), 'op')]
            done.append(o)
            w.op(o)
            if settle_each and it.choose(2, 'settle') == 1:
                w.settled(' '.join(done), rule_of(o))
        w.settled(' '.join(done), rule_of(done[-1]))
        # the next poll
        w.op('no-change')
        w.settled(' '.join(done) + ' and a poll', rule_of(done[-1]))
    return fn


def long_history(ops):
    """A long one, settled in any order at the end, and at some points."""
    def fn(it):
        evals(it)
        w = World(it)
        for k, o in enumerate(ops):
            w.op(o)
            if it.tasks and it.choose(2, 'run-one') == 1:
                run_task(it, it.tasks[it.choose(len(it.tasks), 'which')])
        w.settled(' '.join(ops))
        w.op('no-change')
    return fn


def race(setup, one, two, tasks=True):
    """The operation or task `one` of one thread is preempted, at any access to shared state, by all of `two`."""
    def fn(it):
        evals(it)
        w = World(it)
        for o in setup:
            w.op(o)
        w.settled('before', any_order=False)

        def act(kind, thread):
            def go():
                if kind == 'task':
                    if it.tasks:
                        run_task(it, it.tasks[0], thread)
                elif kind == 'tasks':
                    run_tasks(it, thread=thread)
                elif kind.endswith('+tasks'):
                    w.op(kind[:-6])
                    run_tasks(it, thread=thread)
                elif kind.endswith('*'):
                    w.op(kind[:-1])
                    w.op('E')
                else:
                    w.op(kind)
            return go
        if one == 'task':
            w.op(two[0])
            a = it.tasks[0] if it.tasks else None
            if a is None:
                raise Pruned()
            first = lambda: run_task(it, a, 't1')                      # noqa: E731
            seq = two[1:]
        else:
            first = act(one, 't1')
            seq = two

        def other():
            for x in seq:
                act(x, 't2')()
        it.thread = 't1'
        stop = interfere(it, other)
        # the model changes when the operation does: both orders lead to the same set, but for the updates of one thread
        first()
        st = stop()
        it.thread = 'main'
        if not st['done']:
            other()
        w.settled('%s with %s in between (at %s)' % (one, '+'.join(two), st['site']))
        w.op('no-change')
    return fn


def hit_race(setup, op):
    """A hit on the main thread while the configuration changes: sees one of the two, whole."""
    def fn(it):
        evals(it)
        w = World(it)
        for o in setup:
            w.op(o)
        w.settled('before', any_order=False)
        before = [x for x in w.want()]

        def other():
            w.op(op)
            run_tasks(it, thread='t2')
        it.thread = 'main'
        at_time(it, T0 + 500 * MS)
        p = Prog(it, it.get(w.hd, 'trace_call'))
        f = it.frame('hit', filename='/app/src/target.py', name='func', line=9, first=9, lines=[9, 10, 11, 12], flocals={})
        n0 = len(it.events)
        p.call(f, 9)
        stop = interfere(it, other)
        p.line(f, 10)
        st = stop()
        if not st['done']:
            other()
        it.thread = 'main'
        got = sorted(w.watches_of(e.args[0]) for e in it.events[n0:] if e.kind == 'boundary' and e.name == 'push')
        line10 = {x for v in VERSIONS.values() for x, (i, ln) in v.items() if ln == 10}
        olds = sorted(x for x in before if x in line10 or x.startswith('r'))
        news = sorted(x for x in w.want() if x in line10 or x.startswith('r'))
        it.check(got in (olds, news), 'C12.hit', 'a hit during %s sees %s; before: %s, after: %s (at %s)' % (op, got, olds, news, st['site']), st['site'])
        w.settled('after the hit')
    return fn


def timer(kinds):
    """The poll loop of the agent's own thread with these answers, one after the other."""
    def fn(it):
        evals(it)
        w = World(it)
        answers = list(kinds)
        waits = []

        def hook(i, kind, args, kw):
            if kind != 'poll':
                return None
            w.n += 1
            k = len(w.requests)
            w.requests.append(args[0])
            w.asked(k)
            a = answers[len(w.requests) - 1] if len(w.requests) <= len(answers) else 'no-change'
            if a in VERSIONS:
                w.svc, w.hash = sorted(VERSIONS[a]), 'h%d' % w.n
                return w.msg(a, w.hash)
            if a == 'error':
                raise PyExc(RuntimeError('unavailable'), i.site())
            if a == 'exit':
                raise PyExc(SystemExit(1), i.site())
            if a == 'nothing':
                return None
            if a == 'unknown':
                return i.new(i.public('deepproto.proto.poll.v1.poll_pb2', 'PollResponse'), ts_nanos=5, current_hash='zz', response=[], response_type=9)
            return w.no_change(w.hash)
        it.boundary_hook = hook

        def wait(i, ev, timeout=None):
            waits.append(timeout)
            if len(w.requests) > len(answers) + 1 or len(waits) > 12:
                i.setattr(ev, '_flag', True)
                return True
            return False
        it.wait_hook = wait
        it.can_fault = None
        v, e = it.attempt(it.m, it.get(w.deep, 'poll'), 'start')
        it.check(e is None, 'C12.failed-poll', 'start of the polling raises %s' % (exc_name(e) if e else ''), e.site if e else None)
        it.check(len(it.spawned) >= 1, 'C12.failed-poll', 'no poll thread is started')
        old, it.thread = it.thread, 'poll'
        v, e = it.attempt(it.m, it.spawned[0], 'run')
        it.thread = old
        it.check(e is None, 'C12.failed-poll', 'the poll loop ends with %s after %s' % (exc_name(e) if e else '', kinds), e.site if e else None)
        it.check(len(w.requests) > len(answers), 'C12.failed-poll', '%d polls for the answers %s: polling does not continue' % (len(w.requests), kinds))
        for t in waits:
            t = it.resolve(t)
            it.check(t is not None, 'C12.failed-poll', 'the poll loop waits without a timeout')
        w.settled('polls %s' % ' '.join(kinds))
    return fn


def scenarios(tier):
    out = []
    full = tier != 'quick'
    for a in OPS:
        for b in OPS if full else [x for x in OPS if a in CHANGING or x in CHANGING]:
            out.append(S('history/%s-%s' % (a, b), history(['A', a], [b]), max_time=20))
        out.append(S('three/%s' % a, history([a], [OPS, OPS], settle_each=full), max_paths=800, max_time=5))
        out.append(S('after/%s' % a, history(['A', 'register', a], [OPS], settle_each=True), max_paths=800, max_time=5))
    longs = ['A B error no-change', 'A register B unregister', 'register A register B unregister-first unregister', 'A B A B', 'A unknown B nothing E',
             'register register unregister A error B', 'A E A no-change-odd', 'A B E B error', 'register unregister register A', 'same-hash A same-hash',
             'A register error unregister B no-change A', 'error error A nothing nothing B']
    for k, l in enumerate(longs):
        out.append(S('long/%s' % l.replace(' ', '-'), long_history(l.split()), max_paths=800, max_time=5))
    changes = ['A', 'B', 'E', 'register', 'unregister']
    for s in ([], ['A', 'register']):
        n = '-'.join(s) or 'empty'
        for one in changes:
            for two in changes:
                if one in VERSIONS and two in VERSIONS:
                    continue          # there is one poll thread
                if not s and 'unregister' in (one, two):
                    continue
                out.append(S('race/%s-%s-by-%s' % (n, one, two), race(s, one, [two]), max_time=10))
                out.append(S('race/%s-%s-by-%s-tasks' % (n, one, two), race(s, one, [two + '+tasks']), max_time=10))
        for two in (['B', 'A', 'task'], ['B', 'E', 'tasks'], ['B', 'register', 'tasks'], ['register', 'unregister', 'tasks'], ['register', 'B', 'task'], ['A', 'unregister', 'task'],
                    ['unregister', 'A', 'B', 'tasks'], ['B', 'A', 'task', 'E'], ['register', 'register', 'task', 'unregister']):
            if s or two[0] != 'unregister':
                out.append(S('race/%s-task-by-%s' % (n, '-'.join(two)), race(s, 'task', two), max_time=20))
    for s in (['A'], ['A', 'register'], ['register']):
        for op in ('B', 'E', 'register', 'unregister', 'no-change', 'error', 'nothing'):
            out.append(S('hit/%s-%s' % ('-'.join(s), op), hit_race(s, op), max_time=3))
    for ks in (['error', 'A'], ['A', 'error', 'B'], ['error', 'error', 'error', 'A'], ['nothing', 'A'], ['A', 'unknown', 'no-change'], ['A', 'nothing', 'error', 'unknown'],
               ['A', 'exit', 'B'], ['no-change', 'A', 'no-change', 'E']):
        out.append(S('timer/%s' % '-'.join(ks), timer(ks)))
    return out
