"""C09 Delivery on the worker threads, exactly once; flush drains; refused after closing."""
from lib import *
import c08

RULES = {
    'C09.thread': 'no conversion and no request of a snapshot runs on the thread that hands it over',
    'C09.waits': 'handing over does not wait for a delivery',
    'C09.once': 'each accepted snapshot is converted and sent exactly once',
    'C09.contained': 'an error of a conversion, a request, the logging or the callback stays in its task: nobody else sees it',
    'C09.flush-drains': 'when flush returns, every task that was accepted has finished',
    'C09.flush-returns': 'flush returns normally whatever the tasks do',
    'C09.refused': 'a task given after closing raises an error at once, and is never run',
    'C09.accepted': 'a task that is accepted while another thread closes is finished, or it is refused',
    'deadlock': 'no thread waits for a lock that is held by one which waits for it',
}
EXPLANATION = ('All orders of hand over, execution and flush for up to three snapshots and tasks, all subsets of failing tasks, and every interleaving of one '
               'whole operation of another thread at any access to shared state of submit and flush.')


class Watch:
    """The threads of the conversion."""

    def __init__(self, it, app=('main', 't2')):
        self.it, self.app = it, app
        es = it.public('deep.api.tracepoint', 'EventSnapshot')
        msg = it.public('deepproto.proto.tracepoint.v1.tracepoint_pb2', 'Snapshot')
        self.made = []
        init = it.find_cls_attr(msg, '__init__')

        def entry(i, fn):
            if fn is init:
                self_ = i.stack[-1].env.vars.get('self')
                if isinstance(self_, RObj) and self_.cls is msg:
                    self.made.append((i.thread, i.site()))
        it.entry_hook = entry

    def done(self):
        it = self.it
        for t, site in self.made:
            it.check(t not in self.app, 'C09.thread', 'a snapshot is converted on the application thread', site)
        for e in it.events:
            if e.kind == 'boundary' and e.name in ('send', 'poll', 'provide'):
                it.check(e.thread not in self.app, 'C09.thread', '%s is called on the application thread' % e.name, e.site)
            if e.kind == 'wait' or (e.kind == 'task' and e.name == 'wait'):
                it.check(e.thread not in self.app, 'C09.waits', 'the application thread waits (%s)' % e.name, e.site)


def tp_id(it, m):
    return it.resolve(it.getattr(it.getattr(m, 'tracepoint'), 'ID'))


def snap(it, b, n):
    return b.snapshot([b.frame('f%d' % n, [b.varid('x', '1')])], {'1': b.variable('v%d' % n)}, tp=it.new(
        it.public('deep.api.tracepoint', 'TracePointConfig'), 'tp%d' % n, 'p', n, {}, [], []))


def bad_snap(it, b, n, how):
    """One that cannot be converted."""
    s = snap(it, b, n)
    if how == 'frame':
        it.m(it.get(s, 'frames'), 'append', None)
    elif how == 'entry':
        it.setitem(it.get(s, 'var_lookup'), 7, it.new(b.es['Variable'], 't', 'v', 12345, [], False))
    elif how == 'attr':
        it.setattr(s, '_attributes', None)
    return s


def sent_ids(it):
    return [tp_id(it, e.args[0]) for e in it.boundary('send')]


def push_all(n, bad=(), how='frame', fails=(), exc='RuntimeError', logs=False):
    """n snapshots handed over by the application, with the worker threads running at any time."""
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        c, g, th, push = c08.service(it)
        w = Watch(it)
        b = c08.Build(it)
        ok, failed = [], []

        def hook(i, kind, args, kw):
            if kind == 'send':
                t = tp_id(i, args[0])
                if t in ['tp%d' % x for x in fails]:
                    failed.append(t)
                    ec = it.mod('grpc')['RpcError'] if exc == 'RpcError' else getattr(__import__('builtins'), exc)
                    raise PyExc(it.new(ec, 'down') if isinstance(ec, RClass) else ec('down'), i.site())
                ok.append(t)
        it.boundary_hook = hook
        if logs:
            def lh(i, name, level, msg, args, kw):
                if level in ('ERROR', 'error', 40, 'EXCEPTION', 'exception', 'CRITICAL'):
                    i.throw(RuntimeError, 'logging fails')
            it.log_hook = lh
        for k in range(n):
            s = bad_snap(it, b, k, how) if k in bad else snap(it, b, k)
            v, e = it.attempt(it.m, push, 'push_snapshot', s)
            it.check(e is None, 'C09.contained', 'push_snapshot raises %s' % (exc_name(e) if e else ''), e.site if e else None)
            if it.tasks and it.choose(2, 'run'):
                run_task(it, it.tasks[it.choose(len(it.tasks), 'task')])
        run_tasks(it, any_order=True)
        for k in range(n):
            t = 'tp%d' % k
            if k in bad:
                it.check(ok.count(t) <= 1, 'C09.once', '%s is sent %d times' % (t, ok.count(t)))
            elif k in fails:
                it.check(t in failed, 'C09.once', '%s is not tried' % t)
            else:
                it.check(ok.count(t) == 1, 'C09.once', '%s is sent %d times' % (t, ok.count(t)))
                it.witness.add('sent')
        w.done()
    return fn


def hits(it):
    """From the trace events of two threads: nothing is converted there."""
    at_time(it, it.intsym('now', 10 ** 15))
    c, g, th, push = c08.service(it)
    w = Watch(it)
    hd = it.new(it.public('deep.processor.trigger_handler', 'TriggerHandler'), c, push)
    args = {'fire_period': '0', 'fire_count': '-1'}
    it.install(hd, [it.trigger('tpa', 'target.py', 10, args), it.trigger('tpb', 'target.py', 10, args)])
    for t in ('main', 't2', 'main'):
        f = it.frame('f' + t + str(len(it.events)), filename='/app/src/target.py', line=10, flocals={})
        Prog(it, None, thread=t).deliver(it.get(hd, 'trace_call'), f, 'line', None)
        if it.choose(2, 'run'):
            run_tasks(it)
    run_tasks(it, any_order=False)
    got = sorted(sent_ids(it))
    it.check(got == ['tpa'] * 3 + ['tpb'] * 3, 'C09.once', 'sent: %s' % got)
    w.done()


# -------------------------------------------------------------------- tasks

def work(it, log, name, exc=None, then=None):
    def run(i, a, k):
        log.append(name)
        if then is not None:
            then(i)
        if exc is not None:
            raise PyExc(exc('task ' + name), i.site())
        return name
    return Native('task_' + name, run)


EXCS = [None, RuntimeError, SystemExit, KeyboardInterrupt, GeneratorExit]


def flush(it, th, rule='C09.flush-returns'):
    v, e = it.attempt(it.m, th, 'flush')
    it.check(e is None, rule, 'flush raises %s' % (exc_name(e) if e else ''), e.site if e else None)


def refused(it, th, log, rule='C09.refused'):
    n = len(it.tasks)
    v, e = it.attempt(it.m, th, 'submit_task', work(it, log, 'late'))
    it.check(e is not None, rule, 'a task given after closing is not refused')
    run_tasks(it)
    it.check('late' not in log, rule, 'a refused task is run')


def tasks(n, logs=False):
    """n tasks, failing or not, run before or during flush."""
    def fn(it):
        th = it.new(it.public('deep.task', 'TaskHandler'))
        if logs:
            it.log_hook = lambda i, *a: i.throw(RuntimeError, 'logging fails')
        log = []
        for k in range(n):
            it.m(th, 'submit_task', work(it, log, 't%d' % k, EXCS[it.choose(len(EXCS), 'exc')]))
            if it.tasks and it.choose(2, 'run'):
                run_task(it, it.tasks[it.choose(len(it.tasks), 'task')])
        flush(it, th)
        it.check(sorted(log) == ['t%d' % k for k in range(n)], 'C09.flush-drains', 'after flush %s of %d tasks have run' % (log, n))
        it.check(not it.tasks, 'C09.flush-drains', 'tasks are left after flush')
        refused(it, th, log)
        if it.choose(2, 'again'):
            flush(it, th)
            refused(it, th, log)
        it.witness.add('flushed')
    return fn


def returns(it):
    """submit_task gives something to wait for, with the result of the task."""
    th = it.new(it.public('deep.task', 'TaskHandler'))
    log = []
    got = []
    f = it.m(th, 'submit_task', Native('t', lambda i, a, k: (log.append((list(a), dict(k))), 42)[1]), 'a', 2)
    it.m(f, 'add_done_callback', Native('cb', lambda i, a, k: got.append(a[0])))
    run_tasks(it)
    it.check(log == [(['a', 2], {})], 'C09.once', 'the task is called with %s' % show(log))
    it.check(len(got) == 1 and it.m(f, 'result') == 42, 'C09.once', 'the future is not completed')


def callbacks_fail(it):
    """A callback on one future fails: the others and flush are not affected."""
    th = it.new(it.public('deep.task', 'TaskHandler'))
    log = []
    for k in range(2):
        f = it.m(th, 'submit_task', work(it, log, 't%d' % k))
        if k == 0:
            it.m(f, 'add_done_callback', Native('cb', lambda i, a, kw: i.throw(RuntimeError, 'callback')))
    flush(it, th)
    it.check(len(log) == 2, 'C09.flush-drains', 'after flush %s have run' % log)


def submits_in_task(depth):
    """A task submits another task, also while flush waits."""
    def fn(it):
        th = it.new(it.public('deep.task', 'TaskHandler'))
        log, acc = [], []

        def more(n):
            def then(i):
                v, e = i.attempt(i.m, th, 'submit_task', work(i, log, 'in%d' % n, None, more(n + 1) if n < depth else None))
                if e is None:
                    acc.append('in%d' % n)
            return then
        it.m(th, 'submit_task', work(it, log, 'out', None, more(1)))
        acc.append('out')
        if it.choose(2, 'run'):
            run_tasks(it)
        flush(it, th)
        it.check(sorted(log) == sorted(acc), 'C09.accepted', 'accepted %s, finished when flush returns %s' % (acc, log))
        refused(it, th, log)
    return fn


def nested_submit(it):
    """A tracepoint in the code that submits (worker threads are traced): submit inside of submit, on the same thread."""
    th = it.new(it.public('deep.task', 'TaskHandler'))
    log = []
    st = {'in': False, 'done': False}

    tick = it.tick

    def line(node, fr):
        # trace events come between lines
        tick(node, fr)
        if st['in'] or st['done'] or it.thread != 'worker' or not fr.module.name.startswith(('deep', 'concurrent')):
            return
        if it.choose(2, 'nested') == 1:
            st['in'] = True
            st['done'] = True
            try:
                it.m(th, 'submit_task', work(it, log, 'inner'))
            finally:
                st['in'] = False
    it.thread = 'worker'
    it.tick = line
    it.m(th, 'submit_task', work(it, log, 'outer'))
    it.tick = tick
    it.thread = 'main'
    flush(it, th)
    want = ['inner', 'outer'] if st['done'] else ['outer']
    it.check(sorted(log) == want, 'C09.flush-drains', 'after flush %s have run, of %s' % (sorted(log), want))


def race_submit(before, after_run):
    """Two threads submit at the same time."""
    def fn(it):
        th = it.new(it.public('deep.task', 'TaskHandler'))
        log = []
        want = ['a', 'b']
        for k in range(before):
            it.m(th, 'submit_task', work(it, log, 'p%d' % k))
            want.append('p%d' % k)
        stop = interfere(it, lambda: it.m(th, 'submit_task', work(it, log, 'b')))
        it.m(th, 'submit_task', work(it, log, 'a'))
        st = stop()
        if not st['done']:
            want.remove('b')
        if after_run and it.tasks and it.choose(2, 'run'):
            run_task(it, it.tasks[it.choose(len(it.tasks), 'task')])
        flush(it, th)
        it.check(sorted(log) == sorted(want), 'C09.flush-drains', 'after flush %s have run, of %s (switch at %s)' % (sorted(log), sorted(want), st['site']), st['site'])
    return fn


def race_finish(n):
    """A task finishes at any time while another is submitted, or while flush works."""
    def fn(it):
        th = it.new(it.public('deep.task', 'TaskHandler'))
        log = []
        want = []
        for k in range(n):
            it.m(th, 'submit_task', work(it, log, 'p%d' % k, EXCS[it.choose(2, 'exc')]))
            want.append('p%d' % k)

        def finish():
            if not it.tasks:
                raise Pruned()
            run_task(it, it.tasks[it.choose(len(it.tasks), 'task')], 't2')
        stop = interfere(it, finish)
        if it.choose(2, 'op'):
            v, e = it.attempt(it.m, th, 'submit_task', work(it, log, 'x'))
            it.check(e is None, 'C09.contained', 'submit_task raises %s' % (exc_name(e) if e else ''), e.site if e else None)
            want.append('x')
            stop()
            flush(it, th)
        else:
            flush(it, th)
            stop()
        it.check(sorted(log) == sorted(want), 'C09.flush-drains', 'after flush %s have run, of %s' % (sorted(log), sorted(want)))
    return fn


def race_close(first, before=1):
    """flush and submit of two threads at the same time."""
    def fn(it):
        th = it.new(it.public('deep.task', 'TaskHandler'))
        log = []
        want = []
        for k in range(before):
            it.m(th, 'submit_task', work(it, log, 'p%d' % k))
            want.append('p%d' % k)
        st = {'acc': None, 'flushed': None}

        def sub():
            v, e = it.attempt(it.m, th, 'submit_task', work(it, log, 'x'))
            st['acc'] = e is None

        def fl():
            flush(it, th)
            st['flushed'] = sorted(log)
        a, b = (sub, fl) if first == 'submit' else (fl, sub)
        stop = interfere(it, b)
        a()
        s = stop()
        if st['flushed'] is None:
            fl()
        elif st['acc'] is None:
            return
        done = sorted(log)
        if st['acc']:
            want.append('x')
        it.check(set(want) - {'x'} <= set(st['flushed']), 'C09.flush-drains', 'flush returns when %s have run, of %s' % (st['flushed'], want), s['site'])
        it.check(done == sorted(want), 'C09.accepted', 'accepted %s, finished %s when submit and flush have returned (switch at %s)' % (want, done, s['site']), s['site'])
        run_tasks(it)
        it.check(sorted(log) == sorted(want), 'C09.refused', 'a refused task is run')
    return fn


def push_after_close(it):
    """A snapshot that is handed over after closing: refused with an error or a log line, and never sent."""
    at_time(it, it.intsym('now', 10 ** 15))
    c, g, th, push = c08.service(it)
    b = c08.Build(it)
    it.m(push, 'push_snapshot', snap(it, b, 0))
    flush(it, th)
    it.check(sent_ids(it) == ['tp0'], 'C09.flush-drains', 'sent %s' % sent_ids(it))
    n = len(it.events)
    v, e = it.attempt(it.m, push, 'push_snapshot', snap(it, b, 1))
    seen = [x for x in it.events[n:] if x.kind == 'log']
    it.check(e is not None or seen, 'C09.refused', 'the snapshot is dropped silently')
    run_tasks(it)
    it.check(sent_ids(it) == ['tp0'], 'C09.refused', 'a refused snapshot is sent')


def hit_after_close(it):
    """The trace function after closing: contained, and visible in the log."""
    at_time(it, it.intsym('now', 10 ** 15))
    c, g, th, push = c08.service(it)
    hd = it.new(it.public('deep.processor.trigger_handler', 'TriggerHandler'), c, push)
    it.install(hd, [it.trigger('tpa', 'target.py', 10, {'fire_period': '0', 'fire_count': '-1'})])
    flush(it, th)
    n = len(it.events)
    f = it.frame('f', filename='/app/src/target.py', line=10, flocals={})
    Prog(it, it.get(hd, 'trace_call')).deliver(it.get(hd, 'trace_call'), f, 'line', None)
    seen = [x for x in it.events[n:] if x.kind == 'log' and x.args[0] not in ('DEBUG', 'debug', 10)]
    it.check(len(seen) > 0, 'C09.refused', 'the snapshot is dropped silently')


def big_backlog(it):
    """Many tasks wait: none is lost."""
    th = it.new(it.public('deep.task', 'TaskHandler'))
    log = []
    for k in range(40):
        it.m(th, 'submit_task', work(it, log, 't%02d' % k, RuntimeError if k % 7 == 3 else None))
    flush(it, th)
    it.check(sorted(log) == ['t%02d' % k for k in range(40)], 'C09.flush-drains', 'after flush %d of 40 have run' % len(log))


def big_push(it):
    """Many snapshots wait: each is sent."""
    at_time(it, it.intsym('now', 10 ** 15))
    c, g, th, push = c08.service(it)
    b = c08.Build(it)
    for k in range(30):
        it.m(push, 'push_snapshot', snap(it, b, k))
    flush(it, th)
    got = sent_ids(it)
    it.check(sorted(got) == sorted('tp%d' % k for k in range(30)), 'C09.once', '%d of 30 are sent' % len(got))


def race_push(where):
    """Two snapshots of two threads: handed over at the same time, or delivered by the two workers at the same time."""
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        c, g, th, push = c08.service(it)
        b = c08.Build(it)
        s1, s2 = snap(it, b, 1), snap(it, b, 2)
        if where == 'first':
            # no delivery before
            pass
        else:
            it.m(push, 'push_snapshot', snap(it, b, 0))
            run_tasks(it)
        if where == 'submit':
            stop = interfere(it, lambda: it.m(push, 'push_snapshot', s2))
            it.m(push, 'push_snapshot', s1)
            st = stop()
            if not st['done']:
                it.m(push, 'push_snapshot', s2)
            run_tasks(it, any_order=True)
        else:
            it.m(push, 'push_snapshot', s1)
            it.m(push, 'push_snapshot', s2)
            a = it.tasks[0]

            def other():
                rest = [t for t in it.tasks if t is not a]
                if not rest:
                    raise Pruned()
                run_task(it, rest[0], 't2')
            it.thread = 'worker'
            stop = interfere(it, other)
            run_task(it, a)
            st = stop()
            it.thread = 'main'
            run_tasks(it)
        got = [x for x in sent_ids(it) if x != 'tp0']
        it.check(sorted(got) == ['tp1', 'tp2'], 'C09.once', 'sent %s (switch at %s)' % (got, st['site']), st['site'])
    return fn


def same_twice(it):
    """The same snapshot object handed over twice is two deliveries; equal ids of tracepoints are no reason to drop."""
    at_time(it, it.intsym('now', 10 ** 15))
    c, g, th, push = c08.service(it)
    b = c08.Build(it)
    for k in range(3):
        it.m(push, 'push_snapshot', snap(it, b, 0))
    run_tasks(it)
    it.check(sent_ids(it) == ['tp0'] * 3, 'C09.once', 'sent %s of three' % sent_ids(it))


def scenarios(tier):
    out = [S('push/%d' % n, push_all(n), max_time=20) for n in (1, 2, 3)]
    for how in ('frame', 'entry', 'attr'):
        out += [S('push/bad-%s-%s' % (how, '_'.join(map(str, x))), push_all(3, x, how), max_time=20) for x in ((0,), (1,), (0, 1), (0, 1, 2))]
    for e in ('RuntimeError', 'RpcError', 'SystemExit', 'KeyboardInterrupt'):
        out += [S('push/fails-%s-%s' % (e, '_'.join(map(str, x))), push_all(3, (), '', x, e), max_time=20) for x in ((0,), (1, 2), (0, 1, 2))]
    out += [S('push/fails-logging', push_all(2, (), '', (0,), 'RuntimeError', True)), S('push/bad-logging', push_all(2, (0,), 'frame', (), logs=True))]
    out += [S('hits', hits), S('push/after-close', push_after_close), S('push/hit-after-close', hit_after_close), S('push/backlog', big_push), S('push/same', same_twice)]
    out += [S('tasks/%d' % n, tasks(n), max_time=30) for n in (0, 1, 2)] + [S('tasks/logging-fails', tasks(2, True), max_time=20)]
    if tier != 'quick':
        out.append(S('tasks/3', tasks(3), max_paths=4000, max_time=60))
    out += [S('tasks/returns', returns), S('tasks/callbacks-fail', callbacks_fail), S('tasks/backlog', big_backlog)]
    out += [S('tasks/nested-%d' % n, submits_in_task(n)) for n in (1, 2, 3)] + [S('tasks/reentrant', nested_submit)]
    out += [S('race/submit-%d-%s' % (n, r), race_submit(n, r)) for n in (0, 1, 2) for r in (False, True)]
    out += [S('race/finish-%d' % n, race_finish(n)) for n in (1, 2, 3)]
    out += [S('race/push-%s' % w, race_push(w), max_time=20) for w in ('submit', 'first', 'deliver')]
    out += [S('race/close-%s-%d' % (f, n), race_close(f, n)) for f in ('submit', 'flush') for n in (0, 1, 2)]
    return out
