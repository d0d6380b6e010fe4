"""C14 The trace hooks are installed once and restored exactly; shutdown always completes."""
from lib import *
from rig import Rig

RULES = {
    'C14.installed': 'start sets the trace function of the agent for this thread and for new threads',
    'C14.once': 'start of an agent that is started does nothing',
    'C14.untouched': 'with tracing disabled no trace function is ever set',
    'C14.restored': 'after shutdown the trace functions are those from before start',
    'C14.completes': 'shutdown raises nothing, whatever fails in it, and the agent is stopped',
    'C14.plugins': 'shutdown calls the shutdown of each plugin, once',
    'C14.drained': 'each snapshot that was handed over before is sent (or its send has failed) when shutdown returns',
    'C14.polling': 'no poll after shutdown',
    'C14.no-action': 'no action of the agent after shutdown: no snapshot, log, metric or span',
}
EXPLANATION = ('Sequences of start and shutdown of the Deep object with each kind of earlier trace function, tracing enabled or disabled, any subset of sends, polls and plugin shutdowns '
               'failing with ordinary and with exiting exceptions; hits, timers and tasks after the shutdown.')

MS = 10 ** 6
T0 = 10 ** 18

PLUG = '''
from deep.api.plugin import Plugin, TracepointLogger
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import SpanProcessor, Span
import _absint


class P1(Plugin):
    def shutdown(self):
        _absint.boundary('plugin.shutdown', 'P1')


class P2(TracepointLogger):
    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        _absint.boundary('tplog', 'P2', log_msg, tp_id, ctx_id)

    def shutdown(self):
        _absint.boundary('plugin.shutdown', 'P2')


class P3(MetricProcessor):
    def counter(self, name, labels, namespace, help_string, unit, value):
        _absint.boundary('metric', 'P3', 'counter', name, labels, namespace, help_string, unit, value)
    gauge = histogram = summary = counter

    def clear(self):
        pass

    def shutdown(self):
        _absint.boundary('plugin.shutdown', 'P3')


class S(Span):
    name = trace_id = span_id = 'x'

    def add_attribute(self, key, value):
        pass

    def add_event(self, name, attributes=None):
        pass

    def close(self):
        _absint.boundary('span.close', 'P4')


class P4(SpanProcessor):
    def create_span(self, name, context_id, tracepoint_id):
        _absint.boundary('span.create', 'P4', name, context_id, tracepoint_id)
        return S()

    def current_span(self):
        return None

    def shutdown(self):
        _absint.boundary('plugin.shutdown', 'P4')


class Off(P1):
    def is_active(self):
        return False

    def shutdown(self):
        _absint.boundary('plugin.shutdown', 'Off')
'''
ACTIONS = ('push', 'send', 'tplog', 'metric', 'span.create', 'poll', 'decorate', 'provide')
NAMES = ['P1', 'P2', 'P3', 'P4']


class Life(Rig):
    """The agent with its own start and shutdown."""

    def __init__(self, it, conf=None, plugins=NAMES, faults=()):
        self.it = it
        self.faults = {}          # boundary event -> exception
        self.requests, self.next = [], None
        if 'plugmod' not in it.modules:
            it.missing_modules.update({'opentelemetry', 'prometheus_client'})
            it.load_source('plugmod', PLUG)
        c = {'SERVICE_URL': 'h:1', 'SERVICE_SECURE': 'False', 'APP_ROOT': '/app', 'PLUGINS': ['plugmod.' + p for p in plugins]}
        c.update(conf or {})
        at_time(it, T0)
        self.plugins = [p for p in plugins if p != 'Off']
        self.config = it.new(it.public('deep.config', 'ConfigService'), c)
        self.deep = it.new(it.public('deep.api', 'Deep'), self.config)
        self.hd = it.get(self.deep, 'trigger_handler')
        self.tasks = it.get(self.deep, 'task_handler')
        self.fail = None
        self.pushed_before = 0
        it.boundary_hook = self.hook
        it.eval_hook = lambda i, name, expr, g, lo, scope: True

    def hook(self, i, kind, args, kw):
        if self.fail:
            e = self.fail(kind, args)
            if e is not None:
                raise PyExc(e, i.site())
        if kind == 'poll':
            self.requests.append(args[0])
            return self.next if self.next is not None else self.no_change()
        return None

    def start(self):
        it = self.it
        v, e = it.attempt(it.m, self.deep, 'start')
        it.check(e is None, 'C14.completes', 'start raises %s' % (exc_name(e) if e else ''), e.site if e else None)

    def shutdown(self):
        it = self.it
        v, e = it.attempt(it.m, self.deep, 'shutdown')
        it.check(e is None, 'C14.completes', 'shutdown raises %s' % (exc_name(e) if e else ''), e.site if e else None)

    def hooks(self, thread='main'):
        it = self.it
        return it.hooks.get(('sys', thread)), it.hooks.get(('threading', '*'))

    def set_hooks(self, a, b, thread='main'):
        it = self.it
        it.hooks[('sys', thread)] = a
        it.hooks[('threading', '*')] = b

    def restored(self, before, what):
        it = self.it
        for n, a, b in zip(('sys', 'threading'), before, self.hooks()):
            it.check(same_hook(a, b), 'C14.restored', '%s: the %s trace function is %s, before start it was %s' % (what, n, short(b), short(a)))

    def installed(self, what):
        it = self.it
        for n, b in zip(('sys', 'threading'), self.hooks()):
            it.check(b is not None and not isinstance(b, HostVal), 'C14.installed', '%s: the %s trace function is %s' % (what, n, short(b)))

    def sets(self, n0):
        return [e for e in self.it.events[n0:] if e.kind == 'hook' and not e.name.endswith('gettrace')]

    def actions(self, n0):
        return [e for e in self.it.events[n0:] if e.kind == 'boundary' and e.name in ACTIONS]

    def configure(self, tps):
        e = self.poll(self.update(tps, 'h1'))
        self.settle()
        self.next = None

    def everything(self):
        """Tracepoints with each action."""
        on = {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'no_frame'}
        return [self.tp('t1', dict(on, log_msg='text', span='line'), ['w'], [self.metric('m')]), self.tp('t2', dict(on, stage='method_capture', method_name='func', span='method')),
                self.tp('t3', dict(on, stage='line_capture'), line=11)]

    def go(self, fn, thread='main', label='f', start=True, end=True, f=None):
        """func, traced by this function (the one of the thread). Returns (frame, prog)."""
        it = self.it
        p = Prog(it, fn, thread=thread)
        if f is None:
            f = it.frame(label, filename='/app/src/target.py', name='func', line=9, first=9, lines=[9, 10, 11, 12], flocals={})
        p.call(f, 9)
        p.line(f, 10)
        p.line(f, 11)
        if end:
            p.line(f, 12)
            p.ret(f, None, 12)
        return f, p


def same_hook(a, b):
    return a is b or (not isinstance(a, HostVal) and a == b and type(a) is type(b))


def short(x):
    return 'none' if x is None else getattr(x, 'label', None) or 'one of the agent'


def host_hook(it, name, kind):
    """A trace function of the program (a debugger, a coverage tool)."""
    if kind == 'none':
        return None
    h = HostVal(name, it.hclass(name, 'Tracer'), None, {}, {'truthy'} if kind == 'plain' else set())
    if kind == 'falsy':
        h.traits.add('falsy')
    return h


def sequence(ops, sysk, thrk, conf=None, traced=True):
    """Starts and shutdowns; '=' sets other trace functions."""
    def fn(it):
        r = Life(it, conf)
        first = (host_hook(it, 'sys-hook', sysk), host_hook(it, 'thread-hook', thrk))
        r.set_hooks(*first)
        before = first
        up = False
        k = 0
        for o in ops:
            n0 = len(it.events)
            spawned = len(it.spawned)
            if o == 'start':
                if not up:
                    before = r.hooks()
                was = r.hooks()
                r.start()
                if up:
                    it.check(not r.sets(n0), 'C14.once', 'a repeated start sets a trace function', r.sets(n0)[0].site if r.sets(n0) else None)
                    it.check(len(it.spawned) == spawned, 'C14.once', 'a repeated start starts %d thread(s)' % (len(it.spawned) - spawned))
                    it.check(not [e for e in it.events[n0:] if e.kind == 'boundary'], 'C14.once', 'a repeated start polls, or loads plugins')
                    it.check(r.hooks() == was, 'C14.once', 'a repeated start changes the trace functions')
                elif traced:
                    r.installed(' '.join(ops))
                up = True
            elif o == 'shutdown':
                was = r.hooks()
                r.shutdown()
                if up:
                    if traced:
                        r.restored(before, ' '.join(ops))
                    got = sorted(e.args[0] for e in it.events[n0:] if e.kind == 'boundary' and e.name == 'plugin.shutdown')
                    it.check(got == NAMES, 'C14.plugins', 'shutdown of the plugins %s, active are %s' % (got, NAMES))
                else:
                    it.check(not r.sets(n0) or all(same_hook(a, b) for a, b in zip(was, r.hooks())), 'C14.restored', 'a shutdown of an agent that is not started changes the trace functions to %s' % [short(x) for x in r.hooks()])
                up = False
                run_spawned(it, r, 'after %s' % ' '.join(ops))
            else:
                k += 1
                r.set_hooks(host_hook(it, 'other-sys-%d' % k, 'plain'), host_hook(it, 'other-thread-%d' % k, 'plain') if o == '=' else None)
            if not traced:
                s = r.sets(0)
                it.check(not s, 'C14.untouched', 'with tracing disabled, %s is called' % (s[0].name if s else ''), s[0].site if s else None)
    return fn


def run_spawned(it, r, what):
    """The threads of the agent, continued after the shutdown: they end, without an action."""
    k = len(r.requests)
    seen = [0]

    def wait(i, ev, timeout=None):
        seen[0] += 1
        if seen[0] > 4:
            return True
        return bool(it.resolve(i.getattr(ev, '_flag')))
    it.wait_hook = wait
    for t in it.spawned:
        old, it.thread = it.thread, 'poll'
        it.attempt(it.m, t, 'run')
        it.thread = old
        if seen[0] > 4:
            break
    it.wait_hook = None
    it.check(len(r.requests) == k and seen[0] <= 4, 'C14.polling', '%s: the poll thread goes on, %d polls' % (what, len(r.requests) - k))


def two_agents(order):
    def fn(it):
        a = Life(it, plugins=['P1'])
        before = (host_hook(it, 'sys-hook', 'plain'), None)
        a.set_hooks(*before)
        b = Life(it, plugins=['P2'])
        a.start()
        mid = a.hooks()
        b.start()
        if order == 'nested':
            b.shutdown()
            it.check(a.hooks() == mid, 'C14.restored', 'the inner agent does not restore the trace function of the outer one')
            a.shutdown()
            a.restored(before, 'nested agents')
        else:
            a.shutdown()
            a.restored(before, 'the first agent')
            b.shutdown()
            it.check(b.hooks() == mid, 'C14.restored', 'the second agent restores other trace functions')
    return fn


EXC = {'plain': RuntimeError, 'exit': SystemExit, 'interrupt': KeyboardInterrupt, 'os': OSError}


def failing(what, exc, conf=None):
    """Any subset of the plugins, sends or polls fails in the shutdown."""
    def fn(it):
        r = Life(it, conf)
        before = (host_hook(it, 'sys-hook', 'plain'), host_hook(it, 'thread-hook', 'plain'))
        r.set_hooks(*before)
        r.start()
        r.configure(r.everything())
        tr = it.hooks.get(('threading', '*'))
        traced = not conf
        if traced:
            r.go(tr, thread='app', label='one')
            n = len(it.tasks)
            it.check(n >= 3, 'C14.installed', '%d snapshots are handed over before the shutdown' % n)
        failed = []
        closing = [True]

        def fail(kind, args):
            if not closing[0]:
                return None
            key = 'plugin' if kind == 'plugin.shutdown' else kind
            if key in what and it.choose(2, 'fails:%s' % kind) == 1:
                failed.append((kind, args[0] if kind == 'plugin.shutdown' else ''))
                return EXC[exc]('failed')
            return None
        r.fail = fail
        n0 = len(it.events)

        # a poll that is under way when the polling stops
        polled = []

        def entry(i, f):
            if 'poll' in what and f.name == 'join' and not polled and i.thread == 'main':
                polled.append(1)
                r.next = r.update([r.tp('t9', {})], 'h9')
                old, i.thread = i.thread, 'poll'
                try:
                    i.attempt(i.m, i.get(r.deep, 'poll'), 'poll')
                finally:
                    i.thread = old
        it.entry_hook = entry if 'poll' in what else None
        r.shutdown()
        it.entry_hook = None
        closing[0] = False
        if traced:
            r.restored(before, 'with %s failing' % failed)
        else:
            s = r.sets(0)
            it.check(not s, 'C14.untouched', 'with tracing disabled, %s is called' % (s[0].name if s else ''), s[0].site if s else None)
        got = sorted(e.args[0] for e in it.events[n0:] if e.kind == 'boundary' and e.name == 'plugin.shutdown')
        it.check(got == NAMES, 'C14.plugins', 'with %s failing, the shutdown of the plugins %s is called, active are %s' % (failed, got, NAMES))
        if traced:
            sent = [e for e in it.events[n0:] if e.kind == 'boundary' and e.name == 'send']
            it.check(len(sent) == n and not it.tasks, 'C14.drained', 'with %s failing, %d sends of %d, %d tasks left' % (failed, len(sent), n, len(it.tasks)))
        it.check(it.resolve(it.get(r.deep, 'started')) is False, 'C14.completes', 'with %s failing, the agent is still started' % failed)
        r.fail = None
        quiet_after(it, r, tr, before, 'with %s failing' % failed)
    return fn


def quiet_after(it, r, tr, before, what, frames=()):
    """Whatever happens after the shutdown: no action of the agent."""
    n0 = len(it.events)
    run_spawned(it, r, what)
    if tr is not None and not isinstance(tr, HostVal):
        r.go(tr, thread='app', label='after-app')
        r.go(tr, thread='new', label='after-new')
    for f, p in frames:
        p.line(f, 12)
        p.ret(f, None, 12)
    run_tasks(it)
    acts = r.actions(n0)
    it.check(not acts, 'C14.no-action', '%s: %s after the shutdown' % (what, acts[0].name if acts else ''), acts[0].site if acts else None)
    for n, a, b in zip(('sys', 'threading'), before, r.hooks()):
        it.check(same_hook(a, b), 'C14.no-action', '%s: the %s trace function is changed after the shutdown' % (what, n))


def pending(it):
    """Functions with tracepoints are on the stack of two threads when the agent is shut down, and go on."""
    r = Life(it)
    before = (None, None)
    r.start()
    r.configure(r.everything())
    tr = r.hooks()[1]
    a = r.go(tr, thread='app', label='one', end=False)
    b = r.go(tr, thread='app2', label='two', end=False)
    r.shutdown()
    r.restored(before, 'with functions on the stack')
    quiet_after(it, r, tr, before, 'functions that were on the stack', [a, b])


def after_api(it):
    """Registrations, removals, polls and updates that arrive after the shutdown."""
    r = Life(it)
    r.start()
    r.configure(r.everything())
    tr = r.hooks()[1]
    h = r.register({'fire_count': '-1'}, ['w'], [])
    r.settle()
    r.shutdown()
    n0 = len(it.events)
    k = it.choose(3, 'what')
    if k == 0:
        it.attempt(it.m, h, 'unregister')
    elif k == 1:
        it.attempt(r.register, {'fire_count': '-1'}, ['v'], [])
    else:
        it.attempt(it.m, it.get(r.config, 'tracepoints'), 'update_new_config', 1, 'h', [])
    run_tasks(it)
    quiet_after(it, r, tr, (None, None), 'use of the agent')
    del n0


def first_fails(what, exc):
    """The service is not there: the agent starts, and stops, all the same."""
    def fn(it):
        r = Life(it)
        before = (host_hook(it, 'sys-hook', 'plain'), None)
        r.set_hooks(*before)
        r.fail = lambda kind, args: EXC[exc]('failed') if kind == what else None
        v, e = it.attempt(it.m, r.deep, 'start')
        if e is not None:
            # nothing is promised about the start itself; a shutdown has to do its part
            it.check(exc in ('exit', 'interrupt'), 'C14.completes', 'start raises %s' % exc_name(e), e.site)
            return
        r.installed('with a failing %s' % what)
        tr = r.hooks()[1]
        r.shutdown()
        r.restored(before, 'with a failing %s' % what)
        quiet_after(it, r, tr, before, 'with a failing %s' % what)
    return fn


def plugin_sets(it):
    """Only the active plugins are there to be shut down; each once, in two rounds as well."""
    r = Life(it, plugins=['P1', 'Off', 'P2', 'P1'])
    for k in range(2):
        r.start()
        n0 = len(it.events)
        r.shutdown()
        got = sorted(e.args[0] for e in it.events[n0:] if e.kind == 'boundary' and e.name == 'plugin.shutdown')
        it.check(got in (['P1', 'P1', 'P2'], ['P1', 'P2']), 'C14.plugins', 'round %d: shutdown of the plugins %s, active are P1, P2, P1' % (k + 1, got))


def api_start(it):
    """deep.start(): the same for the agent it makes."""
    it.missing_modules.update({'opentelemetry', 'prometheus_client'})
    it.load_source('plugmod', PLUG)
    at_time(it, T0)
    before = (host_hook(it, 'sys-hook', 'plain'), host_hook(it, 'thread-hook', 'plain'))
    it.hooks[('sys', 'main')], it.hooks[('threading', '*')] = before
    conf = {'SERVICE_URL': 'h:1', 'SERVICE_SECURE': 'False', 'APP_ROOT': '/app', 'PLUGINS': ['plugmod.P1']}
    deep, e = it.attempt(it.call, it.public('deep', 'start'), [conf], {})
    it.check(e is None, 'C14.completes', 'start raises %s' % (exc_name(e) if e else ''), e.site if e else None)
    it.check(it.hooks[('sys', 'main')] is not before[0] and it.hooks[('threading', '*')] is not before[1], 'C14.installed', 'deep.start() sets no trace functions')
    n0 = len(it.events)
    v, e = it.attempt(it.m, deep, 'shutdown')
    it.check(e is None, 'C14.completes', 'shutdown raises %s' % (exc_name(e) if e else ''), e.site if e else None)
    it.check(it.hooks[('sys', 'main')] is before[0] and it.hooks[('threading', '*')] is before[1], 'C14.restored', 'the trace functions are not those from before deep.start()')
    it.check(len([x for x in it.events[n0:] if x.kind == 'boundary' and x.name == 'plugin.shutdown']) == 1, 'C14.plugins', 'the plugin is not shut down')


HOOKS = ['none', 'plain', 'falsy', 'odd']
SEQ = ['start shutdown', 'start start shutdown', 'start shutdown shutdown', 'shutdown', 'start shutdown start shutdown', 'shutdown start start shutdown shutdown',
       'start = shutdown', 'start shutdown = shutdown', 'start = start shutdown', 'start shutdown = start shutdown', 'start = shutdown start shutdown', 'start shutdown - start shutdown',
       'start shutdown start start shutdown shutdown start shutdown']


def scenarios(tier):
    out = []
    for s in SEQ:
        for a in HOOKS:
            for b in HOOKS:
                if tier != 'quick' or a == b or 'plain' in (a, b) or s == 'start shutdown':
                    out.append(S('sequence/%s/%s-%s' % (s.replace(' ', '_'), a, b), sequence(s.split(), a, b), max_time=20))
        for a, b in (('none', 'none'), ('plain', 'plain'), ('plain', 'none'), ('none', 'falsy')):
            for v in (True, 'True', 'yes') if s == SEQ[0] else (True,):
                out.append(S('disabled/%s/%s-%s-%r' % (s.replace(' ', '_'), a, b, v), sequence(s.split(), a, b, {'NO_TRACE': v}, traced=False), max_time=20))
    out += [S('two/%s' % o, two_agents(o)) for o in ('nested', 'crossed')]
    for w in (('plugin',), ('send',), ('poll',), ('plugin', 'send'), ('plugin', 'poll', 'send')):
        for e in EXC:
            out.append(S('failing/%s-%s' % ('+'.join(w), e), failing(w, e), max_paths=600, max_time=10))
    out += [S('failing-disabled/%s' % e, failing(('plugin', 'poll'), e, {'NO_TRACE': True}), max_time=10) for e in EXC]
    out += [S('pending', pending), S('after-api', after_api), S('plugins', plugin_sets), S('api', api_start)]
    out += [S('first-fails/%s-%s' % (w, e), first_fails(w, e)) for w in ('poll',) for e in EXC]
    return out
