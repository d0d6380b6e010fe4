"""C20 Plugins are optional: ordered, skipped when inactive, isolated when faulty."""
from lib import *
from rig import Rig

RULES = {
    'C20.skipped': 'a plugin that cannot be imported or constructed, or that is not active, is not loaded',
    'C20.loaded': 'each other plugin is loaded, once for each time it is configured',
    'C20.order': 'the loaded plugins are in the order they declare',
    'C20.start': 'the agent starts, whatever the plugins do',
    'C20.resource': 'the resource has the attributes of the plugins that did not fail',
    'C20.called': 'each plugin is called, whatever the ones before did',
    'C20.delivered': 'each snapshot is sent, whatever the plugins do',
    'C20.decorations': 'the snapshot has the decorations of the plugins that did not fail',
    'C20.shutdown': 'shutdown completes, and shuts down each plugin',
    'C20.host': 'a failing plugin has no effect on the program',
}
EXPLANATION = ('The loader is run on configurations with each kind of plugin (missing, broken while imported or constructed, switched off in each way, with each order) in each position; the agent is run '
               'from start to shutdown with two or three plugins of each kind, where any subset of the calls of one kind of callback, or of all, fails with each kind of exception or returns a wrong result.')

T0 = 10 ** 18


class TimeUp(BaseException):
    pass


EXC = {'value': ValueError, 'runtime': RuntimeError, 'exit': SystemExit, 'generator': GeneratorExit, 'stop': StopIteration, 'base': BaseException, 'key': KeyError, 'type': TypeError, 'attr': AttributeError, 'memory': MemoryError, 'assert': AssertionError, 'name': NameError, 'import': ImportError}
LOADS = ('value', 'exit', 'generator', 'base', 'import', 'type', 'attr', 'stop')

# -------------------------------------------------------------------- loading

GOOD = '''
from deep.api.plugin import Plugin, DidNotEnable
import _absint


class %(c)s(Plugin):
    def __init__(self, config=None):
        %(init)s
        super().__init__(config=config)

%(body)s
'''


def source(c, init='pass', body='    pass', top=''):
    return top + GOOD % {'c': c, 'init': init, 'body': body}


def order_of(expr):
    return '    def order(self):\n        %s\n' % expr


# name: (loaded, source or None, order, settings, environment, entry); loaded None: either
def plugin_kind(kind, n):
    c, m = 'Pl%d' % n, 'plm%d' % n
    entry = '%s.%s' % (m, c)
    key = 'PLUGIN_PL%d' % n
    name, _, arg = kind.partition(':')
    src, loaded, order, conf, env = source(c), True, 0, {}, {}
    if name == 'order':
        order = int(arg)
        src = source(c, body=order_of('return %d' % order))
    elif name == 'order-raises':
        loaded, order = None, None
        src = source(c, body=order_of('raise %s("x")' % EXC[arg].__name__))
    elif name == 'order-odd':
        loaded, order = None, None
        src = source(c, body=order_of('return %s' % arg))
    elif name == 'missing':
        loaded, src = False, (ModuleNotFoundError, 'No module named %r' % m)
    elif name == 'import':
        loaded, src = False, 'raise %s("x")\n' % EXC[arg].__name__
    elif name == 'import-late':
        loaded, src = False, source(c) + '\nraise %s("x")\n' % EXC[arg].__name__
    elif name == 'did-not-enable':
        loaded, src = False, 'from deep.api.plugin import DidNotEnable\nraise DidNotEnable("no")\n'
    elif name == 'needs':
        loaded, src = False, source(c, top='from nothere import thing\n')
    elif name == 'needs-guarded':
        loaded, src = False, source(c, top='from deep.api.plugin import DidNotEnable\ntry:\n    import nothere.sub\nexcept ImportError as e:\n    raise DidNotEnable("nothere", e)\n')
    elif name == 'no-attr':
        loaded, src = False, 'x = 1\n'
    elif name == 'ctor':
        loaded, src = False, source(c, init='raise %s("x")' % EXC[arg].__name__)
    elif name == 'ctor-late':
        loaded, src = False, source(c).replace('super().__init__(config=config)', 'super().__init__(config=config)\n        raise %s("x")' % EXC[arg].__name__)
    elif name == 'ctor-args':
        loaded, src = False, 'from deep.api.plugin import Plugin\n\n\nclass %s(Plugin):\n    def __init__(self):\n        super().__init__()\n' % c
    elif name == 'abstract':
        loaded, src = False, 'from deep.api.plugin import ResourceProvider\n\n\nclass %s(ResourceProvider):\n    pass\n' % c
    elif name == 'not-class':
        loaded, src = False, '%s = %s\n' % (c, arg)
    elif name == 'inactive':
        loaded, src = False, source(c, body='    def is_active(self):\n        return False\n')
    elif name == 'active-raises':
        loaded, src = None, source(c, body='    def is_active(self):\n        raise %s("x")\n' % EXC[arg].__name__)
    elif name == 'off':
        loaded, conf = False, {key: {'False': False, '0': 0, 'text': 'False', 'lower': 'false', 'text0': '0', 'no': 'no', 'def': ('fn', False), 'def-text': ('fn', 'False')}[arg]}
    elif name == 'off-env':
        loaded, env = False, {'DEEP_' + key: arg}
    elif name == 'on':
        conf = {key: {'True': True, '1': 1, 'text': 'True', 'lower': 'true', 'text1': '1', 'yes': 'yes', 'None': None, 'def': ('fn', True)}[arg]}
    elif name == 'on-env':
        env = {'DEEP_' + key: arg}
    elif name == 'on-over-env':
        conf, env = {key: True}, {'DEEP_' + key: 'False'}
    elif name == 'off-over-env':
        loaded, conf, env = False, {key: False}, {'DEEP_' + key: 'True'}
    elif name == 'named':
        src = source(c).replace('super().__init__(config=config)', 'super().__init__("special", config)')
        if arg == 'off':
            loaded, conf = False, {'PLUGIN_SPECIAL': False}
        else:
            conf = {key: False}          # this is not its name
    elif name == 'name-off-raises':
        loaded, src = False, source(c, body='    def is_active(self):\n        return False\n\n    @property\n    def name(self):\n        raise ValueError("x")\n')
    elif name == 'no-dot':
        loaded, entry = False, 'plainname'
    elif name == 'odd-entry':
        loaded, entry = False, {'None': None, '5': 5, 'empty': '', 'dot': '.', 'end': m + '.', 'start': '.x'}[arg]
    elif name == 'deep':
        src, entry = None, 'pkg.sub.%s.%s' % (m, c)
    else:
        assert name == 'ok', kind
    return loaded, src, order, conf, env, entry, c


KINDS = ['ok', 'order:1', 'order:-1', 'order:10', 'order:1000000', 'missing', 'did-not-enable', 'needs', 'needs-guarded', 'no-attr', 'ctor-args', 'abstract', 'not-class:5', 'not-class:None', 'not-class:"text"', 'inactive', 'off:False', 'off:0', 'off:text', 'off:lower', 'off:text0',
         'off:no', 'off:def', 'off:def-text', 'off-env:False', 'off-env:false', 'off-env:0', 'off-env:no', 'on:True', 'on:1', 'on:text', 'on:lower', 'on:text1', 'on:yes', 'on:None', 'on:def', 'on-env:True', 'on-env:true', 'on-env:1', 'on-over-env', 'off-over-env', 'named:off',
         'named:on', 'name-off-raises', 'no-dot', 'odd-entry:None', 'odd-entry:5', 'odd-entry:empty', 'odd-entry:dot', 'odd-entry:end', 'odd-entry:start', 'order-odd:None', 'order-odd:"x"', 'order-odd:[]', 'order-odd:object()']
for _e in LOADS:
    KINDS += ['import:' + _e, 'import-late:' + _e, 'ctor:' + _e, 'ctor-late:' + _e, 'active-raises:' + _e, 'order-raises:' + _e]
FEW = ['ok', 'order:1', 'order:-1', 'missing', 'ctor:value', 'inactive', 'off:text', 'off-env:False', 'import:exit', 'order-raises:value', 'no-dot']
BUILT_IN = ('OTelPlugin', 'PythonPlugin', 'PrometheusPlugin', 'OTelMetrics')


def value(it, v):
    if isinstance(v, tuple) and v and v[0] == 'fn':
        return it.load_source('fnmod', 'def make(v):\n    return lambda: v\n').ns['make'](v[1]) if False else it.call(it.load_source('fnmod', 'def make(v):\n    return lambda: v\n').ns['make'], [v[1]], {})
    return v


def type_name(it, p):
    return it.resolve(it.getattr(it.call(it.builtins['type'], [p], {}) if hasattr(it, 'builtins') and isinstance(it.builtins, dict) and 'type' in it.builtins else it.getattr(p, '__class__'), '__name__'))


class Loading(Rig):
    def __init__(self, it, kinds, missing=('opentelemetry', 'prometheus_client'), conf=None, env=None):
        self.it, self.requests, self.next = it, [], None
        it.missing_modules.update(missing)
        it.missing_modules.update({'nothere', 'plainname'})
        it.env.clear()
        it.env.update(env or {})
        c = {'SERVICE_URL': 'h:1', 'SERVICE_SECURE': 'False', 'APP_ROOT': '/app'}
        c.update(conf or {})
        self.want, self.maybe, self.orders, entries = [], [], {}, []
        for n, k in enumerate(kinds):
            loaded, src, order, pc, env, entry, cls = plugin_kind(k, n)
            if src is not None:
                it.sources['plm%d' % n] = src
            c.update({x: value(it, y) for x, y in pc.items()})
            it.env.update(env)
            entries.append(entry)
            if loaded:
                self.want.append(cls)
            if loaded is None:
                self.maybe.append(cls)
            self.orders[cls] = order
        c['PLUGINS'] = entries
        at_time(it, T0)
        it.boundary_hook = self.hook
        self.config = it.new(it.public('deep.config', 'ConfigService'), c)
        self.deep = it.new(it.public('deep.api', 'Deep'), self.config)
        _, self.exc = it.attempt(it.m, self.deep, 'start')

    def check(self, what, built_in):
        it = self.it
        it.check(self.exc is None, 'C20.start', '%s: start raises %s' % (what, exc_name(self.exc) if self.exc else ''), self.exc.site if self.exc else None)
        it.check(len(self.requests) >= 1, 'C20.start', '%s: the agent does not poll' % what)
        got = [type_name(it, p) for p in it.iterate(it.get(self.config, 'plugins'))]
        for p in got:
            it.check(p in self.want or p in self.maybe or p in built_in, 'C20.skipped', '%s: %s is loaded' % (what, p))
        for p in list(self.want) + list(built_in):
            n = got.count(p)
            it.check(n == 1, 'C20.loaded', '%s: %s is loaded %d times' % (what, p, n))
        o = [self.orders.get(p, 0) for p in got]
        o = [x for x in o if x is not None]
        it.check(o == sorted(o), 'C20.order', '%s: the order is %s' % (what, ['%s(%s)' % (p, self.orders.get(p, 0)) for p in got]))
        it.witness.add('loaded')


def load(kinds):
    def fn(it):
        r = Loading(it, kinds)
        r.check('plugins %s' % ', '.join(kinds), ['PythonPlugin'])
    return fn


def load_any(n, kinds):
    """Every list of n of these kinds."""
    def fn(it):
        ks = [kinds[it.choose(len(kinds), 'plugin %d' % k)] for k in range(n)]
        r = Loading(it, ks)
        r.check('plugins %s' % ', '.join(ks), ['PythonPlugin'])
    return fn


def built_in(missing, off, how):
    """The plugins that come with the agent."""
    def fn(it):
        conf, env = {}, {}
        for o in off:
            if how == 'env':
                env['DEEP_PLUGIN_' + o.upper()] = 'False'
            else:
                conf['PLUGIN_' + o.upper()] = {'code': False, 'text': 'false'}[how]
        r = Loading(it, ['ok', 'order:-5'], missing, conf, env)
        want = [p for p in BUILT_IN if p not in off and not (p in ('OTelPlugin', 'OTelMetrics') and 'opentelemetry' in missing) and not (p == 'PrometheusPlugin' and 'prometheus_client' in missing)]
        r.check('without %s, off %s' % (missing, off), want)
    return fn


def broken_dependency(module, exc):
    """A dependency of a plugin that comes with the agent fails while it is imported."""
    def fn(it):
        it.sources[module] = (EXC[exc], 'broken install')
        other = {'opentelemetry', 'prometheus_client'} - {module}
        r = Loading(it, ['ok'], other)
        r.check('%s fails with %s' % (module, exc), ['PythonPlugin'])
    return fn


def twice(it):
    r = Loading(it, ['ok', 'order:2'])
    r2 = it.call(it.public('deep.api.plugin', 'load_plugins'), [r.config, ['plm1.Pl1', 'plm0.Pl0', 'plm1.Pl1']], {})
    got = [type_name(it, p) for p in it.iterate(r2)]
    it.check(sorted(got) == ['Pl0', 'Pl1', 'Pl1', 'PythonPlugin'] and got[2:] == ['Pl1', 'Pl1'], 'C20.loaded', 'a plugin that is configured twice: %s' % got)
    for args in ([], [None], [[]]):
        r3 = it.call(it.public('deep.api.plugin', 'load_plugins'), [r.config] + args, {})
        got = [type_name(it, p) for p in it.iterate(r3)]
        it.check(got == ['PythonPlugin'], 'C20.loaded', 'without custom plugins: %s' % got)


# -------------------------------------------------------------------- callbacks

PLUG = '''
from deep.api.attributes import BoundedAttributes
from deep.api.plugin import Plugin, ResourceProvider, SnapshotDecorator, TracepointLogger
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import SpanProcessor, Span
from deep.api.resource import Resource
import _absint

ORDER = {}


class Base:
    def order(self):
        return ORDER.get(type(self).__name__, 0)

    def shutdown(self):
        _absint.boundary('plugin.shutdown', type(self).__name__)


class Res(Base, ResourceProvider):
    def resource(self):
        n = type(self).__name__
        r = _absint.boundary('resource', n)
        return r[0] if r is not None else Resource({'from.' + n: n, 'shared': n})


class Dec(Base, SnapshotDecorator):
    def decorate(self, snapshot_id, context):
        n = type(self).__name__
        r = _absint.boundary('decorate', n, snapshot_id)
        return r[0] if r is not None else BoundedAttributes(attributes={'from.' + n: n, 'shared': n})


class Log(Base, TracepointLogger):
    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        _absint.boundary('tplog', type(self).__name__, log_msg, tp_id, ctx_id)


class TheSpan(Span):
    name = trace_id = span_id = 'x'

    def __init__(self, owner):
        self.owner = owner

    def add_attribute(self, key, value):
        pass

    def add_event(self, name, attributes=None):
        pass

    def close(self):
        _absint.boundary('span.close', self.owner)


class Spa(Base, SpanProcessor):
    def create_span(self, name, context_id, tracepoint_id):
        n = type(self).__name__
        r = _absint.boundary('span.create', n, name, context_id, tracepoint_id)
        return r[0] if r is not None else TheSpan(n)

    def current_span(self):
        return None


class Met(Base, MetricProcessor):
    def counter(self, name, labels, namespace, help_string, unit, value):
        _absint.boundary('metric', type(self).__name__, name, value)
    gauge = histogram = summary = counter

    def clear(self):
        pass


class R1(Res): pass
class R2(Res): pass
class R3(Res): pass
class D1(Dec): pass
class D2(Dec): pass
class D3(Dec): pass
class L1(Log): pass
class L2(Log): pass
class S1(Spa): pass
class S2(Spa): pass
class M1(Met): pass
class M2(Met): pass


class X1(Base, Plugin): pass
class X2(Base, Plugin): pass


class All(Res, Dec, Spa, Met):
    pass


class NoShutdown:
    """Not derived from Plugin."""

    def __init__(self, config=None):
        pass

    def is_active(self):
        return True

    def order(self):
        return 0


class Partial:
    """Decorations that fail on the way."""

    def items(self):
        yield 'partial', 1
        raise ValueError('x')


class NoClose:
    pass


def junk(kind):
    return {'dict': {'junk': 1}, 'text': 'text', 'number': 5, 'list': [], 'none': None, 'partial': Partial(), 'object': NoClose(), 'class': NoClose, 'false': False, 'empty': {}}[kind]
'''
STD = ['R1', 'D1', 'S1', 'M1', 'X1', 'L1', 'R2', 'D2', 'S2', 'M2', 'X2', 'D3', 'R3']
ORDERS = {'std': {}, 'reverse': {n: -k for k, n in enumerate(STD)}, 'mixed': {'D3': -2, 'R3': -1, 'M2': -3, 'S2': -3, 'X2': -9, 'D1': 4}}
KIND = {'R': 'resource', 'D': 'decorate', 'L': 'tplog', 'S': 'span.create', 'M': 'metric', 'X': 'plugin.shutdown'}


class Run(Rig):
    def __init__(self, it, plugins=STD, order='std', conf=None):
        self.it, self.requests, self.next = it, [], None
        it.missing_modules.update({'opentelemetry', 'prometheus_client'})
        it.env.clear()
        self.ns = it.load_source('plugmod', PLUG).ns
        self.ns['ORDER'].update(ORDERS[order])
        self.names = list(plugins)
        self.sorted = sorted([n for n in plugins if n != 'NoShutdown'], key=lambda n: ORDERS[order].get(n, 0))
        c = {'SERVICE_URL': 'h:1', 'SERVICE_SECURE': 'False', 'APP_ROOT': '/app', 'PLUGIN_PYTHONPLUGIN': False, 'PLUGINS': ['plugmod.' + n for n in plugins]}
        c.update(conf or {})
        at_time(it, T0)
        it.boundary_hook = self.hook
        it.eval_hook = lambda i, name, expr, g, lo, scope: 3
        self.fail, self.junk = None, None
        self.calls, self.failed = [], set()
        self.config = it.new(it.public('deep.config', 'ConfigService'), c)
        self.deep = it.new(it.public('deep.api', 'Deep'), self.config)
        self.hd = it.get(self.deep, 'trigger_handler')
        self.tasks = it.get(self.deep, 'task_handler')

    def hook(self, i, kind, args, kw):
        if kind in ('resource', 'decorate', 'tplog', 'span.create', 'span.close', 'metric', 'plugin.shutdown'):
            n = len(self.calls)
            self.calls.append((kind, i.resolve(args[0]), args))
            if self.fail is not None:
                e = self.fail(kind, i.resolve(args[0]), args)
                if e is not None:
                    self.failed.add(n)
                    raise PyExc(e, i.site())
            if self.junk is not None and kind in ('resource', 'decorate', 'span.create'):
                j = self.junk(kind, i.resolve(args[0]))
                if j is not None:
                    self.failed.add(n)
                    return (i.call(self.ns['junk'], [j], {}),)
            return None
        return Rig.hook(self, i, kind, args, kw) if kind != 'poll' else (self.requests.append(args[0]), self.next if self.next is not None else self.no_change())[1]

    def of(self, kind, n0=0):
        return [(n, c[1], c[2]) for n, c in enumerate(self.calls) if c[0] == kind and n >= n0]

    def members(self, letter):
        return [n for n in self.sorted if n[0] == letter or n == 'All' and letter in 'RDSM']


ON = {'fire_count': '-1', 'fire_period': '0'}


def whole(fail=None, plugins=STD, order='std', conf=None, junk=None, hits=2, what=''):
    """From start to shutdown, with a tracepoint that has each action, and its effects on each plugin."""
    def fn(it):
        r = Run(it, plugins, order, conf)
        r.fail = fail(it, r) if fail else None
        r.junk = junk(it, r) if junk else None
        before = host(it)
        it.hooks[('sys', 'main')], it.hooks[('threading', '*')] = before
        _, e = it.attempt(it.m, r.deep, 'start')

        def told():
            return '%s, failing: %s' % (what, ['%s of %s' % r.calls[n][:2] for n in sorted(r.failed)])
        it.check(e is None, 'C20.start', '%s: start raises %s' % (told(), exc_name(e) if e else ''), e.site if e else None)
        # the resource
        got = [c[1] for c in r.of('resource')]
        it.check(sorted(got) == sorted(r.members('R')), 'C20.called', '%s: the resources are asked of %s' % (told(), got))
        bad = {c[1] for c in r.of('resource') if c[0] in r.failed}
        attrs = it.get(it.get(r.config, 'resource'), 'attributes')
        attrs = {it.resolve(k): it.resolve(v) for k, v in [tuple(it.iterate(x)) for x in it.iterate(it.m(attrs, 'items'))]}
        for n in r.members('R'):
            it.check(n in bad or attrs.get('from.' + n) == n, 'C20.resource', '%s: the resource has not the attributes of %s: %s' % (told(), n, attrs))
        for k in ('telemetry.sdk.name', 'service.name'):
            it.check(bool(attrs.get(k)), 'C20.resource', '%s: the resource has no %s' % (told(), k))
        good = [n for n in r.members('R') if n not in bad]
        it.check(attrs.get('shared') == (good[-1] if good else None), 'C20.order', '%s: the resource of %s wins, the last is %s' % (told(), show(attrs.get('shared')), good[-1:]))
        # the tracepoints
        e = r.poll(r.update([r.tp('t1', dict(ON, log_msg='text {x}', span='line'), ['w'], [r.metric('m1'), r.metric('m2', 'GAUGE')]), r.tp('t2', dict(ON, span='method', method_name='func', snapshot='no_collect'))], 'h1'))
        it.check(e is None, 'C20.start', '%s: the poll raises %s' % (told(), exc_name(e) if e else ''), e.site if e else None)
        r.settle()
        r.next = None
        fns = [it.hooks.get(('sys', 'main')), it.hooks.get(('threading', '*'))]
        it.check(all(f is not None and f not in before for f in fns), 'C20.start', '%s: the trace functions are not set' % told())
        for h in range(hits):
            k = len(r.calls)
            n0 = len(it.events)
            at_time(it, T0 + (h + 1) * 10 ** 12)
            f = it.frame('f%d' % h, filename='/app/src/target.py', name='func', line=9, first=9, lines=[9, 10, 11, 12], flocals={'x': 1})
            p = Prog(it, fns[h % 2], thread='app%d' % h if h % 2 else 'main')
            for step in (lambda: p.call(f, 9), lambda: p.line(f, 10), lambda: p.line(f, 11), lambda: p.ret(f, None, 11)):
                _, e = it.attempt(step)
                it.check(e is None, 'C20.host', '%s: the program gets %s' % (told(), exc_name(e) if e else ''), e.site if e else None)
            r.settle()
            w = '%s: hit %d' % (told(), h + 1)
            # metrics
            got = sorted((c[1], it.resolve(c[2][1])) for c in r.of('metric', k))
            want = sorted((n, m) for n in r.members('M') for m in ('m1', 'm2'))
            it.check(got == want, 'C20.called', '%s: the metrics reach %s, expected %s' % (w, got, want))
            # spans
            created = r.of('span.create', k)
            got = sorted((c[1], it.resolve(c[2][3])) for c in created)
            want = sorted((n, t) for n in r.members('S') for t in ('t1', 't2'))
            it.check(got == want, 'C20.called', '%s: the spans are created by %s, expected %s' % (w, got, want))
            got = sorted(c[1] for c in r.of('span.close', k))
            want = sorted(c[1] for c in created if c[0] not in r.failed)
            it.check(got == want, 'C20.called', '%s: the spans of %s are closed, expected %s' % (w, got, want))
            # the log
            got = [c[1] for c in r.of('tplog', k)]
            want = r.members('L')[:1]
            it.check(got == want, 'C20.called', '%s: the log message reaches %s, expected %s' % (w, got, want))
            # the snapshot
            dec = r.of('decorate', k)
            got = sorted(c[1] for c in dec)
            it.check(got == sorted(r.members('D')), 'C20.called', '%s: the snapshot is decorated by %s, expected %s' % (w, got, r.members('D')))
            sent = [x for x in it.events[n0:] if x.kind == 'boundary' and x.name == 'send']
            it.check(len(sent) == 1, 'C20.delivered', '%s: %d snapshots are sent' % (w, len(sent)))
            have = {}
            for kv in it.iterate(it.getattr(sent[0].args[0], 'attributes')):
                f_ = it.resolve(it.call(it.getattr(it.getattr(kv, 'value'), 'WhichOneof'), ['value'], {}))
                have[it.resolve(it.getattr(kv, 'key'))] = it.resolve(it.getattr(it.getattr(kv, 'value'), f_)) if f_ else None
            bad = {c[1] for c in dec if c[0] in r.failed}
            for n in r.members('D'):
                it.check(n in bad or have.get('from.' + n) == n, 'C20.decorations', '%s: the snapshot has not the decoration of %s: %s' % (w, n, have))
            good = [n for n in r.members('D') if n not in bad]
            it.check(have.get('shared') == (good[-1] if good else None), 'C20.order', '%s: the decoration of %s wins, the last is %s' % (w, show(have.get('shared')), good[-1:]))
            it.check('tracepoint' in have, 'C20.decorations', '%s: the snapshot has the attributes %s' % (w, have))
            res = {it.resolve(it.getattr(kv, 'key')) for kv in it.iterate(it.getattr(sent[0].args[0], 'resource'))}
            it.check(set(attrs) == res, 'C20.resource', '%s: the resource of the snapshot is %s' % (w, sorted(res)))
        # the end
        k = len(r.calls)
        _, e = it.attempt(it.m, r.deep, 'shutdown')
        it.check(e is None, 'C20.shutdown', '%s: shutdown raises %s' % (told(), exc_name(e) if e else ''), e.site if e else None)
        got = sorted(c[1] for c in r.of('plugin.shutdown', k))
        it.check(got == sorted(n for n in r.names if n != 'NoShutdown'), 'C20.shutdown', '%s: shutdown of %s' % (told(), got))
        now = (it.hooks.get(('sys', 'main')), it.hooks.get(('threading', '*')))
        it.check(now == before, 'C20.shutdown', '%s: the trace functions are not restored' % told())
        it.check(not it.resolve(it.get(r.deep, 'started')), 'C20.shutdown', '%s: the agent is still started' % told())
        it.witness.add('whole')
    return fn


def host(it):
    return HostVal('sys-hook', it.hclass('sys-hook', 'Tracer'), None, {}, {'truthy'}), HostVal('thread-hook', it.hclass('thread-hook', 'Tracer'), None, {}, {'truthy'})


def some(kinds, exc, limit=None):
    """Any subset of the calls of these callbacks fails."""
    def make(it, r):
        def fail(kind, name, args):
            if kind in kinds and (limit is None or len(r.failed) < limit) and it.choose(2, '%s of %s fails' % (kind, name)) == 1:
                return EXC[exc]('failed')
            return None
        return fail
    return make


def always(names, exc, kinds=None):
    """These plugins fail in each callback."""
    def make(it, r):
        def fail(kind, name, args):
            return EXC[exc]('failed') if name in names and (kinds is None or kind in kinds) else None
        return fail
    return make


def any_plugins(exc):
    """Any subset of the plugins fails in each callback."""
    def make(it, r):
        bad = {}

        def fail(kind, name, args):
            if name not in bad:
                bad[name] = it.choose(2, '%s fails' % name)
            return EXC[exc]('failed') if bad[name] else None
        return fail
    return make


def at_call(n, exc):
    """Call n of all fails, and all after it with it."""
    def make(it, r):
        count = [0]
        more = it.choose(2, 'also the rest')

        def fail(kind, name, args):
            count[0] += 1
            return EXC[exc]('failed') if count[0] == n or more and count[0] > n else None
        return fail
    return make


def returns(kind, junks):
    def make(it, r):
        def junk(k, name):
            if k != kind:
                return None
            c = it.choose(len(junks) + 1, '%s of %s returns' % (k, name))
            return junks[c - 1] if c else None
        return junk
    return make


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for k in KINDS:
        out.append(S('load/%s' % k, load([k])))
        out.append(S('load/middle-%s' % k, load(['order:1', k, 'ok', 'order:-1'])))
    for k in ('import:exit', 'ctor:base', 'missing', 'order-raises:value', 'active-raises:exit', 'off:text'):
        for l in KINDS:
            out.append(S('load/pair-%s-%s' % (k, l), load([k, l, 'order:3', 'ok'])))
    out.append(S('load/any-2', load_any(2, FEW), max_paths=200))
    out.append(S('load/any-3', load_any(3, FEW if not quick else FEW[:7]), max_paths=1500, max_time=20 if quick else 100))
    out.append(S('load/any-orders', load_any(4 if quick else 5, ['ok', 'order:1', 'order:-1', 'order:10', 'missing']), max_paths=4000, max_time=20 if quick else 200))
    for miss in (('opentelemetry', 'prometheus_client'), ('opentelemetry',), ('prometheus_client',), ()):
        for off in ((), ('PythonPlugin',), ('OTelPlugin', 'PrometheusPlugin'), ('OTelMetrics',), BUILT_IN):
            for how in ('code', 'text', 'env'):
                if off or how == 'code':
                    out.append(S('builtin/without-%s-off-%s-%s' % ('-'.join(miss), '-'.join(off), how), built_in(miss, off, how), max_paths=24 if quick else 1000))
    for m in ('opentelemetry', 'prometheus_client'):
        out += [S('builtin/broken-%s-%s' % (m, e), broken_dependency(m, e)) for e in LOADS]
    out.append(S('load/twice', twice))
    out.append(S('whole/none', whole(what='nothing fails')))
    for o in ORDERS:
        out.append(S('whole/order-%s' % o, whole(order=o, what='order %s' % o)))
    kinds = ('resource', 'decorate', 'tplog', 'span.create', 'span.close', 'metric', 'plugin.shutdown')
    for k in kinds:
        for e in EXC:
            o = 'mixed' if e in ('exit', 'key') else 'std'
            out.append(S('one/%s-%s' % (k, e), whole(some((k,), e, 1 if e not in ('value', 'exit') else None), order=o, what='%s fails with %s' % (k, e), hits=1 if k in ('metric', 'span.create', 'span.close') else 2), max_paths=600, max_time=8))
    for e in ('runtime', 'exit', 'base', 'generator'):
        for k in range(1, 40, 3 if quick else 1):
            out.append(S('call/%d-%s' % (k, e), whole(at_call(k, e), what='call %d fails with %s' % (k, e))))
        out.append(S('plugins/%s' % e, whole(any_plugins(e), what='plugins fail with %s' % e, hits=1), max_paths=300 if quick else 20000, max_time=8 if quick else 200))
        out.append(S('all/%s' % e, whole(always(STD, e), what='all plugins fail with %s' % e)))
        for n in STD:
            out.append(S('always/%s-%s' % (n, e), whole(always((n,), e), what='%s fails with %s' % (n, e))))
        out.append(S('multi/%s' % e, whole(some(('resource', 'decorate', 'span.create', 'metric'), e, 3), plugins=['D1', 'All', 'R2', 'S2', 'M2', 'X1', 'L1', 'D2'], what='one plugin with all roles', hits=1), max_paths=300, max_time=8))
    out.append(S('returns/resource', whole(junk=returns('resource', ['text', 'number', 'dict', 'list', 'none', 'object', 'class', 'false', 'empty']), plugins=['R1', 'R2', 'D1', 'X1', 'L1'], what='wrong resources', hits=1), max_paths=200))
    out.append(S('returns/decorate', whole(junk=returns('decorate', ['text', 'number', 'list', 'none', 'object', 'class', 'partial', 'false', 'empty']), plugins=['D1', 'D2', 'X1', 'L1'], what='wrong decorations', hits=1), max_paths=200))
    out.append(S('returns/span', whole(junk=returns('span.create', ['text', 'number', 'list', 'none', 'object', 'class', 'false', 'dict']), plugins=['S1', 'S2', 'X1', 'L1', 'M1'], what='wrong spans', hits=1), max_paths=6000, max_time=10))
    out.append(S('duck/shutdown', whole(plugins=['X1', 'NoShutdown', 'X2', 'D1', 'NoShutdown', 'M1'], what='a plugin without shutdown')))
    out.append(S('only/none', whole(plugins=[], what='no plugins')))
    for n in STD:
        out.append(S('only/%s' % n, whole(plugins=[n], what='only %s' % n)))
        out.append(S('only/failing-%s' % n, whole(always((n,), 'exit'), plugins=[n], what='only %s' % n)))
    return out
