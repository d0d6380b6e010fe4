"""The rig of the demonstrations: the real agent with a recording push service and plugins. No network, no files outside of memory."""
import os
import sys
import threading
import types

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.dont_write_bytecode = True
import logging                                                              # noqa: E402
logging.getLogger('deep').setLevel(100)

import deep.logging                                                         # noqa: E402
from deep.api.attributes import BoundedAttributes                           # noqa: E402,F401
from deep.api.plugin import Plugin, TracepointLogger, SnapshotDecorator     # noqa: E402,F401
from deep.api.plugin.metric import MetricProcessor                          # noqa: E402
from deep.api.plugin.span import SpanProcessor, Span                        # noqa: E402
from deep.api.resource import Resource                                      # noqa: E402
from deep.api.tracepoint.tracepoint_config import MetricDefinition, LabelExpression  # noqa: E402,F401
from deep.api.tracepoint.trigger import build_trigger                       # noqa: E402
from deep.config import ConfigService                                       # noqa: E402
from deep.config.tracepoint_config import TracepointConfigService           # noqa: E402
from deep.processor.trigger_handler import TriggerHandler                   # noqa: E402

for n in ('exception', 'error', 'warning', 'info', 'debug'):
    setattr(deep.logging, n, lambda *a, **k: None)


class Push:
    def __init__(self):
        self.snaps = []

    def push_snapshot(self, snapshot):
        self.snaps.append(snapshot)


class RecSpan(Span):
    def __init__(self, log, n):
        self.log = log
        self.n = n

    name = trace_id = span_id = property(lambda self: 'x')

    def add_attribute(self, key, value):
        pass

    def add_event(self, name, attributes=None):
        pass

    def close(self):
        self.log.append(('close', self.n))


class Plug(SpanProcessor, MetricProcessor, TracepointLogger, SnapshotDecorator):
    """Records all calls in self.calls."""

    def __init__(self):
        Plugin.__init__(self, 'rec', None)
        self.calls = []

    def create_span(self, name, context_id, tracepoint_id):
        self.calls.append(('open', name))
        return RecSpan(self.calls, name)

    def current_span(self):
        return None

    def counter(self, *a):
        self.calls.append(('counter',) + a)

    def gauge(self, *a):
        self.calls.append(('gauge',) + a)

    def histogram(self, *a):
        self.calls.append(('histogram',) + a)

    def summary(self, *a):
        self.calls.append(('summary',) + a)

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        self.calls.append(('log', log_msg))

    def decorate(self, snapshot_id, context):
        return None

    def clear(self):
        pass


class Agent:
    def __init__(self, *triggers, plugins=(), custom=None):
        self.plug = Plug()
        self.config = ConfigService(custom or {}, tracepoints=TracepointConfigService())
        self.config.resource = Resource({'service.name': 'svc'})
        self.config.plugins = [self.plug] + list(plugins)
        self.push = Push()
        self.handler = TriggerHandler(self.config, self.push)
        self.install(*triggers)

    def install(self, *triggers):
        self.handler.new_config([t for t in triggers])

    @property
    def snaps(self):
        return self.push.snaps

    def run(self, fn, *args, **kw):
        """Run fn traced; (result, exception)."""
        old = sys.gettrace()
        sys.settrace(self.handler.trace_call)
        try:
            return fn(*args, **kw), None
        except BaseException as e:
            return None, e
        finally:
            sys.settrace(old)

    def thread(self, fn, *args):
        """Run fn traced in its own thread, and wait for it."""
        t = threading.Thread(target=lambda: self.run(fn, *args))
        t.start()
        t.join(30)


def tp(tid, line, args=None, watches=(), metrics=(), path='target.py'):
    return build_trigger(tid, path, line, dict(args or {}), list(watches), list(metrics))


def module(source, path='/app/target.py', **names):
    """The module of the application: line 1 is the first line of source."""
    m = types.ModuleType('target')
    m.__dict__.update(names)
    exec(compile(source.lstrip('\n'), path, 'exec'), m.__dict__)
    return m


def require(ok, msg):
    if not ok:
        print('FAILED: ' + msg)
        os._exit(1)
