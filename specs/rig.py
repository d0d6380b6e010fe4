"""The agent between the service and the program: poll responses as messages, registrations in code, the program, the effects."""
from lib import *

TPB = 'deepproto.proto.tracepoint.v1.tracepoint_pb2'
PPB = 'deepproto.proto.poll.v1.poll_pb2'
EFFECTS = ('push', 'tplog', 'metric', 'span.create')
METRIC_TYPES = {'COUNTER': 0, 'GAUGE': 1, 'HISTOGRAM': 2, 'SUMMARY': 3}


class Rig:
    """A Deep object that is not started: its poll, tasks and registrations are used by the scenario. The effects are seen by a
    trigger handler with the recording push service."""

    def __init__(self, it, custom=None, plugins=True):
        self.it = it
        h = it.harness()
        conf = {'SERVICE_URL': 'h:1', 'SERVICE_SECURE': 'False', 'APP_ROOT': '/app'}
        conf.update(custom or {})
        at_time(it, 10 ** 18)
        cfg = it.new(it.public('deep.config', 'ConfigService'), conf)
        self.deep = it.new(it.public('deep.api', 'Deep'), cfg)
        self.config = it.get(self.deep, 'config')
        self.config_set('resource', it.new(it.public('deep.api.resource', 'Resource'), {'service.name': 'svc'}))
        if plugins:
            self.config_set('plugins', [it.new(h['MetricPlug'], 'm'), it.new(h['SpanPlug'], 's'), it.new(h['LogPlug'], 'l')])
        it.m(it.get(self.deep, 'grpc'), 'start')
        self.hd = it.new(it.public('deep.processor.trigger_handler', 'TriggerHandler'), self.config, it.new(h['Push']))
        self.tasks = it.get(self.deep, 'task_handler')
        self.requests = []
        self.next = None
        it.boundary_hook = self.hook

    def config_set(self, name, v):
        self.it.setattr(self.config, name, v)

    def hook(self, i, kind, args, kw):
        if kind == 'poll':
            self.requests.append(args[0])
            r = self.next
            if isinstance(r, PyExc):
                raise PyExc(r.value, i.site())
            return r
        return None

    # ---------------------------------------------------------------- messages

    def tp(self, tid, args=None, watches=(), metrics=(), path='target.py', line=10):
        it = self.it
        return it.new(it.public(TPB, 'TracePointConfig'), ID=tid, path=path, line_number=line, args=dict(args or {}), watches=list(watches), metrics=list(metrics))

    def metric(self, name, typ='COUNTER', labels=(), **kw):
        it = self.it
        return it.new(it.public(TPB, 'Metric'), name=name, type=METRIC_TYPES.get(typ, typ), labelExpressions=list(labels), **kw)

    def label(self, key, static=None, expression=None):
        it = self.it
        kw = {'key': key}
        if static is not None:
            a = it.public('deepproto.proto.common.v1.common_pb2', 'AnyValue')
            kw['static'] = it.new(a, **static)
        if expression is not None:
            kw['expression'] = expression
        return it.new(it.public(TPB, 'LabelExpression'), **kw)

    def update(self, tps, hash_='h1', ts=1):
        it = self.it
        return it.new(it.public(PPB, 'PollResponse'), ts_nanos=ts, current_hash=hash_, response=list(tps), response_type=1)

    def no_change(self, hash_='', ts=1, tps=()):
        it = self.it
        return it.new(it.public(PPB, 'PollResponse'), ts_nanos=ts, current_hash=hash_, response=list(tps), response_type=0)

    # ---------------------------------------------------------------- operations

    def poll(self, response, thread='poll'):
        """One poll with this response (or exception). Returns what it raises."""
        it = self.it
        self.next = response
        old, it.thread = it.thread, thread
        try:
            v, e = it.attempt(it.m, it.get(self.deep, 'poll'), 'poll')
        finally:
            it.thread = old
        return e

    def service(self, tps, rule, hash_='h1'):
        e = self.poll(self.update(tps, hash_))
        self.it.check(e is None, rule, 'the response is not processed: %s' % (exc_name(e) if e else ''), e.site if e else None)
        self.settle()

    def register(self, args=None, watches=None, metrics=None, path='target.py', line=10):
        it = self.it
        kw = {}
        if args is not None:
            kw['args'] = args
        if watches is not None:
            kw['watches'] = watches
        if metrics is not None:
            kw['metrics'] = metrics
        return it.m(self.deep, 'register_tracepoint', path, line, **kw)

    def settle(self, any_order=False):
        run_tasks(self.it, any_order)

    # ---------------------------------------------------------------- the program

    def run(self, t=None, thread='main', extra=None, flocals=None, twice=False):
        """func (lines 9 to 12) and other (20 to 22) of target.py and of other.py run one after the other. Returns the effects:
        [(id, kind, place, event)]."""
        it = self.it
        if t is not None:
            at_time(it, t)
        out = []
        p = Prog(it, it.get(self.hd, 'trace_call'), thread=thread)

        def step(place, go):
            n0 = len(it.events)
            go()
            for e in it.events[n0:]:
                if e.kind == 'boundary' and e.name in EFFECTS:
                    out.append((self.tid(e), e.name, place, e))
        for fname in ('target.py', 'other.py'):
            for name, lo, hi in (('func', 9, 12), ('other', 20, 22)):
                if extra and extra(fname, name) is False:
                    continue
                f = it.frame('%s.%s' % (fname[:-3], name), filename='/app/src/' + fname, name=name, line=lo, first=lo, lines=list(range(lo, hi + 1)),
                             flocals=flocals if flocals is not None else {'a': it.hint('a')})
                w = (fname, name)
                step(w + ('call', lo), lambda: p.call(f, lo))
                for n in range(lo + 1, hi + 1):
                    step(w + ('line', n), lambda: p.line(f, n))
                step(w + ('return', hi), lambda: p.ret(f, it.hint('rv'), hi))
        return out

    def tid(self, e):
        it = self.it
        x = {'push': lambda: tp_of(it, e.args[0]), 'tplog': lambda: e.args[2], 'metric': lambda: it.resolve(e.args[2]), 'span.create': lambda: e.args[3]}[e.name]()
        return it.resolve(x)
