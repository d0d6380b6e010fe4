"""C04 Rate limiting."""
from fractions import Fraction
from lib import *

RULES = {
    'C04.count': 'no path on which more than fire_count hits have an effect (linear facts over the hit sequence)',
    'C04.period': 'two hits with an effect are entailed to be fire_period ms apart by the facts of the path',
    'C04.window': 'a hit with an effect is entailed to be in the configured window',
    'C04.must-collect': 'a hit without an effect: the limits cannot all allow it under the facts of the path',
    'C04.race': 'the same, when another thread reaches the location at any access to shared state',
    'C04.repoll': 'the same, when the service sends a configuration which still has the tracepoint',
    'C04.defaults': 'unparsable or absent limits are fire_count 1, fire_period 1000, no window',
}
MS = 1000000
EXPLANATION = 'Hit sequences with symbolic instants and limits; the facts of each path are a conjunction of linear inequalities.'

KINDS = {
    'snapshot': {},
    'log': {'snapshot': 'no_collect', 'log_msg': 'x'},
    'metric': {'snapshot': 'no_collect'},
    'span': {'snapshot': 'no_collect', 'span': 'line'},
}


class Limiter:
    """The reference: what the statement allows."""

    def __init__(self, it, count, period, start=None, end=None):
        self.it, self.count, self.period, self.start, self.end = it, count, period, start, end
        self.hits = []                # instants of the collections

    def allowed(self, t):
        """The constraints under which a hit at t has to collect, None when the count is used up."""
        it = self.it
        if isinstance(self.count, int):
            if self.count != -1 and len(self.hits) >= self.count:
                return None
            cons = []
        else:
            cons = [(ge(it, self.count, len(self.hits), 1), False)]
        if self.hits:
            cons.append((ge(it, it.lin_add(t, self.hits[-1], -1), it.lin_scale(self.period, Fraction(MS))), False))
        if self.start is not None:
            cons.append((ge(it, t, it.lin_scale(self.start, Fraction(MS))), False))
        if self.end is not None:
            cons.append((ge(it, it.lin_scale(self.end, Fraction(MS)), t), False))
        return cons

    def check(self, t, collected, what, rule_prefix='C04'):
        it = self.it
        if collected:
            if isinstance(self.count, int):
                it.check(self.count == -1 or len(self.hits) < self.count, 'C04.count',
                         '%s: collection %d with fire_count %s' % (what, len(self.hits) + 1, self.count))
            else:
                it.check(not feasible(it, (ge(it, len(self.hits), self.count), False)), 'C04.count',
                         '%s: more collections than fire_count are possible' % what)
            for h in self.hits:
                # closer than the period
                f = ge(it, it.lin_scale(self.period, Fraction(MS)), it.lin_add(t, h, -1))
                it.check(not feasible(it, (f, True)), 'C04.period', '%s: two collections can be less than fire_period apart' % what)
            if self.start is not None:
                it.check(not feasible(it, (ge(it, it.lin_scale(self.start, Fraction(MS)), t), True)), 'C04.window',
                         '%s: a collection before the start of the window' % what)
            if self.end is not None:
                it.check(not feasible(it, (ge(it, t, it.lin_scale(it.lin_add(self.end, 1), Fraction(MS))), False)), 'C04.window',
                         '%s: a collection after the end of the window' % what)
            self.hits.append(t)
        else:
            cons = self.allowed(t)
            if cons is not None:
                it.check(not feasible(it, *cons), 'C04.must-collect', '%s: the limits allow the hit (collections before: %d), but nothing is collected' % (what, len(self.hits)))


def setup(it, kind, args):
    h = it.harness()
    hd = it.handler(plugins=[it.new(h['MetricPlug'], 'm'), it.new(h['SpanPlug'], 's'), it.new(h['LogPlug'], 'l')])
    md = it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition')
    metrics = [it.new(md, 'met', 'COUNTER')] if kind == 'metric' else []
    a = dict(KINDS[kind])
    a.update(args)
    it.install(hd, [it.trigger('tp', 'target.py', 10, a, metrics=metrics)])
    return hd


def hit(it, hd, t, frame, thread=None):
    """One pass over the line at instant t; returns how many effects."""
    old = it.thread
    if thread:
        it.thread = thread
    at_time(it, t)
    p = Prog(it, it.get(hd, 'trace_call'), thread=it.thread)
    n0 = len(it.events)
    p.deliver(p.fn, frame, 'line', None)
    th = it.thread
    it.thread = old
    return sum(1 for e in it.events[n0:] if e.kind == 'boundary' and e.thread == th and e.name in ('push', 'tplog', 'metric', 'span.create'))


def hits(kind, args, count, period, n, start=False, end=False, name=''):
    """n hits in a row."""
    def fn(it):
        a = dict(args)
        c, p = count, period
        if c == 'sym':
            c = it.intsym('fire_count', 0)
            a['fire_count'] = it.to_str(c)
        if p == 'sym':
            p = it.intsym('fire_period', 0)
            a['fire_period'] = it.to_str(p)
        s = e = None
        if start:
            s = it.intsym('window_start', 1)
            a['window_start'] = it.to_str(s)
        if end:
            e = it.intsym('window_end', 1)
            a['window_end'] = it.to_str(e)
        lim = Limiter(it, c, p, s, e)
        hd = setup(it, kind, a)
        f = it.frame('f', line=10)
        got = 0
        for k, t in enumerate(instants(it, n)):
            r = hit(it, hd, t, f)
            it.check(r <= 1, 'C04.count', 'one hit collects %d times' % r)
            got += r
            lim.check(t, r == 1, 'hit %d of %s' % (k + 1, kind))
        it.witness.add('collections=%d' % got)
    return fn


def combined(it):
    """All actions of one tracepoint are limited, each on its own."""
    h = it.harness()
    hd = it.handler(plugins=[it.new(h['MetricPlug'], 'm'), it.new(h['SpanPlug'], 's'), it.new(h['LogPlug'], 'l')])
    md = it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition')
    p = it.intsym('fire_period', 0)
    it.install(hd, [it.trigger('tp', 'target.py', 10, {'span': 'line', 'log_msg': 'x', 'fire_count': '2', 'fire_period': it.to_str(p)},
                               metrics=[it.new(md, 'met', 'COUNTER')])])
    f = it.frame('f', line=10)
    lims = {k: Limiter(it, 2, p) for k in ('push', 'metric', 'span.create')}
    for k, t in enumerate(instants(it, 3)):
        n0 = len(it.events)
        hit(it, hd, t, f)
        for name, lim in lims.items():
            r = sum(1 for e in it.events[n0:] if e.kind == 'boundary' and e.name == name)
            it.check(r <= 1, 'C04.count', 'one hit has %d effects %s' % (r, name))
            lim.check(t, r == 1, 'hit %d, %s' % (k + 1, name))


def two_tracepoints(it):
    """Tracepoints on one line have their own limits."""
    hd = it.handler()
    p = it.intsym('fire_period', 0)
    it.install(hd, [it.trigger('a', 'target.py', 10, {'fire_count': '1', 'fire_period': it.to_str(p)}),
                    it.trigger('b', 'target.py', 10, {'fire_count': '2', 'fire_period': '0'})])
    f = it.frame('f', line=10)
    lims = {'a': Limiter(it, 1, p), 'b': Limiter(it, 2, 0)}
    for k, t in enumerate(instants(it, 3)):
        n0 = len(it.events)
        hit(it, hd, t, f)
        ids = [tp_of(it, e.args[0]) for e in it.events[n0:] if e.kind == 'boundary' and e.name == 'push']
        for i, lim in lims.items():
            lim.check(t, i in ids, 'hit %d, tracepoint %s' % (k + 1, i))
            it.check(ids.count(i) <= 1, 'C04.count', 'two snapshots of one hit')


def merged(it):
    """Two tracepoints of one location in a response keep their own limits."""
    pb = it.mod('deepproto.proto.tracepoint.v1.tracepoint_pb2')
    conv = it.public('deep.grpc', 'convert_response')
    T = pb['TracePointConfig']
    trig = it.call(conv, [[it.call(T, [], {'ID': i, 'path': 'target.py', 'line_number': 10, 'args': {'fire_count': c, 'fire_period': '0'},
                                           'watches': [], 'metrics': []}) for i, c in (('a', '1'), ('b', '2'), ('c', '-1'))]], {})
    hd = it.handler()
    it.install(hd, trig)
    f = it.frame('f', line=10)
    lims = {'a': Limiter(it, 1, 0), 'b': Limiter(it, 2, 0), 'c': Limiter(it, -1, 0)}
    for k, t in enumerate(instants(it, 3)):
        n0 = len(it.events)
        hit(it, hd, t, f)
        ids = [tp_of(it, e.args[0]) for e in it.events[n0:] if e.kind == 'boundary' and e.name == 'push']
        for i, lim in lims.items():
            lim.check(t, i in ids, 'hit %d, tracepoint %s' % (k + 1, i))


def failing(where):
    """A collection that fails half way still counts as the one of its hit (never two)."""
    def fn(it):
        p = it.intsym('fire_period', 0)
        hd = setup(it, 'snapshot', {'fire_count': '2', 'fire_period': it.to_str(p)})
        f = it.frame('f', line=10, flocals={'a': it.hobj('a', {})})
        it.boundary_hook = None
        lim = Limiter(it, 2, p)
        ts = instants(it, 4)
        n = [0]

        def bh(i, kind, args, kw):
            if kind == 'push':
                n[0] += 1
                if n[0] == 1:
                    i.throw(RuntimeError, 'push fails')
        it.boundary_hook = bh
        for k, t in enumerate(ts):
            r = hit(it, hd, t, f)
            it.check(r <= 1, 'C04.count', 'one hit collects twice')
            if r:
                lim.check(t, True, 'hit %d' % (k + 1))
    return fn


def race(kind, count, n_before, after, period=0):
    """Another thread reaches the location while this one is in it."""
    def fn(it):
        hd = setup(it, kind, {'fire_count': str(count), 'fire_period': str(period), 'frame_type': 'no_frame', 'stack_type': 'stack'})
        f, g = it.frame('f', line=10), it.frame('g', line=10)
        ts = instants(it, n_before + 2 + after)
        total = 0
        for t in ts[:n_before]:
            total += hit(it, hd, t, f)
        stop = interfere(it, lambda: hit(it, hd, ts[n_before + 1], g, thread='t2'))
        n0 = len(it.events)
        hit(it, hd, ts[n_before], f)
        st = stop()
        eff = [e for e in it.events[n0:] if e.kind == 'boundary' and e.name in ('push', 'tplog', 'metric', 'span.create')]
        total += len(eff)
        if st['done']:
            if len(eff) == 2 and period:
                it.check(not feasible(it, (ge(it, period * MS, it.lin_add(ts[n_before + 1], ts[n_before], -1)), True)), 'C04.race',
                         'two threads both collect, less than fire_period apart (switch at %s)' % st['site'])
        for t in ts[n_before + 2:]:
            total += hit(it, hd, t, f)
        if count != -1:
            it.check(total <= count, 'C04.race', '%d collections with fire_count %d when another thread reaches the location at %s' % (total, count, st['site']), st['site'])
            if not period:
                want = min(count, n_before + 1 + (1 if st['done'] else 0) + after)
                it.check(total >= want, 'C04.race', 'only %d collections of %d with fire_count %d' % (total, want, count))
        elif not period:
            want = n_before + 1 + (1 if st['done'] else 0) + after
            it.check(total == want, 'C04.race', '%d collections of %d' % (total, want))
    return fn


def race_two_actions(it):
    """A span and a metric on the line, raced."""
    h = it.harness()
    hd = it.handler(plugins=[it.new(h['MetricPlug'], 'm'), it.new(h['SpanPlug'], 's')])
    md = it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition')
    it.install(hd, [it.trigger('tp', 'target.py', 10, {'span': 'line', 'snapshot': 'no_collect', 'fire_count': '1', 'fire_period': '0'},
                               metrics=[it.new(md, 'met', 'COUNTER')])])
    f, g = it.frame('f', line=10), it.frame('g', line=10)
    ts = instants(it, 2)
    stop = interfere(it, lambda: hit(it, hd, ts[1], g, thread='t2'))
    hit(it, hd, ts[0], f)
    st = stop()
    for k in ('metric', 'span.create'):
        n = len(it.boundary(k))
        it.check(n == 1, 'C04.race', '%d times %s with fire_count 1, another thread at %s' % (n, k, st['site']))


def condition_between(it):
    """The condition is evaluated between the check of the limits and the collection: another hit can be in between."""
    hd = setup(it, 'metric', {'fire_count': '1', 'fire_period': '0', 'condition': 'a == 1'})
    f, g = it.frame('f', line=10), it.frame('g', line=10)
    ts = instants(it, 2)
    st = {'n': 0}

    def ev(i, name, expr, gl, lo, scope):
        st['n'] += 1
        if st['n'] == 1 and i.choose(2, 'switch') == 1:
            hit(i, hd, ts[1], g, thread='t2')
        return True
    it.eval_hook = ev
    hit(it, hd, ts[0], f)
    n = len(it.boundary('metric'))
    it.check(n == 1, 'C04.race', '%d collections with fire_count 1 when two threads evaluate the condition' % n)


def window_consts(start, end, t_ms, ok):
    """Documented corner values of the window."""
    def fn(it):
        a = {}
        if start is not None:
            a['window_start'] = start
        if end is not None:
            a['window_end'] = end
        hd = setup(it, 'snapshot', a)
        r = hit(it, hd, t_ms * MS, it.frame('f', line=10))
        it.check((r == 1) == ok, 'C04.window', 'window %r..%r, hit at %d ms: %s' % (start, end, t_ms, 'collects' if r else 'does not collect'))
    return fn


def repolled(it):
    """The service sends another configuration, which has the tracepoint unchanged: it stays installed."""
    hd = it.handler()
    unl = {'fire_count': '1', 'fire_period': '0'}
    f = it.frame('f', line=10)
    n = 0
    for k, t in enumerate(instants(it, 2)):
        it.install(hd, [it.trigger('tp', 'target.py', 10, unl)] + ([it.trigger('new', 'other.py', 1, unl)] if k else []))
        n += hit(it, hd, t, f)
    it.check(n <= 1, 'C04.repoll', '%d collections with fire_count 1, the tracepoint was in both configurations' % n)


def scenarios(tier):
    out = [S('repolled', repolled, 100, 30)]
    for kind in KINDS:
        n = 3
        out += [
            S('hits/%s/symbolic' % kind, hits(kind, {}, 'sym', 'sym', n), 800, 60),
            S('hits/%s/default' % kind, hits(kind, {}, 1, 1000, n), 400, 30),
            S('hits/%s/unlimited' % kind, hits(kind, {'fire_count': '-1'}, -1, 'sym', n), 800, 60),
            S('hits/%s/period-0' % kind, hits(kind, {'fire_count': '2', 'fire_period': '0'}, 2, 0, 4), 400, 30),
            S('hits/%s/window' % kind, hits(kind, {'fire_count': '-1', 'fire_period': '0'}, -1, 0, 1, True, True), 400, 30),
            S('hits/%s/start' % kind, hits(kind, {'fire_count': '2', 'fire_period': '10'}, 2, 10, 2, True, False), 400, 30),
            S('hits/%s/end' % kind, hits(kind, {'fire_count': '2', 'fire_period': '10'}, 2, 10, 2, False, True), 400, 30),
            S('hits/%s/count-0' % kind, hits(kind, {'fire_count': '0'}, 0, 1000, 2), 100, 30),
        ]
    for c, want in (('abc', 1), ('', 1), (None, 1), (2, 2), (' 2 ', 2), ('1.5', 1), ([], 1), ('0x2', 1)):
        out.append(S('count/%r' % (c,), hits('snapshot', {'fire_count': c, 'fire_period': '0'}, want, 0, 3), 200, 30))
        out.append(S('count-metric/%r' % (c,), hits('metric', {'fire_count': c, 'fire_period': '0'}, want, 0, 3), 200, 30))
    for c, want in (('abc', 1000), ('', 1000), (None, 1000), (250, 250), (' 250 ', 250), ('1.5', 1000), ({}, 1000), ('1', 1), ('1001', 1001)):
        out.append(S('period/%r' % (c,), hits('snapshot', {'fire_count': '-1', 'fire_period': c}, -1, want, 3), 400, 30))
        out.append(S('period-log/%r' % (c,), hits('log', {'fire_count': '-1', 'fire_period': c}, -1, want, 3), 400, 30))
    out.append(S('hits/snapshot/4', hits('snapshot', {'fire_count': '3'}, 3, 'sym', 4), 1500, 80))
    out.append(S('hits/metric/window-symbolic-2', hits('metric', {'fire_count': '-1'}, -1, 'sym', 2, True, True), 1500, 60))
    for s, e, t, ok in (('abc', None, 5000000, True), (None, 'abc', 5000000, True), ('0', '0', 5000000, True), ('', '', 5000000, True), (None, None, 5000000, True),
                        ('4000000', 'abc', 5000000, True), ('6000000', 'abc', 5000000, False), ('abc', '4000000', 5000000, False), ('abc', '6000000', 5000000, True),
                        ('5000000', '5000000', 5000000, True), ('5000001', None, 5000000, False), (None, '4999999', 5000000, False), (None, '5000000', 5000000, True),
                        ('5000000', None, 5000000, True), ('6000000', '4000000', 5000000, False), ('4000000', '6000000', 3999999, False), ('4000000', '6000000', 6000001, False),
                        (4000000, 6000000, 5000000, True), (6000000, 7000000, 5000000, False)):
        out.append(S('window/%r-%r-%d' % (s, e, t), window_consts(s, e, t, ok), 100, 20))
    out += [S('combined', combined, 800, 60), S('two-tracepoints', two_tracepoints, 800, 60), S('merged', merged, 400, 30), S('failing', failing('push'), 400, 40)]
    for kind in KINDS:
        out.append(S('race/%s/1' % kind, race(kind, 1, 0, 1), 1500, 80))
        out.append(S('race/%s/2' % kind, race(kind, 2, 1, 1), 1500, 80))
        out.append(S('race/%s/unlimited' % kind, race(kind, -1, 0, 1), 1500, 80))
        out.append(S('race/%s/period' % kind, race(kind, -1, 0, 0, 50), 2500, 80))
        out.append(S('race/%s/3' % kind, race(kind, 3, 0, 2), 1500, 80))
    out += [S('race/two-actions', race_two_actions, 1500, 80), S('race/condition', condition_between, 200, 30)]
    return out
