"""C10 Conditions gate, expressions see the paused frame, errors are contained."""
from lib import *
import c04

RULES = {
    'C10.gate': 'a hit has effects only when the condition is true; no effect of any kind when it is false or fails',
    'C10.true-collects': 'a hit on which the condition is true (or there is none) and the limits allow it collects',
    'C10.budget': 'a rejected hit uses nothing of fire_count and fire_period',
    'C10.independent': 'the condition of one tracepoint has no effect on another one',
    'C10.scope': 'an expression sees the locals, then the globals of the paused frame, with their values',
    'C10.nested': 'the locals are also visible in a nested scope (comprehension, lambda) of an expression',
    'C10.nothing-else': 'no name of the agent is visible to an expression',
    'C10.thread': 'expressions are evaluated by the thread that is paused',
    'C10.error': 'a failing expression gives an error result (error text, no value)',
    'C10.contained': 'all other expressions of the tracepoint have their own results, and the action is completed',
}
EXPLANATION = ('All sequences of up to four hits with the condition true, false or failing, at any instants, for every kind of action; the name spaces of every '
               'evaluation of every kind of expression; every subset of failing expressions, with exceptions of all kinds.')

EXCS = ['NameError', 'AttributeError', 'ZeroDivisionError', 'SyntaxError', 'KeyError', 'StopIteration', 'RecursionError', 'SystemExit', 'KeyboardInterrupt',
        'GeneratorExit', 'host', 'hostbase']
KINDS = {
    'snapshot': ({}, 'line'),
    'noframe': ({'frame_type': 'no_frame'}, 'line'),
    'log': ({'snapshot': 'no_collect', 'log_msg': 'x'}, 'line'),
    'metric': ({'snapshot': 'no_collect'}, 'line'),
    'span': ({'snapshot': 'no_collect', 'span': 'line'}, 'line'),
    'mspan': ({'snapshot': 'no_collect', 'span': 'method', 'method_name': 'func'}, 'call'),
    'method': ({'stage': 'method_start', 'method_name': 'func'}, 'call'),
    'capture': ({'stage': 'method_capture', 'method_name': 'func'}, 'call'),
    'linecap': ({'stage': 'line_capture'}, 'line'),
    'snaplog': ({'log_msg': 'x'}, 'line'),
    'all': ({'log_msg': 'x', 'span': 'line'}, 'line'),
}


def fail(i, name):
    if name == 'host':
        raise PyExc(HostError('app error'), i.site())
    if name == 'hostbase':
        raise PyExc(HostBaseError('app error'), i.site())
    if name == 'odd':
        raise PyExc(HostError('odd'), i.site())
    t = getattr(__import__('builtins'), name)
    raise PyExc(t('failed'), i.site())


def setup(it, tps):
    """tps: [(id, kind, more args, watches)]"""
    h = it.harness()
    hd = it.handler(plugins=[it.new(h['MetricPlug'], 'm'), it.new(h['SpanPlug'], 's'), it.new(h['LogPlug'], 'l')])
    md = it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition')
    trs = []
    for tid, kind, more, watches in tps:
        a = dict(KINDS[kind][0])
        a.update(more)
        trs.append(it.trigger(tid, 'target.py', 10, a, watches=watches, metrics=[it.new(md, tid, 'COUNTER')] if kind in ('metric', 'all') else []))
    it.install(hd, trs)
    return hd


def invoke(it, hd, t, tag, thread='main', flocals=None):
    """The function is entered, passes line 10 and returns. Returns the effects by tracepoint."""
    at_time(it, t)
    f = it.frame('f' + tag, name='func', line=9, flocals=flocals if flocals is not None else {'a': it.hint('a' + tag)})
    p = Prog(it, it.get(hd, 'trace_call'), thread=thread)
    n0 = len(it.events)
    p.call(f)
    p.line(f, 10)
    p.line(f, 11)
    p.ret(f, it.hint('rv' + tag), 11)
    return [e for e in it.events[n0:] if e.kind == 'boundary' and e.name in ('push', 'tplog', 'metric', 'span.create', 'span.close', 'decorate')]


def of(it, effs, tid):
    out = []
    for e in effs:
        x = {'push': lambda: tp_of(it, e.args[0]), 'tplog': lambda: e.args[2], 'metric': lambda: e.args[2], 'span.create': lambda: e.args[3]}.get(e.name)
        if x is not None and it.resolve(x()) == tid:
            out.append(e.name)
    return out


WANT = {'snapshot': ['push'], 'noframe': ['push'], 'log': ['tplog'], 'metric': ['metric'], 'span': ['span.create'], 'mspan': ['span.create'], 'method': ['push'], 'capture': ['push'],
        'linecap': ['push'], 'snaplog': ['push', 'tplog'], 'all': ['metric', 'push', 'span.create', 'tplog']}


def gate(kind, result, want):
    """One hit with this result of the condition, then one with True: fire_count is 1."""
    def fn(it):
        hd = setup(it, [('tp', kind, {'condition': 'cond', 'fire_count': '1'}, [])])
        cur = [None]

        def ev(i, name, expr, g, lo, scope):
            if isinstance(cur[0], tuple) and cur[0] and cur[0][0] == 'raise':
                fail(i, cur[0][1])
            return cur[0]
        it.eval_hook = ev
        if isinstance(result, tuple) and result and result[0] == 'raise' and result[1] == 'odd':
            it.can_fault = lambda kind, target: [RuntimeError] if kind == 'exc-str' else []
        t1, t2 = instants(it, 2)
        cur[0] = result(it) if callable(result) else result
        e1 = invoke(it, hd, t1, '1')
        if want is True:
            it.check(sorted(of(it, e1, 'tp')) == WANT[kind], 'C10.true-collects', 'the condition is true, effects: %s' % of(it, e1, 'tp'))
            return
        it.check(not e1, 'C10.gate', 'the condition is %s, but there is %s' % (show(cur[0]), e1[0].name if e1 else ''), e1[0].site if e1 else None)
        cur[0] = True
        e2 = invoke(it, hd, t2, '2')
        it.check(sorted(of(it, e2, 'tp')) == WANT[kind], 'C10.budget', 'after a rejected hit, the permitted one has the effects %s' % of(it, e2, 'tp'))
    return fn


def sequence(kind, n, count, period):
    """n hits, each true, false or failing, at any instants."""
    def fn(it):
        hd = setup(it, [('tp', kind, {'condition': 'cond', 'fire_count': str(count), 'fire_period': str(period)}, [])])
        cur = [None]

        def ev(i, name, expr, g, lo, scope):
            if cur[0] == 2:
                fail(i, 'NameError')
            return cur[0] == 1
        it.eval_hook = ev
        lim = c04.Limiter(it, count, period)
        for k, t in enumerate(instants(it, n)):
            cur[0] = it.choose(3, 'cond')
            e = invoke(it, hd, t, str(k))
            if cur[0] == 1:
                got = sorted(of(it, e, 'tp'))
                it.check(got in ([], WANT[kind]), 'C10.true-collects', 'effects: %s' % got)
                try:
                    lim.check(t, bool(got), 'hit %d' % (k + 1))
                except Finding as f:
                    f.rule = 'C10.budget' if f.rule == 'C04.must-collect' else f.rule
                    raise
            else:
                it.check(not e, 'C10.gate', 'hit %d is rejected, but there is %s' % (k + 1, e[0].name if e else ''), e[0].site if e else None)
    return fn


def no_condition(kind, value):
    def fn(it):
        more = {} if value is MISSING else {'condition': value}
        hd = setup(it, [('tp', kind, more, [])])
        it.eval_hook = lambda i, *a: i.throw(SyntaxError, 'empty')
        e = invoke(it, hd, instants(it, 1)[0], '1')
        it.check(sorted(of(it, e, 'tp')) == WANT[kind], 'C10.true-collects', 'no condition, effects: %s' % of(it, e, 'tp'))
    return fn


def neighbours(k1, k2, order):
    """Two tracepoints on the line with conditions of their own, in every combination, over two hits."""
    def fn(it):
        tps = [('tp1', k1, {'condition': 'c1', 'fire_count': '-1', 'fire_period': '0'}, []), ('tp2', k2, {'condition': 'c2', 'fire_count': '-1', 'fire_period': '0'}, []),
               ('tp3', k1, {'fire_count': '-1', 'fire_period': '0'}, [])]
        if order:
            tps.reverse()
        hd = setup(it, tps)
        cur = {}

        def ev(i, name, expr, g, lo, scope):
            v = cur[expr]
            if v == 2:
                fail(i, 'host')
            return v == 1
        it.eval_hook = ev
        for k, t in enumerate(instants(it, 2)):
            cur['c1'], cur['c2'] = it.choose(3, 'c1'), it.choose(3, 'c2')
            e = invoke(it, hd, t, str(k))
            for tid, kind, want in (('tp1', k1, cur['c1'] == 1), ('tp2', k2, cur['c2'] == 1), ('tp3', k1, True)):
                got = sorted(of(it, e, tid))
                it.check(got == (WANT[kind] if want else []), 'C10.independent' if want else 'C10.gate',
                         '%s: condition %s, effects %s (others: %s)' % (tid, want, got, show(dict(cur))))
    return fn


# -------------------------------------------------------------------- the scope

class Scope:
    def __init__(self, it, thread='main'):
        self.it, self.thread, self.n = it, thread, 0
        self.kinds = {}

    def check(self, expr, g, lo, scope, fl, fg):
        it = self.it
        self.n += 1
        it.check(it.thread == self.thread, 'C10.thread', '%s is evaluated by thread %s' % (expr, it.thread))
        it.check(scope == 'given', 'C10.nothing-else', '%s is evaluated in the name space of the agent' % expr)

        def find(ns, k):
            v, e = it.attempt(it.getitem, ns, k)
            return MISSING if e is not None else it.resolve(v)

        def name(k, nested=False):
            if not nested:
                v = find(lo, k)
                if v is not MISSING:
                    return v
            return find(g, k)
        for k, v in fl.items():
            got = name(k)
            it.check(got is not MISSING and it.identical(got, v) is True, 'C10.scope', '%s: the local %s is %s, it should be %s' % (expr, k, show(got), show(v)))
            got = name(k, True)
            it.check(got is not MISSING and it.identical(got, v) is True, 'C10.nested', '%s: the local %s is %s in a nested scope, it should be %s' % (expr, k, show(got), show(v)))
        for k, v in fg.items():
            if k in fl or k == '__builtins__':
                continue
            got = name(k)
            it.check(got is not MISSING and it.identical(got, v) is True, 'C10.scope', '%s: the global %s is %s, it should be %s' % (expr, k, show(got), show(v)))
        for ns in (lo, g):
            for k in list(it.iterate(ns)):
                k = it.resolve(k)
                it.check(k in fl or k in fg or k == '__builtins__', 'C10.nothing-else', '%s sees the name %s, which is not of the frame' % (expr, show(k)))


def scope(kind, thread='main', recursion=False):
    """All expressions of a tracepoint of this kind."""
    def fn(it):
        h = it.harness()
        md = it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition')
        le = it.public('deep.api.tracepoint.tracepoint_config', 'LabelExpression')
        hd = it.handler(plugins=[it.new(h['MetricPlug'], 'm'), it.new(h['SpanPlug'], 's'), it.new(h['LogPlug'], 'l')])
        a = dict(KINDS[kind][0])
        a.update({'condition': 'cond', 'fire_count': '-1', 'fire_period': '0'})
        if 'log_msg' in a:
            a['log_msg'] = 'field {field1} and {field2}'
        mets = []
        if kind in ('metric', 'all'):
            mets = [it.new(md, 'm1', 'COUNTER', [it.new(le, 'l1', None, 'label1'), it.new(le, 'l2', None, 'label2')], 'mexpr')]
        it.install(hd, [it.trigger('tp', 'target.py', 10, a, watches=['watch1', 'watch2'], metrics=mets)])
        shared = it.hint('shared')
        fl1 = {'a': it.hint('a'), 'self': it.hobj('self_', {'q': 1}), 'deep': it.hint('deep'), 'G': it.hint('G.local'), 'n': None, 'shared': shared}
        fl2 = {'a': it.hint('a2'), 'b': it.hint('b2'), 'shared': shared}
        fg = {'__name__': 'target', '__builtins__': it.hdict('bi', {}), 'G': it.hint('G'), 'H': it.hint('H'), 'expression': it.hint('expression.g'), 'str': it.hint('my str')}
        out = {'outer': it.hint('outer'), 'a': it.hint('a.outer')}
        gf = it.frame('g', filename='/app/main.py', name='main', line=3, flocals=out, globs={'__name__': 'main', 'MG': it.hint('MG')})
        sc = Scope(it, thread)
        cur = [None]
        seen = set()

        def ev(i, name, expr, g, lo, s):
            sc.check(expr, g, lo, s, cur[0], fg)
            seen.add(expr)
            return True if expr == 'cond' else 3
        it.eval_hook = ev
        p = Prog(it, it.get(hd, 'trace_call'), thread=thread)
        p.stack.append(gf)
        ts = instants(it, 3)
        at_time(it, ts[0])

        def run(tag, fl):
            cur[0] = fl
            f = it.frame('f' + tag, name='func', line=9, flocals=fl, globs=fg)
            p.call(f)
            p.line(f, 10)
            p.line(f, 11)
            if recursion and tag == '1':
                run('2', fl2)
                cur[0] = fl
                p.line(f, 10)
            p.ret(f, it.hint('rv' + tag), 11)
        run('1', fl1)
        if not recursion:
            at_time(it, ts[1])
            run('2', fl2)
        want = {'cond'}
        if 'no_collect' not in str(a.get('snapshot')):
            want |= {'watch1', 'watch2'}
        if 'log_msg' in a:
            want |= {'field1', 'field2'}
        if mets:
            want |= {'mexpr', 'label1', 'label2'}
        it.check(want <= seen, 'C10.scope', 'not evaluated: %s' % sorted(want - seen))
        it.witness.add('evaluated')
    return fn


# -------------------------------------------------------------------- errors

def errors_watches(exc, n, log=False):
    """Every subset of failing watches (and log fields)."""
    def fn(it):
        names = ['w%d' % k for k in range(n)]
        fields = ['f0', 'f1'] if log else []
        bad = {x for x in names + fields if it.choose(2, x)}
        a = {'frame_type': 'single_frame'}
        if log:
            a['log_msg'] = 'a {f0} b {f1} c'
        hd = setup(it, [('tp', 'snapshot', a, names)])
        vals = {x: (None if x == 'w1' else it.hint('value of ' + x)) for x in names + fields}
        if exc == 'odd':
            it.can_fault = lambda kind, target: [RuntimeError] if kind == 'exc-str' else []

        def ev(i, name, expr, g, lo, s):
            if expr in bad:
                fail(i, exc)
            return vals[expr]
        it.eval_hook = ev
        loc = {'a': it.hint('a'), 'l': it.hlist('l', [it.hint('l0')])}
        e = invoke(it, hd, instants(it, 1)[0], '1', flocals=loc)
        got = it.pushed()
        it.check(len(got) == 1, 'C10.contained', '%d snapshots, failing: %s' % (len(got), sorted(bad)))
        sc = SnapCheck(it, got[0], rule='C10.contained')
        rs = watch_results(it, got[0])
        it.check(sorted(r[0] for r in rs) == sorted(names + fields), 'C10.contained', 'results for %s, expected %s' % ([r[0] for r in rs], names + fields))
        for ex, src, res, err, w in rs:
            it.check(src == ('WATCH' if ex in names else 'LOG'), 'C10.contained', '%s has the source %s' % (ex, src))
            if ex in bad:
                it.check(res is None and err is not None and it.type_of(err) is str, 'C10.error', '%s fails, its result is %s, its error %s' % (ex, show(res), show(err)))
            else:
                it.check(err is None and res is not None, 'C10.contained', '%s does not fail, its error is %s (failing: %s)' % (ex, show(err), sorted(bad)))
                sc.ref(res, vals[ex], ex, 1)
        frs = list(it.iterate(it.get(got[0], 'frames')))
        names_ = [it.resolve(it.get(v, 'name')) for v in it.iterate(it.get(frs[0], 'variables'))]
        it.check(sorted(names_) == ['a', 'l'], 'C10.contained', 'the frame has %s' % names_)
    return fn


def errors_metrics(exc):
    """Failing metric and label expressions: the other metrics, labels and processors have their values."""
    def fn(it):
        h = it.harness()
        md = it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition')
        le = it.public('deep.api.tracepoint.tracepoint_config', 'LabelExpression')
        hd = it.handler(plugins=[it.new(h['MetricPlug'], 'm'), it.new(h['MetricPlug'], 'n')])
        exprs = ['e0', 'l00', 'l01', 'e1', 'l10']
        bad = {x for x in exprs if it.choose(2, x)}
        mets = [it.new(md, 'm0', 'COUNTER', [it.new(le, 'k0', None, 'l00'), it.new(le, 'ks', 'static', None), it.new(le, 'k1', None, 'l01')], 'e0'),
                it.new(md, 'm1', 'GAUGE', [it.new(le, 'k0', None, 'l10')], 'e1')]
        it.install(hd, [it.trigger('tp', 'target.py', 10, {'snapshot': 'no_collect'}, metrics=mets)])
        vals = {x: (7.0 + n if x[0] == 'e' else 'text of ' + x) for n, x in enumerate(exprs)}

        def ev(i, name, expr, g, lo, s):
            if expr in bad:
                fail(i, exc)
            return vals[expr]
        it.eval_hook = ev
        invoke(it, hd, instants(it, 1)[0], '1')
        got = it.boundary('metric')
        it.check(sorted((e.args[0], e.args[2]) for e in got) == [('m', 'm0'), ('m', 'm1'), ('n', 'm0'), ('n', 'm1')], 'C10.contained',
                 'reported: %s, failing: %s' % (sorted((e.args[0], e.args[2]) for e in got), sorted(bad)))
        for e in got:
            m = e.args[2]
            ex, labs = ('e0', {'k0': 'l00', 'k1': 'l01'}) if m == 'm0' else ('e1', {'k0': 'l10'})
            v = it.resolve(e.args[7])
            it.check(v == (1 if ex in bad else vals[ex]), 'C10.error' if ex in bad else 'C10.contained', 'the value of %s is %s, failing: %s' % (m, show(v), sorted(bad)))
            ls = dict(it.dict_items(e.args[3]))
            it.check(set(ls) == (set(labs) | ({'ks'} if m == 'm0' else set())), 'C10.contained', 'labels %s' % show(ls))
            for k, x in labs.items():
                if x not in bad:
                    it.check(it.resolve(ls[k]) == vals[x], 'C10.contained', 'label %s is %s, failing: %s' % (k, show(ls[k]), sorted(bad)))
                else:
                    it.check(it.type_of(ls[k]) is str and it.resolve(ls[k]) not in vals.values(), 'C10.error', 'label %s is %s, the expression fails' % (k, show(ls[k])))
            if m == 'm0':
                it.check(it.resolve(ls['ks']) == 'static', 'C10.contained', 'label ks is %s' % show(ls['ks']))
    return fn


def errors_two(exc):
    """The failing watch of one tracepoint and the other tracepoint."""
    def fn(it):
        hd = setup(it, [('tp1', 'snapshot', {}, ['x', 'bad']), ('tp2', 'snaplog', {}, ['x'])])
        v = it.hint('x')

        def ev(i, name, expr, g, lo, s):
            if expr == 'bad':
                fail(i, exc)
            return v
        it.eval_hook = ev
        invoke(it, hd, instants(it, 1)[0], '1')
        got = {tp_of(it, s): s for s in it.pushed()}
        it.check(sorted(got) == ['tp1', 'tp2'], 'C10.contained', 'snapshots of %s' % sorted(got))
        for t, s in got.items():
            for ex, src, res, err, w in watch_results(it, s):
                it.check((err is not None) == (ex == 'bad'), 'C10.contained', '%s of %s: error %s' % (ex, t, show(err)))
    return fn


def made(expr):
    return lambda it: it.load_source('vresult', 'VALUE = ' + expr, '/host/result.py').ns['VALUE']


RESULTS = [('true', True, True), ('one', 1, True), ('text-true', 'True', True),
           ('false', False, False), ('zero', 0, False), ('none', None, False), ('empty-text', '', False), ('empty-list', made('[]'), False),
           ('empty-dict', made('{}'), False), ('zero-float', 0.0, False), ('empty-tuple', (), False), ('empty-set', made('set()'), False)]


def scenarios(tier):
    out = []
    for k in KINDS:
        for n, v, w in RESULTS:
            if k in ('snapshot', 'metric', 'capture', 'all') or n in ('true', 'false'):
                out.append(S('gate/%s-%s' % (k, n), gate(k, v, w), max_time=10))
        for e in EXCS + ['odd']:
            if k in ('snapshot', 'span', 'mspan', 'capture') or e in ('NameError', 'SystemExit'):
                out.append(S('gate/%s-raises-%s' % (k, e), gate(k, ('raise', e), False), max_time=10))
        out.append(S('gate/%s-absent' % k, no_condition(k, MISSING), max_time=10))
        out.append(S('gate/%s-empty' % k, no_condition(k, ''), max_time=10))
        out.append(S('scope/%s' % k, scope(k), max_time=15))
    for k in ('snapshot', 'log', 'metric', 'span', 'mspan', 'capture', 'all'):
        for c, p in ((1, 0), (2, 0), (2, 1000), (-1, 1000)):
            out.append(S('sequence/%s-%d-%d' % (k, c, p), sequence(k, 3, c, p), max_time=10))
    if tier != 'quick':
        out += [S('sequence4/%s-%d-%d' % (k, c, p), sequence(k, 4, c, p), max_time=30) for k in ('noframe', 'log') for c, p in ((2, 0), (2, 1000), (3, 5))]
    for a, b in (('snapshot', 'snapshot'), ('snapshot', 'log'), ('metric', 'snapshot'), ('span', 'metric'), ('log', 'span'), ('linecap', 'snaplog')):
        for o in (0, 1):
            out.append(S('neighbours/%s-%s-%d' % (a, b, o), neighbours(a, b, o), max_time=10))
    out += [S('scope/%s-thread' % k, scope(k, 'worker-9'), max_time=10) for k in ('all', 'capture')]
    out += [S('scope/%s-recursion' % k, scope(k, 'main', True), max_time=10) for k in ('all', 'snapshot', 'capture')]
    for e in EXCS + ['odd']:
        out.append(S('errors/watches-%s' % e, errors_watches(e, 3), max_time=10))
        out.append(S('errors/log-%s' % e, errors_watches(e, 2, True), max_time=10))
        out.append(S('errors/metrics-%s' % e, errors_metrics(e), max_time=10))
        out.append(S('errors/two-%s' % e, errors_two(e), max_time=10))
    return out
