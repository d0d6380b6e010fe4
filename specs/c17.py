"""C17 Metric tracepoints report each defined metric with the right type, labels, value."""
from lib import *
from rig import Rig

RULES = {
    'C17.once': 'on each permitted hit every metric of the tracepoint is reported once to every active processor, and no other',
    'C17.type': 'a metric is reported through the operation of its type',
    'C17.identity': "a metric is reported with its name, namespace (default 'deep'), help and unit",
    'C17.labels': 'the labels of a report are the static values and the strings of the values of the expressions',
    'C17.value': 'the value is that of the expression as a number, or 1 when there is none or it is not numeric',
    'C17.frame': 'the expressions are evaluated in the frame of the hit, at the hit',
    'C17.isolated': 'a definition that cannot be reported, a label that cannot be evaluated or a processor that fails takes nothing from the other reports',
    'C17.no-processor': 'without an active processor nothing is reported and no fire budget is used',
}
EXPLANATION = ('Lists of definitions (types, names, labels, values, from the service and from code) are enumerated and walked through conversion, build, trigger and report; what the processors are '
               'called with is compared with the definitions and the values of the frame.')

T0 = 10 ** 18
TYPES = ['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY']
APP = {'app': HostError('app error'), 'base': HostBaseError('app base error')}
DYN = 'dynamic'

# expression values: name -> (make, expected: 'number', 1 or None when it is not specified)
VALUES = {
    'int': (lambda it: 3, 'number'), 'zero': (lambda it: 0, 'number'), 'neg': (lambda it: -7, 'number'), 'float': (lambda it: 2.5, 'number'), 'small': (lambda it: 0.001, 'number'),
    'true': (lambda it: True, 'number'), 'false': (lambda it: False, 'number'), 'hint': (lambda it: it.hint('hi'), 'number'), 'hfloat': (lambda it: HostVal('hf', float), 'number'), 'big': (lambda it: 2 ** 60, 'number'),
    'none': (lambda it: None, 1), 'text': (lambda it: 'abc', 1), 'empty': (lambda it: '', 1), 'list': (lambda it: it.hlist('hl', [it.hint('e')]), 1), 'elist': (lambda it: it.hlist('hl0', []), 1),
    'dict': (lambda it: it.hdict('hd', {'k': it.hint('v')}), 1), 'complex': (lambda it: 1j, 1), 'bytes': (lambda it: b'raw', 1),
    'numtext': (lambda it: '7.5', 'either'), 'hstr': (lambda it: it.hstr('hs'), 'either'), 'nan': (lambda it: float('nan'), 'any'), 'inf': (lambda it: float('inf'), 'any'), 'huge': (lambda it: 10 ** 400, 1),
    'obj': (lambda it: it.hobj('ho', {'x': it.hint('x')}), 'object'),
}
RAISES = ['NameError', 'AttributeError', 'ZeroDivisionError', 'KeyError', 'SyntaxError', 'ValueError', 'TypeError', 'StopIteration', 'SystemExit', 'KeyboardInterrupt', 'GeneratorExit', 'RecursionError', 'app', 'base']
STATIC = {'str': 'text', 'empty': '', 'int': 5, 'zero': 0, 'true': True, 'false': False, 'float': 1.5, 'bytes': b'raw'}
LABEL_VALUES = ['int', 'zero', 'none', 'true', 'false', 'float', 'text', 'empty', 'hint', 'hstr', 'obj', 'list', 'dict']


def D(name, typ='COUNTER', expr=None, labels=(), ns=None, help_=None, unit=None):
    """labels: (key, 'static', value) or (key, 'expr', expression) or (key, 'none', None)"""
    return {'name': name, 'type': typ, 'expr': expr, 'labels': list(labels), 'ns': ns, 'help': help_, 'unit': unit}


def fail(i, kind):
    if kind in APP:
        raise PyExc(APP[kind], i.site())
    t = getattr(__import__('builtins'), kind)
    raise PyExc(t('failed'), i.site())


class Setup(Rig):
    def __init__(self, it, procs=('p1',), values=None, extra_plugins=True):
        Rig.__init__(self, it, plugins=False)
        it.short = 500
        self.values = dict(values or {})
        self.asked = []
        h = it.harness()
        self.h = h
        self.extra = [it.new(h['SpanPlug'], 's'), it.new(h['LogPlug'], 'l')] if extra_plugins else []
        self.processors(procs)
        it.eval_hook = self.ev

    def processors(self, procs):
        it = self.it
        ps = []
        for p in procs:
            ps.append(it.new(self.h['MetricSpanPlug' if p.startswith('both') else 'MetricPlug'], p, p.startswith('spoils')))
        k = len(ps) // 2
        self.config_set('plugins', ps[:k] + self.extra + ps[k:])

    def ev(self, i, name, expr, g, lo, scope):
        self.asked.append((expr, lo))
        v = self.values.get(expr, it_missing)
        if v is it_missing:
            raise PyExc(NameError('name %s' % expr), i.site())
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'raise':
            fail(i, v[1])
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'local':
            return i.getitem(lo, v[1])
        return v

    def definition(self, d):
        """In code."""
        it = self.it
        le = it.public('deep.api.tracepoint.tracepoint_config', 'LabelExpression')
        md = it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition')
        labels = []
        for key, kind, x in d['labels']:
            labels.append(it.new(le, key, static=x) if kind == 'static' else it.new(le, key, expression=x) if kind == 'expr' else it.new(le, key))
        kw = {}
        if d['expr'] is not None:
            kw['expression'] = d['expr']
        if d['ns'] is not None:
            kw['namespace'] = d['ns']
        if d['help'] is not None:
            kw['help_str'] = d['help']
        if d['unit'] is not None:
            kw['unit'] = d['unit']
        if d['labels'] or d.get('empty labels'):
            kw['labels'] = labels
        return it.new(md, d['name'], d['type'], **kw)

    def message(self, d):
        """From the service."""
        labels = []
        for key, kind, x in d['labels']:
            if kind == 'static':
                f = {str: 'string_value', bool: 'bool_value', int: 'int_value', float: 'double_value', bytes: 'bytes_value'}[type(x)]
                labels.append(self.label(key, static={f: x}))
            elif kind == 'expr':
                labels.append(self.label(key, expression=x))
            else:
                labels.append(self.label(key))
        kw = {}
        for k, n in (('expr', 'expression'), ('ns', 'namespace'), ('help', 'help'), ('unit', 'unit')):
            if d[k] is not None:
                kw[n] = d[k]
        return self.metric(d['name'], d['type'], labels, **kw)

    def install(self, src, tps):
        """tps: (id, definitions, args[, line])"""
        it = self.it
        base = {'fire_count': '-1', 'fire_period': '0', 'snapshot': 'no_collect'}
        if src == 'service':
            self.service([self.tp(t[0], {k: v for k, v in dict(base, **t[2]).items() if v is not None}, metrics=[self.message(d) for d in t[1]], line=t[3] if len(t) > 3 else 10) for t in tps], 'C17.once')
        elif src == 'code':
            for t in tps:
                v, e = it.attempt(self.register, {k: v for k, v in dict(base, **t[2]).items() if v is not None}, [], [self.definition(d) for d in t[1]], line=t[3] if len(t) > 3 else 10)
                it.check(e is None, 'C17.once', 'register_tracepoint raises %s' % (exc_name(e) if e else ''), e.site if e else None)
            self.settle()

    def one(self, flocals=None, thread='main', tag=''):
        """func (9 to 12) runs once."""
        it = self.it
        f = it.frame('f' + tag, filename='/app/src/target.py', name='func', line=9, first=9, lines=[9, 10, 11, 12], flocals=flocals if flocals is not None else {'a': it.hint('a' + tag)})
        p = Prog(it, it.get(self.hd, 'trace_call'), thread=thread)
        n0 = len(it.events)
        p.call(f, 9)
        p.line(f, 10)
        p.line(f, 11)
        p.ret(f, it.hint('rv'), 11)
        return [e for e in it.events[n0:] if e.kind == 'boundary' and e.thread == thread]


it_missing = object()


class Same:
    """Compares one report with one definition. Returns None or (rule, text)."""

    def __init__(self, it, values, flocals=None):
        self.it, self.values, self.flocals = it, values, flocals

    def look(self, expr):
        v = self.values.get(expr, it_missing)
        if v is it_missing:
            return ('raise', 'NameError')
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'local':
            return self.flocals[v[1]]
        return v

    def raises(self, v):
        return isinstance(v, tuple) and len(v) == 2 and v[0] == 'raise'

    def value(self, got, d):
        it = self.it
        got = it.resolve(got)
        if not d['expr']:
            return self.eq(got, 1)
        v = self.look(d['expr'])
        if self.raises(v):
            return self.eq(got, 1)
        kind = self.kind(v)
        if kind == 'any':
            return isinstance(got, (int, float)) or it.type_of(got) in (int, float)
        if kind == 1:
            return self.eq(got, 1)
        if kind in ('either', 'object'):
            if self.eq(got, 1):
                # the conversion failed
                return kind == 'either' or bool(it.fault)
            return self.number(got, v)
        return self.number(got, v)

    def kind(self, v):
        if isinstance(v, bool) or isinstance(v, int):
            return 'number' if abs(v) < 10 ** 300 else 1
        if isinstance(v, float):
            return 'any' if v != v or v in (float('inf'), -float('inf')) else 'number'
        if isinstance(v, str):
            try:
                float(v)
                return 'either'
            except ValueError:
                return 1
        if isinstance(v, HostVal):
            if v.cls in (int, float, bool):
                return 'number'
            if v.cls is str:
                return 'either'
            if isinstance(v.cls, type):
                return 1
            return 'object'
        return 1

    def number(self, got, v):
        it = self.it
        if isinstance(v, HostVal):
            if got is v:
                return True
            return self.eq(got, v if v.cls is float else it.sym('float', v, ty=float))
        return self.eq(got, float(v))

    def eq(self, a, b):
        it = self.it
        a, b = it.resolve(a), it.resolve(b)
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return a == b
        if isinstance(a, str) != isinstance(b, str):
            return False
        return a is b or it.tri_eq(a, b) is True

    def labels(self, got, d):
        it = self.it
        if isinstance(got, HostVal) or not isinstance(got, dict):
            return 'labels %s' % show(got)
        want = {}
        for key, kind, x in d['labels']:
            want[key] = (kind, x)
        keys = [it.resolve(k) for k in got]
        if sorted(keys) != sorted(want):
            return 'labels %s, defined are %s' % (keys, sorted(want))
        for key, (kind, x) in want.items():
            g = it.resolve(got[key])
            if kind == 'static':
                if not ((type(g) is type(x) and g == x) or (isinstance(g, str) and not isinstance(g, HostVal) and g in (str(x), x.decode() if isinstance(x, bytes) else '\0'))):
                    return 'label %s is %s, the static value is %r' % (key, show(g), x)
            elif kind == 'expr':
                v = self.look(x) if x else None
                if not x:
                    continue
                if self.raises(v):
                    if isinstance(g, HostVal) or it.type_of(g) is not str:
                        return 'label %s is %s, the expression %r fails' % (key, show(g), x)
                    continue
                w = (v if v.cls is str else it.sym('str', v, ty=str)) if isinstance(v, HostVal) else str(v)
                if it.fault and it.fault[1] is v:
                    if it.type_of(g) is not str:
                        return 'label %s is %s' % (key, show(g))
                    continue
                if not self.eq(g, w):
                    return 'label %s is %s, the value of %s is %s' % (key, show(g), x, show(v))
        return None

    def __call__(self, e, d):
        it = self.it
        tag, op, name, labels, ns, help_, unit, value = e.args
        if it.resolve(name) != d['name']:
            return ('C17.identity', 'name %s' % show(name))
        if op != str(d['type']).lower():
            return ('C17.type', 'metric %s of type %s is reported as a %s' % (d['name'], d['type'], op))
        if it.resolve(ns) != (d['ns'] or 'deep'):
            return ('C17.identity', 'namespace %s, defined is %r' % (show(ns), d['ns']))
        for what, g, w in (('help', help_, d['help']), ('unit', unit, d['unit'])):
            g = it.resolve(g)
            if not (g == w or (not w and g in (None, ''))):
                return ('C17.identity', '%s %s, defined is %r' % (what, show(g), w))
        r = self.labels(labels, d)
        if r:
            return ('C17.labels', r)
        if not self.value(value, d):
            return ('C17.value', 'value %s, expression %r%s' % (show(value), d['expr'], '' if not d['expr'] else ' with the value %s' % show(self.look(d['expr']))))
        return None


def check_reports(it, evs, defs, procs, values, flocals=None, what='', skip=(), soft=None):
    """Each definition is reported once to each processor. `skip`: definitions which nothing is said about. `soft`: the rule to
    use for what is missing or wrong."""
    same = Same(it, values, flocals)
    evs = [e for e in evs if e.kind == 'boundary' and e.name == 'metric']
    for p in procs:
        mine = [e for e in evs if e.args[0] == p]
        left = list(mine)
        wrong = []
        for d in defs:
            hit = None
            for e in left:
                if same(e, d) is None:
                    hit = e
                    break
            if hit is not None:
                left.remove(hit)
            else:
                wrong.append(d)
        for d in wrong:
            near = [e for e in left if it.resolve(e.args[2]) == d['name']]
            if near:
                rule, txt = same(near[0], d)
                it.check(False, soft or rule, '%sprocessor %s, metric %s: %s' % (what, p, d['name'], txt), near[0].site)
            it.check(False, soft or 'C17.once', '%smetric %s is not reported to processor %s, it gets %s' % (what, d['name'], p, [e.args[2] for e in mine]))
        left = [e for e in left if it.resolve(e.args[2]) not in skip]
        it.check(not left, 'C17.once', '%sprocessor %s gets %s, defined are %s' % (what, p, [e.args[2] for e in mine], [d['name'] for d in defs]), left[0].site if left else None)
    other = [e for e in evs if e.args[0] not in procs]
    it.check(not other, 'C17.once', '%sa report to %s' % (what, sorted({e.args[0] for e in other})), other[0].site if other else None)
    it.witness.add('reported')


def make(it, kinds):
    return {k: (VALUES[v][0](it) if v in VALUES else ('raise', v)) for k, v in kinds.items()}


def simple(src, defs, kinds, procs=('p1',), args=None, faults=False, flocals=None):
    def fn(it):
        vals = make(it, kinds)
        if faults:
            objs = [v for v in vals.values() if isinstance(v, HostVal) and not isinstance(v.cls, type)]
            it.can_fault = lambda k, target: [TypeError, RuntimeError, SystemExit] if any(target is o for o in objs) and k in ('float', 'str') else []
        s = Setup(it, procs, vals)
        s.install(src, [('tp', defs, args or {})])
        lo = {'a': it.hint('a')}
        evs = s.one(lo)
        check_reports(it, evs, defs, procs, vals, lo)
        want = sorted([d['expr'] for d in defs if d['expr']] + [x for d in defs for _, k, x in d['labels'] if k == 'expr' and x])
        it.check(set(want) == {a[0] for a in s.asked}, 'C17.value', 'expressions %s are evaluated, defined are %s' % ([a[0] for a in s.asked], want))
        for x, l in s.asked:
            for k, v in lo.items():
                it.check(it.resolve(it.getitem(l, k)) is v, 'C17.frame', 'expression %s is not evaluated with the locals of the frame' % x)
    return fn


def any_list(src, procs, n):
    """Every list of up to n definitions from a pool."""
    pool = [
        D('m', 'COUNTER'), D('m', 'GAUGE', 'e1', [('k', 'static', 'v')], 'ns', 'the help', 'ms'), D('h', 'HISTOGRAM', 'bad', [('k', 'expr', 'e2'), ('l', 'expr', 'bad')]),
        D('s', 'SUMMARY', 'text', [('key', 'static', 3), ('b', 'expr', 'e1')], '', '', ''), D('m', 'COUNTER', 'e2'),
    ]

    def fn(it):
        vals = make(it, {'e1': 'hint', 'e2': 'float', 'bad': ['app', 'SystemExit', 'NameError'][it.choose(3, 'error')], 'text': 'text'})
        defs = []
        for k in range(n):
            c = it.choose(len(pool) + 1, 'def %d' % k)
            if c == 0:
                break
            defs.append(pool[c - 1])
        s = Setup(it, procs, vals)
        s.install(src, [('tp', defs, {})])
        lo = {'a': it.hint('a')}
        check_reports(it, s.one(lo), defs, procs, vals, lo)
    return fn


LIST = [D('m1', 'COUNTER', 'n', [('key', 'static', 'v'), ('e', 'expr', 'x')]), D('m2', 'GAUGE', None, [('key', 'expr', 'bad')], 'own', 'help', 'unit'), D('m3', 'SUMMARY', 'bad'), D('m4', 'HISTOGRAM', 'x')]
KINDS = {'n': 'hint', 'x': 'hfloat', 'bad': 'app'}


def failing(src, kind, which):
    """A processor fails: the others get every report, and the program goes on."""
    def fn(it):
        vals = make(it, KINDS)
        procs = ['p1', 'p2', 'p3']
        s = Setup(it, procs, vals)
        s.install(src, [('tp', LIST, {})])
        old = it.boundary_hook
        bad = procs[which] if which is not None else None

        def hook(i, k, args, kw):
            if k == 'metric' and args[0] == bad:
                fail(i, kind)
            return old(i, k, args, kw)
        it.boundary_hook = hook
        for n in range(2):
            evs = s.one({'a': it.hint('a')}, tag=str(n))
            check_reports(it, evs, LIST, [p for p in procs], vals, soft='C17.isolated')
    return fn


def spoiled(src, procs):
    """A processor that changes the labels it is given."""
    def fn(it):
        vals = make(it, KINDS)
        s = Setup(it, procs, vals)
        s.install(src, [('tp', LIST, {})])
        for n in range(2):
            evs = s.one({'a': it.hint('a')}, tag=str(n))
            check_reports(it, evs, LIST, procs, vals, soft='C17.isolated', what='hit %d: ' % (n + 1))
    return fn


def bad_definition(src, typ):
    """A type that does not exist, next to good definitions."""
    def fn(it):
        vals = make(it, KINDS)
        procs = ('p1', 'p2')
        for place in [it.choose(len(LIST) + 1, 'place')]:
            defs = list(LIST)
            defs.insert(place, D('odd', typ, 'n'))
            s = Setup(it, procs, vals)
            s.install(src, [('tp', defs, {})])
            evs = s.one({'a': it.hint('a')})
            check_reports(it, evs, LIST, procs, vals, soft='C17.isolated', skip=('odd',))
    return fn


def type_text(text):
    """The type of a definition in code is a name, in upper or lower case."""
    def fn(it):
        s = Setup(it, ('p1',), {})
        d = D('m', text)
        s.install('code', [('tp', [d], {})])
        check_reports(it, s.one(), [d], ('p1',), {})
    return fn


def several(src, nprocs, lines):
    """Several tracepoints with metrics, at one place or at several."""
    def fn(it):
        vals = make(it, KINDS)
        procs = ['p%d' % k for k in range(nprocs)]
        s = Setup(it, procs, vals)
        groups = [[LIST[0], LIST[1]], [LIST[2]], [D('m1', 'GAUGE', 'x', [('other', 'expr', 'n')]), LIST[3]]]
        more = [{}, {'snapshot': None}, {'log_msg': 'x {n}'}]
        tps = [('tp%d' % k, groups[k], more[k], lines[k]) for k in range(len(lines))]
        if src == 'both':
            s.install('service', tps[:1])
            s.install('code', tps[1:])
        else:
            s.install(src, tps)
        evs = s.one({'a': it.hint('a')})
        check_reports(it, evs, [d for k, ln in enumerate(lines) if ln in (10, 11) for d in groups[k]], procs, vals)
    return fn


MODES = {'plain': {}, 'snapshot': {'snapshot': None}, 'capture': {'snapshot': None, 'stage': 'line_capture'}, 'log': {'log_msg': 'x'}, 'span': {'span': 'line'}, 'method': {'method_name': 'func'},
         'method-capture': {'method_name': 'func', 'stage': 'method_capture', 'snapshot': None}, 'method-span': {'method_name': 'func', 'span': 'method'}, 'line-start': {'stage': 'line_start'}, 'no-frame': {'snapshot': None, 'frame_type': 'no_frame'},
         'cond': {'condition': 'c'}}


def hits(src, mode, fire):
    """Several hits with other locals."""
    def fn(it):
        args, wanted = fire
        vals = {'n': ('local', 'n'), 'x': ('local', 'x'), 'c': True}
        defs = [D('m1', 'COUNTER', 'n', [('key', 'static', 'v'), ('e', 'expr', 'x')]), D('m2', 'GAUGE', 'x')]
        procs = ('p1', 'p2')
        s = Setup(it, procs, vals)
        s.install(src, [('tp', defs, dict(MODES[mode], **args))])
        for k in range(4):
            at_time(it, T0 + k * 10 ** 9)
            lo = {'n': it.hint('n%d' % k), 'x': HostVal('x%d' % k, float)}
            evs = s.one(lo, tag=str(k))
            try:
                check_reports(it, evs, defs if k in wanted else [], procs, vals, lo, what='hit %d: ' % (k + 1))
            except Finding as f:
                if f.rule in ('C17.value', 'C17.labels'):
                    f.rule = 'C17.frame'
                raise
    return fn


def condition(src, value):
    def fn(it):
        vals = {'n': it.hint('n'), 'x': it.hint('x'), 'c': ('raise', 'app') if value == 'error' else value, 'bad': ('raise', 'app')}
        s = Setup(it, ('p1',), vals)
        s.install(src, [('tp', LIST, {'condition': 'c', 'fire_count': '1'})])
        evs = s.one()
        check_reports(it, evs, LIST if value is True else [], ('p1',), vals)
    return fn


def no_processor(src, mode, args, later):
    """Hits without a processor, then with `later`: the budget is all there. Other actions of the tracepoint are as ever."""
    def fn(it):
        vals = make(it, KINDS)
        vals['c'] = True
        s = Setup(it, (), vals)
        s.install(src, [('tp', LIST, dict(MODES[mode], **args))])
        others = []
        for k in range(3):
            evs = s.one(tag=str(k))
            m = [e for e in evs if e.name == 'metric']
            it.check(not m, 'C17.no-processor', 'a metric is reported to no active processor', m[0].site if m else None)
            others.append(len([e for e in evs if e.name in ('push', 'tplog', 'span.create')]))
        asked = [x for x, _ in s.asked]
        it.check(not set(asked) & {'n', 'x', 'bad'}, 'C17.no-processor', 'expressions of the metrics are evaluated without a processor: %s' % asked)
        s.processors(later)
        at_time(it, T0 + 1)
        evs = s.one(tag='l')
        try:
            check_reports(it, evs, LIST, later, vals)
        except Finding as f:
            if f.rule == 'C17.once':
                f.rule, f.msg = 'C17.no-processor', 'after hits without a processor: ' + f.msg
            raise
        # and the budget is used up by that hit
        evs = s.one(tag='m')
        check_reports(it, evs, [], later, vals, what='budget used up: ')
        # the processor goes away, and comes back
        s.processors(())
        evs = s.one(tag='n')
        it.check(not [e for e in evs if e.name == 'metric'], 'C17.no-processor', 'a metric is reported to a processor that is not active any more')
    return fn


def toggled(src):
    """Processors come and go between the hits: reports go to those that are active, and those hits alone count."""
    def fn(it):
        vals = make(it, KINDS)
        s = Setup(it, (), vals)
        s.install(src, [('tp', LIST, {'fire_count': '3'})])
        used = 0
        sets = [(), ('p1',), ('p2', 'p1')]
        for k in range(5):
            procs = sets[it.choose(3, 'processors')]
            s.processors(procs)
            evs = s.one(tag=str(k))
            if procs and used < 3:
                used += 1
                check_reports(it, evs, LIST, procs, vals, what='hit %d: ' % (k + 1))
            else:
                it.check(not [e for e in evs if e.name == 'metric'], 'C17.no-processor' if not procs else 'C17.once', 'hit %d is reported' % (k + 1))
    return fn


def threads(src):
    """Another thread at the same line during the hit."""
    def fn(it):
        vals = {'n': ('local', 'n'), 'x': ('local', 'x')}
        defs = [D('m1', 'COUNTER', 'n', [('e', 'expr', 'x')]), D('m2', 'GAUGE', 'x')]
        procs = ('p1',)
        s = Setup(it, procs, vals)
        s.install(src, [('tp', defs, {})])
        mark = it.nobj
        lo = [{'n': it.hint('n%d' % k), 'x': HostVal('x%d' % k, float)} for k in (0, 1)]
        got = []
        stop = interfere(it, lambda: got.extend(s.one(lo[1], 't2', 't2')), mark)
        evs = s.one(lo[0], tag='1')
        st = stop()
        check_reports(it, evs, defs, procs, vals, lo[0], what='thread 1: ')
        if st['done']:
            check_reports(it, got, defs, procs, vals, lo[1], what='thread 2: ')
    return fn


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for src in ('service', 'code'):
        for t in TYPES:
            out.append(S('type/%s-%s' % (src, t), simple(src, [D('met', t)], {})))
            for v in list(VALUES) + RAISES:
                if quick and TYPES.index(t) % 2 and v in RAISES:
                    continue
                out.append(S('value/%s-%s-%s' % (src, t, v), simple(src, [D('met', t, 'e')], {'e': v}, faults=v == 'obj')))
        for ns in (None, '', 'app', 'deep', 'a.b'):
            for h in (None, '', 'the help'):
                for u in (None, '', 'ms'):
                    out.append(S('identity/%s-%s-%s-%s' % (src, ns, h, u), simple(src, [D('met', 'GAUGE', None, [], ns, h, u), D('other', 'COUNTER', None, [], 'ns2', 'help2', 'unit2')], {})))
        for k, v in STATIC.items():
            out.append(S('static/%s-%s' % (src, k), simple(src, [D('met', 'COUNTER', None, [('key', 'static', v)])], {})))
            out.append(S('static-mixed/%s-%s' % (src, k), simple(src, [D('met', 'SUMMARY', 'e', [('first', 'expr', 'x'), ('key', 'static', v), ('last', 'static', 'l')])], {'e': 'hint', 'x': 'hstr'}, procs=('p1', 'p2'))))
        for v in LABEL_VALUES + RAISES:
            out.append(S('label/%s-%s' % (src, v), simple(src, [D('met', 'HISTOGRAM', None, [('a', 'expr', 'x'), ('key', 'static', 'v'), ('b', 'expr', 'y')])], {'x': v, 'y': 'hint'}, faults=v == 'obj')))
        out.append(S('label/%s-keys' % src, simple(src, [D('met', 'COUNTER', 'e', [('', 'static', 'v'), ('a b', 'expr', 'e'), ('ünï', 'static', 'é'), ('class', 'static', 'c')])], {'e': 'hint'})))
        out.append(S('label/%s-same-expression' % src, simple(src, [D('met', 'COUNTER', 'e', [('a', 'expr', 'e'), ('b', 'expr', 'e')]), D('m2', 'GAUGE', 'e', [('a', 'expr', 'e')])], {'e': 'hint'})))
        out.append(S('empty-expression/%s' % src, simple(src, [D('met', 'COUNTER', '', [('a', 'static', 'x')])], {})))
        out.append(S('label-unset/%s' % src, simple(src, [D('met', 'COUNTER', None, [('a', 'none', None), ('b', 'static', 'x')])], {})))
        for procs in (('p1',), ('p1', 'p2'), ('p1', 'p2', 'p3'), ('both1',), ('both1', 'p1')):
            out.append(S('list/%s-%s' % (src, '-'.join(procs)), simple(src, LIST, KINDS, procs)))
            out.append(S('many/%s-%s' % (src, '-'.join(procs)), simple(src, [D('m%d' % k, TYPES[k % 4], ['n', None, 'bad', 'x'][k % 4], [('k%d' % j, 'static', 'v%d' % j) for j in range(k % 3)]) for k in range(9)], KINDS, procs)))
        out.append(S('any/%s-1' % src, any_list(src, ('p1',), 3), max_paths=3000, max_time=8 if quick else 100))
        out.append(S('any/%s-2' % src, any_list(src, ('p1', 'p2'), 3 if quick else 4), max_paths=3000, max_time=6 if quick else 200))
        for which in (0, 1, 2):
            for kind in ('app', 'ValueError', 'AttributeError', 'SystemExit', 'base', 'KeyboardInterrupt'):
                out.append(S('failing/%s-%d-%s' % (src, which, kind), failing(src, kind, which)))
        out.append(S('spoiled/%s-first' % src, spoiled(src, ('spoils', 'p1', 'p2'))))
        out.append(S('spoiled/%s-middle' % src, spoiled(src, ('p1', 'spoils', 'p2'))))
        out.append(S('spoiled/%s-two' % src, spoiled(src, ('spoils1', 'spoils2'))))
        for lines in ((10, 10), (10, 11), (10, 10, 10), (10, 11, 10), (10, 99)):
            for n in (1, 2):
                out.append(S('several/%s-%s-%d' % (src, '-'.join(map(str, lines)), n), several(src, n, lines)))
        for m in MODES:
            out.append(S('hits/%s-%s' % (src, m), hits(src, m, ({}, (0, 1, 2, 3)))))
            out.append(S('none/%s-%s' % (src, m), no_processor(src, m, {'fire_count': '1'}, ('p1',))))
        for k, fire in enumerate((({'fire_count': '2'}, (0, 1)), ({'fire_period': '1500'}, (0, 2)), ({'fire_count': None, 'fire_period': None}, (0,)), ({'fire_count': '3', 'fire_period': '2000'}, (0, 2)))):
            out.append(S('fire/%s-%d' % (src, k), hits(src, 'plain', fire)))
        for k, a in enumerate(({'fire_count': '1', 'fire_period': '100000'}, {'fire_count': None, 'fire_period': None}, {'fire_count': '-1', 'fire_period': '3600000'})):
            out.append(S('none-fire/%s-%d' % (src, k), no_processor(src, 'plain', a, ('p1', 'p2'))))
        for v in (True, False, None, 'error'):
            out.append(S('condition/%s-%s' % (src, v), condition(src, v)))
        out.append(S('toggled/%s' % src, toggled(src), max_paths=300, max_time=8))
        out.append(S('threads/%s' % src, threads(src), max_paths=2000, max_time=10 if quick else 60))
    out.append(S('several/both', several('both', 2, (10, 10, 10))))
    out += [S('type-text/%s' % t, type_text(t)) for t in ('counter', 'gauge', 'histogram', 'summary', 'Counter', 'GAUGE', 'Histogram', 'SUMMARY')]
    out += [S('bad-type/%s' % t, bad_definition('code', t)) for t in ('bogus', '', 'clear', 'name', '__class__', 'shutdown')]
    return out
