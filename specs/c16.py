"""C16 Log tracepoints emit the template with every field evaluated in place."""
from lib import *

RULES = {
    'C16.one-message': 'one message per permitted hit, none otherwise',
    'C16.text': "the message is '[deep] ', the literal text with escaped braces as braces, and for each field the string of the value of its expression",
    'C16.error-text': 'a field that cannot be evaluated is its error text; everything else of the message is there',
    'C16.frame': 'a field is evaluated in the frame of the hit, at the hit',
    'C16.labels': 'the message is labelled with the id of the tracepoint and the id of the trigger context, each in its place',
    'C16.logger': 'the message goes to the configured tracepoint logger',
    'C16.snapshot-message': 'a snapshot of the same hit has the same message',
    'C16.snapshot-watches': 'a snapshot of the same hit has one LOG watch result per field, in order, with the value or the error of the field',
    'C16.expression': 'every expression can be a field',
}
EXPLANATION = ('Templates are enumerated from a grammar (literals, escapes, fields of every kind of expression, failing ones) and rendered by an independent renderer over '
               'terms; the message, its labels and the snapshot of the hit are compared with it.')

T0 = 10 ** 18
LITERALS = ['text ', '{{', '}}', '100% %s %d %(a)s', ' ctx=%s tracepoint=%s', 'a: b!', '\n', 'ünï ☃ ', '[deep] ', '\\n $x $$', '{{x}}', '}}{{', '"quotes\'']
FIELDS = ['a', 'b.c', "d['k']", 'd["k:v"]', 'l[0]', 'l[-1]', 'fn(a)', 'fn(a, b)', 'a + 1', '(a)', ' a ', 'not a', "'lit'", '12', 'l[1:2]', 'a.b.c(1).d', '_private', '__name__', 'a if b else c', 'a == b',
          'fails', 'fails.attr', 'fails(1)', "fails['k']"]
VALUES = {
    'int': lambda it: 42, 'zero': lambda it: 0, 'neg': lambda it: -7, 'none': lambda it: None, 'true': lambda it: True, 'false': lambda it: False, 'float': lambda it: 1.5, 'empty': lambda it: '',
    'braces': lambda it: '{a} {{b}} }', 'percent': lambda it: '%s %d 100%', 'nl': lambda it: 'x\ny', 'long': lambda it: 'y' * 3000, 'hstr': lambda it: it.hstr('hs'), 'hint': lambda it: it.hint('hi'),
    'obj': lambda it: it.hobj('ho', {'x': it.hint('x')}), 'list': lambda it: it.hlist('hl', [it.hint('e0'), it.hstr('e1')]), 'dict': lambda it: it.hdict('hd', {'k': it.hint('v')}),
    'exc': lambda it: HostVal('he', it.hclass('AppError', 'AppError', (Exception,)), None, {'args': ('x',)}), 'bytes': lambda it: b'raw', 'tuple': lambda it: (1, 'two'),
}


def joined(it, parts):
    """The pieces in a normal form: texts merged."""
    out = []

    def add(p):
        p = it.resolve(p)
        if isinstance(p, Sym) and p.op == 'concat':
            for x in p.args:
                add(x)
        elif isinstance(p, str) and not isinstance(p, HostVal):
            if out and isinstance(out[-1], str):
                out[-1] += p
            elif p:
                out.append(p)
        else:
            out.append(p)
    for p in parts:
        add(p)
    return out


def same_parts(it, a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if type(x) is not type(y) or x != y:
                return False
        elif x is not y and it.tri_eq(x, y) is not True:
            return False
    return True


def string_form(it, v):
    if isinstance(v, HostVal):
        return v if v.cls is str else it.sym('str', v, ty=str)
    return str(v)


APP = {'app': HostError('app error'), 'base': HostBaseError('app base error')}


def fail(i, kind):
    if kind in APP:
        raise PyExc(APP[kind], i.site())
    t = getattr(__import__('builtins'), kind)
    raise PyExc(t('failed: %s {x} %d') if kind != 'KeyError' else KeyError('key'), i.site())


class Setup:
    """One or more log tracepoints; `values`: expression -> value, or ('raise', kind)."""

    def __init__(self, it, tps, values=None, logger=True, plugins=None, default=None):
        h = it.harness()
        self.it = it
        at_time(it, T0)
        it.short = 500
        self.values = dict(values or {})
        self.default = default
        ps = plugins if plugins is not None else ([it.new(h['LogPlug'], 'l')] if logger else []) + [it.new(h['SpanPlug'], 's')]
        self.hd = it.handler(custom={'APP_ROOT': '/app'}, plugins=ps)
        trs = []
        for t in tps:
            tid, template, more = t[:3]
            a = {'log_msg': template, 'fire_count': '-1', 'fire_period': '0'}
            a.update(more)
            trs.append(it.trigger(tid, 'target.py', 10, a, watches=list(t[3]) if len(t) > 3 else []))
        it.install(self.hd, trs)
        it.eval_hook = self.ev
        self.asked = []

    def ev(self, i, name, expr, g, lo, scope):
        self.asked.append((expr, lo, i.thread))
        if not isinstance(expr, str):
            return self.default
        key = expr.strip()
        v = self.values.get(key, self.values.get(expr, self.default))
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'raise':
            fail(i, v[1])
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'local':
            return i.getitem(lo, v[1]) if hasattr(i, 'getitem') else lo[v[1]]
        return v

    def hit(self, flocals=None, thread='main', tag='', extra=True):
        """The function is entered, line 10, line 11, return. Returns the events."""
        it = self.it
        f = it.frame('f' + tag, name='func', line=9, flocals=flocals or {'a': it.hint('la' + tag)})
        p = Prog(it, it.get(self.hd, 'trace_call'), thread=thread)
        n0 = len(it.events)
        p.call(f, 9)
        p.line(f, 10)
        p.line(f, 11)
        p.ret(f, it.hint('rv'), 11)
        return [e for e in it.events[n0:] if e.kind == 'boundary' and e.thread == thread]


def expected(it, pieces, values):
    """pieces: ('lit', text) or ('field', expression). Returns (parts, [(expression, value or None, error parts or None)])."""
    parts, fields = ['[deep] '], []
    for kind, x in pieces:
        if kind == 'lit':
            parts.append(x.replace('{{', '{').replace('}}', '}'))
        else:
            v = values[x.strip()]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'raise':
                t = error_text(it, v[1])
                parts.append(t)
                fields.append((x, None, t))
            else:
                parts.append(string_form(it, v))
                fields.append((x, v, None))
    return joined(it, parts), fields


def error_text(it, kind):
    if kind in APP:
        return it.sym('str', APP[kind], ty=str)
    if kind == 'KeyError':
        return str(KeyError('key'))
    return 'failed: %s {x} %d'


def template_of(pieces):
    return ''.join(x if k == 'lit' else '{%s}' % x for k, x in pieces)


def check_hit(it, evs, tid, pieces, values, collects, watches=(), what='', rule_err=True, n=1):
    """The effects of one hit for one tracepoint."""
    parts, fields = expected(it, pieces, values)
    logs = [e for e in evs if e.name == 'tplog' and it.resolve(e.args[2]) == tid]
    it.check(len(logs) == n, 'C16.one-message', '%s: %d messages of %s for one hit' % (what, len(logs), tid), logs[0].site if logs else None)
    snaps = [e for e in evs if e.name == 'push' and it.resolve(tp_of(it, e.args[0])) == tid]
    it.check(len(snaps) == (1 if collects else 0), 'C16.one-message', '%s: %d snapshots of %s' % (what, len(snaps), tid))
    failing = any(f[2] is not None for f in fields)
    rule = 'C16.error-text' if failing else 'C16.text'
    spans = [e for e in evs if e.name == 'span.create' and it.resolve(e.args[3]) == tid]
    for e in logs:
        got = joined(it, [e.args[1]])
        it.check(same_parts(it, got, parts), rule, '%s: the message is %s, the template %r gives %s' % (what, show(got)[:400], template_of(pieces), show(parts)[:400]), e.site)
        for s in spans:
            it.check(it.tri_eq(e.args[3], s.args[2]) is True, 'C16.labels', '%s: the message has the context id %s, the span %s' % (what, show(e.args[3]), show(s.args[2])), e.site)
        it.check(it.resolve(e.args[3]) != tid, 'C16.labels', '%s: the context id is that of the tracepoint' % what, e.site)
    for e in snaps:
        snap = e.args[0]
        got = joined(it, [it.get(snap, 'log_msg')])
        it.check(same_parts(it, got, parts), 'C16.snapshot-message', '%s: the snapshot has the message %s, expected %s' % (what, show(got)[:300], show(parts)[:300]), e.site)
        ctx = None
        for k, v in it.iterate(it.m(it.get(snap, 'attributes'), 'items')):
            if it.resolve(k) == 'context':
                ctx = v
        for x in logs:
            it.check(ctx is not None and it.tri_eq(ctx, x.args[3]) is True, 'C16.labels', '%s: the message has the context id %s, the snapshot %s' % (what, show(x.args[3]), show(ctx)), x.site)
        ws = watch_results(it, snap)
        mine = [w for w in ws if w[1] == 'LOG']
        it.check([w[0] for w in ws if w[1] == 'WATCH'] == list(watches), 'C16.snapshot-watches', '%s: the watches are %s' % (what, [w[0] for w in ws if w[1] == 'WATCH']), e.site)
        it.check([w[0].strip() for w in mine] == [f[0].strip() for f in fields], 'C16.snapshot-watches', '%s: LOG watches %s, the fields are %s' % (what, [w[0] for w in mine], [f[0] for f in fields]), e.site)
        sc = SnapCheck(it, snap, 'C16.snapshot-watches')
        for w, (x, v, err) in zip(mine, fields):
            if err is not None:
                it.check(w[2] is None and same_parts(it, joined(it, [w[3]]), joined(it, [err])), 'C16.snapshot-watches', '%s: field {%s} fails with %r, the watch has result %s, error %s' % (what, x, err, show(w[2]), show(w[3])), e.site)
            else:
                it.check(w[3] is None and w[2] is not None, 'C16.snapshot-watches', '%s: field {%s}: result %s, error %s' % (what, x, show(w[2]), show(w[3])), e.site)
                ent = sc.entry(it.get(w[2], 'vid'), 'LOG %s' % x)
                sc.value(ent, v, 'LOG watch {%s}' % x)
    return logs, snaps


MODES = {'log': ({'snapshot': 'no_collect'}, False), 'snap': ({}, True), 'span': ({'span': 'line'}, True), 'capture': ({'stage': 'line_capture'}, True), 'noframe': ({'frame_type': 'no_frame'}, True),
         'method': ({'method_name': 'func'}, True), 'mlog': ({'method_name': 'func', 'snapshot': 'no_collect', 'span': 'method'}, False), 'mcap': ({'stage': 'method_capture', 'method_name': 'func'}, True)}


def value_table(it, exprs, kinds):
    vals = {}
    for k, x in enumerate(exprs):
        vals[x.strip()] = VALUES[kinds[k % len(kinds)]](it)
    return vals


def rendered(pieces, mode, kinds, fails='NameError', watches=()):
    def fn(it):
        exprs = []
        for k, x in pieces:
            if k == 'field' and x not in exprs:
                exprs.append(x)
        vals = value_table(it, exprs, kinds)
        for x in exprs:
            if 'fails' in x:
                vals[x.strip()] = ('raise', fails)
        for w in watches:
            vals[w] = it.hint('watch ' + w)
        more, collects = MODES[mode]
        s = Setup(it, [('tp', template_of(pieces), more, watches)], vals)
        evs = s.hit()
        check_hit(it, evs, 'tp', pieces, vals, collects, watches, 'hit')
        want = [x.strip() for k, x in pieces if k == 'field']
        asked = [a[0].strip() for a in s.asked if a[0].strip() not in watches]
        it.check(sorted(set(asked)) == sorted(set(want)), 'C16.text', 'expressions %s are evaluated, the template has %s' % (asked, want))
    return fn


def any_template(n, mode, pool, lits):
    """Every template of up to n pieces."""
    def fn(it):
        pieces = []
        for k in range(n):
            c = it.choose(len(pool) + len(lits) + 1, 'piece %d' % k)
            if c == 0:
                break
            c -= 1
            pieces.append(('field', pool[c]) if c < len(pool) else ('lit', lits[c - len(pool)]))
        rendered(pieces, mode, list(VALUES), ['NameError', 'app', 'SystemExit'][len(pieces) % 3])(it)
    return fn


def hits(mode, template, fire):
    """Several hits with other locals: each message has the values of its own frame; as many messages as permitted hits."""
    def fn(it):
        args, wanted_hits = fire
        more, collects = MODES[mode]
        pieces = [('lit', 'v='), ('field', 'a'), ('lit', ' w='), ('field', 'b')]
        m = dict(more)
        m.update(args)
        s = Setup(it, [('tp', template_of(pieces), m)], {'a': ('local', 'a'), 'b': ('local', 'b')})
        for k in range(4):
            at_time(it, T0 + k * 10 ** 9)
            lo = {'a': it.hint('a%d' % k), 'b': it.hstr('b%d' % k)}
            evs = s.hit(lo, tag=str(k))
            if k in wanted_hits:
                try:
                    check_hit(it, evs, 'tp', pieces, lo, collects, what='hit %d' % (k + 1))
                except Finding as f:
                    if f.rule == 'C16.text':
                        f.rule = 'C16.frame'
                    raise
            else:
                it.check(not [e for e in evs if e.name == 'tplog'], 'C16.one-message', 'a message for hit %d, which is not permitted' % (k + 1))
    return fn


def several(modes, same=False):
    """Several log tracepoints on one line: each its own message, label and watches."""
    def fn(it):
        ctxs = {}
        tps, want = [], []
        vals = {'a': it.hint('va'), 'b': it.hstr('vb'), 'x.y': it.hobj('vx', {'q': it.hint('q')}), 'fails': ('raise', 'app')}
        P = [[('lit', 'one '), ('field', 'a')], [('field', 'b'), ('lit', ' two '), ('field', 'a')], [('field', 'fails'), ('field', 'x.y')]]
        for k, m in enumerate(modes):
            pieces = P[0 if same else k % 3]
            tps.append(('tp%d' % k, template_of(pieces), MODES[m][0]))
            want.append(pieces)
        s = Setup(it, tps, vals)
        evs = s.hit()
        for k, m in enumerate(modes):
            logs, _ = check_hit(it, evs, 'tp%d' % k, want[k], vals, MODES[m][1], what='tp%d of %s' % (k, modes))
            ctxs['tp%d' % k] = (MODES[m][0].get('method_name') is not None, logs[0].args[3])
        # the actions of one trigger have the id of one context
        for a in ctxs.values():
            for b in ctxs.values():
                it.check((it.tri_eq(a[1], b[1]) is True) == (a[0] == b[0]), 'C16.labels', 'context ids %s, %s at %s' % (show(a[1]), show(b[1]), 'one trigger' if a[0] == b[0] else 'two triggers'))
    return fn


def builtin_logger(mode):
    """With the logger that is built in: the text and the labels are in the record, and % in the text is not a format."""
    def fn(it):
        cls = it.public('deep.api.plugin.python', 'PythonPlugin')
        pieces = [('lit', '100% '), ('field', 'a'), ('lit', ' %s'), ('field', 'b')]
        vals = {'a': it.hint('va'), 'b': '%d'}
        h = it.harness()
        s = Setup(it, [('tp-id', template_of(pieces), MODES[mode][0])], vals, plugins=[it.new(cls), it.new(h['SpanPlug'], 's')])
        n0 = len(it.events)
        evs = s.hit()
        parts, _ = expected(it, pieces, vals)
        ctx = None
        for e in evs:
            if e.name == 'span.create':
                ctx = e.args[2]
            if e.name == 'push':
                for k, v in it.iterate(it.m(it.get(e.args[0], 'attributes'), 'items')):
                    if it.resolve(k) == 'context':
                        ctx = v
        recs = []
        for e in it.events[n0:]:
            if e.kind == 'log':
                level, msg, args = e.args[0], e.args[1], e.args[2]
                args = tuple(args)
                if args:
                    txt = it.attempt(it.percent, msg, args)[0]
                    if txt is None:
                        continue
                    msg = txt
                p = joined(it, [msg])
                if any(isinstance(x, str) and '[deep]' in x for x in p):
                    recs.append((e, p, level))
        it.check(len(recs) == 1, 'C16.one-message', '%d log records for one hit' % len(recs), recs[0][0].site if recs else None)
        e, p, level = recs[0]
        want = joined(it, parts)
        it.check(level not in ('debug', 10), 'C16.logger', 'the message is logged with the level %s' % level, e.site)
        k = len(want)
        head = p[:k]
        if len(p) >= k and isinstance(want[-1], str) and isinstance(p[k - 1], str):
            it.check(p[k - 1].startswith(want[-1]), 'C16.text', 'the record is %s, the message %s' % (show(p), show(want)), e.site)
            head = p[:k - 1] + [want[-1]]
            rest = [p[k - 1][len(want[-1]):]] + p[k:]
        else:
            rest = p[k:]
        it.check(same_parts(it, head, want), 'C16.text', 'the record is %s, the message %s' % (show(p), show(want)), e.site)
        rest = joined(it, rest)
        ok = any(x is ctx or (isinstance(x, Sym) and mentions(x, ctx)) for x in rest) if ctx is not None else True
        it.check(ok and any(isinstance(x, str) and 'tp-id' in x for x in rest), 'C16.labels', 'the labels of the record are %s (tracepoint tp-id, context %s)' % (show(rest), show(ctx)), e.site)
        # each in its own place
        flat = ''.join(x if isinstance(x, str) else '<CTX>' for x in rest)
        it.check(flat.replace(' ', '') in ('ctx=<CTX>tracepoint=tp-id',) or not ('ctx=' in flat and 'tracepoint=' in flat), 'C16.labels', 'the labels of the record are %r' % flat, e.site)
    return fn


def loggers(which):
    """The tracepoint logger is the one that is configured."""
    def fn(it):
        h = it.harness()
        span, deco = it.new(h['SpanPlug'], 's'), it.new(h['DecoratorPlug'], 'd', None)
        l1, l2 = it.new(h['LogPlug'], 'l1'), it.new(h['LogPlug'], 'l2')
        ps = {'only': [l1], 'last': [span, deco, l1], 'first': [l1, span, deco], 'none': [span, deco], 'two': [deco, l1, l2]}[which]
        pieces = [('lit', 'm '), ('field', 'a')]
        vals = {'a': it.hint('va')}
        s = Setup(it, [('tp', template_of(pieces), {})], vals, plugins=ps)
        evs = s.hit()
        if which == 'none':
            snaps = [e for e in evs if e.name == 'push']
            it.check(len(snaps) == 1, 'C16.one-message', 'without a logger there are %d snapshots' % len(snaps))
            got = joined(it, [it.get(snaps[0].args[0], 'log_msg')])
            it.check(same_parts(it, got, expected(it, pieces, vals)[0]), 'C16.snapshot-message', 'without a logger the snapshot has the message %s' % show(got))
            return
        logs, _ = check_hit(it, evs, 'tp', pieces, vals, True, what=which)
        it.check(logs[0].args[0] == 'l1', 'C16.logger', 'the message goes to %s' % show(logs[0].args[0]))
    return fn


def bad_str(mode, kind):
    """The value of a field, or the exception of it, has no string: the rest of the message is still there."""
    def fn(it):
        more, collects = MODES[mode]
        vals = {'a': it.hint('va'), 'o': it.hobj('odd', {'x': it.hint('x')}), 'b': it.hstr('vb')}
        pieces = [('lit', 'one '), ('field', 'a'), ('lit', ' two '), ('field', 'o'), ('lit', ' three '), ('field', 'b'), ('lit', ' end')]
        cls = it.hclass('AppError', 'AppError', (Exception,))
        exc = HostError('odd')
        odd = vals['o']
        if kind == 'error':
            vals['o'] = ('raise', 'app')
            it.can_fault = lambda k, target: [RuntimeError] if k == 'exc-str' else []
        else:
            c = {'value': RuntimeError, 'value-exit': SystemExit}[kind]
            it.can_fault = lambda k, target: [c] if target is odd else []
        s = Setup(it, [('tp', template_of(pieces), more)], vals)
        evs = s.hit()
        logs = [e for e in evs if e.name == 'tplog']
        it.check(len(logs) == 1, 'C16.one-message', '%d messages when the string of a field fails' % len(logs))
        p = joined(it, [logs[0].args[1]])
        before = joined(it, ['[deep] one ', string_form(it, vals['a']), ' two '])
        after = joined(it, [' three ', string_form(it, vals['b']), ' end'])
        flat = [x for x in p]
        # the text around the field is there
        ok = len(flat) >= 4 and flat[0] == before[0] and same_parts(it, [flat[1]], [before[1]]) and isinstance(flat[2], str) and flat[2].startswith(' two ') \
            and flat[-1] == ' end' and same_parts(it, [flat[-2]], [after[1]]) and isinstance(flat[-3], str) and flat[-3].endswith(' three ')
        it.check(ok, 'C16.error-text', 'the message is %s' % show(p), logs[0].site)
        if collects:
            ws = [w for w in watch_results(it, [e for e in evs if e.name == 'push'][0].args[0]) if w[1] == 'LOG']
            it.check([w[0] for w in ws] == ['a', 'o', 'b'], 'C16.snapshot-watches', 'LOG watches %s' % [w[0] for w in ws])
    return fn


def limited(args, mode='snap'):
    """The limits of the collection do not limit the message, nor the number of watch results."""
    def fn(it):
        m = dict(MODES[mode][0])
        m.update(args)
        vals = {'a': it.hobj('va', {'x': it.hint('x')}), 'b': 'z' * 50, 'c': it.hlist('vc', [it.hint('c%d' % k) for k in range(4)]), 'fails': ('raise', 'ValueError')}
        pieces = [('field', 'a'), ('lit', '|'), ('field', 'b'), ('lit', '|'), ('field', 'c'), ('field', 'fails'), ('field', 'a')]
        s = Setup(it, [('tp', template_of(pieces), m)], vals)
        evs = s.hit({'l%d' % k: it.hint('l%d' % k) for k in range(3)})
        parts, fields = expected(it, pieces, vals)
        logs = [e for e in evs if e.name == 'tplog']
        it.check(len(logs) == 1, 'C16.one-message', '%d messages' % len(logs))
        it.check(same_parts(it, joined(it, [logs[0].args[1]]), parts), 'C16.text', 'the message is %s, expected %s' % (show(joined(it, [logs[0].args[1]])), show(parts)), logs[0].site)
        for e in evs:
            if e.name == 'push':
                ws = [w for w in watch_results(it, e.args[0]) if w[1] == 'LOG']
                it.check([w[0] for w in ws] == [f[0] for f in fields], 'C16.snapshot-watches', 'LOG watches %s' % [w[0] for w in ws], e.site)
                sc = SnapCheck(it, e.args[0], 'C16.snapshot-watches', Limits(string=1024))
                for w in ws:
                    it.check((w[2] is None) != (w[3] is None), 'C16.snapshot-watches', 'LOG watch %s has result %s, error %s' % (w[0], show(w[2]), show(w[3])), e.site)
                    if w[2] is not None:
                        sc.entry(it.get(w[2], 'vid'), 'LOG %s' % w[0])
    return fn


def malformed(template, mode):
    def fn(it):
        more, collects = MODES[mode]
        s = Setup(it, [('tp', template, more)], {}, default=it.hint('any'))
        evs = s.hit()
        logs = [e for e in evs if e.name == 'tplog']
        it.check(len(logs) == 1, 'C16.one-message', '%d messages with the template %r' % (len(logs), template))
        p = joined(it, [logs[0].args[1]])
        it.check(p and isinstance(p[0], str) and p[0].startswith('[deep] '), 'C16.text', 'the message is %s' % show(p))
        it.check(len([e for e in evs if e.name == 'push']) == (1 if collects else 0), 'C16.one-message', 'no snapshot with the template %r' % template)
    return fn


def expression(text, mode):
    """Any expression can be a field, also next to others and to failing ones."""
    def fn(it):
        vals = {text.strip(): it.hint('value'), 'a': it.hint('va'), 'x y': ('raise', 'SyntaxError'), '': ('raise', 'SyntaxError')}
        pieces = [[('lit', 'v: '), ('field', text), ('lit', ' .')], [('field', 'x y'), ('lit', ' x '), ('field', text), ('field', 'a')], [('field', text), ('lit', '{{'), ('field', 'x y'), ('lit', '}}'), ('field', text)],
                  [('field', ''), ('lit', '}} '), ('field', text)]][it.choose(4, 'place')]
        s = Setup(it, [('tp', template_of(pieces), MODES[mode][0])], vals, default=it.hint('other value'))
        evs = s.hit()
        logs = [e for e in evs if e.name == 'tplog']
        it.check(len(logs) == 1, 'C16.one-message', '%d messages' % len(logs))
        it.check(same_parts(it, joined(it, [logs[0].args[1]]), expected(it, pieces, vals)[0]), 'C16.expression',
                 'the field {%s} is not evaluated as that expression: the message is %s' % (text, show(joined(it, [logs[0].args[1]]))), logs[0].site)
    return fn


def threads(mode):
    """Another thread at the same line during the hit: each message has its own values and labels."""
    def fn(it):
        more, collects = MODES[mode]
        pieces = [('field', 'a'), ('lit', ' - '), ('field', 'b')]
        s = Setup(it, [('tp', template_of(pieces), more)], {'a': ('local', 'a'), 'b': ('local', 'b')})
        mark = it.nobj
        lo1 = {'a': it.hint('a1'), 'b': it.hstr('b1')}
        lo2 = {'a': it.hint('a2'), 'b': it.hstr('b2')}
        got = []
        stop = interfere(it, lambda: got.extend(s.hit(lo2, 't2', 't2')), mark)
        evs = s.hit(lo1, tag='1')
        st = stop()
        l1, _ = check_hit(it, evs, 'tp', pieces, lo1, collects, what='thread 1')
        if st['done']:
            l2, _ = check_hit(it, got, 'tp', pieces, lo2, collects, what='thread 2')
            it.check(it.tri_eq(l1[0].args[3], l2[0].args[3]) is not True, 'C16.labels', 'two triggers have one context id')
    return fn


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    vk = list(VALUES)
    for m in MODES:
        for i, l in enumerate(LITERALS):
            out.append(S('literal/%s-%d' % (m, i), rendered([('lit', l)], m, vk)))
            if m in ('log', 'snap'):
                out.append(S('literal-field/%s-%d' % (m, i), rendered([('lit', l), ('field', 'a'), ('lit', l)], m, vk[i:] + vk[:i])))
        out.append(S('empty/%s' % m, rendered([], m, vk)))
        out.append(S('repeated/%s' % m, rendered([('field', 'a'), ('field', 'a'), ('lit', 'x'), ('field', 'a')], m, vk)))
        out.append(S('watches/%s' % m, rendered([('field', 'a'), ('field', 'fails')], m, vk, watches=('w1', 'w2'))))
    for i, f in enumerate(FIELDS):
        for m in ('log', 'snap', 'capture'):
            out.append(S('field/%s-%s' % (m, f), rendered([('lit', 'x '), ('field', f), ('lit', ' y')], m, vk[i % len(vk):] + vk)))
    for v in VALUES:
        for m in ('log', 'snap', 'method'):
            out.append(S('value/%s-%s' % (m, v), rendered([('lit', 'x'), ('field', 'a'), ('lit', 'y'), ('field', 'b.c')], m, [v])))
    for e in ('NameError', 'AttributeError', 'ZeroDivisionError', 'SyntaxError', 'KeyError', 'StopIteration', 'ValueError', 'SystemExit', 'KeyboardInterrupt', 'GeneratorExit', 'RecursionError', 'app', 'base'):
        for m in ('log', 'snap', 'mcap') if not quick else ('log', 'snap'):
            for k, ps in enumerate(([('field', 'fails')], [('lit', 'a '), ('field', 'a'), ('field', 'fails'), ('lit', ' b '), ('field', 'l[0]')],
                                    [('field', 'fails'), ('field', 'fails(1)'), ('lit', '%s')])):
                out.append(S('error/%s-%s-%d' % (m, e, k), rendered(ps, m, vk, e)))
    for m in ('log', 'snap'):
        out.append(S('any/%s' % m, any_template(4, m, ['a', 'b.c', 'fails', "d['k']"], ['{{', '}}', 'lit ', '%s']), max_paths=20000, max_time=25 if quick else 240))
    for m in ('log', 'snap', 'capture', 'mlog'):
        for k, fire in enumerate((({}, (0, 1, 2, 3)), ({'fire_count': '2'}, (0, 1)), ({'fire_period': '1500'}, (0, 2)), ({'fire_count': '1'}, (0,)), ({'fire_count': 'x', 'fire_period': 'y'}, (0,)))):
            out.append(S('hits/%s-%d' % (m, k), hits(m, '', fire)))
    for a in ('log', 'snap', 'span', 'method'):
        for b in ('log', 'snap', 'capture', 'mlog'):
            out.append(S('several/%s-%s' % (a, b), several([a, b])))
            out.append(S('several-same/%s-%s' % (a, b), several([a, b], True)))
    out.append(S('several/log-snap-log', several(['log', 'snap', 'log'])))
    out.append(S('several/snap-log-mlog-capture', several(['snap', 'log', 'mlog', 'capture'])))
    out += [S('builtin/%s' % m, builtin_logger(m)) for m in ('span', 'snap', 'capture', 'mlog')]
    out += [S('loggers/%s' % w, loggers(w)) for w in ('only', 'first', 'last', 'none', 'two')]
    for m in ('log', 'snap', 'mlog'):
        out += [S('bad-str/%s-%s' % (m, k), bad_str(m, k)) for k in ('value', 'value-exit', 'error')]
        out += [S('malformed/%s-%s' % (m, t), malformed(t, m)) for t in ('{', '}', 'a {b', 'a} b', '{a} {', '{}', '{a!x}', '{a:?}', '{a[}', '{{{', '{a:{b}}', '{:}')]
        for x in ('a != b', "fn('a: b')", "fn('wow!')", " {'k': 1}['k']", "d.get('k', {})", "fn('}')", "fn('{a}')", 'fn(lambda x: x)', '[x for x in l if x != 2]', "'{}'.format(a)", 'l[1:2]', 'a  !=  b',
                  'x if x else {}', 'fn(k={1: 2, 3: 4})', '(lambda: a)()', "d['{']", "d['}']", "d['!r']"):
            out.append(S('expression/%s-%s' % (m, x), expression(x, m)))
    for a in ({'MAX_VARIABLES': '0'}, {'MAX_VARIABLES': '3'}, {'MAX_STRING_LENGTH': '5'}, {'MAX_COLLECTION_SIZE': '1'}, {'MAX_VAR_DEPTH': '1'}):
        out.append(S('limited/%s' % '-'.join('%s' % x for x in list(a.items())[0]), limited(a)))
        out.append(S('limited-capture/%s' % '-'.join('%s' % x for x in list(a.items())[0]), limited(a, 'capture')))
    for m in ('log', 'snap'):
        out.append(S('threads/%s' % m, threads(m), max_paths=2000, max_time=15 if quick else 100))
    return out
