"""C03 Trigger placement."""
from lib import *

RULES = {
    'C03.fires-only-there': 'an action effect on an event implies: the event kind, the base name of the code\'s file and the line '
                            '(function name) are those of the tracepoint',
    'C03.fires-there': 'on a path on which kind, file and line/function are those of the tracepoint, its action has an effect',
    'C03.independent': 'every tracepoint of a location acts, whatever the others do',
    'C03.keeps-watching': 'the trace function keeps getting events of a frame after events with no matching location',
    'C03.resumed': 'the resumption of a generator is not an entry of its function',
    'C03.no-match-no-effect': 'without a matching location nothing happens',
}
EXPLANATION = 'One event of every kind in frames with any line, in files with equal, similar and different names, and event streams with several tracepoints.'
EVENTS = ['line', 'call', 'return', 'exception', 'opcode']
FILES = ['/app/src/target.py', '/app/other/target.py', 'target.py', '/app/src/xtarget.py', '/app/src/target.pyc', '/app/src/Target.py',
         '/app/target.py/other.py', '/app/src/target', '<string>']
MATCH = {'/app/src/target.py', '/app/other/target.py', 'target.py'}


def ev_arg(it, event):
    if event == 'exception':
        return (ValueError, it.hobj('err'), it.hobj('tb'))
    if event == 'return':
        return it.hobj('retval')
    return None


def line_any(event, filename, kind):
    """One line tracepoint of each kind, one event of an arbitrary frame."""
    def fn(it):
        args = {'snapshot': {}, 'log': {'snapshot': 'no_collect', 'log_msg': 'hello'}, 'metric': {'snapshot': 'no_collect'},
                'span': {'snapshot': 'no_collect', 'span': 'line'}}[kind]
        h = it.harness()
        plugs = [it.new(h['MetricPlug'], 'm'), it.new(h['SpanPlug'], 's'), it.new(h['LogPlug'], 'l')]
        hd = it.handler(plugins=plugs)
        L, N = it.intsym('tracepoint.line', 1), it.intsym('frame.line', 1)
        metrics = [it.new(it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition'), 'met', 'COUNTER')] if kind == 'metric' else []
        it.install(hd, [it.trigger('tp1', 'target.py', L, args, metrics=metrics)])
        f = it.frame('f', filename=filename, name='func', line=N)
        r = Prog(it, it.get(hd, 'trace_call')).deliver(it.get(hd, 'trace_call'), f, event, ev_arg(it, event))
        acted = effects_of(it)
        same = it.tri_eq(L, N)
        there = event == 'line' and filename in MATCH
        if acted:
            it.check(there and same is True, 'C03.fires-only-there',
                     'a line tracepoint on target.py acts on a %r event in %s with line %s' % (event, filename, {True: 'equal', False: 'different', None: 'not compared'}[same]))
            it.check(acted == [(kind, 'tp1' if kind != 'metric' else 'met')], 'C03.fires-there', 'unexpected actions %s' % (acted,))
            it.witness.add('acted')
        else:
            it.check(not (there and same is not False), 'C03.fires-there',
                     'a line event at line of target.py and no %s action' % kind)
            it.witness.add('quiet')
        if event == 'call':
            it.check(r is not None, 'C03.keeps-watching', 'the call event returns no local trace function')
    return fn


def method_any(event, filename, fname, stage):
    def fn(it):
        hd = it.handler()
        args = {'method_name': 'func', **stage}
        tl = it.intsym('tracepoint.line', 0)
        it.install(hd, [it.trigger('tp1', 'target.py', tl, args)])
        N = it.intsym('frame.line', 1)
        first = it.intsym('first.line', 1)
        f = it.frame('f', filename=filename, name=fname, line=N, first=first, lines=[N])
        r = Prog(it, None).deliver(it.get(hd, 'trace_call'), f, event, ev_arg(it, event))
        acted = effects_of(it)
        there = event == 'call' and filename in MATCH and fname == 'func'
        if there:
            it.check(len(acted) == 1, 'C03.fires-there', 'func of target.py is entered and the method tracepoint does not act once (%d)' % len(acted))
        else:
            it.check(not acted, 'C03.fires-only-there', 'a method tracepoint on func of target.py acts on a %r event of %s in %s' % (event, fname, filename))
        if event == 'call':
            it.check(r is not None, 'C03.keeps-watching', 'the call event returns no local trace function')
    return fn


def nameless(event, filename, span):
    """A method tracepoint without a name: its own file, on entry only."""
    def fn(it):
        h = it.harness()
        hd = it.handler(plugins=[it.new(h['SpanPlug'], 's')])
        it.install(hd, [it.trigger('tp1', 'target.py', 12, {'span': 'method', 'snapshot': 'no_collect'} if span else {'stage': 'method_start'})])
        lo, hi = it.intsym('code.first', 1), it.intsym('code.second', 1)
        f = it.frame('f', filename=filename, name='func', line=lo, first=lo, lines=[lo, hi])
        Prog(it, None).deliver(it.get(hd, 'trace_call'), f, event, ev_arg(it, event))
        acted = effects_of(it)
        if event != 'call' or filename not in MATCH:
            it.check(not acted, 'C03.fires-only-there', 'a method tracepoint of target.py acts on %r in %s' % (event, filename))
    return fn


def several(case):
    """Several tracepoints: each acts at its own place."""
    def fn(it):
        h = it.harness()
        hd = it.handler(plugins=[it.new(h['LogPlug'], 'l'), it.new(h['SpanPlug'], 's')])
        unl = {'fire_count': '-1', 'fire_period': '0'}
        log = {'snapshot': 'no_collect', 'log_msg': 'x', **unl}
        mk = it.trigger
        sets = {
            'same-line': ([mk('a', 'target.py', 10, unl), mk('b', 'target.py', 10, unl)], {('line', 10): ['a', 'b']}),
            'same-line-3': ([mk('a', 'target.py', 10, unl), mk('b', 'target.py', 11, unl), mk('c', 'target.py', 10, log)], {('line', 10): ['a', 'c'], ('line', 11): ['b']}),
            'other-file-first': ([mk('a', 'other.py', 10, unl), mk('b', 'target.py', 10, unl)], {('line', 10): ['b']}),
            'other-file-last': ([mk('b', 'target.py', 10, unl), mk('a', 'other.py', 10, unl)], {('line', 10): ['b']}),
            'line-and-method': ([mk('a', 'target.py', 10, unl), mk('m', 'target.py', 0, {'method_name': 'func', **unl})], {('line', 10): ['a'], ('call', 9): ['m']}),
            'method-and-line': ([mk('m', 'target.py', 0, {'method_name': 'func', **unl}), mk('a', 'target.py', 9, unl)], {('call', 9): ['m'], ('line', 9): ['a']}),
            'two-methods': ([mk('m', 'target.py', 0, {'method_name': 'func', **unl}), mk('n', 'target.py', 0, {'method_name': 'func', **unl}), mk('o', 'target.py', 0, {'method_name': 'func2', **unl})], {('call', 9): ['m', 'n']}),
            'spent-first': ([mk('z', 'target.py', 10, {'fire_count': '0'}), mk('a', 'target.py', 10, unl)], {('line', 10): ['a']}),
            'bad-condition-first': ([mk('z', 'target.py', 10, {'condition': '@@bad', **unl}), mk('a', 'target.py', 10, unl)], {('line', 10): ['a']}),
            'false-condition-first': ([mk('z', 'target.py', 10, {'condition': 'False', **unl}), mk('a', 'target.py', 10, unl)], {('line', 10): ['a']}),
            'never-reached': ([mk('z', 'target.py', 99, unl)], {}),
            'span-first': ([mk('z', 'target.py', 10, {'span': 'line', 'snapshot': 'no_collect', **unl}), mk('a', 'target.py', 10, unl)], {('line', 10): ['z', 'a']}),
            'adjacent-lines': ([mk('a', 'target.py', 9, unl), mk('b', 'target.py', 10, unl), mk('c', 'target.py', 11, unl), mk('d', 'target.py', 12, unl)],
                               {('line', 9): ['a'], ('line', 10): ['b'], ('line', 11): ['c'], ('line', 12): ['d']}),
        }
        trig, want = sets[case]

        def ev(i, name, expr, g, lo, scope):
            if expr == 'False':
                return False
            raise PyExc(SyntaxError('bad'), i.site())
        it.eval_hook = ev
        it.install(hd, trig)
        p = Prog(it, it.get(hd, 'trace_call'))
        f = it.frame('f', name='func', line=9, lines=[9, 10, 11, 12, 13])

        def expect(what, go):
            n0 = len(effects_of(it))
            go()
            got = [i for _, i in effects_of(it)[n0:]]
            it.check(sorted(got) == sorted(want.get(what, [])), 'C03.independent' if want.get(what) else 'C03.no-match-no-effect',
                     '%s: at %s the tracepoints %s act, expected %s' % (case, what, got, want.get(what, [])))
        for rnd in (1, 2):
            expect(('call', 9), lambda: p.call(f, 9))
            for n in (9, 10, 11, 12):
                expect(('line', n), lambda: p.line(f, n))
            expect(('exception', 12), lambda: p.exc(f, ValueError, it.hobj('err')))
            expect(('line', 13), lambda: p.line(f, 13))
            expect(('return', 13), lambda: p.ret(f, None))
    return fn


def deep_program(it):
    """Functions of other files and nested calls between the events of the watched frame; the frame is still watched."""
    hd = it.handler()
    unl = {'fire_count': '-1', 'fire_period': '0'}
    it.install(hd, [it.trigger('a', 'target.py', 12, unl), it.trigger('m', 'lib.py', 0, {'method_name': 'work', **unl})])
    p = Prog(it, it.get(hd, 'trace_call'))
    f = it.frame('f', name='func', line=9, lines=[9, 10, 11, 12, 13])
    g = it.frame('g', filename='/usr/lib/python/lib.py', name='other', line=1, lines=[1, 2])
    w = it.frame('w', filename='/x/lib.py', name='work', line=10, lines=[10, 12])
    seq = []

    def step(go, want):
        n0 = len(effects_of(it))
        go()
        got = [i for _, i in effects_of(it)[n0:]]
        seq.append(got)
        it.check(got == want, 'C03.fires-there' if want else 'C03.no-match-no-effect', 'step %d: %s acts, expected %s' % (len(seq), got, want))
    step(lambda: p.call(f, 9), [])
    step(lambda: p.line(f, 10), [])
    step(lambda: p.call(g, 12), [])
    step(lambda: p.line(g, 12), [])
    step(lambda: p.call(w, 10), ['m'])
    step(lambda: p.line(w, 12), [])
    step(lambda: p.exc(w, KeyError, it.hobj('err')), [])
    step(lambda: p.ret(w), [])
    step(lambda: p.exc(g, KeyError, it.hobj('err')), [])
    step(lambda: p.ret(g), [])
    step(lambda: p.line(f, 11), [])
    step(lambda: p.line(f, 12), ['a'])
    step(lambda: p.ret(f), [])
    f2 = it.frame('f2', filename='/y/target.py', name='func2', line=9, lines=[9, 12])
    step(lambda: p.call(f2, 9), [])
    step(lambda: p.line(f2, 12), ['a'])
    step(lambda: p.ret(f2), [])


def other_thread(it):
    """The same location reached in two threads."""
    hd = it.handler()
    it.install(hd, [it.trigger('a', 'target.py', 12, {'fire_count': '-1', 'fire_period': '0'})])
    tc = it.get(hd, 'trace_call')
    p, q = Prog(it, tc), Prog(it, tc, thread='t2')
    f, g = it.frame('f', line=9), it.frame('g', line=9)
    p.call(f, 9)
    q.call(g, 9)
    p.line(f, 12)
    it.check([i for _, i in effects_of(it)] == ['a'], 'C03.fires-there', 'the main thread reaches the line')
    q.line(g, 12)
    it.check([i for _, i in effects_of(it)] == ['a', 'a'], 'C03.fires-there', 'the second thread reaches the line')
    q.line(g, 13)
    p.ret(f)
    it.check([i for _, i in effects_of(it)] == ['a', 'a'], 'C03.no-match-no-effect', 'no more hits')


def reconfigured(it):
    """The set of tracepoints changes while a frame is running."""
    hd = it.handler()
    unl = {'fire_count': '-1', 'fire_period': '0'}
    it.install(hd, [it.trigger('a', 'target.py', 10, unl)])
    p = Prog(it, it.get(hd, 'trace_call'))
    f = it.frame('f', line=9)
    p.call(f, 9)
    p.line(f, 10)
    it.install(hd, [it.trigger('b', 'target.py', 11, unl)])
    p.line(f, 10)
    p.line(f, 11)
    it.install(hd, [])
    p.line(f, 10)
    p.line(f, 11)
    it.install(hd, [it.trigger('b', 'target.py', 11, unl), it.trigger('c', 'target.py', 11, unl)])
    p.line(f, 11)
    got = [i for _, i in effects_of(it)]
    it.check(got == ['a', 'b', 'b', 'c'], 'C03.fires-there', 'tracepoints %s acted, expected a, b, b, c' % got)


def no_tracepoints(event):
    def fn(it):
        hd = it.handler()
        f = it.frame('f', line=it.intsym('n'))
        Prog(it, None).deliver(it.get(hd, 'trace_call'), f, event, ev_arg(it, event))
        it.check(not effects_of(it), 'C03.no-match-no-effect', 'an action without any tracepoint')
    return fn


def from_service(it):
    """Tracepoints of one response which share a location keep acting, each with its own id."""
    pb = it.mod('deepproto.proto.tracepoint.v1.tracepoint_pb2')
    conv = it.public('deep.grpc', 'convert_response')
    T = pb['TracePointConfig']
    L = it.intsym('line', 1)
    unl = {'fire_count': '-1', 'fire_period': '0'}
    resp = [it.call(T, [], {'ID': i, 'path': p, 'line_number': n, 'args': dict(a), 'watches': [], 'metrics': []})
            for i, p, n, a in [('a', 'target.py', L, unl), ('b', 'target.py', L, unl), ('c', 'other.py', L, unl),
                               ('d', 'target.py', 0, {'method_name': 'func', **unl}), ('e', 'target.py', 0, {'method_name': 'func', **unl}),
                               ('g', 'target.py', L, {'stage': 'line_end', **unl})]]
    trig = it.call(conv, [resp], {})
    hd = it.handler()
    it.install(hd, trig)
    N = it.intsym('frame.line', 1)
    p = Prog(it, it.get(hd, 'trace_call'))
    f = it.frame('f', name='func', line=N, lines=[N])
    p.call(f)
    got = sorted(i for _, i in effects_of(it))
    it.check(got == ['d', 'e'], 'C03.independent', 'on entry of func %s act, expected d, e' % got)
    n0 = len(effects_of(it))
    p.line(f, N)
    got = sorted(i for _, i in effects_of(it)[n0:])
    same = it.tri_eq(L, N)
    if got:
        it.check(same is True, 'C03.fires-only-there', '%s act on another line' % got)
        it.check(got == ['a', 'b', 'g'], 'C03.independent', 'on the line %s act, expected a, b, g' % got)
    else:
        it.check(same is False, 'C03.fires-there', 'nothing acts on the line of three tracepoints')


def generator_resume(it):
    """The interpreter reports the resumption of a generator as a 'call' of its function."""
    hd = it.handler()
    it.install(hd, [it.trigger('m', 'target.py', 0, {'method_name': 'func', 'fire_count': '-1', 'fire_period': '0'})])
    p = Prog(it, it.get(hd, 'trace_call'))
    f = it.frame('f', name='func', line=9, flags=0x20, lines=[9, 10, 11])
    p.call(f, 9)
    it.check(len(effects_of(it)) == 1, 'C03.fires-there', 'the generator is entered and the method tracepoint does not act')
    p.line(f, 10)
    p.ret(f, it.hobj('yielded'))
    f.attrs['f_lasti'] = it.inp('f.lasti.2', int)
    p.call(f, 10)
    it.check(len(effects_of(it)) == 1, 'C03.resumed', 'the method tracepoint acts again when the generator is resumed')


def scenarios(tier):
    out = [S('generator-resume', generator_resume, 100, 20)]
    for ev in EVENTS:
        for fl in FILES:
            out.append(S('line/%s/%s' % (ev, fl), line_any(ev, fl, 'snapshot'), 300, 20))
    for kind in ('log', 'metric', 'span'):
        for ev in EVENTS:
            out.append(S('line-%s/%s' % (kind, ev), line_any(ev, FILES[0], kind), 300, 20))
    for ev in EVENTS:
        for fl, name in ((FILES[0], 'func'), (FILES[3], 'func'), (FILES[5], 'func'), (FILES[0], 'func2'), (FILES[0], 'Func'), (FILES[0], 'xfunc'), (FILES[0], 'fun'), (FILES[0], '<module>'), (FILES[0], '')):
            out.append(S('method/%s/%s/%s' % (ev, fl, name), method_any(ev, fl, name, {}), 300, 20))
        out.append(S('method-start/%s' % ev, method_any(ev, FILES[0], 'func', {'stage': 'method_start'}), 300, 20))
        for fl in FILES[:4]:
            for sp in (0, 1):
                out.append(S('nameless/%s/%s/%d' % (ev, fl, sp), nameless(ev, fl, sp), 300, 20))
        out.append(S('none/%s' % ev, no_tracepoints(ev), 100, 20))
    for c in ('same-line', 'same-line-3', 'other-file-first', 'other-file-last', 'line-and-method', 'method-and-line', 'two-methods', 'spent-first',
              'bad-condition-first', 'false-condition-first', 'never-reached', 'span-first', 'adjacent-lines'):
        out.append(S('several/' + c, several(c), 200, 30))
    out += [S('program', deep_program, 300, 30), S('threads', other_thread, 300, 30), S('reconfigured', reconfigured, 300, 30),
            S('response', from_service, 300, 40)]
    return out
