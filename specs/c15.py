"""C15 Deferred work (spans, captures) is completed exactly once, in its own thread."""
from lib import *

RULES = {
    'C15.once': 'no opening is completed twice, on any path over the program shapes and schedules',
    'C15.too-early': 'a completion is at a later event of the invocation that opened it, never at an event of another one',
    'C15.too-late': 'at the end of the invocation (return or unwinding) everything it opened is completed',
    'C15.thread': 'a completion is on the thread of its opening',
    'C15.result': 'the captured value is the value returned or the exception raised by the invocation of the opening',
    'C15.left-pending': 'when the work of a thread has ended nothing it opened is still open, and a later thread completes nothing of it',
}
EXPLANATION = ('Programs (recursion, nesting, loops, exceptions, generators, coroutines) are delivered event by event with the protocol of the interpreter loop; each opening is '
               'followed to its completion. Program shapes are also enumerated from a grammar; schedules are enumerated by event and by access to shared state.')

T0 = 10 ** 18
ALWAYS = {'fire_count': '-1', 'fire_period': '0'}
# name: (args, line, kind, where)
TPS = {
    'ls10': ({'span': 'line', 'snapshot': 'no_collect'}, 10),
    'ls11': ({'span': 'line', 'snapshot': 'no_collect'}, 11),
    'ms': ({'span': 'method', 'method_name': 'func', 'snapshot': 'no_collect'}, 10),
    'mo': ({'span': 'method', 'method_name': 'other', 'snapshot': 'no_collect'}, 21),
    'lc10': ({'stage': 'line_capture'}, 10),
    'lc11': ({'stage': 'line_capture'}, 11),
    'mc': ({'stage': 'method_capture', 'method_name': 'func'}, 10),
    'mco': ({'stage': 'method_capture', 'method_name': 'other'}, 21),
    'both10': ({'stage': 'line_capture', 'span': 'line'}, 10),
    'bothm': ({'stage': 'method_capture', 'span': 'method', 'method_name': 'func'}, 10),
    'snap': ({}, 10),
    'lc20': ({'stage': 'line_capture'}, 20),
    'ls20': ({'span': 'line', 'snapshot': 'no_collect'}, 20),
}
CAUGHT = 'a method capture is completed at an exception which its invocation catches'


class Opening:
    def __init__(self, kind, tp, inv, idx, event, thread, obj=None):
        self.kind, self.tp, self.inv, self.idx, self.event, self.thread, self.obj = kind, tp, inv, idx, event, thread, obj
        self.done = None                     # (idx, event, arg, value)

    def __str__(self):
        return '%s of %s opened at the %s event %d of %s' % (self.kind, self.tp, self.event, self.idx, self.inv)


class Inv:
    """One invocation: a frame, from call to return (or the unwinding)."""

    def __init__(self, label, frame, gen):
        self.label, self.frame, self.gen = label, frame, gen
        self.over = False
        self.raised = []

    def __str__(self):
        return self.label


class World:
    def __init__(self, it, tps, spans=1, strict=False):
        self.it, self.tps, self.strict = it, tps, strict
        h = it.harness()
        at_time(it, T0)
        plugins = [it.new(h['SpanPlug'], 's%d' % k) for k in range(spans)] + [it.new(h['LogPlug'], 'l')]
        self.hd = it.handler(custom={'APP_ROOT': '/app'}, plugins=plugins)
        it.install(self.hd, self.triggers(tps))
        self.fn = it.get(self.hd, 'trace_call')
        self.open = []
        self.failed = None           # the event of a plugin call that raised
        self.idx = 0
        self.n = 0
        self.active = list(tps)
        it.eval_hook = lambda i, name, e, g, lo, sc: i.hint('value of %s' % e)

    def triggers(self, tps):
        out = []
        for t in tps:
            a = dict(TPS[t][0])
            a.update(ALWAYS)
            out.append(self.it.trigger(t, 'target.py', TPS[t][1], a))
        return out

    def at(self, tp, inv, event):
        a, line = TPS[tp]
        if inv.file != 'target.py':
            return False
        if 'method_name' in a:
            return event == 'call' and inv.name == a['method_name']
        return event == 'line' and inv.frame.attrs['f_lineno'] == line

    # ---------------------------------------------------------------- one event

    def step(self, thr, inv, event, arg, go):
        it = self.it
        self.idx += 1
        idx = self.idx
        inv.frame.attrs['f_locals'].payload['step'] = 'e%d' % idx
        n0 = len(it.events)
        want = [tp for tp in self.active if self.at(tp, inv, event)]
        new = [Opening('capture', tp, inv, idx, event, thr.name) for tp in want if 'capture' in TPS[tp][0].get('stage', '')]
        if event == 'exception':
            inv.raised.append(arg[1])
        # (a capture that is completed while it is opened is found below)
        self.open += new
        go()
        for e in it.events[n0:]:
            if e.kind != 'boundary' or e.thread != thr.name:
                continue
            if e.name == 'span.create' and e.args[4] is not None and e is not self.failed:
                self.open.append(Opening('span', e.args[3], inv, idx, event, e.thread, e.args[4]))
            elif e.name == 'span.close':
                self.close(e, inv, idx, event, arg)
            elif e.name == 'push':
                self.push(e, inv, idx, event, arg)
        return idx

    def close(self, e, inv, idx, event, arg):
        o = [x for x in self.open if x.obj is e.args[0]]
        self.it.check(len(o) == 1, 'C15.once', 'a span which was not opened is closed', e.site)
        self.complete(o[0], e, inv, idx, event, arg)

    def push(self, e, inv, idx, event, arg):
        it = self.it
        tp = it.resolve(tp_of(it, e.args[0]))
        if 'capture' not in TPS[tp][0].get('stage', ''):
            return
        snap = e.args[0]
        at = None
        for f in it.iterate(it.get(snap, 'frames')):
            for v in it.iterate(it.get(f, 'variables')):
                if it.resolve(it.get(v, 'name')) == 'step':
                    table = it.get(snap, 'var_lookup')
                    for k, x in table.items():
                        if k == it.resolve(it.get(v, 'vid')):
                            at = it.resolve(it.get(x, 'value'))
            break
        o = [x for x in self.open if x.kind == 'capture' and x.tp == tp and 'e%d' % x.idx == at]
        it.check(len(o) == 1, 'C15.once', 'a snapshot of %s is sent that was opened at %s' % (tp, at), e.site)
        self.complete(o[0], e, inv, idx, event, arg)
        self.result(o[0], snap, inv, event, arg, e)

    def complete(self, o, e, inv, idx, event, arg):
        it = self.it
        it.check(o.done is None, 'C15.once', '%s is completed again at the %s event %d' % (o, event, idx), e.site)
        o.done = (idx, event, arg)
        it.check(e.thread == o.thread, 'C15.thread', '%s on %s is completed on %s' % (o, o.thread, e.thread), e.site)
        it.check(inv is o.inv, 'C15.too-early', '%s is completed at the %s event %d of %s' % (o, event, idx, inv), e.site)
        it.check(idx > o.idx, 'C15.too-early', '%s is completed at once' % o, e.site)
        if o.event == 'call':
            it.check(event in ('return', 'exception'), 'C15.too-early', '%s is completed at the %s event %d' % (o, event, idx), e.site)
        it.witness.add('completed at %s of %s' % (event, o.event))

    def result(self, o, snap, inv, event, arg, e):
        it = self.it
        got = [w for w in watch_results(it, snap) if w[1] not in ('WATCH', 'LOG')]
        if event == 'line':
            it.check(not got, 'C15.result', '%s: a result %s without a return or exception' % (o, [w[0] for w in got]), e.site)
            return
        it.check(len(got) == 1 and got[0][2] is not None, 'C15.result', '%s: %d captured results at the %s event' % (o, len(got), event), e.site)
        val = arg[1] if event == 'exception' else arg
        o.value = val
        table = it.get(snap, 'var_lookup')
        entry = None
        for k, x in table.items():
            if k == it.resolve(it.get(got[0][2], 'vid')):
                entry = x
        it.check(entry is not None, 'C15.result', '%s: the result is not in the snapshot' % o, e.site)
        if it.fault is not None and it.fault[0] in ('value', 'str', 'getattr', 'host'):
            return
        it.check(self.is_value(entry, val) or any(
            self.is_value(x, val) for c in it.iterate(it.get(entry, 'children')) for k, x in table.items() if k == it.resolve(it.get(c, 'vid'))) and event == 'exception',
            'C15.result', '%s: the captured result is %s, the %s is %s' % (o, show(it.get(entry, 'value')), event, show(val)), e.site)

    def is_value(self, entry, v):
        it = self.it
        got = it.resolve(it.get(entry, 'value'))
        if not it.tri_eq(it.resolve(it.get(entry, 'type')), type_name_of(v)) is True:
            return False
        t = text_of(it, v)
        if t is None:
            return True
        if isinstance(t, str) and not isinstance(t, HostVal):
            return got == t[:1024]
        return got is t or mentions(got, t)

    # ---------------------------------------------------------------- ends

    def ended(self, inv, event, arg, out):
        """The invocation is over with this outcome: ('return', value) or ('exception', exception)."""
        it = self.it
        for o in self.open:
            if o.inv is not inv:
                continue
            it.check(o.done is not None, 'C15.too-late', '%s is not completed when the invocation ends' % o)
            if o.kind == 'capture' and o.event == 'call' and hasattr(o, 'value') and not inv.gen:
                ok = o.value is out[1] and o.done[1] == out[0]
                if not ok and o.done[1] == 'exception' and any(o.value is x for x in inv.raised):
                    # known: the invocation caught that exception and went on (see the scenarios known-caught/...)
                    it.check(not self.strict, 'C15.result', '%s (%s, %s; the invocation ends with %s %s)' % (CAUGHT, o.tp, show(o.value), out[0], show(out[1])))
                    it.witness.add('caught')
                    continue
                it.check(ok, 'C15.result', '%s: captured %s, the invocation ends with %s %s' % (o, show(o.value), out[0], show(out[1])))

    def thread_over(self, thr):
        for o in self.open:
            if o.thread == thr.name:
                self.it.check(o.done is not None, 'C15.left-pending', '%s is still open when its thread ends' % o)


class Thr:
    """A thread of the program."""

    def __init__(self, w, name='main', fn=None):
        self.w, self.it, self.name = w, w.it, name
        self.p = Prog(w.it, fn or w.fn, thread=name)
        self.vals = 0

    def value(self, k=None):
        self.vals += 1
        return 'rv-%s-%d' % (self.name, self.vals)

    def error(self):
        self.vals += 1
        return HostVal('err-%s-%d' % (self.name, self.vals), self.it.hclass('AppError', 'AppError', (Exception,)), None, {'args': ('msg',)})

    def enter(self, name='func', file='target.py', lo=None, gen=False, flags=None, dirname='/app/src/', resume=None):
        w, it = self.w, self.it
        w.n += 1
        lo = lo if lo is not None else {'func': 9, 'other': 19}.get(name, 29)
        label = '%s#%d' % (name, w.n)
        if flags is None:
            flags = 0x20 if gen else 0
        f = it.frame(label, filename=dirname + file, name=name, line=lo, first=lo, lines=list(range(lo, lo + 6)), flags=flags, flocals={'me': label})
        inv = Inv(label, f, gen)
        inv.name, inv.file = name, file
        w.step(self, inv, 'call', None, lambda: self.p.call(f, lo))
        return inv

    def line(self, inv, n):
        self.w.step_line = n
        inv.frame.attrs['f_lineno'] = n
        self.w.step(self, inv, 'line', None, lambda: self.p.line(inv.frame, n))

    def raises(self, inv, exc):
        self.w.step(self, inv, 'exception', (exc.cls, exc, None), lambda: self.p.exc(inv.frame, HostVal('class of ' + exc.label, self.it.hclass('type', 'type', (type,))), exc))

    def ret(self, inv, value=MISSING):
        v = self.value() if value is MISSING else value
        self.w.step(self, inv, 'return', v, lambda: self.p.ret(inv.frame, v))
        inv.over = True
        self.w.ended(inv, 'return', v, ('return', v))
        return v

    def unwind(self, inv, exc):
        """The frame is left with this exception (whose event has been delivered)."""
        self.w.step(self, inv, 'return', None, lambda: self.p.ret(inv.frame, None))
        inv.over = True
        self.w.ended(inv, 'return', None, ('exception', exc))

    def susp(self, inv, value=MISSING):
        v = self.value() if value is MISSING else value
        self.w.step(self, inv, 'return', v, lambda: self.p.ret(inv.frame, v))

    def resume(self, inv):
        f = inv.frame
        self.w.step(self, inv, 'call', None, lambda: self.p.call(f, f.attrs['f_lineno']))


# -------------------------------------------------------------------- the programs: generators, one step for each event

def straight(t, value=MISSING):
    f = t.enter()
    yield
    for n in (10, 11, 12):
        t.line(f, n)
        yield
    t.ret(f, value)
    yield


def loop(t):
    f = t.enter()
    yield
    for k in range(3):
        for n in (10, 11):
            t.line(f, n)
            yield
    t.ret(f)
    yield


def last_line(t):
    f = t.enter()
    yield
    t.line(f, 10)
    yield
    t.ret(f)
    yield


def recursion(t, depth=3, at=10, after=(11,)):
    f = t.enter()
    yield
    for n in range(10, at + 1):
        t.line(f, n)
        yield
    if depth > 1:
        yield from recursion(t, depth - 1, at, after)
    for n in after:
        t.line(f, n)
        yield
    t.ret(f)
    yield


def recursion2(t, depth=2):
    """Two recursive calls in one line."""
    f = t.enter()
    yield
    t.line(f, 10)
    yield
    if depth > 1:
        yield from recursion2(t, depth - 1)
        yield from recursion2(t, depth - 1)
    t.line(f, 11)
    yield
    t.ret(f)
    yield


def tail_recursion(t, depth=3):
    """return func(n - 1) in the traced line: no further line."""
    f = t.enter()
    yield
    t.line(f, 10)
    yield
    if depth > 1:
        yield from tail_recursion(t, depth - 1)
    t.ret(f)
    yield


def mutual(t, depth=4, name='func'):
    f = t.enter(name)
    yield
    lo = 10 if name == 'func' else 20
    t.line(f, lo)
    yield
    if depth > 1:
        yield from mutual(t, depth - 1, 'other' if name == 'func' else 'func')
    t.line(f, lo + 1)
    yield
    t.ret(f)
    yield


def calls(t, callee=None, name='func'):
    """The traced line calls something else."""
    f = t.enter(name)
    yield
    for n in (10, 11):
        t.line(f, n)
        yield
        yield from callee(t)
    t.ret(f)
    yield


def other(t, name='other', file='target.py', dirname='/app/src/'):
    f = t.enter(name, file, dirname=dirname, lo=19)
    yield
    t.line(f, 20)
    yield
    t.line(f, 21)
    yield
    t.ret(f)
    yield


def twin(t):
    """A function of the same name, in a file of the same name, in another package."""
    f = t.enter('func', 'target.py', dirname='/app/lib/')
    yield
    for n in (10, 11):
        t.line(f, n)
        yield
    t.ret(f)
    yield


def wrapped(t):
    """A decorator: func calls func."""
    f = t.enter('func', lo=29)
    yield
    t.line(f, 30)
    yield
    yield from straight(t)
    t.ret(f)
    yield


def propagate(t, depth=2, caught=False):
    """An exception through `depth` invocations of func, caught by other."""
    o = t.enter('other')
    yield
    t.line(o, 20)
    yield
    fs = []
    for k in range(depth):
        f = t.enter()
        fs.append(f)
        yield
        t.line(f, 10)
        yield
    e = t.error()
    for f in reversed(fs):
        t.raises(f, e)
        yield
        t.unwind(f, e)
        yield
    t.raises(o, e)
    yield
    t.line(o, 21)
    yield
    t.ret(o)
    yield


def finally_(t):
    """try: raise, finally: line 11, then out."""
    f = t.enter()
    yield
    t.line(f, 10)
    yield
    e = t.error()
    t.raises(f, e)
    yield
    t.line(f, 11)
    yield
    t.unwind(f, e)
    yield


def caught(t, n=1, end='return'):
    """The traced line raises, the same invocation catches it and goes on."""
    f = t.enter()
    yield
    for k in range(n):
        t.line(f, 10)
        yield
        t.raises(f, t.error())
        yield
        t.line(f, 11)
        yield
    if end == 'return':
        t.ret(f)
    else:
        e = t.error()
        t.raises(f, e)
        yield
        t.unwind(f, e)
    yield


def caught_from_callee(t):
    f = t.enter()
    yield
    t.line(f, 10)
    yield
    g = t.enter()
    yield
    t.line(g, 11)
    yield
    e = t.error()
    t.raises(g, e)
    yield
    t.unwind(g, e)
    yield
    t.raises(f, e)
    yield
    t.line(f, 11)
    yield
    t.ret(f)
    yield


def generator(t, n=2, between=None):
    o = t.enter('main', 'main.py')
    yield
    g = t.enter(gen=True)
    yield
    for k in range(n):
        t.line(g, 10)
        yield
        t.susp(g)
        yield
        if between is not None:
            yield from between(t)
        t.resume(g)
        yield
        t.line(g, 11)
        yield
    t.ret(g, None)
    yield
    t.ret(o)
    yield


def generators(t):
    """Two generators of one function, alternately."""
    gs = []
    for k in range(2):
        g = t.enter(gen=True)
        gs.append(g)
        yield
        t.line(g, 10)
        yield
        t.susp(g)
        yield
    for n in (10, 11):
        for g in gs:
            t.resume(g)
            yield
            t.line(g, n)
            yield
            if n == 11:
                t.ret(g, None)
            else:
                t.susp(g)
            yield


def gen_close(t):
    g = t.enter(gen=True)
    yield
    t.line(g, 10)
    yield
    t.susp(g)
    yield
    t.resume(g)
    yield
    e = HostVal('exit', GeneratorExit, None, {'args': ()})
    t.raises(g, e)
    yield
    t.unwind(g, e)
    yield


def gen_abandoned(t):
    """A generator that is never resumed."""
    g = t.enter(gen=True)
    yield
    t.line(g, 10)
    yield
    t.susp(g)
    yield
    yield from straight(t)


def gen_recursive(t):
    """func yields from func."""
    f = t.enter(gen=True)
    yield
    t.line(f, 10)
    yield
    g = t.enter(gen=True)
    yield
    t.line(g, 10)
    yield
    v = t.value()
    t.susp(g, v)
    yield
    t.susp(f, v)
    yield
    t.resume(f)
    yield
    t.resume(g)
    yield
    t.line(g, 11)
    yield
    t.ret(g, None)
    yield
    t.line(f, 11)
    yield
    t.ret(f, None)
    yield


def gen_in_func(t):
    """func consumes a generator that is also called func."""
    f = t.enter()
    yield
    t.line(f, 10)
    yield
    g = t.enter(gen=True)
    yield
    for n in (10, 11):
        t.line(g, n)
        yield
        t.susp(g)
        yield
        t.line(f, n)
        yield
        t.resume(g)
        yield
    t.ret(g, None)
    yield
    t.line(f, 12)
    yield
    t.ret(f)
    yield


def gen_moves(t, u):
    """A generator that is resumed on another thread (each resumption is the work of its thread)."""
    g = t.enter(gen=True)
    yield
    t.line(g, 10)
    yield
    t.susp(g)
    yield
    u.p.local.update(t.p.local)
    u.resume(g)
    yield
    u.line(g, 10)
    yield
    u.ret(g, None)
    yield


def coroutine(t):
    f = t.enter(flags=0x80, gen=True)
    yield
    t.line(f, 10)
    yield
    t.susp(f, None)
    yield
    yield from other(t)
    t.resume(f)
    yield
    t.line(f, 11)
    yield
    t.ret(f)
    yield


PROGRAMS = {
    'straight': straight, 'loop': loop, 'last-line': last_line, 'recursion': recursion, 'recursion-line11': lambda t: recursion(t, 3, 11, (12,)),
    'recursion-again': lambda t: recursion(t, 3, 10, (10, 11)), 'two-calls': recursion2, 'tail-recursion': tail_recursion, 'mutual': mutual,
    'calls-other': lambda t: calls(t, other), 'calls-twin': lambda t: calls(t, twin), 'calls-straight': lambda t: calls(t, straight),
    'same-line-name': lambda t: calls(t, lambda t: other(t, 'func', 'other.py')),
    'wrapped': wrapped, 'propagate': lambda t: propagate(t, 1), 'propagate-3': lambda t: propagate(t, 3), 'finally': finally_,
    'caught': caught, 'caught-2': lambda t: caught(t, 2), 'caught-raise': lambda t: caught(t, 1, 'raise'), 'caught-from-callee': caught_from_callee,
    'calls-propagate': lambda t: calls(t, lambda t: propagate(t, 2)),
    'generator': generator, 'generator-between': lambda t: generator(t, 2, straight), 'generator-between-raise': lambda t: generator(t, 1, propagate), 'generators': generators,
    'gen-close': gen_close, 'gen-abandoned': gen_abandoned, 'gen-recursive': gen_recursive, 'gen-in-func': gen_in_func, 'coroutine': coroutine,
    'calls-generator': lambda t: calls(t, generator), 'sequence': lambda t: seq(straight(t), propagate(t), generator(t), straight(t)),
}


def seq(*gs):
    for g in gs:
        yield from g


def drive(g):
    for _ in g:
        pass


def program(name, tps, spans=1, strict=False):
    def fn(it):
        w = World(it, tps, spans, strict)
        t = Thr(w)
        drive(PROGRAMS[name](t))
        w.thread_over(t)
        it.check(not w.open or any(o.done for o in w.open), 'C15.too-late', 'nothing is completed')
    return fn


# -------------------------------------------------------------------- any program

def shapes(tps, budget, gens=False):
    """Every program of the grammar: in the innermost invocation a line, a call of func, a return or an exception, which is caught by
    any of the callers (or by nobody)."""
    def fn(it):
        w = World(it, tps)
        t = Thr(w)
        stack = [t.enter()]
        lines = {}
        left = budget
        susp = []
        while stack:
            f = stack[-1]
            n = lines.get(f, 9)
            ops = ['return']
            if left > 0:
                ops.append('line')
                if n > 9:
                    ops += ['call', 'raise']
                    if n >= 10 and n != 10:
                        ops.append('back')
                    if gens and not f.gen:
                        ops.append('gen')
                    if susp and not f.gen:
                        ops.append('resume')
                    if f.gen:
                        ops.append('yield')
            op = ops[it.choose(len(ops), 'op')] if len(ops) > 1 else ops[0]
            left -= 1
            if op == 'line':
                lines[f] = min(n + 1, 12)
                t.line(f, lines[f])
            elif op == 'back':
                lines[f] = 10
                t.line(f, 10)
            elif op in ('call', 'gen'):
                stack.append(t.enter(gen=op == 'gen'))
            elif op == 'yield':
                t.susp(f)
                stack.pop()
                susp.append(f)
            elif op == 'resume':
                g = susp.pop()
                t.resume(g)
                stack.append(g)
            elif op == 'return':
                t.ret(f)
                stack.pop()
            else:
                e = t.error()
                # who catches it: -1 nobody
                c = it.choose(len(stack) + 1, 'catch') - 1
                while stack:
                    f = stack[-1]
                    t.raises(f, e)
                    if len(stack) - 1 == c:
                        lines[f] = min(lines.get(f, 9) + 1, 12)
                        t.line(f, lines[f])
                        break
                    t.unwind(f, e)
                    stack.pop()
        w.thread_over(t)
    return fn


# -------------------------------------------------------------------- threads

def schedule(a, b, tps):
    """Two threads, any order of their events."""
    def fn(it):
        w = World(it, tps)
        ts = [Thr(w, 'main'), Thr(w, 't2')]
        gs = [PROGRAMS[a](ts[0]), PROGRAMS[b](ts[1])]
        live = [0, 1]
        while live:
            k = live[it.choose(len(live), 'thread')] if len(live) > 1 else live[0]
            try:
                next(gs[k])
            except StopIteration:
                live.remove(k)
                w.thread_over(ts[k])
    return fn


def preempt(a, b, tps):
    """The whole of b on another thread, at any access to shared state during a."""
    def fn(it):
        w = World(it, tps)
        mark = it.nobj
        t, u = Thr(w, 'main'), Thr(w, 't2')

        def action():
            drive(PROGRAMS[b](u))
            w.thread_over(u)
        g = PROGRAMS[a](t)
        stop = interfere(it, action, mark)
        drive(g)
        stop()
        w.thread_over(t)
    return fn


def inherit(a, b, tps, cut=None):
    """The second thread has the ident of the first one, which has ended."""
    def fn(it):
        w = World(it, tps)
        t = Thr(w, 'w')
        g = PROGRAMS[a](t)
        drive(g)
        w.thread_over(t)
        u = Thr(w, 'w~2')
        drive(PROGRAMS[b](u))
        w.thread_over(u)
    return fn


def inherit_cut(a, b, tps, n):
    """The first thread ends in the middle of its program (its frames never end)."""
    def fn(it):
        w = World(it, tps)
        t = Thr(w, 'w')
        g = PROGRAMS[a](t)
        for k in range(n):
            next(g)
        u = Thr(w, 'w~2')
        k = len(w.open)
        drive(PROGRAMS[b](u))
        w.thread_over(u)
    return fn


def moving(tps):
    def fn(it):
        w = World(it, tps)
        t, u = Thr(w, 'main'), Thr(w, 't2')
        # the completion is on the thread of the opening, for each resumption
        drive(gen_moves(t, u))
        w.thread_over(t)
        w.thread_over(u)
    return fn


def two_handlers(name, tps, other_tps):
    """Two handlers (a restarted agent, or two of them): each has its own pending work."""
    def fn(it):
        w1, w2 = World(it, tps), World(it, other_tps)
        it.eval_hook = lambda i, n, e, g, lo, sc: i.hint('value of %s' % e)
        order = it.choose(2, 'order')
        if order == 0:
            gs = [PROGRAMS[name](Thr(w1)), PROGRAMS[name](Thr(w2))]
            live = [0, 1]
            k = 0
            while live:
                k = (k + 1) % 2
                if k not in live:
                    continue
                try:
                    next(gs[k])
                except StopIteration:
                    live.remove(k)
        else:
            drive(PROGRAMS[name](Thr(w1)))
            drive(PROGRAMS[name](Thr(w2)))
        for w in (w1, w2):
            for o in w.open:
                it.check(o.done is not None, 'C15.left-pending', '%s is still open' % o)
    return fn


def reconfigured(name, tps, when, to):
    """The configuration changes while work is pending: what was opened is still completed."""
    def fn(it):
        w = World(it, tps)
        t = Thr(w)
        g = PROGRAMS[name](t)
        k = it.choose(when, 'when') + 1
        n = 0
        for _ in g:
            n += 1
            if n == k:
                it.install(w.hd, w.triggers(to))
                w.active = list(to)
        w.thread_over(t)
    return fn


# -------------------------------------------------------------------- results and faults

def results(kind, tps):
    """Return values of all kinds."""
    def fn(it):
        v = {'none': None, 'zero': 0, 'empty': '', 'false': False, 'int': 7, 'list': [], 'obj': it.hobj('rv', {'a': it.hint('a')}), 'exc': HostVal('rexc', it.hclass('AppError', 'AppError', (Exception,)), None, {'args': ('x',)}),
             'tuple': it.htuple('rt', [it.hint('x'), it.hint('y'), it.hint('z')]), 'dict': it.hdict('rd', {}), 'long': 'x' * 2000}[kind]
        w = World(it, tps)
        t = Thr(w)
        drive(straight(t, v))
        drive(seq_last(t, v))
        w.thread_over(t)
    return fn


def seq_last(t, v):
    f = t.enter()
    yield
    t.line(f, 10)
    yield
    t.ret(f, v)


def same_value(tps):
    """The result is also a local variable of the frame: it is the same object."""
    def fn(it):
        w = World(it, tps)
        t = Thr(w)
        v = it.hobj('shared', {'a': it.hint('a')})
        f = t.enter()
        f.frame.attrs['f_locals'].payload['v'] = v
        t.line(f, 10)
        t.ret(f, v)
        w.thread_over(t)
    return fn


def faults(name, tps, point, cls, spans=2):
    """One failure (of a plugin, or of the captured value): every other completion is made, and none twice."""
    def fn(it):
        w = World(it, tps, spans)
        t = Thr(w)

        def blow(i, what):
            i.fault = (point, None, cls.__name__, i.site(), i.trail())
            raise PyExc(cls('raised by ' + what), i.site())

        def bh(i, kind, args, kw):
            if kind == point and i.fault is None and i.choose(2, 'raise:' + kind) == 1:
                w.failed = i.events[-1]
                blow(i, kind)
        if point == 'value':
            it.can_fault = lambda kind, target: [cls] if kind not in ('ext', 'boundary', 'utf8') else None
        else:
            it.boundary_hook = bh
        v = it.hobj('rv', {'a': it.hint('a')}) if point == 'value' else MISSING
        if name == 'value':
            drive(straight(t, v))
        else:
            drive(PROGRAMS[name](t))
        w.thread_over(t)
    return fn


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    singles = ['ls10', 'ls11', 'ms', 'lc10', 'lc11', 'mc', 'both10', 'bothm']
    everything = ['snap', 'ls10', 'mc', 'ls20', 'mco', 'mo', 'lc20']
    sets = [[s] for s in singles] + [['ls10', 'lc10'], ['ms', 'mc'], ['ls10', 'ls11', 'ms'], ['lc10', 'lc11', 'mc'], everything]
    for name in PROGRAMS:
        for tps in sets:
            out.append(S('program/%s/%s' % (name, '+'.join(tps)), program(name, tps, 2 if len(tps) > 2 else 1), max_time=20))
    out.append(S('known-caught/caught', program('caught', ['mc'], strict=True)))
    out.append(S('known-caught/caught-from-callee', program('caught-from-callee', ['mc'], strict=True)))
    b = 0 if quick else 1
    for tps in (['ls10', 'ms'], ['lc10', 'mc'], ['ls10', 'lc11', 'mc', 'ms']):
        out.append(S('shapes/%s' % '+'.join(tps), shapes(tps, 6 + 2 * b), max_paths=20000, max_time=25 if quick else 200))
        out.append(S('shapes-gen/%s' % '+'.join(tps), shapes(tps, 6 + 2 * b, True), max_paths=20000, max_time=25 if quick else 200))
    out.append(S('shapes-deep/all', shapes(everything, 14, True), max_paths=20000, max_time=15 if quick else 200))
    for a, c in (('straight', 'straight'), ('tail-recursion', 'straight'), ('last-line', 'generators'), ('propagate', 'last-line'), ('gen-close', 'finally')):
        for tps in (['ls10', 'mc'], ['lc10', 'ms']):
            out.append(S('schedule/%s-%s/%s' % (a, c, '+'.join(tps)), schedule(a, c, tps), max_paths=20000, max_time=15 if quick else 120))
    for a, c in (('recursion', 'straight'), ('caught', 'propagate'), ('generator', 'loop'), ('straight', 'mutual')):
        for tps in (['ls10', 'mc'], ['lc10', 'ms']):
            out.append(S('preempt/%s-%s/%s' % (a, c, '+'.join(tps)), preempt(a, c, tps), max_paths=20000, max_time=20 if quick else 120))
    for a in ('straight', 'recursion', 'propagate', 'generators', 'gen-abandoned', 'caught', 'coroutine'):
        for c in ('straight', 'recursion', 'gen-in-func', 'last-line'):
            out.append(S('inherit/%s-%s' % (a, c), inherit(a, c, ['ls10', 'lc10', 'mc', 'ms']), max_time=20))
    for a in ('straight', 'recursion', 'generators'):
        for n in (1, 2, 3, 4):
            for c in ('straight', 'recursion', 'other'):
                if c in PROGRAMS:
                    out.append(S('inherit-cut/%s-%d-%s' % (a, n, c), inherit_cut(a, c, ['ls10', 'lc10', 'mc', 'ms'], n), max_time=20))
    for tps in (['ls10'], ['lc10', 'ms'], ['mc']):
        out.append(S('moving/%s' % '+'.join(tps), moving(tps)))
    for name in ('straight', 'recursion', 'propagate', 'generator'):
        out.append(S('two-handlers/%s-same' % name, two_handlers(name, ['ls10', 'mc'], ['ls10', 'mc'])))
        out.append(S('two-handlers/%s-other' % name, two_handlers(name, ['ls10', 'mc'], ['lc11', 'ms'])))
        for to in ([], ['snap'], ['lc10', 'ms'], ['ls10', 'mc']):
            out.append(S('reconfigured/%s/%s' % (name, '+'.join(to)), reconfigured(name, ['ls10', 'mc'], 8, to), max_time=20))
            out.append(S('reconfigured-2/%s/%s' % (name, '+'.join(to)), reconfigured(name, ['lc10', 'ms'], 8, to), max_time=20))
    for kind in ('none', 'zero', 'empty', 'false', 'int', 'list', 'obj', 'exc', 'tuple', 'dict', 'long'):
        out.append(S('results/%s' % kind, results(kind, ['mc', 'lc10', 'lc11']), max_time=20))
    out.append(S('results/shared', same_value(['mc', 'lc10'])))
    for cls in (ValueError, SystemExit) if quick else (ValueError, SystemExit, KeyboardInterrupt, StopIteration, MemoryError):
        for name in ('straight', 'recursion', 'propagate'):
            for point in ('span.close', 'span.create', 'push'):
                out.append(S('fault/%s-%s-%s' % (point, name, cls.__name__), faults(name, ['ls10', 'mc', 'ms', 'lc10'], point, cls), max_time=20))
        out.append(S('fault/value-%s' % cls.__name__, faults('value', ['ls10', 'mc', 'ms', 'lc10'], 'value', cls), max_time=20))
    return out
