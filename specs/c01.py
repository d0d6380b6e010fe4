"""C01 Host transparency."""
from lib import *
from c02 import catalog
LEVEL = 'fault_enumeration'

RULES = {
    'C01.raises': 'no exception edge leads out of the trace function',
    'C01.tracing-off': 'the trace function keeps returning a trace function for the frames of the tracepoint, whatever failed',
    'C01.next-hit': 'after a failure the next hits have all their effects',
    'C01.writes': 'no operation that changes a value of the program: set or delete of attributes and items, mutating methods, calls, copies',
    'C01.consumes': 'no iteration over anything but plain containers: iterators, generators and unknown types are left alone',
    'C01.runs-code': 'no attribute of a value is read which can be a property of the program',
    'C01.scope': 'expressions never get the dictionary of the frame itself, so an assignment expression cannot reach it',
    'C01.process': 'no output, environment, signal, gc, random state, recursion limit, warning or hook of the process is touched',
    'C01.loggers': 'the agent logs with its own logger and leaves the configuration of the others alone',
    'C01.log-text': 'no value of the program is handed to a log call, which would run its __str__ where failures are printed',
    'C01.lock-held': 'no code of the program runs while the agent holds a lock that another thread of the program can wait for',
    'C01.waits': 'the trace function does not sleep or wait for another thread',
}
EXPLANATION = ('Exception edges at every operation on values, every expression, every plugin and push call, every log call and every agent function called below '
               'the trace function; and an effect analysis of everything the agent does with the values and the process.')

UNL = {'fire_count': '-1', 'fire_period': '0'}
BUILTIN = ('list', 'tuple', 'set', 'frozenset', 'dict', 'str', 'bytes', 'range', 'bytearray', 'dict_keys', 'dict_items', 'dict_values')
WRITES = {'mutate', 'setattr', 'setitem', 'delattr', 'delitem', 'call', 'copy', 'deepcopy'}

FEATURES = {
    'snapshot': (10, {}, []),
    'all-frames': (10, {'frame_type': 'all_frame'}, []),
    'watches': (10, {}, ['v', 'w.x']),
    'condition': (10, {'condition': 'cond'}, []),
    'log': (10, {'snapshot': 'no_collect', 'log_msg': 'text {v} {w.x}'}, []),
    'snapshot-log': (10, {'log_msg': 'text {v!r} {w.x:>10}'}, ['v']),
    'metric': (10, {'snapshot': 'no_collect'}, []),
    'span': (10, {'snapshot': 'no_collect', 'span': 'line'}, []),
    'method-span': (0, {'snapshot': 'no_collect', 'span': 'method', 'method_name': 'func'}, []),
    'method': (0, {'method_name': 'func'}, ['v']),
    'line-capture': (10, {'stage': 'line_capture'}, ['v']),
    'method-capture': (0, {'stage': 'method_capture', 'method_name': 'func'}, []),
}
WANT = {'snapshot': ['snapshot'], 'all-frames': ['snapshot'], 'watches': ['snapshot'], 'condition': ['snapshot'], 'log': ['log'], 'snapshot-log': ['snapshot', 'log'],
        'metric': ['metric'], 'span': ['span'], 'method-span': ['span'], 'method': ['snapshot'], 'line-capture': ['snapshot'], 'method-capture': ['snapshot']}


def handler(it, feats, deco=True):
    h = it.harness()
    plugs = [it.new(h['MetricPlug'], 'm'), it.new(h['SpanPlug'], 's'), it.new(h['LogPlug'], 'l')]
    if deco:
        plugs.append(it.new(h['DecoratorPlug'], 'd', {'deco': 'x'}))
    hd = it.handler(plugins=plugs)
    md = it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition')
    le = it.public('deep.api.tracepoint.tracepoint_config', 'LabelExpression')
    trigs = []
    for k, n in enumerate(feats):
        line, args, ws = FEATURES[n]
        ms = [it.new(md, 'met', 'COUNTER', [it.new(le, 'k', None, 'v')], 'w.x')] if n == 'metric' else []
        trigs.append(it.trigger('tp%d' % k, 'target.py', line, {**args, **UNL}, watches=list(ws), metrics=ms))
    it.install(hd, trigs)
    return hd


def frames(it, tag, flocals, outer=None):
    g = it.frame('g' + tag, filename='/app/main.py', name='main', line=3, flocals=outer or {'o' + tag: it.hint('o' + tag)})
    f = it.frame('f' + tag, name='func', line=9, first=9, lines=[9, 10, 11], flocals=flocals, back=g)
    return g, f


class Watcher:
    """The trace function has to stay in place, and all effects have to happen."""

    def __init__(self, it, hd, feats):
        self.it, self.feats = it, feats
        self.p = Prog(it, it.get(hd, 'trace_call'))
        self.n0 = len(it.events)

    def invoke(self, g, f, ret, exc=None):
        it, p = self.it, self.p
        n0 = len(it.events)
        p.stack = [g]
        r = p.call(f, 9)
        it.check(r is not None, 'C01.tracing-off', 'the call event of a frame with tracepoints returns no trace function')
        p.line(f, 10)
        p.line(f, 11)
        if exc is not None:
            p.exc(f, exc[0], exc[1])
            p.ret(f, None)
        else:
            p.ret(f, ret)
        return n0

    def effects(self, n0):
        it = self.it
        got = {}
        for e in it.events[n0:]:
            if e.kind == 'boundary' and e.name in ('push', 'tplog', 'metric', 'span.create'):
                if e.name == 'push':
                    t = ('snapshot', it.resolve(tp_of(it, e.args[0])))
                elif e.name == 'tplog':
                    t = ('log', e.args[2])
                elif e.name == 'metric':
                    t = ('metric', None)
                else:
                    t = ('span', e.args[3])
                got[t] = got.get(t, 0) + 1
        return got

    def complete(self, n0, what):
        it = self.it
        got = self.effects(n0)
        for k, n in enumerate(self.feats):
            for w in WANT[n]:
                key = (w, None if w == 'metric' else 'tp%d' % k)
                it.check(got.get(key, 0) >= 1, 'C01.next-hit', '%s: the %s of tracepoint %s (%s) is missing' % (what, w, key[1], n))


def simple(it, tag):
    return {'v': it.hstr('v' + tag), 'w': it.hobj('w' + tag, {'x': it.hint('wx' + tag)})}


def second(it, w):
    """The next invocation is not disturbed."""
    it.can_fault = it.entry_hook = it.boundary_hook = it.log_hook = None
    fl = simple(it, '2')
    vals = {'v': fl['v'], 'w.x': fl['w'].attrs['x'], 'cond': True}
    it.eval_hook = lambda i, name, e, g, lo, sc: vals[e]
    g, f = frames(it, '2', fl)
    w.complete(w.invoke(g, f, it.hint('ret2')), 'the hit after a failure')
    deny(it, it.events[w.n0:])


def fault_world(feats, point, cls, exc=False):
    """One failure at any `point` of the first invocation."""
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        it.short = 500
        hd = handler(it, feats)
        fl = simple(it, '1')
        fl['c'] = it.hdict('c', {'k': it.hobj('ck', {'z': it.hint('z')})})
        fl['e'] = HostVal('e', it.hclass('MyError', 'MyError', (Exception,)), None, {'args': (it.hobj('earg', {}),)})
        vals = {'v': fl['v'], 'w.x': fl['w'].attrs['x'], 'cond': True}
        w = Watcher(it, hd, feats)

        def blow(i, where):
            i.fault = (point, None, cls.__name__, i.site(), i.trail())
            raise PyExc(cls('raised by %s' % where), i.site())

        def ev(i, name, e, g, lo, sc):
            if point == 'eval' and i.fault is None and i.choose(2, 'eval raises') == 1:
                blow(i, 'an expression')
            return vals[e]
        it.eval_hook = ev
        if point == 'value':
            it.can_fault = lambda kind, target: [cls] if kind not in ('ext', 'boundary', 'utf8') else None
        elif point == 'boundary':
            def bh(i, kind, args, kw):
                if i.fault is None and i.choose(2, 'raise:' + kind) == 1:
                    blow(i, kind)
            it.boundary_hook = bh
        elif point == 'log':
            said = set()

            def lh(i, name, level, msg, args, kw):
                key = (i.site(), tuple(i.trail()))
                if key in said:
                    return
                said.add(key)
                if i.fault is None and i.choose(2, 'raise:log') == 1:
                    blow(i, 'the log handler')
            it.log_hook = lh
        elif point == 'agent':
            seen = set()

            def eh(i, f):
                if i.fault is not None or not f.module.name.startswith('deep'):
                    return
                chain = tuple((x.func.qual, x.line) for x in i.stack if x.func is not None and x.module.name.startswith('deep'))
                if chain in seen:
                    return
                seen.add(chain)
                if len(chain) >= 3 and i.choose(2, 'raise:%s' % f.name) == 1:
                    blow(i, 'a failure in %s' % f.qual)
            it.entry_hook = eh
        g, f = frames(it, '1', fl)
        if exc:
            e = HostVal('err', it.hclass('AppError', 'AppError', (Exception,)), None, {'args': (it.hint('err0'),)})
            w.invoke(g, f, None, (HostVal('AppErrorClass', it.hclass('type', 'type', (type,))), e))
        else:
            w.invoke(g, f, it.hobj('ret', {'r': it.hint('r')}))
        if it.fault:
            it.witness.add('fault:%s' % point)
        second(it, w)
    return fn


def persistent(feats, point):
    """A part that fails each time: the rest goes on."""
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        it.short = 500
        hd = handler(it, feats)
        w = Watcher(it, hd, feats)
        classes = [RuntimeError, SystemExit, KeyboardInterrupt, StopIteration, GeneratorExit, RecursionError, MemoryError]
        cls = classes[it.choose(len(classes), 'class')]
        it.fault = (point, None, cls.__name__, '-', ())

        def blow(*a):
            raise PyExc(cls('always'), it.site())
        it.eval_hook = blow if point == 'eval' else lambda i, name, e, g, lo, sc: True if e == 'cond' else it.hobj('val', {})
        if point == 'boundary':
            it.boundary_hook = blow
        if point == 'log':
            it.log_hook = blow
        for n in range(2):
            g, f = frames(it, str(n), simple(it, str(n)))
            w.invoke(g, f, it.hint('ret%d' % n))
    return fn


# -------------------------------------------------------------------- effects

def deny(it, events, frames_=(), lifecycle=False):
    plain = {id(f.attrs['f_locals']) for f in frames_}
    for e in events:
        if e.kind == 'host':
            t = e.args[0] if e.args else None
            cname = type_name_of(t) if isinstance(t, HostVal) else ''
            closed = isinstance(t, HostVal) and 'closed' in t.traits
            if e.name in WRITES and not closed:
                it.check(False, 'C01.writes', '%s of %s, a value of the program' % (e.name, show(t)), e.site)
            if e.name in ('iter', 'consume') and isinstance(t, HostVal) and not closed:
                c = t.cls
                ok = isinstance(c, type) or any(b in (dict, list, tuple, set, frozenset, str, bytes) for b in py_bases(c))
                it.check(ok, 'C01.consumes', 'iterates over %s, which is a %s' % (show(t), show(cname)), e.site)
            if e.name == 'getattr' and isinstance(t, HostVal) and not closed and len(e.args) > 1:
                n = e.args[1]
                it.check(isinstance(n, str) and (n == 'args' and Exception in py_bases(t.cls)) or isinstance(n, str) and n.startswith('__') and n.endswith('__'), 'C01.runs-code', 'reads the attribute %s of %s' % (show(n), show(t)), e.site)
        elif e.kind == 'effect':
            it.check(False, 'C01.process', '%s%s' % (e.name, show(e.args)), e.site)
        elif e.kind == 'hook' and not lifecycle and not e.name.endswith('gettrace'):
            it.check(False, 'C01.process', '%s is called' % e.name, e.site)
        elif e.kind == 'mutate':
            it.check(False, 'C01.writes', 'changes %s' % show(e.args), e.site)
        elif e.kind == 'wait' and not lifecycle:
            it.check(False, 'C01.waits', 'the application thread waits (%s)' % e.name, e.site)
        elif e.kind == 'env' and e.name not in ('get', 'getenv', 'contains', '[]', 'getitem', 'items', 'keys', 'copy', 'iter'):
            it.check(False, 'C01.process', 'environment: %s' % e.name, e.site)
        elif e.kind == 'log':
            name = e.name
            it.check(isinstance(name, str) and (name == 'deep' or name.startswith('deep.')), 'C01.loggers', 'logs with the logger %s' % show(name), e.site)
            for a in e.args[2] if len(e.args) > 2 and isinstance(e.args[2], tuple) else ():
                bad = isinstance(a, HostVal) and isinstance(a.cls, HostClass) and 'closed' not in a.traits and Exception not in py_bases(a.cls) \
                    and a.cls.name not in ('type', 'traceback', 'frame', 'code')
                it.check(not bad, 'C01.log-text', 'the value %s is formatted by the logging of the agent' % show(a), e.site)
        if e.kind in ('host', 'eval', 'boundary') and e.locks and not lifecycle and not (e.kind == 'host' and e.name == 'live-view'):
            it.check(False, 'C01.lock-held', '%s %s runs while %d lock(s) of the agent are held' % (e.kind, e.name, len(e.locks)), e.site)
    it.check(True, 'C01.writes', '')


def scope_check(it, frames_):
    real = {id(f.attrs[k]): (f, k) for f in frames_ for k in ('f_locals',)}
    pl = {id(f.attrs[k].payload): (f, k) for f in frames_ for k in ('f_locals',)}

    def chk(lo):
        hit = real.get(id(lo)) or pl.get(id(lo))
        it.check(hit is None, 'C01.scope', 'an expression is evaluated in the %s of the frame itself' % (hit[1] if hit else ''))
    return chk


def effect_world(feats, names, exc=False):
    """Everything the agent does, with values of all kinds."""
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        it.short = 500
        cat = catalog(it)
        hd = handler(it, feats)
        w = Watcher(it, hd, feats)
        fl = {'v_' + n: cat[n] for n in names}
        for n in ('self',):
            fl[n] = cat['obj']
        g, f = frames(it, '1', fl, {'outer': cat['gen'], 'self': cat['slots']})
        chk = scope_check(it, [f, g])
        k = [0]

        def ev(i, name, e, gl, lo, sc):
            chk(lo)
            chk(gl)
            if e == 'cond':
                return True
            k[0] += 1
            return cat[names[k[0] % len(names)]]
        it.eval_hook = ev
        n0 = len(it.events)
        before = {n: (list(v.payload) if isinstance(v.payload, list) else dict(v.payload) if isinstance(v.payload, dict) else None)
                  for n, v in cat.items() if isinstance(v, HostVal)}
        if exc:
            w.invoke(g, f, None, (HostVal('AppErrorClass', it.hclass('type', 'type', (type,))), cat['exc']))
        else:
            w.invoke(g, f, cat[names[0]])
        deny(it, it.events[n0:], [f, g])
        for n, v in cat.items():
            if isinstance(v, HostVal) and before[n] is not None:
                now = list(v.payload) if isinstance(v.payload, list) else dict(v.payload)
                it.check(len(now) == len(before[n]) and all(a is b for a, b in zip(now, before[n])), 'C01.writes', 'the value %s is changed' % show(v))
        it.check(set(f.attrs['f_locals'].payload) == set(fl), 'C01.writes', 'the locals of the frame are changed')
    return fn


def quiet_program(it):
    """Frames without a tracepoint: nothing at all happens."""
    hd = handler(it, ['snapshot', 'span'])
    p = Prog(it, it.get(hd, 'trace_call'))
    n0 = len(it.events)
    f = it.frame('f', filename='/app/src/other.py', name='other', line=9, flocals={'v': it.hobj('v', {})})
    g = it.frame('g', name='different', line=30, lines=[30, 31], flocals={'v': it.hobj('v2', {})})
    for fr in (f, g):
        p.call(fr, 30)
        p.line(fr, 31)
        p.exc(fr, ValueError, it.hobj('e'))
        p.ret(fr, it.hobj('r'))
    evs = it.events[n0:]
    deny(it, evs, [f, g])
    it.check(not [e for e in evs if e.kind in ('boundary', 'eval') or (e.kind == 'host' and e.name != 'live-view')], 'C01.writes', 'work on frames without a tracepoint')


def hostile_frame(what):
    """Frames and events that are unusual."""
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        hd = handler(it, list(FEATURES))
        w = Watcher(it, hd, list(FEATURES))
        it.eval_hook = lambda i, name, e, g, lo, sc: True
        g, f = frames(it, '1', simple(it, '1'))
        p = w.p
        p.stack = [g]
        if what == 'opcode':
            p.call(f, 9)
            p.event(f, 'opcode')
        elif what == 'unknown':
            p.call(f, 9)
            p.event(f, 'something_new', it.hobj('a'))
        elif what == 'c_call':
            p.call(f, 9)
            p.event(f, 'c_call', it.hobj('cfn'))
        elif what == 'no-line':
            p.call(f, None)
            f.attrs['f_lineno'] = None
            p.event(f, 'line')
        elif what == 'odd-filename':
            f.attrs['f_code'].attrs['co_filename'] = ''
            p.call(f, 9)
            p.line(f, 10)
        elif what == 'return-without-call':
            p.deliver(p.fn, f, 'return', None)
            p.deliver(p.fn, f, 'exception', (ValueError, None, None))
        elif what == 'exception-none':
            p.call(f, 9)
            p.event(f, 'exception', (None, None, None))
        elif what == 'exception-odd':
            p.call(f, 9)
            p.line(f, 10)
            p.event(f, 'exception', None)
        elif what == 'deep-stack':
            b = None
            for n in range(40):
                b = it.frame('b%d' % n, filename='/app/x.py', name='x', line=n + 1, back=b)
            f.attrs['f_back'] = b
            p.stack = [b]
            p.call(f, 9)
            p.line(f, 10)
        elif what == 'recursion':
            p.call(f, 9)
            p.line(f, 10)
            f2 = it.frame('f2', name='func', line=9, lines=[9, 10, 11], flocals=simple(it, 'r'), code=f.attrs['f_code'])
            p.call(f2, 9)
            p.line(f2, 10)
            p.ret(f2, it.hint('r2'))
            p.line(f, 11)
            p.ret(f, it.hint('r1'))
        elif what == 'same-frame-twice':
            p.call(f, 9)
            p.line(f, 10)
            p.line(f, 10)
            p.ret(f, None)
            p.call(f, 9)
            p.ret(f, None)
        second(it, w)
    return fn




def log_config(conf):
    """The logging of the application is left as it is."""
    def fn(it):
        lg = it.mod('logging')
        app = it.call(lg['getLogger'], ['app'], {})
        root = lg['root']
        before = {n: (it.get(o, 'propagate'), it.get(o, 'disabled'), it.get(o, 'level'), list(it.iterate(it.get(o, 'handlers')))) for n, o in (('root', root), ('app', app))}
        cfg = None
        if conf != 'no config':
            cfg = it.new(it.public('deep.config', 'ConfigService'), {} if conf is None else {'LOGGING_CONF': conf})
        n0 = len(it.events)
        it.call(it.public('deep.logging', 'init'), [cfg], {})
        for e in it.events[n0:]:
            if e.kind == 'effect' and e.name in ('logging.setLevel', 'logging.addHandler', 'logging.removeHandler', 'logging.addFilter'):
                it.check(str(e.args[0]) == 'deep' or str(e.args[0]).startswith('deep.'), 'C01.loggers', '%s of the logger %s' % (e.name, show(e.args[0])), e.site)
            elif e.kind == 'effect' and e.name == 'logging.fileConfig':
                it.check(isinstance(conf, str) and conf != 'no config' and e.args[0] == conf, 'C01.loggers',
                         'a configuration file is applied which the user has not named: %s' % show(e.args[0]), e.site)
                it.check(e.args[1] is False, 'C01.loggers', 'the existing loggers of the application are disabled', e.site)
            elif e.kind == 'effect':
                it.check(False, 'C01.loggers', '%s%s' % (e.name, show(e.args)), e.site)
        for n, o in (('root', root), ('app', app)):
            now = (it.get(o, 'propagate'), it.get(o, 'disabled'), it.get(o, 'level'), list(it.iterate(it.get(o, 'handlers'))))
            it.check(now == before[n], 'C01.loggers', 'the logger %s of the application is changed' % n)
    return fn


def scenarios(tier):
    out = [S('log-config/%s' % c, log_config(c), 50, 20) for c in ('no config', None, '/app/logging.conf')]
    allf = list(FEATURES)
    for point in ('value', 'eval', 'boundary', 'log', 'agent'):
        for cls in (RuntimeError, KeyboardInterrupt) + ((RecursionError, SystemExit, StopIteration, GeneratorExit) if tier == 'thorough' else ()):
            for n in allf:
                if point == 'agent' and cls is not RuntimeError and tier != 'thorough':
                    continue
                out.append(S('fault/%s/%s/%s' % (point, cls.__name__, n), fault_world([n], point, cls), 2500, 60))
            if point != 'agent':
                out.append(S('fault/%s/%s/mixed' % (point, cls.__name__), fault_world(['span', 'snapshot-log', 'metric', 'method-span', 'line-capture'], point, cls, exc=True), 1500, 60))
        if point not in ('value', 'agent'):
            for n in allf:
                out.append(S('always/%s/%s' % (point, n), persistent([n], point), 100, 30))
            out.append(S('always/%s/all' % point, persistent(allf, point), 100, 60))
    import c02
    names = ['int', 'const', 'none', 'float', 'str', 'bytes', 'list', 'tuple', 'set', 'frozenset', 'dict', 'mixed', 'objkeys', 'nested', 'obj', 'slots', 'class', 'exc',
             'stdexc', 'iter', 'gen', 'module', 'func', 'odict', 'namedtuple', 'shared', 'cyc', 'cobj', 'selfish', 'range', 'complex', 'underobj']
    for n in allf:
        for k in range(0, len(names), 8):
            out.append(S('effects/%s/%d' % (n, k), effect_world([n], names[k:k + 8]), 60, 40))
        for v in ('gen', 'iter', 'obj', 'slots', 'odict', 'exc', 'list', 'dict', 'module', 'func', 'class'):
            out.append(S('effects/%s/%s' % (n, v), effect_world([n], [v], exc=n in ('method-capture', 'line-capture')), 60, 40))
    out.append(S('effects/all', effect_world(allf, names), 30, 60))
    out.append(S('quiet', quiet_program, 50, 30))
    for wht in ('opcode', 'unknown', 'c_call', 'no-line', 'odd-filename', 'return-without-call', 'exception-none', 'exception-odd', 'deep-stack', 'recursion', 'same-frame-twice'):
        out.append(S('frames/' + wht, hostile_frame(wht), 200, 40))
    return out
