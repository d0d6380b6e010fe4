"""C06 Collection is total; tracepoints do not disturb each other."""
from lib import *
from c02 import catalog, check_frame
LEVEL = 'fault_enumeration'

RULES = {
    'C06.delivered': 'whatever operation of a reachable object raises (every class of exception edge), the due snapshot is pushed',
    'C06.others-intact': 'every other variable has the type, text and children of its object, and the frames are complete',
    'C06.placeholder': 'the offending value has an entry with its type name and some text',
    'C06.independent': 'the snapshots of tracepoints on one event are each complete for their own configuration and limits',
    'C06.unshared': 'two snapshots do not share the containers of their frames and variables',
    'C01.raises': 'nothing is raised into the application',
}
EXPLANATION = 'Exception edges at every operation the agent applies to a value of the program, and pairs of tracepoints on one event.'
KINDS = ['str', 'repr', 'len', 'getattr', 'getitem', 'iter', 'consume', 'eq', 'hash', 'bool', 'cmp', 'contains', 'dir', 'format', 'exc-str', 'int', 'float', 'copy',
         'deepcopy', 'call', 'binop']


class Some:
    def __init__(self, *vs):
        self.vs = vs

    def __contains__(self, x):
        v = self.vs[0]
        return any(x is y for y in self.vs if y is not None) or x is v.attrs.get('@str')


def hostile(it, v, cls):
    """Every operation on v raises cls."""
    for k in KINDS:
        it.host_memo[(k, vkey(v))] = cls
        if isinstance(v.cls, HostClass):
            it.host_memo[(k, vkey(v.cls))] = cls
    it.fault = ('any operation', v, cls.__name__, '-', ())


def full(it, snap, frames, which='top', rule='C06.others-intact', limits=None, placeholders=(), watches=(), captures=(), budget=False, logs=None):
    """One complete snapshot."""
    sc = SnapCheck(it, snap, rule=rule, limits=limits, placeholders=placeholders, budget_hit=budget)
    got = list(it.iterate(it.get(snap, 'frames')))
    it.check(len(got) == len(frames), rule, '%d frames, the stack has %d' % (len(got), len(frames)))
    for n, (sf, fr) in enumerate(zip(got, frames)):
        check_frame(it, sf, fr, n, rule)
        vs = list(it.iterate(it.get(sf, 'variables')))
        if which == 'all' or (which == 'top' and n == 0):
            sc.names(vs, [(k, None, v) for k, v in fr.attrs['f_locals'].payload.items()], 'frame %d' % n, 0)
        else:
            it.check(not vs, rule, 'frame %d has variables, frame_type excludes them' % n)
    res = watch_results(it, snap)
    w = [r for r in res if it.tri_eq(r[1], 'WATCH') is True]
    it.check([r[0] for r in w] == [e for e, _ in watches], rule, 'results of %s, watches are %s' % ([r[0] for r in w], [e for e, _ in watches]))
    for (e, src, vid, er, _), (_, v) in zip(w, watches):
        if v is MISSING:
            it.check(vid is None and er is not None, rule, 'failing watch %s has result %s' % (e, show(vid)))
        elif budget and vid is None:
            continue
        else:
            it.check(vid is not None, rule, 'watch %s has the error %s' % (e, show(er)))
            sc.ref(vid, v, 'watch %s' % e, 0)
    c = [r for r in res if it.tri_eq(r[1], 'CAPTURE') is True]
    it.check(len(c) == len(captures), rule, '%d captured results, expected %d' % (len(c), len(captures)))
    for (e, src, vid, er, _), v in zip(c, captures):
        if budget and vid is None:
            continue
        it.check(vid is not None, rule, 'the captured value is missing: %s' % show(er))
        sc.ref(vid, v, 'capture', 0)
    sc.all_reachable()
    return sc


def offender(it, what):
    """(value, values whose text cannot be relied on)"""
    if what == 'object':
        v = it.hobj('bad', {'x': it.hint('bad.x')})
    elif what == 'slots':
        v = it.hobj('bad')
    elif what == 'exception':
        v = HostVal('bad', it.hclass('BadError', 'BadError', (Exception,)), None, {'args': (it.hint('bad.arg'),)})
    elif what == 'dictsub':
        v = HostVal('bad', it.hclass('BadDict', 'BadDict', (dict,)), {'a': it.hint('bad.a')})
    elif what == 'listsub':
        v = HostVal('bad', it.hclass('BadList', 'BadList', (list,)), [it.hint('bad.0')])
    elif what == 'strsub':
        v = HostVal('bad', it.hclass('BadStr', 'BadStr', (str,)))
    elif what == 'intsub':
        v = HostVal('bad', it.hclass('BadInt', 'BadInt', (int,)))
    elif what == 'metaclass':
        v = it.hobj('bad', {'x': it.hint('bad.x')}, cls=it.hclass('BadCls', 'BadCls', (object,), {'odd-meta'}))
    elif what == 'metalist':
        v = HostVal('bad', it.hclass('BadList', 'BadList', (list,), {'odd-meta'}), [it.hint('bad.0')])
    elif what == 'oddstr':
        v = it.hobj('bad', {'x': it.hint('bad.x')}, traits={'odd-str'})
    elif what == 'class':
        v = HostVal('bad', it.hclass('BadMeta', 'BadMeta', (type,)))
    elif what == 'generator':
        v = HostVal('bad', it.hclass('generator', 'generator'))
    elif what == 'iterator':
        v = HostVal('bad', it.hclass('list_iterator', 'list_iterator'))
    elif what == 'module':
        v = HostVal('bad', it.hclass('module', 'module'))
    elif what == 'proxy':
        # an attribute dictionary that is not a plain one
        v = it.hobj('bad', {})
        v.attrs['__dict__'] = HostVal('bad.__dict__', it.hclass('mappingproxy', 'mappingproxy'))
    else:
        raise KeyError(what)
    return v


PLACES = ['local', 'list', 'dict', 'key', 'attr', 'self', 'watch', 'return', 'exception', 'outer', 'set', 'exc-arg']


def place_in(it, place, v):
    """(locals, locals of the caller, watches)"""
    a, z = it.hint('a'), it.hobj('z', {'n': it.hstr('z.n'), 'l': it.hlist('z.l', [it.hint('z.l0')])})
    fl, outer, ws = {'a': a}, {'o': it.hint('o')}, []
    if place == 'local':
        fl['v'] = v
    elif place == 'list':
        fl['c'] = it.hlist('c', [it.hint('c0'), v, it.hint('c2')])
    elif place == 'set':
        fl['c'] = HostVal('c', frozenset, [v, it.hint('c1')])
    elif place == 'dict':
        fl['c'] = it.hdict('c', {'p': it.hint('cp'), 'q': v, 'r': it.hint('cr')})
    elif place == 'key':
        fl['c'] = it.hdict('c', {'p': it.hint('cp'), v: it.hint('cv'), 'r': it.hint('cr')})
    elif place == 'attr':
        fl['c'] = it.hobj('c', {'p': it.hint('cp'), 'q': v, 'r': it.hint('cr')})
    elif place == 'exc-arg':
        fl['c'] = HostVal('c', ValueError, None, {'args': (it.hint('c0'), v)})
    elif place == 'self':
        fl = {'self': v, 'a': a}
    elif place == 'outer':
        outer = {'p': it.hint('op'), 'self': v, 'q': it.hint('oq')}
    elif place == 'watch':
        ws = ['w', 'a']
    fl['z'] = z
    return fl, outer, ws


def fault(place, what, mode):
    """One reachable value whose operations raise."""
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        it.short = 500
        v = offender(it, what)
        fl, outer, ws = place_in(it, place, v)
        capture = place in ('return', 'exception')
        args = {'frame_type': 'all_frame'}
        if capture:
            args.update(stage='method_capture', method_name='func')
        hd = it.handler()
        it.install(hd, [it.trigger('tp', 'target.py', 10, args, watches=ws)])
        g = it.frame('g', filename='/app/main.py', name='main', line=3, flocals=outer)
        f = it.frame('f', name='func', line=10, flocals=fl, back=g)
        vals = {'w': v, 'a': fl['a']}
        it.eval_hook = lambda i, name, expr, gl, lo, scope: vals[expr]
        mine = Some(v, v.attrs.get('__dict__'), v.cls, v.attrs.get('@str'))
        if mode == 'one':
            it.can_fault = lambda kind, target: [RuntimeError, SystemExit] if target in mine else None
        else:
            hostile(it, v, {'Exception': ValueError, 'BaseException': KeyboardInterrupt, 'AttributeError': AttributeError, 'recursion': RecursionError}[mode])
        p = Prog(it, it.get(hd, 'trace_call'))
        p.stack.append(g)
        caps = []
        if capture:
            p.call(f)
            if place == 'return':
                p.ret(f, v)
                caps = [v]
            else:
                cls = HostVal('BadErrorClass', it.hclass('type', 'type', (type,)))
                e = (cls, v, HostVal('tb', HostClass('tb', 'traceback')))
                p.event(f, 'exception', e)
                p.ret(f, None)
                caps = [e]
        else:
            p.deliver(p.fn, f, 'line', None)
        got = it.pushed()
        it.check(len(got) == 1, 'C06.delivered', '%d snapshots of one due hit, when an operation on %s raises' % (len(got), show(v)))
        it.fault = it.fault or ('-', None, '-', '-', ())
        full(it, got[0], [f, g], 'all', placeholders=[v], watches=[(w, vals[w]) for w in ws], captures=caps)
    return fn


def mutating(kind):
    """A collection of the program that is changed by another thread while it is read."""
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        it.short = 500
        x, y = it.hint('x'), it.hint('y')
        if kind == 'dict':
            v = it.hdict('v', {'x': x, 'y': y})
        elif kind == 'attrs':
            v = it.hobj('v', {'x': x, 'y': y})
        elif kind == 'set':
            v = it.hset('v', [x, y])
        else:
            v = it.hlist('v', [x, y])
        hd = it.handler()
        it.install(hd, [it.trigger('tp', 'target.py', 10, {})])
        z = it.hobj('z', {'n': it.hint('z.n')})
        f = it.frame('f', line=10, flocals={'a': it.hint('a'), 'v': v, 'z': z})
        t = v.attrs['__dict__'] if kind == 'attrs' else v
        it.can_fault = lambda k, target: [RuntimeError] if target is t and k in ('iter', 'consume', 'len', 'getitem') else None
        Prog(it, None).deliver(it.get(hd, 'trace_call'), f, 'line', None)
        got = it.pushed()
        it.check(len(got) == 1, 'C06.delivered', '%d snapshots of one due hit, when a collection changes size while it is read' % len(got))
        full(it, got[0], [f], 'top', placeholders=[v])
    return fn


def everything(order):
    """All kinds of values at once."""
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        it.short = 500
        cat = catalog(it)
        names = sorted(cat, reverse=order == 'reverse')
        hd = it.handler()
        it.install(hd, [it.trigger('tp', 'target.py', 10, {})])
        f = it.frame('f', line=10, flocals={'v_' + n: cat[n] for n in names})
        Prog(it, None).deliver(it.get(hd, 'trace_call'), f, 'line', None)
        got = it.pushed()
        it.check(len(got) == 1, 'C06.delivered', '%d snapshots' % len(got))
        full(it, got[0], [f], 'top')
    return fn


# -------------------------------------------------------------------- several tracepoints on one event

CONFIGS = {
    'plain': ({}, []),
    'no-frame': ({'frame_type': 'no_frame'}, []),
    'all-frame': ({'frame_type': 'all_frame'}, []),
    'watches': ({}, ['o', 'a']),
    'fail-watch': ({}, ['bad', 'o.x']),
    'watch-only': ({'frame_type': 'no_frame'}, ['o', 'a']),
    'log': ({'log_msg': 'v {o} {bad} {a}'}, []),
    'tiny': ({'MAX_VARIABLES': '1'}, []),
    'shallow': ({'MAX_VAR_DEPTH': '2'}, []),
    'narrow': ({'MAX_COLLECTION_SIZE': '1', 'MAX_STRING_LENGTH': '3'}, []),
    'metric': ({}, []),
    'span': ({'span': 'line'}, []),
    'line-capture': ({'stage': 'line_capture'}, []),
    'logonly': ({'snapshot': 'no_collect', 'log_msg': 'v {o} {bad}'}, []),
    'rejected': ({'condition': 'bad'}, []),
}


def together(names, event='line'):
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        it.short = 500
        h = it.harness()
        hd = it.handler(plugins=[it.new(h['MetricPlug'], 'm'), it.new(h['SpanPlug'], 's'), it.new(h['LogPlug'], 'l')])
        trigs = []
        for k, n in enumerate(names):
            args, ws = CONFIGS[n]
            args = dict(args)
            if event == 'call':
                args['method_name'] = 'func'
                if n == 'line-capture':
                    args['stage'] = 'method_capture'
                if n == 'span':
                    args['span'] = 'method'
            ms = [it.new(it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition'), 'm', 'COUNTER', [], 'bad')] if n == 'metric' else []
            trigs.append(it.trigger('tp%d' % k, 'target.py', 10, args, watches=list(ws), metrics=ms))
        it.install(hd, trigs)
        o = it.hobj('o', {'x': it.hlist('o.x', [it.hint('o.x.0'), it.hint('o.x.1')]), 't': 'four'})
        a = it.hint('a')
        g = it.frame('g', filename='/app/main.py', name='main', line=3, flocals={'go': o, 'gi': it.hint('gi')})
        f = it.frame('f', name='func', line=10, flocals={'a': a, 'o': o, 'd': it.hdict('d', {'k': it.hdict('d.k', {'j': it.hint('j')})})}, back=g)
        vals = {'o': o, 'a': a, 'o.x': o.attrs['x']}

        def ev(i, name, expr, gl, lo, scope):
            if expr not in vals:
                raise PyExc(NameError('name is not defined'), i.site())
            return vals[expr]
        it.eval_hook = ev
        p = Prog(it, it.get(hd, 'trace_call'))
        p.stack.append(g)
        if event == 'call':
            p.call(f)
        else:
            p.call(f, 9)
            p.line(f, 10)
        ret = it.hobj('ret', {'r': o})
        p.ret(f, ret)
        snaps = {}
        for s in it.pushed():
            t = it.resolve(tp_of(it, s))
            it.check(t not in snaps, 'C06.independent', 'two snapshots of tracepoint %s' % show(t))
            snaps[t] = s
        for k, n in enumerate(names):
            args, ws = CONFIGS[n]
            t = 'tp%d' % k
            if n in ('logonly', 'rejected'):
                it.check(t not in snaps, 'C06.independent', 'a snapshot of tracepoint %s (%s), which collects none' % (t, n))
                continue
            it.check(t in snaps, 'C06.delivered', 'no snapshot of tracepoint %s (%s) next to %s' % (t, n, ', '.join(x for j, x in enumerate(names) if j != k)))
            which = {'no_frame': 'none', 'all_frame': 'all'}.get(args.get('frame_type'), 'top')
            lim = Limits()
            if n == 'tiny':
                lim.variables = 1
            if n == 'shallow':
                lim.depth = 2
            if n == 'narrow':
                lim.collection, lim.string = 1, 3
            logs = [r for r in watch_results(it, snaps[t]) if it.tri_eq(r[1], 'LOG') is True]
            caps = [ret] if n == 'line-capture' else []
            sc = full(it, snaps[t], [f, g], which, rule='C06.independent', limits=lim, budget=n == 'tiny',
                      watches=[(w, vals.get(w, MISSING)) for w in ws], captures=caps)
            it.check(len(logs) == (3 if n == 'log' else 0), 'C06.independent', '%d log results on the snapshot of %s (%s)' % (len(logs), t, n))
            for (e, src, vid, er, _) in logs:
                e = it.resolve(e)
                if e in vals:
                    it.check(vid is not None, 'C06.independent', 'log field %s fails: %s' % (e, show(er)))
                    sc.ref(vid, vals[e], 'log %s' % e, 0)
            if n == 'tiny':
                it.check(len(sc.table) <= 2, 'C05.variables', '%d variables, the limit is 1' % len(sc.table))
        ss = list(snaps.values())
        for i in range(len(ss)):
            for j in range(i):
                for attr in ('var_lookup', 'frames', 'watches'):
                    it.check(it.get(ss[i], attr) is not it.get(ss[j], attr), 'C06.unshared', 'two snapshots share their %s' % attr)
                fa, fb = list(it.iterate(it.get(ss[i], 'frames'))), list(it.iterate(it.get(ss[j], 'frames')))
                for x, y in zip(fa, fb):
                    it.check(x is not y and (it.get(x, 'variables') is not it.get(y, 'variables')), 'C06.unshared', 'two snapshots share a frame')
        it.check(len(snaps) == sum(1 for n in names if n not in ('logonly', 'rejected')), 'C06.independent', 'snapshots of %s' % sorted(snaps))
    return fn


def scenarios(tier):
    out = []
    kinds = ['object', 'slots', 'exception', 'dictsub', 'listsub', 'strsub', 'intsub', 'class', 'generator', 'iterator', 'module', 'proxy', 'metaclass', 'metalist', 'oddstr']
    for w in kinds:
        for pl in PLACES:
            if pl == 'exception' and w not in ('exception',):
                continue
            if pl == 'key' and w in ('dictsub', 'listsub', 'proxy'):
                continue
            if pl == 'set' and w in ('dictsub', 'listsub'):
                continue
            for mode in ('one', 'Exception', 'BaseException', 'AttributeError', 'recursion'):
                if mode == 'recursion' and tier == 'quick' and pl not in ('local', 'watch', 'return'):
                    continue
                out.append(S('fault/%s/%s/%s' % (pl, w, mode), fault(pl, w, mode), 40 if w == 'proxy' else 400, 30))
    for k in ('dict', 'attrs', 'set', 'list'):
        out.append(S('mutating/' + k, mutating(k), 200, 30))
    out += [S('everything/forward', everything('forward'), 100, 60), S('everything/reverse', everything('reverse'), 100, 60)]
    for a in CONFIGS:
        for b in CONFIGS:
            out.append(S('together/%s/%s' % (a, b), together([a, b]), 100, 40))
            if tier == 'thorough' or b in ('plain', 'watches', 'line-capture', 'no-frame', 'tiny'):
                out.append(S('together-call/%s/%s' % (a, b), together([a, b], 'call'), 100, 40))
    for t in (('plain', 'plain', 'plain'), ('watches', 'no-frame', 'all-frame'), ('tiny', 'log', 'watches'), ('fail-watch', 'line-capture', 'log'),
              ('all-frame', 'narrow', 'shallow'), ('metric', 'span', 'plain'), ('line-capture', 'line-capture', 'watch-only'), ('rejected', 'logonly', 'watch-only', 'log')):
        for ev in ('line', 'call'):
            out.append(S('together3-%s/%s' % (ev, '-'.join(t)), together(list(t), ev), 100, 40))
    return out
