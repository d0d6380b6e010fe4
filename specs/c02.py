"""C02 Snapshot fidelity."""
from lib import *

RULES = {
    'C02.frames': 'the frames are those of the f_back chain, in order, each with the file, function and line of its frame',
    'C02.class': 'class_name is the name of the class of the frame\'s self, None without self',
    'C02.app-frame': 'app frame flag and short path are those of the configuration',
    'C02.locals': 'the variables of a frame selected by frame_type are exactly its locals; other frames have none',
    'C02.value': 'every variable has the type name, text and children of the object (provenance terms)',
    'C02.watch': 'each watch has one result, evaluated with the scope of the paused frame, which denotes the value of the expression',
    'C02.tracepoint': 'the snapshot names the tracepoint with its id, path, line, arguments, watches',
    'C02.one': 'one due hit gives exactly one snapshot, before trace_call returns',
}
EXPLANATION = 'Catalogue of value kinds with opaque contents, stacks of up to four frames, every frame/stack type, watches with opaque values.'


def one_snapshot(it):
    p = it.pushed()
    it.check(len(p) == 1, 'C02.one', '%d snapshots of one due hit' % len(p))
    return p[0]


def check_frame(it, sf, fr, n, rule='C02.frames'):
    code = fr.attrs['f_code']
    for attr, want in (('file_name', code.attrs['co_filename']), ('method_name', code.attrs['co_name']), ('line_number', fr.attrs['f_lineno'])):
        got = it.get(sf, attr)
        it.check(it.tri_eq(got, want) is True, rule, 'frame %d: %s is %s, expected %s' % (n, attr, show(got), show(want)))
    slf = fr.attrs['f_locals'].payload.get('self')
    want = None if slf is None else type_name_of(slf)
    got = it.get(sf, 'class_name')
    it.check(it.tri_eq(got, want) is True, 'C02.class', 'frame %d: class_name %s, expected %s' % (n, show(got), show(want)))


def check_frames(it, snap, frames, which, limits=None, placeholders=()):
    sc = SnapCheck(it, snap, limits=limits, placeholders=placeholders)
    got = list(it.iterate(it.get(snap, 'frames')))
    it.check(len(got) == len(frames), 'C02.frames', '%d frames, the stack has %d' % (len(got), len(frames)))
    for n, (sf, fr) in enumerate(zip(got, frames)):
        check_frame(it, sf, fr, n)
        vs = list(it.iterate(it.get(sf, 'variables')))
        if which == 'all' or (which == 'top' and n == 0):
            sc.rule = 'C02.locals'
            want = [(k, None, v) for k, v in fr.attrs['f_locals'].payload.items()]
            sc.names(vs, want, 'frame %d' % n, 0)
            sc.rule = 'C02.value'
        else:
            it.check(not vs, 'C02.locals', 'frame %d has variables, frame_type excludes them' % n)
    return sc


def catalog(it):
    """Values of every kind a program can have."""
    E = it.hclass('MyError', 'MyError', (Exception,))
    exc = HostVal('exc', E, None, {'args': (it.hint('exc.arg0'), it.hstr('exc.arg1'))})
    exc.attrs['__dict__'] = HostVal('exc.__dict__', dict, {})
    shared = it.hobj('shared', {'k': it.hint('shared.k')})
    cyc = it.hlist('cyc', [])
    cyc.payload.append(cyc)
    cobj = it.hobj('cobj', {})
    cobj.attrs['__dict__'].payload['me'] = cobj
    cobj.attrs['me'] = cobj
    return {
        'int': it.hint('int'), 'const': 7, 'none': None, 'true': True, 'float': HostVal('float', float), 'str': it.hstr('str'), 'empty': '',
        'text': 'some text', 'bytes': HostVal('bytes', bytes), 'complex': HostVal('complex', complex), 'range': HostVal('range', range),
        'list': it.hlist('list', [it.hint('l0'), it.hstr('l1')]), 'emptylist': it.hlist('emptylist', []),
        'tuple': it.htuple('tuple', [it.hint('t0')]), 'set': it.hset('set', [it.hint('s0')]), 'frozenset': HostVal('frozenset', frozenset, [it.hint('fs0')]),
        'dict': it.hdict('dict', {'a': it.hint('d.a'), 'b': it.hstr('d.b')}), 'intdict': it.hdict('intdict', {1: it.hint('id.1'), 2: 3}),
        'mixed': it.hdict('mixed', {None: it.hint('m.none'), 'x': it.hint('m.x'), (1, 2): it.hint('m.t'), True: it.hint('m.true')}),
        'objkeys': it.hdict('objkeys', {it.hobj('key', {}): it.hint('ok.v')}),
        'nested': it.hdict('nested', {'l': it.hlist('n.l', [it.hdict('n.l.0', {'z': it.hint('n.z')})])}),
        'proxy': it.hobj('proxy', {'x': it.hint('proxy.x')}, traits={'odd-class'}),
        'obj': it.hobj('obj', {'x': it.hint('obj.x'), '_y': it.hstr('obj.y'), '_Thing_obj__z': it.hint('obj.z'), '__w': it.hint('obj.w')}),
        'underobj': it.hobj('underobj', {'_Foo__a': it.hint('uo.a'), '_Foo__b__': it.hint('uo.b')}, cls=it.hclass('_Foo', '_Foo')),
        'foreignmangle': it.hobj('fm', {'_Base__a': it.hint('fm.a'), '_Thing_fm': it.hint('fm.b'), '__Thing_fm__c': it.hint('fm.c')}),
        'slots': it.hobj('slots'), 'class': HostVal('SomeClass', it.hclass('type', 'type', (type,))), 'exc': exc,
        'stdexc': HostVal('stdexc', ValueError, None, {'args': (it.hstr('ve.0'),)}),
        'iter': HostVal('iter', it.hclass('list_iterator', 'list_iterator')), 'gen': HostVal('gen', it.hclass('generator', 'generator')),
        'module': HostVal('module', it.hclass('module', 'module')), 'func': it.hobj('fn', {}, cls=it.hclass('function', 'function')),
        'odict': HostVal('odict', it.hclass('OrderedDict', 'OrderedDict', (dict,)), {'a': it.hint('od.a')}),
        'namedtuple': HostVal('nt', it.hclass('Point', 'Point', (tuple,)), [it.hint('nt.x')]),
        'shared': shared, 'cyc': cyc, 'cobj': cobj, 'selfish': it.hobj('selfish', {'self': shared}),
    }


GROUPS = {}


def locals_scenario(names, event='line', stage=None):
    def fn(it):
        if len(names) > 1:
            it.short = 500
        at_time(it, it.intsym('now', 10 ** 15))
        cat = catalog(it)
        hd = it.handler()
        args = dict(stage or {})
        if event == 'call':
            args['method_name'] = 'func'
        it.install(hd, [it.trigger('tp', 'target.py', 10, args)])
        f = it.frame('f', name='func', line=10, flocals={'v_' + n: cat[n] for n in names})
        Prog(it, None).deliver(it.get(hd, 'trace_call'), f, event, None)
        snap = one_snapshot(it)
        sc = check_frames(it, snap, [f], 'top')
        sc.all_reachable()
    return fn


def stack(frame_type, depth, selfs):
    """The stack, with a mix of frames."""
    def fn(it):
        it.short = 500
        now = it.intsym('now', 10 ** 15)
        at_time(it, now)
        res = it.new(it.public('deep.api.resource', 'Resource'), {'service.name': 'svc'})
        hd = it.handler({'APP_ROOT': '/app/', 'IN_APP_INCLUDE': ['/lib/inc'], 'IN_APP_EXCLUDE': ['/app/excluded', '/lib/inc/not']}, resource=res)
        args = {}
        if frame_type is not None:
            args['frame_type'] = frame_type
        it.install(hd, [it.trigger('tp', 'target.py', 10, args)])
        files = [('/app/src/target.py', True, 'src/target.py'), ('/lib/inc/x.py', True, '/x.py'), ('/app/excluded/y.py', False, '/y.py'),
                 ('/usr/z.py', False, '/usr/z.py'), ('/lib/inc/not/w.py', False, None)]
        frames = []
        back = None
        for n in reversed(range(depth)):
            path = files[n % len(files)][0]
            loc = {'a%d' % n: it.hint('a%d' % n), 'same': it.hobj('o%d' % n, {'x': it.hint('x%d' % n)})}
            if selfs & (1 << n):
                loc['self'] = it.hobj('self%d' % n, {'attr': it.hstr('s%d' % n)}, cls=it.hclass('Cls%d' % n, 'Cls%d' % n))
            elif n == 2:
                loc['self'] = None
            fr = it.frame('f%d' % n, filename=path, name='func%d' % n, line=10 if n == 0 else it.intsym('line%d' % n, 1), flocals=loc, back=back)
            back = fr
            frames.insert(0, fr)
        Prog(it, None).deliver(it.get(hd, 'trace_call'), frames[0], 'line', None)
        snap = one_snapshot(it)
        which = {'no_frame': 'none', 'all_frame': 'all'}.get(frame_type, 'top')
        sc = check_frames(it, snap, frames, which)
        sc.all_reachable()
        for n, sf in enumerate(it.iterate(it.get(snap, 'frames'))):
            p, app, short = files[n % len(files)]
            it.check(it.get(sf, 'app_frame') is app, 'C02.app-frame', 'frame %d in %s: app_frame %s' % (n, p, it.get(sf, 'app_frame')))
            if short is not None:
                it.check(it.get(sf, 'short_path') == short, 'C02.app-frame', 'frame %d in %s: short path %r, expected %r' % (n, p, it.get(sf, 'short_path'), short))
        it.check(it.tri_eq(it.get(snap, 'ts_nanos'), now) is True, 'C02.tracepoint', 'the timestamp is %s, the hit was at %s' % (show(it.get(snap, 'ts_nanos')), show(now)))
    return fn


def recursion(it):
    """The same code object several times on the stack, and one object in several frames."""
    it.short = 500
    at_time(it, it.intsym('now', 10 ** 15))
    hd = it.handler()
    it.install(hd, [it.trigger('tp', 'target.py', 10, {'frame_type': 'all_frame'})])
    code = it.code('/app/src/target.py', 'func')
    shared = it.hobj('shared', {'x': it.hint('x')})
    back = None
    frames = []
    for n in (3, 2, 1, 0):
        back = it.frame('f%d' % n, code=code, line=10, flocals={'n': it.hint('n%d' % n), 'shared': shared, 'prev': frames[0].attrs['f_locals'].payload['n'] if frames else None},
                        back=back)
        frames.insert(0, back)
    Prog(it, None).deliver(it.get(hd, 'trace_call'), frames[0], 'line', None)
    check_frames(it, one_snapshot(it), frames, 'all').all_reachable()


def locals_in_locals(it):
    """A frame whose locals dict is itself a value of the program (module level: globals())."""
    it.short = 500
    at_time(it, it.intsym('now', 10 ** 15))
    hd = it.handler()
    it.install(hd, [it.trigger('tp', 'target.py', 10, {'frame_type': 'all_frame'})])
    f = it.frame('f', name='func', line=10, flocals={'a': it.hint('a')})
    f.attrs['f_locals'].payload['g'] = it.hobj('holder', {'d': f.attrs['f_locals']})
    Prog(it, None).deliver(it.get(hd, 'trace_call'), f, 'line', None)
    check_frames(it, one_snapshot(it), [f], 'all').all_reachable()


def module_frames(it):
    """Two frames which share their locals dict (exec at module level)."""
    it.short = 500
    at_time(it, it.intsym('now', 10 ** 15))
    hd = it.handler()
    it.install(hd, [it.trigger('tp', 'target.py', 10, {'frame_type': 'all_frame'})])
    b = it.frame('b', filename='/app/run.py', name='<module>', line=3, flocals={'a': it.hint('a'), 'o': it.hobj('o', {'x': it.hint('x')})})
    f = it.frame('f', name='<module>', line=10, back=b)
    f.attrs['f_locals'] = b.attrs['f_locals']
    Prog(it, None).deliver(it.get(hd, 'trace_call'), f, 'line', None)
    check_frames(it, one_snapshot(it), [f, b], 'all').all_reachable()


def watches(frame_type, known):
    """Watch results; the value of a watch can be a value of the frame."""
    def fn(it):
        it.short = 500
        at_time(it, it.intsym('now', 10 ** 15))
        hd = it.handler()
        args = {'frame_type': frame_type} if frame_type else {}
        ws = ['a', 'o.x', 'make()', 'bad', 'a']
        it.install(hd, [it.trigger('tp', 'target.py', 10, args, watches=ws)])
        o = it.hobj('o', {'x': it.hlist('o.x', [it.hint('o.x.0')])})
        a = it.hint('a')
        f = it.frame('f', name='func', line=10, flocals={'a': a, 'o': o}, globs={'__name__': 'target', 'make': it.hobj('make')},
                     back=it.frame('g', filename='/app/main.py', name='main', flocals={'a': it.hint('outer.a')}))
        made = it.hobj('made', {'deep': it.hdict('made.deep', {'k': it.hstr('made.k')}), 'o': o})
        vals = {'a': a, 'o.x': o.attrs['x'], 'make()': made}
        err = HostVal('err', NameError, None, {'args': ('bad',)})

        def ev(i, name, expr, g, lo, scope):
            i.check(expr in ws, 'C02.watch', 'the expression evaluated is %s' % show(expr))
            pl = payload_of(lo) if isinstance(lo, (HostVal, dict)) else None
            i.check(pl is not None and pl.get('a') is a and pl.get('o') is o, 'C02.watch', 'watch %r is evaluated with locals %s' % (expr, show(lo)))
            if expr == 'bad':
                raise PyExc(err, i.site())
            return vals[expr]
        it.eval_hook = ev
        Prog(it, None).deliver(it.get(hd, 'trace_call'), f, 'line', None)
        snap = one_snapshot(it)
        frames = [f, f.attrs['f_back']]
        sc = check_frames(it, snap, frames, {'no_frame': 'none', 'all_frame': 'all'}.get(frame_type, 'top'))
        got = watch_results(it, snap)
        it.check([g[0] for g in got] == ws, 'C02.watch', 'results of %s, watches are %s' % ([g[0] for g in got], ws))
        for e, src, res, er, w in got:
            it.check(src == 'WATCH', 'C02.watch', 'watch %r has source %s' % (e, show(src)))
            if e == 'bad':
                it.check(res is None and er is not None, 'C02.watch', 'a failing watch has result %s, error %s' % (show(res), show(er)))
            else:
                it.check(er is None and res is not None, 'C02.watch', 'watch %r has error %s' % (e, show(er)))
                sc.rule = 'C02.watch'
                sc.ref(res, vals[e], 'watch %s' % e, 0)
        sc.all_reachable()
    return fn


def names_tracepoint(case):
    """The tracepoint of the snapshot is the configured one."""
    def fn(it):
        it.short = 500
        at_time(it, it.intsym('now', 10 ** 15))
        hd = it.handler()
        tid, line = it.strsym('tp_id'), it.intsym('line', 1)
        args = {'fire_count': '-1', 'fire_period': '0', 'custom': it.strsym('custom'), 'stack_type': 'stack'}
        ws = ['x', 'y']
        event = 'line'
        if case == 'method':
            args['method_name'] = 'func'
            event = 'call'
        if case == 'log':
            args['log_msg'] = 'hello'
        md = it.new(it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition'), 'm', 'COUNTER')
        other = it.trigger('other', 'target.py', line, {'fire_count': '-1', 'fire_period': '0'})
        mine = it.trigger(tid, 'target.py', line, args, watches=ws, metrics=[md] if case == 'metric' else [])
        it.install(hd, [other, mine] if case != 'first' else [mine, other])
        f = it.frame('f', name='func', line=line, flocals={'x': 1, 'y': 2})
        it.eval_hook = lambda i, name, expr, g, lo, scope: {'x': 1, 'y': 2}[expr]
        p = Prog(it, None)
        for rnd in (1, 2):
            n0 = len(it.pushed())
            p.deliver(it.get(hd, 'trace_call'), f, event, None)
            snaps = [s for s in it.pushed()[n0:] if it.tri_eq(tp_of(it, s), tid) is True]
            it.check(len(snaps) == 1, 'C02.tracepoint', '%d snapshots name the tracepoint' % len(snaps))
            tp = it.get(snaps[0], 'tracepoint')
            for attr, want in (('id', tid), ('path', 'target.py'), ('line_no', line), ('args', args), ('watches', ws)):
                got = it.get(tp, attr)
                it.check(it.tri_eq(got, want) is True, 'C02.tracepoint', 'the %s of the tracepoint is %s, configured is %s' % (attr, show(got), show(want)))
    return fn


def slow(it):
    """The clock advances: frames are complete even when the time is used up before the variables are read."""
    it.short = 500
    it.now = None
    hd = it.handler()
    it.install(hd, [it.trigger('tp', 'target.py', 10, {'frame_type': 'all_frame'})])
    b = it.frame('b', filename='/app/main.py', name='main', line=3, flocals={'z': it.hint('z')})
    f = it.frame('f', name='func', line=10, flocals={'a': it.hint('a')}, back=b)
    Prog(it, None).deliver(it.get(hd, 'trace_call'), f, 'line', None)
    snap = one_snapshot(it)
    sc = SnapCheck(it, snap)
    got = list(it.iterate(it.get(snap, 'frames')))
    it.check(len(got) == 2, 'C02.frames', '%d frames' % len(got))
    for n, (sf, fr) in enumerate(zip(got, [f, b])):
        check_frame(it, sf, fr, n)
        vs = list(it.iterate(it.get(sf, 'variables')))
        if vs:
            sc.names(vs, [(k, None, v) for k, v in fr.attrs['f_locals'].payload.items()], 'frame %d' % n, 0)
    it.check(not feasible(it, (negate(ge(it, it.get(snap, 'duration_nanos'), 0)), True)), 'C02.tracepoint', 'the duration can be negative')


def two_threads(it):
    """Each thread's snapshot is about its own frame."""
    it.short = 500
    at_time(it, it.intsym('now', 10 ** 15))
    hd = it.handler()
    it.install(hd, [it.trigger('tp', 'target.py', 10, {'fire_count': '-1', 'fire_period': '0'}, watches=['a'])])
    f = it.frame('f', line=10, flocals={'a': it.hint('a')})
    g = it.frame('g', line=10, flocals={'a': it.hint('b'), 'c': it.hint('c')}, back=it.frame('h', filename='/x/h.py'))
    it.eval_hook = lambda i, name, expr, gl, lo, scope: payload_of(lo)[expr]
    tc = it.get(hd, 'trace_call')
    stop = interfere(it, lambda: Prog(it, None, thread='t2').deliver(tc, g, 'line', None))
    Prog(it, None).deliver(tc, f, 'line', None)
    st = stop()
    if not st['done']:
        Prog(it, None, thread='t2').deliver(tc, g, 'line', None)
    snaps = {e.thread: e.args[0] for e in it.boundary('push')}
    it.check(len(it.pushed()) == 2 and set(snaps) == {'main', 't2'}, 'C02.one', 'snapshots of %s' % sorted(snaps))
    for th, frames, a in (('main', [f], 'a'), ('t2', [g, g.attrs['f_back']], 'b')):
        sc = check_frames(it, snaps[th], frames, 'top')
        (e, src, res, er, w), = watch_results(it, snaps[th])
        it.check(res is not None, 'C02.watch', 'the watch of thread %s fails: %s' % (th, show(er)))
        sc.ref(res, frames[0].attrs['f_locals'].payload['a'], 'watch a', 0)
        sc.all_reachable()


def repeated(it):
    """The second hit describes the state at the second hit."""
    it.short = 500
    at_time(it, it.intsym('now', 10 ** 15))
    hd = it.handler()
    it.install(hd, [it.trigger('tp', 'target.py', 10, {'fire_count': '-1', 'fire_period': '0'}, watches=['a'])])
    f = it.frame('f', line=10, flocals={'a': it.hint('a'), 'o': it.hobj('o', {'x': 1})})
    it.eval_hook = lambda i, name, expr, gl, lo, scope: payload_of(lo)[expr]
    p = Prog(it, it.get(hd, 'trace_call'))
    p.call(f, 9)
    p.line(f, 10)
    s1 = one_snapshot(it)
    check_frames(it, s1, [f], 'top')
    f.attrs['f_locals'].payload['a'] = it.hint('a2')
    f.attrs['f_locals'].payload['b'] = it.hint('b2')
    p.line(f, 10)
    it.check(len(it.pushed()) == 2, 'C02.one', '%d snapshots of two hits' % len(it.pushed()))
    s2 = it.pushed()[1]
    sc = check_frames(it, s2, [f], 'top')
    (e, src, res, er, w), = watch_results(it, s2)
    sc.ref(res, f.attrs['f_locals'].payload['a'], 'watch a', 0)
    it.check(it.tri_eq(it.get(s1, 'id'), it.get(s2, 'id')) is not True, 'C02.one', 'two snapshots with one id')


def scenarios(tier):
    out = []
    names = ['int', 'const', 'none', 'true', 'float', 'str', 'empty', 'text', 'bytes', 'complex', 'range', 'list', 'emptylist', 'tuple', 'set', 'frozenset',
             'dict', 'intdict', 'mixed', 'objkeys', 'nested', 'obj', 'underobj', 'foreignmangle', 'slots', 'class', 'exc', 'stdexc', 'iter', 'gen', 'module', 'func', 'odict',
             'namedtuple', 'shared', 'cyc', 'cobj', 'selfish']
    for n in names:
        out.append(S('local/' + n, locals_scenario([n]), 400, 30))
        out.append(S('between/' + n, locals_scenario(['int', n, 'obj']), 400, 30))
    for n, m in (('shared', 'selfish'), ('list', 'tuple'), ('cyc', 'cobj'), ('const', 'intdict'), ('nested', 'dict'), ('none', 'true')):
        out.append(S('pair/%s-%s' % (n, m), locals_scenario([n, m]), 400, 30))
        out.append(S('pair/%s-%s' % (m, n), locals_scenario([m, n]), 400, 30))
    out.append(S('locals/none', locals_scenario([]), 100, 30))
    out.append(S('entry/some', locals_scenario(['int', 'obj', 'nested'], 'call'), 400, 30))
    for ft in (None, 'single_frame', 'all_frame', 'no_frame', 'unknown'):
        for d, s in ((1, 1), (2, 0), (3, 2), (5, 31)):
            out.append(S('stack/%s/%d/%d' % (ft, d, s), stack(ft, d, s), 400, 40))
        out.append(S('watches/%s' % ft, watches(ft, True), 400, 40))
    out += [S('recursion', recursion, 400, 40), S('locals-in-locals', locals_in_locals, 400, 40), S('module-frames', module_frames, 400, 40)]
    for c in ('line', 'first', 'method', 'log', 'metric'):
        out.append(S('tracepoint/' + c, names_tracepoint(c), 400, 40))
    out += [S('slow', slow, 800, 60), S('threads', two_threads, 3000, 120), S('repeated', repeated, 400, 40)]
    return out
