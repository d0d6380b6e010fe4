"""C07 The variable table is closed, one object one id."""
from lib import *
from c06 import full

RULES = {
    'C07.closed': 'every reference on a frame, of a child, a watch or a capture names an entry of the table of that snapshot',
    'C07.one-object-one-id': 'the relation of objects and ids is a bijection (also for objects that are created while collecting)',
    'C07.terminates': 'cyclic data gives back references and one snapshot',
    'C07.entries': 'there is one entry per object: no entry which nothing refers to',
}
EXPLANATION = 'All graphs of up to three containers with up to two references each, with all choices of locals, watches and budgets, and ids that are used again.'


def build(it, kinds, edges, leaf):
    """kinds[k] of node k; edges[k] a list of targets: a node number, 'L' the shared leaf, 'N' none/constant, 'F' a leaf of its own"""
    nodes = []
    for k, kind in enumerate(kinds):
        lab = 'n%d' % k
        if kind == 'list':
            nodes.append(it.hlist(lab, []))
        elif kind == 'dict':
            nodes.append(it.hdict(lab, {}))
        elif kind == 'exc':
            nodes.append(HostVal(lab, ValueError, None, {'args': ()}))
        else:
            nodes.append(it.hobj(lab, {}))
    for k, kind in enumerate(kinds):
        vals = []
        for j, t in enumerate(edges[k]):
            vals.append(nodes[t] if isinstance(t, int) else leaf if t == 'L' else it.hint('own%d.%d' % (k, j)))
        if kind == 'list':
            nodes[k].payload.extend(vals)
        elif kind == 'dict':
            for j, v in enumerate(vals):
                nodes[k].payload['k%d' % j] = v
        elif kind == 'exc':
            nodes[k].attrs['args'] = tuple(vals)
        else:
            for j, v in enumerate(vals):
                nodes[k].attrs['__dict__'].payload['a%d' % j] = v
    return nodes


def unreferenced(it, snap, sc):
    """Every entry is referred to."""
    used = set()
    for sf in it.iterate(it.get(snap, 'frames')):
        for v in it.iterate(it.get(sf, 'variables')):
            used.add(it.resolve(it.get(v, 'vid')))
    for e in sc.table.values():
        for c in it.iterate(it.get(e, 'children')):
            used.add(it.resolve(it.get(c, 'vid')))
    for (e, src, res, er, w) in watch_results(it, snap):
        if res is not None:
            used.add(it.resolve(it.get(res, 'vid')))
    for k in sc.table:
        it.check(k in used, 'C07.entries', 'nothing refers to the entry %s' % (k,))


def take(it, flocals, watches, vals, args=None, frame_type=None, outer=None, capture=None, budget=False, limits=None, event='line'):
    at_time(it, it.intsym('now', 10 ** 15))
    it.short = 500
    a = dict(args or {})
    if frame_type:
        a['frame_type'] = frame_type
    hd = it.handler()
    if capture is not None:
        a.update(stage='method_capture', method_name='func')
    it.install(hd, [it.trigger('tp', 'target.py', 10, a, watches=list(watches))])
    g = it.frame('g', filename='/app/main.py', name='main', line=3, flocals=outer or {})
    f = it.frame('f', name='func', line=10, flocals=flocals, back=g)
    if it.eval_hook is None:
        it.eval_hook = lambda i, name, expr, gl, lo, scope: vals[expr]
    p = Prog(it, it.get(hd, 'trace_call'))
    p.stack.append(g)
    caps = []
    if capture is not None:
        p.call(f)
        if capture[0] == 'return':
            p.ret(f, capture[1])
            caps = [capture[1]]
        else:
            e = (HostVal('ErrorClass', it.hclass('type', 'type', (type,))), capture[1], HostVal('tb', HostClass('tb', 'traceback')))
            p.event(f, 'exception', e)
            caps = [e]
    else:
        p.deliver(p.fn, f, 'line', None)
    got = it.pushed()
    it.check(len(got) == 1, 'C07.terminates', '%d snapshots of one due hit' % len(got))
    sc = full(it, got[0], [f, g], 'all' if frame_type == 'all_frame' else 'top', rule='C02.value', limits=limits,
              watches=[(w, vals[w]) for w in watches], captures=caps, budget=budget)
    unreferenced(it, got[0], sc)
    return got[0], sc


def graphs(kinds, mode):
    """All edges of the nodes, all locals."""
    def fn(it):
        n = len(kinds)
        targets = list(range(n)) + ['L', 'F']
        edges = [[targets[it.choose(len(targets), 'edge')] for _ in range(2)] for _ in range(n)]
        leaf = it.hobj('leaf', {'x': it.hint('leaf.x')})
        nodes = build(it, kinds, edges, leaf)
        vals = {'w%d' % k: v for k, v in enumerate(nodes)}
        fl = {'z': it.hint('z')}
        watches, outer, ft, cap, budget, args, lim = [], None, None, None, False, {}, None
        if mode == 'locals':
            fl['v0'] = nodes[0]
            fl['again'] = nodes[-1]
        elif mode == 'watch':
            fl['v0'] = nodes[0]
            watches = ['w%d' % (n - 1), 'w0']
        elif mode == 'watch-first':
            watches = ['w%d' % k for k in range(n)]
        elif mode == 'frames':
            fl['v0'] = nodes[0]
            outer = {'v1': nodes[-1], 'v0': nodes[0]}
            ft = 'all_frame'
        elif mode == 'return':
            fl['v0'] = nodes[-1]
            cap = ('return', nodes[0])
        elif mode == 'exception':
            fl['v0'] = nodes[-1]
            cap = ('exception', nodes[0])
        elif mode.startswith('budget'):
            b = int(mode[6:])
            fl['v0'] = nodes[0]
            watches = ['w%d' % (n - 1)]
            budget, args, lim = True, {'MAX_VARIABLES': str(b)}, Limits(variables=b)
        elif mode.startswith('depth'):
            b = int(mode[5:])
            fl['v0'] = nodes[0]
            watches = ['w%d' % (n - 1)]
            args, lim = {'MAX_VAR_DEPTH': str(b)}, Limits(depth=b)
        take(it, fl, watches, vals, args=args, frame_type=ft, outer=outer, capture=cap, budget=budget, limits=lim)
    return fn


def temporaries(source, keepers):
    """Watches that create objects: an object nothing refers to any more gives its identity to the next one."""
    def fn(it):
        old = []
        vals = {}

        def make(n):
            return it.hobj('made%d' % n, {'x': it.hint('made%d.x' % n), 'in': it.hlist('made%d.in' % n, [it.hint('made%d.in0' % n)])},
                           cls=it.hclass('Made%d' % n, 'Made%d' % n))

        def ev(i, name, expr, gl, lo, scope):
            if expr not in vals:
                v = make(len(old))
                vals[expr] = v
                for o in old:
                    if reuse_id(i, v, o):
                        for x, y in ((v.attrs['in'], o.attrs['in']), (v.attrs['x'], o.attrs['x'])):
                            reuse_id(i, x, y)
                        break
                old.append(v)
            return vals[expr]
        it.eval_hook = ev
        ws = ['mk(%d)' % k for k in range(3)]
        fl = {'a': it.hint('a')}
        args = {}
        if source == 'log':
            args['log_msg'] = ' '.join('{%s}' % w for w in ws)
        elif source == 'watch+log':
            args['log_msg'] = '{lg(1)} {lg(2)}'
        at_time(it, it.intsym('now', 10 ** 15))
        it.short = 500
        hd = it.handler()
        it.install(hd, [it.trigger('tp', 'target.py', 10, args, watches=[] if source == 'log' else ws)])
        f = it.frame('f', name='func', line=10, flocals=fl)
        Prog(it, None).deliver(it.get(hd, 'trace_call'), f, 'line', None)
        got = it.pushed()
        it.check(len(got) == 1, 'C07.terminates', '%d snapshots of one due hit' % len(got))
        sc = SnapCheck(it, got[0])
        sc.names(list(it.iterate(it.get(list(it.iterate(it.get(got[0], 'frames')))[0], 'variables'))), [('a', None, fl['a'])], 'frame 0', 0)
        for (e, src, res, er, w) in watch_results(it, got[0]):
            it.check(res is not None, 'C07.closed', 'the result of %s is an error: %s' % (show(e), show(er)))
            sc.ref(res, vals[it.resolve(e)], show(e), 0)
        sc.all_reachable()
        unreferenced(it, got[0], sc)
    return fn


def equal_values():
    """Objects that are equal, but not the same object."""
    def fn(it):
        a, b = it.hlist('a', [it.hint('x')]), it.hlist('b', [])
        b.payload.append(a.payload[0])
        s1, s2 = it.hstr('s'), HostVal('s', str)
        fl = {'a': a, 'b': b, 's1': s1, 's2': s2, 'e1': it.htuple('e1', []), 'l': it.hlist('l', [a, b, a]), 'o': it.hobj('o', {}), 'p': it.hobj('p', {})}
        take(it, fl, ['w', 'v'], {'w': b, 'v': it.hlist('c', [a, b])})
    return fn


def long_cycle(n):
    def fn(it):
        nodes = [it.hdict('r%d' % k, {}) for k in range(n)]
        for k in range(n):
            nodes[k].payload['next'] = nodes[(k + 1) % n]
            nodes[k].payload['first'] = nodes[0]
        take(it, {'head': nodes[0], 'last': nodes[-1]}, ['w'], {'w': nodes[n // 2]}, args={'MAX_VAR_DEPTH': '20'}, limits=Limits(depth=20))
    return fn


def scenarios(tier):
    out = []
    combos = [['list'], ['dict'], ['obj'], ['exc'], ['list', 'dict'], ['obj', 'list'], ['dict', 'obj'], ['exc', 'obj']]
    modes = ['locals', 'watch', 'watch-first', 'frames', 'return', 'exception', 'budget0', 'budget1', 'budget2', 'budget3', 'budget5', 'depth2', 'depth3']
    for c in combos:
        for m in modes:
            if m == 'exception' and c[0] != 'exc':
                continue
            if 'exc' in c and m in ('depth2', 'depth3', 'budget5'):
                continue
            out.append(S('graph/%s/%s' % ('-'.join(c), m), graphs(c, m), 400, 60))
    for c in (['list', 'dict', 'obj'], ['obj', 'obj', 'list'], ['dict', 'dict', 'dict']):
        for m in ('locals', 'watch', 'frames', 'budget2', 'budget4', 'return'):
            out.append(S('graph3/%s/%s' % ('-'.join(c), m), graphs(c, m), 150 if tier == 'quick' else 4000, 12 if tier == 'quick' else 60))
    for s in ('watch', 'log', 'watch+log'):
        out.append(S('temporaries/' + s, temporaries(s, None), 50, 30))
    out.append(S('equal-values', equal_values(), 50, 30))
    for n in (2, 5, 12):
        out.append(S('long-cycle/%d' % n, long_cycle(n), 50, 30))
    return out
