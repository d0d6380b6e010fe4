"""C05 Bounded collection, budget spent breadth first."""
import itertools
from lib import *

RULES = {
    'C05.variables': 'the variable table has at most max_variables + 1 entries',
    'C05.string': 'no value is longer than max_string_length: it is entailed to fit, or is slice(text, None, limit)',
    'C05.truncated-flag': 'the truncated mark is entailed to be len(text) > limit',
    'C05.collection': 'a list, tuple or set has at most max_collection_size elements',
    'C05.depth': 'no reference is deeper than max_var_depth (the locals are at depth 1, a watch at depth 0)',
    'C05.breadth': 'when something at depth d is missing there is nothing at a depth > d',
    'C05.budget-used': 'nothing is missing while the budget is not used up',
    'C02.value': 'within the limits, type, text and children are those of the object',
}
EXPLANATION = 'Object graphs beyond every limit, in all declaration orders; texts have an opaque length, so both sides of a limit are walked.'


def run(it, flocals, args, watches=(), frame_type=None, event='line', evals=None, extra_frames=()):
    at_time(it, it.intsym('now', 10 ** 15))
    hd = it.handler()
    a = {k: v for k, v in args.items()}
    if frame_type:
        a['frame_type'] = frame_type
    it.install(hd, [it.trigger('tp', 'target.py', 10, a, watches=list(watches))])
    back = None
    frames = []
    for n, fl in reversed(list(enumerate([flocals] + list(extra_frames)))):
        back = it.frame('f%d' % n, name='func', line=10, flocals=fl, back=back)
        frames.insert(0, back)
    it.eval_hook = lambda i, name, expr, g, lo, scope: evals[expr]
    Prog(it, None).deliver(it.get(hd, 'trace_call'), frames[0], event, None)
    p = it.pushed()
    it.check(len(p) == 1, 'C02.one', '%d snapshots of one due hit' % len(p))
    return p[0], frames


def verify(it, snap, frames, lim, which='top', watches=(), evals=None, budget=None):
    """The snapshot against the graph; with a budget, what is missing has to be missing at the far end."""
    sc = SnapCheck(it, snap, limits=lim, budget_hit=budget is not None)
    n = len(sc.table)
    it.check(n <= lim.variables + 1, 'C05.variables', '%d variables, the limit is %d' % (n, lim.variables))
    for k, (sf, fr) in enumerate(zip(it.iterate(it.get(snap, 'frames')), frames)):
        if which == 'all' or k == 0:
            sc.missing = []
            sc.levels = {}
            if lim.depth <= 1 and not list(it.iterate(it.get(sf, 'variables'))):
                continue
            sc.names(list(it.iterate(it.get(sf, 'variables'))), [(key, None, v) for key, v in fr.attrs['f_locals'].payload.items()], 'frame %d' % k, 0)
            if sc.missing and lim.depth > 1:
                m, what = min(sc.missing, key=lambda t: t[0])
                it.check(n >= lim.variables, 'C05.budget-used', '%s is missing, there are %d variables and %d are allowed' % (what, n, lim.variables))
                deep = max(sc.levels.values(), default=0)
                it.check(deep <= m, 'C05.breadth', '%s (depth %d) is missing, but there are variables at depth %d' % (what, m, deep))
    for (e, src, res, er, w) in watch_results(it, snap):
        if res is None:
            it.check(budget is not None, 'C02.watch', 'watch %s has no result: %s' % (show(e), show(er)))
        else:
            sc.missing = []
            sc.levels = {}
            sc.ref(res, evals[e], 'watch %s' % e, 0)
    sc.all_reachable()
    return sc


def args_of(**kw):
    names = {'string': 'MAX_STRING_LENGTH', 'collection': 'MAX_COLLECTION_SIZE', 'variables': 'MAX_VARIABLES', 'depth': 'MAX_VAR_DEPTH'}
    return {names[k]: str(v) for k, v in kw.items()}


def limits(it, kw):
    """(Limits, args); 'sym' is any setting."""
    vals, args = {}, {}
    for k, v in kw.items():
        if v == 'sym':
            v = it.intsym('limit.' + k, 0)
            args[list(args_of(**{k: 0}))[0]] = it.to_str(v)
        else:
            args.update(args_of(**{k: v}))
        vals[k] = v
    return Limits(**vals), args


# -------------------------------------------------------------------- texts

def strings(place, lim):
    def fn(it):
        L, args = limits(it, lim)
        s = it.hstr('text')
        pad = it.hint('pad')
        it.short_of = pad
        fl = {'local': {'s': s}, 'list': {'l': it.hlist('l', [s])}, 'dict': {'d': it.hdict('d', {'k': s})}, 'attr': {'o': it.hobj('o', {'a': s})},
              'object': {'o': it.hobj('o', {})}, 'slots': {'o': it.hobj('o')}, 'exc': {'e': HostVal('e', ValueError, None, {'args': (s,)})},
              'bytes': {'b': HostVal('b', bytes)}, 'const': {'s': 'x' * 7, 't': 'abcd', 'u': '', 'v': 'x' * 1024, 'w': 'x' * 1025},
              'deep': {'d': it.hdict('d', {'k': it.hlist('l', [it.hobj('o', {'t': s})])})}, 'shared': {'a': s, 'b': it.hlist('l', [s])},
              'watch': {}, 'int': {'i': pad}, 'longlist': {'l': it.hlist('l', [1] * 12), 'd': it.hdict('d', {})}, 'derived': {'s': HostVal('ds', it.hclass('MyStr', 'MyStr', (str,)))}}[place]
        ev = {'w': s, 'x': 'y' * 9} if place == 'watch' else {}
        snap, frames = run(it, fl, args, watches=list(ev), evals=ev)
        verify(it, snap, frames, L, watches=ev, evals=ev)
    return fn


# -------------------------------------------------------------------- collections

def collections_(kind, size, lim, place='local'):
    def fn(it):
        it.short = 500
        L, args = limits(it, {} if lim is None else {'collection': lim})
        n = (L.collection if isinstance(L.collection, int) else 3) + size if size < 90 else size
        items = [it.hint('i%d' % k) for k in range(max(0, n))]
        if kind == 'exc':
            v = HostVal('e', ValueError, None, {'args': tuple(items)})
        elif kind == 'frozenset':
            v = HostVal('c', frozenset, items)
        else:
            v = {'list': it.hlist, 'tuple': it.htuple, 'set': it.hset}[kind]('c', items)
        fl = {'local': {'a': it.hint('a'), 'c': v, 'z': it.hint('z')}, 'nested': {'d': it.hdict('d', {'l': it.hlist('l', [v])})},
              'attr': {'o': it.hobj('o', {'c': v})}, 'watch': {}}[place]
        ev = {'w': v} if place == 'watch' else {}
        snap, frames = run(it, fl, args, watches=list(ev), evals=ev)
        verify(it, snap, frames, L, watches=ev, evals=ev)
    return fn


# -------------------------------------------------------------------- depth

def chain(it, kinds, n, tag='c'):
    """A nest of n levels."""
    v = it.hint(tag + '.leaf')
    for k in range(n, 0, -1):
        kind = kinds[k % len(kinds)]
        lab = '%s%d' % (tag, k)
        if kind == 'list':
            v = it.hlist(lab, [v])
        elif kind == 'tuple':
            v = it.htuple(lab, [v])
        elif kind == 'set':
            v = HostVal(lab, frozenset, [v])
        elif kind == 'dict':
            v = it.hdict(lab, {'n': v})
        elif kind == 'exc':
            v = HostVal(lab, ValueError, None, {'args': (v,)})
        else:
            v = it.hobj(lab, {'n': v})
    return v


def depth(kinds, lim, place='local', n=8):
    def fn(it):
        it.short = 500
        L, args = limits(it, {} if lim is None else {'depth': lim})
        v = chain(it, kinds, n)
        fl = {'a': it.hint('a'), 'c': v} if place == 'local' else {}
        ev = {'w': v} if place == 'watch' else {}
        snap, frames = run(it, fl, args, watches=list(ev), evals=ev)
        verify(it, snap, frames, L, watches=ev, evals=ev)
    return fn


def depth_cycle(lim):
    def fn(it):
        it.short = 500
        L, args = limits(it, {} if lim is None else {'depth': lim})
        a = it.hlist('a', [])
        d = it.hdict('d', {'a': a})
        a.payload.append(d)
        a.payload.append(it.hobj('o', {'d': d, 'x': it.hint('x')}))
        snap, frames = run(it, {'d': d, 'n': it.hint('n')}, args)
        verify(it, snap, frames, L)
    return fn


# -------------------------------------------------------------------- the budget

def graph(it, shape):
    if shape == 'deep':
        return chain(it, ['dict', 'list', 'obj'], 4, 'deep')
    if shape == 'wide':
        return it.hlist('wide', [it.hint('wide%d' % k) for k in range(8)])
    if shape == 'widedict':
        return it.hdict('widedict', {'k%d' % k: it.hint('wd%d' % k) for k in range(14)})
    if shape == 'tree':
        return it.hdict('tree', {'l': it.hlist('tree.l', [it.hlist('tree.l%d' % k, [it.hint('tree.l%d.%d' % (k, j)) for j in range(2)]) for k in range(2)]),
                                 'r': it.hobj('tree.r', {'x': it.hobj('tree.r.x', {'y': it.hint('tree.r.x.y')})})})
    if shape == 'cycle':
        c = it.hlist('cycle', [it.hint('cycle.0')])
        c.payload.append(it.hdict('cycle.1', {'back': c, 'more': it.hint('cycle.more')}))
        return c
    if shape == 'shared':
        s = it.hobj('sh', {'x': it.hint('sh.x')})
        return it.hlist('shl', [s, s, it.hdict('shd', {'s': s})])
    return it.hint(shape)


def budget(order, n, watches=(), extra=(), frame_type=None, deep_limit=None):
    def fn(it):
        it.short = 500
        kw = {'variables': n}
        if deep_limit is not None:
            kw['depth'] = deep_limit
        L, args = limits(it, kw)
        gs = {}

        def g(s):
            if s not in gs:
                gs[s] = graph(it, s)
            return gs[s]
        ev = {'w_' + s: g(s) for s in watches}
        snap, frames = run(it, {s: g(s) for s in order}, args, watches=list(ev), evals=ev, frame_type=frame_type,
                           extra_frames=[{'x_' + s: g(s) for s in fr} for fr in extra])
        verify(it, snap, frames, L, which='all' if frame_type == 'all_frame' else 'top', watches=ev, evals=ev, budget=n)
    return fn


def default_budget(first):
    """The default limit of 1000 variables."""
    def fn(it):
        it.short = 500
        it.MAX_LOOP = 5000
        big = it.hdict('big', {'k%d' % k: it.hint('v%d' % k) for k in range(1100)})
        fl = {'z%d' % k: it.hint('z%d' % k) for k in range(20)}
        fl = {'big': big, **fl} if first else {**fl, 'big': big}
        snap, frames = run(it, fl, {})
        verify(it, snap, frames, Limits(), budget=1000)
    return fn


def processor(order, n, text=None, coll=None, dep=None):
    """The same through the collector itself."""
    def fn(it):
        it.short = 500
        mod = 'deep.processor.variable_set_processor'
        kw = {'max_variables': n, 'max_string_length': 1024 if text is None else text, 'max_collection_size': 10 if coll is None else coll,
              'max_var_depth': 5 if dep is None else dep}
        cfg = it.new(it.public(mod, 'VariableProcessorConfig'), **kw)
        table = {}
        p = it.new(it.public(mod, 'VariableSetProcessor'), table, it.new(it.public(mod, 'VariableCacheProvider')), cfg)
        fl = {s: graph(it, s) for s in order}
        root = it.hdict('root', fl)
        it.m(p, 'process_variable', 'root', root)
        snap = Fake(it, table)
        lim = Limits(variables=n, string=kw['max_string_length'], collection=kw['max_collection_size'], depth=kw['max_var_depth'])
        sc = SnapCheck(it, snap, limits=lim, budget_hit=True)
        it.check(len(table) <= n + 1, 'C05.variables', '%d variables, the limit is %d' % (len(table), n))
        first = [(k, e) for k, e in table.items() if it.resolve(it.get(e, 'type')) == 'dict' and it.resolve(it.get(e, 'value')) == 'Size: %d' % len(fl)]
        if not first:
            it.check(n == 0, 'C05.variables', 'the root is not in the table')
            return
        sc.missing, sc.levels = [], {}
        sc.by_vid[first[0][0]] = root
        sc.by_obj[vkey(root)] = first[0][0]
        sc.names(list(it.iterate(it.get(first[0][1], 'children'))), [(k, None, v) for k, v in fl.items()], 'root', 0)
        if sc.missing:
            m, what = min(sc.missing, key=lambda t: t[0])
            it.check(len(table) >= n, 'C05.budget-used', '%s is missing, there are %d variables and %d are allowed' % (what, len(table), n))
            deep = max(sc.levels.values(), default=0)
            it.check(deep <= m, 'C05.breadth', '%s (depth %d) is missing, but there are variables at depth %d' % (what, m, deep))
    return fn


class Fake:
    def __init__(self, it, table):
        self.table = table


def scenarios(tier):
    out = []
    for place in ('local', 'list', 'dict', 'attr', 'object', 'slots', 'exc', 'bytes', 'const', 'deep', 'shared', 'watch', 'int', 'longlist', 'derived'):
        for lim in ({}, {'string': 0}, {'string': 4}, {'string': 1024}, {'string': 2000}, {'string': 'sym'}):
            if lim.get('string') == 'sym' and place in ('const', 'longlist', 'watch'):
                continue
            out.append(S('string/%s/%s' % (place, lim.get('string')), strings(place, lim), 300, 30))
    for kind in ('list', 'tuple', 'set', 'frozenset', 'exc'):
        for size in (-1, 0, 1, 5):
            for lim in (None, 0, 1, 3, 12):
                if size < 0 and lim == 0:
                    continue
                out.append(S('collection/%s/%d/%s' % (kind, size, lim), collections_(kind, size, lim), 100, 30))
            out.append(S('collection-nested/%s/%d' % (kind, size), collections_(kind, size, 2, 'nested'), 100, 30))
        out.append(S('collection-watch/%s' % kind, collections_(kind, 2, None, 'watch'), 100, 30))
        out.append(S('collection-attr/%s' % kind, collections_(kind, 1, None, 'attr'), 100, 30))
        out.append(S('collection-large/%s' % kind, collections_(kind, 150, None), 100, 30))
    for kinds in (['dict'], ['list'], ['obj'], ['tuple'], ['set'], ['exc'], ['dict', 'list', 'obj']):
        for lim in (None, 1, 2, 3, 7):
            out.append(S('depth/%s/%s' % ('-'.join(kinds), lim), depth(kinds, lim), 100, 30))
        out.append(S('depth-watch/%s' % '-'.join(kinds), depth(kinds, 3, 'watch'), 100, 30))
    for lim in (None, 1, 2, 3):
        out.append(S('depth-cycle/%s' % lim, depth_cycle(lim), 100, 30))
    shapes = ['deep', 'wide', 'tree', 'widedict', 'cycle', 'shared', 'a', 'b']
    step = 1 if tier == 'thorough' else 1
    for combo in (('deep', 'a', 'b'), ('wide', 'a', 'b'), ('widedict', 'deep', 'a'), ('tree', 'deep', 'a'), ('cycle', 'shared', 'a'), ('tree', 'wide', 'b')):
        for order in itertools.permutations(combo):
            for n in range(0, 12, step):
                if tier == 'quick' and n not in (0, 1, 2, 3, 4, 5, 7, 10):
                    continue
                out.append(S('budget/%s/%d' % ('-'.join(order), n), budget(order, n), 50, 30))
            for n in (2, 5):
                out.append(S('processor/%s/%d' % ('-'.join(order), n), processor(order, n), 50, 30))
    for n in range(0, 14, 1 if tier == 'thorough' else 2):
        out.append(S('budget-watch/%d' % n, budget(('a', 'tree'), n, watches=('deep', 'b')), 50, 30))
        out.append(S('budget-watch-known/%d' % n, budget(('deep', 'a'), n, watches=('deep', 'a', 'wide')), 50, 30))
        out.append(S('budget-frames/%d' % n, budget(('a', 'tree'), n, extra=(('deep', 'b'), ('c', 'wide')), frame_type='all_frame'), 50, 30))
        out.append(S('budget-frames-shared/%d' % n, budget(('tree', 'a'), n, extra=(('tree', 'b'),), frame_type='all_frame'), 50, 30))
        out.append(S('budget-depth/%d' % n, budget(('deep', 'tree', 'a'), n, deep_limit=3), 50, 30))
    out.append(S('default-budget/first', default_budget(True), 10, 60))
    out.append(S('default-budget/last', default_budget(False), 10, 60))
    return out
