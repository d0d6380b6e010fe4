"""C11 Each tracepoint results in the actions its arguments ask for, whatever the others are."""
from lib import *
from rig import Rig

RULES = {
    'C11.actions': 'snapshot unless switched off, log with a message, one report per metric definition, span when requested: exactly these, on each path over the argument table',
    'C11.place': 'the actions are on the line, or on the method, that the stage and method arguments say',
    'C11.own-settings': 'condition, fire count, fire period, watches, metrics of a tracepoint are its own',
    'C11.together': 'tracepoints on one location keep all their actions',
    'C11.isolated': 'a tracepoint that cannot be interpreted affects only itself',
    'C11.defaults': 'absent or unknown values are the default',
}
EXPLANATION = ('The whole table of stage, method_name, span, snapshot, log_msg and metrics values (valid, absent, unknown), from the service and from code; '
               'pairs and triples of tracepoints with different settings on one location; responses with tracepoints that cannot be interpreted at any position.')

MS = 10 ** 6
T0 = 10 ** 18
STAGES = [None, 'line_start', 'line_end', 'line_capture', 'method_start', 'method_end', 'method_capture', 'unknown', '']
NAMES = [None, 'func', 'other', 'nowhere']
SPANS = [None, 'line', 'method', 'unknown']
SNAPS = [None, 'collect', 'no_collect', 'unknown']
ORDER = {'call': 0, 'line': 1, 'return': 2}


def location(a, line=10):
    """Where the arguments say: ('line', n), ('method', name) or None when the stage is unknown."""
    st = a.get('stage')
    if st is None:
        method = 'method_name' in a or a.get('span') == 'method'
    elif st.startswith('line_'):
        method = False
    elif st.startswith('method_'):
        method = True
    else:
        return None
    if not method:
        return ('line', line)
    return ('method', a.get('method_name') or ('func' if 9 <= line <= 12 else 'other'))


def wanted(a, tid, metrics):
    """The effects of one hit: {kind: [ids]}, None for those which are not specified."""
    off = a.get('snapshot') == 'no_collect'
    w = {'push': 0 if off else 1, 'tplog': 1 if 'log_msg' in a else 0, 'metric': len(metrics), 'span.create': 1 if 'span' in a else 0}
    if a.get('span') == 'unknown':
        w['span.create'] = None
    return w


def there(loc, path, place):
    """Whether the tracepoint acts at this event (when it is not deferred)."""
    f, name, ev, n = place
    if f != path:
        return False
    if loc[0] == 'line':
        return ev == 'line' and n == loc[1]
    return ev == 'call' and name == loc[1]


def after(loc, path, place, capture):
    """In the invocation, from the event on."""
    f, name, ev, n = place
    if f != path:
        return False
    if loc[0] == 'line':
        return (name == 'func') == (loc[1] < 20) and ((ev == 'line' and n >= loc[1]) or ev == 'return') and not (capture and n == loc[1])
    return name == loc[1] and not (capture and ev == 'call')


def one_run(it, r, tps, eff, what):
    """tps: [(id, args, metric names, path, line, allowed)]: compares the effects of one run of the program."""
    left = list(eff)
    for tid, a, metrics, path, line, allowed in tps:
        loc = location(a, line)
        mine = [e for e in left if e[0] == tid or (e[1] == 'metric' and e[0] in metrics)]
        left = [e for e in left if e not in mine]
        if loc is None:
            continue
        exists = loc[0] == 'line' or loc[1] in ('func', 'other')
        w = wanted(a, tid, metrics)
        for kind in ('push', 'tplog', 'metric', 'span.create'):
            got = [e for e in mine if e[1] == kind]
            n = w[kind]
            if n is None:
                it.check(len(got) <= 1, 'C11.actions', '%s: %d spans' % (what, len(got)))
                continue
            if not exists or not allowed:
                n = 0
            it.check(len(got) == n, 'C11.actions' if allowed else 'C11.own-settings',
                     '%s: tracepoint %s with %s has %d %s, expected %d' % (what, tid, a, len(got), kind, n), got[0][3].site if got else None)
            if kind == 'metric' and n:
                it.check(sorted(e[0] for e in got) == sorted(metrics), 'C11.actions', '%s: metrics %s reported, %s defined' % (what, [e[0] for e in got], metrics))
            st = a.get('stage') or ''
            for e in got:
                if st.endswith('_end') or (st.endswith('_capture') and kind == 'push'):
                    it.check(after(loc, path, e[2], st.endswith('_capture')), 'C11.place', '%s: tracepoint %s with %s acts at %s' % (what, tid, a, e[2]), e[3].site)
                else:
                    it.check(there(loc, path, e[2]), 'C11.place', '%s: tracepoint %s with %s acts at %s' % (what, tid, a, e[2]), e[3].site)
    it.check(not left, 'C11.actions', '%s: effects %s of nobody' % (what, [x[:3] for x in left]))


def build_args(stage, name, span, snap, log):
    a = {}
    for k, v in (('stage', stage), ('method_name', name), ('span', span), ('snapshot', snap), ('log_msg', 'log text' if log else None)):
        if v is not None:
            a[k] = v
    return a


def md(it, n):
    return it.new(it.public('deep.api.tracepoint.tracepoint_config', 'MetricDefinition'), n, 'COUNTER')


def table(stage, name, source, full):
    spans = SPANS if full or source == 'service' else [None, 'method']
    counts = (0, 1, 2) if full else (0, 2)

    def fn(it):
        a = build_args(stage, name, spans[it.choose(len(spans), 'span')], SNAPS[it.choose(len(SNAPS), 'snapshot')], it.choose(2, 'log') == 1)
        mets = ['m1', 'm2'][:counts[it.choose(len(counts), 'metrics')]]
        # a neighbour in another file, after it
        r = Rig(it)
        if source == 'service':
            r.service([r.tp('tpA', a, [], [r.metric(m) for m in mets]), r.tp('nb', {}, path='other.py', line=21)], 'C11.isolated')
            tid = 'tpA'
        else:
            r.service([r.tp('nb', {}, path='other.py', line=21)], 'C11.isolated')
            v, e = it.attempt(r.register, dict(a), [], [md(it, m) for m in mets])
            it.check(e is None, 'C11.isolated', 'register_tracepoint raises %s' % (exc_name(e) if e else ''), e.site if e else None)
            r.settle()
            tid = None
        eff = r.run(T0)
        if tid is None:
            # the id is made up by the agent: one for all effects
            got = {x[0] for x in eff if x[0] != 'nb' and x[1] != 'metric'}
            it.check(len(got) <= 1, 'C11.actions', 'one tracepoint acts with the ids %s' % sorted(map(str, got)))
            tid = got.pop() if got else 'tpA'
        tps = [(tid, a, mets, 'target.py', 10, True), ('nb', {}, [], 'other.py', 21, True)]
        one_run(it, r, tps, eff, 'first run')
        if not full and (mets or a.get('snapshot')):
            return
        # fire_count is 1 by default
        eff = r.run(T0 + 5000 * MS)
        one_run(it, r, [x[:5] + (False,) for x in tps], eff, 'second run')
    return fn


# -------------------------------------------------------------------- several on one location

# name: (args, watches, metrics)
SET = {
    'plain': ({}, ['w1'], []),
    'often': ({'fire_count': '-1', 'fire_period': '0'}, ['w2', 'w3'], []),
    'twice': ({'fire_count': '2', 'fire_period': '1000'}, [], []),
    'cond': ({'condition': 'c_true', 'fire_count': '3', 'fire_period': '0'}, ['w4'], []),
    'never': ({'condition': 'c_false', 'fire_count': '-1'}, [], []),
    'later': ({'condition': 'c_late', 'fire_count': '1'}, [], []),
    'log': ({'log_msg': 'one', 'snapshot': 'no_collect', 'fire_count': '-1', 'fire_period': '2000'}, [], []),
    'snaplog': ({'log_msg': 'two'}, ['w5'], []),
    'metric': ({'snapshot': 'no_collect', 'fire_count': '2', 'fire_period': '0'}, [], ['x1', 'x2']),
    'metric2': ({'fire_count': '-1', 'fire_period': '1000'}, [], ['y1']),
    'span': ({'span': 'line', 'snapshot': 'no_collect', 'fire_count': '-1', 'fire_period': '0'}, [], []),
    'mspan': ({'span': 'method'}, [], []),
    'capture': ({'stage': 'line_capture', 'fire_count': '-1', 'fire_period': '0'}, ['w6'], []),
    'mcapture': ({'stage': 'method_capture', 'method_name': 'func', 'condition': 'c_true'}, [], []),
    'method': ({'method_name': 'func', 'fire_count': '2', 'fire_period': '0'}, ['w7'], []),
    'mcond': ({'condition': 'c_false', 'fire_count': '-1', 'snapshot': 'no_collect'}, [], ['z1']),
    'lcond': ({'condition': 'c_late', 'snapshot': 'no_collect', 'log_msg': 'three', 'span': 'line'}, [], ['z2']),
    'noframe': ({'frame_type': 'no_frame', 'stack_type': 'no_stack', 'fire_period': '0', 'fire_count': '2'}, ['w8'], []),
}
TIMES = [0, 500, 1000, 1600, 4000]


class Model:
    def __init__(self, args):
        self.args = args
        self.count = self.num('fire_count', 1)
        self.period = self.num('fire_period', 1000)
        self.done = []

    def num(self, k, d):
        try:
            return int(self.args.get(k, d))
        except (ValueError, TypeError):
            return d

    def hit(self, t, truth):
        c = self.args.get('condition')
        if c is not None and not truth(c):
            return False
        if self.count != -1 and len(self.done) >= self.count:
            return False
        if self.done and t - self.done[-1] < self.period:
            return False
        self.done.append(t)
        return True


def together(names, sources, same=True):
    def fn(it):
        r = Rig(it)
        cur = [0]

        def truth(c):
            return {'c_true': True, 'c_false': False, 'c_late': cur[0] >= 1000}[c]

        def ev(i, name, expr, g, lo, scope):
            if isinstance(expr, str) and expr.startswith('c_'):
                return truth(expr)
            return i.hint('value of ' + str(expr))
        it.eval_hook = ev
        svc = []
        for k, n in enumerate(names):
            a, w, mets = SET[n]
            if sources[k] == 's':
                svc.append(r.tp('tp%d' % k, a, w, [r.metric(m + str(k)) for m in mets]))
        if svc:
            r.service(svc, 'C11.isolated')
        code = None
        for k, n in enumerate(names):
            a, w, mets = SET[n]
            if sources[k] == 'c':
                code = k        # at most one in a scenario
                r.register(dict(a), list(w), [md(it, m + str(k)) for m in mets])
        r.settle()
        models = {k: Model(SET[n][0]) for k, n in enumerate(names)}
        idmap = []
        for t in TIMES:
            cur[0] = t
            want = {k: models[k].hit(t, truth) for k in models}
            eff = r.run(T0 + t * MS, extra=lambda f, name: f == 'target.py' and name == 'func')
            eff = [named(it, idmap, code, e) for e in eff]
            for e in eff:
                if e[1] == 'push':
                    snap = e[3].args[0]
                    ws = [it.resolve(x) for x in it.iterate(it.get(it.get(snap, 'tracepoint'), 'watches'))]
                    got = [x[0] for x in watch_results(it, snap) if x[1] == 'WATCH']
                    for k, n in enumerate(names):
                        if e[0] == 'tp%d' % k:
                            it.check(ws == SET[n][1] and got == SET[n][1], 'C11.own-settings', 'tracepoint %s has the watches %s (results %s), configured %s' % (n, ws, got, SET[n][1]), e[3].site)
            tps = [('tp%d' % k, SET[n][0], [m + str(k) for m in SET[n][2]], 'target.py', 10, want[k]) for k, n in enumerate(names)]
            one_run(it, r, tps, eff, 'run at %d ms' % t)
            it.witness.add('run')
    return fn


def named(it, idmap, k, e):
    """The effects with the id made up for the registration in code have the name of the scenario."""
    x = e[0]
    if e[1] == 'metric' or k is None or (isinstance(x, str) and x.startswith('tp') and x[2:].isdigit()):
        return e
    if not idmap:
        idmap.append(x)
    it.check(idmap[0] == x, 'C11.own-settings', 'one tracepoint acts with the ids %s and %s' % (idmap[0], x), e[3].site)
    return ('tp%d' % k,) + e[1:]


def equals(n, kinds=('plain',)):
    """n tracepoints that are equal but for the id."""
    def fn(it):
        r = Rig(it)
        tps = []
        for k in range(n):
            a, w, mets = SET[kinds[k % len(kinds)]]
            tps.append(('tp%d' % k, a, mets, 'target.py', 10, True))
        r.service([r.tp('tp%d' % k, *SET[kinds[k % len(kinds)]][:2], [r.metric(m) for m in SET[kinds[k % len(kinds)]][2]]) for k in range(n)], 'C11.isolated')
        eff = r.run(T0)
        ids = sorted(e[0] for e in eff if e[1] == 'push')
        want = sorted('tp%d' % k for k in range(n) if wanted(SET[kinds[k % len(kinds)]][0], '', [])['push'])
        it.check(ids == want, 'C11.together', 'snapshots of %s, expected %s' % (ids, want))
    return fn


# -------------------------------------------------------------------- bad ones

def bad_tp(r, what):
    it = r.it
    if what == 'stage':
        return r.tp('bad', {'stage': 'nonsense'})
    if what == 'stage-empty':
        return r.tp('bad', {'stage': ''})
    if what == 'metric-type':
        return r.tp('bad', {}, [], [r.metric('mm', 77)])
    if what == 'metric-type-2':
        return r.tp('bad', {}, [], [r.metric('ok'), r.metric('mm', 5)])
    if what == 'label-empty':
        return r.tp('bad', {}, [], [r.metric('mm', 'GAUGE', [r.label('k')])])
    if what == 'numbers':
        return r.tp('bad', {'fire_count': 'x', 'fire_period': '', 'window_start': 'now', 'window_end': '1e3'})
    if what == 'empty':
        return it.new(it.public('deepproto.proto.tracepoint.v1.tracepoint_pb2', 'TracePointConfig'))
    if what == 'condition':
        return r.tp('bad', {'condition': '((('})
    if what == 'path':
        return r.tp('bad', {}, path='')
    if what == 'template':
        return r.tp('bad', {'log_msg': '{', 'snapshot': 'no_collect'})
    if what == 'limits':
        return r.tp('bad', {'MAX_VARIABLES': 'many', 'MAX_STRING_LENGTH': '-4', 'frame_type': 'odd', 'stack_type': 'odd'})
    if what == 'watch':
        return r.tp('bad', {}, ['', '((('])
    raise KeyError(what)


BAD = ['stage', 'stage-empty', 'metric-type', 'metric-type-2', 'label-empty', 'numbers', 'empty', 'condition', 'path', 'template', 'limits', 'watch']


def bad(whats, pos, repeated=False):
    """The response has two good tracepoints, and bad ones at this position."""
    def fn(it):
        r = Rig(it)

        def ev(i, name, expr, g, lo, scope):
            if '((' in str(expr) or expr == '':
                raise PyExc(SyntaxError('bad'), i.site())
            return True
        it.eval_hook = ev
        good = [('g1', {'log_msg': 'text', 'span': 'line'}, ['k1'], 'target.py', 10), ('g2', {'condition': 'c', 'method_name': 'other'}, [], 'target.py', 10)]
        msgs = [r.tp(t, a, ['w'], [r.metric(m) for m in ms], path=p, line=ln) for t, a, ms, p, ln in good]
        for w in whats:
            msgs.insert(min(pos, len(msgs)), bad_tp(r, w))
        e = r.poll(r.update(msgs, 'h1'))
        it.check(e is None, 'C11.isolated', 'a response with %s is refused: %s' % (whats, exc_name(e) if e else ''), e.site if e else None)
        r.settle()
        eff = [x for x in r.run(T0) if x[0] != 'bad' and x[0] not in ('mm', 'ok')]
        eff = [x for x in eff if x[0] != '']
        tps = [(t, a, ms, p, ln, True) for t, a, ms, p, ln in good]
        left = eff
        for t in tps:
            mine = [e for e in left if e[0] == t[0] or (e[1] == 'metric' and e[0] in t[2])]
            w = wanted(t[1], t[0], t[2])
            for kind in w:
                got = [e for e in mine if e[1] == kind]
                it.check(len(got) == w[kind], 'C11.isolated', 'next to %s, the tracepoint %s has %d %s, expected %d' % (whats, t[0], len(got), kind, w[kind]))
        it.check(len(it.resolve(it.getattr(r.requests[0], 'current_hash'))) == 0, 'C11.isolated', 'first poll')
    return fn


def bad_code(kind):
    """What is registered in code can be anything: the others are not affected, nothing is raised."""
    def fn(it):
        r = Rig(it)
        r.service([r.tp('g1', {})], 'C11.isolated')
        a = {'stage': {'stage': 'nonsense'}, 'count': {'fire_count': None, 'fire_period': [1]}, 'int': {'fire_count': 2, 'fire_period': 0},
             'objects': {'fire_count': it.hobj('fc'), 'frame_type': it.hobj('ft')}, 'none': {'snapshot': None, 'stack_type': None, 'frame_type': None}}[kind]
        r.register(a, [], [])
        r.settle()
        for k in range(3):
            eff = r.run(T0 + k * 2000 * MS)
            mine = [x for x in eff if x[0] == 'g1']
            it.check(len(mine) == (1 if k == 0 else 0), 'C11.isolated', 'run %d: %d effects of the other tracepoint' % (k + 1, len(mine)))
            other = [x for x in eff if x[0] != 'g1']
            if kind == 'stage':
                continue
            n = {'int': 2}.get(kind, 1)
            if kind != 'objects':
                it.check(len(other) == (1 if k < n else 0), 'C11.defaults', 'run %d: %d effects with %s' % (k + 1, len(other), a))
    return fn


FT = [None, 'single_frame', 'all_frame', 'no_frame', 'unknown']


def frames(stage, ft, st):
    def fn(it):
        r = Rig(it)
        a = {'frame_type': ft, 'stack_type': st, 'stage': stage}
        a = {k: v for k, v in a.items() if v is not None}
        r.service([r.tp('tpA', a)], 'C11.isolated')
        p = Prog(it, it.get(r.hd, 'trace_call'))
        main = it.frame('main', filename='/app/src/main.py', name='main', line=3, flocals={'m': it.hint('m')})
        p.call(main)
        f = it.frame('f', filename='/app/src/target.py', name='func', line=9, first=9, lines=[9, 10, 11, 12], flocals={'a': it.hint('a')})
        p.call(f, 9)
        p.line(f, 10)
        p.line(f, 11)
        p.ret(f, None, 11)
        snaps = it.pushed()
        it.check(len(snaps) == 1, 'C11.actions', '%d snapshots with %s' % (len(snaps), a))
        fr = list(it.iterate(it.get(snaps[0], 'frames')))
        have = [len(list(it.iterate(it.get(x, 'variables')))) for x in fr]
        if st != 'no_stack':
            want = {'all_frame': [1, 1], 'no_frame': [0, 0]}.get(ft, [1, 0])
            it.check(have == want, 'C11.defaults', 'frame_type %s: variables per frame %s, expected %s' % (ft, have, want))
    return fn


def scenarios(tier):
    out = []
    for st in STAGES:
        for n in NAMES:
            for src in ('service', 'code') if tier != 'quick' or n in (None, 'other') else ('service',):
                out.append(S('table/%s-%s-%s' % (st, n, src), table(st, n, src, tier != 'quick'), max_paths=400, max_time=60))
    names = list(SET)
    for i, a in enumerate(names):
        for b in names:
            out.append(S('pair/%s-%s-ss' % (a, b), together([a, b], 'ss'), max_time=20))
        out.append(S('pair/%s-plain-sc' % a, together([a, 'plain'], 'sc'), max_time=20))
        out.append(S('pair/%s-often-cs' % a, together([a, 'often'], 'cs'), max_time=20))
        if tier != 'quick':
            for b in names:
                out.append(S('pair/%s-%s-sc' % (a, b), together([a, b], 'sc'), max_time=20))
                out.append(S('pair/%s-%s-often-sss' % (a, b), together([a, b, 'often'], 'sss'), max_time=20))
    for t in (('often', 'log', 'metric'), ('never', 'plain', 'span'), ('capture', 'often', 'capture'), ('mspan', 'method', 'mcapture'), ('snaplog', 'metric2', 'later'),
              ('twice', 'twice', 'twice'), ('cond', 'never', 'cond')):
        out.append(S('triple/%s' % '-'.join(t), together(list(t), 'sss'), max_time=20))
        out.append(S('triple/%s-ssc' % '-'.join(t), together(list(t), 'ssc'), max_time=20))
    out += [S('equal/%d' % n, equals(n)) for n in (2, 3, 6)] + [S('equal/mixed', equals(6, ('plain', 'log', 'method', 'capture')))]
    for w in BAD:
        out += [S('bad/%s-%d' % (w, p), bad([w], p)) for p in (0, 1, 2)]
    out += [S('bad/%s' % '+'.join(ws), bad(list(ws), 1)) for ws in (('stage', 'metric-type'), ('metric-type', 'metric-type-2', 'stage'), ('empty', 'stage', 'numbers', 'path'))]
    out += [S('code/%s' % k, bad_code(k)) for k in ('stage', 'count', 'int', 'objects', 'none')]
    out += [S('frames/%s-%s-%s' % (s, f, t), frames(s, f, t)) for s in (None, 'line_capture', 'method_start') for f in FT for t in (None, 'stack', 'no_stack', 'unknown')]
    return out
