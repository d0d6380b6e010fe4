"""C08 The message of a snapshot has every field of it, and every request has the metadata of the auth provider."""
import ast
from lib import *

RULES = {
    'C08.sent': 'a snapshot which is handed over is sent, whatever text, number and optional value is in it',
    'C08.id': 'the ID of the message is the 128 bit id of the snapshot, big endian',
    'C08.tracepoint': 'id, path, line, arguments and watches of the tracepoint',
    'C08.time': 'time stamp and duration',
    'C08.frames': 'every frame in order, with every field and every variable reference',
    'C08.variables': 'every entry of the variable table under its id, with type, text, hash, truncation flag and children',
    'C08.watches': 'every watch result in order: expression, source, and the reference or the error',
    'C08.attributes': 'every attribute with its value in the field of its type',
    'C08.resource': 'every attribute of the resource with its value in the field of its type',
    'C08.log': 'the log message, present when there is one',
    'C08.auth': 'every poll and snapshot request has the metadata which the configured auth provider supplies',
    'C08.auth-basic': 'the basic provider supplies authorization = Basic%20 + base64(user:password), or nothing without both',
}
EXPLANATION = ('Snapshots with unknown contents in every field (each optional one absent or present, each repeated one with up to three elements), '
               'texts that are not valid UTF-8 in each field, snapshots of real hits, all auth settings with sequences of requests and failures.')


def has(it, m, f):
    return it.truth(it.m(m, 'HasField', f))


def clean(it, s):
    from builtins_model import utf8_clean
    return utf8_clean(it, s)


def text(it, got, want, what, rule):
    """The text in the message is the text of the snapshot. What utf-8 cannot represent may be replaced."""
    got, want = it.resolve(got), it.resolve(want)
    if isinstance(want, str) and not isinstance(want, HostVal):
        if clean(it, want):
            it.check(it.tri_eq(got, want) is True, rule, '%s is %s, it should be %r' % (what, show(got), want))
        else:
            g = got if isinstance(got, str) else ''
            ok = [c for c in want if clean(it, c)]
            i = iter(g)
            it.check(clean(it, g) and all(c in i for c in ok), rule, '%s is %s, it should be %r' % (what, show(got), want))
        return
    if clean(it, want):
        it.check(it.tri_eq(got, want) is True, rule, '%s is %s, it should be %s' % (what, show(got), show(want)))
    else:
        it.check(it.type_of(got) is str and mentions(got, want), rule, '%s is %s, it should be %s' % (what, show(got), show(want)))


def opt_text(it, m, f, want, what, rule, strict=True):
    """An optional text field: present exactly when there is one."""
    want = it.resolve(want)
    if want is None:
        got = it.resolve(it.getattr(m, f))
        it.check(it.tri_eq(got, '') is True and not (strict and has(it, m, f)), rule, '%s is %s, there is none' % (what, show(got)))
    else:
        it.check(has(it, m, f), rule, '%s is not in the message, it should be %s' % (what, show(want)))
        text(it, it.getattr(m, f), want, what, rule)


def num(it, m, f, want, what, rule):
    want = it.resolve(want)
    got = it.resolve(it.getattr(m, f))
    if want is None:
        want = 0
    it.check(it.tri_eq(got, want) is True, rule, '%s is %s, it should be %s' % (what, show(got), show(want)))


def flag(it, m, f, want, what, rule):
    got = it.resolve(it.getattr(m, f))
    want = it.resolve(want)
    if want is None:
        want = False
    it.check(it.truth(got) == it.truth(want), rule, '%s is %s, it should be %s' % (what, show(got), show(want)))


def line(it, m, f, want, what, rule):
    want = it.resolve(want)
    got = it.resolve(it.getattr(m, f))
    if want is None or it.truth(it.compare_op(ast.Lt(), want, 0)):
        it.check(it.tri_eq(got, 0) is True, rule, '%s is %s, there is no line' % (what, show(got)))
    else:
        it.check(it.tri_eq(got, want) is True, rule, '%s is %s, it should be %s' % (what, show(got), show(want)))


def varid(it, m, v, what, rule):
    text(it, it.getattr(m, 'ID'), it.get(v, 'vid'), what + ' id', rule)
    text(it, it.getattr(m, 'name'), it.call(str, [it.get(v, 'name')], {}) if it.type_of(it.get(v, 'name')) is not str else it.get(v, 'name'), what + ' name', rule)
    opt_text(it, m, 'original_name', it.get(v, 'original_name'), what + ' original name', rule)
    got, want = list(it.iterate(it.getattr(m, 'modifiers'))), list(it.iterate(it.get(v, 'modifiers')))
    it.check(len(got) == len(want), rule, '%s has %d modifiers, it should have %d' % (what, len(got), len(want)))
    for a, b in zip(got, want):
        text(it, a, b, what + ' modifier', rule)


def varids(it, got, want, what, rule):
    got, want = list(it.iterate(got)), list(it.iterate(want))
    it.check(len(got) == len(want), rule, '%s: %d references, %d in the snapshot' % (what, len(got), len(want)))
    for n, (a, b) in enumerate(zip(got, want)):
        varid(it, a, b, '%s[%d]' % (what, n), rule)


def anyvalue(it, m, v, what, rule):
    v = it.resolve(v)
    w = it.resolve(it.m(m, 'WhichOneof', 'value'))
    t = it.type_of(v)

    def field(name):
        it.check(w == name, rule, '%s is in the field %s, it should be in %s' % (what, w, name))
        return it.resolve(it.getattr(m, name))
    if v is None:
        it.check(w is None, rule, '%s is in the field %s, it is None' % (what, w))
    elif t is bool:
        it.check(it.tri_eq(field('bool_value'), v) is True, rule, '%s differs' % what)
    elif t is str:
        text(it, field('string_value'), v, what, rule)
    elif t is int:
        if w == 'string_value':
            # out of the range of the message: as text
            big = (ge(it, v, 2 ** 63), False)
            small = (ge(it, -2 ** 63, v, 1), False)
            pos = feasible(it, big) or feasible(it, small)
            inside = feasible(it, (ge(it, v, -2 ** 63), False), (ge(it, 2 ** 63, v, 1), False))
            it.check(pos and not inside, rule, '%s is sent as text' % what)
            got = it.resolve(it.getattr(m, 'string_value'))
            it.check(it.tri_eq(got, it.call(str, [v], {})) is True, rule, '%s is %s' % (what, show(got)))
        else:
            it.check(it.tri_eq(field('int_value'), v) is True, rule, '%s differs' % what)
    elif t is float:
        got = field('double_value')
        it.check(got is v or it.tri_eq(got, v) is True or (got != got and v != v), rule, '%s is %s' % (what, show(got)))
    elif t is bytes:
        it.check(it.tri_eq(field('bytes_value'), v) is True, rule, '%s differs' % what)
    elif t in (tuple, list):
        got = list(it.iterate(it.getattr(field('array_value'), 'values')))
        want = list(it.iterate(v))
        it.check(len(got) == len(want), rule, '%s has %d elements, it should have %d' % (what, len(got), len(want)))
        for n, (a, b) in enumerate(zip(got, want)):
            anyvalue(it, a, b, '%s[%d]' % (what, n), rule)
    else:
        it.undecided('attribute of type %s' % show(t))


def keyvalues(it, got, attrs, what, rule):
    got = list(it.iterate(got))
    want = [(k, v) for k, v in it.dict_items_of(attrs)]
    it.check(len(got) == len(want), rule, '%d %s, the snapshot has %d' % (len(got), what, len(want)))
    left = list(got)
    for k, v in want:
        hit = None
        for m in left:
            g = it.resolve(it.getattr(m, 'key'))
            if it.tri_eq(g, k) is True or (not clean(it, k) and (mentions(g, k) or len(want) == 1)):
                hit = m
                break
        it.check(hit is not None, rule, 'no %s for the key %s' % (what, show(k)))
        left.remove(hit)
        text(it, it.getattr(hit, 'key'), k, 'the key of %s' % what, rule)
        anyvalue(it, it.getattr(hit, 'value'), v, '%s %s' % (what, show(k)), rule)


def items(it, attrs):
    keys = list(it.iterate(attrs))
    return [(k, it.getitem(attrs, k)) for k in keys]


NewInterp.dict_items_of = items


def message_is(it, m, s, resource=True):
    """The message m has everything of the snapshot s."""
    g = lambda n: it.get(s, n)
    i = it.resolve(g('id'))
    want = it.call_method(i, 'to_bytes', [16, 'big'])
    got = it.resolve(it.getattr(m, 'ID'))
    it.check(it.tri_eq(got, want) is True, 'C08.id', 'ID is %s, the id of the snapshot is %s' % (show(got), show(i)))
    tp, mt, r = g('tracepoint'), it.getattr(m, 'tracepoint'), 'C08.tracepoint'
    text(it, it.getattr(mt, 'ID'), it.get(tp, 'id'), 'the id of the tracepoint', r)
    text(it, it.getattr(mt, 'path'), it.get(tp, 'path'), 'the path of the tracepoint', r)
    line(it, mt, 'line_number', it.get(tp, 'line_no'), 'the line of the tracepoint', r)
    want = [(k, v) for k, v in it.dict_items(it.get(tp, 'args')) if it.resolve(v) is not None]
    got = list(it.dict_items(it.getattr(mt, 'args')))
    it.check(len(got) == len(want), r, '%d arguments, the tracepoint has %d' % (len(got), len(want)))
    for k, v in want:
        hit = [b for a, b in got if it.tri_eq(a, k) is True or mentions(a, k) or not clean(it, k)]
        it.check(len(hit) > 0, r, 'the argument %s is missing' % show(k))
        text(it, hit[0], v if it.type_of(v) is str else it.call(str, [v], {}), 'argument %s' % show(k), r)
    got, want = list(it.iterate(it.getattr(mt, 'watches'))), list(it.iterate(it.get(tp, 'watches')))
    it.check(len(got) == len(want), r, '%d watches, the tracepoint has %d' % (len(got), len(want)))
    for a, b in zip(got, want):
        text(it, a, b, 'watch of the tracepoint', r)
    num(it, m, 'ts_nanos', g('ts_nanos'), 'the time', 'C08.time')
    num(it, m, 'duration_nanos', g('duration_nanos'), 'the duration', 'C08.time')
    frames(it, it.getattr(m, 'frames'), g('frames'))
    table(it, it.getattr(m, 'var_lookup'), g('var_lookup'))
    watches(it, it.getattr(m, 'watches'), g('watches'))
    keyvalues(it, it.getattr(m, 'attributes'), g('attributes'), 'attributes', 'C08.attributes')
    keyvalues(it, it.getattr(m, 'resource'), it.get(g('resource'), 'attributes'), 'resource attributes', 'C08.resource')
    opt_text(it, m, 'log_msg', g('log_msg'), 'the log message', 'C08.log')


def frames(it, got, want):
    got, want = list(it.iterate(got)), list(it.iterate(want))
    it.check(len(got) == len(want), 'C08.frames', '%d frames, the snapshot has %d' % (len(got), len(want)))
    for n, (m, f) in enumerate(zip(got, want)):
        w, r = 'frame %d ' % n, 'C08.frames'
        text(it, it.getattr(m, 'file_name'), it.get(f, 'file_name'), w + 'file', r)
        opt_text(it, m, 'short_path', it.get(f, 'short_path'), w + 'short path', r)
        text(it, it.getattr(m, 'method_name'), it.get(f, 'method_name'), w + 'method', r)
        line(it, m, 'line_number', it.get(f, 'line_number'), w + 'line', r)
        opt_text(it, m, 'class_name', it.get(f, 'class_name'), w + 'class', r)
        flag(it, m, 'is_async', it.get(f, 'is_async'), w + 'is_async', r)
        flag(it, m, 'app_frame', it.get(f, 'app_frame'), w + 'app_frame', r)
        num(it, m, 'column_number', it.get(f, 'column_number'), w + 'column', r)
        opt_text(it, m, 'transpiled_file_name', it.get(f, 'transpiled_file_name'), w + 'transpiled file', r)
        num(it, m, 'transpiled_line_number', it.get(f, 'transpiled_line_number'), w + 'transpiled line', r)
        num(it, m, 'transpiled_column_number', it.get(f, 'transpiled_column_number'), w + 'transpiled column', r)
        varids(it, it.getattr(m, 'variables'), it.get(f, 'variables'), w + 'variables', r)


def table(it, got, want):
    got, want, r = list(it.dict_items(got)), list(it.dict_items(want)), 'C08.variables'
    it.check(len(got) == len(want), r, '%d entries, the snapshot has %d' % (len(got), len(want)))
    for k, v in want:
        hit = [b for a, b in got if it.tri_eq(a, k) is True]
        it.check(len(hit) == 1, r, 'the entry %s is missing' % show(k))
        m, w = hit[0], 'variable %s ' % show(k)
        text(it, it.getattr(m, 'type'), it.get(v, 'type'), w + 'type', r)
        text(it, it.getattr(m, 'value'), it.get(v, 'value'), w + 'value', r)
        text(it, it.getattr(m, 'hash'), it.get(v, 'hash'), w + 'hash', r)
        flag(it, m, 'truncated', it.get(v, 'truncated'), w + 'truncated', r)
        varids(it, it.getattr(m, 'children'), it.get(v, 'children'), w + 'children', r)


def watches(it, got, want):
    got, want, r = list(it.iterate(got)), list(it.iterate(want)), 'C08.watches'
    it.check(len(got) == len(want), r, '%d watches, the snapshot has %d' % (len(got), len(want)))
    src = it.mod('deepproto.proto.tracepoint.v1.tracepoint_pb2')['WatchSource']
    for n, (m, f) in enumerate(zip(got, want)):
        w = 'watch %d ' % n
        text(it, it.getattr(m, 'expression'), it.get(f, 'expression'), w + 'expression', r)
        num(it, m, 'source', it.m(src, 'Value', it.get(f, 'source')), w + 'source', r)
        res, err = it.resolve(it.get(f, 'result')), it.resolve(it.get(f, 'error'))
        if err is not None:
            it.check(has(it, m, 'error_result'), r, w + 'has no error, it should be %s' % show(err))
            text(it, it.getattr(m, 'error_result'), err, w + 'error', r)
        else:
            it.check(not has(it, m, 'error_result'), r, w + 'has an error %s' % show(it.getattr(m, 'error_result')))
            if res is not None:
                it.check(has(it, m, 'good_result'), r, w + 'has no result')
                varid(it, it.getattr(m, 'good_result'), res, w + 'result', r)


# -------------------------------------------------------------------- the service side

def service(it, custom=None, tasks=True):
    conf = {'SERVICE_URL': 'h:1', 'SERVICE_SECURE': 'False'}
    conf.update(custom or {})
    c = it.call(it.harness()['make_config'], [conf, [], it.new(it.public('deep.api.resource', 'Resource'), {'service.name': 'svc'})], {})
    g = it.new(it.public('deep.grpc', 'GRPCService'), c)
    it.m(g, 'start')
    th = it.new(it.public('deep.task', 'TaskHandler'))
    it.m(c, 'set_task_handler', th)
    push = it.new(it.public('deep.push', 'PushService'), g, th)
    return c, g, th, push


def sends(it):
    return it.boundary('send')


def one_sent(it, rule='C08.sent'):
    got = sends(it)
    it.check(len(got) == 1, rule, '%d messages sent for one snapshot' % len(got))
    return got[0].args[0]


def u(it, name):
    return it.strsym(name, 'utf8')


class Build:
    """Parts of snapshots with unknown contents. `dirty`: the text which utf-8 cannot represent."""

    def __init__(self, it, dirty=None):
        self.it, self.dirty, self.hit = it, dirty, False
        ns = it.mod('deep.api.tracepoint')
        self.ns = ns
        self.es = it.mod('deep.api.tracepoint.eventsnapshot')

    def t(self, name):
        if self.dirty == name:
            self.hit = True
            return 'a\ud800b'
        return u(self.it, name)

    def o(self, name):
        return self.t(name) if self.dirty == name or self.it.choose(2, name) else None

    def varid(self, tag, vid=None, mods=1, orig=None):
        it = self.it
        return it.new(self.es['VariableId'], vid if vid is not None else tag, self.t(tag + '.name'), [self.t(tag + '.mod%d' % k) for k in range(mods)],
                      self.t(tag + '.orig') if orig else None)

    def variable(self, tag, children=(), trunc=False, h=None):
        it = self.it
        return it.new(self.es['Variable'], self.t(tag + '.type'), self.t(tag + '.value'), h if h is not None else u(it, tag + '.hash'), list(children), trunc)

    def frame(self, tag, variables=(), cls=True, **kw):
        it = self.it
        a = {'is_async': False, 'app_frame': False}
        a.update(kw)
        return it.new(self.es['StackFrame'], self.t(tag + '.file'), self.t(tag + '.short'), self.t(tag + '.method'), kw.pop('line', it.intsym(tag + '.line', 0, 2 ** 31)),
                      list(variables), self.t(tag + '.class') if cls else None, **{k: v for k, v in a.items() if k != 'line'})

    def tracepoint(self, args=None, nwatch=1):
        it = self.it
        return it.new(it.public('deep.api.tracepoint', 'TracePointConfig'), self.t('tp.id'), self.t('tp.path'), it.intsym('tp.line', 0, 2 ** 31),
                      args if args is not None else {'k1': self.t('tp.arg')}, [self.t('tp.w%d' % k) for k in range(nwatch)], [])

    def snapshot(self, frames=(), table=None, tp=None, resource=None):
        it = self.it
        r = it.new(it.public('deep.api.resource', 'Resource'), resource if resource is not None else {'service.name': self.t('res.value')})
        s = it.new(it.public('deep.api.tracepoint', 'EventSnapshot'), tp or self.tracepoint(), it.intsym('ts', 0, 2 ** 62), r, list(frames), dict(table or {}))
        return s

    def watch(self, tag, src, result, error):
        return self.it.new(self.es['WatchResult'], src, self.t(tag + '.expr'), result, error)


def deliver(it, push, snap):
    it.m(push, 'push_snapshot', snap)
    run_tasks(it)


def drive(fn, dirty=None, custom=None):
    def run(it):
        at_time(it, it.intsym('now', 10 ** 15))
        c, g, th, push = service(it, custom)
        b = Build(it, dirty)
        s = fn(it, b)
        if dirty is not None and not b.hit:
            raise Undecided('the dirty text %s is not used' % dirty)
        deliver(it, push, s)
        m = one_sent(it)
        message_is(it, m, s)
        it.witness.add('sent')
    return run


def whole(it, b):
    kids = [b.varid('c1'), b.varid('c2', mods=0, orig=True)]
    tab = {'1': b.variable('v1', kids, False), 'c1': b.variable('vc1', (), True), 'c2': b.variable('vc2', (), None)}
    fr = [b.frame('f0', [b.varid('x', '1')], app_frame=True), b.frame('f1', (), cls=False, is_async=True)]
    s = b.snapshot(fr, tab)
    it.m(s, 'add_watch_result', b.watch('w0', 'WATCH', b.varid('wr', 'c1', orig=True), None))
    it.m(s, 'add_watch_result', b.watch('w1', 'LOG', None, b.t('w1.error')))
    it.setitem(it.get(s, 'attributes'), 'key', b.t('attr.value'))
    it.setattr(s, 'log_msg', b.t('log'))
    it.m(s, 'complete')
    return s


DIRTY = ['c1.name', 'c2.orig', 'v1.type', 'v1.value', 'vc1.value', 'f0.file', 'f0.short', 'f0.method', 'f0.class', 'x.name', 'tp.id', 'tp.path',
         'tp.arg', 'tp.w0', 'res.value', 'w0.expr', 'wr.name', 'wr.orig', 'w1.expr', 'w1.error', 'attr.value', 'log']


def bare(it, b):
    return b.snapshot([], {}, tp=b.tracepoint({}, 0), resource={})


def frames_opt(it, b):
    n = it.choose(4, 'frames')
    fs = []
    for k in range(n):
        if k == 0:
            fs.append(b.frame('f%d' % k, [b.varid('x%d' % j, mods=it.choose(3, 'mods')) for j in range(it.choose(3, 'vars'))],
                              cls=it.choose(2, 'cls'), is_async=bool(it.choose(2, 'async')), app_frame=bool(it.choose(2, 'app'))))
        else:
            fs.append(b.frame('f%d' % k, [b.varid('y%d' % k)], cls=k % 2 == 0, app_frame=k % 2 == 1))
    return b.snapshot(fs, {})


def frame_extra(it, b):
    f = b.frame('f0', (), column_number=it.intsym('col', 0, 2 ** 31), transpiled_file_name=b.t('tfile') if it.choose(2, 'tf') else None,
                transpiled_line_number=it.intsym('tl', 0, 2 ** 31), transpiled_column_number=it.intsym('tc', 0, 2 ** 31),
                line=[None, 0, -1, 7][it.choose(4, 'line')])
    g = it.new(b.es['StackFrame'], b.t('g.file'), None, b.t('g.method'), 3, [], None, app_frame=None, is_async=None)
    return b.snapshot([f, g], {})


def table_opt(it, b):
    n = it.choose(4, 'entries')
    tab = {}
    for k in range(n):
        kids = [b.varid('k%d_%d' % (k, j), orig=j == 1) for j in range(it.choose(3, 'kids') if k == 0 else k % 3)]
        tr = [False, True, None][it.choose(3, 'trunc')] if k < 2 else True
        tab[str(k + 1)] = b.variable('v%d' % k, kids, tr, h=str(1000 + k) if k else None)
    return b.snapshot([], tab)


def table_sym_flag(it, b):
    return b.snapshot([], {'1': b.variable('v', (), it.inp('flag', bool))})


def watch_opt(it, b):
    s = b.snapshot([b.frame('f0')], {})
    srcs = ['WATCH', 'LOG', 'METRIC', 'CAPTURE']
    for k in range(it.choose(3, 'n') + 1):
        src = srcs[it.choose(4, 'src')] if k == 0 else srcs[k]
        how = it.choose(4, 'how') if k < 2 else 0
        w = b.watch('w%d' % k, src, b.varid('r%d' % k, orig=how == 1) if how < 2 else None, None if how < 2 else b.t('e%d' % k) if how == 2 else '')
        it.m(s, 'add_watch_result', w)
    return s


def vals(it):
    return [u(it, 'av'), '', True, False, it.inp('ab', bool), it.intsym('ai', -2 ** 63, 2 ** 63 - 1), it.intsym('aj'), 0, -1, 2 ** 63 - 1, 2 ** 63, -2 ** 63 - 1, 10 ** 30,
            0.0, 1.5, float('inf'), float('nan'), it.inp('af', float), 'a\ud800b', b'bytes', ('a', 'b'), ['l', u(it, 'al')], (), (1, 2), (True, False), (1.0,),
            ('a', None, 'b'), (None,), (2 ** 70, 1), (u(it, 'at'),)]


NVALS = 30


def attr(n):
    def fn(it, b):
        s = b.snapshot([], {})
        v = vals(it)[n]
        it.setitem(it.get(s, 'attributes'), 'before', 'x')
        it.setitem(it.get(s, 'attributes'), 'key', v)
        it.setitem(it.get(s, 'attributes'), u(it, 'other'), 'y')
        return s
    return fn


def res(n):
    def fn(it, b):
        v = vals(it)[n]
        return b.snapshot([], {}, resource={'before': 'x', 'service.name': 'svc', 'key': v, 'after': 1})
    return fn


def merged_attrs(it, b):
    """As decorators add them."""
    s = b.snapshot([], {})
    ba = it.public('deep.api.attributes', 'BoundedAttributes')
    it.m(it.get(s, 'attributes'), 'merge_in', it.new(ba, attributes={'a': u(it, 'a1'), 'b': 1}))
    it.m(it.get(s, 'attributes'), 'merge_in', it.new(ba, attributes={'b': u(it, 'b2'), 'c': (1, 2)}))
    got = it.dict_items_of(it.get(s, 'attributes'))
    it.check(len(got) == 3, 'C08.attributes', 'the merged attributes are %s' % show(got))
    return s


def targs(it, b):
    k = it.choose(6, 'args')
    a = [{}, {'a': u(it, 'v1'), 'b': u(it, 'v2'), 'c': ''}, {'n': 5, 't': True, 'z': None, 'f': 1.5}, {'a\ud800': 'x', 'b': 'y'}, {u(it, 'key'): u(it, 'val')},
         {'l': it.hlist('lst', [1])}][k]
    return b.snapshot([], {}, tp=b.tracepoint(a, it.choose(3, 'nw')))


def tline(it, b):
    tp = it.new(it.public('deep.api.tracepoint', 'TracePointConfig'), 'id', 'p', it.intsym('line', -5, 2 ** 31), {}, [], [])
    return b.snapshot([], {}, tp=tp)


def logm(it, b):
    s = b.snapshot([], {})
    k = it.choose(3, 'log')
    if k:
        it.setattr(s, 'log_msg', ['', b.t('log')][k - 1])
    return s


def merged_vars(it, b):
    s = b.snapshot([], {'1': b.variable('v1')})
    it.m(s, 'merge_var_lookup', {'2': b.variable('v2', [b.varid('k', '1')]), '3': b.variable('v3')})
    it.check(len(it.dict_items(it.get(s, 'var_lookup'))) == 3, 'C08.variables', 'merged entries are missing')
    return s


def several(it):
    """Several snapshots: one message of its own for each, in whatever order they are sent, before or after the next is there."""
    at_time(it, it.intsym('now', 10 ** 15))
    c, g, th, push = service(it)
    b = Build(it)
    ss = []
    for k in range(3):
        s = b.snapshot([b.frame('f%d' % k, [b.varid('x%d' % k, '1')])], {'1': b.variable('v%d' % k)}, tp=it.new(
            it.public('deep.api.tracepoint', 'TracePointConfig'), 'tp%d' % k, 'p', k, {}, ['w%d' % k], []))
        it.setattr(s, 'log_msg', 'log%d' % k if k != 1 else None)
        ss.append(s)
        it.m(push, 'push_snapshot', s)
        if it.choose(2, 'run'):
            run_tasks(it)
    run_tasks(it, any_order=True)
    got = [e.args[0] for e in sends(it)]
    it.check(len(got) == 3, 'C08.sent', '%d messages for three snapshots' % len(got))
    for k, s in enumerate(ss):
        m = [x for x in got if it.resolve(it.getattr(it.getattr(x, 'tracepoint'), 'ID')) == 'tp%d' % k]
        it.check(len(m) == 1, 'C08.sent', 'no message for snapshot %d' % k)
        message_is(it, m[0], s)


def real_hit(args=None, watches=(), locals_=None, dirty=None, decorate=None, capture=False, metrics=None):
    """The snapshot of a hit, from the trace event to the message."""
    def fn(it):
        now = it.intsym('now', 10 ** 15)
        at_time(it, now)
        c, g, th, push = service(it)
        if decorate is not None:
            it.setattr(c, 'plugins', [it.new(it.harness()['DecoratorPlug'], 'd%d' % n, a) for n, a in enumerate(decorate)])
        hd = it.new(it.public('deep.processor.trigger_handler', 'TriggerHandler'), c, push)
        caught = []
        orig = it.get(push, 'push_snapshot')
        it.setattr(push, 'push_snapshot', Native('push_snapshot', lambda i, a, k: (caught.append(a[0]), i.call(orig, a, k))[1]))
        a = {'log_msg': 'hello {name}'} if args is None else dict(args)
        it.install(hd, [it.trigger('tp', 'target.py', 10, a, watches=list(watches))])
        it.eval_hook = lambda i, name, expr, gl, lo, scope: ev(it, expr)
        fl = locals_(it) if locals_ else {'n': it.hint('n'), 'l': it.hlist('l', [it.hint('l0'), it.hobj('o', {'x': it.hint('o.x'), '_p': it.hint('o.p')})]), 's': it.hstr('s', 'utf8')}
        gf = it.frame('g', filename='/app/main.py', name='main', line=3, flocals={'out': it.hint('out')})
        f = it.frame('f', filename='/app/src/target.py', name='func', line=10, flocals=fl, back=gf)
        p = Prog(it, it.get(hd, 'trace_call'))
        p.stack.append(gf)
        if capture:
            p.call(f)
            p.ret(f, it.hobj('rv', {'r': 1}))
        else:
            p.deliver(p.fn, f, 'line', None)
        run_tasks(it)
        it.check(len(caught) == 1, 'C08.sent', '%d snapshots handed over' % len(caught))
        m = one_sent(it)
        s = caught[0]
        message_is(it, m, s)
        it.check(len(list(it.iterate(it.getattr(m, 'frames')))) > 0, 'C08.frames', 'no frames in the message')
        it.check(it.entails(ge(it, it.getattr(m, 'duration_nanos'), 0)), 'C08.time', 'the duration can be negative')
        it.witness.add('sent')
    return fn


def duration(it):
    """Time passes while the watches are evaluated: that is the duration."""
    now = it.intsym('now', 10 ** 15)
    at_time(it, now)
    c, g, th, push = service(it)
    hd = it.new(it.public('deep.processor.trigger_handler', 'TriggerHandler'), c, push)
    it.install(hd, [it.trigger('tp', 'target.py', 10, {}, watches=['w'])])
    d = it.intsym('d', 0, 10 ** 12)

    def eh(i, name, expr, gl, lo, scope):
        at_time(it, it.lin_add(now, d))
        return it.hint('value')
    it.eval_hook = eh
    f = it.frame('f', filename='/app/src/target.py', name='func', line=10, flocals={})
    Prog(it, it.get(hd, 'trace_call')).deliver(it.get(hd, 'trace_call'), f, 'line', None)
    at_time(it, it.lin_add(it.wall, it.intsym('later', 0, 10 ** 12)))
    run_tasks(it)
    m = one_sent(it)
    it.check(it.tri_eq(it.resolve(it.getattr(m, 'ts_nanos')), now) is True, 'C08.time', 'the time is %s' % show(it.getattr(m, 'ts_nanos')))
    it.check(it.tri_eq(it.resolve(it.getattr(m, 'duration_nanos')), d) is True, 'C08.time', 'the duration is %s' % show(it.getattr(m, 'duration_nanos')))


def ev(it, expr):
    if expr == 'x':
        return True
    if expr == 'bad':
        it.throw(NameError, 'bad')
    key = ('expr', expr)
    if key not in it.host_memo:
        it.host_memo[key] = it.hobj('value_of_' + expr, {'a': it.hint(expr + '.a')})
    return it.host_memo[key]


def odd_values(it):
    return {'s': 'bad \ud800 text', 'l': it.hlist('l', ['\udfff', 1, b'x']), 'd': it.hdict('d', {'k\ud801': 1, 5: 2, None: 3}), 'f': 1.5, 'n': None, 'b': True,
            'big': 10 ** 40, 'o': it.hobj('o', {'\ud800a': 1})}


# -------------------------------------------------------------------- auth

AUTH = '''
import _absint
from deep.api.auth import AuthProvider
class Good(AuthProvider):
    def provide(self):
        return _absint.boundary('provide', self)
class NotConfigured(AuthProvider):
    def provide(self):
        return []
'''


def auth(custom_provider, order, fails=0):
    """Requests in any order, each with what the provider gave. The provider fails some times before that."""
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        it.load_source('myauth', AUTH, '/verif/myauth.py')
        given = []
        left = [fails]

        def hook(i, kind, args, kw):
            if kind == 'provide':
                if left[0]:
                    left[0] -= 1
                    i.throw(RuntimeError, 'no token yet')
                md = [('authorization', u(it, 'token%d' % len(given))), ('x-more', u(it, 'more%d' % len(given)))]
                given.append(md)
                return md
            if kind == 'poll':
                return it.new(it.public('deepproto.proto.poll.v1.poll_pb2', 'PollResponse'), response_type=0)
            return None
        it.boundary_hook = hook
        conf = {}
        if custom_provider is not None:
            conf['SERVICE_AUTH_PROVIDER'] = custom_provider
        c, g, th, push = service(it, conf)
        poll = it.new(it.public('deep.poll', 'LongPoll'), c, g)
        b = Build(it)
        n = 0
        for o in order:
            if o == 'poll':
                it.attempt(it.m, poll, 'poll')
            else:
                it.m(push, 'push_snapshot', b.snapshot([], {}))
                run_tasks(it)
            n += 1
        reqs = [e for e in it.events if e.kind == 'boundary' and e.name in ('poll', 'send')]
        if not fails:
            it.check(len(reqs) == len(order), 'C08.sent', '%d requests for %d' % (len(reqs), len(order)))
        else:
            it.check(len(reqs) >= len(order) - fails, 'C08.sent', '%d requests, %d failures of the provider' % (len(reqs), fails))
        for e in reqs:
            md = it.resolve(e.args[1])
            md = [] if md is None else [tuple(it.iterate(x)) for x in it.iterate(md)]
            if custom_provider == 'myauth.Good':
                ok = any(len(md) == len(x) and all(k[0] == w[0] and it.resolve(k[1]) is w[1] for k, w in zip(md, x)) for x in given)
                it.check(ok, 'C08.auth', 'the %s request has the metadata %s, the provider gave %s' % (e.name, show(md), show(given)), e.site)
            else:
                it.check(md == [], 'C08.auth', 'the %s request has the metadata %s without a provider' % (e.name, show(md)), e.site)
            it.check(e.args[2] is it.get(g, 'channel'), 'C08.auth', 'the request uses another channel')
    return fn


def basic(user, pw, env=False):
    def fn(it):
        at_time(it, it.intsym('now', 10 ** 15))
        it.boundary_hook = lambda i, kind, args, kw: it.new(it.public('deepproto.proto.poll.v1.poll_pb2', 'PollResponse'), response_type=0) if kind == 'poll' else None
        conf = {'SERVICE_AUTH_PROVIDER': 'deep.api.auth.BasicAuthProvider'}
        us, ps = user, pw
        if user == 'any':
            us, ps = u(it, 'user'), u(it, 'password')
        if env:
            it.env['DEEP_SERVICE_AUTH_PROVIDER'] = conf.pop('SERVICE_AUTH_PROVIDER')
            if us is not None:
                it.env['DEEP_SERVICE_USERNAME'] = us
            if ps is not None:
                it.env['DEEP_SERVICE_PASSWORD'] = ps
        else:
            if us is not None:
                conf['SERVICE_USERNAME'] = us
            if ps is not None:
                conf['SERVICE_PASSWORD'] = ps
        c, g, th, push = service(it, conf)
        poll = it.new(it.public('deep.poll', 'LongPoll'), c, g)
        it.m(poll, 'poll')
        it.m(push, 'push_snapshot', Build(it).snapshot([], {}))
        run_tasks(it)
        reqs = [e for e in it.events if e.kind == 'boundary' and e.name in ('poll', 'send')]
        it.check(len(reqs) == 2, 'C08.sent', '%d requests for 2' % len(reqs))
        import base64
        for e in reqs:
            md = it.resolve(e.args[1])
            md = [] if md is None else [tuple(it.iterate(x)) for x in it.iterate(md)]
            if us is None or ps is None:
                it.check(md == [], 'C08.auth-basic', 'metadata %s without user and password' % show(md), e.site)
                continue
            it.check(len(md) == 1 and md[0][0] == 'authorization', 'C08.auth-basic', 'metadata is %s' % show(md), e.site)
            if isinstance(us, str):
                want = 'Basic%20' + base64.b64encode((us + ':' + ps).encode()).decode()
                it.check(it.resolve(md[0][1]) == want, 'C08.auth-basic', 'authorization is %s' % show(md[0][1]), e.site)
            else:
                b64 = it.mod('base64')['b64encode'] if False else it.import_module('base64').ns.get('b64encode')
                raw = it.call_method(it.concat([us, ':', ps]), 'encode', ['utf-8'])
                want = it.concat(['Basic%20', it.call_method(it.call(b64, [raw], {}), 'decode', ['utf-8'])])
                it.check(it.tri_eq(it.resolve(md[0][1]), want) is True, 'C08.auth-basic', 'authorization is %s' % show(md[0][1]), e.site)
    return fn


def scenarios(tier):
    out = [S('message/whole', drive(whole)), S('message/bare', drive(bare))]
    out += [S('message/dirty-%s' % d, drive(whole, d)) for d in DIRTY]
    out += [S('message/frames', drive(frames_opt), max_paths=4000), S('message/frame-extra', drive(frame_extra)), S('message/table', drive(table_opt)),
            S('message/flag', drive(table_sym_flag)), S('message/watches', drive(watch_opt), max_paths=4000), S('message/merged-attributes', drive(merged_attrs)),
            S('message/tp-args', drive(targs)), S('message/tp-line', drive(tline)), S('message/log', drive(logm)), S('message/merged-vars', drive(merged_vars))]
    out += [S('message/attribute-%d' % n, drive(attr(n))) for n in range(NVALS)]
    out += [S('message/resource-%d' % n, drive(res(n))) for n in range(NVALS)]
    out.append(S('message/several', several))
    out += [S('hit/duration', duration), S('hit/plain', real_hit({}), max_time=15), S('hit/log', real_hit(), max_time=15), S('hit/watches', real_hit({}, ['w1', 'bad', 'w2']), max_time=15), S('hit/log-watches', real_hit({'log_msg': '{a} {bad}'}, ['w1']), max_time=15),
            S('hit/odd-values', real_hit({}, locals_=odd_values), max_time=15), S('hit/all-frames', real_hit({'frame_type': 'all_frame'}, ['w1']), max_time=15),
            S('hit/no-frames', real_hit({'frame_type': 'no_frame'}, ['w1']), max_time=15),
            S('hit/decorated', real_hit({}, decorate=[{'a': 'x', 'n': 5}, {'b': (1, 2), 'a': 'y'}]), max_time=15),
            S('hit/capture', real_hit({'stage': 'method_capture', 'method_name': 'func'}, ['w1'], capture=True), max_time=15),
            S('hit/args', real_hit({'condition': 'x', 'fire_count': '5', 'fire_period': 7}), max_time=15)]
    P = 'poll'
    for name, order in (('poll-send', [P, 'send']), ('send-poll', ['send', P]), ('many', [P, 'send', 'send', P, P, 'send'])):
        out.append(S('auth/custom-%s' % name, auth('myauth.Good', order)))
        out.append(S('auth/none-%s' % name, auth(None, order)))
        out.append(S('auth/empty-%s' % name, auth('', order)))
        out.append(S('auth/nothing-%s' % name, auth('myauth.NotConfigured', order)))
    out += [S('auth/fails-%d-%s' % (n, o[0]), auth('myauth.Good', list(o), n)) for n in (1, 2) for o in ((P, P, P, 'send'), ('send', P, 'send', 'send'))]
    for e in (False, True):
        t = '-env' if e else ''
        out += [S('auth/basic' + t, basic('bob', 'obo', e)), S('auth/basic-unicode' + t, basic('b\xe4b', 'p:\u20ac', e)), S('auth/basic-empty' + t, basic('', '', e)),
                S('auth/basic-any' + t, basic('any', 'any', e)), S('auth/basic-nouser' + t, basic(None, 'x', e)), S('auth/basic-nopw' + t, basic('x', None, e))]
    return out
