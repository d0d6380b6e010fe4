"""C19 Configuration resolves with documented precedence and works from the environment."""
from fractions import Fraction
from lib import *
from rig import Rig

RULES = {
    'C19.precedence': 'a value given in code wins over the default of the environment, that over the variable DEEP_<key> of an unknown key, else it is absent',
    'C19.functions': 'values that are functions are called',
    'C19.environment': 'a documented setting has the same effect from its environment variable as from code',
    'C19.poll-timer': 'the poll timer runs at the interval that is configured, as number or as text',
    'C19.app-frame': 'an application frame is one that is under an include prefix or the application root, and under no exclude prefix',
    'C19.short-path': 'the short path is the file name without the prefix that matched',
    'C19.app-root': 'the application root is derived from the caller of start when it is not given',
}
EXPLANATION = ('The lookup of each documented and unknown key is compared with the precedence table for each combination of value in code (of each type, as function of each kind) and environment text; '
               'the agent is started with each documented setting given in code, as function and as environment variable, and its channel, log configuration, metadata, poll times and stack frames are compared '
               'with a reference; the stack frames of snapshots are compared with a reference classification of the paths for each combination of include, exclude and root.')

T0 = 10 ** 18
UNSET = object()
EXEC = '/opt/python'          # the exec_prefix of the model


def yes(v):
    return str(v).lower() in ('yes', 'true', 't', '1', 'y')


def as_items(v):
    if v is None:
        return []
    if isinstance(v, str):
        v = v.split(',')
    return [x.strip() for x in v if x.strip()]


# -------------------------------------------------------------------- lookup

NORM = {
    'SERVICE_URL': lambda v: v, 'SERVICE_SECURE': yes, 'LOGGING_CONF': lambda v: v, 'POLL_TIMER': lambda v: float(v), 'SERVICE_AUTH_PROVIDER': lambda v: v,
    'IN_APP_INCLUDE': as_items, 'IN_APP_EXCLUDE': lambda v: [x for x in as_items(v) if x != EXEC], 'APP_ROOT': lambda v: v,
}
DEFAULT = {'SERVICE_URL': 'deep:43315', 'SERVICE_SECURE': True, 'LOGGING_CONF': None, 'POLL_TIMER': 10.0, 'SERVICE_AUTH_PROVIDER': None, 'IN_APP_INCLUDE': [], 'IN_APP_EXCLUDE': [], 'APP_ROOT': ''}
ENV = {
    'SERVICE_URL': ['env:1'], 'SERVICE_SECURE': ['False', 'true', 'no', '1'], 'LOGGING_CONF': ['/env/log.conf'], 'POLL_TIMER': ['5', '0.5', '60'], 'SERVICE_AUTH_PROVIDER': ['env.Auth'],
    'IN_APP_INCLUDE': ['/env', '/env,/env2', ' /env , /env2 ', '/env,,'], 'IN_APP_EXCLUDE': ['/env', '/env,/env2', ' /env , /env2 ', ',/env'], 'APP_ROOT': ['/env/root'],
    'MY_KEY': ['env text', '', '0', 'None'], 'my_key': ['lower'], 'SERVICE_USERNAME': ['bob'], 'PLUGIN_X': ['false'], 'x.y': ['dotted'],
}
CODE = {
    'SERVICE_URL': ['code:2', ''], 'SERVICE_SECURE': ['False', False, True, 'True', 0, ''], 'LOGGING_CONF': ['/code/log.conf', ''], 'POLL_TIMER': [7, 7.5, '7', '3'], 'SERVICE_AUTH_PROVIDER': ['code.Auth', ''],
    'IN_APP_INCLUDE': ['/code', '/code,/code2', ['/code'], ['/code', '/code2'], ('/code',), '', []], 'IN_APP_EXCLUDE': ['/code', '/code,/code2', ['/code'], ('/code', '/code2'), '', []], 'APP_ROOT': ['/code/root', ''],
    'MY_KEY': ['text', '', 0, False, 1.5, [], {}, ['a'], ()], 'my_key': ['code'], 'SERVICE_USERNAME': ['alice', ''], 'PLUGIN_X': [False, True, 'no'], 'x.y': ['code'],
}
FUNCS = '''
class Obj:
    def __init__(self, v):
        self.v = v
        self.n = 0

    def method(self):
        self.n += 1
        CALLS.append('method')
        return self.v

    def __call__(self):
        CALLS.append('call')
        return self.v

    @staticmethod
    def static():
        CALLS.append('static')
        return VALUE[0]

    @classmethod
    def klass(cls):
        CALLS.append('klass')
        return VALUE[0]


CALLS = []
VALUE = [None]


def make(kind, v):
    VALUE[0] = v

    def plain():
        CALLS.append('plain')
        return v

    def optional(x=1, *a, **k):
        CALLS.append('optional')
        return v
    if kind == 'def':
        return plain
    if kind == 'lambda':
        return lambda: (CALLS.append('lambda'), v)[1]
    if kind == 'optional':
        return optional
    if kind == 'method':
        return Obj(v).method
    if kind == 'static':
        return Obj.static
    if kind == 'klass':
        return Obj.klass
    if kind == 'partial':
        import functools
        return functools.partial(optional, 2)
    return Obj(v)
'''
KINDS = ('value', 'def', 'lambda', 'optional', 'method', 'static', 'klass', 'partial', 'object')


def plain(it, v):
    """What a value is, without the containers of the interpreted program."""
    v = it.resolve(v)
    if v is None or isinstance(v, (str, int, float, bool, Fraction)):
        return v
    if isinstance(v, dict):
        return {plain(it, k): plain(it, x) for k, x in v.items()}
    return [plain(it, x) for x in it.iterate(v)]


def lookup(key, kind):
    def fn(it):
        env = ([UNSET] + ENV.get(key, []))[it.choose(len(ENV.get(key, [])) + 1, 'environment')]
        codes = [UNSET, None] + CODE.get(key, []) if kind == 'value' else CODE.get(key, [])
        code = codes[it.choose(len(codes), 'code')]
        it.env.clear()
        if env is not UNSET:
            it.env['DEEP_' + key] = env
        ns = it.load_source('cfgfuncs', FUNCS).ns
        custom = {'OTHER': 'other'}
        if code is not UNSET:
            custom[key] = code if kind == 'value' else it.call(ns['make'], [kind, code], {})
        cfg = it.new(it.public('deep.config', 'ConfigService'), custom)
        n0 = len(ns['CALLS'])
        what = '%s: in code %s%s, environment %s' % (key, 'nothing' if code is UNSET else show(code), '' if kind == 'value' else ' from %s' % kind, 'nothing' if env is UNSET else repr(env))
        for k in range(2):
            got, e = it.attempt(it.get, cfg, key) if '.' not in key else it.attempt(it.getattr, cfg, key)
            it.check(e is None, 'C19.precedence', '%s: raises %s' % (what, exc_name(e) if e else ''), e.site if e else None)
            if kind != 'value' and k == 0:
                it.check(len(ns['CALLS']) > n0, 'C19.functions', '%s: the function is not called' % what)
            if code is not UNSET and code is not None:
                want, rule = code, 'C19.precedence' if kind == 'value' else 'C19.functions'
            elif env is not UNSET:
                want, rule = env, 'C19.precedence'
            else:
                want, rule = DEFAULT.get(key), 'C19.precedence'
            got = it.resolve(got)
            ok = not it.is_callable(got) if hasattr(it, 'is_callable') else True
            it.check(ok, 'C19.functions', '%s: the value is %s' % (what, show(got)))
            if key in NORM:
                try:
                    a, b = (None if got is None else NORM[key](plain(it, got))), (None if want is None else NORM[key](want))
                except (ValueError, TypeError, AttributeError):
                    a, b = plain(it, got), want
                if key == 'LOGGING_CONF' or key == 'SERVICE_AUTH_PROVIDER':
                    a, b = a or None, b or None
                if key.startswith('IN_APP'):
                    a, b = a or [], b or []
                it.check(a == b, rule, '%s: is %s' % (what, show(got)))
            else:
                g = plain(it, got)
                w = list(want) if isinstance(want, tuple) else want
                it.check(type(g) is type(w) and g == w, rule, '%s: is %s' % (what, show(got)))
        # the other keys are their own
        it.check(it.resolve(it.get(cfg, 'OTHER')) == 'other', 'C19.precedence', '%s: another key is %s' % (what, show(it.get(cfg, 'OTHER'))))
        it.check(it.resolve(it.get(cfg, 'NOT_THERE')) is None, 'C19.precedence', '%s: an unknown key is %s' % (what, show(it.get(cfg, 'NOT_THERE'))))
        it.witness.add('lookup')
    return fn


def own(it):
    """A config without values in code."""
    cls = it.public('deep.config', 'ConfigService')
    for args in ([], [None], [{}]):
        it.env.clear()
        cfg = it.call(cls, args, {})
        it.check(it.resolve(it.get(cfg, 'NOT_THERE')) is None, 'C19.precedence', 'an unknown key is %s' % show(it.get(cfg, 'NOT_THERE')))
        it.env['DEEP_NOT_THERE'] = 'x'
        it.check(it.resolve(it.get(cfg, 'NOT_THERE')) == 'x', 'C19.precedence', 'an unknown key of the environment is %s' % show(it.get(cfg, 'NOT_THERE')))
        it.check(it.resolve(it.get(cfg, 'SERVICE_URL')) == 'deep:43315', 'C19.precedence', 'the default url is %s' % show(it.get(cfg, 'SERVICE_URL')))
    it.env.clear()
    # two configs do not share
    a, b = it.call(cls, [{'K': 1}], {}), it.call(cls, [{'K': 2}], {})
    it.check((it.resolve(it.get(a, 'K')), it.resolve(it.get(b, 'K'))) == (1, 2), 'C19.precedence', 'two configs share their values')


# -------------------------------------------------------------------- the agent

class Agent(Rig):
    """deep.start with these settings."""

    def __init__(self, it, settings, source, caller='/app/src/main.py'):
        self.it, self.requests, self.next = it, [], None
        it.missing_modules.update({'opentelemetry', 'prometheus_client'})
        it.env.clear()
        it.callers = [(caller, 'main'), ('/elsewhere/deep/dir/run.py', '<module>')]
        ns = it.load_source('cfgfuncs', FUNCS).ns
        custom = {}
        for n, (k, v) in enumerate(settings.items()):
            s = source if source != 'mixed' else ('code', 'env', 'def')[n % 3]
            if s == 'env':
                it.env['DEEP_' + k] = v
            elif s == 'code':
                custom[k] = v
            elif s == 'both':
                custom[k] = v
                it.env['DEEP_' + k] = 'junk'
            else:
                custom[k] = it.call(ns['make'], [s, v], {})
        at_time(it, T0)
        it.boundary_hook = self.hook
        it.eval_hook = lambda i, name, expr, g, lo, scope: True
        self.n0 = len(it.events)
        self.deep, self.exc = it.attempt(it.call, it.public('deep', 'start'), [custom] if custom or source == 'code' else [], {})
        if self.exc is None:
            self.config = it.get(self.deep, 'config')
            self.hd = it.get(self.deep, 'trigger_handler')
            self.tasks = it.get(self.deep, 'task_handler')

    polls = None

    def hook(self, i, kind, args, kw):
        if kind == 'poll':
            self.requests.append(args)
            if self.polls is not None:
                self.polls.append(i.wall)
            return self.next if self.next is not None else self.no_change()
        return None

    def of(self, kind, prefix=''):
        return [e for e in self.it.events[self.n0:] if e.kind == kind and e.name.startswith(prefix)]

    def frames(self, files, rule):
        """{file: (app_frame, short_path)} of a snapshot with these frames on the stack."""
        it = self.it
        e = self.poll(self.update([self.tp('t1', {'fire_count': '-1', 'fire_period': '0'})]))
        it.check(e is None, rule, 'the poll raises %s' % (exc_name(e) if e else ''), e.site if e else None)
        self.settle()
        self.next = None
        hook = it.hooks.get(('sys', 'main'))
        if hook is None:
            raise Undecided('no trace function is set', '?')
        back = None
        for k, p in enumerate(reversed(files)):
            back = it.frame('b%d' % k, filename=p, name='outer%d' % k, line=3, first=1, lines=[1, 2, 3], back=back)
        f = it.frame('f', filename='/app/src/target.py', name='func', line=9, first=9, lines=[9, 10, 11, 12], flocals={'x': 1}, back=back)
        n0 = len(it.events)
        pr = Prog(it, hook, thread='main')
        pr.call(f, 9)
        pr.line(f, 10)
        pr.ret(f, None, 11)
        self.settle()
        sent = [x for x in it.events[n0:] if x.kind == 'boundary' and x.name == 'send']
        it.check(len(sent) == 1, rule, '%d snapshots are sent' % len(sent))
        out = {}
        got = [it.resolve(x) for x in it.iterate(it.getattr(sent[0].args[0], 'frames'))]
        it.check(len(got) == len(files) + 1, rule, '%d frames of %d' % (len(got), len(files) + 1))
        for p, m in zip(['/app/src/target.py'] + list(files), got):
            it.check(it.resolve(it.getattr(m, 'file_name')) == p, rule, 'the file of a frame is %s, not %s' % (show(it.getattr(m, 'file_name')), p))
            out[p] = (it.resolve(it.getattr(m, 'app_frame')), it.resolve(it.getattr(m, 'short_path')))
        return out


def started(a, what, rule='C19.environment'):
    a.it.check(a.exc is None, rule, '%s: start raises %s' % (what, exc_name(a.exc) if a.exc else ''), a.exc.site if a.exc else None)


SOURCES = ('code', 'env', 'def', 'both')


def secure(v, want, source):
    def fn(it):
        a = Agent(it, {'SERVICE_URL': 'host:99', 'SERVICE_SECURE': v}, source)
        what = 'SERVICE_SECURE %r from %s' % (v, source)
        started(a, what)
        ch = a.of('grpc')
        it.check(len(ch) >= 1 and all(e.name == ('secure_channel' if want else 'insecure_channel') for e in ch), 'C19.environment', '%s: the channel is %s' % (what, [e.name for e in ch]))
        it.check(all(it.resolve(e.args[0]) == 'host:99' for e in ch), 'C19.environment', '%s: the channel is to %s' % (what, [show(e.args[0]) for e in ch]))
    return fn


def logging_conf(source):
    def fn(it):
        a = Agent(it, {'LOGGING_CONF': '/my/log.conf'}, source)
        started(a, 'LOGGING_CONF from %s' % source)
        ev = a.of('effect', 'logging.fileConfig')
        it.check(len(ev) == 1 and it.resolve(ev[0].args[0]) == '/my/log.conf', 'C19.environment', 'LOGGING_CONF from %s: the log configuration is loaded from %s' % (source, [show(e.args[0]) for e in ev]))
    return fn


def basic_auth(source, user, pw):
    def fn(it):
        a = Agent(it, {'SERVICE_AUTH_PROVIDER': 'deep.api.auth.BasicAuthProvider', 'SERVICE_USERNAME': user, 'SERVICE_PASSWORD': pw}, source)
        what = 'auth from %s' % source
        started(a, what)
        import base64
        want = base64.b64encode(('%s:%s' % (user, pw)).encode()).decode()
        it.check(len(a.requests) == 1, 'C19.environment', '%s: %d polls' % (what, len(a.requests)))
        md = it.resolve(a.requests[0][1])
        md = [] if md is None else [[it.resolve(y) for y in it.iterate(x)] for x in it.iterate(md)]
        it.check(len(md) == 1 and md[0][0] == 'authorization' and want in str(md[0][1]), 'C19.environment', '%s: the metadata is %s' % (what, md))
    return fn


TIMERS = [(5, 5), ('5', 5), (0.5, 0.5), ('0.5', 0.5), (60, 60), ('60', 60), (' 20 ', 20), ('1e1', 10), (2.5, 2.5), ('2.5', 2.5), ('3600', 3600), (1, 1), ('1', 1)]
BAD_TIMERS = ['', 'abc', '0', '-5', 'nan', '5s', 'None', '0x10']


def timer(v, want, source, late=0, fails=False):
    """The polls of the timer: at each multiple of the interval since the start."""
    def fn(it):
        settings = {'SERVICE_URL': 'h:1'}
        if v is not UNSET:
            settings['POLL_TIMER'] = v
        a = Agent(it, settings, source)
        what = 'POLL_TIMER %s from %s' % ('unset' if v is UNSET else repr(v), source)
        started(a, what, 'C19.poll-timer')
        it.check(len(it.spawned) >= 1, 'C19.poll-timer', '%s: no poll thread is started' % what)
        polls = a.polls = []
        waits = []

        def wait(i, ev, timeout=None):
            t = it.resolve(timeout)
            if isinstance(t, (int, float, Fraction)) and t == t and abs(t) != float('inf') and not isinstance(t, bool):
                waits.append(Fraction(t))
            else:
                waits.append(t)
                i.setattr(ev, '_flag', True)
                return True
            if len(waits) > 4:
                i.setattr(ev, '_flag', True)
                return True
            if waits[-1] < 0:
                return False
            at_time(it, it.wall + int(round(waits[-1] * 10 ** 9)))
            return False
        it.wait_hook = wait
        if fails:
            def hook(i, kind, args, kw):
                if kind == 'poll':
                    polls.append(i.wall)
                    raise PyExc(RuntimeError('unavailable'), i.site())
            it.boundary_hook = hook
        old, it.thread = it.thread, 'poll'
        at_time(it, T0 + int(late * 10 ** 9))
        _, e = it.attempt(it.m, it.spawned[0], 'run')
        it.thread = old
        it.check(e is None, 'C19.poll-timer', '%s: the poll thread ends with %s' % (what, exc_name(e) if e else ''), e.site if e else None)
        it.check(all(isinstance(w, Fraction) and w > 0 for w in waits), 'C19.poll-timer', '%s: the timer waits %s' % (what, [show(w) for w in waits]))
        it.check(len(polls) >= 4, 'C19.poll-timer', '%s: %d polls for 4 waits' % (what, len(polls)))
        if want is None:
            return
        gaps = [Fraction(y - x, 10 ** 9) for x, y in zip(polls, polls[1:])]
        it.check(all(abs(g - Fraction(want)) < Fraction(want) / 100 for g in gaps), 'C19.poll-timer', '%s: the time between the polls is %s' % (what, [float(g) for g in gaps]))
        it.check(Fraction(polls[0] - T0, 10 ** 9) <= Fraction(want) + Fraction(late) + Fraction(1, 100), 'C19.poll-timer', '%s: the first poll is %s s after the start' % (what, float(Fraction(polls[0] - T0, 10 ** 9))))
    return fn


# -------------------------------------------------------------------- frames

FILES = ['/app/src/main.py', '/app/src/lib/x.py', '/app/vendor/v.py', '/app/top.py', '/other/app/src/x.py', '/srv/pkg/a.py', '/srv/pkg/private/b.py', '/srv/ü/a.py', '/opt/python/lib/os.py', '/opt/python/site/pkg/a.py', '<string>', '<frozen importlib._bootstrap>',
         'relative/app.py', '/lib/z.py', '/app/opt/python/x.py', '/SRV/PKG/a.py', '/srv/pkg/srv/pkg/c.py']
INCLUDES = [None, '/srv/pkg', '/srv/pkg,/lib', '/srv/pkg/private,/srv/pkg', '/srv/pkg,/srv/pkg/private', '/opt/python/site', '/app/src/lib', '<string>,relative', '/srv/ü']
EXCLUDES = [None, '/app/vendor', '/srv/pkg/private', '/srv,/app/vendor', '/app', '/lib', '/app/src/lib,/app/src', '<frozen', '/srv/pkg,/opt/python/site']
ROOTS = ['/app', '/app/src', '/nowhere', '/srv', '/app/', '/srv/pkg/']


def reference(path, root, include, exclude):
    """(is an application frame, the possible short paths)"""
    ex = [p for p in as_items(exclude) + [EXEC] if path.startswith(p)]
    if ex:
        return False, {path[len(p):] for p in ex}
    inc = [p for p in as_items(include) + [root] if path.startswith(p)]
    if inc:
        return True, {path[len(p):] for p in inc}
    return False, {path}


def shapes(v, shape):
    """The value of the setting for this source."""
    if v is None:
        return UNSET
    if shape == 'list':
        return v.split(',')
    if shape == 'tuple':
        return tuple(v.split(','))
    if shape == 'spaces':
        return ' ' + v.replace(',', ' , ') + ' '
    if shape == 'commas':
        return v.replace(',', ',,') + ','
    return v


def classify(root, source, shape, includes=INCLUDES, excludes=EXCLUDES):
    def fn(it):
        inc = includes[it.choose(len(includes), 'include')]
        exc = excludes[it.choose(len(excludes), 'exclude')]
        settings = {'APP_ROOT': root}
        for k, v in (('IN_APP_INCLUDE', inc), ('IN_APP_EXCLUDE', exc)):
            if shapes(v, shape) is not UNSET:
                settings[k] = shapes(v, shape)
        what = 'root %s, include %s, exclude %s (%s, %s)' % (root, inc, exc, source, shape)
        a = Agent(it, settings, source)
        started(a, what)
        got = a.frames(FILES, 'C19.app-frame')
        for p in FILES:
            app, short = got[p]
            want, shorts = reference(p, root, inc, exc)
            it.check(app is want, 'C19.app-frame', '%s: %s is %san application frame' % (what, p, '' if app else 'not '))
            it.check(short in shorts, 'C19.short-path', '%s: the short path of %s is %s, expected %s' % (what, p, show(short), ' or '.join(sorted(shorts))))
            # asked directly
            r = it.m(a.config, 'is_app_frame', p)
            d = [it.resolve(x) for x in it.iterate(r)]
            it.check(d[0] is want, 'C19.app-frame', '%s: is_app_frame of %s is %s' % (what, p, show(d[0])))
    return fn


def any_path(root, inc, exc, source):
    """A path of which nothing is known but what the checks ask."""
    def fn(it):
        settings = {'APP_ROOT': root}
        for k, v in (('IN_APP_INCLUDE', inc), ('IN_APP_EXCLUDE', exc)):
            if v is not None:
                settings[k] = v
        a = Agent(it, settings, source)
        started(a, 'start')
        p = it.strsym('path')
        r = it.m(a.config, 'is_app_frame', p)
        app, match = [it.resolve(x) for x in it.iterate(r)]

        def under(x):
            v, e = it.attempt(it.call, it.getattr(p, 'startswith'), [x], {})
            return it.truth(v)
        ex = [x for x in as_items(exc) + [EXEC] if under(x)]
        inn = [x for x in as_items(inc) + [root] if under(x)]
        want = not ex and bool(inn)
        it.check(app is want, 'C19.app-frame', 'a path that is under %s: is_app_frame is %s' % (ex + inn, show(app)))
        it.check(match in (ex or inn or [None]), 'C19.short-path', 'a path that is under %s: the matched prefix is %s' % (ex + inn, show(match)))
    return fn


def derived(caller, conf_root, env_root):
    """APP_ROOT of deep.start."""
    def fn(it):
        it.env.clear()
        settings = {'SERVICE_URL': 'h:1'}
        if conf_root is not UNSET:
            settings['APP_ROOT'] = conf_root
        a = Agent.__new__(Agent)
        a.it, a.requests, a.next = it, [], None
        it.missing_modules.update({'opentelemetry', 'prometheus_client'})
        it.callers = [(caller, 'main'), ('/elsewhere/deep/dir/run.py', '<module>')]
        if env_root is not UNSET:
            it.env['DEEP_APP_ROOT'] = env_root
        at_time(it, T0)
        it.boundary_hook = a.hook
        it.eval_hook = lambda i, name, expr, g, lo, scope: True
        given = dict(settings)
        a.deep, a.exc = it.attempt(it.call, it.public('deep', 'start'), [given], {})
        started(a, 'start')
        a.config = it.get(a.deep, 'config')
        root = it.resolve(it.get(a.config, 'APP_ROOT'))
        what = 'caller %s, in code %s, environment %s' % (caller, 'nothing' if conf_root is UNSET else conf_root, 'nothing' if env_root is UNSET else repr(env_root))
        if conf_root is not UNSET:
            it.check(root == conf_root, 'C19.precedence', '%s: the root is %s' % (what, show(root)))
        elif env_root is not UNSET and env_root:
            it.check(root == env_root, 'C19.environment', '%s: the root is %s' % (what, show(root)))
        else:
            import os
            d = os.path.dirname(caller)
            it.check(root in (d, os.path.dirname(d)), 'C19.app-root', '%s: the root is %s' % (what, show(root)))
            app = it.resolve(list(it.iterate(it.m(a.config, 'is_app_frame', caller)))[0])
            it.check(app is True, 'C19.app-root', '%s: the file of the caller is not an application frame' % what)
            app = it.resolve(list(it.iterate(it.m(a.config, 'is_app_frame', '/elsewhere/deep/dir/run.py')))[0])
            it.check(app is '/elsewhere/deep/dir/run.py'.startswith(root), 'C19.app-root', '%s: any file is an application frame' % what)
    return fn


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for k in list(CODE) + ['UNKNOWN']:
        for kind in KINDS if k in CODE else ('value',):
            out.append(S('lookup/%s-%s' % (k, kind), lookup(k, kind), max_paths=200))
    out.append(S('lookup/own', own))
    for v, want in ((False, False), (True, True), ('False', False), ('True', True), ('false', False), ('true', True), ('TRUE', True), ('0', False), ('1', True), ('no', False), ('yes', True), (0, False), (1, True)):
        for s in SOURCES:
            if s != 'env' or isinstance(v, str):
                out.append(S('secure/%s-%s-%s' % (type(v).__name__, v, s), secure(v, want, s)))
    for s in SOURCES + ('lambda', 'object', 'mixed'):
        out.append(S('logging/%s' % s, logging_conf(s)))
        for u, p in (('bob', 'secret'), ('ü', 'p:w'), ('bob', '')):
            if s != 'both' or True:
                out.append(S('auth/%s-%s' % (s, u + p), basic_auth(s, u, p)))
    for v, want in TIMERS:
        for s in SOURCES:
            if s != 'env' or isinstance(v, str):
                out.append(S('timer/%s-%s-%s' % (type(v).__name__, v, s), timer(v, want, s)))
    for late in (0, 1, 4, 7):
        for v in (5, '5'):
            out.append(S('timer/late-%s-%s-%s' % (late, type(v).__name__, v), timer(v, 5, 'env' if isinstance(v, str) else 'code', late)))
    out += [S('timer/unset-%s' % s, timer(UNSET, 10, s)) for s in ('code', 'env')]
    for s in ('code', 'env', 'def'):
        out.append(S('timer/failing-%s' % s, timer('5', 5, s, fails=True)))
        out += [S('timer/bad-%s-%s' % (v, s), timer(v, None, s)) for v in BAD_TIMERS]
    for r in ROOTS:
        for s, sh in (('code', 'text'), ('env', 'text'), ('code', 'list'), ('def', 'list')) if r in ('/app', '/srv') or not quick else (('code', 'list'), ('env', 'text')):
            n = None if r == '/app' or not quick else 5
            out.append(S('frames/%s-%s-%s' % (r, s, sh), classify(r, s, sh, INCLUDES[:n], EXCLUDES[:n]), max_paths=100, max_time=25))
    for s, sh in (('code', 'spaces'), ('env', 'spaces'), ('code', 'commas'), ('env', 'commas'), ('code', 'tuple'), ('def', 'text'), ('lambda', 'tuple'), ('mixed', 'text')):
        out.append(S('frames/shape-%s-%s' % (s, sh), classify('/app/src', s, sh, INCLUDES[:5], EXCLUDES[:4]), max_paths=100, max_time=25))
    for r, i, e in (('/app', None, None), ('/app', '/srv', '/app/vendor'), ('/app', '/srv,/lib', '/srv/private,/x'), ('/x', '/opt/python/site', None)):
        for s in ('code', 'env'):
            out.append(S('any/%s-%s-%s-%s' % (r, i, e, s), any_path(r, i, e, s), max_paths=300))
    for c in ('/srv/app/src/main.py', '/srv/main.py', '/a/b/c/d/e.py'):
        for conf in (UNSET, '/conf/root', ''):
            for env in (UNSET, '/env/root', ''):
                out.append(S('root/%s-%s-%s' % (c, 'unset' if conf is UNSET else conf, 'unset' if env is UNSET else env), derived(c, conf, env)))
    return out
