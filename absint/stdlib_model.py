"""Models of the parts of the standard library that are not interpreted from a stub, and the primitives
(`_absint`) the stubs are written with."""
import ast
import collections
import itertools
import os.path
import posixpath
import urllib.parse
from fractions import Fraction

from values import *          # noqa: F401,F403
from interp import (MISSING, SCALARS, CONTAINERS, LRU, DefDict, DView, GenObj, STDLIB_EXC)

EXEC_PREFIX = '/opt/python'
CO = {'CO_OPTIMIZED': 1, 'CO_NEWLOCALS': 2, 'CO_VARARGS': 4, 'CO_VARKEYWORDS': 8, 'CO_NESTED': 16, 'CO_GENERATOR': 32,
      'CO_NOFREE': 64, 'CO_COROUTINE': 128, 'CO_ITERABLE_COROUTINE': 256, 'CO_ASYNC_GENERATOR': 512}


def is_const(v):
    if isinstance(v, SCALARS):
        return True
    if isinstance(v, (list, tuple)):
        return all(is_const(x) for x in v)
    if isinstance(v, dict):
        return all(is_const(k) and is_const(x) for k, x in v.items())
    return False


def arg(a, k, n, name, default=None):
    return a[n] if len(a) > n else k.get(name, default)


# ------------------------------------------------------------------ locks and threads

def lock_acquire(i, a, k):
    """lock_acquire(lock, reentrant, blocking, timeout) -> bool"""
    lock, reentrant = a[0], a[1]
    blocking = i.resolve(a[2]) if len(a) > 2 else True
    timeout = i.resolve(a[3]) if len(a) > 3 else -1
    waits = blocking is True and (timeout == -1 or timeout is None)
    mine = i.locks_held.setdefault(i.thread, [])
    if i.on_lock is not None:
        i.on_lock('acquire', lock)
    for t, held in i.locks_held.items():
        if t != i.thread and lock in held:
            if not waits:
                return False
            i.blocked(lock, t)
    if lock in mine and not reentrant:
        if not waits:
            return False
        raise Finding('deadlock', 'a thread acquires a lock that it already holds', i.site())
    mine.append(lock)
    i.event('lock', 'acquire', lock)
    return True


def lock_release(i, a, k):
    lock = a[0]
    held = i.locks_held.setdefault(i.thread, [])
    if lock not in held:
        i.throw(RuntimeError, 'release unlocked lock')
    for n in range(len(held) - 1, -1, -1):
        if held[n] is lock:
            del held[n]
            break
    i.event('lock', 'release', lock)
    if i.on_lock is not None:
        i.on_lock('release', lock)
    return None


def lock_held(i, a, k):
    return any(a[0] in h for h in i.locks_held.values())


def tls(i, a, k):
    key = (id(a[0]), i.thread)
    d = i.tls.get(key)
    if d is None:
        d = i.tls[key] = {}
        i.tls[('keep', id(a[0]))] = a[0]
    return d


def boundary(i, a, k):
    """boundary(kind, *args): a call that leaves the agent."""
    kind, args = a[0], a[1:]
    i.event('boundary', kind, *args, **{str(x): y for x, y in k.items()})
    if i.can_fault is not None and i.fault is None:
        classes = i.can_fault('boundary', kind)
        if classes:
            n = i.choose(1 + len(classes), 'raise:%s' % kind)
            if n:
                i.fault = ('boundary', kind, classes[n - 1].__name__, i.site(), i.trail())
                raise PyExc(classes[n - 1]('raised by %s' % kind), i.site())
    if i.boundary_hook is not None:
        return i.boundary_hook(i, kind, args, k)
    return None


def on_thread(i, a, k):
    """on_thread(name, fn, *args): run fn as the given thread, while the current one waits for it."""
    name, fn, args = a[0], a[1], a[2:]
    old, oldmode = i.thread, i.wait_mode
    i.thread, i.wait_mode = name, 'join'
    try:
        return i.call(fn, list(args), k)
    finally:
        i.thread, i.wait_mode = old, oldmode


def parse_template(i, a, k):
    """The pieces of a format string, as string.Formatter().parse. An opaque template has 0, 1 or 2 fields, or is malformed."""
    t = i.resolve(a[0])
    import _string
    if isinstance(t, str):
        return [tuple(x) for x in i.native(lambda: list(_string.formatter_parser(t)))]
    key = ('template', vkey(t))
    if key not in i.facts:
        i.facts[key] = i.choose(4, 'template')
    n = i.facts[key]
    if n == 3:
        i.throw(ValueError, "malformed template")
    out = []
    for j in range(n):
        out.append((i.sym('literal', t, j, ty=str), i.sym('field', t, j, ty=str), i.sym('spec', t, j, ty=str), None))
    out.append((i.sym('literal', t, n, ty=str), None, None, None))
    return out


def field_split(i, a, k):
    """first part and attribute/index chain of a field name"""
    import _string
    f = i.resolve(a[0])
    if isinstance(f, str):
        first, rest = i.native(_string.formatter_field_name_split, f)
        return (first, [tuple(x) for x in rest])
    return (f, [])


def host_exception(i, a, k):
    return i.new_exc() if hasattr(i, 'new_exc') else HostError('host')


def m_wait(i, a, k):
    """wait(event, timeout): returned by Event.wait"""
    i.event('wait', 'event', *a)
    if i.wait_hook is not None:
        return i.wait_hook(i, *a)
    return None


# ------------------------------------------------------------------ sys, os, time ...

def settrace(i, a, k, which='sys'):
    i.hooks[(which, i.thread if which == 'sys' else '*')] = a[0]
    i.event('hook', which + '.settrace', a[0])


def gettrace(i, a, k, which='sys'):
    i.event('hook', which + '.gettrace')
    return i.hooks.get((which, i.thread if which == 'sys' else '*'))


def setprofile(i, a, k):
    i.event('hook', 'sys.setprofile', *a)


def mod_time(i):
    m = ExtModule('time')

    def tick(i_, name, ty):
        if i_.wall is not None:
            v = i_.wall
            if name not in ('time', 'time_ns'):
                v = i_.lin_add(v, i_.inp('boot.ns', int), -1)
            if not name.endswith('_ns'):
                v = i_.lin_scale(v, Fraction(1, 10 ** 9), float)
            i_.event('clock', name, v)
            return v
        if i_.now is not None:
            v = i_.inp('now.' + name, ty)
            i_.event('clock', name, v)
            return v
        v = i_.fresh('clock.' + name, ty)
        last = i_.last_time
        i_.last_time = i_.last_time or {}
        if name in i_.last_time:
            d = i_.diff(v, i_.last_time[name])
            i_.assume(d)
        else:
            i_.assume((Fraction(0), {v: Fraction(1)}))
        i_.last_time[name] = v
        del last
        i_.event('clock', name, v)
        return v
    for n, ty in (('time', float), ('monotonic', float), ('perf_counter', float), ('time_ns', int),
                  ('monotonic_ns', int), ('perf_counter_ns', int), ('process_time', float), ('thread_time', float)):
        m.ns[n] = Native('time.' + n, lambda i_, a, k, n=n, ty=ty: tick(i_, n, ty))
    m.ns['sleep'] = Native('time.sleep', lambda i_, a, k: (i_.event('effect', 'sleep', *a), None)[1])
    return m


def mod_sys(i):
    m = ExtModule('sys')
    ns = m.ns
    ns['settrace'] = Native('sys.settrace', settrace)
    ns['gettrace'] = Native('sys.gettrace', gettrace)
    ns['setprofile'] = Native('sys.setprofile', setprofile)
    ns['exec_prefix'] = EXEC_PREFIX
    ns['prefix'] = EXEC_PREFIX
    ns['base_prefix'] = EXEC_PREFIX
    ns['base_exec_prefix'] = EXEC_PREFIX
    ns['maxsize'] = 2 ** 63 - 1
    ns['version_info'] = (3, 12, 3, 'final', 0)
    ns['version'] = '3.12.3'
    ns['platform'] = 'linux'
    ns['byteorder'] = 'little'
    ns['executable'] = '/opt/python/bin/python'
    ns['argv'] = ['app.py']
    ns['path'] = []
    ns['modules'] = {}
    ns['flags'] = Ext('sys.flags')
    ns['float_info'] = Ext('sys.float_info')
    ns['stdout'] = HostVal('sys.stdout', HostClass('TextIO', 'TextIO'))
    ns['stderr'] = HostVal('sys.stderr', HostClass('TextIO', 'TextIO'))
    for s in ('stdout', 'stderr'):
        for meth in ('write', 'flush', 'writelines'):
            ns[s].attrs[meth] = Native('sys.%s.%s' % (s, meth), lambda i_, a, k, s=s, meth=meth: (i_.event('effect', 'sys.%s.%s' % (s, meth), *a), None)[1])

    def exc_info(i_, a, k):
        for f in reversed(i_.stack):
            if f.exc is not None:
                return tuple(i_.exc_triple(f.exc))
        return (None, None, None)

    def exception(i_, a, k):
        return exc_info(i_, a, k)[1]
    ns['exc_info'] = Native('sys.exc_info', exc_info)
    ns['exception'] = Native('sys.exception', exception)

    def getframe(i_, a, k):
        if i_.callers is not None:
            n = i_.resolve(a[0]) if a else 0
            chain = frame_chain(i_)
            if n >= len(chain):
                i_.throw(ValueError, 'call stack is not deep enough')
            return chain[n]
        return HostVal('agent-frame', HostClass('frame', 'frame'))
    ns['_getframe'] = Native('sys._getframe', getframe)
    ns['getrecursionlimit'] = Native('sys.getrecursionlimit', lambda i_, a, k: 1000)
    ns['setrecursionlimit'] = Native('sys.setrecursionlimit', lambda i_, a, k: i_.event('effect', 'setrecursionlimit', *a) and None)
    ns['getsizeof'] = Native('sys.getsizeof', lambda i_, a, k: i_.sym('sizeof', a[0], ty=int))
    ns['getrefcount'] = Native('sys.getrefcount', lambda i_, a, k: i_.sym('refcount', a[0], ty=int))
    ns['intern'] = Native('sys.intern', lambda i_, a, k: a[0])
    ns['exit'] = Native('sys.exit', lambda i_, a, k: i_.throw(SystemExit, *a))
    ns['getdefaultencoding'] = Native('sys.getdefaultencoding', lambda i_, a, k: 'utf-8')
    return m


def env_get(i, a, k):
    key = i.resolve(a[0])
    d = a[1] if len(a) > 1 else k.get('default')
    if not isinstance(key, str):
        kk = i.dict_find(i.env, key)
        v = MISSING if kk is MISSING else i.env[kk]
    else:
        v = i.env.get(key, MISSING)
    if isinstance(v, tuple) and v and v[0] == 'maybe':
        v = i.env[key] = v[1] if i.choose(2, 'env') == 0 else MISSING
    i.event('env', 'get', key)
    return d if v is MISSING else v


def path_fn(name):
    f = getattr(posixpath, name)

    def model(i, a, k):
        a = [i.resolve(x) for x in a]
        if all(isinstance(x, (str, bytes)) for x in a):
            return i.native(f, *a)
        for x in a:
            if isinstance(x, Sym) and x.ty is None:
                x.ty = str
            if not i.is_strish(x) and not isinstance(x, (bytes, RObj)):
                i.throw(TypeError, 'expected str, bytes or os.PathLike object, not %s' % i.type_name(x))
        if name == 'split':
            return (i.sym('dirname', *a, ty=str), i.sym('basename', *a, ty=str))
        if name in ('splitext',):
            return (i.sym('root', *a, ty=str), i.sym('ext', *a, ty=str))
        if name in ('isabs', 'exists', 'isfile', 'isdir'):
            return i.fact((name,) + tuple(a))
        if name == 'basename' and isinstance(a[0], Sym) and a[0].op == 'concat':
            last = a[0].args[-1]
            if isinstance(last, str) and '/' in last:
                return posixpath.basename(last)
            if len(a[0].args) >= 2 and isinstance(a[0].args[-2], str) and a[0].args[-2].endswith('/') and isinstance(
                    last, Sym) and last.meta and 'plain' in last.meta:
                return last
        if name == 'basename' and isinstance(a[0], Sym) and a[0].meta and 'plain' in a[0].meta:
            return a[0]
        if name in ('normpath', 'normcase', 'abspath', 'realpath') and isinstance(a[0], Sym) and a[0].meta and 'normal' in a[0].meta:
            return a[0]
        s = i.sym(name, *a, ty=str)
        return s
    return model


def mod_os(i):
    m = ExtModule('os')
    ns = m.ns
    p = ExtModule('os.path')
    for n in ('basename', 'dirname', 'join', 'split', 'splitext', 'normpath', 'abspath', 'realpath', 'normcase',
              'isabs', 'expanduser', 'exists', 'isfile', 'isdir', 'relpath', 'commonprefix'):
        p.ns[n] = Native('os.path.' + n, path_fn(n))
    p.ns['sep'] = '/'
    ns['path'] = p
    i.modules['os.path'] = p
    ns['sep'] = '/'
    ns['linesep'] = '\n'
    ns['name'] = 'posix'
    ns['altsep'] = None
    ns['pathsep'] = ':'
    ns['getenv'] = Native('os.getenv', env_get)
    ns['getpid'] = Native('os.getpid', lambda i_, a, k: i_.inp('pid', int))
    ns['getcwd'] = Native('os.getcwd', lambda i_, a, k: i_.inp('cwd', str))
    ns['urandom'] = Native('os.urandom', lambda i_, a, k: i_.fresh('urandom', bytes))
    ns['fspath'] = Native('os.fspath', lambda i_, a, k: a[0])
    ns['register_at_fork'] = Native('os.register_at_fork', lambda i_, a, k: None)
    e = RObj(i.modules['_absint'].ns['EnvClass'])
    ns['environ'] = e

    def write(n):
        def f(i_, a, k):
            i_.event('effect', 'os.' + n, *a)
        return Native('os.' + n, f)
    for n in ('putenv', 'unsetenv', 'chdir', 'kill', '_exit', 'abort', 'system', 'umask', 'setuid'):
        ns[n] = write(n)
    return m


def env_method(name):
    def f(i, a, k):
        a = a[1:]
        if name == 'get':
            return env_get(i, a, k)
        if name == '__getitem__':
            v = env_get(i, [a[0], MISSING], {})
            if v is MISSING:
                i.throw(KeyError, a[0])
            return v
        if name == '__contains__':
            return env_get(i, [a[0], MISSING], {}) is not MISSING
        if name in ('copy', 'items', 'keys', 'values', '__iter__'):
            for kk in list(i.env):
                env_get(i, [kk, MISSING], {})
            d = {kk: v for kk, v in i.env.items() if v is not MISSING}
            if name == 'copy':
                return d
            return DView(d, 'keys' if name == '__iter__' else name)
        i.event('effect', 'environ.' + name, *a)
        if name == '__setitem__':
            i.env[a[0]] = a[1]
        if name == 'setdefault':
            v = env_get(i, [a[0], MISSING], {})
            if v is MISSING:
                v = i.env[a[0]] = a[1]
            return v
        if name in ('__delitem__', 'pop'):
            v = env_get(i, [a[0], MISSING], {})
            i.env.pop(a[0], None)
            return v if v is not MISSING else (a[1] if len(a) > 1 else i.throw(KeyError, a[0]))
        return None
    return Native('environ.' + name, f)


# ------------------------------------------------------------------ typing, abc, enum, functools ...

def mark_abstract(i, a, k):
    f = a[0]
    t = f.fget if isinstance(f, RProp) else (f.fn if isinstance(f, (RStatic, RClassMethod)) else f)
    if isinstance(t, RFunc):
        t.attrs['__isabstractmethod__'] = True
    return f


def mod_typing(i):
    m = ExtModule('typing')
    ns = m.ns
    ns['TYPE_CHECKING'] = False
    ns['cast'] = Native('cast', lambda i_, a, k: a[1])
    ns['overload'] = Native('overload', lambda i_, a, k: a[0])
    ns['final'] = Native('final', lambda i_, a, k: a[0])
    ns['no_type_check'] = ns['override'] = ns['runtime_checkable'] = ns['final']
    ns['TypeVar'] = Native('TypeVar', lambda i_, a, k: Ext('typing.TypeVar'))
    ns['NewType'] = Native('NewType', lambda i_, a, k: Native('newtype', lambda i2, b, kk: b[0]))
    ns['get_type_hints'] = Native('get_type_hints', lambda i_, a, k: {})

    def namedtuple_base(i_, a, k):
        return make_namedtuple(i_, a, k)
    ns['NamedTuple'] = Ext('typing.NamedTuple')
    del namedtuple_base
    for n in ('List', 'Dict', 'Tuple', 'Set', 'FrozenSet', 'Type'):
        ns[n] = {'List': list, 'Dict': dict, 'Tuple': tuple, 'Set': set, 'FrozenSet': frozenset, 'Type': type}[n]
    ns['Deque'] = collections.deque
    ns['OrderedDict'] = collections.OrderedDict
    for n in ('MutableMapping', 'Mapping', 'MutableSequence', 'Sequence'):
        ns[n] = i.import_module('collections.abc').ns[n]
    return m


def mod_abc(i):
    m = ExtModule('abc')
    m.ns['ABC'] = Ext('abc.ABC')
    m.ns['ABCMeta'] = Ext('abc.ABCMeta')
    m.ns['abstractmethod'] = Native('abstractmethod', mark_abstract)
    m.ns['abstractproperty'] = Native('abstractproperty', lambda i_, a, k: RProp(mark_abstract(i_, a, k)))
    return m


def mod_collections(i):
    m = ExtModule('collections')
    m.ns['deque'] = collections.deque
    m.ns['OrderedDict'] = collections.OrderedDict
    m.ns['defaultdict'] = DefDict
    m.ns['namedtuple'] = Native('namedtuple', lambda i_, a, k: make_namedtuple(i_, a, k))
    m.ns['Counter'] = Ext('collections.Counter')
    m.ns['UserDict'] = Ext('collections.UserDict')
    return m


def make_namedtuple(i, a, k):
    name, fields = a[0], a[1]
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    fields = [i.resolve(f) for f in i.iterate(fields)]
    src = 'class %s:\n    def __init__(self, %s):\n' % (name, ', '.join(fields))
    src += ''.join('        self.%s = %s\n' % (f, f) for f in fields) or '        pass\n'
    src += '    def __iter__(self):\n        return iter((%s,))\n' % ', '.join('self.%s' % f for f in fields)
    src += '    def __getitem__(self, i):\n        return (%s,)[i]\n' % ', '.join('self.%s' % f for f in fields)
    src += '    def __len__(self):\n        return %d\n' % len(fields)
    src += '    def __eq__(self, o):\n        return tuple(self) == tuple(o)\n'
    src += '    def _asdict(self):\n        return {%s}\n' % ', '.join('%r: self.%s' % (f, f) for f in fields)
    src += ('    def _replace(self, **kw):\n        d = self._asdict()\n        d.update(kw)\n        return %s(**d)\n' % name)
    mod = i.load_source('_nt_' + name, src)
    return mod.ns[name]


def mod_functools(i):
    m = ExtModule('functools')

    def partial(i_, a, k):
        fn, pa, pk = a[0], list(a[1:]), dict(k)

        def call(i2, b, kk):
            kw = dict(pk)
            kw.update(kk)
            return i2.call(fn, pa + list(b), kw)
        return Native('partial', call)

    def wraps(i_, a, k):
        f = a[0]

        def deco(i2, b, kk):
            g = b[0]
            if isinstance(g, RFunc) and isinstance(f, (RFunc, Bound)):
                t = f.fn if isinstance(f, Bound) else f
                g.attrs['__wrapped__'] = f
                if isinstance(t, RFunc):
                    g.attrs['__name__'] = t.name
            return g
        return Native('wraps', deco)

    def lru_cache(i_, a, k):
        if a and isinstance(a[0], (RFunc, RStatic, RClassMethod)):
            return LRU(a[0])
        return Native('lru_cache', lambda i2, b, kk: LRU(b[0]))

    def reduce(i_, a, k):
        xs = list(i_.iterate(a[1]))
        if len(a) > 2:
            acc = a[2]
        else:
            if not xs:
                i_.throw(TypeError, 'reduce() of empty iterable with no initial value')
            acc = xs.pop(0)
        for x in xs:
            acc = i_.call(a[0], [acc, x], {})
        return acc

    def total_ordering(i_, a, k):
        return a[0]

    def cmp_to_key(i_, a, k):
        i_.undecided('cmp_to_key')
    m.ns.update({'partial': Native('partial', partial), 'wraps': Native('wraps', wraps),
                 'update_wrapper': Native('update_wrapper', lambda i_, a, k: a[0]),
                 'lru_cache': Native('lru_cache', lru_cache), 'cache': Native('cache', lru_cache),
                 'reduce': Native('reduce', reduce), 'total_ordering': Native('total_ordering', total_ordering),
                 'cmp_to_key': Native('cmp_to_key', cmp_to_key)})
    m.ns['cached_property'] = i.import_module('_absint_py').ns['cached_property']
    m.ns['singledispatch'] = Ext('functools.singledispatch')
    return m


def mod_itertools(i):
    m = ExtModule('itertools')

    def gen(f):
        return lambda i_, a, k: GenObj(i_, f(i_, a, k))

    def chain(i_, a, k):
        for x in a:
            yield from i_.iterate(x, lazy=True)

    def from_iterable(i_, a, k):
        for x in i_.iterate(a[0], lazy=True):
            yield from i_.iterate(x, lazy=True)

    def islice(i_, a, k):
        src = i_.iterate(a[0], lazy=True)
        b = [i_.resolve(x) for x in a[1:]]
        start, stop, step = (0, b[0], 1) if len(b) == 1 else (b[0] or 0, b[1], (b[2] if len(b) > 2 else 1) or 1)
        if not isinstance(start, int) or not isinstance(step, int):
            i_.undecided('islice')
        # islice does not look at the element behind the last one
        n = 0
        it_ = iter(src)
        while True:
            if stop is not None:
                if isinstance(stop, int):
                    if n >= stop:
                        return
                elif not i_.truth(i_.compare_op(ast.Lt(), n, stop)):
                    return
            try:
                x = next(it_)
            except StopIteration:
                return
            if n >= start and (n - start) % step == 0:
                yield x
            n += 1

    def count(i_, a, k):
        n = a[0] if a else k.get('start', 0)
        st = a[1] if len(a) > 1 else k.get('step', 1)
        for _ in range(500):
            yield n
            n = i_.binop(ast.Add(), n, st)
        i_.undecided('count')

    def takewhile(i_, a, k):
        for x in i_.iterate(a[1], lazy=True):
            if not i_.truth(i_.call(a[0], [x], {})):
                return
            yield x

    def dropwhile(i_, a, k):
        on = False
        for x in i_.iterate(a[1], lazy=True):
            if not on and i_.truth(i_.call(a[0], [x], {})):
                continue
            on = True
            yield x

    def filterfalse(i_, a, k):
        for x in i_.iterate(a[1], lazy=True):
            if not i_.truth(i_.call(a[0], [x], {}) if a[0] is not None else x):
                yield x

    def repeat(i_, a, k):
        n = a[1] if len(a) > 1 else k.get('times', 500)
        for _ in range(n):
            yield a[0]

    def starmap(i_, a, k):
        for x in i_.iterate(a[1], lazy=True):
            yield i_.call(a[0], list(i_.iterate(x)), {})

    def zip_longest(i_, a, k):
        xs = [list(i_.iterate(x)) for x in a]
        yield from itertools.zip_longest(*xs, fillvalue=k.get('fillvalue'))

    def product(i_, a, k):
        yield from itertools.product(*[list(i_.iterate(x)) for x in a])

    def combos(i_, a, k):
        yield from itertools.combinations(list(i_.iterate(a[0])), a[1])

    def tee(i_, a, k):
        xs = list(i_.iterate(a[0]))
        return tuple(GenObj(i_, iter_gen(xs)) for _ in range(a[1] if len(a) > 1 else 2))

    def iter_gen(xs):
        yield from xs
    for n, f in (('chain', chain), ('islice', islice), ('count', count), ('takewhile', takewhile),
                 ('dropwhile', dropwhile), ('filterfalse', filterfalse), ('repeat', repeat), ('starmap', starmap),
                 ('zip_longest', zip_longest), ('product', product), ('combinations', combos)):
        m.ns[n] = Native('itertools.' + n, gen(f))
    m.ns['tee'] = Native('itertools.tee', tee)
    ch = RObj(i.modules['_absint'].ns['CallableClass'])
    ch.native = gen(chain)
    ch.attrs['from_iterable'] = Native('from_iterable', gen(from_iterable))
    m.ns['chain'] = ch
    return m


def mod_operator(i):
    m = ExtModule('operator')
    B = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'floordiv': ast.FloorDiv, 'mod': ast.Mod,
         'or_': ast.BitOr, 'and_': ast.BitAnd, 'xor': ast.BitXor, 'concat': ast.Add}
    for n, t in B.items():
        m.ns[n] = Native(n, lambda i_, a, k, t=t: i_.binop(t(), a[0], a[1]))
    for n, t in {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}.items():
        m.ns[n] = Native(n, lambda i_, a, k, t=t: i_.compare_op(t, a[0], a[1]))
    m.ns['eq'] = Native('eq', lambda i_, a, k: i_.rich_eq(a[0], a[1]))
    m.ns['ne'] = Native('ne', lambda i_, a, k: not i_.truth(i_.rich_eq(a[0], a[1])))
    m.ns['not_'] = Native('not_', lambda i_, a, k: not i_.truth(a[0]))
    m.ns['truth'] = Native('truth', lambda i_, a, k: i_.truth(a[0]))
    m.ns['is_'] = Native('is_', lambda i_, a, k: i_.identical(a[0], a[1]))
    m.ns['is_not'] = Native('is_not', lambda i_, a, k: not i_.identical(a[0], a[1]))
    m.ns['contains'] = Native('contains', lambda i_, a, k: i_.contains(a[0], a[1]))
    m.ns['getitem'] = Native('getitem', lambda i_, a, k: i_.getitem(a[0], a[1]))
    m.ns['itemgetter'] = Native('itemgetter', lambda i_, a, k: Native(
        'itemgetter', lambda i2, b, kk: i2.getitem(b[0], a[0]) if len(a) == 1 else tuple(i2.getitem(b[0], x) for x in a)))

    def deep(i2, o, path):
        for p in path.split('.'):
            o = i2.getattr(o, p)
        return o
    m.ns['attrgetter'] = Native('attrgetter', lambda i_, a, k: Native(
        'attrgetter', lambda i2, b, kk: deep(i2, b[0], a[0]) if len(a) == 1 else tuple(deep(i2, b[0], x) for x in a)))
    m.ns['methodcaller'] = Native('methodcaller', lambda i_, a, k: Native(
        'methodcaller', lambda i2, b, kk: i2.call_method(b[0], a[0], list(a[1:]), k)))
    return m


def clone(i, v, deep, memo=None):
    v = i.resolve(v)
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    d = (lambda x: clone(i, x, True, memo)) if deep else (lambda x: x)
    if isinstance(v, DefDict):
        r = DefDict()
        r.factory = v.factory
        memo[id(v)] = r
        r.update({k: d(x) for k, x in v.items()})
        return r
    if isinstance(v, dict):
        r = memo[id(v)] = type(v)()
        for k, x in v.items():
            r[k] = d(x)
        return r
    if isinstance(v, (list, collections.deque)):
        r = memo[id(v)] = type(v)()
        for x in v:
            r.append(d(x))
        return r
    if isinstance(v, tuple):
        return tuple(d(x) for x in v)
    if isinstance(v, OSet):
        return OSet([d(x) for x in v], v.frozen)
    if isinstance(v, RObj):
        for n in ('__deepcopy__',) if deep else ('__copy__',):
            if i.find_cls_attr(v.cls, n) is not MISSING:
                return i.call_method(v, n, [{}] if deep else [])
        if v.cls.is_enum:
            return v
        if any('lock' in c.name.lower() for c in v.cls.mro if isinstance(c, RClass)):
            i.throw(TypeError, 'cannot pickle lock')
        r = memo[id(v)] = i.new_obj(v.cls)
        for k, x in v.attrs.items():
            r.attrs[k] = d(x)
        if v.native is not None:
            r.native = clone(i, v.native, deep, memo)
        return r
    if isinstance(v, HostVal) and v.cls not in (str, int, float, bool, bytes, type(None)):
        i.foreign('deepcopy' if deep else 'copy', v, memo=True)
        return HostVal('copy(%s)' % v.label, v.cls, clone(i, v.payload, deep, memo) if v.payload is not None else None)
    return v


def mod_copy(i):
    m = ExtModule('copy')
    m.ns['copy'] = Native('copy.copy', lambda i_, a, k: clone(i_, a[0], False))
    m.ns['deepcopy'] = Native('copy.deepcopy', lambda i_, a, k: clone(i_, a[0], True))
    return m


def mod_json(i):
    m = ExtModule('json')

    def dumps(i_, a, k):
        import json
        v = a[0]
        if is_const(v) and not k.get('default'):
            return i_.native(json.dumps, v, **{x: y for x, y in k.items() if x in ('sort_keys', 'indent')})
        return i_.sym('json', repr(i_.freeze(v)), ty=str) if hasattr(i_, 'freeze') else i_.sym('json', show(v), ty=str)
    m.ns['dumps'] = Native('json.dumps', dumps)
    m.ns['JSONDecodeError'] = ValueError
    m.ns['loads'] = Native('json.loads', lambda i_, a, k: i_.native(__import__('json').loads, a[0]) if isinstance(
        i_.resolve(a[0]), str) else i_.sym('json.loads', a[0]))
    return m


def mod_urllib(i):
    m = ExtModule('urllib')
    p = ExtModule('urllib.parse')
    for n in ('unquote', 'quote', 'unquote_plus', 'quote_plus'):
        def f(i_, a, k, n=n):
            v = i_.resolve(a[0])
            if isinstance(v, str):
                return i_.native(getattr(urllib.parse, n), *a, **k)
            return i_.sym(n, v, ty=str)
        p.ns[n] = Native('urllib.parse.' + n, f)
    m.ns['parse'] = p
    i.modules['urllib.parse'] = p
    return m


def mod_urllib_parse(i):
    i.import_module('urllib')
    return i.modules['urllib.parse']


def mod_base64(i):
    m = ExtModule('base64')
    import base64

    def f(n):
        def model(i_, a, k):
            v = i_.resolve(a[0])
            if isinstance(v, bytes):
                return i_.native(getattr(base64, n), v)
            if not (isinstance(v, Sym) and v.ty in (bytes, None)):
                i_.throw(TypeError, 'a bytes-like object is required')
            return i_.sym(n, v, ty=bytes)
        return Native('base64.' + n, model)
    for n in ('b64encode', 'b64decode', 'urlsafe_b64encode', 'standard_b64encode'):
        m.ns[n] = f(n)
    return m


def mod_platform(i):
    m = ExtModule('platform')
    for n in ('python_version', 'node', 'system', 'machine', 'platform', 'release', 'python_implementation'):
        m.ns[n] = Native('platform.' + n, lambda i_, a, k, n=n: i_.inp('platform.' + n, str))
    return m


FRAME_INFO = '''
class FrameInfo:
    def __init__(self, frame, filename, lineno, function, code_context, index):
        self._all = (frame, filename, lineno, function, code_context, index)
        self.frame, self.filename, self.lineno, self.function, self.code_context, self.index = self._all

    def __getitem__(self, n):
        return self._all[n]

    def __iter__(self):
        return iter(self._all)
'''


def frame_chain(i):
    """The frames of the interpreted functions, innermost first, and of those that called them: (file name, function name)."""
    rows = [(fr.module.path, fr.func.name if fr.func else '<module>', fr.line) for fr in reversed(i.stack) if fr.func is not None]
    rows += [(c[0], c[1], 1) for c in i.callers]
    out, back = [], None
    for path, name, line in reversed(rows):
        code = HostVal('code:%s' % name, HostClass('code', 'code', (object,), {'default-bool'}), None, {'co_filename': path, 'co_name': name, 'co_qualname': name, 'co_firstlineno': 1}, {'closed', 'types.CodeType'})
        back = HostVal('frame:%s' % name, HostClass('frame', 'frame', (object,), {'default-bool'}), None, {
            'f_code': code, 'f_lineno': line, 'f_back': back, 'f_globals': {'__file__': path, '__name__': name}}, {'closed', 'types.FrameType'})
        out.append(back)
    return out[::-1]


def mod_inspect(i):
    m = ExtModule('inspect')
    m.ns.update(CO)
    m.ns['CORO_SUSPENDED'] = 'CORO_SUSPENDED'

    def stack(i_, a, k):
        if i_.callers is not None:
            ns = i_.load_source('_frameinfo', FRAME_INFO).ns
            return [i_.call(ns['FrameInfo'], [f, f.attrs['f_code'].attrs['co_filename'], f.attrs['f_lineno'], f.attrs['f_code'].attrs['co_name'], None, None], {})
                    for f in frame_chain(i_)]
        return [(HostVal('agent-frame', HostClass('frame', 'frame')), i_.inp('stack.file', str), i_.inp('stack.line', int),
                 i_.inp('stack.fn', str), None, None)]
    m.ns['stack'] = Native('inspect.stack', stack)
    m.ns['currentframe'] = Native('inspect.currentframe', lambda i_, a, k: i_.import_module('sys').ns['_getframe'].fn(i_, [], {}))

    def outer(i_, a, k):
        out, f = [], i_.resolve(a[0])
        ns = i_.load_source('_frameinfo', FRAME_INFO).ns
        while f is not None:
            c = f.attrs['f_code'].attrs
            out.append(i_.call(ns['FrameInfo'], [f, c['co_filename'], f.attrs['f_lineno'], c['co_name'], None, None], {}))
            f = f.attrs['f_back']
        return out
    m.ns['getouterframes'] = Native('inspect.getouterframes', outer)
    m.ns['isfunction'] = Native('inspect.isfunction', lambda i_, a, k: isinstance(i_.resolve(a[0]), RFunc) or (
        isinstance(i_.resolve(a[0]), Sym) and i_.fact(('isfunction', i_.resolve(a[0])))))
    m.ns['isclass'] = Native('inspect.isclass', lambda i_, a, k: isinstance(i_.resolve(a[0]), (RClass, type, HostClass)) or (
        isinstance(i_.resolve(a[0]), Sym) and not isinstance(i_.resolve(a[0]), HostVal) and i_.fact(('isclass', i_.resolve(a[0])))))
    m.ns['isgenerator'] = Native('inspect.isgenerator', lambda i_, a, k: isinstance(a[0], GenObj) or (isinstance(
        a[0], HostVal) and a[0].cls is i_.known_class('generator')))
    m.ns['ismethod'] = Native('inspect.ismethod', lambda i_, a, k: isinstance(a[0], Bound))
    m.ns['isroutine'] = Native('inspect.isroutine', lambda i_, a, k: isinstance(a[0], (RFunc, Bound, Native)))

    def getattr_static(i_, a, k):
        o = i_.resolve(a[0])
        if isinstance(o, RObj):
            return i_.obj_getattr_default(o, a[1], *a[2:])
        if isinstance(o, HostVal):
            if a[1] in o.attrs and o.attrs[a[1]] is not MISSING:
                return i_.host_getattr(o, a[1])
            if len(a) > 2:
                return a[2]
            i_.throw(AttributeError, a[1])
        return i_.getattr(o, a[1], *a[2:])
    m.ns['getattr_static'] = Native('getattr_static', getattr_static)
    return m


def mod_dis(i):
    m = ExtModule('dis')

    def findlinestarts(i_, a, k):
        code = i_.resolve(a[0])
        if isinstance(code, HostVal) and '@lines' in code.attrs:
            return [(n * 2, ln) for n, ln in enumerate(code.attrs['@lines'])]
        return [(0, i_.sym('line-of', code, ty=int))]
    m.ns['findlinestarts'] = Native('dis.findlinestarts', findlinestarts)
    return m


def mod_importlib(i):
    m = ExtModule('importlib')

    def import_module(i_, a, k):
        n = i_.resolve(a[0])
        if isinstance(n, str):
            if i_.import_hook is not None:
                r = i_.import_hook(i_, n)
                if r is not None:
                    return r
            if not n:
                i_.throw(ValueError, 'Empty module name')
            return i_.import_module(n)
        i_.foreign('import', n)
        if not i_.fact(('importable', n)):
            i_.throw(ModuleNotFoundError, 'No module')
        return i_.sym('module', n)
    m.ns['import_module'] = Native('importlib.import_module', import_module)
    m.ns['util'] = ExtModule('importlib.util')

    def find_spec(i_, a, k):
        n = i_.resolve(a[0])
        if isinstance(n, str):
            if n in i_.missing_modules:
                return None
            return Ext('spec')
        return i_.sym('spec', n)
    m.ns['util'].ns['find_spec'] = Native('find_spec', find_spec)
    i.modules['importlib.util'] = m.ns['util']
    return m


def mod_traceback(i):
    m = ExtModule('traceback')
    for n in ('format_exc', 'format_exception', 'format_stack', 'format_tb', 'extract_stack'):
        m.ns[n] = Native('traceback.' + n, lambda i_, a, k, n=n: i_.fresh('traceback.' + n, str))
    for n in ('print_exc', 'print_exception', 'print_stack'):
        m.ns[n] = Native('traceback.' + n, lambda i_, a, k, n=n: (i_.event('effect', 'print', *a), None)[1])
    return m


def mod_types(i):
    m = ExtModule('types')
    for n in ('FrameType', 'CodeType', 'FunctionType', 'MethodType', 'GeneratorType', 'TracebackType', 'CoroutineType',
              'AsyncGeneratorType', 'BuiltinFunctionType', 'MappingProxyType', 'LambdaType'):
        m.ns[n] = Ext('types.' + n)
    for n, c in (('GeneratorType', 'generator'), ('FunctionType', 'function'), ('LambdaType', 'function'), ('TracebackType', 'traceback'),
                 ('CoroutineType', 'coroutine'), ('AsyncGeneratorType', 'async_generator'), ('BuiltinFunctionType', 'builtin_function_or_method')):
        m.ns[n] = i.known_class(c)
    m.ns['SimpleNamespace'] = i.import_module('_absint_py').ns['SimpleNamespace']
    m.ns['MethodType'] = Native('types.MethodType', lambda i_, a, k: Bound(a[1], a[0]))
    m.ns['MappingProxyType'] = Native('types.MappingProxyType', lambda i_, a, k: a[0])
    m.ns['ModuleType'] = type(os)
    m.ns['NoneType'] = type(None)
    return m


def mod_signal(i):
    m = ExtModule('signal')
    for n in ('signal', 'alarm', 'setitimer', 'raise_signal'):
        m.ns[n] = Native('signal.' + n, lambda i_, a, k, n=n: (i_.event('effect', 'signal.' + n, *a), None)[1])
    m.ns['SIGINT'] = 2
    m.ns['SIGTERM'] = 15
    return m


def mod_gc(i):
    m = ExtModule('gc')
    for n in ('collect', 'disable', 'enable', 'freeze'):
        m.ns[n] = Native('gc.' + n, lambda i_, a, k, n=n: (i_.event('effect', 'gc.' + n, *a), None)[1])
    return m


def mod_atexit(i):
    m = ExtModule('atexit')
    m.ns['register'] = Native('atexit.register', lambda i_, a, k: (i_.event('atexit', 'register', *a), a[0])[1])
    m.ns['unregister'] = Native('atexit.unregister', lambda i_, a, k: None)
    return m


def mod_warnings(i):
    m = ExtModule('warnings')
    m.ns['warn'] = Native('warnings.warn', lambda i_, a, k: (i_.event('effect', 'warnings.warn', *a), None)[1])
    m.ns['filterwarnings'] = Native('warnings.filterwarnings', lambda i_, a, k: (i_.event('effect', 'warnings.filter', *a), None)[1])
    return m


def mod_math(i):
    import math
    m = ExtModule('math')
    for n in ('floor', 'ceil', 'trunc', 'isnan', 'isinf', 'isfinite', 'sqrt', 'fabs'):
        def f(i_, a, k, n=n):
            v = i_.resolve(a[0])
            if isinstance(v, (int, float)):
                return i_.native(getattr(math, n), v)
            if n.startswith('is'):
                return i_.fact((n, v))
            return i_.sym(n, v, ty=int if n in ('floor', 'ceil', 'trunc') else float)
        m.ns[n] = Native('math.' + n, f)
    m.ns['inf'] = math.inf
    m.ns['nan'] = math.nan
    m.ns['pi'] = math.pi
    return m


def mod_absint(i):
    m = ExtModule('_absint')
    ns = m.ns
    N = lambda n, f: ns.__setitem__(n, Native('_absint.' + n, f))     # noqa: E731
    N('lock_acquire', lock_acquire)
    N('lock_release', lock_release)
    N('lock_held', lock_held)
    N('tls', tls)
    N('thread', lambda i_, a, k: i_.thread)
    N('event', lambda i_, a, k: (i_.event(a[0], a[1], *a[2:], **k), None)[1])
    N('boundary', boundary)
    N('on_thread', on_thread)
    N('choose', lambda i_, a, k: i_.choose(a[0], a[1] if len(a) > 1 else 'stub'))
    N('parse_template', parse_template)
    N('field_split', field_split)
    N('wait', m_wait)
    N('settrace', lambda i_, a, k: settrace(i_, a, k, 'threading'))
    N('gettrace', lambda i_, a, k: gettrace(i_, a, k, 'threading'))
    N('add_task', lambda i_, a, k: (i_.tasks.append(a[0]), None)[1])
    N('task_done', lambda i_, a, k: (i_.tasks.remove(a[0]) if a[0] in i_.tasks else None, None)[1])
    N('spawn', lambda i_, a, k: (i_.spawned.append(a[0]), None)[1])
    N('sym', lambda i_, a, k: i_.sym(a[0], *a[1:]))
    N('symstr', lambda i_, a, k: i_.sym(a[0], *a[1:], ty=str))
    N('symint', lambda i_, a, k: i_.sym(a[0], *a[1:], ty=int))
    N('inp', lambda i_, a, k: i_.inp(a[0]))
    N('prune', lambda i_, a, k: prune())
    N('undecided', lambda i_, a, k: i_.undecided(a[0]))
    N('is_opaque', lambda i_, a, k: isinstance(i_.resolve(a[0]), Sym))
    N('is_host', lambda i_, a, k: isinstance(i_.resolve(a[0]), HostVal))
    N('log', log_model)
    N('pb_check', pb_check)

    def rnd(i_, a, k):
        s = i_.fresh(a[0], a[1] if len(a) > 1 else None)
        s.meta = ('distinct', 'utf8')
        return s
    N('rand', rnd)

    def global_rng(i_, a, k):
        i_.event('effect', 'global-rng', *a)
    N('global_rng', global_rng)
    env = RClass('_Environ', [object], {n: env_method(n) for n in (
        'get', '__getitem__', '__contains__', 'copy', 'items', 'keys', 'values', '__iter__', '__setitem__', '__delitem__',
        'setdefault', 'pop', 'update', 'clear', 'popitem')}, None)
    env.mro = [env, object]
    ns['EnvClass'] = env
    cc = RClass('builtin_function', [object], {}, None)
    cc.mro = [cc, object]
    ns['CallableClass'] = cc
    return m


def prune():
    raise Pruned()


def log_model(i, a, k):
    """A call to a logger: name, level, msg, args, exc_info. Formatting can run str() of host objects."""
    name, level, msg, args, kw = a
    i.event('log', name, level, msg, tuple(i.iterate(args)), kw)
    if i.log_hook is not None:
        i.log_hook(i, name, level, msg, args, kw)
    return None


# ------------------------------------------------------------------ protobuf

def pb_check(i, a, k):
    """pb_check(message, field, type, value): what assigning to a protobuf field accepts."""
    msg, field, ty, v = a
    v = i.resolve(v)

    def bad(t=TypeError):
        raise PyExc(t('bad value %s for field %s' % (show(v), field)), i.site())
    if v is None:
        return None
    t = i.type_of(v)
    if ty in ('string',):
        if isinstance(v, bytes):
            try:
                return v.decode('utf-8')
            except UnicodeDecodeError:
                bad(ValueError)
        if isinstance(v, str):
            try:
                v.encode('utf-8')
            except UnicodeEncodeError as e:
                raise PyExc(e, i.site())
            return v
        if isinstance(v, Sym):
            if t is None:
                if not i.isinstance(v, str):
                    bad()
            elif not (isinstance(t, type) and issubclass(t, str)):
                bad()
            from builtins_model import utf8_clean, fail_utf8
            if not utf8_clean(i, v):
                fail_utf8(i, v)
            return v
        bad()
    if ty == 'bytes':
        if isinstance(v, (bytes, bytearray)):
            return v
        if isinstance(v, Sym) and v.ty is bytes:
            return v
        if isinstance(v, Sym) and v.ty is None and i.isinstance(v, bytes):
            return v
        bad()
    if ty == 'bool':
        if isinstance(v, (bool, int)) or (isinstance(v, Sym) and v.ty in (bool, int)):
            return v
        bad()
    if ty == 'double':
        if isinstance(v, (int, float, Fraction)) or (isinstance(v, Sym) and v.ty in (bool, int, float)):
            return v
        bad()
    if ty in ('uint32', 'uint64', 'fixed64', 'int64', 'int32', 'enum'):
        lo, hi = {'uint32': (0, 2 ** 32 - 1), 'uint64': (0, 2 ** 64 - 1), 'fixed64': (0, 2 ** 64 - 1), 'enum': (-2 ** 31, 2 ** 31 - 1),
                  'int64': (-2 ** 63, 2 ** 63 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1)}[ty]
        if isinstance(v, (float, Fraction)):
            bad()
        if isinstance(v, int):
            if not lo <= v <= hi:
                bad(ValueError)
            return v
        if isinstance(v, Sym) and v.ty in (int, bool):
            if isinstance(v, HostVal):
                return v
            # in range, out of range (only if the path allows it, and only below / above what the scenario says)
            if not i.truth(i.compare_op(ast.GtE(), v, lo)):
                bad(ValueError)
            if v.op not in ('in', 'lin') or not (v.meta and 'small' in v.meta):
                if ty in ('int64',) and v.meta and 'bigint' in v.meta and not i.truth(i.compare_op(ast.LtE(), v, hi)):
                    bad(ValueError)
            return v
        if isinstance(v, RObj) and v.cls.is_enum:
            return pb_check(i, [msg, field, ty, v.attrs['_value_']], {})
        bad()
    return v


def mod_collections_abc(i):
    return i.import_module('_collections_abc')


def mod_enum(i):
    m = ExtModule('enum')
    for n in ('Enum', 'IntEnum', 'Flag', 'StrEnum', 'IntFlag'):
        m.ns[n] = Ext('enum.' + n)
    m.ns['auto'] = i.import_module('_absint_py').ns['auto']
    m.ns['unique'] = Native('unique', lambda i_, a, k: a[0])
    return m


def mod_dataclasses(i):
    m = ExtModule('dataclasses')
    py = i.import_module('_absint_py').ns
    m.ns['field'] = py['dc_field']
    m.ns['MISSING'] = py['DC_MISSING']

    def fields_of(c):
        out = {}
        for b in reversed(c.mro):
            if isinstance(b, RClass):
                for n in b.ns.get('__annotations__', {}):
                    out[n] = None
        return list(out)

    def process(i_, c, k):
        names = fields_of(c)
        src = ['class _D:']
        ns = {}
        params = []
        body = []
        for n in names:
            d = i_.find_cls_attr(c, n)
            f = d if isinstance(d, RObj) and d.cls.name == 'dc_field' else None
            if f is not None:
                d = f.attrs['default']
                fac = f.attrs['default_factory']
                if d is py['DC_MISSING']:
                    d = MISSING
                    c.ns.pop(n, None)
                else:
                    c.ns[n] = d
                if fac is not py['DC_MISSING']:
                    ns['_f_' + n] = fac
                    d = py['DC_MISSING']
                    body.append('        self.%s = _f_%s() if %s is _M else %s' % (n, n, n, n))
                else:
                    body.append('        self.%s = %s' % (n, n))
                if f.attrs['init'] is False:
                    if d is not MISSING:
                        ns['_d_' + n] = d
                        body[-1] = body[-1].replace('if %s is _M else %s' % (n, n), '') if fac is not py['DC_MISSING'] else '        self.%s = _d_%s' % (n, n)
                    else:
                        body.pop()
                    continue
            else:
                body.append('        self.%s = %s' % (n, n))
            if d is MISSING:
                params.append(n)
            else:
                ns['_d_' + n] = d
                params.append('%s=_d_%s' % (n, n))
        ns['_M'] = py['DC_MISSING']
        src.append('    def __init__(self, %s):' % ', '.join(params))
        src += body
        if i_.find_cls_attr(c, '__post_init__') is not MISSING:
            src.append('        self.__post_init__()')
        src.append('        pass')
        src.append('    def __eq__(self, o):')
        src.append('        return type(o) is type(self) and [getattr(self, n) for n in _names] == [getattr(o, n) for n in _names]')
        ns['_names'] = names
        mod = RModule('_dc_' + c.name, None, dict(ns, __name__='_dc', __package__='_dc'))
        from interp import Env, Fr
        env = Env(None, 'module')
        env.vars = mod.ns
        fr = Fr(env, mod, None, None)
        i_.stack.append(fr)
        try:
            i_.block(ast.parse('\n'.join(src)).body, fr)
        finally:
            i_.stack.pop()
        t = mod.ns['_D']
        if '__init__' not in c.ns:
            c.ns['__init__'] = t.ns['__init__']
        if '__eq__' not in c.ns and k.get('eq') is not False:
            c.ns['__eq__'] = t.ns['__eq__']
        c.ns['__dataclass_fields__'] = {n: None for n in names}
        return c

    def dataclass(i_, a, k):
        if a:
            return process(i_, a[0], {})
        return Native('dataclass', lambda i2, b, kk: process(i2, b[0], k))

    def replace(i_, a, k):
        o = a[0]
        kw = {n: i_.getattr(o, n) for n in o.cls.ns['__dataclass_fields__']}
        kw.update(k)
        return i_.call(o.cls, [], kw)

    def asdict(i_, a, k):
        return {n: i_.getattr(a[0], n) for n in a[0].cls.ns['__dataclass_fields__']}
    m.ns['dataclass'] = Native('dataclass', dataclass)
    m.ns['replace'] = Native('replace', replace)
    m.ns['asdict'] = Native('asdict', asdict)
    return m


MODULES = {'collections.abc': mod_collections_abc, 'enum': mod_enum, 'dataclasses': mod_dataclasses, 'time': mod_time, 'sys': mod_sys, 'os': mod_os, 'typing': mod_typing, 'abc': mod_abc,
           'collections': mod_collections, 'functools': mod_functools, 'itertools': mod_itertools,
           'operator': mod_operator, 'copy': mod_copy, 'json': mod_json, 'urllib': mod_urllib,
           'urllib.parse': mod_urllib_parse, 'base64': mod_base64, 'platform': mod_platform, 'inspect': mod_inspect,
           'dis': mod_dis, 'importlib': mod_importlib, 'traceback': mod_traceback, 'types': mod_types,
           'signal': mod_signal, 'gc': mod_gc, 'atexit': mod_atexit, 'warnings': mod_warnings, 'math': mod_math}


def install(it):
    it.on_lock = None
    it.wait_hook = None
    it.callers = None
    it.log_hook = None
    it.entry_hook = None
    it.import_hook = None
    it.wait_mode = None

    def blocked(lock, other):
        if it.wait_mode == 'join':
            raise Finding('deadlock', 'a thread waits for a lock held by a thread that waits for it', it.site())
        raise Pruned()
    it.blocked = blocked

    def load_source(name, src, path=None):
        tree = ast.parse(src, path or '<%s>' % name)
        m = RModule(name, path, {'__name__': name, '__file__': path, '__package__': name})
        it.modules[name] = m
        from interp import Env, Fr
        env = Env(None, 'module')
        env.vars = m.ns
        fr = Fr(env, m, None, None)
        it.stack.append(fr)
        try:
            it.block(tree.body, fr)
        finally:
            it.stack.pop()
        return m
    it.load_source = load_source
    it.module_models.update(MODULES)
    it.modules['_absint'] = mod_absint(it)
