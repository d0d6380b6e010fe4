import _absint


class Lock:
    def acquire(self, blocking=True, timeout=-1):
        return _absint.lock_acquire(self, False, blocking, timeout)

    def release(self):
        _absint.lock_release(self)

    def locked(self):
        return _absint.lock_held(self)

    def __enter__(self):
        return _absint.lock_acquire(self, False)

    def __exit__(self, *a):
        _absint.lock_release(self)


class RLock:
    def acquire(self, blocking=True, timeout=-1):
        return _absint.lock_acquire(self, True, blocking, timeout)

    def release(self):
        _absint.lock_release(self)

    def __enter__(self):
        return _absint.lock_acquire(self, True)

    def __exit__(self, *a):
        _absint.lock_release(self)


class Semaphore:
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        if self._value <= 0:
            if not blocking or timeout is not None:
                return False
            _absint.prune()
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


BoundedSemaphore = Semaphore


class Condition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else RLock()

    def acquire(self, *a):
        return self._lock.acquire(*a)

    def release(self):
        self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        r = _absint.wait(self, timeout)
        return bool(r)

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        if not r:
            _absint.wait(self, timeout)
            r = predicate()
        return r

    def notify(self, n=1):
        pass

    def notify_all(self):
        pass


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        _absint.event('sync', 'event-set', self)

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if self._flag:
            return True
        r = _absint.wait(self, timeout)
        if r is not None:
            return r
        if timeout is None:
            _absint.prune()
        return self._flag


class local:
    def __getattribute__(self, name):
        if name == '__dict__':
            return _absint.tls(self)
        d = _absint.tls(self)
        if name in d:
            return d[name]
        return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        _absint.tls(self)[name] = value

    def __delattr__(self, name):
        d = _absint.tls(self)
        if name not in d:
            raise AttributeError(name)
        del d[name]


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or 'Thread'
        self.daemon = bool(daemon)
        self.ident = None
        self._started = False
        self._state = 'new'

    def start(self):
        if self._state != 'new':
            raise RuntimeError('threads can only be started once')
        self._state = 'started'
        _absint.event('thread', 'start', self)
        _absint.spawn(self)

    def setDaemon(self, v):
        self.daemon = v

    def is_alive(self):
        return self._state == 'started'

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def join(self, timeout=None):
        if self._state == 'new':
            raise RuntimeError('cannot join thread before it is started')
        _absint.event('thread', 'join', self, timeout)


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self, target=function, args=args or (), kwargs=kwargs)
        self.interval = interval

    def cancel(self):
        self._state = 'cancelled'


class _Cur:
    def __init__(self, ident):
        self.ident = ident
        self.native_id = ident
        self.name = 'thread-%s' % ident
        self.daemon = False

    def is_alive(self):
        return True

    def getName(self):
        return self.name


_threads = {}
_ids = {'main': 1}


def get_ident():
    # 'w~2' is a later thread that has the ident of the ended thread 'w'
    t = _absint.thread().split('~')[0]
    if t not in _ids:
        _ids[t] = len(_ids) + 1
    return _ids[t]


get_native_id = get_ident


def current_thread():
    i = _absint.thread()
    if i not in _threads:
        _threads[i] = _Cur(get_ident())
    return _threads[i]


currentThread = current_thread


def main_thread():
    if 'main' not in _threads:
        _threads['main'] = _Cur(1)
    return _threads['main']


def active_count():
    return 1


def enumerate():
    return [current_thread()]


def settrace(f):
    _absint.settrace(f)


def gettrace():
    return _absint.gettrace()


def settrace_all_threads(f):
    _absint.event('hook', 'threading.settrace_all_threads', f)
    _absint.settrace(f)


def setprofile(f):
    _absint.event('effect', 'threading.setprofile', f)


def excepthook(args):
    pass
