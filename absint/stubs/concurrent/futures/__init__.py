"""Executors: a submitted task is a work item that runs later, on a worker thread, or that is cancelled."""
import _absint

FIRST_COMPLETED = 'FIRST_COMPLETED'
FIRST_EXCEPTION = 'FIRST_EXCEPTION'
ALL_COMPLETED = 'ALL_COMPLETED'


class Error(Exception):
    pass


class CancelledError(Error):
    pass


TimeoutError = TimeoutError


class BrokenExecutor(RuntimeError):
    pass


class InvalidStateError(Error):
    pass


class DoneAndNotDoneFutures:
    def __init__(self, done, not_done):
        self.done = done
        self.not_done = not_done

    def __iter__(self):
        return iter((self.done, self.not_done))

    def __getitem__(self, i):
        return (self.done, self.not_done)[i]


class Future:
    def __init__(self):
        self._state = 'PENDING'
        self._result = None
        self._exception = None
        self._done_callbacks = []
        self._work = None
        self._n = 0

    def cancel(self):
        if self._state == 'RUNNING' or self._state == 'FINISHED':
            return False
        if self._state == 'PENDING':
            self._state = 'CANCELLED'
            _absint.task_done(self)
            _absint.event('task', 'cancelled', self)
            self._invoke_callbacks()
        return True

    def cancelled(self):
        return self._state == 'CANCELLED'

    def running(self):
        return self._state == 'RUNNING'

    def done(self):
        return self._state in ('FINISHED', 'CANCELLED')

    def _invoke_callbacks(self):
        for cb in list(self._done_callbacks):
            try:
                cb(self)
            except Exception:
                _absint.event('task', 'callback-error', self)

    def add_done_callback(self, fn):
        if self.done():
            try:
                fn(self)
            except Exception:
                _absint.event('task', 'callback-error', self)
            return
        self._done_callbacks.append(fn)

    def _wait(self, timeout):
        # the task has run when we look, or (with a timeout only) it has not
        if self._state in ('PENDING', 'RUNNING'):
            _absint.event('task', 'wait', self, timeout)
            if self._work is None or self._state == 'RUNNING':
                _absint.prune()
            if timeout is not None and _absint.choose(2, 'task-timeout') == 1:
                return False
            _absint.on_thread('worker', self._run)
        return True

    def result(self, timeout=None):
        if not self._wait(timeout):
            raise TimeoutError()
        if self._state == 'CANCELLED':
            raise CancelledError()
        if self._exception is not None:
            raise self._exception
        return self._result

    def exception(self, timeout=None):
        if not self._wait(timeout):
            raise TimeoutError()
        if self._state == 'CANCELLED':
            raise CancelledError()
        return self._exception

    def set_running_or_notify_cancel(self):
        if self._state == 'CANCELLED':
            return False
        self._state = 'RUNNING'
        return True

    def set_result(self, result):
        self._result = result
        self._state = 'FINISHED'
        self._invoke_callbacks()

    def set_exception(self, exception):
        self._exception = exception
        self._state = 'FINISHED'
        self._invoke_callbacks()

    def _run(self):
        if self._state != 'PENDING' or self._work is None:
            return
        self._state = 'RUNNING'
        _absint.task_done(self)
        _absint.event('task', 'start', self)
        fn, args, kwargs = self._work
        try:
            self._result = fn(*args, **kwargs)
        except BaseException as e:
            self._exception = e
        self._state = 'FINISHED'
        _absint.event('task', 'end', self)
        self._invoke_callbacks()


class Executor:
    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]
        return [f.result() for f in fs]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False


class ThreadPoolExecutor(Executor):
    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        self._max_workers = max_workers
        self._shutdown = False
        self._futures = []

    def submit(self, fn, *args, **kwargs):
        if self._shutdown:
            raise RuntimeError('cannot schedule new futures after shutdown')
        f = Future()
        f._work = (fn, args, kwargs)
        self._futures.append(f)
        _absint.event('task', 'submit', f, fn, args)
        _absint.add_task(f)
        return f

    def shutdown(self, wait=True, cancel_futures=False):
        self._shutdown = True
        if cancel_futures:
            for f in list(self._futures):
                f.cancel()
        if wait:
            for f in list(self._futures):
                f._wait(None)


ProcessPoolExecutor = ThreadPoolExecutor


def wait(fs, timeout=None, return_when=ALL_COMPLETED):
    done = set()
    not_done = set()
    for f in list(fs):
        if return_when == FIRST_COMPLETED and done and not f.done():
            not_done.add(f)
        elif f._wait(timeout):
            done.add(f)
        else:
            not_done.add(f)
    return DoneAndNotDoneFutures(done, not_done)


def as_completed(fs, timeout=None):
    for f in list(fs):
        if not f._wait(timeout):
            raise TimeoutError()
        yield f
