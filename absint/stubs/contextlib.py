class ContextDecorator:
    pass


class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class suppress:
    def __init__(self, *exceptions):
        self._exceptions = exceptions

    def __enter__(self):
        return None

    def __exit__(self, t, e, tb):
        return t is not None and issubclass(t, self._exceptions)


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *a):
        return None


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()


class _GeneratorContextManager:
    def __init__(self, func, args, kwds):
        self.gen = func(*args, **kwds)

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield")

    def __exit__(self, typ, value, traceback):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(value)
        except StopIteration as exc:
            return exc is not value
        except BaseException as exc:
            if exc is not value:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(func):
    def helper(*args, **kwds):
        return _GeneratorContextManager(func, args, kwds)
    return helper


class ExitStack:
    def __init__(self):
        self._cbs = []

    def enter_context(self, cm):
        v = cm.__enter__()
        self._cbs.append(cm.__exit__)
        return v

    def push(self, f):
        self._cbs.append(f)
        return f

    def callback(self, fn, *a, **k):
        self._cbs.append(lambda t, e, tb: fn(*a, **k) and False)
        return fn

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        sup = False
        pending = None
        while self._cbs:
            cb = self._cbs.pop()
            try:
                if cb(t, e, tb):
                    sup = True
                    t, e, tb = None, None, None
                    pending = None
            except BaseException as ne:
                t, e, tb = type(ne), ne, None
                pending = ne
        if pending is not None:
            raise pending
        return sup
