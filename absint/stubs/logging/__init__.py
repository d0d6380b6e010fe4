import _absint
from logging import config

CRITICAL = 50
FATAL = 50
ERROR = 40
WARNING = 30
WARN = 30
INFO = 20
DEBUG = 10
NOTSET = 0


class Filter:
    def __init__(self, name=''):
        self.name = name

    def filter(self, record):
        return True


class Handler:
    def __init__(self, *a, **k):
        self.formatter = None
        self.filters = []

    def setFormatter(self, f):
        self.formatter = f

    def setLevel(self, l):
        pass

    def addFilter(self, f):
        self.filters.append(f)

    def close(self):
        pass

    def flush(self):
        pass


class StreamHandler(Handler):
    pass


class NullHandler(Handler):
    pass


class FileHandler(Handler):
    pass


class Formatter:
    def __init__(self, *a, **k):
        pass


class Logger:
    def __init__(self, name):
        self.name = name
        self.propagate = True
        self.disabled = False
        self.handlers = []
        self.level = 0

    def _l(self, level, msg, args, kw):
        _absint.log(self.name, level, msg, args, kw)

    def debug(self, msg, *args, **kw):
        self._l('debug', msg, args, kw)

    def info(self, msg, *args, **kw):
        self._l('info', msg, args, kw)

    def warning(self, msg, *args, **kw):
        self._l('warning', msg, args, kw)

    warn = warning

    def error(self, msg, *args, **kw):
        self._l('error', msg, args, kw)

    def critical(self, msg, *args, **kw):
        self._l('critical', msg, args, kw)

    fatal = critical

    def exception(self, msg, *args, exc_info=True, **kw):
        self._l('exception', msg, args, kw)

    def log(self, level, msg, *args, **kw):
        self._l('log', msg, args, kw)

    def isEnabledFor(self, level):
        return True

    def getEffectiveLevel(self):
        return 10

    def hasHandlers(self):
        return bool(self.handlers)

    def setLevel(self, level):
        _absint.event('effect', 'logging.setLevel', self.name, level)
        self.level = level

    def addHandler(self, h):
        _absint.event('effect', 'logging.addHandler', self.name)
        self.handlers.append(h)

    def removeHandler(self, h):
        _absint.event('effect', 'logging.removeHandler', self.name)
        if h in self.handlers:
            self.handlers.remove(h)

    def addFilter(self, f):
        _absint.event('effect', 'logging.addFilter', self.name)

    def getChild(self, suffix):
        return getLogger(self.name + '.' + suffix)


_loggers = {}
root = Logger('root')


def getLogger(name=None):
    if not name:
        return root
    if name not in _loggers:
        _loggers[name] = Logger(name)
    return _loggers[name]


def debug(msg, *args, **kw):
    root._l('debug', msg, args, kw)


def info(msg, *args, **kw):
    root._l('info', msg, args, kw)


def warning(msg, *args, **kw):
    root._l('warning', msg, args, kw)


warn = warning


def error(msg, *args, **kw):
    root._l('error', msg, args, kw)


def critical(msg, *args, **kw):
    root._l('critical', msg, args, kw)


def exception(msg, *args, exc_info=True, **kw):
    root._l('exception', msg, args, kw)


def log(level, msg, *args, **kw):
    root._l('log', msg, args, kw)


def basicConfig(**kw):
    _absint.event('effect', 'logging.basicConfig', 'root')


def disable(level=50):
    _absint.event('effect', 'logging.disable', 'root')


def captureWarnings(v):
    _absint.event('effect', 'logging.captureWarnings', 'root')


def setLoggerClass(c):
    _absint.event('effect', 'logging.setLoggerClass', 'root')


def addLevelName(l, n):
    pass


def getLevelName(l):
    return 'LEVEL'


def shutdown():
    _absint.event('effect', 'logging.shutdown', 'root')
