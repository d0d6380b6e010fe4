import _absint


def fileConfig(fname, defaults=None, disable_existing_loggers=True, encoding=None):
    _absint.event('effect', 'logging.fileConfig', fname, disable_existing_loggers)


def dictConfig(config):
    _absint.event('effect', 'logging.dictConfig', config)
