import _absint


class RpcError(Exception):
    pass


class Channel:
    def __init__(self, kind, target, creds, kw):
        self.kind = kind
        self.target = target
        self.creds = creds
        self.kw = kw

    def close(self):
        _absint.event('grpc', 'close', self)

    def subscribe(self, *a, **k):
        pass


class _Creds:
    pass


class StatusCode:
    OK = 0
    UNAVAILABLE = 14


def ssl_channel_credentials(*a, **k):
    return _Creds()


def secure_channel(target, credentials, options=None, compression=None):
    _absint.event('grpc', 'secure_channel', target, credentials)
    return Channel('secure', target, credentials, options)


def insecure_channel(target, options=None, compression=None):
    _absint.event('grpc', 'insecure_channel', target)
    return Channel('insecure', target, None, options)
