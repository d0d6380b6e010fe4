import _absint


class SnapshotServiceStub:
    def __init__(self, channel):
        self._channel = channel

    def send(self, request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
        return _absint.boundary('send', request, metadata, self._channel)
