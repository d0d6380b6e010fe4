import _absint


class PollConfigStub:
    def __init__(self, channel):
        self._channel = channel

    def poll(self, request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
        return _absint.boundary('poll', request, metadata, self._channel)
