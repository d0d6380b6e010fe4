import _absint


class UUID:
    def __init__(self, hex=None, bytes=None, int=None, version=None):
        self._s = _absint.rand('uuid', str)
        self.hex = _absint.rand('uuid.hex', str)
        self.int = _absint.rand('uuid.int', type(0))

    def __str__(self):
        return self._s

    def __repr__(self):
        return self._s


def uuid4():
    return UUID()


def uuid1(node=None, clock_seq=None):
    return UUID()
