import _absint


def randbits(k):
    return _absint.rand('random', int)


def token_hex(n=16):
    return _absint.rand('uuid', str)


def token_bytes(n=16):
    return _absint.rand('random', bytes)
