import hashlib


class StubGap(Exception):
    pass


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(repr(p).encode())
        m.update(b'\0')
    return int.from_bytes(m.digest(), 'big')
