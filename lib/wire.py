"""Splits the recorded byte streams into the messages a Session behaviour predicts."""
import struct


class Mismatch(Exception):
    pass


class Reader:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise Mismatch("stream ends after %d bytes, %d more expected" % (len(self.b), self.i + n - len(self.b)))
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def bn(self):
        n = struct.unpack("<i", self.take(4))[0]
        if n < 0 or n > 1 << 26:
            raise Mismatch("number of %d bytes" % n)
        return int.from_bytes(self.take(n), "big")

    def u32(self):
        return struct.unpack("<I", self.take(4))[0]


def decode(stream, log, rest=False):
    """log: messages of the specification; returns the list of decoded messages.  rest: bytes may follow."""
    r = Reader(bytes.fromhex(stream))
    out = []
    for m in log:
        k = m["k"]
        try:
            if k == "key":
                d = dict(key=r.take(16))
            elif k == "labels":
                d = dict(blocks=[r.take(16) for _ in m["ls"]])
            elif k == "otpub":
                n = r.u32()
                if n != m["n"]:
                    raise Mismatch("transfer of %d messages announced instead of %d" % (n, m["n"]))
                N, e = r.bn(), r.bn()
                d = dict(n=n, N=N, e=e, x=[(r.bn(), r.bn()) for _ in range(n)])
            elif k == "otreq":
                d = dict(v=[r.bn() for _ in range(m["n"])])
            elif k in ("otrep", "otext"):
                d = dict(y=[(r.bn(), r.bn()) for _ in range(m["n"])])
            elif k == "bits":
                d = dict(v=r.bn())
            elif k == "tables":
                n = struct.unpack("<Q", r.take(8))[0]
                if n > 1 << 24:
                    raise Mismatch("%d tables announced" % n)
                rows = []
                for _ in range(n):
                    t = r.take(48)
                    rows.append(dict(rows=(t[:16], t[16:32]), gid=struct.unpack("<I", t[32:36])[0], pad=t[36:]))
                d = dict(tables=rows)
            elif k == "lsb":
                d = dict(v=struct.unpack("<h", r.take(2))[0])
            else:
                raise AssertionError(k)
        except Mismatch as e:
            raise Mismatch("%s (message %d: %s)" % (e, len(out), k))
        d["k"] = k
        out.append(d)
    if r.i != len(r.b) and not rest:
        raise Mismatch("%d bytes beyond the last expected message" % (len(r.b) - r.i))
    return out
