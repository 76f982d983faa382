"""Blocks on the wire against the symbolic labels of the specification."""
import ctypes, functools
from collections import Counter

M128 = (1 << 128) - 1
num = lambda b: int.from_bytes(b, "little")


class AES:
    """The block cipher under the global key (which both parties know)."""
    lib = None

    def __init__(self, key):
        if AES.lib is None:
            try:
                AES.lib = ctypes.CDLL("libcrypto.so.3")
            except OSError:
                AES.lib = ctypes.CDLL("libcrypto.so")
        self.k = ctypes.create_string_buffer(260)
        AES.lib.AES_set_encrypt_key(key, 128, self.k)

    def __call__(self, v):
        o = ctypes.create_string_buffer(16)
        AES.lib.AES_encrypt((v & M128).to_bytes(16, "little"), o, self.k)
        return num(o.raw)


class Span:
    """A GF(2) space of numbers."""
    def __init__(self):
        self.rows = {}

    def add(self, v):
        """False when v was already in it."""
        while v:
            h = v.bit_length()
            if h not in self.rows:
                self.rows[h] = v
                return True
            v ^= self.rows[h]
        return False


def windows(raw, step):
    """16-byte pieces of a stream that look like blocks."""
    for i in range(0, len(raw) - 15, step):
        w = raw[i:i + 16]
        if w.count(0) <= 6:
            yield i, num(w)


def repeats(raw, step=2, offsets=()):
    """Layout-independent: a piece sent twice, or two pieces that differ by one of the offsets."""
    seen = {}
    for i, w in windows(raw, step):
        if w in seen:
            return "the 16 bytes at offsets %d and %d are the same" % (seen[w], i)
        seen[w] = i
    for r in offsets:
        if r in seen:
            return "the offset itself is sent (at %d)" % seen[r]
        for w, i in seen.items():
            if w ^ r in seen:
                return "the 16 bytes at offsets %d and %d differ by the secret offset" % (seen[w ^ r], i)
    return None


def same_steps(raw, step=2, far=160):
    """Layout-independent: two pairs of nearby pieces with the same difference."""
    for d in range(16, far, 16):
        seen = {}
        for i in range(0, len(raw) - d - 15, step):
            if raw[i:i + 16].count(0) > 6 or raw[i + d:i + d + 16].count(0) > 6:
                continue
            x = num(raw[i:i + 16]) ^ num(raw[i + d:i + d + 16])
            b = x.to_bytes(16, "little")
            if b.count(0) > 6:
                continue
            if x in seen:
                return "blocks %d bytes apart differ by the same value at offsets %d and %d" % (d, seen[x], i)
            seen[x] = i
    return None


def steps(p, q):
    """Candidates for the secret offset: frequent differences of two streams that should only differ in the bits of the inputs."""
    n = min(len(p), len(q))
    d = bytes(a ^ b for a, b in zip(p[:n], q[:n]))
    c = Counter(d[i:i + 16] for i in range(0, n - 15, 2) if d[i:i + 16].count(0) <= 4)
    return [num(w) for w, k in c.most_common(24) if k >= 2]


class Solved:
    """Values of the atoms (zero-labels) of one session, from its label blocks and the secret offset."""
    def __init__(self, R):
        self.R, self.val = R, {}

    def learn(self, label, block):
        """label: the set of atoms held.  None, or what contradicts it."""
        atoms = [a for a in label if a]
        if len(atoms) != 1:
            return None
        v = block ^ (self.R if 0 in label else 0)
        a = atoms[0]
        if a in self.val and self.val[a] != v:
            return "the label of one bit is sent with different values"
        self.val[a] = v
        return None

    def zero(self, label):
        """Value of a label; None when an atom is not known."""
        r = 0
        for a in label:
            if a == 0:
                r ^= self.R
            elif a in self.val:
                r ^= self.val[a]
            else:
                return None
        return r


#: ways to hash a label, by what is left out of the tweak (the first one is what the specification takes for granted)
def hashes(aes, cyc, gid):
    tw = lambda hi, lo: (hi & ((1 << 64) - 1)) << 64 | (lo & ((1 << 64) - 1))
    full = lambda k, forward=True: (lambda half, L: aes(L ^ k(half)) ^ ((L ^ k(half)) if forward else 0))
    good = {"": full(lambda h: tw(cyc, 2 * gid + h))}
    weak = {"without feed-forward": full(lambda h: tw(cyc, 2 * gid + h), False),
            "the same in every cycle": full(lambda h: tw(0, 2 * gid + h)),
            "the same for every gate": full(lambda h: tw(cyc, h)),
            "shared by neighbouring gates": full(lambda h: tw(cyc, gid + h)),
            "without gate and cycle": full(lambda h: tw(0, h)),
            "without any tweak": full(lambda h: 0)}
    return good, weak


def garble(combos, t, h, A, B, R):
    """Rows and zero-label of a table, as HalfGate.tla combines them; h: hash of (half, label)."""
    c = combos[t, A & 1, B & 1]
    v = {0: R, 1: A, 2: B}
    need = {x for part in c["rows"] + [c["zero"]] for x in part}
    for x in need - set(v):
        v[x] = h((x - 3) // 2, (A, A ^ R, B, B ^ R)[x - 3])
    s = lambda part: functools.reduce(lambda a, b: a ^ b, (v[x] for x in part), 0)
    return s(c["rows"][0]), s(c["rows"][1]), s(c["zero"])
