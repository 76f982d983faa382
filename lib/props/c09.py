"""C09: the garbler never learns the evaluator's inputs through OT."""
import math, random
from concurrent.futures import ProcessPoolExecutor
import build, families as F, gen, ot, sessions as S, wire
from ctx import parallel


def keys(text):
    """modulus -> (private exponent, prime)"""
    return {int(n, 16): (int(d, 16), int(p, 16)) for n, d, p in (x.split(":") for x in text.split(";") if x)}


def decrypt(a):
    """Roots of the values under one key."""
    N, d, p, vs = a
    q = N // p
    dp, dq, qi = d % (p - 1), d % (q - 1), pow(q, -1, p)
    out = []
    for v in vs:
        y, z = pow(v, dp, p), pow(v, dq, q)
        out.append(z + q * ((y - z) * qi % p))
    return out


ROOTS = {}


def roots(todo):
    """Fills ROOTS for (key, values) pairs, on all cores."""
    with ProcessPoolExecutor(8) as ex:
        for a, r in zip(todo, ex.map(decrypt, todo, chunksize=4)):
            for v, k in zip(a[3], r):
                ROOTS[a[0], v] = k


class Pool:
    """Secret random values of a kind: never repeated, full size, every bit balanced, consecutive ones unrelated."""
    def __init__(self, what, bits, related=True):
        self.what, self.bits, self.related = what, bits, related
        self.seen, self.vals, self.groups, self.last, self.diffs = {}, [], {}, None, set()

    def add(self, v, where, bits=None, group=0):
        b = bits or self.bits
        if v in self.seen:
            return "%s of %s and %s are the same" % (self.what, self.seen[v], where)
        self.seen[v] = where
        if v >> max(1, b - 64) == 0 or v.bit_length() < b - 64:
            return "%s of %s has only %d of %d bits" % (self.what, where, v.bit_length(), b)
        self.groups.setdefault(group, []).append(v)
        if self.related and self.last is not None:
            for d in (v ^ self.last, abs(v - self.last)):
                if d in self.diffs or d.bit_length() < b - 64:
                    return "%s of %s follows from the previous one" % (self.what, where)
                self.diffs.add(d)
        self.last = v
        return None

    def balanced(self, spare=8):
        for g, vs in self.groups.items():
            n = len(vs)
            if n < 64:
                continue
            tol = 6.5 * .5 * math.sqrt(n)
            for k in range(self.bits - spare):
                ones = sum(v >> k & 1 for v in vs)
                if abs(ones - n / 2) > tol:
                    return "bit %d of %s is 1 in %d of %d draws (selection bit %s)" % (k, self.what, ones, n, g)
        return None


def base_relation(c, t, ab, ba, where, pools):
    """The transcript relation of OT.tla (Fits) on a recorded base transfer with known messages."""
    N, e = ab[0]["N"], ab[0]["e"]
    fits = lambda order: all((pow(y[j] - int.from_bytes(t[c["m"][i][j]], order), e, N) + x[j]) % N == v
                             for i, (x, y, v) in enumerate(zip(ab[0]["x"], ab[1]["y"], ba[0]["v"])) for j in (0, 1))
    order = "big" if fits("big") else "little"
    for i, (x, y, v) in enumerate(zip(ab[0]["x"], ab[1]["y"], ba[0]["v"])):
        w = "%s index %d" % (where, i)
        if not 0 <= v < N:
            return "request %s is not reduced modulo the key" % w
        if x[0] % N == x[1] % N:
            return "%s: both values offered are the same, the receiver's key opens both replies" % w
        ks = []
        for j in (0, 1):
            k = y[j] - int.from_bytes(t[c["m"][i][j]], order)
            if not 0 <= k < N or (pow(k, e, N) + x[j]) % N != v:
                return "%s: reply %d does not fit the request" % (w, j)
            ks.append(k)
        b = c["sel"][i]
        for r in (pools["k"].add(ks[b], w, N.bit_length(), b), pools["other"].add(ks[1 - b], w, N.bit_length(), b),
                  pools["v"].add(v, w, N.bit_length()), pools["x"].add(x[0], w + "/0"), pools["x"].add(x[1], w + "/1")):
            if r:
                return r
        if ks[1 - b] in pools["k"].seen:
            return "%s: the mask of the other message is known to the receiver" % w
    return None


def masks(offer, reply, req, key, where, pools):
    """Both candidate masks of every base transfer of an extension (or session); None if the key is not known."""
    N = offer["N"]
    if N not in key:
        return None, None
    cols = []
    for i, (x, v) in enumerate(zip(offer["x"], req["v"])):
        w = "%s transfer %d" % (where, i)
        if not 0 <= v < N:
            return None, "request of %s is not reduced modulo the key" % w
        k = [ROOTS[N, (v - x[j]) % N] for j in (0, 1)]
        for j in (0, 1) if pools else ():
            r = pools["k"].add(k[j], "%s/%d" % (w, j), N.bit_length(), 9)
            if r:
                return None, r
        cols.append((reply["y"][i][0] - k[0], reply["y"][i][1] - k[1]))
    return cols, None


def attack(n, nbits, y):
    """Selection bits a sender reads off the parts of the columns no mask covers."""
    out = {}
    for p in range(nbits + 2, n):
        ones = sum(((a >> p) ^ (b >> p)) & 1 for a, b in y)
        out[p] = 1 if 2 * ones > len(y) else 0
    return out


def ext_relation(sel, offer, reply, req, key, where, pools):
    """Correlated and ChoiceHidden of OTExt.tla on a recorded extension: columns differ by the selection bits, rows are fresh."""
    cols, why = masks(offer, reply, req, key, where, pools)
    if cols is None:
        return None, why
    n = len(sel)
    r = sum(b << i for i, b in enumerate(sel))
    for c, (p, q) in enumerate(cols):
        if p < 0 or q < 0 or p >> n or q >> n:
            return None, "%s: column %d is not masked by its base transfer" % (where, c)
        if p ^ q != r:
            return None, "%s: the two forms of column %d do not differ by the selection bits" % (where, c)
    rows = [sum((p >> i & 1) << c for c, (p, _) in enumerate(cols)) for i in range(n)]
    for i, row in enumerate(rows if pools else ()):
        w = pools["row"].add(row, "%s row %d" % (where, i), group=sel[i])
        if w:
            return None, w
    return rows, None


def wide_session(rng, low, cc, ex, ei):
    gx = rng.randint(1, 3)
    lo = ei + gx + ex
    nd = 1 if ei else 0
    first = lo + nd
    gates = [("AND", ei, ei + gx), ("XOR", first, ei + gx + ex - 1)]
    c = gen.circuit(ei=ei, gx=gx, ex=ex, gates=gates, D=[first + 1] * nd, I=[0] * nd, out=[first + 1])
    return F.sess(c, gen.rand_inputs(rng, c, cc, extra=False), cc=cc, low=low, noot=False, mask=[rng.randint(0, 1)])


def own_bits(s):
    """Selection bits of the session's transfers, per transfer."""
    c, x = s["c"], s["x"]
    bit = lambda v, i: v[i] if i < len(v) else 0
    init = [bit(x["einit"], i) for i in range(c["ei"])]
    per = [[bit(x["ein"], k * c["ex"] + i) for i in range(c["ex"])] for k in range(s["cc"])]
    if s["low"] and s["cc"] > 1:
        return [init] + per
    return [init + [b for p in per for b in p]]


def whole_masks(ctx, b, rng):
    """OtherHidden of OTExt.tla for messages of any width: every bit of both replies of a pair is masked."""
    items = []
    for w in [1, 2, 3, 5, 7, 9, 12, 13, 20, 31, 33, 63, 65, 100, 127, 129, 200, 250, 255] + [8, 16, 128, 256]:
        c = ot.case(rng, 130, kinds=8)
        t = [(rng.getrandbits(w) if i > 1 else (1 << w) - 1 if i else 0).to_bytes((w + 7) // 8, "big") for i in range(8)]
        items.append((w, c, t, ot.bn_job(c, t, ext=True, stream=1, bitlen=w)))

    def once(items):
        bad = {}
        for (w, c, t, j), r in zip(items, ctx.run(b, [dict(i[3]) for i in items])):
            if r["rc"] != [0, 0]:
                continue
            want = ot.layout(c["n"], ext=True)
            try:
                pairs = wire.decode(r["ab"], want[0])[1]["y"]
            except wire.Mismatch:
                ctx.note("unreadable")
                continue
            for hidden in (0, 1):
                ms = [y[j] ^ int.from_bytes(t[m[j]], "big") for y, m, s in zip(pairs, c["m"], c["sel"]) for j in (0, 1) if (j != s) == bool(hidden)]
                for k in range(w):
                    ones = sum(v >> k & 1 for v in ms)
                    if ones in (0, len(ms)):
                        bad[w] = "bit %d of the masks of %d-bit messages is %d in all %d replies%s" % (k, w, ones // len(ms), len(ms), " with the message not selected" * hidden)
        return bad
    first = once(items)
    ctx.traces += len(items)
    if first:
        for w, why in once([i for i in items if i[0] in first]).items():
            ctx.violation("extension: " + why, dict(width=w))


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    whole_masks(ctx, b, random.Random("w%d" % ctx.seed))
    fresh = lambda: dict(k=Pool("the request mask", 1024), other=Pool("the mask of the other reply", 1024, related=False), v=Pool("the request", 1024, related=False),
                         x=Pool("the offered value", 1024), row=Pool("the row", 128))
    base = [ot.case(rng, n) for n in [1, 2, 3, 5, 8] + [40] * ctx.scale(22, 120)]
    exts = [ot.case(rng, n) for n in [1, 2, 3, 7, 8, 9, 17, 64, 127, 128, 129, 300, 300, 400, 500, 600, 900] * ctx.scale(1, 6)]
    long = [ot.case(rng, 1300, sel=gen.rand_bits(rng, 1300)) for _ in range(ctx.scale(1, 3))]
    one = [ot.case(rng, 12, sel=[0, 1] * 6) for _ in range(ctx.scale(28, 120))]
    ss = [wide_session(rng, *a) for a in [(False, 1, 5, 0), (False, 3, 4, 2), (True, 3, 4, 2), (True, 4, 3, 0), (False, 1, 140, 3), (False, 2, 70, 4), (True, 2, 131, 2), (True, 3, 2, 130)] * ctx.scale(2, 8)]
    res = parallel([lambda: ot.exhaust_base(ctx, 2), lambda: ot.exhaust_ext(ctx, 2), lambda: ot.predict(ctx, base), lambda: ot.predict(ctx, exts + long + one, ext=True),
                    lambda: S.predict(ctx, ss)])
    base = res[2]
    exts, long, one = res[3][:len(exts)], res[3][len(exts):len(exts) + len(long)], res[3][len(exts) + len(long):]
    scd = S.Scd(ctx)
    tables = {}

    def run(part):
        """One pass over all jobs in fresh processes at the same (frozen) time."""
        js = []
        for i, c in enumerate(base):
            tables.setdefault(("b", i), ot.contents(rng, 8, 16))
            js.append(ot.block_job(c, tables["b", i], stream=1, keys=1, time=1700000000))
        for i, c in enumerate(exts + long + one):
            tables.setdefault(("e", i), ot.contents(rng, 8, 16))
            j = ot.block_job(c, tables["e", i], ext=True, stream=1, keys=1, draws=1, time=1700000000)
            if i >= len(exts) + len(long):          # the receiver always draws the same
                j["b.seed"] = 77
            js.append(j)
        js += [gen.job(s, scd(s["c"]), stream=1, keys=1, time=1700000000) for s in ss]
        rs = ctx.run(b, js)
        ctx.traces += len(rs)
        return rs

    def solve(runs):
        """The masks behind every request whose key is known, leaving out what cannot be read."""
        todo = []

        def need(offer, req, key):
            if offer["N"] in key:
                N = offer["N"]
                todo.append((N,) + key[N] + ([(v - x[j]) % N for x, v in zip(offer["x"], req["v"]) for j in (0, 1)],))
        for rs in runs:
            n0 = len(base)
            for c, r in zip(exts + long + one, rs[n0:]):
                try:
                    want = ot.layout(c["n"], ext=True)
                    if c["n"] <= 1024:
                        need(wire.decode(r["ba"], want[1], rest=True)[0], wire.decode(r["ab"], want[0], rest=True)[0], keys(r["keys"][1]))
                except wire.Mismatch:
                    pass
            for s, pr, r in zip(ss, res[4], rs[n0 + len(exts + long + one):]):
                try:
                    ab, ba = wire.decode(r["ab"], pr["ab"]), wire.decode(r["ba"], pr["ba"])
                except wire.Mismatch:
                    continue
                for me, you, k in ((ab, ba, keys(r["keys"][0])), (ba, ab, keys(r["keys"][1]))):
                    offers, reqs = [m for m in me if m["k"] == "otpub" and m["n"]], [m for m in you if m["k"] == "otreq"]
                    for o, q in zip(offers, reqs):
                        need(o, q, k)
        ROOTS.clear()
        roots(todo)

    def judge(runs):
        """First violation per kind, from two passes."""
        solve(runs)
        bad = []
        pb, pe = fresh(), fresh()
        sel_s, whole = [], {}
        for p, rs in enumerate(runs):
            for i, c in enumerate(base):
                r = rs[i]
                if r["rc"] != [0, 0]:
                    continue
                want = ot.layout(c["n"])
                try:
                    ba = wire.decode(r["ba"], want[1])
                except wire.Mismatch as e:
                    bad.append("the receiver of %d pairs sends something else than %d requests (%s)" % (c["n"], c["n"], e))
                    continue
                try:
                    ab = wire.decode(r["ab"], want[0])
                except wire.Mismatch:
                    ctx.note("unreadable")
                    continue
                why = base_relation(c, tables["b", i], ab, ba, "pass %d case %d" % (p, i), pb)
                if why:
                    bad.append("base transfer: " + why)
            base0 = len(base)
            for i, c in enumerate(exts + long + one):
                r = rs[base0 + i]
                if r["rc"] != [0, 0]:
                    continue
                want = ot.layout(c["n"], ext=True)
                where = "pass %d extension %d" % (p, i)
                try:
                    ba = wire.decode(r["ba"], want[1])
                    ab = wire.decode(r["ab"], want[0])
                except wire.Mismatch as e:
                    try:
                        wire.decode(r["ba"], want[1])
                        ctx.note("unreadable")
                    except wire.Mismatch as e2:
                        bad.append("the receiver of %d pairs sends something else than 128 offers and replies (%s)" % (c["n"], e2))
                    continue
                offer, reply, req, pairs = ba[0], ba[1], ab[0], ab[1]["y"]
                nbits = offer["N"].bit_length()
                if c["n"] > nbits + 66:
                    g = attack(c["n"], nbits, reply["y"])
                    hits = sum(c["sel"][q] == v for q, v in g.items())
                    if hits > .9 * len(g) and len(set(c["sel"])) == 2:
                        text = "extension of %d pairs over a %d-bit key: the sender reads %d of the %d selection bits from %d on off the columns" % (c["n"], nbits, hits, len(g), nbits + 2)
                        bad.append((text, "otext-columns-longer-than-key") if nbits >= 1024 else text)
                seeded = i >= len(exts) + len(long)
                pools = None if seeded else pe
                rows, why = ext_relation(c["sel"], offer, reply, req, keys(r["keys"][1]), where, pools) if c["n"] <= nbits else (None, None)
                if why:
                    bad.append("extension: " + why)
                t = tables["e", i]
                ms = [[y[j] ^ int.from_bytes(t[c["m"][k][j]], "little") for j in (0, 1)] for k, y in enumerate(pairs)]
                be = [[y[j] ^ int.from_bytes(t[c["m"][k][j]], "big") for j in (0, 1)] for k, y in enumerate(pairs)]
                flat = [m for q in ms for m in q]
                flat2 = [m for q in be for m in q]
                if len(set(flat)) < len(flat) and len(set(flat2)) < len(flat2):
                    bad.append("extension: %s: two messages are masked by the same value" % where)
                if seeded and rows:
                    for k, row in enumerate(rows):      # H(k, row xor s): the same row, so a repeated mask means a repeated s
                        other = be[k][1 - c["sel"][k]]
                        if other in whole.setdefault((k, row), {}):
                            bad.append("extension: the sender's secret bits of %s and %s are the same" % (where, whole[k, row][other]))
                        whole[k, row][other] = where
                draws = [int(x, 16) for x in r["draws"][0].split(";") if x]
                N, e = offer["N"], offer["e"]
                enc = {pow(d % N, e, N) for d in draws}
                bits = [[j for j in (0, 1) if (v - x[j]) % N in enc] for x, v in zip(offer["x"], req["v"])]
                if all(len(q) == 1 for q in bits):
                    sel_s.append(sum(q[0] << k for k, q in enumerate(bits)))
            for s, pr, r in zip(ss, res[4], rs[base0 + len(exts) + len(long) + len(one):]):
                if r["rc"] != [0, 0]:
                    continue
                try:
                    ba = wire.decode(r["ba"], pr["ba"])
                    ab = wire.decode(r["ab"], pr["ab"])
                except wire.Mismatch as e:
                    try:
                        wire.decode(r["ba"], pr["ba"])
                        ctx.note("unreadable")
                    except wire.Mismatch as e2:
                        bad.append("the evaluator sends something else than requests and shares (%s)" % e2)
                    continue
                ka, kb = keys(r["keys"][0]), keys(r["keys"][1])
                groups = [g for g in own_bits(s) if g]
                ai = [m for m in ab if m["k"] in ("otpub", "otreq", "otrep", "otext") and not (m["k"] == "otpub" and m["n"] == 0)]
                bi = [m for m in ba if m["k"] in ("otpub", "otreq", "otrep")]
                for q, g in enumerate(groups):
                    where = "pass %d session transfer %d" % (p, q)
                    if len(g) > 128:
                        offer, reply, req = bi.pop(0), bi.pop(0), ai.pop(0)
                        ai.pop(0)
                        rows, why = ext_relation(g, offer, reply, req, kb, where + str(id(s)), pe)
                    else:
                        offer, reply, req = ai.pop(0), ai.pop(0), bi.pop(0)
                        rows, why = masks(offer, reply, req, ka, where + str(id(s)), pb)
                    if why:
                        bad.append("session: " + why)
        for pool in list(pb.values()) + list(pe.values()):
            why = pool.balanced()
            if why:
                bad.append(why)
        if len(sel_s) >= 40:
            if len(set(sel_s)) < len(sel_s):
                bad.append("the sender of extensions uses the same secret bits again")
            for k in range(128):
                ones = sum(v >> k & 1 for v in sel_s)
                if abs(ones - len(sel_s) / 2) > 6.5 * .5 * math.sqrt(len(sel_s)) or ones in (0, len(sel_s)):
                    bad.append("secret bit %d of the sender of extensions is 1 in %d of %d" % (k, ones, len(sel_s)))
                    break
        ctx.notes["masks_analysed"] = len(pb["k"].seen) + len(pe["k"].seen)
        ctx.notes["rows_analysed"] = len(pe["row"].seen)
        ctx.notes["sender_secrets_recovered"] = len(sel_s)
        return bad

    verdicts = judge([run(0), run(1)])
    new = [v for v in verdicts if not isinstance(v, tuple)]
    if new:
        again = judge([run(0), run(1)])
        new = [v for v in again if not isinstance(v, tuple)]
    for v in verdicts:
        if isinstance(v, tuple):
            ctx.violation(v[0], dict(attack=v[0]), key=v[1])
    for v in new[:5]:
        ctx.violation(v, dict(seed=ctx.seed, what=new[:20]))
    ctx.sample(dict(pairs=[c["n"] for c in base + exts + long]))
