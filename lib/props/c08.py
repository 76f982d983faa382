"""C08: the evaluator never learns more than one label per wire."""
import math
import build, families as F, gen, labels as L, sessions as S, wire
from ctx import parallel
from props import c09

HALF = "SPECIFICATION Spec\nINVARIANTS Right Private Covered Emit\n"


def twins(rng):
    """The same operands for table gates again and again: in one cycle, over cycles, in both orders, in neighbouring gates."""
    tt = [t for t in gen.TYPES if t not in ("XOR", "XNOR", "NOT")]
    out = []
    for i in range(8):
        t = [rng.choice(tt) for _ in range(8)]
        c = gen.circuit(gx=1, ex=1, gates=[(x, *rng.choice([(0, 1), (1, 0)])) for x in t], out=list(range(2, 10)))
        out.append(F.sess(c, gen.rand_inputs(rng, c, 1, extra=False), 1, low=i % 2 == 1, mask=gen.rand_bits(rng, 8)))
    for i in range(8):                   # neighbours share an operand
        n = rng.randint(3, 4)
        ops = [rng.randrange(n) for _ in range(9)]
        for k in range(1, 9):
            while ops[k] == ops[k - 1]:
                ops[k] = rng.randrange(n)
        c = gen.circuit(gx=2, ex=n - 2, gates=[(rng.choice(tt), ops[k], ops[k + 1]) for k in range(8)], out=list(range(n, n + 8)))
        out.append(F.sess(c, gen.rand_inputs(rng, c, 1, extra=False), 1, low=i % 2 == 1, mask=gen.rand_bits(rng, 8)))
    for i in range(8):                   # held operands, several cycles
        c = gen.circuit(gi=1, ei=1, px=1, gates=[(rng.choice(tt), 3, 4), (rng.choice(tt), 4, 3), ("XOR", 5, 2)], D=[3, 4], I=[0, 1], out=[6, 7])
        out.append(F.sess(c, gen.rand_inputs(rng, c, 6, extra=False), 6, low=i % 2 == 1, mask=gen.rand_bits(rng, 2)))
    return out


def flip(s):
    """The session with all bits of both parties inverted."""
    c, x, cc = s["c"], s["x"], s["cc"]
    inv = lambda v, n: [1 - (v[i] if i < len(v) else 0) for i in range(n)]
    return dict(s, x=dict(pinit=x["pinit"], pin=x["pin"], ginit=inv(x["ginit"], c["gi"]), einit=inv(x["einit"], c["ei"]),
                          gin=inv(x["gin"], c["gx"] * cc), ein=inv(x["ein"], c["ex"] * cc)))


class Judge:
    def __init__(self, ctx, combos):
        self.ctx, self.combos = ctx, combos

    def pair(self, s, p, r, q, t):
        """One session and its inverse under the same randomness: (p, r) and (q, t) are prediction and record."""
        if r["rc"] != [0, 0] or t["rc"] != [0, 0]:
            return None
        raw, raw2 = bytes.fromhex(r["ab"]), bytes.fromhex(t["ab"])
        why = L.repeats(raw) or L.same_steps(raw)
        if why:
            return why
        cand = L.steps(raw, raw2)
        why = L.repeats(raw, 2, cand)
        if why:
            return why
        try:
            m1, m2 = wire.decode(r["ab"], p["ab"]), wire.decode(t["ab"], q["ab"])
        except wire.Mismatch:
            self.ctx.note("unreadable")
            return None
        return self.symbols(p, m1, q, m2)

    def symbols(self, p, m1, q, m2):
        l1 = [(x, L.num(b)) for y, m in zip(p["ab"], m1) if y["k"] == "labels" for x, b in zip(y["ls"], m["blocks"])]
        l2 = [(x, L.num(b)) for y, m in zip(q["ab"], m2) if y["k"] == "labels" for x, b in zip(y["ls"], m["blocks"])]
        same = list(zip(l1, l2))
        ds = {a ^ b for (x, a), (y, b) in same if (0 in x) != (0 in y)}
        if not ds:
            return None
        if len(ds) > 1:
            return "the labels of a wire do not always differ by the same offset"
        R = ds.pop()
        if R & 1 == 0:
            return "the last bit of the secret offset is 0"
        for (x, a), (y, b) in same:
            if (0 in x) == (0 in y) and [k for k in x if k] == [k for k in y if k] and a != b:
                return "the label of an unchanged bit changes with other bits"
        sol = L.Solved(R)
        for x, v in l1:
            why = sol.learn(x, v)
            if why:
                return why
        rows = [(x["rows"], x["gid"]) for m in m1 if m["k"] == "tables" for x in m["tables"]]
        why = self.rows(p, rows, sol, L.num(m1[0]["key"]), m1[0]["key"])
        if why:
            return why
        vecs = [("the global key", L.num(m1[0]["key"]))] + [("a label", v) for _, v in l1]
        vecs += [("row %d of the table of gate %d" % (j, g), L.num(x)) for xs, g in rows for j, x in enumerate(xs)]
        vecs += [("a computed label", sol.val[a]) for a in sol.computed]
        if len(vecs) > 90:
            self.ctx.rng.shuffle(vecs)
            vecs = vecs[:90]
        sp = L.Span()
        for k, (what, v) in enumerate(vecs + [("the secret offset", R)]):
            if not sp.add(v):
                return "%s is a combination of other blocks the evaluator has" % what
            self.ctx.note("blocks_independent")
        return None

    def rows(self, p, rows, sol, key, raw):
        """Recorded tables against the construction of HalfGate.tla; learns the labels they open to."""
        aes = L.AES(raw)
        sol.computed = []
        types = self.types
        for t, (xs, g) in zip(p.get("tables", []), rows):
            if t["g"] != g:
                return None
            A, B = sol.zero(t["a"]), sol.zero(t["b"])
            if A is None or B is None:
                continue
            r = [L.num(x) for x in xs]
            good, weak = L.hashes(aes, t["cyc"], g)
            for ways, bad in ((good, False), (weak, True)):
                for name, h in ways.items():
                    x0, x1, z = L.garble(self.combos, types[g], h, A, B, sol.R)
                    if [x0, x1] == r:
                        if bad:
                            return "the hash of the labels in the table of gate %d in cycle %d is %s" % (g, t["cyc"], name)
                        sol.val[t["atom"]] = z
                        sol.computed.append(t["atom"])
                        self.ctx.note("tables_as_specified")
                        break
                else:
                    continue
                break
            else:
                self.ctx.note("tables_of_another_construction")
        return None


def balance(name, vals, bits=128):
    n = len(vals)
    if n < 48:
        return None
    tol = 6.5 * .5 * math.sqrt(n)
    for k in range(bits):
        ones = sum(v >> k & 1 for v in vals)
        if abs(ones - n / 2) > tol:
            return "bit %d of %s is 1 in %d of %d sessions" % (k, name, ones, n)
    return None


def statistics(ctx, b, preds, ss, jobs):
    """Sessions with the real generator at a standing clock: values of all slots, over fresh processes."""
    n = ctx.scale(208, 1600)
    js = [dict(j) for j in jobs for _ in range(n)]
    recs = ctx.run(b, js) + ctx.run(b, [dict(j) for j in js])
    ctx.traces += len(recs)
    per = {}
    for i, r in enumerate(recs):
        per.setdefault(i % len(js) // n, []).append(r)
    seen = {}
    for k, rs in per.items():
        s, p = ss[k], preds[k]
        slots, firsts = {}, {}
        steps = {}
        prev = None
        for i, r in enumerate(rs):
            if r["rc"] != [0, 0]:
                return None
            raw = bytes.fromhex(r["ab"])
            for o, w in L.windows(raw, 4):
                if w in seen and seen[w][:2] != (k, i):
                    return "the 16 bytes at %d of session %s were sent at %d of session %s" % (o, (k, i), seen[w][2], seen[w][:2])
                seen[w] = (k, i, o)
            try:
                m = wire.decode(r["ab"], p["ab"])
                mb = wire.decode(r["ba"], p["ba"])
            except wire.Mismatch:
                ctx.note("unreadable")
                continue
            v = [("the global key", L.num(m[0]["key"]))]
            for x in m:
                if x["k"] == "labels":
                    v += [("label", L.num(q)) for q in x["blocks"]]
                elif x["k"] == "tables":
                    v += [("row", L.num(q)) for t in x["tables"] for q in t["rows"]]
            for z, (what, q) in enumerate(v):
                slots.setdefault(("%s sent as block %d" % (what, z), 128), []).append(q)
                if z:
                    slots.setdefault(("%s in block %d with its predecessor" % (what, z), 128), []).append(q ^ v[z - 1][1])
            for who, log, ms in (("garbler", p["ab"], m), ("evaluator", p["ba"], mb)):
                for z, (y, x) in enumerate(zip(log, ms)):
                    if y["k"] == "lsb" and [a for a in y["l"] if a]:
                        slots.setdefault(("the share in message %d of the %s" % (z, who), 1), []).append(x["v"] & 1)
            cur = [q for _, q in v]
            if prev:
                for z, (a, c) in enumerate(zip(prev, cur)):
                    d = a ^ c
                    if bin(d).count("1") < 18 or d in steps:
                        return "block %d of consecutive sessions is related" % z
                    steps[d] = z
            prev = cur
        for (name, bits), vals in slots.items():
            why = balance(name, vals, bits)
            if why:
                return why
        ctx.note("slots_balanced", len(slots))
    return None


def transfers(ctx, b, ss, preds, jobs, n):
    """Both labels of every pair offered in oblivious transfers (the garbler's keys are captured)."""
    recs = ctx.run(b, [dict(j) for j in jobs for _ in range(n)])
    ctx.traces += len(recs)
    todo, got = [], []
    for i, r in enumerate(recs):
        s, p = ss[i // n], preds[i // n]
        if r["rc"] != [0, 0]:
            continue
        try:
            ab, ba = wire.decode(r["ab"], p["ab"]), wire.decode(r["ba"], p["ba"])
        except wire.Mismatch:
            ctx.note("unreadable")
            continue
        ks = c09.keys(r["keys"][0])
        offers, replies, reqs = [m for m in ab if m["k"] == "otpub" and m["n"]], [m for m in ab if m["k"] == "otrep"], [m for m in ba if m["k"] == "otreq"]
        own = [L.num(x) for m in ab if m["k"] == "labels" for x in m["blocks"]]
        for o, y, q in zip(offers, replies, reqs):
            if o["N"] not in ks or not all(0 <= v < o["N"] for v in q["v"]):
                ctx.note("unreadable")
                continue
            got.append((i, o, y, q, own))
            todo.append((o["N"],) + ks[o["N"]] + ([(v - x[j]) % o["N"] for x, v in zip(o["x"], q["v"]) for j in (0, 1)],))
    c09.ROOTS.clear()
    c09.roots(todo)
    offs, slots, seen = {}, {}, {}
    for z, (i, o, y, q, own) in enumerate(got):
        for k, (x, v, yy) in enumerate(zip(o["x"], q["v"], y["y"])):
            m = [yy[j] - c09.ROOTS[o["N"], (v - x[j]) % o["N"]] for j in (0, 1)]
            if not all(0 <= a < 1 << 128 for a in m):
                ctx.note("unreadable")
                continue
            R = m[0] ^ m[1]
            if offs.setdefault(i, R) != R:
                return "the labels offered for two bits of a session do not differ by the same offset"
            if R & 1 == 0:
                return "the last bits of the two labels offered for a bit are the same"
            for a in m:
                if a in seen:
                    return "a label is offered twice"
                seen[a] = 1
            slots.setdefault((i // n, z % max(1, len(got) // len(recs)), k), []).append(m[0])
            slots.setdefault("offset", []).append(R) if k == 0 else None
        for a in own:
            if a in seen or a ^ offs.get(i, 0) in seen:
                return "a label of the garbler's is offered again"
    for k, vals in slots.items():
        why = balance("the offset" if k == "offset" else "the zero-label of bit %s" % (k[2],), vals)
        if why and not (k == "offset" and why.startswith("bit 0 ")):
            return why
        if k == "offset":
            why = balance("the offset", [v >> 1 for v in vals], 127)
            if why:
                return why
    for i, a in offs.items():
        if list(offs.values()).count(a) > 1:
            return "two sessions have the same secret offset"
    ctx.note("pairs_opened", len(seen) // 2)
    return None


def far(ctx, b, scd):
    """Gate and cycle numbers beyond 2^8 and 2^16: no table row twice, nor two rows the offset apart."""
    big = 66000 if ctx.thorough else 66000
    ng = big
    gates = [("AND", 0, 1)] * ng + [("XOR", 2, 3)] + [("XOR", 2 + ng + k, 4 + k) for k in range(ng - 2)]
    c1 = gen.circuit(gx=1, ex=1, gates=gates, out=[2 + len(gates) - 1])
    c2 = gen.circuit(gi=1, ei=1, gates=[("AND", 2, 3)], D=[2, 3], I=[0, 1], out=[4])
    out = []
    for c, cc, low in ((c1, 1, True), (c1, 1, False), (c2, 66000, True), (c2, 66000, False)):
        x = dict(pinit=[], pin=[], ginit=[0] * c["gi"], einit=[0] * c["ei"], gin=[0] * c["gx"], ein=[0] * c["ex"])
        s = F.sess(c, x, cc, 0, [], low)
        for q in (s, dict(s, x=dict(x, ginit=[1] * c["gi"], einit=[1] * c["ei"], gin=[1] * c["gx"], ein=[1] * c["ex"]))):
            out.append(gen.job(q, scd(c), stream=1, seed=3, limit=300))
    recs = ctx.run(b, out)
    ctx.traces += len(recs)
    for i in range(0, len(recs), 2):
        if recs[i]["rc"] != [0, 0] or recs[i + 1]["rc"] != [0, 0]:
            ctx.note("far_not_completed")
            continue
        raw, raw2 = bytes.fromhex(recs[i]["ab"]), bytes.fromhex(recs[i + 1]["ab"])
        why = L.repeats(raw, 2, L.steps(raw[:4096], raw2[:4096]))
        if why:
            return "%s: %s" % (("66000 gates with the same operands", "66000 cycles with the same operands")[i // 4], why)
        ctx.note("far_bytes", len(raw))
    return None


def clean(ctx, b, jobs):
    """No memory contents: the same randomness gives the same bytes whatever memory held before."""
    again = lambda v, d=b: ctx.run(d, [dict(j) for j in jobs], env={"MALLOC_PERTURB_": v})
    runs = [again("85"), again("170"), again("51", build.build("pattern"))]
    for x, y in zip(again("85"), runs[0]):
        if x["ab"] == y["ab"]:
            continue
        diff = "".join(".x"[p != q] for p, q in zip(bytes.fromhex(x["ab"]), bytes.fromhex(y["ab"])))
        if len(x["ab"]) == len(y["ab"]) and max(map(len, diff.split("."))) <= 12:      # too short for random blocks
            return "bytes at %d and later differ between runs with the same randomness: memory contents are sent" % diff.index("x")
        ctx.note("not_deterministic")
        return None
    for i, rs in enumerate(zip(*runs)):
        for d, who in (("ab", "garbler"), ("ba", "evaluator")):
            if any(r["rc"] != [0, 0] for r in rs):
                continue
            if len({r[d] for r in rs}) > 1:
                x, y = [r[d] for r in rs if r[d] != rs[0][d]][0], rs[0][d]
                k = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y))) // 2
                return "byte %d sent by the %s depends on what memory held before (session %d)" % (k, who, i)
    return None


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    base = [dict(s, noot=True) for s in twins(rng) + F.chains(rng, ctx.scale(25, 400)) + F.randoms(rng, ctx.scale(40, 800)) + F.matrix(rng, 1, per=12)[::ctx.scale(12, 1)]]
    st = []
    for low in (False, True):
        c = gen.circuit(gi=1, ei=1, gx=1, ex=1, gates=[("AND", 2, 3), ("ORN", 4, 5), ("XOR", 6, 7)], D=[7, 5], I=[0, 1], out=[6, 7, 8])
        st.append(F.sess(c, gen.rand_inputs(rng, c, 2, extra=False), 2, low=low, mask=[0, 1, 1]))
    ots = []
    for low in (False, True):
        c = gen.circuit(gi=1, ei=2, gx=1, ex=2, gates=[("AND", 3, 4), ("ORN", 6, 7), ("XOR", 9, 5)], D=[9, 10, 8], I=[0, 1, 2], out=[9, 10, 11])
        ots.append(F.sess(c, gen.rand_inputs(rng, c, 2, extra=False), 2, low=low, noot=False, mask=[0, 1, 1]))
    halves = [x for s in base for x in (s, flip(s))]
    res = parallel([lambda: ctx.tlc("HalfGate", HALF, workers=1), lambda: S.predict(ctx, halves, invs=S.INVS + " EmitTables"), lambda: S.predict(ctx, st + ots)])
    combos = {(x["t"], x["pa"], x["pb"]): x for x in res[0].lines}
    preds, extra = res[1], res[2]
    scd = S.Scd(ctx)
    jobs = [gen.job(s, scd(s["c"]), stream=1, seed=1 + i // 2) for i, s in enumerate(halves)]
    judge = Judge(ctx, combos)

    def look(idx):
        """Violations among the pairs with these numbers."""
        recs = ctx.run(b, [dict(jobs[2 * i + k]) for i in idx for k in (0, 1)])
        again = ctx.run(b, [dict(jobs[2 * i]) for i in idx])
        ctx.traces += len(recs)
        bad = []
        for z, i in enumerate(idx):
            if again[z]["ab"] != recs[2 * z]["ab"]:
                ctx.note("not_deterministic")
                continue
            judge.types = {k: g["t"] for k, g in enumerate(halves[2 * i]["c"]["gates"])}
            why = judge.pair(halves[2 * i], preds[2 * i], recs[2 * z], preds[2 * i + 1], recs[2 * z + 1])
            if why:
                bad.append((i, why))
        return bad
    bad = look(range(len(base)))
    if bad:
        bad = look([i for i, _ in bad])
    for i, why in bad[:5]:
        ctx.violation(why, dict(session=base[i]))
    stj = [gen.job(s, scd(s["c"]), stream=1, time=1700000000) for s in st]
    otj = [gen.job(s, scd(s["c"]), stream=1, keys=1, time=1700000000) for s in ots]
    few = [dict(j) for j in jobs[::2]] + [dict(j, seed=900 + i) for i, j in enumerate(stj + otj)]
    for what, f in (("fresh", lambda: statistics(ctx, b, extra, st, stj)), ("transfers", lambda: transfers(ctx, b, ots, extra[len(st):], otj, ctx.scale(60, 400))),
                    ("far", lambda: far(ctx, b, scd)), ("memory", lambda: clean(ctx, b, few))):
        why = f()
        if why:
            why = f()
        if why:
            ctx.violation(why, dict(part=what, seed=ctx.seed))
    ctx.sample(dict(session=S.brief(base[0]), tables=preds[0].get("tables")))
