"""C23: a session does not depend on the sessions before it."""
import json, os
import build, gen, families as F, labels as L, sessions as S, wire
from props import c09
from ctx import parallel

CFG = ("SPECIFICATION Spec\nCONSTANTS Histories <- FromFile Cap = %d Canonical = %s\n"
       "INVARIANTS Independent NeverBroken AllConsumed%s\nPROPERTIES OwnMessages%s\nCHECK_DEADLOCK TRUE\n")


def tlc(ctx, hs, cap, emit, procs=1):
    def part(k):
        f = os.path.join(ctx.work, "hist%d-%s-%d-%d.ndjson" % (cap, emit, len(hs), k))
        open(f, "w").write("".join(json.dumps(h) + "\n" for h in hs[k::procs]))
        return ctx.tlc("MCHistory", CFG % (cap, "TRUE" if emit else "FALSE", " Emit" if emit else "", "" if emit else " Finishes"),
                       env={"HISTORIES": f}, workers=2, mem="4g")
    out = [None] * len(hs)
    for k, r in enumerate(parallel([lambda k=k: part(k) for k in range(procs)])):
        for l in r.lines:
            out[k + (l["hid"] - 1) * procs] = l["res"]
    return out


def refused(rng, s):
    """The session with a setting that cannot be executed."""
    return dict(s, cc=0) if rng.random() < .6 or s["c"]["term"] else dict(s, period=rng.randint(1, 3))


def job(ctx, scd, h, **kw):
    j = dict(kind="gcs", n=len(h), **kw)
    for k, s in enumerate(h):
        for key, v in gen.job(s, scd(s["c"])).items():
            if key != "kind":
                j["%d.%s" % (k, key)] = v
    return j


def judge(h, p, r, fresh):
    if r["crash"] != [0, 0]:
        return "a party crashes (%s)" % r["crash"]
    if r["hang"] or r["deadlock"]:
        return "the parties never finish the sessions"
    for q, key in ((0, "outA"), (1, "outB")):
        got = [x.split(":", 1) for x in r["out"][q].split("|")]
        if len(got) != len(h):
            return "party %s has %d results" % ("AB"[q], len(got))
        for k, (rc, o) in enumerate(got):
            want = p[k]
            if int(rc) != want["rc"][q]:
                return "session %d of %d: return value %s of party %s instead of %d" % (k + 1, len(h), rc, "AB"[q], want["rc"][q])
            if want["rc"][q] == 0 and S.norm(o) != want[key]:
                return "session %d of %d: party %s reports %r instead of %r" % (k + 1, len(h), "AB"[q], o, "\n".join(want[key]))
    if r["w"] != r["r"]:
        return "bytes sent %s, bytes consumed %s" % (r["w"], r["r"])
    if fresh and "ab" in r:
        why = L.repeats(bytes.fromhex(r["ab"]))
        if why:
            return "something secret is used twice: " + why
    return None


def histories(rng, n):
    """Short histories of everything: all modes, stops, chains, refused requests; some sessions twice, some circuits again with other settings."""
    out = []
    for i in range(n):
        pool = F.randoms(rng, 2, max_gates=8, max_in=3) + F.chains(rng, 1) + F.stops(rng, 2)
        h = []
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            s = rng.choice(pool)
            if h and r < .2:
                s = h[-1]                               # the same once more
            elif h and r < .45:                         # the circuit of before, otherwise different
                s = h[-1]
                cc = rng.choice([1, 2, 5, max(1, s["cc"])])
                s = dict(s, x=gen.rand_inputs(rng, s["c"], cc), cc=cc, period=0, low=not s["low"] if rng.random() < .6 else s["low"], noot=rng.random() < .5,
                         mask=gen.rand_bits(rng, len(s["c"]["out"])), mode=rng.choice(["consecutive", "separated", "last"]))
            if r > .88:
                s = refused(rng, s)
            h.append(s)
        out.append(h)
    return out


def secrets(ctx, b):
    """Keys, offsets, labels, masks and hidden choices of the sessions of one history, as far as the recorded transfers determine them."""
    rng = ctx.rng
    ss = []
    for i in range(ctx.scale(12, 60)):
        if i % 4 == 3:
            ss.append(c09.wide_session(rng, i % 8 == 3, 1, 150 + i, 1))     # by the extension
        else:
            gx, ex, ei, gi = rng.randint(1, 2), rng.randint(1, 3), rng.randint(0, 2), rng.randint(0, 1)
            lo = gi + ei + gx + ex
            nd = gi + ei
            gates = [("AND", gi + ei, lo - 1)] + [(rng.choice(["AND", "ORN", "NOR", "NANDN"]), lo + nd + k, gi + ei + k % (gx + ex)) for k in range(3)]
            c = gen.circuit(gi=gi, ei=ei, gx=gx, ex=ex, gates=gates, D=[lo + nd + k % 4 for k in range(nd)], I=list(range(nd)), out=[lo + nd + 3, lo + nd])
            cc = rng.randint(1, 3)
            ss.append(F.sess(c, gen.rand_inputs(rng, c, cc, extra=False), cc, low=i % 2 == 0, noot=False, mask=[1, 0]))
    preds = S.predict(ctx, ss)
    hs = []
    for k in range(ctx.scale(5, 40)):
        i = [rng.randrange(len(ss)) for _ in range(4)]
        hs.append([3, 7, 3, i[0]] if k == 0 else [i[0], i[1], i[0], i[0], i[2]])
    scd = S.Scd(ctx)
    mk = lambda h: dict(job(ctx, scd, [ss[i] for i in h], stream=1, keys=1, draws=1, limit=120))

    def look(hs):
        recs = ctx.run(b, [mk(h) for h in hs])
        per, todo = [], []
        for h, r in zip(hs, recs):
            try:
                ab = wire.decode(r["ab"], [m for i in h for m in preds[i]["ab"]])
                ba = wire.decode(r["ba"], [m for i in h for m in preds[i]["ba"]])
            except wire.Mismatch:
                ctx.note("unreadable")
                per.append(None)
                continue
            ks = {**c09.keys(r["keys"][0]), **c09.keys(r["keys"][1])}
            at, parts = [0, 0], []
            for i in h:
                x, y = ab[at[0]:at[0] + len(preds[i]["ab"])], ba[at[1]:at[1] + len(preds[i]["ba"])]
                at[0] += len(x)
                at[1] += len(y)
                groups = [(q, q2, q3, who) for p_, o_, who in ((x, y, 0), (y, x, 1))
                          for q, q2, q3 in zip([m for m in p_ if m["k"] == "otpub" and m["n"]], [m for m in o_ if m["k"] == "otreq" and m["v"]], [m for m in p_ if m["k"] == "otrep" and m["y"]])]
                parts.append((i, x, groups))
                for o, q, y_, who in groups:
                    if o["N"] in ks and who == 0 and all(0 <= v < o["N"] for v in q["v"]):
                        todo.append((o["N"],) + ks[o["N"]] + ([(v - z[j]) % o["N"] for z, v in zip(o["x"], q["v"]) for j in (0, 1)],))
            per.append((parts, r))
        c09.roots(todo)
        return [None if p is None else same(*p) for p in per]

    def same(parts, r):
        seen = {}

        def once(what, v, k):
            if v in seen.setdefault(what, {}) and seen[what][v] != k:
                return "%s of session %d is that of session %d" % (what, k + 1, seen[what][v] + 1)
            seen[what][v] = k
            return None
        draws = [int(x, 16) for q in r["draws"] for x in q.split(";") if x]
        for k, (i, x, groups) in enumerate(parts):
            vals = [("the global key", m["key"]) for m in x if m["k"] == "key"] + [("a label", L.num(v)) for m in x if m["k"] == "labels" for v in m["blocks"]]
            vals += [("a row of a table", row) for m in x if m["k"] == "tables" for t in m["tables"] for row in t["rows"]]
            for o, q, y, who in groups:
                N, e = o["N"], o["e"]
                vals += [("the key of a transfer", N)] + [("a random number offered in a transfer", v) for z in o["x"] for v in z] + [("a request in a transfer", v) for v in q["v"]]
                if who == 0:                            # the garbler offers pairs of labels
                    for z, v, yy in zip(o["x"], q["v"], y["y"]):
                        ms = [yy[j] - c09.ROOTS.get((N, (v - z[j]) % N), -1 << 200) for j in (0, 1)]
                        if all(0 <= m < 1 << 128 for m in ms):
                            vals += [("a label", m) for m in ms] + [("the secret offset", ms[0] ^ ms[1])]
                else:                                   # the garbler chooses: the hidden choice of the extension
                    enc = {pow(d % N, e, N) for d in draws}
                    bits = [[(v - z[j]) % N in enc for j in (0, 1)] for z, v in zip(o["x"], q["v"])]
                    if all(sum(x) == 1 for x in bits) and len(bits) > 40:
                        vals.append(("the hidden choice of the extension", tuple(x[1] for x in bits)))
            for what, v in vals:
                why = once(what, v, k)
                if why:
                    return why
                ctx.note("secrets: " + what)
        return None
    bad = [k for k, w in enumerate(look(hs)) if w]
    ctx.traces += len(hs)
    if bad:
        for h, why in zip([hs[k] for k in bad], look([hs[k] for k in bad])):
            if why:
                ctx.violation("after other sessions: " + why, dict(history=[S.brief(ss[i]) for i in h]))


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    secrets(ctx, b)
    hs = histories(rng, ctx.scale(110, 1500))
    tiny = []
    for _ in range(ctx.scale(8, 60)):
        c = rng.choice(gen.tiny(rng, 4, True))
        s = [F.sess(c, gen.rand_inputs(rng, c, 2), rng.randint(1, 2), 0, gen.rand_bits(rng, len(c["out"])), low=rng.random() < .5, noot=rng.random() < .4) for _ in range(2)]
        tiny.append(s if rng.random() < .7 else [s[0], refused(rng, s[1]), s[1]])
    # long histories: the same processes and connection for dozens of sessions
    base = F.randoms(rng, ctx.scale(60, 400)) + F.chains(rng, ctx.scale(30, 200)) + F.stops(rng, ctx.scale(30, 200))
    big = [F.wide(rng, k) for k in ("otext", "otmix", "outputs", "gates", "cycles")]
    preds = parallel([lambda: tlc(ctx, hs, 0, True, 4), lambda: tlc(ctx, tiny, 1, False), lambda: tlc(ctx, tiny, 2, False), lambda: S.predict(ctx, base + big, full=False, procs=2)])
    one = lambda s, p: dict(rc=[0, 0], outA=p["outA"], outB=p["outB"]) if s["cc"] else dict(rc=[-1, -1], outA=[], outB=[])
    todo = [(h, p, True) for h, p in zip(hs, preds[0])]
    known = list(zip(base + big, preds[3]))
    long = []
    for i in range(ctx.scale(6, 40)):
        pick = [rng.choice(known[:len(base)]) for _ in range(rng.choice([20, 40, 70]))]
        pick = [x if rng.random() > .1 else (dict(x[0], cc=0), x[1]) for x in pick]
        long.append(([s for s, _ in pick], [one(s, p) for s, p in pick], i % 2 == 0))
    for i in range(ctx.scale(5, 20)):
        pick = [rng.choice(known[len(base):]), rng.choice(known[:len(base)]), known[len(base) + i % len(big)], rng.choice(known[:len(base)]), known[len(base) + i % len(big)]]
        long.append(([s for s, _ in pick], [one(s, p) for s, p in pick], False))
    todo += long
    scd = S.Scd(ctx)
    caps = [dict(), dict(frag=-7), dict(cap=4096), dict(), dict(cap=600, frag=-500), dict(cap=100000, frag=3001)]
    jobs = [job(ctx, scd, h, stream=int(fresh), limit=120, **caps[i % len(caps)]) for i, (h, p, fresh) in enumerate(todo)]
    recs = ctx.run(b, [dict(j) for j in jobs])
    ctx.traces += len(recs)
    bad = 0
    for j, (h, p, fresh), r in zip(jobs, todo, recs):
        if any(x in r["rc"] for x in (-90, -91)):
            ctx.note("interfaces_gone")
            continue
        if judge(h, p, r, fresh) and bad < 6:
            r = ctx.run(b, [dict(j)])[0]
            why = judge(h, p, r, fresh)
            if why:
                bad += 1
                ctx.violation("after other sessions: " + why, dict(history=h if len(h) < 8 else len(h), expected=p if len(h) < 8 else None, record={k: v for k, v in r.items() if k not in ("ab", "ba")}))
    ctx.sample(dict(history=[S.brief(s) for s in hs[0]], expected=preds[0][0], observed=recs[0]["out"]))
    ctx.note("sessions", sum(len(h) for h, _, _ in todo))
    ctx.note("histories", len(todo))
