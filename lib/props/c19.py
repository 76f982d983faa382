"""C19: requests that cannot be executed are refused with failure."""
import json, os
import build, gen, families as F, sessions as S
from ctx import parallel

INV1 = "WellFormedSession Refused Emit"


def outcome(r):
    if r["crash"] != [0, 0]:
        return "a party crashes (%s)" % r["crash"]
    if r["hang"] or r["deadlock"]:
        return "the parties hang"
    return None


def refused(s, p, r):
    if outcome(r):
        return outcome(r)
    if r["rc"] != [-1, -1]:
        return "is not refused: return values %s, outputs %r" % (r["rc"], r["out"])
    if r["w"] != [0, 0]:
        return "is refused only after %s bytes were sent" % r["w"]
    return None


def one_sided(who):
    def judge(s, p, r):
        if outcome(r):
            return outcome(r)
        if r["rc"][who] != -1 or r["w"][who] != 0:
            return "is not refused by the %s: return value %s after %d bytes" % (("garbler", "evaluator")[who], r["rc"][who], r["w"][who])
        return None
    return judge


def other_circuit(rng, c):
    """The same circuit with some gates of another type (operands stay), so that it may need other tables."""
    gates = [dict(g) for g in c["gates"]]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        g = rng.choice(gates)
        if g["t"] != "NOT":
            g["t"] = rng.choice(["XOR", "XNOR", "AND", "NORN"] if rng.random() < .8 else gen.TYPES[:-1])
    return dict(c, gates=gates)


def broken_texts(rng, c):
    """Descriptions nobody can execute, with what is wrong with them."""
    w = gen.scd_text(c).split()
    out = [("", "empty description"), ("\n", "blank description"), (" ".join(w[:rng.randrange(1, 10)]), "description that ends in its header")]
    if len(w) > 10:
        n = rng.randrange(10, len(w))
        out.append((" ".join(w[:n]), "description that ends after %d of %d numbers" % (n, len(w))))
        out.append((" ".join(w[:-1]), "description without its last number"))
    k = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9])
    v = rng.choice(["-1", "-2", "-9223372036854775808", "9223372036854775807", "18446744073709551615"] + (["4000000000", "1000000000"] if k > 5 else []))
    out.append((" ".join(w[:k] + [v] + w[k + 1:]), "description with %s as size %d" % (v, k)))
    k = rng.randrange(len(w))
    out.append((" ".join(w[:k] + ["x"] + w[k + 1:]), "description with a word in place of number %d" % k))
    return out


def misnumbered(rng, c):
    """The circuit with one number that (mostly) names nothing."""
    d = json.loads(json.dumps(c))
    W = gen.wires(c)
    bad = rng.choice([rng.randrange(gen.init_size(c))] if gen.init_size(c) and rng.random() < .3 else [-1, -4, -7, W, W + 1, W + rng.randrange(2, 60), 2 ** 31 - 1, -2 ** 31 + 1, W - 1])
    kind = rng.choice(["a", "a", "b", "b", "out", "out", "D", "term", "size", "const"])
    if kind in ("a", "b") and d["gates"]:
        k = rng.randrange(len(d["gates"]))
        d["gates"][k][kind] = bad if rng.random() < .6 else W - len(d["gates"]) + rng.randrange(k, len(d["gates"]))
    elif kind == "out" and d["out"]:
        d["out"][rng.randrange(len(d["out"]))] = bad
    elif kind == "const" and d["out"]:
        d["out"][rng.randrange(len(d["out"]))] = rng.choice([-2, -3])
    elif kind == "D" and d["D"]:
        d["D"][rng.randrange(len(d["D"]))] = bad
    elif kind == "term":
        d["term"] = abs(bad)
    elif kind == "size":            # fewer wires than the rest of the description goes by
        k = rng.choice(["gi", "ei", "px", "gx", "ex"])
        d[k] = max(0, d[k] - 1)
    return d, kind


def check(ctx):
    rng = ctx.rng
    vs = [build.build("log"), build.build("nolog")]
    base = F.randoms(rng, ctx.scale(60, 800)) + F.stops(rng, ctx.scale(15, 200)) + F.edges(rng)[::3]
    ss, paths, what, other = [], [], [], []
    scd = S.Scd(ctx)
    for i, s in enumerate(base):
        ok = scd(s["c"])

        def add(session, path, desc, **kw):
            other.append(kw)
            ss.append(session)
            paths.append(path)
            what.append(desc)
        add(dict(s, cc=0), ok, "zero cycles")
        if s["c"]["term"] == 0:
            add(dict(s, period=rng.choice([1, 2, 7])), ok, "terminate period without terminate signal")
        for k in rng.sample(["p_init", "p_input", "init", "input", "mask"], 2):
            t = gen.no_number(rng, gen.hexnum(gen.rand_bits(rng, rng.choice([1, 4, 9, 40, 200]))))
            kw = {k: t} if k[0] in "pm" else {"g_" + k: t, "e_" + k: t}
            add(dict(s, texts=[gen.digit_values(t)]), ok, "%r as %s" % (t, k), **kw)
        un = dict(s, readable=False)
        add(un, os.path.join(ctx.work, "none%d.scd" % i), "description that does not exist")
        if i % 3 == 0:
            for k, (t, d) in enumerate(broken_texts(rng, s["c"])):
                q = os.path.join(ctx.work, "bad%d-%d.scd" % (i, k))
                open(q, "w").write(t)
                add(un, q, d)
        for r in range(2):
            d, k = misnumbered(rng, s["c"])
            if d != s["c"]:
                add(dict(s, d=d), scd(d), "description with a wrong number (%s)" % k)
    # parties that mean different circuits
    diff = []
    pool = F.randoms(rng, ctx.scale(260, 3000), max_gates=10) + F.chains(rng, ctx.scale(60, 600))
    for s in pool:
        c = s["c"]
        if s["low"] and s["cc"] > 1:                 # outputs that cannot get the parties out of step between cycles
            if c["px"] == 0 or not c["D"]:
                s = dict(s, low=False)
            else:
                s = dict(s, c=dict(c, out=[gen.init_size(c)], D=[gen.wires(c) - 1 - k % len(c["gates"]) for k in range(len(c["D"]))]))
        if any(g["t"] != "NOT" for g in s["c"]["gates"]):
            c2 = other_circuit(rng, s["c"])
            if c2 != s["c"]:
                diff.append(dict(s, c2=c2, noot=True, period=0, mask=[]))
    preds, dp = parallel([lambda: S.predict(ctx, ss, invs=INV1), lambda: S.predict(ctx, diff, invs="WellFormedSession Counted Emit")])
    for v, b in enumerate(vs):
        sel = range(len(ss)) if v == 0 or ctx.thorough else range(0, len(ss), 4)
        jobs = [gen.job(ss[i], paths[i], **other[i]) for i in sel]
        recs = ctx.run(b, [dict(j) for j in jobs])
        ctx.traces += len(recs)
        for i, j, r in zip(sel, jobs, recs):
            if "d" in ss[i] and preds[i]["rc"] != [-1, -1]:          # means something after all
                continue
            assert preds[i]["rc"] == [-1, -1] and not preds[i]["ab"] and not preds[i]["ba"]
            if refused(ss[i], preds[i], r) and len(ctx.violations) < 10:
                r = ctx.run(b, [dict(j)])[0]
                why = refused(ss[i], preds[i], r)
                if why:
                    ctx.violation("a request with %s %s" % (what[i], why), dict(session=ss[i], scd=open(paths[i]).read() if os.path.exists(paths[i]) else None, record=r))
    # only one of the parties cannot execute its request
    for who in (0, 1):
        side = "ab"[who]
        part = [k for k in range(len(ss)) if k % 5 == who and preds[k]["rc"] == [-1, -1]]
        jobs = [gen.job(dict(ss[k], cc=max(1, ss[k]["cc"]), period=0 if ss[k]["c"]["term"] == 0 else ss[k]["period"]), scd(ss[k]["c"]),
                        **{side + ".scd": paths[k], side + ".cc": ss[k]["cc"], side + ".period": ss[k]["period"],
                           **{side + "." + o: t for o, t in other[k].items()}}) for k in part]
        recs = ctx.run(vs[0], [dict(j) for j in jobs])
        ctx.traces += len(recs)
        for k, j, r in zip(part, jobs, recs):
            if one_sided(who)(ss[k], None, r) and len(ctx.violations) < 10:
                r = ctx.run(vs[0], [dict(j)])[0]
                why = one_sided(who)(ss[k], None, r)
                if why:
                    ctx.violation("a request with %s at one party %s" % (what[k], why), dict(session=ss[k], record=r))
    # the plaintext evaluator cannot execute them either
    part = [k for k in range(len(ss)) if preds[k]["rc"] == [-1, -1] and "mask" not in other[k]]
    jobs = []
    for k in part:
        if os.path.exists(paths[k]) and not os.path.exists(paths[k] + ".map"):
            c = ss[k]["c"]
            open(paths[k] + ".map", "w").write("".join("n%d %d\n" % (w, w) for w in range(gen.dff_lo(c), gen.wires(c))) + "terminate %d\n" % c["term"])
        jobs.append(gen.job(ss[k], paths[k], **other[k]))
        jobs[-1].update(kind="fn", fn="plain")

    def plain(r):
        if r["crash"] != [0, 0] or r["hang"]:
            return "crashes" if r["crash"] != [0, 0] else "does not return"
        return None if r["rc"][0] in (-1, -90, -91) else "is not refused: returns %s with %.100r" % (r["rc"][0], r["out"][0])
    recs = ctx.run(vs[0], [dict(j) for j in jobs])
    ctx.traces += len(recs)
    for k, j, r in zip(part, jobs, recs):
        if plain(r) and len(ctx.violations) < 10:
            r = ctx.run(vs[0], [dict(j)])[0]
            if plain(r):
                ctx.violation("a plaintext evaluation with %s %s" % (what[k], plain(r)), dict(session=ss[k], record=r))
    # more or fewer tables than the evaluator needs
    jobs = [gen.job(s, scd(s["c"]), **{"b.scd": scd(s["c2"])}) for s in diff]
    for v, b in enumerate(vs):
        sel = range(len(diff)) if v == 0 or ctx.thorough else range(0, len(diff), 3)
        recs = ctx.run(b, [dict(jobs[i]) for i in sel])
        ctx.traces += len(recs)
        for i, r in zip(sel, recs):
            def judge(r):
                if dp[i]["rc"][1] == -1 and r["rc"][1] == 0:
                    return "reports %r although its circuit needs other tables than it received" % r["out"][1]
                return outcome(r)
            if judge(r) and len(ctx.violations) < 10:
                r = ctx.run(b, [dict(jobs[i])])[0]
                why = judge(r)
                if why:
                    ctx.violation("an evaluator with a different circuit " + why, dict(session=diff[i], predicted=dp[i]["rc"], record=r))
    ctx.sample(dict(session=S.brief(ss[0]), request=what[0], expected=[-1, -1], bytes=0))
    ctx.note("refusals", len(ss))
    ctx.note("wrong_tables", sum(p["rc"][1] == -1 for p in dp))
    ctx.note("same_number_of_tables", sum(p["rc"][1] == 0 for p in dp))
