"""C02: each output bit is revealed to exactly the party the mask names."""
import build, gen, families as F, sessions as S


def lsbs(p):
    return [sum(m["k"] == "lsb" for m in p[d]) for d in ("ab", "ba")]


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    base = F.chains(rng, ctx.scale(60, 600)) + F.randoms(rng, ctx.scale(110, 1500)) + F.randoms(rng, ctx.scale(20, 200), max_out=14, max_gates=30) \
        + F.matrix(rng, 2)[:: ctx.scale(3, 1)]
    trip = []
    for s in base:                      # the session's mask, everything to A, everything to B
        n = len(s["c"]["out"])
        trip += [s, dict(s, mask=[1] * n), dict(s, mask=[0] * n)]
    preds = S.predict(ctx, trip)
    scd = S.Scd(ctx)

    def outcome(k):
        """runs the three sessions of one triple (same randomness) again"""
        return ctx.run(b, [gen.job(s, scd(s["c"]), seed=k + 1) for s in trip[3 * k:3 * k + 3]])

    def judge(k, recs):
        p = preds[3 * k:3 * k + 3]
        for s, q, r in zip(trip[3 * k:], p, recs):
            if r["rc"] != [0, 0] or r["crash"] != [0, 0]:
                return None if any(x["rc"] != [0, 0] for x in recs) and S.failure(r) is None else "no outputs: the session " + str(S.failure(r))
            why = S.wrong_output(r, q, s)
            if why:
                return why
        # Messages about outputs: what changes with the mask, everything else being equal
        if not trip[3 * k]["noot"]:          # numbers in oblivious transfers vary in length
            return None
        for d in (0, 1):
            for other in (1, 2):
                want = 2 * (lsbs(p[0])[d] - lsbs(p[other])[d])
                got = recs[0]["w"][d] - recs[other]["w"][d]
                if want != got:
                    return "mask %s: %s sends %d bytes more than with mask %s, specified are %d" % (
                        "".join(map(str, trip[3 * k]["mask"])), ("garbler", "evaluator")[d], got, ("all ones", "all zeros")[other - 1], want)
        # nobody hears about a bit of the other one: with all bits on one side the other direction carries no output message
        return None
    recs = ctx.run(b, [gen.job(s, scd(s["c"]), seed=i // 3 + 1) for i, s in enumerate(trip)])
    ctx.traces += len(recs)
    for k in range(len(base)):
        why = judge(k, recs[3 * k:3 * k + 3])
        if why:
            why = judge(k, outcome(k))
        if why:
            ctx.violation(why, dict(session=base[k], predictions=[{x: q[x] for x in ("outA", "outB", "n")} for q in preds[3 * k:3 * k + 3]]))
    ctx.sample(dict(session=S.brief(base[0]), mask=base[0]["mask"], expected=[preds[0]["outA"], preds[0]["outB"]], observed=recs[0]["out"]))
    ctx.note("output_bits", sum(len(s["c"]["out"]) * p["n"][0] for s, p in zip(trip, preds)))
