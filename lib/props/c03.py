"""C03: both parties stop in the cycle the terminate signal dictates."""
import build, families as F, sessions as S


def cycles(out):
    return len(out.split("\n"))


def judge(s, p, r):
    n = p["n"]
    if r["rc"] != [0, 0]:
        return "terminated session: " + (S.failure(r) or "does not complete")
    if s["mode"] == "separated":
        for who in (0, 1):
            if cycles(r["out"][who]) != n:
                return "%s reports %d cycles instead of %d" % (("garbler", "evaluator")[who], cycles(r["out"][who]), n)
    return S.wrong_output(r, p, s)


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    ss = F.stops(rng, ctx.scale(330, 4000)) + F.randoms(rng, ctx.scale(150, 2000), term=True, max_cc=6)
    ss = [dict(s, mode="separated" if i % 4 else s["mode"]) for i, s in enumerate(ss)]
    preds = S.predict(ctx, ss)
    for p in preds:
        assert p["n"][0] == p["n"][1]
    preds = [dict(p, n=p["n"][0]) for p in preds]
    long = F.long_stops(rng, ctx.scale(6, 40))
    lp = S.predict(ctx, long, full=False, procs=2)
    S.check(ctx, b, ss, preds, judge)
    S.check(ctx, b, long, lp, judge)
    ctx.note("stopped_early", sum(p["n"] < s["cc"] for s, p in zip(ss + long, preds + lp)))
    ctx.note("ran_to_the_end", sum(p["n"] == s["cc"] for s, p in zip(ss + long, preds + lp)))
    ctx.note("secret_terminate", sum(any(m["k"] == "lsb" for m in p["ba"]) and s["period"] > 0 for s, p in zip(ss, preds)))
