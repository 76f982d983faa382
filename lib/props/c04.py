"""C04: memory mode, OT switch and output mode never change the result."""
import build, families as F, sessions as S


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    base = F.chains(rng, ctx.scale(45, 500)) + F.randoms(rng, ctx.scale(60, 900), max_cc=6) + F.stops(rng, ctx.scale(25, 300))
    some = [F.wide(rng, k) for k in ("cycles", "outputs", "otmix")]
    var = []
    for s in base:
        for low in (False, True):
            for noot in (False, True):
                for mode in ("consecutive", "separated", "last"):
                    var.append(dict(s, low=low, noot=noot, mode=mode))
    wide = [dict(s, low=low, noot=noot, mode=mode) for s in some for low in (False, True) for noot in (False, True)
            for mode in ("consecutive", "separated", "last") if noot or s is some[2] and mode != "last" or mode == "consecutive" and s is not some[0]]
    # the protocol in full for one output mode each (the mode only enters the rendering), results for all
    full = [v for i, v in enumerate(var) if i % 3 == (i // 12) % 3]
    fp = S.predict(ctx, full)
    lp = S.predict(ctx, var, full=False)
    for i, v in enumerate(var):
        if i % 3 == (i // 12) % 3:
            p = fp.pop(0)
            assert (p["outA"], p["outB"]) == (lp[i]["outA"], lp[i]["outB"]), (v, p, lp[i])
    wp = S.predict(ctx, wide, full=False, procs=2)

    def judge(s, p, r):
        why = S.failure(r) or S.wrong_output(r, p, s)
        return why and "memory %s, %s OT, %s: %s" % ("low" if s["low"] else "high", "without" if s["noot"] else "with", s["mode"], why)
    S.check(ctx, b, var, lp, judge, seed=3)
    S.check(ctx, b, wide, wp, judge, seed=3)
    ctx.note("base_sessions", len(base) + len(some))
