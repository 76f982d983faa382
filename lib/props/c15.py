"""C15: the plaintext evaluator follows sequential circuit semantics."""
import os
import build, gen, families as F, sessions as S
from ctx import parallel


def job(s, scd, **kw):
    j = gen.job(s, scd, **kw)
    j.update(kind="fn", fn="plain")
    return j


class ScdMap(S.Scd):
    """Circuit descriptions with a map, as the translator leaves them."""
    def __call__(self, c):
        p = super().__call__(c)
        if not os.path.exists(p + ".map"):
            lo = gen.dff_lo(c)
            lines = ["n%d %d" % (w, w) for w in range(lo, gen.wires(c))]
            open(p + ".map", "w").write("\n".join(lines + ["terminate %d" % c["term"]]) + "\n")
        return p


def outcome(r):
    if r["crash"] != [0, 0]:
        return "crashes (%s)" % r["crash"]
    if r["hang"]:
        return "does not return"
    return None


def judge(s, p, r):
    if outcome(r):
        return outcome(r)
    if r["rc"][0] != 0:
        return "returns %s" % r["rc"][0]
    if S.norm(r["out"][0]) != p["plain"]:
        return "returns %r instead of %r" % (r["out"][0], "\n".join(p["plain"]))
    return None


def run(ctx, b, sessions, preds, scd):
    jobs = [job(s, scd(s["c"])) for s in sessions]
    recs = ctx.run(b, [dict(j) for j in jobs])
    ctx.traces += len(recs)
    for i, (s, p, r) in enumerate(zip(sessions, preds, recs)):
        if judge(s, p, r) and len(ctx.violations) < 10:
            r = ctx.run(b, [dict(jobs[i])])[0]
            why = judge(s, p, r)
            if why:
                ctx.violation("the plaintext evaluator " + why, dict(session=s, expected=p["plain"], record=r))
    ctx.sample(dict(session=S.brief(sessions[0]), expected=preds[0]["plain"], observed=recs[0]["out"][0]))


def refusals(ctx, b, rng, scd):
    """What cannot be read, or cannot be executed, is a failure."""
    jobs, what = [], []
    for k, s in enumerate(F.randoms(rng, 30)):
        p = scd(s["c"])
        t = open(p).read()

        def add(path, desc, **kw):
            jobs.append(dict(job(s, path), **kw))
            what.append(desc)
        q = os.path.join(ctx.work, "x%d" % k)
        add(q + ".none", "a description that does not exist")
        open(q + ".nomap", "w").write(t)
        add(q + ".nomap", "a description without map")
        open(q + ".empty", "w").write("")
        open(q + ".empty.map", "w").write("")
        add(q + ".empty", "an empty description")
        w = t.split()
        open(q + ".cut", "w").write(" ".join(w[:rng.randrange(1, 10)]))
        open(q + ".cut.map", "w").write("")
        add(q + ".cut", "a description cut off in its header")
        if len(w) > 11:
            n = rng.randrange(10, len(w))
            open(q + ".cut2", "w").write(" ".join(w[:n]))
            open(q + ".cut2.map", "w").write("")
            add(q + ".cut2", "a description cut off after %d of %d numbers" % (n, len(w)))
        if s["c"]["term"] == 0:
            add(p, "a terminate period for a circuit without terminate signal", period=1 + k % 3)
    recs = ctx.run(b, [dict(j) for j in jobs])
    ctx.traces += len(recs)
    for i, (j, d, r) in enumerate(zip(jobs, what, recs)):
        bad = outcome(r) or (r["rc"][0] == 0 and "reports success")
        if bad and len(ctx.violations) < 10:
            r = ctx.run(b, [dict(j)])[0]
            bad = outcome(r) or (r["rc"][0] == 0 and "reports success")
            if bad:
                ctx.violation("given %s, the plaintext evaluator %s" % (d, bad), dict(job=j, record=r))
    ctx.note("refusals", len(recs))


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    scd = ScdMap(ctx)
    ss = F.matrix(rng, 3) + F.pairs(rng, ctx.scale(.2, 1.0)) + F.chains(rng, ctx.scale(250, 3000)) + F.stops(rng, ctx.scale(250, 3000)) \
        + F.randoms(rng, ctx.scale(500, 8000), max_cc=6) + F.randoms(rng, ctx.scale(40, 400), max_gates=80, max_in=9, max_dff=12, max_out=70, max_cc=9) \
        + F.edges(rng) + F.randoms(rng, ctx.scale(60, 600), need_secret=False)
    big = [F.wide(rng, k) for k in F.WIDE] + F.long_stops(rng, ctx.scale(4, 30))
    ss = [dict(s, mode=["consecutive", "separated", "last"][rng.randrange(3)]) for s in ss]
    pp, bp = parallel([lambda: S.predict(ctx, ss, full=False), lambda: S.predict(ctx, big, full=False, procs=2)])
    run(ctx, b, ss, pp, scd)
    run(ctx, b, big, bp, scd)
    refusals(ctx, b, rng, scd)
    if ctx.thorough:
        run(ctx, build.build("nolog"), ss, pp, scd)
        run(ctx, build.build("asan"), ss[:1500], pp[:1500], scd)
