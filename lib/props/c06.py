"""C06: a broken connection makes the survivor fail, never hang or lie."""
import json, os
import build, gen, families as F, sessions as S
from ctx import parallel
from props.c05 import small

BREAK = ("SPECIFICATION Spec\nCONSTANTS Cap = %d CanBreak = TRUE Canonical = FALSE ExtLen = 2 Sessions <- FromFile\n"
         "INVARIANTS WellFormedSession CorrectA CorrectB Completes NoFalseFailure InStep\nPROPERTY Terminates\nCHECK_DEADLOCK TRUE\n")
WHO = ("garbler", "evaluator")


def breaks(ctx, sessions, cap):
    """The connection breaks at any moment of any interleaving: both return, and success means the right output."""
    f = os.path.join(ctx.work, "break%d.ndjson" % cap)
    open(f, "w").write("\n".join(map(json.dumps, sessions)) + "\n")
    return ctx.tlc("MCSession", BREAK % cap, env={"SESSIONS": f}, workers=4)


def judge(s, p, r, whole, d, at):
    for w in (0, 1):
        if r["crash"][w]:
            return "%s crashes (%s)" % (WHO[w], r["crash"][w])
    if r["hang"]:
        return "a party does not return: %s" % r["hang"]
    if r["deadlock"]:
        return "both parties wait for each other"
    for w in (0, 1):
        if r["rc"][w] not in (0, -1):
            return "%s returns %s" % (WHO[w], r["rc"][w])
    why = S.wrong_output(r, p, s)
    if why:
        return "success with a wrong output: " + why
    # the reader of the broken direction misses bytes it needs
    slack = 0 if s["noot"] else 24
    if at + slack < whole[d] and r["w"][d] == at and r["rc"][1 - d] == 0:
        return "%s reports success although it never received the last %d of %d bytes" % (WHO[1 - d], whole[d] - at, whole[d])
    return None


def offsets(rng, whole, n):
    """Byte counts at which to break: all of them, or both ends and a sample."""
    if whole <= n:
        return list(range(whole + 1))
    k = set(range(0, min(whole, 24))) | {whole - i for i in range(0, min(whole, 24))} | {rng.randrange(whole + 1) for _ in range(n)}
    return sorted(k)


def check(ctx):
    rng = ctx.rng
    variants = [build.build("log"), build.build("nolog")]
    sm = small(rng, ctx.scale(14, 150))
    base = F.stops(rng, ctx.scale(10, 100)) + F.randoms(rng, ctx.scale(16, 200), max_in=3, max_out=6, max_cc=3) + F.chains(rng, ctx.scale(8, 80))
    for i, s in enumerate(base):
        s.update(noot=i % 3 != 0, low=i % 2 == 0)
    res = parallel([lambda: S.predict(ctx, base), lambda: breaks(ctx, sm, 1), lambda: breaks(ctx, sm, 2)])
    preds = res[0]
    scd = S.Scd(ctx)
    whole = ctx.run(variants[0], [gen.job(s, scd(s["c"]), seed=5) for s in base])
    jobs, meta = [], []
    for i, (s, r) in enumerate(zip(base, whole)):
        if r["rc"] != [0, 0] or r["crash"] != [0, 0]:
            ctx.violation("the unbroken session " + str(S.failure(r)), dict(session=s, record=r))
            continue
        for d in (0, 1):
            for at in offsets(rng, r["w"][d], ctx.scale(260 if s["noot"] else 45, 4000)):
                j = gen.job(s, scd(s["c"]), seed=5, cut_dir=d, cut_at=at, rst=at % 2, limit=30, **([{}, dict(frag=3), dict(cap=40 if s["noot"] else 900), dict(frag=-50)][(i + at) % 4]))
                if at == 0:
                    j["cut_now"] = 1
                jobs.append(j)
                meta.append((i, d, at))
    half = [k % 2 for k in range(len(jobs))]
    recs = [None] * len(jobs)
    for v in (0, 1):
        idx = [k for k in range(len(jobs)) if half[k] == v]
        for k, r in zip(idx, ctx.run(variants[v], [dict(jobs[k]) for k in idx])):
            recs[k] = r
    ctx.traces += len(recs)
    outcome = {}
    for k, r in enumerate(recs):
        i, d, at = meta[k]
        outcome[str(r["rc"])] = outcome.get(str(r["rc"]), 0) + 1
        why = judge(base[i], preds[i], r, whole[i]["w"], d, at)
        if why and len(ctx.violations) < 10:
            again = ctx.run(variants[half[k]], [dict(jobs[k])])[0]
            why = judge(base[i], preds[i], again, whole[i]["w"], d, at)
            if why:
                ctx.violation("connection broken after %d bytes from the %s: %s" % (at, WHO[d], why),
                              dict(session=base[i], direction=WHO[d], after=at, of=whole[i]["w"][d], prediction=preds[i], record=again))
    ctx.sample(dict(session=S.brief(base[0]), bytes=whole[0]["w"], broken_after=[m[1:] for m in meta if m[0] == 0][::50]))
    ctx.notes["outcomes"] = outcome
    ctx.notes["break_points"] = len(recs)
