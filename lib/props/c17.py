"""C17: outputs are rendered as the selected output mode prescribes."""
import build, gen, families as F, sessions as S
from ctx import parallel
from props.c15 import ScdMap, job as plain_job, outcome


def passthrough(rng, n):
    """Outputs copy inputs, so every bit pattern occurs: many widths and cycle counts, often with zero or sparse cycles."""
    out = []
    for k in range(n):
        w = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 130])
        a, b = sorted((rng.randint(0, w), rng.randint(0, w)))
        px, gx, ex = a, b - a, w - b
        term = rng.random() < .3
        lo = px + gx + ex
        c = gen.circuit(px=px, gx=gx, ex=ex, gates=[], out=list(range(lo)), term=rng.randrange(1, lo) if term and lo > 1 else 0)
        cc = rng.choice([1, 2, 3, 4, 5, 8, 9]) if w > 20 else rng.randint(1, 20)
        x = gen.rand_inputs(rng, c, cc, extra=False)
        d = rng.random()
        for key in ("pin", "gin", "ein"):
            if d < .5:          # mostly zeros: leading zeros within cycles, empty cycles
                x[key] = [v if rng.random() < .15 else 0 for v in x[key]]
        mask = [[0] * lo, [1] * lo, gen.rand_bits(rng, lo)][rng.randrange(3)]
        out.append(F.sess(c, x, cc, rng.choice([1, 1, 2]) if c["term"] else 0, mask, low=k % 2 == 1, noot=True, mode=["consecutive", "separated", "last"][k % 3]))
    return out


def exact(text):
    """Number values by line, only upper-case hexadecimal digits allowed."""
    lines = text.split("\n")
    return None if any(not l or set(l) - set("0123456789ABCDEF") for l in lines) else [l.lstrip("0") or "0" for l in lines]


def judge(s, p, r):
    if S.failure(r):
        return "no output: the session " + S.failure(r)
    for w, key in ((0, "outA"), (1, "outB")):
        if exact(r["out"][w]) != p[key]:
            return "%s output of the %s is %r, prescribed is %r" % (s["mode"], ("garbler", "evaluator")[w], r["out"][w], "\n".join(p[key]))
    return None


def judge_plain(s, p, r):
    if outcome(r) or r["rc"][0] != 0:
        return "no output: the plaintext evaluator %s" % (outcome(r) or "fails")
    if exact(r["out"][0]) != p["plain"]:
        return "%s output of the plaintext evaluator is %r, prescribed is %r" % (s["mode"], r["out"][0], "\n".join(p["plain"]))
    return None


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    ss = passthrough(rng, ctx.scale(420, 5000)) + [dict(s, noot=i % 6 != 0) for i, s in enumerate(F.stops(rng, ctx.scale(120, 1500)) + F.randoms(rng, ctx.scale(150, 2000), max_cc=6))]
    big = [F.wide(rng, "outputs") for _ in range(6)] + [F.wide(rng, "cycles") for _ in range(3)]
    big = [dict(s, mode=["consecutive", "separated", "last"][i % 3], noot=True) for i, s in enumerate(big)]
    pp, bp = parallel([lambda: S.predict(ctx, ss, full=False), lambda: S.predict(ctx, big, full=False, procs=2)])
    S.check(ctx, b, ss, pp, judge)
    S.check(ctx, b, big, bp, judge)
    scd = ScdMap(ctx)
    both, preds = ss + big, pp + bp
    jobs = [plain_job(s, scd(s["c"])) for s in both]
    recs = ctx.run(b, [dict(j) for j in jobs])
    ctx.traces += len(recs)
    for s, p, r, j in zip(both, preds, recs, jobs):
        if judge_plain(s, p, r) and len(ctx.violations) < 10:
            r = ctx.run(b, [dict(j)])[0]
            why = judge_plain(s, p, r)
            if why:
                ctx.violation(why, dict(session=s, expected=p["plain"], record=r))
    ctx.note("renderings", 3 * len(both))
