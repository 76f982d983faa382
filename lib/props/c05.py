"""C05: a session between two honest parties always completes."""
import json, os
import build, gen, families as F, sessions as S
from ctx import parallel

SMALL = ("SPECIFICATION Spec\nCONSTANTS Cap = %d CanBreak = FALSE Canonical = FALSE ExtLen = 2 Sessions <- FromFile\n"
         "INVARIANTS WellFormedSession CorrectA CorrectB Completes NoFalseFailure InStep\nPROPERTY Terminates\nCHECK_DEADLOCK TRUE\n")


def interleavings(ctx, sessions, cap):
    """All interleavings with bounded channels: no deadlock, both always finish."""
    f = os.path.join(ctx.work, "small%d.ndjson" % cap)
    open(f, "w").write("\n".join(map(json.dumps, sessions)) + "\n")
    return ctx.tlc("MCSession", SMALL % cap, env={"SESSIONS": f}, workers=4)


def judge(s, p, r):
    why = S.failure(r)
    if why:
        return why
    if r["w"] != r["r"]:
        return "bytes sent %s, bytes consumed %s" % (r["w"], r["r"])
    return None


def small(rng, n):
    out = F.randoms(rng, n, max_in=2, max_gates=5, max_out=3, max_dff=2, max_cc=3)
    out += F.stops(rng, n)
    return [dict(s, cc=min(s["cc"], 3)) for s in out]


DEEP = 250000


def deep(ctx, b):
    """Chains of gates longer than the call stack is deep whose last gate turns out public, so that none of them is needed: whatever the
    length, the session is the one the specification predicts for the short chain, byte counts included."""
    def chain(n, types, last, side):
        g = [("AND", 1, 2)]
        for i in range(n):
            w = 3 + i
            g.append((types[i % len(types)],) + ((w, 1 + i % 2) if side == 0 else (1 + i % 2, w)))
        w = 3 + n
        g.append(("AND", w, 0) if last == "public" else ("XOR", w, w))
        return gen.circuit(px=1, gx=1, ex=1, gates=g, out=[w + 1])
    kinds = [(t, last, side, low) for t, last in ((("XOR",), "public"), (("AND", "XOR"), "equal")) for side in (0, 1) for low in (False, True)]
    def sessions(n):
        return [F.sess(chain(n, *k[:3]), dict(pinit=[], ginit=[], einit=[], pin=[0] * 2, gin=[1, 0], ein=[1, 1]), 2, 0, [i % 2], low=k[3]) for i, k in enumerate(kinds)]
    short, long_ = sessions(6), sessions(DEEP)
    preds = S.predict(ctx, short, procs=1)
    scd = S.Scd(ctx)
    base = S.check(ctx, b, short, preds, judge, scd=scd, params=lambda i, s: dict(cap=1 << 30, frag=0), limit=60)
    jobs = [gen.job(s, scd(s["c"]), cap=1 << 30, frag=0, limit=120, stack=1 << 19) for s in long_]
    def wrong(i, r):
        return judge(long_[i], preds[i], r) or S.wrong_output(r, preds[i], long_[i]) or \
            (None if r["w"] == base[i]["w"] else "sends %s bytes instead of %s" % (r["w"], base[i]["w"]))
    for i, r in enumerate(ctx.run(b, [dict(j) for j in jobs])):
        ctx.traces += 1
        if wrong(i, r):
            why = wrong(i, ctx.run(b, [dict(jobs[i])])[0])
            if why:
                ctx.violation("a chain of %d gates nothing needs (%s): %s" % (DEEP, kinds[i], why), dict(kind=kinds[i], gates=DEEP, job={k: v for k, v in jobs[i].items() if k != "scd"}))
    os.system("rm -f %s" % " ".join(sorted(set(scd.seen.values()))))


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    sm = small(rng, ctx.scale(25, 300))
    ss = F.chains(rng, ctx.scale(60, 600)) + F.randoms(rng, ctx.scale(180, 2500)) + F.stops(rng, ctx.scale(60, 900)) + F.matrix(rng, 2)[::3]
    wide = [F.wide(rng, k) for k in F.WIDE]
    edge = F.edges(rng)
    limits = F.thresholds(rng)
    res = parallel([lambda: S.predict(ctx, ss + sm), lambda: interleavings(ctx, sm, 1), lambda: interleavings(ctx, sm, 2),
                    lambda: S.predict(ctx, wide + edge + limits, full=False, procs=2), lambda: deep(ctx, b)])
    caps = [(1, 0), (1 << 30, 1), (3, -5), (1 << 30, -7), (64, -200), (1 << 30, 0), (5, 2), (100, 7)]

    def params(i, s):
        cap, frag = caps[i % len(caps)]
        big = not s["noot"]                  # big transfers: byte-wise only now and then
        return dict(cap=max(cap, 600) if big and i % 5 else cap, frag=frag * 97 if big and i % 5 else frag)
    S.check(ctx, b, ss + sm, res[0], judge, params=params, limit=60)
    S.check(ctx, b, edge, res[3][len(wide):len(wide) + len(edge)], judge, params=params, limit=60)
    S.check(ctx, b, wide, res[3][:len(wide)], judge, params=lambda i, s: dict(cap=[4096, 1 << 30, 1000][i % 3], frag=[0, -3000, -100][i % 3]), limit=120)
    S.check(ctx, b, limits, res[3][len(wide) + len(edge):], judge, params=lambda i, s: dict(cap=[1 << 30, 4096, 70000][i % 3], frag=[0, -3000][i % 2]), limit=120)
    if ctx.thorough:
        S.check(ctx, build.build("nolog"), ss + sm, res[0], judge, params=params, limit=60)
