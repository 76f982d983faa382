"""C01: a completed session computes exactly the circuit."""
import build, families as F, sessions as S
from ctx import parallel


def judge(s, p, r):
    # completed sessions only; a session that does not complete is C05's business,
    # unless it fails for all to see although nothing is wrong with it
    why = S.wrong_output(r, p, s)
    if why:
        return "wrong result: " + why
    if r["rc"] == [0, 0] and r["crash"] == [0, 0]:
        return None
    return "no result: the session " + (S.failure(r) or "does not complete")


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    full = F.matrix(rng) + F.pairs(rng, ctx.scale(.12, 1.0)) + F.chains(rng, ctx.scale(120, 1500)) + F.randoms(rng, ctx.scale(320, 6000)) \
        + F.edges(rng) + F.randoms(rng, ctx.scale(30, 400), max_gates=60, max_in=6, max_dff=8, max_out=10, max_cc=6)
    wide = [F.wide(rng, k) for k in F.WIDE for _ in range(ctx.scale(1, 5))]
    pf, pw = parallel([lambda: S.predict(ctx, full), lambda: S.predict(ctx, wide, full=False, procs=2)])
    S.check(ctx, b, full, pf, judge)
    S.check(ctx, b, wide, pw, judge, seed=7)
    if ctx.thorough:
        S.check(ctx, build.build("asan"), full[:600], pf[:600], judge, limit=120)
