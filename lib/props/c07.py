"""C07: garbled tables are sent only for gates that need one."""
import json, os, tempfile
import build, gen, wire, families as F, sessions as S
from ctx import parallel

CFG = ("SPECIFICATION Spec\nCONSTANTS Cycles = %d Circuits <- FromFile\n"
       "INVARIANTS WellFormedCircuit Fanouts Agreement Minimal AllUsed Ordered PublicFree FreshLabels\nCHECK_DEADLOCK FALSE\n")


def exhaust(ctx, circuits, cycles, workers=2, timeout=800):
    """The cycle specification on the circuits, for all inputs."""
    fd, f = tempfile.mkstemp(suffix=".ndjson", dir=ctx.work)
    with os.fdopen(fd, "w") as h:
        h.write("\n".join(map(json.dumps, circuits)) + "\n")
    return ctx.tlc("MCGarbling", CFG % cycles, env={"CIRCUITS": f}, workers=workers, timeout=timeout)


def tables(stream, log):
    """The tables of a recorded stream, per cycle; second result: where the stream stops matching."""
    for k in range(len(log), 0, -1):                # longest prefix of the messages that can be read
        try:
            got = wire.decode(stream, log[:k], rest=True)
            return [[x["gid"] for x in m["tables"]] for m in got if m["k"] == "tables"], k
        except wire.Mismatch:
            continue
    return [], 0


def judge(s, p, r):
    want = [m["gids"] for m in p["ab"] if m["k"] == "tables"]
    try:
        got = [[x["gid"] for x in m["tables"]] for m in wire.decode(r["ab"], p["ab"]) if m["k"] == "tables"]
    except wire.Mismatch as e:
        if r["rc"] != [0, 0]:
            return "the session " + (S.failure(r) or "fails") + " (%s)" % e
        got, upto = tables(r["ab"], p["ab"])
        first = next((i for i, m in enumerate(p["ab"]) if m["k"] == "tables"), len(p["ab"]))
        if upto < first:
            return None                             # not about tables: something before them looks different
        got += [None] * (len(want) - len(got))
    for cyc, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return "cycle %d: tables for gates %s instead of %s" % (cyc, b, a)
    if len(got) != len(want):
        return "tables in %d cycles instead of %d" % (len(got), len(want))
    return "the evaluator " + str(S.failure(r)) if r["rc"][1] != 0 else None


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    ss = F.matrix(rng, 2) + F.pairs(rng, ctx.scale(.15, 1.0), cycles=2) + F.chains(rng, ctx.scale(140, 2000)) + F.stops(rng, ctx.scale(40, 500)) \
        + F.randoms(rng, ctx.scale(330, 6000)) + F.randoms(rng, ctx.scale(25, 400), max_gates=60, max_in=6, max_dff=8, max_out=6, max_cc=5)
    ss = [dict(s, noot=True) for s in ss if not gen.dangling(s["c"])]
    t0, t1 = gen.tiny(rng, ctx.scale(500, 15000)), gen.tiny(rng, ctx.scale(250, 8000), dff=True)
    t2 = [s["c"] for s in F.randoms(rng, ctx.scale(60, 600), max_in=1, max_dff=3, max_gates=9, max_init=1)]
    res = parallel([lambda: S.predict(ctx, ss), lambda: exhaust(ctx, t0, 1), lambda: exhaust(ctx, t1, 2), lambda: exhaust(ctx, t2, 2)])
    S.check(ctx, b, ss, res[0], judge, stream=1)
    ctx.note("circuits_for_all_inputs", len(t0) + len(t1) + len(t2))
    ctx.note("tables", sum(len(m["gids"]) for p in res[0] for m in p["ab"] if m["k"] == "tables"))
    ctx.note("table_type_gates_times_cycles", sum(p["n"][0] * sum(g["t"] not in ("XOR", "XNOR", "NOT") for g in s["c"]["gates"]) for s, p in zip(ss, res[0])))
