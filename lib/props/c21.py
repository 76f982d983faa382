"""C21: the plaintext trace shows every net in every executed cycle."""
import json, os, re
import build, gen, families as F
from ctx import parallel
from props.c15 import job, outcome

CFG = ("SPECIFICATION Spec\nCONSTANT Cases <- FromFile\nINVARIANTS WellFormedCase IsRun OneRowEach Explained Emit\n"
       "PROPERTY Terminates\nCHECK_DEADLOCK TRUE\n")


def predict(ctx, cases, procs=4):
    out = [None] * len(cases)

    def part(k):
        idx = list(range(k, len(cases), procs))
        f = os.path.join(ctx.work, "trace%d-%d.ndjson" % (len(cases), k))
        with open(f, "w") as h:
            for i in idx:
                s = cases[i]
                h.write(json.dumps(dict(c=s["c"], x=s["x"], cc=s["cc"], period=s["period"], map=[dict(name=n, w=w) for n, w in s["map"]])) + "\n")
        r = ctx.tlc("MCTrace", CFG, env={"CASES": f}, workers=2, mem="3g")
        for l in r.lines:
            out[idx[l["sid"] - 1]] = l
    parallel([lambda k=k: part(k) for k in range(min(procs, len(cases)))], procs)
    return out


NAMES = ["n%d", "U%d/Z", "\\u1/n%d", "w[%d]", "_%d", "cid%d", "terminate_%d", "g_input_reg_%d", "%d"]


def with_map(rng, s):
    """A session with a map: what the translator writes, or some of it in another order."""
    c = s["c"]
    lo, hi = gen.dff_lo(c), gen.wires(c)
    nets = [(rng.choice(NAMES) % w, w) for w in range(lo, hi)]
    r = rng.random()
    if r < .35:
        rng.shuffle(nets)
    if r < .2:
        nets = nets[:rng.randint(0, len(nets))]
    if c["term"] >= lo and rng.random() < .4:        # the net of the terminate port has its name
        nets = [("terminate", w) if w == c["term"] else (n, w) for n, w in nets]
    return dict(s, map=nets, sep=rng.choice([" ", " ", "\t", "  "]))


def table(path):
    return [[t for t in re.split(r"[,;\s]+", l) if t] for l in open(path, errors="replace").read().split("\n") if l.strip(" ,;\t\r")]


def judge(s, p, r, t):
    if outcome(r):
        return outcome(r)
    if r["rc"][0] != 0:
        return "the evaluation returns %s" % r["rc"][0]
    if t is None:
        return "there is no trace"
    names = [n for n, _ in s["map"]]
    if not t:
        return "the trace is empty"
    head = t[0][1:]
    # the terminate entry of the map may have a column or not
    cols = [k for k, n in enumerate(names) if n != "terminate"]
    if head == names or (len(head) == len(names) + 1 and head[:-1] == names):
        cols = list(range(len(names)))
    elif head != [names[k] for k in cols] and head != [names[k] for k in cols] + ["terminate"]:
        return "its columns are %s instead of %s" % (head, [names[k] for k in cols])
    if len(t) - 1 != p["n"]:
        return "it has %d rows for %d executed cycles" % (len(t) - 1, p["n"])
    for cyc, row in enumerate(t[1:]):
        if row[0] != str(cyc):
            return "the row of cycle %d is numbered %s" % (cyc, row[0])
        want = [str(p["rows"][cyc][k]) for k in cols]
        got = row[1:]
        if got[:len(want)] != want or len(got) > len(head):
            bad = next((i for i, (a, b) in enumerate(zip(got + ["-"] * len(want), want)) if a != b), len(want))
            return "in cycle %d net %s is %s instead of %s" % (cyc, head[bad] if bad < len(head) else "(none)", got[bad] if bad < len(got) else "missing", want[bad] if bad < len(want) else "nothing")
    return None


def place(d, k, s):
    p = os.path.join(d, "t%d.scd" % k)
    open(p, "w").write(gen.scd_text(s["c"]))
    open(p + ".map", "w").write("".join("%s%s%d\n" % (n, s["sep"], w) for n, w in s["map"]) + ("terminate%s%d\n" % (s["sep"], s["c"]["term"]) if s["c"]["term"] or k % 2 else ""))
    return p


def execute(ctx, b, d, cases):
    os.mkdir(d)
    ps = [place(d, k, s) for k, s in enumerate(cases)]
    for k, p in enumerate(ps):                       # a trace of an earlier, longer run is replaced
        if k % 5 == 0:
            open(p + ".csv", "w").write("cid, old\n" + "".join("%d, 1\n" % i for i in range(40)))
    recs = ctx.run(b, [job(s, p) for s, p in zip(cases, ps)])
    return [(r, table(p + ".csv") if os.path.exists(p + ".csv") else None) for r, p in zip(recs, ps)]


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    ss = F.chains(rng, ctx.scale(150, 2000)) + F.stops(rng, ctx.scale(150, 2000)) + F.randoms(rng, ctx.scale(200, 3000), max_cc=6) \
        + F.matrix(rng, 2)[::3] + F.edges(rng)[::2] + F.randoms(rng, ctx.scale(15, 150), max_gates=70, max_in=7, max_dff=12, max_cc=9)
    ss = [with_map(rng, dict(s, mode=["consecutive", "separated", "last"][rng.randrange(3)])) for s in ss]
    for k in ("cycles", "gates", "inputs", "inputs"):
        ss.append(with_map(rng, F.wide(rng, k)))
    preds = predict(ctx, ss)
    res = execute(ctx, b, os.path.join(ctx.work, "run"), ss)
    if all(r["rc"][0] in (-90, -91) for r, _ in res):
        ctx.note("interfaces_gone", len(res))
        return
    ctx.traces += len(res)
    bad = [k for k in range(len(ss)) if judge(ss[k], preds[k], *res[k])][:10]
    if bad:
        for k, (r, t) in zip(bad, execute(ctx, b, os.path.join(ctx.work, "again"), [ss[k] for k in bad])):
            why = judge(ss[k], preds[k], r, t)
            if why:
                ctx.violation("the trace of a plaintext evaluation: " + why, dict(case=ss[k], expected=preds[k], trace=t, record=r))
    ctx.sample(dict(nets=[n for n, _ in ss[0]["map"]], rows=res[0][1]))
    ctx.note("rows", sum(p["n"] for p in preds))
    ctx.note("stopped_early", sum(p["n"] < s["cc"] for s, p in zip(ss, preds)))
    # a trace that cannot be written is a failure
    d = os.path.join(ctx.work, "blocked")
    os.mkdir(d)
    some = ss[:12]
    ps = [place(d, k, s) for k, s in enumerate(some)]
    for p in ps:
        os.mkdir(p + ".csv")
    for s, r in zip(some, ctx.run(b, [job(s, p) for s, p in zip(some, ps)])):
        if outcome(r) or r["rc"][0] == 0:
            ctx.violation("a trace that cannot be written: " + (outcome(r) or "success"), dict(case=s, record=r))
            break
