"""Runs the real translator on netlists and has the specification judge what it wrote."""
import json, os
import netlist as NL
from ctx import parallel

CFG = "SPECIFICATION Spec\nCONSTANTS Cases <- FromFile\nINVARIANTS Judged Same\nVIEW view\nCHECK_DEADLOCK FALSE\n"
MACHINE = ("SPECIFICATION Spec\nCONSTANTS Netlists <- FromFile\nINVARIANTS LoopIffRefused WrittenWellFormed GatesOnce SameMeaning\n"
           "PROPERTIES Decided\nCHECK_DEADLOCK FALSE\n")
DUMMY = dict(pi=0, gi=0, ei=0, px=0, gx=0, ex=0, gates=[], D=[], I=[], out=[], term=0)


def translate(ctx, bdir, cases, d):
    """cases: [(netlist, text)] -> list of cases for MCNetlist (or None with a reason)"""
    jobs = []
    for k, (n, t) in enumerate(cases):
        p = os.path.join(d, "n%d" % k)
        open(p + ".v", "w", newline="").write(t)
        jobs.append(dict(kind="fn", fn="bris" if n["form"] == "bristol" else "v2scd", **{"in": p + ".v", "map": p + ".scd.map", "out": p + ".scd"}))
    res = ctx.run(bdir, jobs)
    out = []
    for k, ((n, t), r) in enumerate(zip(cases, res)):
        p = os.path.join(d, "n%d" % k)
        out.append((r, *collect(p)))
    return out


def collect(p):
    c = m = None
    if os.path.exists(p + ".scd"):
        c = NL.read_scd(open(p + ".scd").read())
    if os.path.exists(p + ".scd.map"):
        m = NL.read_map(open(p + ".scd.map").read())
    return c, m


def case(n, ok, c, m, inis=(), ins=(), part=False):
    m = m or []
    term = {w for x, w in m if x == "terminate"}
    return dict(n=n, ok=ok, c=c or DUMMY, map=m, mapterm=min(term) if len(term) == 1 else -9, inis=list(inis), ins=list(ins), part=part)


def judge(ctx, cases, slices=4):
    """[messages] per case"""
    def one(k):
        part = cases[k::slices]
        f = os.path.join(ctx.work, "judge%d-%d.ndjson" % (id(cases) % 9999, k))
        with open(f, "w") as h:
            for c in part:
                h.write(json.dumps(c) + "\n")
        return ctx.tlc("MCNetlist", CFG, env={"CASES": f}, workers=2, mem="3g")
    slices = max(1, min(slices, len(cases)))
    out = [[] for _ in cases]
    for k, r in enumerate(parallel([lambda k=k: one(k) for k in range(slices)])):
        seen = set()
        for l in r.lines:
            key = (l["id"], l["what"], json.dumps(l["x"]))
            if key not in seen:
                seen.add(key)
                out[k + (l["id"] - 1) * slices].append(l)
    return out


def few(rng, w, k=6):
    """Some bit vectors of width w."""
    return [[rng.randint(0, 1) for _ in range(w)] for _ in range(k)] + [[0] * w, [1] * w]


def cases_of(ctx, items, res):
    """items: [(netlist, text, small netlist or None)]"""
    out = []
    for (n, t, small), (r, c, m) in zip(items, res):
        ok = r["rc"][0] == 0 and not r["crash"][0] and not r["hang"] and c is not None
        s = small or n
        if small and c:
            c = NL.cone(c)
        wi, wx = sum(s[k] for k in NL.KEYS[:3]), sum(s[k] for k in NL.KEYS[3:])
        out.append(case(s, ok, c, m, [] if wi <= 4 else few(ctx.rng, wi), [] if wx <= 6 else few(ctx.rng, wx), bool(small)))
    return out


def run(ctx, bdir, items, wrong, name):
    """Translate, judge, confirm and report.  wrong: the verdicts that break the property."""
    d = os.path.join(ctx.work, name)
    os.mkdir(d)
    res = translate(ctx, bdir, [(n, t) for n, t, _ in items], d)
    gone = [r["rc"][0] in (-90, -91) for r, _, _ in res]
    ctx.note("interfaces_gone", sum(gone))
    keep = [k for k in range(len(items)) if not gone[k]]
    verdicts = judge(ctx, cases_of(ctx, [items[k] for k in keep], [res[k] for k in keep])) if keep else []
    ctx.traces += len(keep)
    bad = []
    for k, v in zip(keep, verdicts):
        why = broken(res[k], v, wrong)
        if why:
            bad.append((k, why))
    if bad:                                     # once more, to be sure
        d2 = d + "-again"
        os.mkdir(d2)
        again = [items[k] for k, _ in bad[:20]]
        res2 = translate(ctx, bdir, [(n, t) for n, t, _ in again], d2)
        for (n, t, small), r, v in zip(again, res2, judge(ctx, cases_of(ctx, again, res2))):
            why = broken(r, v, wrong)
            if why:
                ctx.violation("%s netlist: %s" % (n["form"], why), dict(text=t[:20000], scd=r[1] and str(r[1])[:5000], map=r[2] and r[2][:300], rc=r[0]["rc"][0], verdicts=v[:10]))
    for k, v in zip(keep, verdicts):
        assert not any(x["what"].startswith("illegal") for x in v), items[k][1]
    return res


def broken(res, verdicts, wrong):
    r, c, m = res
    if r["crash"][0] or r["hang"]:
        return "the translator %s" % ("does not return" if r["hang"] else "crashes")
    if r["rc"][0] == 0 and c is None:
        return "success, but no readable circuit description"
    for v in verdicts:
        if v["what"] in wrong:
            return "%s %s (initial bits %s, inputs %s)" % (v["what"], json.dumps(v["x"])[:300], v["ini"], v["inp"])
    return None


def model(ctx, k):
    """The translation machine itself, on k small netlists."""
    rng = ctx.rng
    f = os.path.join(ctx.work, "machine.ndjson")
    with open(f, "w") as h:
        for i in range(k):
            n = NL.rand_netlist(rng, max_cells=4, max_dff=1, tight=4, loop=i % 5 == 4) if i % 4 else NL.rand_bristol(rng, max_in=2, max_gates=4, scramble=True)
            h.write(json.dumps(dict(n=n)) + "\n")
    return ctx.tlc("Translate", MACHINE, env={"CASES": f}, workers=3, mem="3g")
