"""Garbling sessions: what the specification predicts, and what the code does."""
import json, os, tempfile
import gen, wire, tlc
from ctx import parallel

INVS = "WellFormedSession CorrectA CorrectB Completes NoFalseFailure InStep InputLabels OffsetSecret NoLabelTwice Emit"
FULL = ("SPECIFICATION Spec\nCONSTANTS Cap = 0 CanBreak = FALSE Canonical = TRUE ExtLen = 128 Sessions <- FromFile\n"
        "INVARIANTS %s\nCHECK_DEADLOCK TRUE\n")
LIGHT = ("SPECIFICATION Spec\nCONSTANT Sessions <- FromFile\nINVARIANTS WellFormedSession SharesRecombine Emit\n")


def predict(ctx, sessions, full=True, invs=INVS, procs=4, timeout=800, module=None):
    """Predictions in order.  full: the protocol (Session.tla), else results only (MCRun.tla)."""
    module = module or ("MCSession" if full else "MCRun")
    if not sessions:
        return []
    n = max(1, min(procs, (len(sessions) + 24) // 25))
    out = [None] * len(sessions)

    def part(k):
        idx = list(range(k, len(sessions), n))
        fd, f = tempfile.mkstemp(suffix=".ndjson", dir=ctx.work)
        with os.fdopen(fd, "w") as h:
            for i in idx:
                h.write(json.dumps(sessions[i]) + "\n")
        r = tlc.run(module, FULL % invs if full else LIGHT, ctx.work, env={"SESSIONS": f},
                    workers=max(1, 8 // n), mem="4g", timeout=timeout)
        for line in r.lines:
            out[idx[line["sid"] - 1]] = dict(out[idx[line["sid"] - 1]] or {}, **line)
        return r
    for r in parallel([lambda k=k: part(k) for k in range(n)], n):
        ctx.count(module, r)
    missing = [i for i, p in enumerate(out) if p is None]
    if missing:
        raise tlc.TLCError("no prediction for session %d" % missing[0])
    return out


class Scd:
    """Writes circuit descriptions once each."""
    def __init__(self, ctx):
        self.ctx, self.seen = ctx, {}

    def __call__(self, c):
        t = gen.scd_text(c)
        if t not in self.seen:
            p = os.path.join(self.ctx.work, "c%d.scd" % len(self.seen))
            open(p, "w").write(t)
            self.seen[t] = p
        return self.seen[t]


def norm(s, case=True):
    return [(x.lstrip("0") or "0").upper() if case else (x.lstrip("0") or "0") for x in s.split("\n")]


def failure(rec):
    """Why a session that should have succeeded did not, or None."""
    if rec["crash"] != [0, 0]:
        return "crash (signals %s)" % rec["crash"]
    if rec["hang"]:
        return "does not return"
    if rec["deadlock"]:
        return "both parties wait for each other"
    if rec["rc"] != [0, 0]:
        return "fails (return values %s)" % rec["rc"]
    return None


def wrong_output(rec, pred, s):
    """Successful parties whose output is not the predicted one."""
    for p, who, key in ((0, "garbler", "outA"), (1, "evaluator", "outB")):
        if rec["rc"][p] == 0 and norm(rec["out"][p]) != pred[key]:
            return "%s reports %r instead of %r" % (who, rec["out"][p], "\n".join(pred[key]))
    return None


def brief(s):
    c = s["c"]
    return dict(sizes=[c[k] for k in ("pi", "gi", "ei", "px", "gx", "ex")], gates=len(c["gates"]), dffs=len(c["D"]), outputs=len(c["out"]),
                cc=s["cc"], period=s["period"], low=s["low"], noot=s["noot"], mode=s["mode"])


def check(ctx, bdir, sessions, preds, judge, scd=None, params=None, replay=True, **job_kw):
    """Runs the sessions and judges every record; a verdict must repeat."""
    scd = scd or Scd(ctx)
    jobs = [gen.job(s, scd(s["c"]), **dict(job_kw, **(params(i, s) if params else {}))) for i, s in enumerate(sessions)]
    recs = ctx.run(bdir, [dict(j) for j in jobs])
    ctx.traces += len(recs)
    bad = 0
    for i, (s, p, rec) in enumerate(zip(sessions, preds, recs)):
        why = judge(s, p, rec)
        if why and bad < 6:
            again = ctx.run(bdir, [dict(jobs[i])])[0]
            why2 = judge(s, p, again)
            if why2:
                bad += 1
                ctx.violation(why2, dict(session=s, prediction=p, job={k: v for k, v in jobs[i].items() if k != "scd"},
                                         record={k: v for k, v in again.items() if k not in ("ab", "ba")}))
            else:
                ctx.note("not_repeated")
    if sessions:
        ctx.sample(dict(session=brief(sessions[0]), expected=[preds[0]["outA"], preds[0]["outB"]], observed=recs[0]["out"]))
    return recs
