"""C25: the dump of a session shows what each party held, and nothing is dumped unasked."""
import os, re
import build, cli, families as F, gen, sessions as SS
from ctx import parallel
from labels import Span

INVS = "WellFormedSession Consistent OffsetHidden Emit"
LINE = re.compile(r"^([0-9a-fA-F]{8}) ([0-9a-fA-F]{8}) ([0-9a-fA-F]{8}) ([0-9a-fA-F]{8})$")
KINDS = ("dff", "input", "output", "table", "r_key")


def read(d, who):
    """The dump of one party: kind -> list of blocks as they go over the wire, or None for lines of another form.
    who: the party, where both share the directory"""
    r = {}
    for k in KINDS:
        f = [x for x in os.listdir(d) if x.endswith(k + ".hex") and who in x]
        ls = open(os.path.join(d, f[0])).read().split("\n") if f else []
        if ls and ls[-1] == "":
            ls.pop()
        m = [LINE.match(l) for l in ls]
        if not all(m):
            return k, None
        r[k] = [b"".join(int(w, 16).to_bytes(4, "little") for w in reversed(x.groups())) for x in m]
    return None, r


def num(b):
    return int.from_bytes(b, "little")


def labels(want, got, R):
    """All label lines of both parties against the symbols they stand for."""
    rows = {}               # leading atom -> (set of atoms, value)
    seen, back = {}, {}
    for who in ("a", "b"):
        for k in ("dff", "input", "output"):
            for j, (w, g) in enumerate(zip(want[who][k], got[who][k])):
                if w["p"]:
                    continue
                at = "line %d of the %s's %s dump" % (j + 1, dict(a="garbler", b="evaluator")[who], k)
                s, v = frozenset(w["l"]), num(g)
                if back.setdefault(v, (s, at))[0] != s:
                    return "%s is the same as %s, which is another label" % (at, back[v][1])
                if seen.setdefault(s, (v, at))[0] != v:
                    return "%s is the label of %s, but differs" % (at, seen[s][1])
                if 0 in s:
                    s, v = s - {0}, v ^ R
                while s:
                    top = max(s)
                    if top not in rows:
                        rows[top] = (s, v)
                        break
                    s, v = s ^ rows[top][0], v ^ rows[top][1]
                if not s and v:
                    return "%s is not the label it should be, according to the other lines" % at
    return None


def judge(s, p, x):
    """x: result, dumps and what the garbler sent."""
    r = x["r"]
    for k, who in enumerate(("garbler", "evaluator")):
        if r[k]["rc"] != 0:
            return "%s ends with %s" % (who, r[k]["rc"])
        try:
            ok = SS.norm(r[k]["out"].rstrip("\n")) == p["out" + "AB"[k]]
        except ValueError:
            ok = False
        if not ok:
            return "%s prints %.200r instead of %.200r" % (who, r[k]["out"], p["out" + "AB"[k]])
    if x["bad"]:
        return "%s dump %s has lines of another form" % x["bad"]
    if not x["asked"]:
        return "files appear without having been asked for: %s" % x["files"] if x["files"] else None
    for who, name in (("a", "garbler"), ("b", "evaluator")):
        g, w = x["d"][who], p[who]
        n = dict(dff=len(w["dff"]), input=len(w["input"]), output=len(w["output"]), table=2 * w["tables"], r_key=2 if who == "a" else 1)
        for k in KINDS:
            if len(g[k]) != n[k]:
                return "%s's %s dump has %d lines instead of %d" % (name, k, len(g[k]), n[k])
    a, b, sent = x["d"]["a"], x["d"]["b"], x["sent"]
    R, key = a["r_key"]
    if not num(R):
        return "the offset shown is zero"
    if b["r_key"] != [key]:
        return "the parties' keys differ"
    if a["table"] != b["table"]:
        return "the parties' tables differ"
    if sent is not None:
        if key not in sent:
            return "the key shown is not the one sent"
        at = 0
        for row in a["table"]:
            at = sent.find(row, at)
            if at < 0:
                return "the tables shown are not the ones sent"
        if s["noot"]:
            for w, l in zip(p["b"]["input"] + p["b"]["dff"], b["input"] + b["dff"]):
                if not w["p"] and l not in sent:
                    return "a label of the evaluator was never sent"
        if R in sent:
            return "the offset shown was sent"
    known = [num(l) for k in ("dff", "input", "output") for w, l in zip(p["b"][k], b[k]) if not w["p"]]
    sp = Span()
    for v in known:
        sp.add(v)
    if len(sp.rows) < 100 and not sp.add(num(R)):
        return "the evaluator's dump gives the offset away"
    return labels(p, x["d"], num(R))


def check(ctx):
    rng = ctx.rng
    b = build.build("dump", tools=True)
    exe = os.path.join(b, "garbled_circuit_main")
    n = ctx.scale(260, 2500)
    ss = [gen.rand_session(rng, term=i % 3 == 0, max_in=4, max_gates=14) for i in range(n)]
    ss += F.needless(rng, ctx.scale(40, 400)) + F.chains(rng, ctx.scale(70, 600)) + F.stops(rng, ctx.scale(90, 700)) + F.edges(rng)[:ctx.scale(40, 400)]
    for i, s in enumerate(ss):
        s.update(F.modes(i))
        if s["c"]["ei"] + s["cc"] * s["c"]["ex"] > 12:      # many transfers take long
            s["noot"] = True
    preds = SS.predict(ctx, ss, invs=INVS, module="MCDump")
    ctx.note("sessions", len(ss))
    if not os.path.exists(exe):
        ctx.note("command_gone_garbled_circuit_main")
        return
    plain = os.path.join(build.build("log", tools=True), "garbled_circuit_main")
    scd = SS.Scd(ctx)

    def go(i, again=0):
        s = ss[i]
        w = os.path.join(ctx.work, "run%d-%d" % (i, again))
        os.mkdir(w)
        ds = [os.path.join(w, x) for x in (("out", "out") if i % 3 else ("first", "second"))]      # one directory, or one each
        for d in set(ds):
            os.mkdir(d)
        asked = i % 9 != 8
        x, c, port, rport = s["x"], s["c"], cli.free_port(), cli.free_port()
        both = ["-i", scd(c), "-c", str(s["cc"]), "--output_mask", gen.hexnum(s["mask"]), "--output_mode", str(dict(consecutive=0, separated=1, last=2)[s["mode"]])]
        if s["period"]:
            both += ["-t", str(s["period"])]
        both += ["--p_init", gen.hexnum(x["pinit"]), "--p_input", gen.hexnum(x["pin"])]
        both += ["--low_mem_foot"] * s["low"] + ["--disable_OT"] * s["noot"]
        tA, tB = (["--dump_directory", d + "/"] if asked or i % 18 == 17 else [] for d in ds)
        A = ["-a", "--init", gen.hexnum(x["ginit"]), "--input", gen.hexnum(x["gin"]), "-p", str(port)]
        B = ["-b", "--init", gen.hexnum(x["einit"]), "--input", gen.hexnum(x["ein"]), "-s", "127.7.0.1", "-p", str(rport)]
        relay = cli.Relay("127.7.0.1", rport, port, i)
        # not asked: no option, or an ordinary build
        if asked and i % 7 == 6:              # an earlier session has left its dump there
            cli.session(exe, A + both + tA, ["-b", "--init", gen.hexnum(x["einit"]), "--input", gen.hexnum(x["ein"]), "-p", str(port)] + both + tB, port, w)
        r = cli.session(exe if asked or i % 18 == 8 else plain, A + both + tA, B + both + tB, port, w, relay=relay)
        relay.join(20)
        da, db = (read(d, who if ds[0] == ds[1] else "") for d, who in zip(ds, ("alice", "bob")))
        bad = ("the garbler's", da[0]) if da[0] else ("the evaluator's", db[0]) if db[0] else None
        files = [f for q, _, fs in os.walk(w) for f in fs if f.endswith(".hex")]
        return dict(r=r, asked=asked, bad=bad, d=dict(a=da[1], b=db[1]), files=files, sent=bytes(relay.sent["A"]), args=[A + both + tA, B + both + tB])
    for s in ss:
        scd(s["c"])
    got = parallel([lambda i=i: go(i) for i in range(len(ss))])
    ctx.traces += len(ss)
    reported = 0
    for i, (s, p, x) in enumerate(zip(ss, preds, got)):
        if not p["ok"]:
            ctx.note("refused")
            continue
        why = judge(s, p, x)
        if why and reported < 5 and judge(s, p, go(i, 1)):
            x = go(i, 2)
            why = judge(s, p, x)
            if why:
                reported += 1
                ctx.violation(why, dict(session=s, prediction=p, args=x["args"], results=x["r"], dumps={k: v and {q: [l.hex() for l in z] for q, z in v.items()} for k, v in x["d"].items()}))
    ctx.note("lines", sum(len(z) for x in got if x["asked"] for v in x["d"].values() if v for z in v.values()))
    ctx.sample(dict(session=SS.brief(ss[0]), lines={k: len(v) for k, v in got[0]["d"]["a"].items()} if got[0]["d"]["a"] else None))
