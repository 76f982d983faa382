"""C26: what a run reports about itself is true, complete, and where the options say."""
import os, re, time
import build, cli, families as F, gen, sessions as SS
from ctx import parallel

INVS = "WellFormedSession Agreeing AddsUp EndTold QuietStdout Emit"
LINE = re.compile(r"^.*?(?<![A-Z_])(INFO|ERROR)(?![A-Za-z_])(?:\x1b\[0m)?:? ?(.*)$")
NAME = dict(Alice="A", Bob="B")
KINDS = [("skipped", re.compile(r"skipped non-XOR gates = (\d+) out of (\d+)")), ("garbled", re.compile(r"garbled non-XOR gates = (\d+)")),
         ("tables", re.compile(r"@(\d+)\s+garbled_table_ind = (\d+)")), ("stopped", re.compile(r"Terminated in (\d+)cc out of (\d+)cc")),
         ("short", re.compile(r"Not enough clock cycles.* in (\d+)cc")), ("noot", re.compile(r"OT is disabled")), ("low", re.compile(r"Low memory footprint mode is on")),
         ("output", re.compile(r"(?:Alice|Bob)'s output = (.*)"))]
BIG = 10 ** 6


def messages(text, who=None):
    """[(who, level, kind, numbers)] of the known messages, and all the messages of a text.
    who: whose text it is (None: both parties'; then only a message that names its party tells)"""
    known, every = [], []
    ls = text.split("\n")
    for k, l in enumerate(ls):
        m = LINE.match(l)
        if not m:
            continue
        lvl, t = m.groups()
        every.append((lvl, t))
        named = re.match(r"(Alice|Bob)\b", t)
        w = NAME[named.group(1)] if named else who
        for kind, e in KINDS:
            x = e.search(t)
            if x:
                known.append((w, lvl, kind, tuple(int(v) for v in x.groups()) if kind != "output" else (t[x.start(1):], k)))
    return known, every, ls


def compare(rep, texts, outs, gone, merged, unused):
    """rep: messages of the specification; texts: level -> {who: text}; outs: who -> output lines;
    unused: whether there are gates to name as such."""
    for lvl in ("INFO", "ERROR"):
        w = [(x["who"], x["m"], tuple(x["v"])) for x in rep if x["lvl"] == lvl]
        got, errors = [], 0
        for who, text in texts[lvl].items():
            known, every, ls = messages(text, who)
            for x in every:
                if x[0] != lvl:
                    return "%s message among the %s messages: %.150s" % (x[0], lvl, x[1])
            errors += len([t for _, t in every if not (unused and "fanout" in t)])
            for m in known:
                if m[2] == "output":
                    o, k = m[3]
                    if m[0] not in outs:
                        return "an output is reported in pieces: %.200r" % o
                    lines = [o] + ls[k + 1:k + len(outs[m[0]])]
                    try:
                        same = SS.norm("\n".join(lines)) == outs[m[0]]
                    except ValueError:
                        same = False
                    if not same:
                        return "%s's output is reported as %.200r instead of %.200r" % (m[0], lines, outs[m[0]])
                    got.append((m[0], "output", ()))
                else:
                    got.append((m[0], m[2], m[3]))
        w = [x for x in w if x[1] not in gone]
        got = [x for x in got if x[1] not in gone]
        key = lambda L: sorted([(m, v, (p or "") if not (merged and m in ("noot", "low", "skipped", "garbled", "tables")) else "") for p, m, v in L])
        a, b = key(w), key(got)
        if a != b:
            missing = [x for x in a if x not in b] or [x for x in a if a.count(x) > b.count(x)]
            extra = [x for x in b if x not in a] or [x for x in b if b.count(x) > a.count(x)]
            return "%s messages: %s" % (lvl, "; ".join(["%s %s is missing" % (x[0], list(x[1])) for x in missing[:3]] + ["%s %s is reported" % (x[0], list(x[1])) for x in extra[:3]]))
        if lvl == "ERROR" and not gone and errors != len(w):
            return "%d errors are reported, for %d" % (errors, len(w))
    return None


def logs(d):
    """level -> text of the log files of a directory, and their number"""
    r, n = dict(INFO="", ERROR=""), 0
    for f in sorted(os.listdir(d)):
        lvl = "INFO" if f.endswith("info.log") else "ERROR" if f.endswith("error.log") else None
        if lvl:
            n += 1
            r[lvl] += open(os.path.join(d, f), errors="replace").read()
    return r, n


def options(o):
    return ["--error2std"] * (o in ("error2std", "both")) + ["--log2std"] * (o in ("log2std", "both"))


def gather(d, o, sinks, rs):
    """Texts by level, and what is left on standard output, of the processes rs = {who: result}."""
    files, n = logs(d)
    texts, rest = {}, {w: r["out"] for w, r in rs.items()}
    for lvl in ("INFO", "ERROR"):
        k = sinks[o][lvl.lower()]
        if k == "file":
            texts[lvl] = {None if len(rs) > 1 else list(rs)[0]: files[lvl]}
        else:
            texts[lvl] = {w: r["out" if k == "stdout" else "err"] for w, r in rs.items()}
    stray = ""
    if not any(v == "file" for v in sinks[o].values()) and files["INFO"] + files["ERROR"]:
        stray = "messages go to files, too"
    for lvl in ("INFO", "ERROR"):
        if sinks[o][lvl.lower()] != "file" and files[lvl]:
            stray = "%s messages go to a file, too" % lvl
    for w, r in rs.items():
        if sinks[o]["info"] != "stdout" and any(LINE.match(l) for l in r["out"].split("\n")):
            stray = "messages are among the output of %s" % w
        if "stderr" not in sinks[o].values() and any(LINE.match(l) for l in r["err"].split("\n")):
            stray = "messages are on standard error of %s" % w
    return texts, rest, stray


def judge(s, p, x, gone):
    o, sinks = x["o"], p["sinks"]
    who = list(x["r"])
    texts, rest, stray = gather(x["dir"], o, sinks, x["r"])
    if stray:
        return stray
    if not p["ok"]:
        for w in who:
            t = texts["ERROR"].get(w, texts["ERROR"].get(None))      # a file may be both parties'
            if x["r"][w]["rc"] not in (0, "waiting", None) and not any(m[0] == "ERROR" for m in messages(t)[1]):
                return "%s fails without reporting an error" % w
        return None
    outs = dict(A=p["outA"], B=p["outB"], P=p["plain"])
    for w in who:
        if x["r"][w]["rc"] != 0:
            return "%s ends with %s" % (w, x["r"][w]["rc"])
        ls = rest[w].rstrip("\n").split("\n")
        tail = ls[-len(outs[w]):]
        try:
            same = SS.norm("\n".join(tail)) == outs[w]
        except ValueError:
            same = False
        if not same or (sinks[o]["info"] != "stdout" and len(ls) != len(outs[w])):
            return "%s prints %.200r instead of %.200r" % (w, rest[w], outs[w])
    rep = p["p"] if who == ["P"] else p["a"] + p["b"]
    if who == ["P"]:
        for t in (texts["INFO"], texts["ERROR"]):
            for w in list(t):
                t["P"] = t.pop(w)
    elif not (s["low"] and s["cc"] > 1):
        rep = [m for m in rep if m["m"] != "tables"]
    return compare(rep, texts, outs, gone, None in texts["INFO"], p["unused"])


def kinds(x, sinks):
    texts, _, _ = gather(x["dir"], x["o"], sinks, x["r"])
    return {m[2] for l in texts.values() for w, t in l.items() for m in messages(t, w)[0]}


def check(ctx):
    rng = ctx.rng
    b = build.build("log", tools=True)
    exe, plain = (os.path.join(b, k) for k in ("garbled_circuit_main", "scd_evaluator_main"))
    n = ctx.scale(200, 2000)
    ss = [gen.rand_session(rng, term=i % 3 == 0, max_in=4, max_gates=16) for i in range(n)]
    ss += F.needless(rng, ctx.scale(60, 500)) + F.chains(rng, ctx.scale(80, 700)) + F.stops(rng, ctx.scale(120, 1000)) + F.edges(rng)[:ctx.scale(40, 400)]
    for i, s in enumerate(ss):
        s.update(F.modes(i))
        if s["c"]["ei"] + s["cc"] * s["c"]["ex"] > 12:      # many transfers take long
            s["noot"] = True
        if i % 12 == 11:                                    # what cannot be executed
            k = i // 12 % 4
            if k == 0:
                s["cc"] = 0
            elif k == 1:
                s["readable"] = False
            elif k == 2 and not s["c"]["term"]:
                s["period"] = 3
            else:
                s["texts"] = [gen.digit_values("1g")]
    preds = SS.predict(ctx, ss, invs=INVS, module="MCReport")
    ctx.note("sessions", len(ss))
    have = {k for k in (exe, plain) if os.path.exists(k)}
    for k in {exe, plain} - have:
        ctx.note("command_gone_" + os.path.basename(k))
    scd = SS.Scd(ctx)
    for s in ss:
        f = scd(s["c"])
        c = s["c"]
        open(f + ".map", "w").write("".join("n%d %d\n" % (w, w) for w in range(gen.dff_lo(c), gen.wires(c))) + "terminate %d\n" % c["term"])
    OPTS = ["none", "log2std", "none", "error2std", "none", "both"]

    def go(i, again=0):
        s = ss[i]
        w = os.path.join(ctx.work, "run%d-%d" % (i, again))
        os.mkdir(w)
        x, c, o = s["x"], s["c"], OPTS[(i + i // 6) % 6]
        hx = {k: gen.hexnum(v) for k, v in x.items()}
        if "texts" in s:
            hx["pin"] = "1g"
        f = scd(c) + ("" if s.get("readable", True) else "-missing")
        every = ["-i", f, "-c", str(s["cc"]), "--output_mode", str(dict(consecutive=0, separated=1, last=2)[s["mode"]]), "--p_init", hx["pinit"], "--p_input", hx["pin"]] + options(o)
        if s["period"]:
            every += ["-t", str(s["period"])]
        if i % 5 == 3:
            if plain not in have:
                return None
            args = every + ["--g_init", hx["ginit"], "--e_init", hx["einit"], "--g_input", hx["gin"], "--e_input", hx["ein"]]
            return dict(o=o, dir=w, r=dict(P=cli.single(plain, args, w, keep=BIG)[0]), args=args)
        if exe not in have:
            return None
        port = cli.free_port()
        every += ["--output_mask", gen.hexnum(s["mask"])] + ["--low_mem_foot"] * s["low"] + ["--disable_OT"] * s["noot"]
        A = ["-a", "--init", hx["ginit"], "--input", hx["gin"], "-p", str(port)] + every
        B = ["-b", "--init", hx["einit"], "--input", hx["ein"], "-p", str(port)] + every
        # files are named by the second: let both parties, who have the same name here, start in the same one
        late = time.time() % 1
        if o == "none" and late > .5:
            time.sleep(1 - late)
        r = cli.session(exe, A, B, port, w, names=("tg", "tg"), keep=BIG)
        return dict(o=o, dir=w, r=dict(A=r[0], B=r[1]), args=[A, B])
    got = parallel([lambda i=i: go(i) for i in range(len(ss))])
    ctx.traces += len([x for x in got if x])
    # a kind of message that no run reports is not there to be judged
    expected, seen = {}, {}
    for s, p, x in zip(ss, preds, got):
        if x and p["ok"]:
            who = "P" if "P" in x["r"] else "AB"
            sinks = p["sinks"]
            for m in (p["p"] if who == "P" else p["a"] + p["b"]):
                expected.setdefault(who, set()).add(m["m"])
            seen.setdefault(who, set()).update(kinds(x, sinks))
    gone = {w: expected[w] - seen[w] for w in expected}
    for w in gone:
        for k in gone[w]:
            ctx.note("not_reported_" + k)
    reported = 0
    for w in gone:
        if w == "AB" and gone[w] == expected[w]:
            reported = 9
            ctx.violation("nothing is reported by any session", dict(expected=sorted(expected[w])))
    for i, (s, p, x) in enumerate(zip(ss, preds, got)):
        if not x:
            continue
        g = gone.get("P" if "P" in x["r"] else "AB", set())
        why = judge(s, p, x, g)
        if why and reported < 5 and judge(s, p, go(i, 1), g):
            x = go(i, 2)
            why = judge(s, p, x, g)
            if why:
                reported += 1
                files, _ = logs(x["dir"])
                ctx.violation(why, dict(session=s, prediction=p, args=x["args"], results=x["r"], files=files))
        ctx.note("ok" if p["ok"] else "refused")
        ctx.note("to_" + x["o"])
    ctx.sample(dict(session=SS.brief(ss[0]), expected=preds[0]["a"], results=got[0] and got[0]["r"]))
