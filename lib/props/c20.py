"""C20: the command-line tools run what their options say."""
import json, os, socket
import build, cli, gen, netlist as NL, translate as T
from ctx import parallel
from sessions import norm

CFG = "SPECIFICATION Spec\nCONSTANTS Cases <- FromFile\nINVARIANTS Agreeing OneOfEach TogetherPlain Emit\nCHECK_DEADLOCK FALSE\n"
MODES = ["0", "1", "2", "consecutive", "separated_clock", "last_clock"]
SHORT = {"clock_cycles": "c", "terminate_period": "t", "scd_file": "i", "port": "p", "server_ip": "s", "alice": "a", "bob": "b"}


def digits(rng, n):
    return "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(n))


class Maker:
    def __init__(self, ctx, d):
        self.ctx, self.rng, self.d, self.n = ctx, ctx.rng, d, 0

    def file(self, text):
        self.n += 1
        p = os.path.join(self.d, "%s%d" % (self.rng.choice(["f", "in.", "x_"]), self.n))
        open(p, "w").write(text)
        return p

    def number(self, o, bits_needed):
        """A number option: (entry for the specification, value on the command line)"""
        rng = self.rng
        n = max(1, (bits_needed + 3) // 4 + rng.choice([0, 0, 0, 1, -1]))
        if rng.random() < .3:
            k = rng.randint(1, 3)
            lines = [digits(rng, max(1, n // k)) for _ in range(k)]
            return dict(o=o, k="file", v=[[int(x, 16) for x in l] for l in lines]), self.file("\n".join(lines) + rng.choice(["", "\n"]))
        t = digits(rng, n)
        return dict(o=o, k="hex", v=[int(x, 16) for x in t]), t

    def spelling(self, entries):
        """[(entry, text)] -> arguments"""
        rng = self.rng
        entries = list(entries)
        rng.shuffle(entries)
        args = []
        for e, t in entries:
            o = e["o"]
            r = rng.random()
            s = SHORT.get(o)
            if e["k"] == "flag":
                args.append("-" + s if s and r < .5 else "--" + o)
            elif s and r < .3:
                args += ["-" + s, t]
            elif s and r < .4:
                args.append("-" + s + t)
            elif r < .6 and t:
                args.append("--%s=%s" % (o, t))
            else:
                args += ["--" + o, t]
        if rng.random() < .1:
            args.append("--error2std")
        return args


def spoiled(m, entries):
    """One of the numbers of a command line made something else: (entries, whether there was one)"""
    k = [i for i, (e, _) in enumerate(entries) if e["k"] in ("hex", "file")]
    if not k:
        return entries, False
    i = m.rng.choice(k)
    e, t = entries[i]
    bad = gen.no_number(m.rng, digits(m.rng, m.rng.randint(1, 6)))
    if bad[0] == "-":                   # not an option
        bad = "_" + bad
    if e["k"] == "file":
        e, t = dict(e, v=[gen.digit_values(bad)]), m.file(bad)
    else:
        e, t = dict(e, v=gen.digit_values(bad)), bad
    return entries[:i] + [(e, t)] + entries[i + 1:], True


def session_case(m, i):
    rng = m.rng
    c = gen.rand_circuit(rng, max_in=4, max_gates=12, term=rng.random() < .5)
    while gen.dangling(c):
        c = gen.rand_circuit(rng, max_in=4, max_gates=12, term=rng.random() < .5)
    cc = rng.choice([1, 1, 2, 3, 4, 7])
    both, A, B = [], [], []
    if cc != 1 or rng.random() < .4:
        both.append((dict(o="clock_cycles", k="num", v=cc), str(cc)))
    if c["term"] and rng.random() < .7:
        p = rng.choice([1, 1, 2, 3])
        both.append((dict(o="terminate_period", k="num", v=p), str(p)))
    if rng.random() < .8:
        t = digits(rng, (len(c["out"]) + 3) // 4)
        both.append((dict(o="output_mask", k="hex", v=[int(x, 16) for x in t]), t))
    for o in ("disable_OT", "low_mem_foot"):
        if rng.random() < (.7 if o == "disable_OT" else .5):
            both.append((dict(o=o, k="flag", v=0), None))
    if c["pi"] or rng.random() < .1:
        both.append(m.number("p_init", c["pi"]))
    if c["px"] or rng.random() < .1:
        both.append(m.number("p_input", c["px"] * cc))
    if c["gi"] or rng.random() < .1:
        A.append(m.number("init", c["gi"]))
    if c["gx"] or rng.random() < .1:
        A.append(m.number("input", c["gx"] * cc))
    if c["ei"] or rng.random() < .1:
        B.append(m.number("init", c["ei"]))
    if c["ex"] or rng.random() < .1:
        B.append(m.number("input", c["ex"] * cc))
    mode = rng.choice(MODES + [None])
    if mode:
        both.append((dict(o="output_mode", k="word", v=mode), mode))
    readable = True
    scd = os.path.join(m.d, "c%d.scd" % i)
    open(scd, "w").write(gen.scd_text(c))
    # now and then something that cannot be done
    r = rng.random()
    role = [("alice", A), ("bob", B)]
    if i % 9 == 8:
        k = rng.choice(["mode", "role", "cycles", "period", "file", "number", "number", "number"])
        if k == "mode":
            both = [e for e in both if e[0]["o"] != "output_mode"]
            bad = rng.choice(["3", "4", "-1", "last", "separated", "consecutive_"])
            both.append((dict(o="output_mode", k="word", v=bad), bad))
        elif k == "role":
            role = [("alice", A), (None, B)]
        elif k == "cycles":
            both = [e for e in both if e[0]["o"] != "clock_cycles"] + [(dict(o="clock_cycles", k="num", v=0), "0")]
        elif k == "period":
            c = dict(c, term=0)
            open(scd, "w").write(gen.scd_text(c))
            both = [e for e in both if e[0]["o"] != "terminate_period"] + [(dict(o="terminate_period", k="num", v=2), "2")]
        elif k == "number":
            part = rng.choice([both, A, B])
            part[:] = spoiled(m, part)[0]
        else:
            readable = False
            scd += "-missing"
    both.append((dict(o="scd_file", k="word", v="file"), scd))
    cmds = []
    for r, own in role:
        e = both + own + ([(dict(o=r, k="flag", v=0), None)] if r else [])
        cmds.append(e)
    port = cli.free_port()
    argsA, argsB = m.spelling(cmds[0] + [(dict(o="port", k="num", v=0), str(port))]), None
    relay = None
    bport, bip = port, rng.choice([None, None, "127.0.0.1", "localhost"])
    if i % 4 == 3:
        bip = "127.%d.0.%d" % (rng.randint(1, 200), rng.randint(2, 200))
        bport = cli.free_port()
        relay = (bip, bport, port)
    extra = [(dict(o="port", k="num", v=0), str(bport))] + ([(dict(o="server_ip", k="word", v=""), bip)] if bip else [])
    argsB = m.spelling(cmds[1] + extra)
    return dict(kind="session", A=[e for e, _ in cmds[0]], B=[e for e, _ in cmds[1]], c=c, readable=readable), dict(a=argsA, b=argsB, port=port, relay=relay)


def plain_case(m, i):
    rng = m.rng
    c = gen.rand_circuit(rng, max_in=4, max_gates=12, need_secret=False)
    cc = rng.choice([1, 2, 3, 5]) if i % 17 != 16 else 0
    es = []
    if cc != 1 or rng.random() < .4:
        es.append((dict(o="clock_cycles", k="num", v=cc), str(cc)))
    if c["term"] and rng.random() < .7:
        p = rng.choice([1, 2, 3])
        es.append((dict(o="terminate_period", k="num", v=p), str(p)))
    for o, n in (("p_init", c["pi"]), ("g_init", c["gi"]), ("e_init", c["ei"]), ("p_input", c["px"] * cc), ("g_input", c["gx"] * cc), ("e_input", c["ex"] * cc)):
        if n or rng.random() < .1:
            es.append(m.number(o, n))
    if i % 7 == 6:
        es = spoiled(m, es)[0]
    mode = rng.choice(MODES + [None]) if i % 9 != 8 else rng.choice(["3", "last", "x"])
    if mode:
        es.append((dict(o="output_mode", k="word", v=mode), mode))
    scd = os.path.join(m.d, "p%d.scd" % i)
    open(scd, "w").write(gen.scd_text(c))
    open(scd + ".map", "w").write("".join("n%d %d\n" % (w, w) for w in range(gen.dff_lo(c), gen.wires(c))) + "terminate %d\n" % c["term"])
    readable = i % 11 != 10
    if i % 13 != 12:
        es.append((dict(o="scd_file", k="word", v="file"), scd if readable else scd + "-missing"))
    return dict(kind="plain", A=[e for e, _ in es], B=[], c=c, readable=readable), dict(a=m.spelling(es))


def judge(want, got):
    for k, (w, g) in enumerate(zip(want, got)):
        who = ["garbler", "evaluator"][k] if len(want) == 2 else "command"
        if g["rc"] == "waiting" and not w["ok"]:      # nobody ever came
            continue
        if g["rc"] in (None, "waiting"):
            return "%s does not end" % who
        if w["ok"]:
            if g["rc"] != 0:
                return "%s fails with status %d (%s)" % (who, g["rc"], g["err"][-200:])
            t = g["out"]
            if t.endswith("\n"):
                t = t[:-1]
            try:
                ok = norm(t.rstrip("\n")) == w["out"]
            except ValueError:
                ok = False
            if not ok:
                return "%s prints %.300r instead of %.300r" % (who, g["out"], "\n".join(w["out"]))
        elif g["rc"] == 0:
            return "%s returns 0 for a request that has to be refused, and prints %.200r" % (who, g["out"])
        elif g["rc"] < 0:
            return "%s ends with signal %d" % (who, -g["rc"])
    return None


def check(ctx):
    rng = ctx.rng
    b = build.build("log", tools=True)
    d = os.path.join(ctx.work, "cli")
    os.mkdir(d)
    exe = {k: os.path.join(b, k) for k in ("garbled_circuit_main", "scd_evaluator_main", "v_2_scd_main", "OT_main")}
    have = {k for k in exe if os.path.exists(exe[k])}
    for k in set(exe) - have:
        ctx.note("command_gone_" + k)
    m = Maker(ctx, d)
    todo = []
    if "garbled_circuit_main" in have:
        todo += [session_case(m, i) for i in range(ctx.scale(220, 2000))]
    if "scd_evaluator_main" in have:
        todo += [plain_case(m, i) for i in range(ctx.scale(180, 1500))]
    f = os.path.join(ctx.work, "cases.ndjson")
    open(f, "w").write("".join(json.dumps(s) + "\n" for s, _ in todo))
    want = [None] * len(todo)
    for l in ctx.tlc("Cli", CFG, env={"CASES": f}, workers=4).lines:
        want[l["id"] - 1] = l["e"]

    def go(i, again=0):
        s, x = todo[i]
        w = os.path.join(d, "run%d-%d" % (i, again))
        os.mkdir(w)
        if s["kind"] == "plain":
            return cli.single(exe["scd_evaluator_main"], x["a"], w)
        relay = None
        if x["relay"]:
            relay = cli.Relay(*x["relay"], i)
        return cli.session(exe["garbled_circuit_main"], x["a"], x["b"], x["port"], w, relay=relay)
    got = parallel([lambda i=i: go(i) for i in range(len(todo))])
    for i, (w, g) in enumerate(zip(want, got)):
        why = judge(w, g)
        if why and judge(w, go(i, 1)):
            g = go(i, 2)
            why = judge(w, g)
            if why:
                s, x = todo[i]
                ctx.violation("%s: %s" % (" ".join(x["a"]) if s["kind"] == "plain" else "garbler %s | evaluator %s" % (" ".join(x["a"]), " ".join(x["b"])), why),
                              dict(case=s, run=x, want=w, got=g, scd=gen.scd_text(s["c"])))
        ctx.note(todo[i][0]["kind"])
    ctx.traces += len(todo)
    if "v_2_scd_main" in have:
        translator(ctx, exe["v_2_scd_main"], m)
    small(ctx, exe, have, m)
    if todo:
        ctx.sample(dict(a=todo[0][1]["a"], b=todo[0][1].get("b"), want=want[0], got=got[0]))


def translator(ctx, exe, m):
    """The translator command writes what the specification accepts as a translation."""
    rng = ctx.rng
    items = []
    for i in range(ctx.scale(40, 300)):
        n = NL.rand_netlist(rng, loop=i % 7 == 6) if i % 2 else NL.rand_bristol(rng)
        items.append((n, NL.bristol(n, rng) if n["form"] == "bristol" else NL.verilog(n, rng), None))
    paths = []
    for n, t, _ in items:
        p = m.file(t)
        o = p + rng.choice([".scd", ".out", ""]) + "_"
        a = m.spelling([(dict(o="brist_netlist" if n["form"] == "bristol" else "netlist", k="word"), p), (dict(o="scd", k="word"), o)])
        if rng.random() < .5:
            a = [{"--netlist": "-i", "--brist_netlist": "-b", "--scd": "-o"}.get(x, x) for x in a]
        paths.append((a, o))
    got = parallel([lambda a=a: cli.single(exe, a, m.d)[0] for a, _ in paths])
    res = []
    for g, (a, o) in zip(got, paths):
        c = NL.read_scd(open(o).read()) if os.path.exists(o) else None
        mp = NL.read_map(open(o + ".map").read()) if os.path.exists(o + ".map") else None
        crash = -g["rc"] if g["rc"] is not None and g["rc"] < 0 else 0
        res.append((dict(rc=[g["rc"] or 0, 0], crash=[crash, 0], hang=g["rc"] is None), c, mp))
    wrong = {"output", "terminate", "sizes", "refused", "loop accepted", "order", "map", "not mapped", "terminate position"}
    for (n, t, _), r, v, (a, o) in zip(items, res, T.judge(ctx, T.cases_of(ctx, items, res)), paths):
        why = T.broken(r, v, wrong)
        if why:
            ctx.violation("translator %s: %s" % (" ".join(a), why), dict(text=t, args=a, scd=str(r[1]), verdicts=v[:10]))
    ctx.traces += len(items)
    ctx.note("translator", len(items))


def small(ctx, exe, have, m):
    """Missing options are refused; help is given; the default port; one transfer with the transfer command."""
    rng = ctx.rng
    v = m.file("module t ( g_input, o );\ninput g_input; output o;\nIV U1 ( .A(g_input), .Z(o) );\nendmodule\n")
    out = os.path.join(m.d, "never")
    for k, args in (("v_2_scd_main", ["-i", v]), ("v_2_scd_main", ["-o", out]), ("v_2_scd_main", ["-i", v + "-missing", "-o", out]), ("scd_evaluator_main", []),
                    ("garbled_circuit_main", []), ("garbled_circuit_main", ["-b", "-p", str(cli.free_port())]), ("garbled_circuit_main", ["-a", "-c", "many"])):
        if k in have:
            g = cli.single(exe[k], args, m.d, 20)[0]
            if g["rc"] in (0, None) and cli.single(exe[k], args, m.d, 20)[0]["rc"] in (0, None):
                ctx.violation("%s %s is not refused" % (k, " ".join(args)), g)
    # values that cannot be, ports that are taken, nobody to talk to, nowhere to write: refused, without a crash
    c = gen.circuit(gx=1, ex=1, gates=[("AND", 0, 1)], out=[2])
    scd = m.file(gen.scd_text(c))
    os.mkdir(out + "-dir")
    os.makedirs(out + "-map.map")
    with socket.socket() as taken, socket.socket() as idle:
        for s in (taken, idle):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        busy, nobody = cli.free_port(), cli.free_port()
        taken.bind(("0.0.0.0", busy))
        taken.listen(1)
        gc = ["-i", scd, "--input", "1"]
        asks = [("garbled_circuit_main", ["-a", "-p", str(busy)] + gc), ("garbled_circuit_main", ["-b", "-p", str(nobody)] + gc),
                ("OT_main", ["-a", "-p", str(busy), "--message0", "AA", "--message1", "BB"]), ("OT_main", ["-b", "-p", str(nobody), "--select", "1"]),
                ("OT_main", ["-p", str(nobody)]),
                ("v_2_scd_main", ["-i", v, "-o", os.path.join(m.d, "no", "where")]), ("v_2_scd_main", ["-i", v, "-o", out + "-dir"]),
                ("v_2_scd_main", ["-i", v, "-o", out + "-map"])]
        for k in sorted(have):
            asks += [(k, [a]) for a in ("--dump_directory", "--alice=yes", "--log2std=3", "--no_such_option")]
        for k, args in asks:
            if k in have:
                g = cli.single(exe[k], args, m.d, 20)[0]
                if g["rc"] is None or g["rc"] <= 0:
                    g = cli.single(exe[k], args, m.d, 20)[0]
                    if g["rc"] is None or g["rc"] <= 0:
                        ctx.violation("%s %s %s" % (k, " ".join(args), "ends with signal %d" % -g["rc"] if (g["rc"] or 0) < 0 else "is not refused"), g)
        ctx.note("refusals", len(asks))
    for k in sorted(have - {"OT_main"}):
        for a in ("-h", "--help"):
            g = cli.single(exe[k], [a], m.d, 20)[0]
            if g["rc"] != 0 or not g["out"].strip():
                ctx.violation("%s %s gives no help" % (k, a), g)
    if "garbled_circuit_main" in have and not cli.listening(1234):
        c = gen.circuit(gx=4, ex=4, gates=[("AND", 0, 4), ("XOR", 1, 5), ("OR", 2, 6), ("NOR", 3, 7)], out=[8, 9, 10, 11])
        p = m.file(gen.scd_text(c))

        def go():
            return cli.session(exe["garbled_circuit_main"], ["-a", "-i", p, "--input", "C"], ["-b", "-i", p, "--input", "A"], 1234, m.d)
        want = [dict(ok=True, out=["0"]), dict(ok=True, out=["6"])]      # AND 0&0=0, XOR 0^1=1, OR 1|0=1, NOR 0
        if judge(want, go()) and judge(want, go()):
            ctx.violation("default port: " + judge(want, go()), go())
    if "OT_main" in have:
        for sel in (0, 1):
            ms = [digits(rng, 32).upper() for _ in range(2)]

            def ot():
                w = os.path.join(m.d, "ot%d%d" % (sel, rng.getrandbits(40)))
                os.mkdir(w)
                port = cli.free_port()
                r = cli.session(exe["OT_main"], ["-a", "-p", str(port), "--message0", ms[0], "--message1", ms[1]], ["--bob", "--port", str(port), "--select", str(sel)], port, w)
                log = "".join(open(os.path.join(w, x), errors="replace").read() for x in os.listdir(w) if x.startswith("bob") and "info" in x) + r[1]["out"]
                t = "".join(x for x in log.upper() if x in "0123456789ABCDEF")
                rev = lambda h: bytes.fromhex(h)[::-1].hex().upper()
                seen = [ms[k] in t or rev(ms[k]) in t for k in (0, 1)]
                if r[0]["rc"] != 0 or r[1]["rc"] != 0:
                    return "status %s %s" % (r[0]["rc"], r[1]["rc"])
                if seen[1 - sel] or (any(seen) and not seen[sel]):
                    return "the evaluator's log shows message %d" % (1 - sel)
                return None
            if ot() and ot():
                ctx.violation("transfer command, selection %d: %s" % (sel, ot()), dict(messages=ms))
            ctx.note("transfer_command")
