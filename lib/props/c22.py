"""C22: netlists that mean nothing are refused."""
import copy, json, os
import build, cli, netlist as NL, reader as R, translate as T
from ctx import parallel

CFG = "SPECIFICATION Spec\nCONSTANTS Cases <- FromFile\nINVARIANTS Consistent Judged\nPROPERTY Settles\nCHECK_DEADLOCK FALSE\n"
UNKNOWN = ["LATCH", "BUF", "INV", "AND3", "and", "DFFR", "XOR2", "FADD", "Mux", "OAI21", "TIEHI", "NOT"]


def pins(n):
    return [(c, k) for c in n["cells"] for k in range(len(c["in"]))]


def mutate(rng, n0):
    """A netlist broken in one place (mostly), the cells its text calls something unknown, and errors of the text."""
    n = copy.deepcopy(n0)
    odd, syntax = {}, ""
    kind = rng.choice(["pin", "pin", "outpin", "rename", "rename", "drop", "drop", "dropassign", "renameout", "renameassign", "output", "terminate",
                       "cell", "cell", "cell+pin", "badin", "badout", "wideterm", "end"])
    fresh = rng.choice(["nowhere", "n999", "o[9]", "g_input[77]", "e_init[50]", "x[3]", "g_input[1", "clk_gate", "1'bx", "terminate_"])
    if kind in ("pin", "cell+pin"):
        c, k = rng.choice(pins(n))
        c["in"][k] = ""
        if kind == "cell+pin":          # a cell nobody knows just before it
            i = n["cells"].index(c)
            src = rng.choice(["1'b0", "1'b1"])
            n["cells"].insert(i, dict(t="XOR", **{"in": [src, src], "out": ["spare_"]}))
            odd[i] = True
    elif kind == "outpin":
        c = rng.choice(n["cells"])
        c["out"] = ["" for _ in c["out"]]
    elif kind == "rename":
        c, k = rng.choice(pins(n))
        c["in"][k] = fresh
    elif kind == "drop":
        n["cells"].pop(rng.randrange(len(n["cells"])))
    elif kind == "dropassign" and n["assigns"]:
        n["assigns"].pop(rng.randrange(len(n["assigns"])))
    elif kind == "renameout":
        c = rng.choice(n["cells"])
        k = rng.randrange(len(c["out"]))
        if c["out"][k]:
            c["out"][k] = "renamed_"
    elif kind == "renameassign" and n["assigns"]:
        rng.choice(n["assigns"])[rng.randint(0, 1)] = fresh
    elif kind == "output":
        n["o"] += rng.choice([1, 1, 2, 7])
    elif kind == "terminate":
        n["term"] = True
    elif kind == "cell":
        odd[rng.randrange(len(n["cells"]))] = True
    elif kind in ("badin", "badout", "wideterm", "end"):
        syntax = kind
    return n, odd, syntax


def text(rng, n, odd, syntax):
    """The netlist's text, with the cells in odd under names that mean nothing."""
    if syntax == "wideterm":
        n["term"] = True
    t = NL.verilog(n, rng, kinds={i: rng.choice(UNKNOWN) for i in odd})
    if syntax == "badin":
        t = t.replace(";", ";\n  input %s%s;\n" % (rng.choice(["", "[3:0] "]), rng.choice(["x", "g_inputs", "a", "init", "e_inp", "P_INPUT", "o"])), 1)
    elif syntax == "badout":
        t = t.replace(";", ";\n  output %s%s;\n" % (rng.choice(["", "[3:0] "]), rng.choice(["out", "terminated", "y", "O", "e_input"])), 1)
    elif syntax == "wideterm":
        t = t.replace("output terminate;", "").replace(";", ";\n  output [%d:0] terminate;\n" % rng.choice([1, 1, 3, 12]), 1)
    elif syntax == "end":
        t = t[:t.rindex("endmodule")]
    return t


def without(n, odd):
    return dict(n, cells=[c for i, c in enumerate(n["cells"]) if i not in odd])


def bristol(rng):
    """A circuit in the Bristol form with something wrong; syntax says what."""
    n = NL.rand_bristol(rng, max_gates=8)
    t = [x for x in NL.bristol(n, rng).split("\n") if x.strip()]
    head, gates = t[:2], t[2:]
    kind = rng.choice(["short", "short", "cutline", "type", "operand", "nogates", "header", "empty", "duplicate", "operands"])
    syntax = kind
    if kind == "short":
        gates = gates[:-1]
    elif kind == "cutline":
        g = gates[-1].split()
        gates[-1] = " ".join(g[:rng.randrange(1, len(g))])
    elif kind == "type":
        k = rng.randrange(len(gates))
        g = gates[k].split()
        gates[k] = " ".join(g[:-1] + [rng.choice(["OR", "NAND", "EQW", "xor", "MAND", "NOT", "XORR", "0"])])
    elif kind == "operand":             # an operand no gate and no input drives
        k = rng.randrange(len(gates))
        g = gates[k].split()
        g[2 if len(g) < 6 else rng.choice([2, 3])] = str(n["wires"] + rng.choice([0, 1, 50]) + n["o"])
        gates[k] = " ".join(g)
    elif kind == "duplicate":           # one gate's line in place of another's: that wire is not driven
        used = [k for k in range(len(gates)) if any(gates[k].split()[-2] in g.split()[2:-2] for g in gates) or int(gates[k].split()[-2]) >= n["wires"] - n["o"]]
        k = rng.choice(used)
        if len(gates) == 1:
            return bristol(rng)
        gates[k] = gates[rng.choice([j for j in range(len(gates)) if j != k])]
    elif kind == "nogates":
        head[0] = "0 %d" % n["wires"]
    elif kind == "header":
        head = ["%d" % len(gates)] if rng.random() < .5 else [head[0]]
        gates = []
    elif kind == "empty":
        head, gates = [], []
    elif kind == "operands":            # a gate with no or three operands
        k = rng.randrange(len(gates))
        g = gates[k].split()
        gates[k] = " ".join(["0"] + g[1:]) if rng.random() < .5 else " ".join(["3", "1", g[2], g[2], g[2]] + g[-2:])
    return n, "\n".join(head + gates) + rng.choice(["\n", ""]), syntax


def judge(ctx, cases, slices=4):
    def one(k):
        part = cases[k::slices]
        f = os.path.join(ctx.work, "broken%d-%d.ndjson" % (len(cases), k))
        with open(f, "w") as h:
            for c in part:
                h.write(json.dumps(c) + "\n")
        return ctx.tlc("MCBroken", CFG, env={"CASES": f}, workers=2, mem="3g")
    slices = max(1, min(slices, len(cases)))
    out = [[] for _ in cases]
    for k, r in enumerate(parallel([lambda k=k: one(k) for k in range(slices)])):
        for l in r.lines:
            if l not in out[k + (l["id"] - 1) * slices]:
                out[k + (l["id"] - 1) * slices].append(l)
    return out


def attempt(ctx, b, items, name):
    d = os.path.join(ctx.work, name)
    os.mkdir(d)
    res = T.translate(ctx, b, [(n, t) for n, t, _ in items], d)
    wrote = [os.path.exists(os.path.join(d, "n%d.scd" % k)) for k in range(len(items))]
    cases = [dict(n=n, syntax=syn, ok=r["rc"][0] == 0, wrote=w) for (n, t, syn), (r, c, m), w in zip(items, res, wrote)]
    return res, judge(ctx, cases)


def why(r, v):
    if r["crash"][0] or r["hang"]:
        return "the translator %s" % ("does not return" if r["hang"] else "crashes")
    for x in v:
        if x["what"] in ("accepted", "written", "refused", "unwritten"):
            return {"unwritten": "the translator reports success but there is no circuit description (%s)", "accepted": "a netlist that means nothing (%s) is accepted", "written": "a circuit description is written for a netlist that is refused or means nothing (%s)",
                    "refused": "a meaningful netlist is refused (%s)"}[x["what"]] % x["why"]
    return None


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    items = []
    for i in range(ctx.scale(600, 9000)):
        n = NL.rand_netlist(rng, macros=i % 3 > 0, max_cells=rng.choice([2, 5, 9]))
        n, odd, syn = mutate(rng, n)
        if not n["cells"]:
            continue
        t = text(rng, n, odd, syn)
        items.append((without(n, odd), t, syn))
    for i in range(ctx.scale(150, 2000)):
        items.append(bristol(rng))
    whole = [(n, NL.noisy(NL.verilog(n, rng), rng)) for n in (NL.rand_netlist(rng, macros=True, max_cells=7) for _ in range(ctx.scale(60, 400)))]
    items += [x[:3] for x in R.understood(ctx, whole, [R.mangle(rng, t) for n, t in whole for _ in range(6)] + ["", " ", "\n", ";", "module", "endmodule", "= =", "assign = ;", "\0", "\r\n"])]
    for i in range(ctx.scale(150, 3000)):
        if i % 2:
            n, t = rng.choice(whole)
        else:
            n = NL.rand_bristol(rng, max_gates=8)
            t = NL.bristol(n, rng)
        items.append((n, R.garble(rng, t), "any"))
    res, verdicts = attempt(ctx, b, items, "broken")
    if all(r["rc"][0] in (-90, -91) for r, _, _ in res):
        ctx.note("interfaces_gone", len(res))
    else:
        ctx.traces += len(res)
        bad = [k for k in range(len(items)) if res[k][0]["rc"][0] not in (-90, -91) and why(res[k][0], verdicts[k])][:20]
        if bad:
            again = [items[k] for k in bad]
            for (n, t, syn), (r, c, m), v in zip(again, *attempt(ctx, b, again, "broken-again")):
                if why(r, v):
                    ctx.violation(why(r, v), dict(text=t, netlist=n, rc=r["rc"][0]))
    for v in verdicts:
        for x in v:
            ctx.note(x["what"])
    ctx.sample(dict(text=items[0][1], verdict=verdicts[0]))
    tools(ctx, items, verdicts)


def tools(ctx, items, verdicts):
    """The command fails for netlists that mean nothing, and when it cannot read or write its files."""
    rng = ctx.rng
    exe = os.path.join(build.build("log", tools=True), "v_2_scd_main")
    if not os.path.exists(exe):
        ctx.note("command_gone")
        return
    d = os.path.join(ctx.work, "cli")
    os.makedirs(os.path.join(d, "dir"))
    todo = []
    broken = [k for k in range(len(items)) if any(x["what"] == "broken" for x in verdicts[k])]
    fine = [k for k in range(len(items)) if any(x["what"] == "meaningful" for x in verdicts[k])]
    for j, k in enumerate(rng.sample(broken, min(len(broken), ctx.scale(50, 400)))):
        n, t, syn = items[k]
        p = os.path.join(d, "b%d" % j)
        open(p, "w", newline="").write(t)
        todo.append((["-b" if n["form"] == "bristol" else "-i", p, "-o", p + ".scd"], p + ".scd", False, t))
    for j, k in enumerate(fine[:6]):
        n, t, syn = items[k]
        p = os.path.join(d, "f%d" % j)
        open(p, "w", newline="").write(t)
        f = "-b" if n["form"] == "bristol" else "-i"
        todo.append(([f, p, "-o", p + ".scd"], p + ".scd", True, t))
        todo.append(([f, p + "-missing", "-o", p + "m.scd"], p + "m.scd", False, ""))
        todo.append(([f, p, "-o", os.path.join(d, "no", "such", "place.scd")], os.path.join(d, "no", "such", "place.scd"), False, t))
        todo.append(([f, p, "-o", os.path.join(d, "dir")], None, False, t))
    def wrong(x):
        args, out, good, t = x
        if out and os.path.exists(out):
            os.remove(out)
        g = cli.single(exe, args, d)[0]
        if g["rc"] is None or g["rc"] < 0:
            return "does not return" if g["rc"] is None else "crashes (%d)" % g["rc"]
        if good:
            return "fails" if g["rc"] else None
        if g["rc"] == 0:
            return "reports success"
        return "leaves a circuit description" if out and os.path.exists(out) else None
    got = parallel([lambda x=x: wrong(x) for x in todo])
    for x, w in zip(todo, got):
        if w and len(ctx.violations) < 5:
            w = wrong(x)
            if w:
                ctx.violation("the translator command %s %s" % (" ".join(os.path.basename(a) for a in x[0]), w), dict(args=x[0], text=x[3], meaningful=x[2]))
    ctx.traces += len(todo)
    ctx.note("commands", len(todo))
