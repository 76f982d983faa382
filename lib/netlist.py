"""Netlists: random and systematic generation, Verilog and Bristol text, reading translations back."""
import re

import gen

TWO = [t for t in gen.TYPES if t != "NOT"]
NAME = {c: t for t, c in gen.CODE.items()}
PORTS = ("p_init", "g_init", "e_init", "p_input", "g_input", "e_input")
KEYS = ("pi", "gi", "ei", "px", "gx", "ex")
PINS = {"DFF": (("D", "I"), ("Q",)), "MUX": (("IN0", "IN1", "SEL"), ("F",)), "HADDER": (("IN0", "IN1"), ("SUM", "COUT")),
        "FADDER": (("IN0", "IN1", "CIN"), ("SUM", "COUT")), "NOT": (("A",), ("Z",))}
PINS.update({t: (("A", "B"), ("Z",)) for t in TWO})


def netlist(cells, assigns=(), o=1, term=False, form="verilog", **w):
    n = dict(form=form, o=o, term=term, wires=0, cells=[dict(t=t, **{"in": list(i), "out": list(u)}) for t, i, u in cells], assigns=[list(a) for a in assigns])
    n.update({k: w.get(k, 0) for k in KEYS})
    return n


def bit(port, i, n, rng=None):
    """A name of bit i of a port; one-bit ports have two names."""
    return port if n == 1 and (rng is None or rng.random() < .6) else "%s[%d]" % (port, i)


def rand_netlist(rng, max_in=2, max_init=1, max_dff=3, max_cells=9, macros=True, consts=True, aliases=True, loop=False, tight=6, shape=None, max_o=4, const_out=True):
    """A legal netlist (or, with loop, one with a combinational loop), its cells in random order."""
    while True:
        w = [rng.randint(0, max_init) if rng.random() < .5 else 0 for _ in range(3)] + [rng.randint(0, max_in) if rng.random() < .75 else 0 for _ in range(3)]
        nd = rng.randint(0, max_dff) if rng.random() < .8 else 0
        if sum(w[:3]) + sum(w[3:]) + nd <= tight and (sum(w[3:]) + nd > 0 or rng.random() < .05):
            break
    if nd == 0 and rng.random() < .9:
        w[:3] = [0, 0, 0]
    inits = [bit(p, i, k, rng) for p, k in zip(PORTS[:3], w[:3]) for i in range(k)]
    ins = [bit(p, i, k, rng) for p, k in zip(PORTS[3:], w[3:]) for i in range(k)]
    no = rng.randint(1, max_o)
    term = rng.random() < .3 and sum(w[3:]) + nd > 0     # (terminate on wire 0 cannot be expressed)
    fresh = iter(range(100000))

    def net():
        k = next(fresh)
        return rng.choice(["n%d", "U%d_Z", "\\u1/n%d ", "sum_%d", "w[%d]", "_%d", "N%d", "o_%d", "g_input_reg%d", "MUX_%d", "input%d", "endmodule_%d"][:1 if rng.random() < .6 else 12]).strip() % k
    outs = [bit("o", i, no, rng if no == 1 else None) for i in range(no)]
    targets = outs + (["terminate"] if term else [])
    rng.shuffle(targets)
    # Qs: some flip-flops drive an output directly
    cells, assigns = [], []
    direct = []
    qs = []
    for _ in range(nd):
        if targets and rng.random() < .25:
            q = targets.pop()
            direct.append(q)
        else:
            q = net()
        qs.append(q)
    pool = ins + qs
    alias = {}
    late = []

    def operand():
        r = rng.random()
        if consts and r < .06 or not pool:
            return rng.choice(["1'b0", "1'b1"])
        if aliases and r < .16:
            a = net()
            late.append([a, rng.choice(pool) if rng.random() < .9 else rng.choice(["1'b0", "1'b1"])])
            if rng.random() < .3:       # a chain of aliases
                b = net()
                late.append([b, a])
                a = b
            return a
        return rng.choice(pool[-5:]) if rng.random() < .5 else rng.choice(pool)
    nc = rng.randint(1, max_cells)
    comb = []
    for k in range(nc):
        r = rng.random()
        t = rng.choice(["MUX", "HADDER", "FADDER"]) if macros and r < .3 else rng.choice(TWO) if r < .85 else "NOT"
        if shape and rng.random() < .8:
            t = rng.choice(shape)
        i = [operand() for _ in PINS[t][0]]
        u = []
        for _ in PINS[t][1]:
            if targets and rng.random() < (len(targets) / max(1.0, nc - k) if nc - k else 1):
                x = targets.pop()
            else:
                x = net()
            u.append(x)
        if t in ("HADDER", "FADDER") and rng.random() < .4:
            k2 = rng.randint(0, 1)
            if u[k2] in outs or u[k2] == "terminate":
                k2 = 1 - k2
            if u[k2] not in outs and u[k2] != "terminate":
                u[k2] = ""
        comb.append([t, i, u])
        pool += [x for x in u if x]
    for q in qs:
        d = operand() if rng.random() < .5 or not comb else rng.choice([x for x in comb[-1][2] if x] or ["1'b0"])
        i0 = rng.choice(["1'b0", "1'b1"] + inits * 3) if inits else rng.choice(["1'b0", "1'b1"])
        if aliases and rng.random() < .1:
            a = net()
            late.append([a, i0])
            i0 = a
        cells.append(["DFF", [d, i0], [q]])
    for t in targets:                       # what no cell drives is an alias
        r = rng.random()
        if t != "terminate" and const_out and r < .06:
            src = rng.choice(["1'b0", "1'b1"])
        else:
            src = rng.choice(pool) if pool else rng.choice(["1'b0", "1'b1"])
            if r > .9:
                a = net()
                late.append([a, src])
                src = a
        late.append([t, src])
    if loop:
        combs = [c for c in comb]
        c = rng.choice(combs)
        reach = rng.choice([c] + combs[combs.index(c):])       # feed a cell from one that depends on it, or from itself
        target = rng.choice([x for x in reach[2] if x])
        c[1][rng.randrange(len(c[1]))] = target
        if reach is not c:                                    # make sure reach depends on c
            k = combs.index(c)
            chain = combs[k:combs.index(reach) + 1]
            for a, b in zip(chain, chain[1:]):
                b[1][rng.randrange(len(b[1]))] = rng.choice([x for x in a[2] if x])
            # restoring the back edge, which the chain may have overwritten
            if target not in c[1]:
                c[1][0] = target
    cells = cells + comb
    rng.shuffle(cells)
    rng.shuffle(late)
    return netlist(cells, late, no, term, **dict(zip(KEYS, w)))


def verilog(n, rng, kinds={}, keep=False):
    """One of the many ways to write the netlist down.  kinds: other names for the types of some cells."""
    sp = lambda: rng.choice(["", "", " ", "  ", "\t"])
    nl = lambda: rng.choice([" ", " ", "\n", "\n\t", "\r\n    "])
    decl, names = [], []
    seq = [("input", p, n[k]) for p, k in zip(PORTS, KEYS) if n[k]] + [("output", "o", n["o"])] + ([("output", "terminate", 1)] if n["term"] else [])
    seq += [("input", "clk", 1), ("input", "rst", 1)] if rng.random() < .7 else []
    rng.shuffle(seq)
    for d, p, w in seq:
        names.append(p)
        rngtxt = "" if p in ("clk", "rst", "terminate") or w == 1 and rng.random() < .6 else "[%d:0] " % (w - 1)
        decl.append("%s%s %s%s%s;" % (rng.choice(["", "  ", "\t"]), d, sp().replace("\t", " "), rngtxt, p))
    if rng.random() < .4:       # several one-bit ports, or ports of equal width, in one declaration
        groups = {}
        for d, p, w in seq:
            if p != "terminate" and not (w == 1 and p in ("clk", "rst")):
                groups.setdefault((d, w), []).append(p)
        decl = ["  %s %s%s;" % (d, "[%d:0] " % (w - 1) if w > 1 else "", (", " if rng.random() < .5 else ",").join(ps)) for (d, w), ps in groups.items()]
        decl += ["  output terminate;"] if n["term"] else []
        decl += ["  input %s;" % ", ".join(p for _, p, _ in seq if p in ("clk", "rst"))] if any(p == "clk" for _, p, _ in seq) else []
        rng.shuffle(decl)
    t = ["module %s ( %s );" % (rng.choice(["top", "sum_4bit_1cc", "test"]), ", ".join(names))] + decl
    nets = [x for c in n["cells"] for x in c["out"] if x and not x.startswith("o[") and x not in ("o", "terminate")]
    if nets and rng.random() < .8:
        t.append("  wire   %s;" % (", " if rng.random() < .5 else ",\n         ").join(x + " " * x.startswith("\\") for x in nets))
    items = []
    for k, c in enumerate(n["cells"]):
        pi, po = PINS[c["t"]]
        pins = [(p, x) for p, x in zip(pi + po, c["in"] + c["out"])]
        pins = [(p, x) for p, x in pins if x or rng.random() < .5]
        if c["t"] == "DFF":
            pins += [("CLK", "clk"), ("RST", "rst")]
        if rng.random() < .5:
            rng.shuffle(pins)

        def ref(x):
            if x.endswith("]") and rng.random() < .15:      # "name [3]", as some tool versions write it
                i = x.rindex("[")
                return x[:i] + " " + x[i:]
            return x + " " * x.startswith("\\")        # (an escaped name ends with a space)
        kind = kinds.get(k, {"NOT": "IV"}.get(c["t"], c["t"]))
        body = ("," + nl() if rng.random() < .5 else ", ").join(".%s%s(%s%s%s)" % (p, rng.choice(["", "", " "]), rng.choice(["", "", " "]), ref(x), rng.choice(["", "", " "])) for p, x in pins)
        items.append("  %s %s%s(%s%s%s);" % (kind, rng.choice(["U%d", "u_%d", "cell_%d", "\\reg[%d] ", "MUX_inst%d"]) % k, rng.choice([" ", "  ", "\n  "]), rng.choice(["", " "]), body, rng.choice(["", " "])))
    for l, r in n["assigns"]:
        items.append("  assign %s = %s%s;" % (l, r, " " * r.startswith("\\")))
    if keep:
        pass
    elif rng.random() < .6:     # assigns among the cells, or after or before them
        rng.shuffle(items)
    elif rng.random() < .5:
        items = [x for x in items if "assign" in x] + [x for x in items if "assign" not in x]
    if rng.random() < .1:
        return " ".join(t + items).replace("\n", " ") + " endmodule\n"
    return "\n".join(t + [""] + items) + rng.choice(["\nendmodule\n", "\nendmodule", "\n\nendmodule\n\n", "\r\nendmodule\r\n"])


NOISE = ["// Created by: some tool (R)", "// input AND gates ; assign a = b", "/* two\n lines = of output ; endmodule */", "(* src = \"a.v:12\" *)", "(* top =  1  *)", "// ////", "/* x */", "(*keep*)"]


def noisy(t, rng):
    """The same text with comments and attributes between its lines."""
    out = []
    for l in t.split("\n"):
        if rng.random() < .15:
            out.append(rng.choice(["", "  "]) + rng.choice(NOISE))
        out.append(l + (rng.choice([" ", "  "]) + rng.choice([x for x in NOISE if x[:2] == "//"]) if rng.random() < .1 and l.strip().endswith(";") else ""))
    return "\n".join(out)


def tokens(t):
    """The tokens of a text, for spec/Reader.tla."""
    out = []
    for m in re.finditer(r"//[^\n]*|/\*.*?\*/|\(\*.*?\*\)|[(),;]|\\\S+|[^\s(),;]+", t, re.S):
        x = m.group()
        if x[:2] in ("//", "/*", "(*") and len(x) > 1:
            continue
        r = re.fullmatch(r"\[(\d+):0\]", x)
        if x in "(),;=":
            out.append(dict(k=x, s=x, n=0))
        elif r:
            out.append(dict(k="range", s="", n=int(r.group(1))))
        elif re.fullmatch(r"\[\d+\]", x):
            out.append(dict(k="bit", s=x, n=0))
        elif re.fullmatch(r"\.[A-Za-z]\w*", x):
            out.append(dict(k="pin", s=x[1:], n=0))
        elif re.fullmatch(r"\\[^\\]+|[A-Za-z_][\w$]*(\[\d+\])?|1'b[01]", x):
            out.append(dict(k="word", s=x, n=0))
        else:
            out.append(dict(k="other", s=x, n=0))
    return out


def rand_bristol(rng, max_in=3, max_gates=12, scramble=False):
    """A circuit in the Bristol form; the last wires are the outputs."""
    while True:
        g, e = rng.randint(0, max_in), rng.randint(0, max_in)
        if g + e:
            break
    ng = rng.randint(1, max_gates)
    o = rng.randint(1, min(ng, 4))
    n = g + e + ng
    lo = g + e
    cells = []
    # logical gates in order, physical numbering: the last o wires are gates; with scramble, wire numbers are in any order
    num = list(range(lo, n))
    if scramble:
        rng.shuffle(num)
    for k in range(ng):
        have = list(range(lo)) + num[:k]
        t = rng.choice(["XOR", "AND", "AND", "NOT"])
        pick = lambda: rng.choice(have[-5:]) if rng.random() < .6 else rng.choice(have)
        a = pick()
        i = [str(a)] if t == "NOT" else [str(a), str(pick())]
        cells.append((t, i, [str(num[k])]))
    if scramble:
        rng.shuffle(cells)
    r = netlist(cells, o=o, form="bristol", gx=g, ex=e)
    r["wires"] = n
    return r


def bristol(n, rng):
    t = ["%d %d" % (len(n["cells"]), n["wires"]), "%d %d   %d" % (n["gx"], n["ex"], n["o"]), ""]
    for c in n["cells"]:
        kind = {"NOT": "INV"}.get(c["t"], c["t"])
        t.append(" ".join([str(len(c["in"])), "1"] + c["in"] + c["out"] + [kind]))
    if rng.random() < .3:
        t = [x for x in t if x]
    return "\n".join(t) + rng.choice(["\n", "", "\n\n"])


def read_scd(text):
    """The circuit a description denotes, or None when it is not one."""
    try:
        x = [int(v) for v in text.split()]
    except ValueError:
        return None
    if len(x) < 10:
        return None
    pi, gi, ei, px, gx, ex, nd, no, term, ng = x[:10]
    if min(x[:10]) < 0 or len(x) != 10 + 3 * ng + no + 2 * nd:
        return None
    k = 10
    a, b, t = (x[k + i * ng:k + (i + 1) * ng] for i in range(3))
    k += 3 * ng
    out, D, I = x[k:k + no], x[k + no:k + no + nd], x[k + no + nd:]
    if any(v not in NAME for v in t):
        return None
    return gen.circuit(pi, gi, ei, px, gx, ex, zip((NAME[v] for v in t), a, b), D, I, out, term)


def read_map(text):
    rows = [l.split() for l in text.splitlines() if l.strip()]
    if any(len(r) < 2 for r in rows):
        return None
    try:
        return [[" ".join(r[:-1]), int(r[-1])] for r in rows]
    except ValueError:
        return None


def matrix(rng):
    """Every cell on every kind of operand: inputs of the three parties, constants, a flip-flop, a gate, the same net twice."""
    out = []
    ops = ["p_input", "g_input[0]", "g_input[1]", "e_input", "1'b0", "1'b1", "q", "x"]
    for t in sorted(PINS):
        ins, outs = PINS[t]
        combos = []
        if len(ins) == 1:
            combos = [[a] for a in ops]
        elif t == "DFF":
            combos = [[a, i] for a in ops for i in ("1'b0", "1'b1", "p_init", "g_init[0]", "g_init[1]", "e_init")]
        elif len(ins) == 2:
            combos = [[a, b] for a in ops for b in ops]
        else:
            combos = [[rng.choice(ops) for _ in ins] for _ in range(40)] + [["p_input", "g_input[1]", "e_input"]] * 6
        per = 6 if t != "DFF" else 3
        for k in range(0, len(combos), per):
            part = combos[k:k + per]
            names = []
            cells = [["DFF", ["x", "1'b1"], ["q"]], ["XOR", ["g_input[1]", "q"], ["x"]]]
            for c in part:
                o = []
                for _ in outs:
                    names.append("o[%d]" % len(names))
                    o.append(names[-1])
                if len(outs) == 2 and rng.random() < .4:        # one of the two adder outputs unused
                    j = rng.randint(0, 1)
                    names.pop()
                    o = [names[-1], ""] if j else ["", names[-1]]
                cells.append([t, c, o])
            if len(names) == 1:
                cells.append(["NOT", ["x"], ["o[1]"]])
                names.append("o[1]")
            rng.shuffle(cells)
            w = dict(px=1, gx=2, ex=1)
            if t == "DFF":
                w.update(pi=1, gi=2, ei=1)
            out.append(netlist(cells, o=len(names), **w))
    return out


def wide(rng, w=14):
    """Ports of more than ten bits, each bit used once and at its own place."""
    ws = dict(zip(KEYS, rng.sample(range(11, 11 + w), 6)))
    cells, outs = [], []
    for p, k in zip(PORTS[:3], KEYS[:3]):
        for i in range(ws[k]):
            q = "q%d" % len(outs)
            outs.append(q)
            cells.append(["DFF", [q, "%s[%d]" % (p, i)], [q]])
    for p, k in zip(PORTS[3:], KEYS[3:]):
        for i in range(ws[k]):
            z = "z%d" % len(outs)
            cells.append(["XOR", ["%s[%d]" % (p, i), outs[rng.randrange(len(outs))]], [z]])
            outs.append(z)
    rng.shuffle(outs)
    n = netlist(cells, [["o[%d]" % i, x] for i, x in enumerate(outs)], len(outs), rng.random() < .5, **ws)
    if n["term"]:
        n["assigns"].append(["terminate", rng.choice(outs)])
    rng.shuffle(n["cells"])
    rng.shuffle(n["assigns"])
    return n


def cone(c):
    """The part of a circuit that its outputs, flip-flops and terminate wire depend on, renumbered."""
    lo = gen.gate_lo(c)
    need, todo = set(), [w for w in c["out"] + c["D"] + [c["term"]] if w >= lo]
    while todo:
        w = todo.pop()
        if w in need:
            continue
        if w - lo >= len(c["gates"]):
            return c
        need.add(w)
        g = c["gates"][w - lo]
        todo += [x for x in (g["a"], g["b"]) if x >= lo]
    num = {w: lo + k for k, w in enumerate(sorted(need))}
    f = lambda w: num.get(w, w) if w >= lo else w
    return dict(c, gates=[dict(t=c["gates"][w - lo]["t"], a=f(c["gates"][w - lo]["a"]), b=f(c["gates"][w - lo]["b"])) for w in sorted(need)],
                D=[f(w) for w in c["D"]], out=[f(w) for w in c["out"]], term=f(c["term"]) if c["term"] >= lo else c["term"])
