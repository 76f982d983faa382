"""C13: circuit descriptions are complete, ordered and mapped; loops are refused."""
import os
import build, netlist as NL, sessions as S, translate as T
from ctx import parallel

WRONG = {"order", "gate count", "table gates", "not mapped", "same position", "outside", "terminate position", "map", "loop accepted", "refused"}


def deep(ctx, b):
    """Chains of gates longer than any stack, listed in both orders: GatesOnce, Ordered and Mapped of MCNetlist.tla."""
    d = os.path.join(ctx.work, "deep")
    os.mkdir(d)
    jobs, sizes = [], []
    for n, order in ((300000, -1), (40000, 1), (300000, -1)):
        p = os.path.join(d, "n%d" % len(jobs))
        with open(p + ".v", "w") as f:
            f.write("module top ( clk, rst, g_input, o );\n  input [1:0] g_input;\n  output [0:0] o;\n  input clk, rst;\n")
            for i in range(n)[::order]:
                a, z = "w%d" % (i - 1) if i else "g_input[0]", "w%d" % i if i < n - 1 else "o"
                f.write("  IV U%d ( .A(%s), .Z(%s) );\n" % (i, a, z) if len(jobs) < 2 else "  XOR U%d ( .A(%s), .B(%s), .Z(%s) );\n" % (i, "g_input[1]", a, z))
            f.write("endmodule\n")
        jobs.append(dict(kind="fn", fn="v2scd", limit=200, **{"in": p + ".v", "map": p + ".scd.map", "out": p + ".scd"}))
        sizes.append(n)
    def wrong(k, r):
        if r["rc"][0] in (-90, -91):
            return None
        if r["crash"][0] or r["hang"] or r["rc"][0] != 0:
            return "is not translated (%s)" % (S.failure(r) or "fails")
        c, m = T.collect(os.path.join(d, "n%d" % k))
        if c is None or len(c["gates"]) != sizes[k]:
            return "has %s gates in its description" % (c and len(c["gates"]))
        if any(not (g["a"] < i + 2 and g["b"] < i + 2) for i, g in enumerate(c["gates"])):
            return "has gates before their operands"
        if len({w for x, w in m if x != "terminate"}) != sizes[k] or c["out"] != [sizes[k] + 1]:
            return "has %d mapped nets and output %s" % (len(m), c["out"])
        return None
    for k, r in enumerate(ctx.run(b, [dict(j) for j in jobs])):
        if wrong(k, r):
            why = wrong(k, ctx.run(b, [dict(jobs[k])])[0])
            if why:
                ctx.violation("a chain of %d gates %s" % (sizes[k], why), dict(gates=sizes[k]))


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    items = []

    def add(n, text=None):
        items.append((n, text or NL.verilog(n, rng), None))
    for i in range(ctx.scale(160, 2500)):
        add(NL.rand_netlist(rng, loop=i % 2 == 0, macros=i % 3 > 0, max_cells=8))
    for i in range(ctx.scale(40, 400)):
        add(NL.rand_netlist(rng, loop=i % 2 == 0, max_cells=40, max_dff=4, max_in=3, tight=9))
    for k in (1, 2, 3, 5, 9, 20):                       # rings of k gates, with and without a flip-flop in the ring
        for t in ("AND", "XOR", "NOT", "MUX", "FADDER"):
            for ff in (False, True):
                ins, _ = NL.PINS[t]
                cells = []
                for i in range(k):
                    o = ["r%d" % i] + ([""] if t == "FADDER" else [])
                    src = "r%d" % ((i + 1) % k) if i < k - 1 or not ff else "q"
                    if t == "FADDER" and rng.random() < .5:
                        o = o[::-1]
                    a = ["g_input"] * len(ins)
                    a[rng.randrange(len(ins))] = src
                    cells.append([t, a, o])
                if ff:
                    cells.append(["DFF", ["r0", "1'b0"], ["q"]])
                rng.shuffle(cells)
                used = rng.random() < .5                # a ring nothing depends on is a loop as well
                add(NL.netlist(cells + [["XOR", ["g_input", "r0" if used else "e_input"], ["o"]]], o=1, gx=1, ex=1))
    for i in range(ctx.scale(30, 300)):
        n = NL.rand_bristol(rng, scramble=i % 2)
        if i % 3 == 0:
            k = rng.randrange(len(n["cells"]))
            c = n["cells"][k]
            n["cells"][k] = dict(c, **{"in": [c["out"][0]] + c["in"][1:]})
        add(n, NL.bristol(n, rng))
    parallel([lambda: T.model(ctx, ctx.scale(25, 150)), lambda: T.run(ctx, b, items, WRONG, "netlists"), lambda: deep(ctx, b)])
    ctx.sample(dict(netlist=items[0][1]))
    ctx.note("netlists", len(items))
