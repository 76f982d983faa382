"""C14: Bristol-format circuits translate to the same function."""
import build, netlist as NL, translate as T
from ctx import parallel

WRONG = {"output", "sizes", "refused", "order"}


def large(rng, fill):
    s = NL.rand_bristol(rng, max_in=3, max_gates=10)
    lo, ng, o = s["gx"] + s["ex"], len(s["cells"]), s["o"]
    shift = lambda x: x if int(x) < lo else str(int(x) + fill)
    cells = [dict(t=rng.choice(["AND", "XOR"]), **{"in": [str(rng.randrange(lo)), str(rng.randrange(max(0, lo + k - 3), lo + k))], "out": [str(lo + k)]}) for k in range(fill)]
    mine = [dict(c, **{"in": [shift(x) for x in c["in"]], "out": [shift(x) for x in c["out"]]}) for c in s["cells"]]
    return dict(s, cells=cells + mine, wires=s["wires"] + fill), s


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    items = []
    for i in range(ctx.scale(330, 5000)):
        n = NL.rand_bristol(rng, scramble=i % 3 == 0)
        items.append((n, NL.bristol(n, rng), None))
    for t in ("AND", "XOR", "NOT"):                     # one gate, on every pair of wires
        for g, e in ((1, 0), (0, 1), (1, 1), (2, 1), (1, 2)):
            for x in range(g + e):
                for y in range(g + e) if t != "NOT" else [0]:
                    n = NL.netlist([(t, [str(x)] if t == "NOT" else [str(x), str(y)], [str(g + e)])], form="bristol", gx=g, ex=e)
                    n["wires"] = g + e + 1
                    items.append((n, NL.bristol(n, rng), None))
    for i in range(ctx.scale(10, 80)):
        n = NL.rand_bristol(rng, max_in=14, max_gates=60, scramble=i % 2)
        items.append((n, NL.bristol(n, rng), None))
    for fill in ctx.scale([500, 33000, 66000], [500, 33000, 66000, 200000]):
        n, s = large(rng, fill)
        items.append((n, NL.bristol(n, rng), s))
    parallel([lambda: T.model(ctx, ctx.scale(25, 150)), lambda: T.run(ctx, b, items, WRONG, "circuits")])
    ctx.sample(dict(circuit=items[0][1]))
    ctx.note("circuits", len(items))
