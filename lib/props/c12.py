"""C12: translating a netlist preserves its function."""
import build, netlist as NL, reader as R, translate as T
from ctx import parallel

WRONG = {"output", "terminate", "sizes", "refused", "order"}


def large(rng, fill, nd=2):
    """A small netlist spread over a large one, so that wire numbers become large."""
    s = NL.rand_netlist(rng, max_cells=12, tight=8)
    w = [p for p, k in zip(NL.PORTS[3:], NL.KEYS[3:]) if s[k]]
    src = [NL.bit(p, 0, s[k]) for p, k in zip(NL.PORTS[3:], NL.KEYS[3:]) if s[k]] or ["1'b1"]
    cells = []
    last = src[:]
    for k in range(fill):
        a, b = rng.choice(last), rng.choice(src)
        cells.append(dict(t=rng.choice(NL.TWO), **{"in": [a, b], "out": ["fill%d" % k]}))
        last = (last + ["fill%d" % k])[-3:]
    for c in s["cells"]:
        cells.insert(rng.randrange(len(cells) + 1), c)
    return dict(s, cells=cells), s


def aliased(rng, order, total=24000):
    """A small netlist whose nets reach their readers through long chains of aliases, in some order."""
    s = NL.rand_netlist(rng, max_cells=8, tight=8)
    cells, assigns = [], [list(a) for a in s["assigns"]]
    k = 0
    far = set(rng.sample([(j, i) for j, c in enumerate(s["cells"]) for i in range(len(c["in"]))][:40], 1))
    for j, c in enumerate(s["cells"]):
        c = dict(c, **{"in": list(c["in"])})
        for i, x in enumerate(c["in"]):
            for _ in range(total if (j, i) in far else 3):
                assigns.append(["alias%d" % k, x])
                x = "alias%d" % k
                k += 1
            c["in"][i] = x
        cells.append(c)
    if order < 0:
        assigns.reverse()
    elif order > 0:
        rng.shuffle(assigns)
    return dict(s, cells=cells, assigns=assigns), s


def check(ctx):
    rng = ctx.rng
    b = build.build("log")
    items = []
    for n in NL.matrix(rng):
        items.append((n, NL.verilog(n, rng), None))
    for i in range(ctx.scale(260, 4000)):
        n = NL.rand_netlist(rng, macros=i % 3 > 0)
        items.append((n, NL.verilog(n, rng), None))
    for i in range(ctx.scale(25, 100)):
        n = NL.rand_netlist(rng, max_in=0, max_init=0, max_dff=i % 2)
        items.append((n, NL.verilog(n, rng), None))
    for i in range(ctx.scale(10, 60)):
        n = NL.rand_netlist(rng, max_in=5, max_init=3, max_dff=6, max_cells=60, tight=22, max_o=13)
        items.append((n, NL.verilog(n, rng), None))
    for i in range(ctx.scale(6, 40)):
        n = NL.wide(rng)
        items.append((n, NL.verilog(n, rng), None))
    for fill in ctx.scale([300, 33000, 66000], [300, 33000, 66000, 140000]):
        n, s = large(rng, fill)
        items.append((n, NL.verilog(n, rng), s))
    items = [(n, NL.noisy(t, rng) if i % 3 == 0 and not s else t, s) for i, (n, t, s) in enumerate(items)]
    small = [(n, t) for n, t, s in items if not s and len(t) < 3000]
    small = rng.sample(small, min(len(small), ctx.scale(60, 600)))
    items += [(n, t, None) for n, t, syn, legal in R.understood(ctx, small, [R.mangle(rng, t) for n, t in small for _ in range(5)]) if legal]
    for order in ctx.scale([-1, 0, 1], [-1, 0, 1] * 4):
        n, s = aliased(rng, order)
        items.append((n, NL.verilog(n, rng, keep=True), s))
    parallel([lambda: T.model(ctx, ctx.scale(25, 150)), lambda: T.run(ctx, b, items, WRONG, "netlists")])
    ctx.sample(dict(netlist=items[80][1]))
    ctx.note("netlists", len(items))
