"""C10: oblivious transfer delivers exactly the selected messages."""
import build, ot
from ctx import parallel


def check(ctx):
    rng = ctx.rng
    vs = [build.build("log"), build.build("nolog")]
    cs = []
    for n in list(range(0, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 130]:
        cs += [ot.case(rng, n) for _ in range(ctx.scale(2, 12))]
    cs += [ot.case(rng, rng.randint(1, 40)) for _ in range(ctx.scale(60, 1500))]
    cs += [ot.case(rng, rng.randint(100, 400)) for _ in range(ctx.scale(4, 40))]
    for a, b in [(0, 5), (5, 0), (1, 2), (2, 1), (7, 8), (9, 8), (256, 0), (256, 1), (1, 257), (3, 259), (258, 2), (128, 127)]:
        cs.append(ot.case(rng, a, nr=b))
    res = parallel([lambda: ot.exhaust_base(ctx, 3), lambda: ot.small_base(ctx), lambda: ot.predict(ctx, cs)])
    small, cs = res[1], res[2]
    if not ctx.thorough:
        small = [c for c in small if c["n"] < 2] + rng.sample([c for c in small if c["n"] == 2], 150)
    items = []
    for i, c in enumerate(small + cs):
        t = ot.contents(rng, 8, 16)
        items.append((c, t, ot.block_job(c, t, frag=(0, 0, -40, 1)[i % 4], cap=(1 << 40, 1 << 40, 1000, 3)[i % 4])))
        if ctx.thorough or i % 2:
            t = ot.contents(rng, 8, rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 32, 100, 127, 128, 129, 200]))
            items.append((c, t, ot.bn_job(c, t)))
    half = len(items) // 4
    ot.check(ctx, vs[0], items[half:])
    ot.check(ctx, vs[1], items[:half] if not ctx.thorough else items)
    ctx.note("transfers", len(items))
