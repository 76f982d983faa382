"""C11: OT extension delivers exactly the selected messages."""
import build, ot, wire
from ctx import parallel


def traffic(c, t, j, r):
    """K = 128 base transfers, then two blocks per pair."""
    want = ot.layout(c["n"], ext=True)
    try:
        ab = wire.decode(r["ab"], want[0])
        wire.decode(r["ba"], want[1])
    except wire.Mismatch as e:
        return "traffic of an extension of %d pairs is not 128 base transfers and %d blocks (%s)" % (c["n"], c["blocks"], e)
    top = max([y.bit_length() for p in ab[1]["y"] for y in p] + [0])
    if top > max(8, int(j.get("bitlen", 128)) + 7):
        return "a masked message has %d bits" % top
    return None


def check(ctx):
    rng = ctx.rng
    vs = [build.build("log"), build.build("nolog")]
    cs = []
    for n in list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257]:
        cs += [ot.case(rng, n) for _ in range(ctx.scale(3, 20))]
    cs += [ot.case(rng, rng.randint(1, 300)) for _ in range(ctx.scale(50, 1200))]
    cs += [ot.case(rng, n) for n in (511, 512, 513, 1000, 1023, 1024, 1025, 1100, 2048)]
    if ctx.thorough:
        cs += [ot.case(rng, n) for n in (1500, 3000, 4096, 5000, 9000)]
    cs += [ot.case(rng, 0) for _ in range(2)]
    res = parallel([lambda: ot.exhaust_ext(ctx, 4), lambda: ot.predict(ctx, cs, ext=True)])
    items = []
    for i, c in enumerate(res[1]):
        t = ot.contents(rng, 8, 16)
        items.append((c, t, ot.block_job(c, t, ext=True, stream=1, frag=(0, 0, -400, 0)[i % 4], cap=(1 << 40, 1 << 40, 1 << 40, 50)[i % 4])))
        if c["n"] <= 300 and (ctx.thorough or i % 2):
            size = rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 31, 32])
            t = ot.contents(rng, 8, size)
            items.append((c, t, ot.bn_job(c, t, ext=True, stream=1, bitlen=8 * size)))
    half = len(items) // 4
    ot.check(ctx, vs[0], items[half:], traffic)
    ot.check(ctx, vs[1], items[:half] if not ctx.thorough else items, traffic)
    ctx.note("transfers", len(items))
