"""C18: number and file format helpers convert without changing the value."""
import json, os, random
import build, gen
from ctx import parallel

CFG = "SPECIFICATION %s\nCONSTANTS MaxWidth = %d MaxVals = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
PROPS = "ReadBack SamePlace HexKeeps Signs Twice SharesCount"

bits = lambda v, n: [v >> i & 1 for i in range(n)]
value = lambda b: sum(x << i for i, x in enumerate(b))


def number(rng, w):
    """A w-bit number, with the edges."""
    r = rng.random()
    if w == 0:
        return 0
    return 0 if r < .05 else (1 << w) - 1 if r < .1 else 1 << w - 1 if r < .15 else (1 << w - 1) - 1 if r < .2 else 1 if r < .25 else rng.getrandbits(w)


def digits(rng, n):
    """n hex digits, any case, as text."""
    return "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(n))


def cases(ctx, d):
    """(case for the specification, job, how to compare)"""
    rng = ctx.rng
    out = []

    def add(q, j, how):
        out.append((q, dict(j, kind="fn"), how))
    for w in range(1, 65):
        for v in [0, 1, (1 << w) - 1, 1 << w - 1, (1 << w - 1) - 1 & (1 << w) - 1] + [rng.getrandbits(w) for _ in range(ctx.scale(3, 40))] + [rng.getrandbits(64)]:
            add(dict(op="dec2bin", v=bits(v, 64), w=w), dict(fn="dec2bin", v=v - (1 << 64) if v >> 63 else v, w=w), "exact")
            v &= (1 << w) - 1
            t = "".join(map(str, bits(v, w)[::-1]))
            add(dict(op="bin2dec", v=bits(v, w), signed=True), dict(fn="bin2dec", v=t, signed=1), "exact")
            if w < 64 or v >> 63 == 0:
                add(dict(op="bin2dec", v=bits(v, w), signed=False), dict(fn="bin2dec", v=t, signed=0), "exact")
    for _ in range(ctx.scale(120, 2000)):
        n = rng.choice([1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 64, 100, 257])
        t = digits(rng, n)
        add(dict(op="hex2bin", d=[int(x, 16) for x in t]), dict(fn="hex2bin", v=t), "binary")
        n = rng.choice(list(range(1, 20)) + [63, 64, 65, 127, 128, 129, 500])
        b = bits(number(rng, n), n)
        add(dict(op="bin2hex", v=b), dict(fn="bin2hex", v="".join(map(str, b[::-1]))), "hex")
        v = number(rng, rng.randint(1, 64))
        p = rng.choice([0, 1, 2, 8, 16, 20])
        add(dict(op="hex", v=bits(v, 64), pad=p), dict(fn="hex", v=v, pad=p), "digits")
        g, e, left = rng.choice([0, 1, 2, 3, 5, 8, 31, 32, 33, 64, 300]), rng.choice([0, 1, 4, 7, 64, 65, 500]), rng.random() < .5
        if g + e:
            add(dict(op="mask", g=g, e=e, left=left), dict(fn="mask", n=g, w=e, same=int(left)), "hex")
        ws = [rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 48, 63, 64]) for _ in range(rng.randint(1, 9))]
        vs = [number(rng, w if rng.random() < .9 else 64) for w in ws]
        add(dict(op="fmtin", vs=[bits(v, 64) for v in vs], ws=ws), dict(fn="fmtin", v=",".join(map(str, vs)), w=",".join(map(str, ws))), "hex")
        ws = [rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 48, 63, 64]) for _ in range(rng.randint(1, 9))]
        skip = rng.choice([0, 0, 1, 3, 4, 8, 65])
        n = max(1, sum(ws) + skip + rng.choice([0, 0, 0, -1, -5, -40, 3, 4, 9]))
        v = number(rng, n)
        t = "%x" % v if rng.random() < .5 else "%0*X" % ((n + 3) // 4, v)
        add(dict(op="parseout", v=bits(v, max(1, 4 * len(t))), ws=ws, skip=skip), dict(fn="parseout", v=t, w=",".join(map(str, ws)), offset=skip), "exact")
    for k in [rng.randint(250, 260), rng.randint(300, 700), 1100]:      # many values, more than 65535 bits
        ws = [64 if k > 1000 else rng.randint(1, 64) for _ in range(k)]
        vs = [number(rng, w) for w in ws]
        v = 0
        for x, w in zip(vs, ws):
            v = v << w | x
        add(dict(op="parseout", v=bits(v << 3, sum(ws) + 3), ws=ws, skip=3), dict(fn="parseout", v="%X" % (v << 3), w=",".join(map(str, ws)), offset=3), "exact")
        add(dict(op="fmtin", vs=[bits(v, 64) for v in vs], ws=ws), dict(fn="fmtin", v=",".join(map(str, vs)), w=",".join(map(str, ws))), "hex")
    for g, e in [(40000, 40000), (65535, 3), (2, 65535)]:
        add(dict(op="mask", g=g, e=e, left=True), dict(fn="mask", n=g, w=e, same=1), "hex")
    for _ in range(ctx.scale(60, 800)):
        n = rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32])
        t = digits(rng, n)
        s = t
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            k = rng.randint(0, len(s))
            s = s[:k] + rng.choice(" _") + s[k:]
        add(dict(op="block", d=[int(x, 16) for x in t]), dict(fn="str2block", v=s), "block")
        add(dict(op="block", d=[int(x, 16) for x in t]), dict(fn="blockbn", v=t), "blockbn")
        w = rng.choice([1, 7, 8, 9, 63, 64, 65, 127, 128, 129, 300])
        x, y = number(rng, w), number(rng, rng.choice([1, w]))
        add(dict(op="xor", v=bits(x, w), u=bits(y, w), w=w), dict(fn="bnxor", x="%X" % x, y="%X" % y, w=w), "hex")
        add(dict(op="not", v=bits(x, w), w=w), dict(fn="not", v="%X" % x, w=w), "hex")
        add(dict(op="ones", w=w), dict(fn="ones", w=w), "hex")
        rows, w = rng.randint(1, 20), rng.choice([1, 2, 7, 8, 9, 33, 64, 128, 130])
        m = [number(rng, w) for _ in range(rows)]
        add(dict(op="switch", rows=[bits(x, w) for x in m], w=w), dict(fn="switch", v=",".join("%X" % x for x in m), w=w), "hexes")
    for i in range(ctx.scale(40, 400)):
        lines = [digits(rng, rng.choice([0, 1, 2, 5, 16, 80])) for _ in range(rng.randint(0, 6))]
        p = os.path.join(d, "f%d%s" % (i, rng.choice(["", ".hex", " x", ".1F"])))
        t = "\n".join(lines)
        if lines and (rng.random() < .6 or not lines[-1]):      # with or without a last line end
            t += "\n"
        open(p, "w").write(t)
        add(dict(op="file", lines=lines), dict(fn="file", v=p), "exact")
    for _ in range(20):                                          # a name of no file stands for itself
        t = digits(rng, rng.randint(1, 40))
        add(dict(op="file", lines=[t]), dict(fn="file", v=t), "exact")
    return out


def same(how, want, got, rc):
    t = got.split(",")
    try:
        if how == "exact":
            return t == want
        if how == "digits":
            return got.upper() == want[0]
        if how == "hex":
            return int(got, 16) == int(want[0], 16)
        if how == "hexes":
            return [int(x, 16) for x in t] == [int(x, 16) for x in want]
        if how == "binary":
            return set(got) <= {"0", "1"} and int(got, 2) == int(want[0], 2)
        if how in ("block", "blockbn"):
            raw = bytes.fromhex(t[0])[::-1].hex().upper()
            num = int(t[1].replace(" ", ""), 16)
            return rc == 0 and raw == want[0] and num == int(want[0], 16)
    except ValueError:
        return False


def large(ctx, table):
    """Texts of more than 65535 digits: digit by digit as the specification's table (HexKeeps) says."""
    rng = ctx.rng
    out = []
    for n in (65535, 65536, 65537, 66000 + rng.randrange(4000), 131080):
        t = digits(rng, n)
        out.append((dict(kind="fn", fn="hex2bin", v=t), "".join(table[x.upper()] for x in t)))
        b = "".join(rng.choice("01") for _ in range(n))
        inv = {v: k for k, v in table.items()}
        pad = "0" * (-n % 4) + b
        out.append((dict(kind="fn", fn="bin2hex", v=b), "".join(inv[pad[i:i + 4]] for i in range(0, len(pad), 4))))
    return out


def check(ctx):
    b = build.build("log")
    d = os.path.join(ctx.work, "files")
    os.mkdir(d)
    cs = cases(ctx, d)
    table0 = [(dict(op="hex2bin", d=[k]), None, None) for k in range(16)]
    n = 4
    parts = [[] for _ in range(n)]
    for i, c in enumerate(cs + table0):
        parts[i % n].append((i, c[0]))

    def ask(part, k):
        f = os.path.join(ctx.work, "cases%d.ndjson" % k)
        with open(f, "w") as h:
            for _, q in part:
                h.write(json.dumps(q) + "\n")
        r = ctx.tlc("Encoding", CFG % ("AskSpec", 1, 1, "Answers"), env={"CASES": f}, workers=2, mem="3g")
        return {part[x["id"] - 1][0]: x["r"] for x in r.lines}
    res = parallel([lambda: ctx.tlc("Encoding", CFG % ("Spec", ctx.scale(3, 4), 3, PROPS), workers=3)]
                   + [lambda k=k: ask(parts[k], k) for k in range(n)])
    want = {k: v for r in res[1:] for k, v in r.items()}
    table = {"%X" % k: want[len(cs) + k][0] for k in range(16)}
    jobs = [dict(j) for _, j, _ in cs]
    recs = ctx.run(b, jobs)
    ctx.traces += len(recs)

    def bad(i, r):
        if r["crash"][0] or r["hang"]:
            return "crashes" if r["crash"][0] else "does not return"
        if r["rc"][0] in (-90, -91):
            return None
        if not same(cs[i][2], want[i], r["out"][0], r["rc"][0]):
            return "gives %.200s instead of %.200s" % (r["out"][0], ",".join(want[i]))
        return None
    ctx.note("interfaces_gone", sum(r["rc"][0] in (-90, -91) for r in recs))
    for i, r in enumerate(recs):
        if bad(i, r):
            j = dict(cs[i][1])
            why = bad(i, ctx.run(b, [dict(j)])[0])
            if why:
                ctx.violation("%s of %.200s %s" % (j["fn"], {k: v for k, v in j.items() if k not in ("kind", "fn", "id")}, why), dict(job=j, want=want[i]))
        ctx.note(cs[i][1]["fn"])
    lj = large(ctx, table)
    for (j, w), r in zip(lj, ctx.run(b, [dict(j, limit=60) for j, _ in lj])):
        got = r["out"][0]
        ok = not r["crash"][0] and not r["hang"] and got.upper().lstrip("0") == w.upper().lstrip("0")
        if not ok and r["rc"][0] not in (-90, -91):
            ctx.violation("%s of %d characters changes the value" % (j["fn"], len(j["v"])), dict(fn=j["fn"], chars=len(j["v"]), got_chars=len(got), crash=r["crash"], hang=r["hang"]))
        ctx.note("large")
    ctx.sample(dict(case=cs[0][0], want=want[0], got=recs[0]["out"][0]))
