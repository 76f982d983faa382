"""C27: the processor's example programs compute what they are for, natively and as committed memory images."""
import json, os, re, shutil, subprocess, time
import build, cli, tlc
from ctx import parallel

M = 0xffffffff
INVS = "Typed Sorted Compared Summed Multiplied Products Distance Shortest Turned Emit"
NAMES = ["aes", "bubble-sort", "compare", "cordic", "dijkstra", "hamming", "matrix-mul", "mem-test", "merge-sort", "mul", "sbox", "sha3", "sum", "temp"]
MUST = [n for n in NAMES if n not in ("sbox", "temp")]     # those that the repository's build makes
EDGE = [0, 1, 2, M, M - 1, 0x80000000, 0x7fffffff, 0x80000001, 0xffff, 0x10000, 0xffff0000, 0x55555555, 0xaaaaaaaa]
NEAR = 512


def word(r):
    return r.choice(EDGE) if r.random() < .35 else r.getrandbits(r.choice([1, 8, 16, 31, 32, 32, 32]))


def shared(r, xs):
    """Shares of the words xs; the rest is anything."""
    e = [r.getrandbits(32) for _ in range(64)] if r.random() < .7 else [r.choice([0, M])] * 64
    g = [(xs[i] ^ e[i]) & M if i < len(xs) else r.getrandbits(32) for i in range(64)]
    return g, e


def inputs(name, r):
    g, e = [[r.getrandbits(32) for _ in range(64)] for _ in range(2)]
    k = r.randrange(8)
    if name in ("sum", "temp", "compare"):
        if k < 4:                               # equal but for one bit or one word, with a carry to pass on
            e = list(g)
            i = r.randrange(32)
            if k == 1:
                e[i] ^= 1 << r.randrange(32)
            if k == 2:
                e[i] = word(r)
            if k == 3:
                a, b = sorted([r.randrange(33), r.randrange(33)])
                for j in range(a, b):
                    g[j], e[j] = r.choice([(M, 0), (0, M)]) if r.random() < .9 else (M, M)
                g[max(a - 1, 0)], e[max(a - 1, 0)] = r.choice([(M, 1), (1, M), (M, M), (0x80000000, 0x80000000)])
        elif k < 6:
            p = EDGE + [r.getrandbits(32) for _ in range(6)] if k == 4 else [0, 1, M, M - 1]
            g, e = [[r.choice(p) for _ in range(64)] for _ in range(2)]
        elif k == 6:                            # numbers of different lengths
            a, b = r.randrange(33), r.randrange(33)
            g, e = [0 if i >= a and i < 32 else x for i, x in enumerate(g)], [0 if i >= b and i < 32 else x for i, x in enumerate(e)]
    elif name in ("mul", "matrix-mul", "hamming", "aes", "sha3"):
        if k < 4:
            g, e = [[word(r) for _ in range(64)] for _ in range(2)]
        if name == "hamming" and k == 4:
            e[0] = g[0] ^ r.choice([0, M, 1, 0x80000000, 1 << r.randrange(32), M ^ (1 << r.randrange(32))])
        if k == 5:
            g, e = [r.choice(EDGE)] * 64, [r.choice(EDGE)] * 64
    elif name == "sbox":
        g, e = shared(r, [r.randrange(256)])
        if r.random() < .5:
            g[0] &= 255
            e[0] &= 255
    elif name in ("bubble-sort", "merge-sort"):
        x = [r.getrandbits(32) for _ in range(32)]
        if k < 3:
            x = [word(r) for _ in range(32)]
        elif k == 3:
            x = sorted(x, key=lambda v: v ^ 0x80000000, reverse=r.random() < .5)
        elif k == 4:
            p = r.sample(EDGE, r.randrange(1, 4))
            x = [r.choice(p) for _ in range(32)]
        elif k == 5:                            # in order but for two
            x = sorted(x, key=lambda v: v ^ 0x80000000)
            i, j = r.randrange(32), r.randrange(32)
            x[i], x[j] = x[j], x[i]
        g, e = shared(r, x)
    elif name == "cordic":
        t = r.choice([r.randrange(-1686629713, 1686629714), r.choice([0, 1, -1, 1686629713, -1686629713, 843314857, -843314857, 1 << 29, -(1 << 29)]) , r.randrange(-1000, 1000)])
        g, e = shared(r, [t & M])
    elif name == "dijkstra":
        p, top = r.choice([.15, .3, .5, .9, 1]), r.choice([3, 20, 300, 4600])
        x = [r.randrange(1, top + 1) if r.random() < p else 0 for _ in range(64)]
        if k == 0:                              # a chain, in some order, and long ways round
            o = [0] + r.sample(range(1, 8), 7)
            x = [0] * 64
            for a, b in zip(o, o[1:]):
                x[8 * a + b] = r.randrange(1, 20)
            for _ in range(r.randrange(12)):
                x[r.randrange(64)] = r.randrange(1, 200)
        if k == 1:                              # ties
            x = [r.choice([0, 1, 1, 2]) for _ in range(64)]
        g, e = shared(r, x)
    return g, e


def fixed(name, r):
    """Inputs that every run has: all the results or operands there are of a kind."""
    def two(pairs):
        for a, b in pairs:
            yield [a] + [r.getrandbits(32) for _ in range(63)], [b] + [r.getrandbits(32) for _ in range(63)]
    rnd = lambda: r.getrandbits(32)
    if name == "hamming":                       # every distance, and every bit alone
        ds = [sum(1 << i for i in r.sample(range(32), k)) for k in range(33)] + [1 << i for i in range(32)]
        return list(two([(a, a ^ d) for d in ds for a in [r.choice([0, M, rnd(), rnd()])]]))
    if name == "mul":
        return list(two([(1 << i, rnd() | 1) for i in range(32)] + [(rnd() | 1, 1 << i) for i in range(32)] + [(a, r.choice(EDGE)) for a in EDGE]))
    if name == "sbox":
        return list(two([(a ^ x, a) for x in range(256) for a in [rnd()]]))
    if name in ("sum", "temp", "compare"):      # something at every word
        c = []
        for i in range(32):
            g = [rnd() for _ in range(64)]
            e = list(g)
            j = r.randrange(32)
            if name == "compare":
                e[i] ^= 1 << (31 if i % 2 else j)
            else:
                g[:i], e[:i], g[i], e[i] = [M] * i, [0] * i, r.choice([M, 0x80000000, 0x7fffffff, rnd()]), r.choice([M, 0x80000000, 1, rnd()])
                g[0] = g[0] | 1 if i else g[0]
                e[0] = e[0] | 1 if i else e[0]
            c.append((g, e) if r.random() < .5 else (e, g))
        return c
    if name in ("bubble-sort", "merge-sort"):   # the least or the greatest word at every place
        c = []
        for i in range(32):
            x = [rnd() for _ in range(32)]
            x[i], x[(i + r.choice([1, 31, 7])) % 32] = r.choice([(0x80000000, 0x7fffffff), (0x7fffffff, 0x80000000), (0, 0), (M, 0)])
            c.append(shared(r, x))
        return c
    if name == "dijkstra":                      # every vertex last, behind all the others
        c = []
        for v in range(1, 8):
            o = [0] + r.sample([u for u in range(1, 8) if u != v], 6) + [v]
            x = [0] * 64
            for a, b in zip(o, o[1:]):
                x[8 * a + b] = r.randrange(1, 20)
            for j in range(2, 8):
                for i in range(j - 1):
                    x[8 * o[i] + o[j]] = r.choice([0, r.randrange(140, 4000)])
            c.append(shared(r, x))
        return c
    if name == "cordic":
        return [shared(r, [t & M]) for t in [0, 1, -1, 1686629713, -1686629713] + [k * 52707178 for k in range(-31, 32)]]
    if name == "matrix-mul":                    # one entry each
        return [([rnd() if k == i else 0 for k in range(9)] + [rnd() for _ in range(55)], [rnd() for _ in range(64)]) for i in range(9)] + \
               [([rnd() for _ in range(64)], [rnd() if k == i else 0 for k in range(9)] + [rnd() for _ in range(55)]) for i in range(9)]
    return []


def split(x):
    return [x >> 16, x & 0xffff]


def predict(ctx, S, part):
    f = os.path.join(ctx.work, "prog-%d" % part)
    open(f, "w").write("\n".join(json.dumps(dict(name=s["name"], g=[split(x) for x in s["g"]], e=[split(x) for x in s["e"]])) for s in S) + "\n")
    r = ctx.tlc("MCPrograms", "SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % INVS, dict(SESSIONS=f), workers=4, mem="3g")
    p = {l["sid"]: [a << 16 | b for a, b in l["out"]] for l in r.lines}
    return [p[k + 1] for k in range(len(S))]


def write(d, rel, g):
    os.makedirs(os.path.join(d, "test"), exist_ok=True)
    open(os.path.join(d, "test", rel), "w").write("".join("%08x\n" % x for x in g))


def native(ctx, exe, s, k):
    d = os.path.join(ctx.work, "n%s" % k)
    write(d, "g.txt", s["g"])
    write(d, "e.txt", s["e"])
    os.environ.setdefault("ASAN_OPTIONS", "detect_leaks=0")
    x = cli.single(exe, ["-n", os.path.relpath(d, os.path.join(build.REPO, "a23"))], d, limit=20)[0]
    return x


def near(name, a, b):
    return a == b or (name == "cordic" and (a - b + NEAR) & M <= 2 * NEAR)


def wrong(name, x, want):
    if x["rc"] != 0:
        return "ends with %s: %.300s" % (x["rc"], x["err"])
    try:
        v = int("".join(x["out"].split()), 16)
    except ValueError:
        return "prints %.100r" % x["out"]
    got = [(v >> (32 * i)) & M for i in range(64)] + ([v >> 2048] if v >> 2048 else [])
    bad = [i for i in range(len(got)) if not near(name, got[i], want[i] if i < 64 else 0)]
    if bad:
        return "leaves %08x in word %d of the output instead of %08x" % (got[bad[0]], bad[0], want[bad[0]] if bad[0] < 64 else 0)
    return None


def load(path):
    return [int(l, 16) for l in open(path).read().split()]


CROSS = ["--target=armv4-none-eabi", "-std=gnu99", "-ffreestanding", "-fwrapv", "-w"]


def compiled(ctx, opt):
    """The programs of the working tree compiled for the processor, linked and split as their makefile does: name -> words."""
    tools = [shutil.which(x) for x in ("clang-18", "ld.lld-18", "llvm-objcopy-18")]
    a23 = os.path.join(build.REPO, "a23")
    d = os.path.join(ctx.work, "cross" + opt)
    os.makedirs(os.path.join(d, "shim"))
    for h in ("stdlib.h", "unistd.h"):          # there is no C library for the processor; the programs only need its types
        open(os.path.join(d, "shim", h), "w").write("#include <stddef.h>\n")
    r = {}

    def do(*cmd, **kw):
        return subprocess.run(cmd, cwd=d, stderr=subprocess.PIPE, timeout=60, **kw).returncode == 0
    if not all(tools) or not do("gcc", "-w", "-O1", "-o", "split", os.path.join(a23, "tools", "amber-elfsplitter.c")) or \
       not do(tools[0], CROSS[0], "-c", "-x", "assembler-with-cpp", os.path.join(a23, "lib", "start.S"), "-o", "start.o"):
        ctx.note("no_cross_build")
        return r
    for n in NAMES:
        src = os.path.join(a23, n, n + ".c")
        with open(os.path.join(d, n + ".mem"), "w") as f:
            if not (os.path.exists(src) and do(tools[0], *CROSS, opt, "-Ishim", "-I", os.path.join(a23, n), "-I", a23, "-c", src, "-o", n + ".o")
                    and do(tools[1], "-T", os.path.join(a23, "include", "sections.lds"), "-Bstatic", "--strip-debug", "start.o", n + ".o", "-o", n + ".elf")
                    and do(tools[2], "-R", ".comment", "-R", ".note", n + ".elf") and do("./split", n + ".elf", stdout=f)
                    and do("bash", os.path.join(a23, "tools", "amber-code32.sh"), n + ".mem", n + ".txt")):
                ctx.note("not_compiled_for_the_processor")
                continue
        try:
            # what the linker of the makefile does for --fix-v4bx: a jump to a register is a move to the pc
            r[n] = [(w & 0xf000000f) | 0x01a0f000 if w & 0x0ffffff0 == 0x012fff10 else w for w in load(os.path.join(d, n + ".txt"))]
        except (ValueError, OSError):
            ctx.note("not_compiled_for_the_processor")
    return r


def images(ctx, T, words):
    f, i = os.path.join(ctx.work, "arm"), os.path.join(ctx.work, "img")
    parts = [list(range(k, len(T), 4)) for k in range(4)]
    for ix, p in zip(parts, parallel([lambda ix=ix, k=k: predict(ctx, [T[j] for j in ix], 10 + k) if ix else [] for k, ix in enumerate(parts)], 4)):
        for j, w in zip(ix, p):
            T[j]["want"] = w
    open(f, "w").write("\n".join(json.dumps(dict(name=s["name"], image=s["image"], g=[split(x) for x in s["g"]], e=[split(x) for x in s["e"]], want=[split(x) for x in s["want"]], steps=100000)) for s in T) + "\n")
    open(i, "w").write("\n".join(json.dumps(dict(name=n, words=[split(x) for x in w])) for n, w in words.items()) + "\n")
    r = ctx.tlc("MCArm", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", dict(SESSIONS=f, IMAGES=i), workers=8, mem="6g", timeout=ctx.scale(400, 5000))
    p = {l["sid"]: l for l in r.lines}
    return [p[k + 1] for k in range(len(T))]


def check(ctx):
    r = ctx.rng
    _, plain, failed = build.build_programs(build.PROGRAMS[0])
    _, asan, _ = build.build_programs(build.PROGRAMS[1])
    for n in MUST:
        if n in failed:
            raise build.BuildError(n + ": " + failed[n])
        if n not in plain:
            ctx.note("programs_missing")
    have = [n for n in NAMES if n in plain]
    rounds = 0
    t0 = time.time()
    while rounds < ctx.scale(1, 1000) and (rounds == 0 or time.time() - t0 < 400):
        S = []
        for n in have:
            for g, e in fixed(n, r) + [inputs(n, r) for _ in range(dict(aes=20, sha3=20, sbox=10).get(n, 40))]:
                S.append(dict(name=n, g=g, e=e))
        r.shuffle(S)
        parts = [list(range(k, len(S), 4)) for k in range(4)]
        want = {}
        for ix, p in zip(parts, parallel([lambda ix=ix, k=k: predict(ctx, [S[i] for i in ix], k) for k, ix in enumerate(parts)], 4)):
            want.update(zip(ix, p))

        def one(i):
            s = S[i]
            for b in (plain, asan):
                if s["name"] not in b:
                    continue
                why = wrong(s["name"], native(ctx, b[s["name"]], s, i), want[i])
                if why and wrong(s["name"], native(ctx, b[s["name"]], s, "r%d" % i), want[i]):
                    return why
            return None
        for s, i, why in zip(S, range(len(S)), parallel([lambda i=i: one(i) for i in range(len(S))], 12)):
            ctx.traces += 1
            ctx.note("native_runs")
            if why:
                ctx.violation("%s %s" % (s["name"], why), dict(s, want=want[i]))
        if rounds == 0:
            ctx.sample(dict(name=S[0]["name"], g=["%08x" % x for x in S[0]["g"][:4]], e=["%08x" % x for x in S[0]["e"][:4]], out=["%08x" % x for x in want[0][:4]]))
        rounds += 1
    # the memory images
    words, T = {}, []
    for n in NAMES:
        f = os.path.join(build.REPO, "a23", n, "p.txt")
        if not os.path.exists(f):
            ctx.note("images_missing")
            continue
        try:
            words[n] = load(f)
        except ValueError:
            ctx.violation("the memory image of %s is not a sequence of words" % n, dict(name=n))
            continue
        for _ in range(ctx.scale(dict(aes=1, sha3=2).get(n, 4 if n in ("merge-sort", "bubble-sort", "dijkstra") else 8), dict(aes=12, sha3=20).get(n, 150))):
            g, e = inputs(n, r)
            T.append(dict(name=n, image=n, g=g, e=e))
    for opt in ["-Os", "-O1", "-O2"][:ctx.scale(1, 3)]:
        for n, w in compiled(ctx, opt).items():
            words[n + opt] = w
            for _ in range(ctx.scale(dict({"aes": 1, "sha3": 1, "merge-sort": 2, "bubble-sort": 2, "dijkstra": 3}).get(n, 10), 20)):
                g, e = inputs(n, r)
                T.append(dict(name=n, image=n + opt, g=g, e=e))
    T.sort(key=lambda s: -dict(aes=9, sha3=8).get(s["name"], 0))
    for s, v in zip(T, images(ctx, T, words)):
        ctx.traces += 1
        ctx.note("instructions", v["n"])
        if s["image"] == s["name"]:
            ctx.note("image_runs")
            if v["verdict"] != "ok":
                ctx.violation("the memory image of %s %s" % (s["name"], v["verdict"]), dict(s, out=v["out"]))
        elif v["verdict"] in ("ok", "leaves another output"):
            ctx.note("compiled_runs")
            if v["verdict"] != "ok":
                ctx.violation("%s, compiled for the processor (%s), %s" % (s["name"], s["image"][-3:], v["verdict"]), dict(s, out=v["out"]))
        else:                                   # another compiler needs more stack or other instructions
            ctx.note("compiled_not_run " + s["image"] + ": " + v["verdict"])
    ctx.sample(dict(image=T[0]["image"], instructions=v["n"]))
