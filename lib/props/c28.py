"""C28: the memory image that the splitter writes has every byte of the linked program at its address."""
import json, os, re, struct, subprocess, time
import build
from ctx import parallel

INVS = "Apart Placed NothingElse Emit"
TYPES = dict(progbits=1, symtab=2, strtab=3, rela=4, note=7, nobits=8, rel=9, attributes=0x70000003)
NAMES = [".text", ".data", ".rodata", ".bss", ".stack", ".comment", ".note", ".symtab", ".ARM.attributes", ".debug_info", ".init_array", ".x"]


def program(r):
    """A linked program: sections apart from each other, in any order, with gaps, of any length."""
    secs, a = [], r.choice([0, 0, 0, r.randrange(0, 40)])
    small = r.random() < .5
    for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
        size = r.choice([0, 1, 2, 3, 4, 5, 7, 8, r.randrange(1, 30 if small else 1500)])
        t = r.choice(["progbits", "progbits", "nobits"])
        secs.append(dict(type=t, alloc=True, addr=a, size=size, bytes=[r.choice([0, 255, 10, 64, r.randrange(256)]) for _ in range(size)] if t == "progbits" else []))
        a += size + r.choice([0, 0, 0, 1, 2, 3, r.randrange(0, 40 if small else 1500)])
    if r.random() < .5:
        r.shuffle(secs)
    for _ in range(r.choice([0, 1, 2, 3])):     # what is in the file, but not for the memory
        t = r.choice(["progbits", "progbits", "symtab", "note", "rel", "nobits", "attributes", "strtab"])
        size = r.randrange(1, 60)
        x = dict(type=t, alloc=False, addr=r.choice([0, 0, r.randrange(200)]), size=size, bytes=[r.randrange(1, 256) for _ in range(size)] if t != "nobits" else [])
        secs.insert(r.randrange(len(secs) + 1), x)
    return dict(magic=True, machine=40, secs=secs)


def elf(s, r):
    """The file: headers, contents at any offsets, section headers, in any order."""
    names, where = b"\0", []
    for _ in range(len(s["secs"]) + 1):
        where.append(len(names))
        names += r.choice(NAMES).encode() + b"\0"
    parts, off, body = [], 52, b""
    heads = [struct.pack("<10I", *([0] * 10))]
    todo = [(x, w) for x, w in zip(s["secs"], where)]
    strat = r.randrange(1, len(todo) + 2)       # where the section of names is among the others
    for i in range(len(todo) + 1):
        if i == strat - 1:
            body += bytes(r.randrange(256) for _ in range(r.randrange(0, 4)))
            heads.append(struct.pack("<10I", where[-1], 3, 0, 0, 52 + len(body), len(names), 0, 0, 1, 0))
            body += names
        if i < len(todo):
            x, w = todo[i]
            body += bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 2, 3, 9])))
            flags = (2 if x["alloc"] else 0) | r.choice([0, 1, 4, 5]) | (0x30 if not x["alloc"] and r.random() < .3 else 0)
            heads.append(struct.pack("<10I", w, TYPES[x["type"]], flags, x["addr"], 52 + len(body), x["size"], 0, 0, r.choice([1, 4]), 0))
            body += bytes(x["bytes"])
    body += bytes(-len(body) % 4)
    ident = (b"\x7fELF" if s["magic"] else r.choice([b"\x7fELE", b"\x7fexe", b"#!/b"])) + bytes([1, 1, 1]) + bytes(9)
    return ident + struct.pack("<HHIIIIIHHHHHH", 2, s["machine"], 1, 0, 0, 52 + len(body), 0x5000200, 52, 32, 0, 40, len(heads), strat) + body + b"".join(heads)


def judge(ctx, exe, s, p, i):
    d = os.path.join(ctx.work, "e%s" % i)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "p.elf"), "wb").write(s["file"])
    with open(os.path.join(d, "p.mem"), "wb") as f:
        try:
            rc = subprocess.run([exe, "p.elf"], cwd=d, stdout=f, stderr=subprocess.DEVNULL, timeout=30, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")).returncode
        except subprocess.TimeoutExpired:
            rc = None
    if not p["ok"]:
        return None if rc not in (0, None) else "a file that is no program for the processor is accepted"
    if rc != 0:
        return "the splitter ends with %s" % rc
    want = ["%02x%02x%02x%02x" % tuple(w) for w in p["image"]]
    t = open(os.path.join(d, "p.mem"), errors="replace").read()
    got = re.findall(r"^@([0-9a-fA-F]+)\s+([0-9a-fA-F]{8})\s*$", t, re.M)
    if [int(a, 16) for a, _ in got] != list(range(0, 4 * len(got), 4)):
        return "the addresses are not those of one word after the other from 0: %s" % [a for a, _ in got][:8]
    e = same(want, [w for _, w in got])
    if e:
        return e
    subprocess.run(["bash", os.path.join(build.REPO, "a23", "tools", "amber-code32.sh"), "p.mem", "p.txt"], cwd=d, timeout=30)
    return same(want, open(os.path.join(d, "p.txt")).read().split("\n")[:-1]) and "p.txt: " + same(want, open(os.path.join(d, "p.txt")).read().split("\n")[:-1])


def same(want, got):
    got = [x.lower() for x in got]
    for i, w in enumerate(want):
        if i >= len(got):
            return "the image ends at %08x instead of %08x" % (4 * i, 4 * len(want))
        if got[i] != w:
            return "the word at %08x is %s instead of %s" % (4 * i, got[i], w)
    if any(x != "00000000" for x in got[len(want):]):
        return "there are words after the end"
    return None


def check(ctx):
    r = ctx.rng
    src = os.path.join(build.REPO, "a23", "tools", "amber-elfsplitter.c")
    exes = []
    for flags in (["-O1"], ["-O1", "-g", "-fsanitize=address"]):
        e = os.path.join(ctx.work, "split%d" % len(exes))
        build.run(["gcc", "-w"] + flags + ["-o", e, src])
        exes.append(e)
    t0, rounds = time.time(), 0
    while rounds < ctx.scale(1, 100) and (rounds == 0 or time.time() - t0 < 400):
        S = [program(r) for _ in range(240)]
        S += [dict(magic=False, machine=40, secs=[]), dict(magic=True, machine=r.choice([3, 8, 62, 183]), secs=program(r)["secs"]),
              dict(magic=False, machine=40, secs=program(r)["secs"]), dict(magic=True, machine=41, secs=program(r)["secs"]), dict(magic=True, machine=40, secs=[])]
        big = dict(magic=True, machine=40, secs=[dict(type="progbits", alloc=True, addr=0, size=9000, bytes=[r.randrange(256) for _ in range(9000)]),
                                                 dict(type="nobits", alloc=True, addr=9216, size=5001, bytes=[]), dict(type="progbits", alloc=True, addr=30001, size=2, bytes=[1, 2])])
        S.append(big)
        for s in S:
            s["file"] = elf(s, r)
        f = os.path.join(ctx.work, "elf")
        open(f, "w").write("\n".join(json.dumps({k: v for k, v in s.items() if k != "file"}) for s in S) + "\n")
        p = {l["sid"]: l for l in ctx.tlc("MCElf", "SPECIFICATION Spec\nINVARIANTS %s\nPROPERTY Stays\nCHECK_DEADLOCK FALSE\n" % INVS, dict(SESSIONS=f)).lines}

        def one(i):
            for e in exes:
                why = judge(ctx, e, S[i], p[i + 1], i)
                if why and judge(ctx, e, S[i], p[i + 1], "r%d" % i):
                    return why
            return None
        for i, why in enumerate(parallel([lambda i=i: one(i) for i in range(len(S))], 8)):
            ctx.traces += 1
            ctx.note("programs")
            ctx.note("refused", 0 if p[i + 1]["ok"] else 1)
            if why:
                ctx.violation(why, dict(secs=S[i]["secs"], file=S[i]["file"].hex()[:4000]))
        if not rounds:
            ctx.sample(dict(secs=[{k: x[k] for k in ("type", "alloc", "addr", "size")} for x in S[0]["secs"]], words=len(p[1]["image"])))
        rounds += 1
    for e in exes:                              # nothing to split
        for a in ([], [os.path.join(ctx.work, "no-such-file")]):
            if subprocess.run([e] + a, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30).returncode == 0:
                ctx.violation("success without a program", dict(args=a))
