"""C16: the transport delivers exactly the bytes sent, in order."""
import json, os
import build
from ctx import parallel

MC = ("SPECIFICATION Spec\nCONSTANTS Cap = %d Scripts <- FromFile\nINVARIANTS WellFormedScripts Fifo Outcome InOrder\nPROPERTY Terminates\nCHECK_DEADLOCK TRUE\n")
EXP = ("SPECIFICATION SpecExpected\nCONSTANTS Cap = 1 Scripts <- FromFile\nINVARIANTS WellFormedScripts EmitExpected\nCHECK_DEADLOCK FALSE\n")


def width(op):
    return op["n"] + (4 if op["k"] == "num" else 0)


def cuts_of(rng, n):
    """n bytes as a sequence of receives."""
    out = []
    while n > 0:
        k = min(n, rng.choice([1, 2, 3, n, rng.randint(1, n)]))
        out.append(dict(k="data", n=k))
        n -= k
        if rng.random() < .15:
            out.append(dict(k="data", n=0))
    return out


def script(rng, sizes, phases, nums):
    ps = []
    for _ in range(rng.randint(1, phases)):
        snd, rcv, run = [], [], 0
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .35:
                op = dict(k="num", n=rng.choice(nums))
                rcv += cuts_of(rng, run) + [op]
                run = 0
                snd.append(op)
            else:
                op = dict(k="data", n=rng.choice(sizes))
                snd.append(op)
                run += op["n"]
        rcv += cuts_of(rng, run)
        ps.append(dict(d=rng.randint(0, 1), snd=snd, rcv=rcv))
    s = dict(phases=ps, cut=dict(d=2, at=0))
    return s


def with_cut(rng, s, d, at):
    return dict(s, cut=dict(d=d, at=at))


def totals(s):
    return [sum(sum(map(width, p["snd"])) for p in s["phases"] if p["d"] == d) for d in (0, 1)]


def realise(rng, s):
    """Contents, and the job's scripts for the parties."""
    streams = []                                    # per phase: bytes and numbers
    scripts = [[], []]
    for ph in s["phases"]:
        data, ops = b"", []
        for op in ph["snd"]:
            b = rng.randbytes(op["n"])
            if op["k"] == "num" and op["n"]:
                b = bytes([b[0] or 1]) + b[1:]
            ops.append(b)
            scripts[ph["d"]].append(("s" + b.hex()) if op["k"] == "data" else "B" + (b.hex() or "0"))
        for op in ph["rcv"]:
            scripts[1 - ph["d"]].append("r%d" % op["n"] if op["k"] == "data" else "b")
        streams.append(ops)
    return streams, scripts


def expected(s, exp, streams):
    """Text results of both parties."""
    out = ["", ""]
    for ph, e, ops in zip(s["phases"], exp, streams):
        out[ph["d"]] += "".join("S;" if ok else "F;" for ok in e["snd"])
        flat, nums = b"", []
        for op, b in zip(ph["snd"], ops):
            if op["k"] == "num":
                nums.append(b)
            else:
                flat += b
        for op, ok in zip(ph["rcv"], e["rcv"]):
            if op["k"] == "num":
                b = nums.pop(0)
                out[1 - ph["d"]] += ("S" + ("%X" % int.from_bytes(b, "big")) + ";") if ok else "F;"
            else:
                out[1 - ph["d"]] += ("S" + flat[:op["n"]].hex() + ";") if ok else "F;"
                flat = flat[op["n"]:]
    return out


def canon(text):
    """Numbers without leading zeros."""
    r = []
    for t in text.split(";"):
        r.append(t[0] + (t[1:].lstrip("0") or "0") if t[:1] == "S" and len(t) > 1 and t[1:].upper() == t[1:] else t)
    return r


def judge(s, want, r):
    if r["crash"] != [0, 0]:
        return "a party crashes (%s)" % r["crash"]
    if r["hang"] or r["deadlock"]:
        return "a party never returns"
    for q in (0, 1):
        a, b = canon(want[q]), canon(r["out"][q])
        if a != b:
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return "call %d of party %s gives %s, specified is %s" % (k, "AB"[q], (b + ["nothing"])[k][:200], (a + ["nothing"])[k][:200])
    if s["cut"]["d"] == 2 and (r["w"] != totals(s) or r["r"] != totals(s)):
        return "%s bytes written and %s read, specified are %s" % (r["w"], r["r"], totals(s))
    return None


def check(ctx):
    rng = ctx.rng
    vs = [build.build("log"), build.build("nolog")]

    def mc(cap, n, seed):
        ss = []
        while len(ss) < n:
            s = script(rng, [0, 1, 1, 2, 3], 2, [0, 1])
            t = totals(s)
            if sum(t) > 13:
                continue
            ss.append(s)
            for _ in range(2):
                d = rng.randint(0, 1)
                ss.append(with_cut(rng, s, d, rng.randint(0, t[d])))
        f = os.path.join(ctx.work, "mc%d.ndjson" % cap)
        open(f, "w").write("\n".join(map(json.dumps, ss)) + "\n")
        return lambda: ctx.tlc("Transport", MC % cap, env={"SCRIPTS": f}, workers=3)
    ss = []
    for i in range(ctx.scale(260, 3000)):
        s = script(rng, [0, 1, 2, 3, 7, 8, 15, 16, 17, 63, 100], 4, [0, 1, 2, 3, 8, 16, 17, 127, 128, 129])
        t = totals(s)
        ss.append(s)
        for _ in range(4):
            d = rng.randint(0, 1)
            if t[d]:
                ss.append(with_cut(rng, s, d, rng.randint(0, t[d])))
    for _ in range(ctx.scale(8, 60)):               # every break point of a few scripts
        s = script(rng, [0, 1, 2, 5], 3, [0, 1, 3])
        for d in (0, 1):
            ss += [with_cut(rng, s, d, k) for k in range(totals(s)[d] + 1)]
    for n in (255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 150001):     # sizes around the usual limits
        big = dict(phases=[dict(d=0, snd=[dict(k="data", n=n), dict(k="num", n=n)], rcv=[dict(k="data", n=n), dict(k="num", n=n)]),
                           dict(d=1, snd=[dict(k="num", n=n)], rcv=[dict(k="num", n=n)])], cut=dict(d=2, at=0))
        ss += [big, with_cut(rng, big, 0, n - 1), with_cut(rng, big, 0, 2 * n + 3)]
    f = os.path.join(ctx.work, "exp.ndjson")
    open(f, "w").write("\n".join(map(json.dumps, ss)) + "\n")
    res = parallel([mc(1, ctx.scale(20, 150), 1), mc(3, ctx.scale(20, 150), 2), mc(100, ctx.scale(12, 80), 3),
                    lambda: ctx.tlc("Transport", EXP, env={"SCRIPTS": f}, workers=2)])
    exp = {x["sid"] - 1: x["exp"] for x in res[3].lines}
    jobs, wants = [], []
    frags = [dict(), dict(frag=1), dict(frag=-5), dict(frag=3, cap=1), dict(cap=5), dict(frag=-200, cap=64), dict(frag=7)]
    for i, s in enumerate(ss):
        streams, sc = realise(rng, s)
        want = expected(s, exp[i], streams)
        fr = dict(frags[i % len(frags)])
        if sum(totals(s)) > 20000:
            fr = [dict(), dict(frag=-9000), dict(cap=4096, frag=1000)][i % 3]
        j = dict(kind="io", limit=60, most=2 * sum(totals(s)) + 65536, **{"a.script": ",".join(sc[0]), "b.script": ",".join(sc[1])}, **fr)
        if s["cut"]["d"] != 2:
            j.update(cut_dir=s["cut"]["d"], cut_at=s["cut"]["at"], rst=i % 2)
            if s["cut"]["at"] == 0:
                j["cut_now"] = 1
        jobs.append(j)
        wants.append(want)
    for v, b in enumerate(vs):
        idx = [i for i in range(len(ss)) if ctx.thorough or i % 2 == v or "frag" not in jobs[i]]
        recs = ctx.run(b, [dict(jobs[i]) for i in idx])
        ctx.traces += len(recs)
        for i, r in zip(idx, recs):
            if judge(ss[i], wants[i], r) and len(ctx.violations) < 6:
                r = ctx.run(b, [dict(jobs[i])])[0]
                why = judge(ss[i], wants[i], r)
                if why:
                    ctx.violation(why, dict(script=ss[i], job={k: str(v)[:3000] for k, v in jobs[i].items()}, expected=[x[:3000] for x in wants[i]],
                                            observed=[x[:3000] for x in r["out"]], record={k: v for k, v in r.items() if k != "out"}))
    ctx.sample(dict(script=ss[0], expected=exp[0]))
    ctx.note("scripts", len(ss))
