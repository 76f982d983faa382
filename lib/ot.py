"""Oblivious transfers: cases, what the specification says about them, and real transfers."""
import json, os, tempfile
import wire, tlc
from ctx import parallel

BASE = ("SPECIFICATION Spec\nCONSTANTS N = %d E = 3 D = %d XMax = %d Free = %s Cases <- %s\n"
        "INVARIANTS Delivered Refused Fits ChoiceHidden OtherHidden%s\nPROPERTY Finishes\nCHECK_DEADLOCK TRUE\n")
EXT = ("SPECIFICATION Spec\nCONSTANTS K = %d Free = %s Cases <- %s\n"
       "INVARIANTS Delivered Traffic Correlated %s OtherHidden%s\nPROPERTY Finishes\nCHECK_DEADLOCK TRUE\n")


def exhaust_base(ctx, workers=4):
    """Every random choice of one transfer."""
    r = ctx.tlc("OT", BASE % (15, 3, 15, "TRUE", "Single", ""), workers=workers)
    if ctx.thorough:
        r = ctx.tlc("OT", BASE % (33, 7, 33, "TRUE", "Single", ""), workers=workers)
    return r


def exhaust_ext(ctx, workers=4):
    r = ctx.tlc("OTExt", EXT % (ctx.scale(2, 3), "TRUE", "Small", "ChoiceHidden", ""), workers=workers)
    return r


def small_base(ctx):
    """All cases of up to two pairs and unequal lengths, with outcomes."""
    seen = {}
    for x in ctx.tlc("OT", BASE % (15, 3, 15, "FALSE", "Small", " Emit"), workers=2).lines:
        seen[json.dumps(x["c"], sort_keys=True)] = dict(x["c"], rc=x["rc"], got=x["got"])
    return list(seen.values())


def predict(ctx, cases, ext=False):
    """cases: dicts n, nr, sel, m (message numbers).  Adds rc and got."""
    if not cases:
        return cases
    fd, f = tempfile.mkstemp(suffix=".ndjson", dir=ctx.work)
    with os.fdopen(fd, "w") as h:
        h.write("\n".join(json.dumps(dict(n=c["n"], nr=c["nr"], sel=c["sel"], m=c["m"])) for c in cases) + "\n")
    cfg = EXT % (5, "FALSE", "FromFile", "", " Emit") if ext else BASE % (15, 3, 15, "FALSE", "FromFile", " Emit")
    r = ctx.tlc("OTExt" if ext else "OT", cfg, env={"CASES": f}, workers=3)
    out = [None] * len(cases)
    for x in r.lines:
        c = cases[x["cid"] - 1]
        out[x["cid"] - 1] = dict(c, got=x["got"], rc=[0, 0] if ext else x["rc"], blocks=x.get("blocks"))
    if None in out:
        raise tlc.TLCError("no outcome for case %d" % out.index(None))
    return out


def case(rng, n, kinds=8, nr=None, sel=None):
    nr = n if nr is None else nr
    style = rng.random()
    if sel is None:
        sel = [0] * nr if style < .08 else [1] * nr if style < .16 else [rng.randint(0, 1) for _ in range(nr)]
    ident = rng.random() < .1
    m = []
    for _ in range(n):
        a, b = rng.randrange(kinds), rng.randrange(kinds)
        m.append([a, a if ident else b])
    return dict(n=n, nr=nr, sel=sel, m=m)


def contents(rng, kinds, size):
    """Message number -> bytes (most significant first); edge patterns first."""
    t = [bytes(size), b"\xff" * size, bytes(size - 1) + b"\x01", b"\x80" + bytes(size - 1), bytes(size // 2) + rng.randbytes(size - size // 2),
         rng.randbytes(size // 2) + bytes(size - size // 2)]
    while len(t) < kinds:
        t.append(rng.randbytes(size))
    rng.shuffle(t)
    return t[:kinds] if kinds <= len(t) else t


def block_job(c, table, ext=False, **kw):
    return dict(kind="otext" if ext else "ot", limit=120,
                **{"a.n": c["n"], "b.n": c["nr"], "a.msgs": ",".join(table[a].hex() + ":" + table[b].hex() for a, b in c["m"]), "b.sel": "".join(map(str, c["sel"]))}, **kw)


def bn_job(c, table, ext=False, **kw):
    h = lambda k: table[k].hex().lstrip("0") or "0"
    return dict(kind="otextbn" if ext else "otbn", limit=120,
                **{"a.n": c["n"], "b.n": c["nr"], "a.msgs": ",".join(h(a) + ":" + h(b) for a, b in c["m"]),
                   "b.sel": "%X" % sum(b << i for i, b in enumerate(c["sel"]))}, **kw)


def judge(c, table, job, r):
    """Why a real transfer is not what the specification says, or None."""
    if r["crash"] != [0, 0]:
        return "a party crashes (signals %s)" % r["crash"]
    if r["hang"] or r["deadlock"]:
        return "a party never returns"
    rc = [0 if x == 0 else -1 for x in r["rc"]]
    if rc != c["rc"]:
        return "the transfer returns %s (sender, receiver), specified is %s" % (r["rc"], c["rc"])
    if rc[1] != 0:
        if job["kind"] == "ot" and r["out"][1].strip("e") != "":
            return "a failing receiver delivers %s" % r["out"][1][:200]
        return None
    if job["kind"] in ("ot", "otext"):
        got = [r["out"][1][32 * i:32 * i + 32] for i in range(c["nr"])]
        want = [table[g].hex() for g in c["got"]]
    else:
        got = [x.lstrip("0").lower() for x in r["out"][1].split(",")] if c["nr"] else []
        want = [table[g].hex().lstrip("0") for g in c["got"]]
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return "pair %d of %d (selection bit %d): received %s, the selected message is %s" % (i, c["n"], c["sel"][i], b, a)
    if len(got) != len(want):
        return "%d messages received, specified are %d" % (len(got), len(want))
    if r["w"] != r["r"]:
        return "%s bytes written but %s read" % (r["w"], r["r"])
    return None


def layout(n, ext=False):
    """The messages of a transfer, per direction, as wire.decode wants them."""
    if not ext:
        return [[dict(k="otpub", n=n)] + ([dict(k="otrep", n=n)] if n else []), [dict(k="otreq", n=n)] if n else []]
    return [[dict(k="otreq", n=128), dict(k="otext", n=n)], [dict(k="otpub", n=128), dict(k="otrep", n=128)]]


def check(ctx, bdir, items, extra=None):
    """items: (case, table, job)"""
    recs = ctx.run(bdir, [dict(j) for _, _, j in items])
    ctx.traces += len(recs)
    bad = 0
    for (c, t, j), r in zip(items, recs):
        f = lambda r: judge(c, t, j, r) or (extra(c, t, j, r) if extra else None)
        why = f(r)
        if why and bad < 10:
            r = ctx.run(bdir, [dict(j)])[0]
            why = f(r)
            if why:
                bad += 1
                ctx.violation(why, dict(case=c, table=[x.hex() for x in t], job={k: str(v)[:4000] for k, v in j.items()}, expected=[t[g].hex() for g in c["got"]][:50],
                                        record={k: str(v)[:4000] for k, v in r.items() if k not in ("ab", "ba")}))
    if items:
        c, t, j = items[0]
        ctx.sample(dict(n=c["n"], sel=c["sel"][:20], expected=[t[g].hex() for g in c["got"]][:5], observed=recs[0]["out"][1][:160]))
    return recs
