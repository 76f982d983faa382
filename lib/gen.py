"""Circuits and sessions: random and systematic generation, and their file forms."""
import random, zlib

TYPES = ["AND", "ANDN", "NAND", "NANDN", "OR", "ORN", "NOR", "NORN", "XOR", "XNOR", "NOT"]
CODE = {"AND": 8, "ANDN": 4, "NAND": 7, "NANDN": 11, "OR": 14, "ORN": 13, "NOR": 1, "NORN": 2, "XOR": 6, "XNOR": 9, "NOT": 12}
ZERO, ONE = -2, -3


def circuit(pi=0, gi=0, ei=0, px=0, gx=0, ex=0, gates=(), D=(), I=(), out=(), term=0):
    return dict(pi=pi, gi=gi, ei=ei, px=px, gx=gx, ex=ex,
                gates=[dict(t=t, a=a, b=b) for t, a, b in gates], D=list(D), I=list(I), out=list(out), term=term)


def init_size(c):
    return c["pi"] + c["gi"] + c["ei"]


def input_size(c):
    return c["px"] + c["gx"] + c["ex"]


def dff_lo(c):
    return init_size(c) + input_size(c)


def gate_lo(c):
    return dff_lo(c) + len(c["D"])


def wires(c):
    return gate_lo(c) + len(c["gates"])


def scd_text(c):
    g = c["gates"]
    head = [c["pi"], c["gi"], c["ei"], c["px"], c["gx"], c["ex"], len(c["D"]), len(c["out"]), c["term"], len(g)]
    rows = [[x["a"] for x in g], [x["b"] for x in g], [CODE[x["t"]] for x in g], c["out"], c["D"], c["I"]]
    return "\n".join(" ".join(map(str, r)) for r in [head] + rows) + "\n"


def spell(text):
    """One of the ways to write the same hex number (always the same for the same number)."""
    k = zlib.crc32(text.encode()) % 5
    return text.lower() if k == 1 else "0" + text if k == 2 else "00" + text.lower() if k == 3 else text


def hexnum(bits):
    """bits lowest first -> hex text"""
    n = 0
    for i, b in enumerate(bits):
        n |= b << i
    return "%X" % n


def no_number(rng, t):
    """A text that is no hexadecimal number, from one that is: 0x in front, other characters before, in or behind it, the name of a file."""
    k = rng.randrange(6)
    if k == 0:
        return "0x" + t
    if k == 1:
        return rng.choice(["data.hex", "feed.txt", "in", "a.b", "./f00d"])
    i = rng.choice([0, len(t), rng.randrange(len(t) + 1)])
    return t[:i] + rng.choice("gGhxXzZ_.,;:/#+-") + t[i:]


def digit_values(t):
    return [int(x, 16) if x in "0123456789abcdefABCDEF" else 16 for x in t]


def rand_bits(rng, n):
    return [rng.randint(0, 1) for _ in range(n)]


def rand_circuit(rng, max_in=3, max_dff=3, max_gates=12, max_out=4, term=None, need_secret=True, max_init=2):
    """A well-formed circuit; operands are biased towards recent, equal and inverse wires."""
    while True:
        pi, gi, ei = (rng.randint(0, max_init) if rng.random() < .6 else 0 for _ in range(3))
        px, gx, ex = (rng.randint(0, max_in) if rng.random() < .8 else 0 for _ in range(3))
        nd = rng.randint(0, max_dff)
        if px + gx + ex + nd == 0:
            continue
        if need_secret and gx + ex + gi + ei == 0:
            continue
        break
    base = pi + gi + ei
    glo = base + px + gx + ex + nd
    ng = rng.randint(1, max_gates)
    gates = []
    style = rng.random()
    for i in range(ng):
        hi = glo + i

        def op():
            r = rng.random()
            if r < .06:
                return rng.choice([ZERO, ONE])
            if r < .55 and i > 0:
                return rng.randrange(max(glo, hi - 4), hi)
            return rng.randrange(base, hi)
        t = rng.choice(TYPES) if style < .6 else rng.choice(["AND", "XOR", "XNOR", "NOT", "OR", "NORN"])
        a = op()
        b = -1 if t == "NOT" else op()
        if t != "NOT":
            r = rng.random()
            if r < .1:
                b = a
            elif r < .2:            # the inverse of an existing NOT's operand, or a twin
                cand = [k for k in range(i) if gates[k][0] in ("NOT", "XOR", "XNOR")]
                if cand:
                    k = rng.choice(cand)
                    b, a = glo + k, gates[k][1]
                    if rng.random() < .5:
                        a, b = b, a
            elif r < .26 and i > 0:  # same gate again
                k = rng.randrange(i)
                if gates[k][0] != "NOT":
                    a, b = (gates[k][1], gates[k][2]) if rng.random() < .5 else (gates[k][2], gates[k][1])
        gates.append((t, a, b))
    hi = glo + ng
    D = [rng.choice([ZERO, ONE]) if rng.random() < .05 else (rng.randrange(base, hi) if rng.random() < .35 else rng.randrange(max(base, hi - 6), hi)) for _ in range(nd)]
    I = []
    for _ in range(nd):
        r = rng.random()
        if r < .15:
            I.append(ZERO)
        elif r < .3:
            I.append(ONE)
        elif r < .35 or base == 0:
            I.append(rng.choice([ZERO, ONE]))
        else:
            I.append(rng.randrange(base))
    no = rng.randint(1, max_out)
    out = [rng.randrange(max(base, hi - 6), hi) if rng.random() < .7 else rng.randrange(base, hi) for _ in range(no)]
    tw = 0
    if term if term is not None else rng.random() < .4:
        tw = rng.randrange(max(base, 1), hi)
    c = circuit(pi, gi, ei, px, gx, ex, gates, D, I, out, tw)
    if rng.random() < .85:          # use up dangling gates
        used = {g["a"] for g in c["gates"]} | {g["b"] for g in c["gates"]} | set(D) | set(out) | {tw}
        for i in range(ng):
            if glo + i not in used:
                c["out"].append(glo + i)
        c["out"] = c["out"][:max_out + 8]
    return c


def rand_inputs(rng, c, cc, extra=True):
    x = {}
    for k, n in (("pinit", c["pi"]), ("ginit", c["gi"]), ("einit", c["ei"]), ("pin", c["px"] * cc), ("gin", c["gx"] * cc), ("ein", c["ex"] * cc)):
        r = rng.random()
        m = n if r < .8 else rng.randint(0, n) if r < .9 else n + (rng.randint(0, 3) if extra else 0)
        b = rand_bits(rng, m)
        if rng.random() < .1:
            b = [rng.randint(0, 1)] * m
        x[k] = b
    return x


def rand_session(rng, c=None, max_cc=4, **kw):
    c = c or rand_circuit(rng, **kw)
    cc = rng.randint(1, max_cc)
    period = 0
    if c["term"] > 0 and rng.random() < .8:
        period = rng.choice([1, 1, 2, 3, cc + 1])
    no = len(c["out"])
    r = rng.random()
    mask = [0] * no if r < .2 else [1] * no if r < .3 else rand_bits(rng, no)
    if rng.random() < .1:
        mask = mask[:rng.randint(0, no)]
    if rng.random() < .1:
        mask = mask + rand_bits(rng, rng.randint(1, 9))
    return dict(c=c, x=rand_inputs(rng, c, cc), cc=cc, period=period, mask=mask, low=rng.random() < .5,
                noot=rng.random() < .6, mode=rng.choice(["consecutive", "separated", "last"]))


def gate_matrix(chunk=60):
    """Every gate type on every pair of operand kinds, as one-output-per-gate circuits."""
    out = []
    # inputs: p0 p1 g0 g1 e0 e1 ; helper gates: NOT g0, XOR(g0,e0), NOT of that, AND(g1,e1), AND(p0,g0)
    lo = 6
    helpers = [("NOT", 2, -1), ("XOR", 2, 4), ("NOT", lo + 1, -1), ("AND", 3, 5), ("AND", 0, 2), ("XOR", 4, 2), ("NOT", lo + 3, -1), ("XOR", lo + 3, 3)]
    ops = [ZERO, ONE, 0, 1, 2, 4, lo + 0, lo + 1, lo + 2, lo + 3, lo + 4, lo + 5, lo + 6, lo + 7]
    combos = [(t, a, b) for t in TYPES if t != "NOT" for a in ops for b in ops] + [("NOT", a, -1) for a in ops]
    for k in range(0, len(combos), chunk):
        part = combos[k:k + chunk]
        gates = helpers + part
        glo = lo
        outs = [glo + len(helpers) + i for i in range(len(part))]
        out.append(circuit(px=2, gx=2, ex=2, gates=gates, out=outs))
    return out


MODES = {"consecutive": 0, "separated": 1, "last": 2}


def job(s, scd, **kw):
    x = s["x"]
    j = dict(kind="gc", scd=scd, cc=s["cc"], mask=spell(hexnum(s["mask"])), period=s["period"], omode=MODES[s["mode"]],
             noot=int(s["noot"]), lowmem=int(s["low"]), p_init=spell(hexnum(x["pinit"])), g_init=spell(hexnum(x["ginit"])),
             e_init=spell(hexnum(x["einit"])), p_input=spell(hexnum(x["pin"])), g_input=spell(hexnum(x["gin"])), e_input=spell(hexnum(x["ein"])))
    j.update(kw)
    return j


def tiny(rng, n, dff=False):
    """Two or three gates over one public, one garbler and one evaluator bit, maybe one flip-flop: a sample of all of them."""
    out = []
    for _ in range(n):
        nd = 1 if dff and rng.random() < .7 else 0
        ini = rng.randint(0, 2) if nd else -1
        pi, gi, ei = (int(ini == k) for k in range(3))
        base = pi + gi + ei
        lo = base + 3 + nd
        ng = rng.choice([1, 2, 2, 3, 3, 4])
        gates = []
        for k in range(ng):
            ops = [ZERO, ONE] + list(range(base, lo + k))
            t = rng.choice(TYPES)
            recent = [w for w in ops if w >= lo] or ops
            a = rng.choice(recent if rng.random() < .5 else ops)
            gates.append((t, a, -1 if t == "NOT" else rng.choice(recent if rng.random() < .4 else ops)))
        outs = [lo + ng - 1] + ([rng.randrange(base, lo + ng)] if rng.random() < .5 else [])
        used = {w for g in gates for w in g[1:]}
        outs += [lo + k for k in range(ng - 1) if lo + k not in used and rng.random() < .9]
        D = [rng.choice([ZERO, ONE] + list(range(base, lo + ng)) * 2)] if nd else []
        I = [rng.choice([ZERO, ONE] + list(range(base)) * 2)] if nd else []
        term = rng.randrange(max(base, 1), lo + ng) if rng.random() < .15 else 0
        out.append(circuit(pi, gi, ei, 1, 1, 1, gates, D, I, outs, term))
    return out


def dangling(c):
    """Does the circuit have gates nothing uses?"""
    used = {w for g in c["gates"] for w in ((g["a"],) if g["t"] == "NOT" else (g["a"], g["b"]))} | set(c["D"]) | set(c["out"]) | {c["term"]}
    return any(gate_lo(c) + i not in used for i in range(len(c["gates"])))
