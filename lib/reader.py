"""Texts of netlists: what the specification's reading machine makes of them."""
import json, os, re
import netlist as NL
from ctx import parallel

READ = ("SPECIFICATION Spec\nCONSTANTS Cases <- FromFile\nINVARIANTS CellsComplete AsWritten RoundTrip Told\nPROPERTIES Ends Grows\nVIEW view\nCHECK_DEADLOCK FALSE\n")
POOL = ["=", ";", "assign", "input", "output", "[3:0]", "[0:0]", "[0]", "[2]", "[]", "[:]", "(", ")", ",", "endmodule", "module", "wire", "DFF", "AND", "MUX", "IV",
        "FADDER", "LATCH", ".A", ".B", ".Z", ".I", ".D", ".Q", ".QN", ".SUM", "1'b0", "1'b1", "o", "o[0]", "terminate", "g_input", "g_input[0]", "clk", "\\x[3]", "n1", "-1", "99999"]


def mangle(rng, t):
    """The text with some of its words changed, at the level of words or of whole statements."""
    toks = [x for x in re.findall(r"//[^\n]*|/\*.*?\*/|\(\*.*?\*\)|[(),;]|\\\S+|[^\s(),;]+", t, re.S) if x[:2] not in ("//", "/*", "(*")]
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        i, j = rng.randrange(len(toks)), rng.randrange(len(toks))
        ends = [-1] + [k for k, x in enumerate(toks) if x == ";"]
        r = rng.random()
        if r < .2 and len(ends) > 3:            # whole statements
            a, b = sorted(rng.sample(range(len(ends) - 1), 2))
            sa, sb = toks[ends[a] + 1:ends[a + 1] + 1], toks[ends[b] + 1:ends[b + 1] + 1]
            toks = toks[:ends[a] + 1] + rng.choice([sb, [], sa + sa, sb + sa]) + toks[ends[a + 1] + 1:ends[b] + 1] + rng.choice([sa, sb, []]) + toks[ends[b + 1] + 1:]
        elif r < .3:
            del toks[i]
        elif r < .4:
            toks.insert(i, rng.choice(POOL))
        elif r < .5:
            toks[i] = rng.choice(POOL)
        elif r < .85:                           # another word of the same sort
            sort = lambda x: x if x in "(),;=" else x[0] if x[0] in ".[" else "k" if x in ("input", "output", "assign", "wire") else "t" if x in NL.PINS or x == "IV" else "w"
            ks = [k for k in range(len(toks)) if sort(toks[k]) == sort(toks[i])]
            j = rng.choice(ks)
            toks[i], toks[j] = toks[j], toks[i] if rng.random() < .5 else toks[j]
        elif r < .9:
            toks[i], toks[j] = toks[j], toks[i]
        elif r < .95:
            toks = toks[:i]
        else:
            toks = toks[:i] + ["endmodule"] + toks[i:]
        if not toks:
            return " "
    return "".join(x + ("\n" if x == ";" else " ") for x in toks)


NUMBERS = ["0", "1", "2", "3", "7", "-1", "99999", "4294967296", "18446744073709551615", "1e9", "0x1", "XOR", "AND", "INV", "x", ""]


def garble(rng, t):
    """The text with some of its characters, or numbers, changed."""
    if rng.random() < .5:
        toks = re.split(r"(\s+)", t)
        for _ in range(rng.choice([1, 1, 2, 5])):
            toks[rng.randrange(len(toks))] = rng.choice(NUMBERS)
        return "".join(toks)
    t = list(t)
    for _ in range(rng.choice([1, 1, 3, 9])):
        i = rng.randrange(len(t))
        t[i] = rng.choice(["", "", " ", ";", "(", ")", "[", "]", ".", ",", "=", "*", "/", "\\", "\0", "\xff", "9", "-", t[i] * 2, t[i] * 300, rng.choice(t)])
    return "".join(t)


def understood(ctx, whole, texts, slices=4):
    """What the specification's reading machine makes of texts: (netlist, flaw); and of the harness's own texts (netlist, text)."""
    cases = [dict(toks=NL.tokens(t), whole=True, want=n) for n, t in whole] + [dict(toks=NL.tokens(t), whole=False, want=dict()) for t in texts]

    def one(k):
        f = os.path.join(ctx.work, "texts-%d.ndjson" % k)
        with open(f, "w") as h:
            for c in cases[k::slices]:
                h.write(json.dumps(c) + "\n")
        return ctx.tlc("MCReader", READ, env={"CASES": f}, workers=2, mem="3g")
    got = {}
    for k, r in enumerate(parallel([lambda k=k: one(k) for k in range(slices)])):
        for l in r.lines:
            got[k + (l["id"] - 1) * slices] = l
    for l in got.values():
        ctx.note("read_as_%s" % (l["syntax"] or "netlist"))
    out = []
    for k, t in enumerate(texts):
        l = got[len(whole) + k]
        n = l["n"]
        n["cells"] = [dict(c) for c in n["cells"] or []]
        n["assigns"] = [list(a) for a in n["assigns"] or []]
        out.append((n, t, l["syntax"], l["legal"]))
    return out
