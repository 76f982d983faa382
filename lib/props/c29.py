"""C29: the designs of the circuit library compute what they are for."""
import glob, json, os, re
import build, gen, netlist as NL, translate as T, vlog
from props.c15 import outcome

INVS = "Judged Width Serial Arith Modular"
CIPHERS = ("aes_1cc", "aes_11cc", "sha3_comb", "sha3_seq", "cordic")      # judged by MCCipher.tla
LIB = ["syn_lib/*.v"]
NNS = LIB + ["knns/*.v"]
TD = LIB + ["knns_td/taxicab_distance.v"]


def designs(r):
    """(files, design, parameters, cycles)"""
    def n(a, b):
        return r.randint(a, b)
    for d in ("ADD", "SUB", "COMP"):
        for N, M in [(1, 1), (3, 3), (4, 2), (n(5, 12), n(1, 5)), (n(14, 30),) * 2, (511, 509), (n(512, 520),) * 2]:
            yield LIB, d, dict(N=N, M=M), 6 if N > 60 else 64
    yield LIB, "ADD", dict(N=1027 + n(0, 5), M=1024), 4
    for d in ("ADD_", "SUB_", "MULT_"):
        for N, M in [(2, 2), (3, 2), (4, 4), (n(5, 9), n(2, 5))]:
            yield LIB, d, dict(N=N, M=M), 64
    for d in ("MULT", "DIV", "DIV_"):
        for N, M in [(1 if d != "DIV_" else 2, 2), (3, 3), (4, 2), (n(5, 9), n(2, 5)), (2, 4)]:
            yield LIB, d, dict(N=N, M=M), 64
    for N in [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, n(18, 40), 64]:
        yield LIB, "COUNT", dict(N=N), 40
    for N in [1, 3, n(4, 20), 511, n(512, 516), 1024 + n(0, 2)]:
        yield LIB, "MUX", dict(N=N), 6 if N > 60 else 64
    yield LIB, "FA", {}, 16
    for d in ("SHIFT_LEFT", "SHIFT_RIGHT"):
        for N in [2, 4, 8, 16, 5, n(6, 14)]:
            yield LIB, d, dict(N=N), 64
    for N in [1, 2, 4, n(5, 12), 515]:
        yield LIB, "TwosComplement", dict(N=N), 6 if N > 60 else 40
    for N, M in [(4, 8), (8, 16)]:
        yield LIB, "square_root_comb", dict(N=N, M=M), 40
    for N in [1, 3, n(4, 9)]:
        yield TD, "taxicab_distance", dict(N=N), 64
    for N, CC in [(8, 1), (8, 2), (8, 4), (12, 3), (16, 16), (n(6, 10) * 4, 4)]:
        for d in ("sum", "compare", "hamming"):
            yield LIB + [d + "/%s.v" % d], d, dict(N=N, CC=CC), CC
    for N in [1, 2, 4, n(5, 9)]:
        yield LIB + ["mult/mult.v"], "mult", dict(N=N, CC=1), 40
    for k in [1, 2, 3, 4, 5]:
        yield ["encoder/encoder.v"], "encoder", dict(logS=k), 2 ** k + 3
    for M, W in [(2, 1), (4, 3), (8, n(1, 3)), (16, 2)]:
        yield ["select/select.v"], "select", dict(M=M, W=W), 40
    for N, M in [(2, 2), (3, 2), (4, 3), (n(5, 9), n(1, 5))]:
        yield ["argmax/argmax.v"], "argmax", dict(N=N, M=M), 40
    yield ["public_test/public_test.v"], "public_test", {}, 6
    for N in [1, 2, 4, n(5, 20)]:
        yield LIB + ["non_secret_test/non_secret_test.v"], "non_secret_test", dict(N=N), 12
    for k in range(4):
        for N, M in [(1, 2), (2, 3), (3, n(2, 5)), (2, n(6, 9))]:
            yield LIB + ["matrix_mult/matrix_mult_N_M_%d.v" % k], "matrix_mult_N_M_%d" % k, dict(N=N, M=M), 12
    for N, CC in [(4, 4), (4, 2), (8, 8), (8, 2), (n(3, 7),) * 2]:
        yield LIB + ["rsa/modmult.v"], "modmult", dict(N=N, CC=CC), 3 * (CC + 1)
    for N, CC in [(4, 4), (4, 1), (4, 2), (n(3, 6), 1), (6, 3)]:
        yield LIB + ["rsa/mod*.v"], "modexp_1_N", dict(N=N, CC=CC), CC
        yield LIB + ["rsa/mod*.v"], "modexp_2N_NN", dict(N=N, CC=2 * N), 2 * N
        c = r.choice([c for c in range(1, N + 1) if N % c == 0])
        yield LIB + ["rsa/mod*.v"], "modexp_2N_NN", dict(N=N, CC=2 * N * c), 2 * N * c
    yield LIB + ["rsa/mod*.v"], "modexp_2N_NN", dict(N=4, CC=32), 32
    for W, N in [(3, 2), (4, 5), (n(5, 9), n(2, 6))]:
        yield NNS, "first_nns_comb", dict(W=W, N=N), 30
        yield TD + ["knns_td/first_nns_comb_td.v"], "first_nns_comb_td", dict(W=W, N=N), 30
    for W in [3, 4, n(5, 9)]:
        yield NNS, "first_nns_seq", dict(W=W), 12
        yield TD + ["knns_td/first_nns_seq_td.v"], "first_nns_seq_td", dict(W=W), 12
        for K in [1, 2, n(3, 4)]:
            yield NNS, "k_nns_seq", dict(W=W, K=K), 12
            yield TD + ["knns_td/k_nns_seq_td.v"], "k_nns_seq_td", dict(W=W, K=K), 12
    yield TD + ["knns_td/knns_seq_td.v"], "knns_seq", dict(W=3, K=2), 12
    for N, S in [(4, 3), (8, 8), (n(2, 10), n(3, 6))]:
        yield ["stack_machine/stackMachine.v"], "stackMachine", dict(N=N, S=S), 60
    for S in [2, 3, 4, 4, 4, 3, n(5, 6)]:
        yield ["stable_match/stable_match_seq.v", "stable_match/encoder.v"], "stable_match_seq", dict(Kr=S, Ks=S, S=S, R=S), 2 * S * S + 4
    for FRAC in [14] * 6 + [30] * 4:
        yield LIB + ["cordic/cordic.v", "cordic/alpha_table.v", "cordic/barrel_shifter_left.v"], "cordic", dict(FRAC=FRAC), FRAC + 2
    yield ["aes/*.v"], "aes_1cc", {}, 6
    yield ["aes/*.v"], "aes_11cc", {}, 11
    yield ["aes/*.v"], "aes_11cc", {}, 11
    for CC in [24, r.choice([2, 3, 4, 6, 8, 12])]:
        yield ["sha3/*.v"], "sha3_seq", dict(CC=CC), CC
    yield ["sha3/*.v"], "sha3_comb", dict(CC=1), 2


def power(r, N, f):
    """Base, exponent and modulus: the base less than the modulus, the exponent not 0."""
    n = r.randrange(1, 2 ** N)
    m, e = r.randrange(n), r.randrange(1, 2 ** N) if r.random() < .8 else 1 << r.randrange(N)
    return f(*([(v >> i) & 1 for i in range(N)] for v in (m, e, n)))


def stimuli(r, d, p, ins, cc):
    """Inputs of cc cycles: all of them when they are few."""
    def word(w):
        k = r.random()
        if k < .12:
            return [r.randint(0, 1)] * w
        if k < .2:
            return [1] * (w - 1) + [0] if r.random() < .5 else [0] * (w - 1) + [1]
        if k < .3:
            j = r.randrange(w + 1)
            return [1] * j + [0] * (w - j)
        return [r.randint(0, 1) for _ in range(w)]
    out = []
    total = sum(w for _, w in ins)
    q = word(dict(ins).get("g_input", 1))
    few = list(range(2 ** total)) if total <= 6 else None
    if few:
        r.shuffle(few)
    for c in range(cc):
        x = {n: word(w) for n, w in ins}
        if few and d in ("ADD", "SUB", "COMP", "ADD_", "SUB_", "MULT", "MULT_", "DIV", "DIV_", "COUNT", "MUX", "FA", "mult"):
            v, k = few[c % len(few)], 0
            for n, w in ins:
                x[n] = [(v >> (k + i)) & 1 for i in range(w)]
                k += w
        if d in ("DIV", "DIV_") and not any(x["B"]):
            x["B"][r.randrange(len(x["B"]))] = 1
        if d == "encoder":
            k = c if c < 2 ** p["logS"] else r.randrange(2 ** p["logS"])
            v = [int(i == k) for i in range(2 ** p["logS"])]
            x["g_input"], x["e_input"] = v[:len(v) // 2], v[len(v) // 2:]
        if d == "select":
            for e in ("write_en", "write_en2", "write_en3"):
                x[e] = [int(r.random() < .5)]
        if d == "stable_match_seq":
            for q in ("rPref", "sPref"):
                v, w = [], (p["S"] - 1).bit_length()
                for _ in range(p["S"]):
                    for k in r.sample(range(p["S"]), p["S"]):
                        v += [(k >> i) & 1 for i in range(w)]
                x[q] = out[0][q] if out else v
        if d == "stackMachine":          # the stack has two values for two operands, and room for one more
            deep = sum((o["e"] == 4) - (o["e"] not in (0, 4, 5)) for o in out)
            v = r.choice([4, 4] * (deep < p["S"]) + [1, 2, 3, 6, 7] * (deep > 1) + [0, 5])
            x.update(e=v, e_input=[(v >> i) & 1 for i in range(3)])
        if d in ("first_nns_seq", "first_nns_seq_td", "k_nns_seq"):
            x["g_input"] = q
        if d in ("k_nns_seq_td", "knns_seq"):
            x["e_input"] = word(len(x["e_input"])) if not out else out[0]["e_input"]
        if d == "modexp_1_N":
            x.update(out[0] if out else dict(zip(("g_input", "e_input"), power(r, p["N"], lambda m, e, n: (m, e + n)))))
        if d == "modmult":
            n = out[-1]["n"] if c % (p["CC"] + 1) else word(len(x["n"]))
            if not any(n):
                n = [0] * (len(n) - 1) + [1]
            x["n"] = n
            v = sum(b << i for i, b in enumerate(n))
            x["start"] = [int(c % (p["CC"] + 1) == 0)]
            y = r.randrange(v)
            z = r.randrange(v)
            x["y"] = out[-1]["y"] if c % (p["CC"] + 1) else [(y >> i) & 1 for i in range(len(n))]
            x["x"] = [(z >> i) & 1 for i in range(len(n))]
        out.append(x)
    return out


def source(f):
    """A file's text, with what it includes of its own folder."""
    t = open(f, errors="replace").read()

    def put(m):
        g = os.path.join(os.path.dirname(f), os.path.basename(m.group(1)))
        return open(g, errors="replace").read() + "\n" if os.path.exists(g) else ""
    return re.sub(r'`include\s+"([^"\n]+)"', put, t)


def check(ctx):
    r = ctx.rng
    b = build.build("log")
    root = os.path.join(build.REPO, "circuit_synthesis")
    text = {}
    runs = []
    cases = []
    for files, d, p, cc in [x for _ in range(ctx.scale(1, 12)) for x in designs(r)]:
        try:
            fs = sorted({f for pat in files for f in glob.glob(os.path.join(root, pat))})
            for f in fs:
                if f not in text:
                    text[f] = source(f)
            n, ins, outs = vlog.Design([text[f] for f in fs]).netlist(d, p)
        except vlog.Fault as e:
            ctx.violation("%s %s is no circuit: %s" % (d, p, e), dict(design=d, p=p, why=str(e)))
            continue
        except (vlog.Unsupported, RecursionError) as e:
            ctx.note("not understood")
            if os.environ.get("TG_VERBOSE"):
                print(d, p, e)
            continue
        s = dict(d=d, p=dict(p, none=0), n=n, ins=ins, outs=outs, cc=cc)
        s["ini"] = dict({q: [r.randint(0, 1) for _ in range(w)] for q, w in ins if q.endswith("_init")}, none=0)
        if d == "modexp_2N_NN":
            m, e, n_ = power(r, p["N"], lambda *a: a)
            s["ini"].update(g_init=m, e_init=n_ + e)
            s["p"].update(m=m, e=e, n=n_)
        ports = [(q, w) for q, w in ins if not q.endswith("_init")]
        if d == "cordic":
            L, t = p["FRAC"] + 2, 1 << p["FRAC"]
            while True:
                v, w = r.uniform(-1, 1), r.uniform(-1, 1)
                if v * v + w * w < .9:
                    break
            z = r.choice([r.uniform(-1.55, 1.55), r.uniform(-.01, .01)])
            s["ini"].update(g_init=[(int(q * t) >> i) & 1 for q in (w, v) for i in range(L)], e_init=[(int(z * t) >> i) & 1 for i in range(L)])
        s["x"] = stimuli(r, d, p, ports, cc)
        cases.append(s)
    d = os.path.join(ctx.work, "lib")
    os.mkdir(d)

    def observe(S, tag):
        dd = os.path.join(d, tag)
        os.mkdir(dd)
        jobs = []
        res = T.translate(ctx, b, [(s["n"], NL.verilog(s["n"], r)) for s in S], dd)
        for k, (s, (rec, c, m)) in enumerate(zip(S, res)):
            own = {q for q, _ in s["ins"] if q in NL.PORTS}
            x = dict(pinit=s["ini"].get("p_init", []), ginit=s["ini"].get("g_init", []), einit=s["ini"].get("e_init", []), pin=[], gin=[], ein=[])
            for v in s["x"]:
                x["pin"] += v.get("p_input", [])
                x["ein"] += v.get("e_input", []) if "e_input" in own else []
                x["gin"] += v.get("g_input", []) if "g_input" in own else [z for q, _ in s["ins"] if q not in own for z in v[q]]
            j = gen.job(dict(x=x, cc=s["cc"], mask=[], period=0, mode="separated", noot=True, low=False), os.path.join(dd, "n%d.scd" % k))
            j.update(kind="fn", fn="plain")
            jobs.append(j)
        out = []
        for s, (rec, c, m), q in zip(S, res, ctx.run(b, jobs)):
            if rec["rc"][0] in (-90, -91) or q["rc"][0] in (-90, -91):
                out.append(None)
            elif outcome(rec) or rec["rc"][0] != 0 or c is None:
                out.append("is refused by the translator")
            elif outcome(q) or q["rc"][0] != 0:
                out.append("cannot be evaluated: %s" % (outcome(q) or q["rc"][0]))
            else:
                w = sum(x for _, x in s["outs"])
                l = [int(x or "0", 16) for x in q["out"][0].strip().split("\n")]
                out.append([[(v >> i) & 1 for i in range(w)] for v in l] if len(l) == s["cc"] else "has %d lines of output" % len(l))
        return out

    def judge(S, O, tag):
        """What is wrong with each of them."""
        why = [o if isinstance(o, str) else None for o in O]
        for m, invs, idx in (("MCLibrary", INVS, [k for k, o in enumerate(O) if isinstance(o, list) and S[k]["d"] not in CIPHERS]),
                             ("MCCipher", "Judged Width Blocks Standard", [k for k, o in enumerate(O) if isinstance(o, list) and S[k]["d"] in CIPHERS])):
            if not idx:
                continue
            f = os.path.join(ctx.work, "%s%s.ndjson" % (m, tag))
            open(f, "w").write("\n".join(json.dumps(dict(d=S[k]["d"], p=S[k]["p"], ini=S[k]["ini"], x=S[k]["x"], y=O[k])) for k in idx) + "\n")
            t = ctx.tlc(m, "SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % invs, dict(SESSIONS=f))
            for l in sorted(t.lines, key=lambda l: -l["k"]):
                k = idx[l["sid"] - 1]
                x = S[k]["x"][:l["k"]] if len(str(S[k]["x"])) < 1500 else S[k]["x"][l["k"] - 1]
                why[k] = "cycle %d of %s: %s instead of %s" % (l["k"], json.dumps(x)[:1500], str(O[k][l["k"] - 1])[:2000], ("the rotated point of %s" % S[k]["ini"] if S[k]["d"] == "cordic" else str(l["out"])[:2000] if l["out"] else "what the property names"))
        return why

    O = observe(cases, "a")
    bad = [k for k, w in enumerate(judge(cases, O, "a")) if w]
    for o, s in zip(O, cases):
        ctx.traces += 1
        ctx.note("designs" if o is not None else "interfaces_gone")
        ctx.note("cycles", s["cc"])
    if bad:                                     # once more, to be sure
        again = [cases[k] for k in bad[:40]]
        for s, w in zip(again, judge(again, observe(again, "b"), "b")):
            if w:
                ctx.violation("%s %s %s" % (s["d"], {k: v for k, v in s["p"].items() if k != "none"}, w), dict(design=s["d"], p=s["p"], x=s["x"][:50], why=w))
    ctx.sample(dict(design=cases[0]["d"], p=cases[0]["p"], x=cases[0]["x"][0], y=O[0][0] if isinstance(O[0], list) else O[0]))
