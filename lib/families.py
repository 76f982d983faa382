"""Families of sessions the checks explore."""
import gen
from gen import circuit, TYPES, ZERO, ONE


def sess(c, x, cc=1, period=0, mask=(), low=False, noot=True, mode="consecutive"):
    return dict(c=c, x=x, cc=cc, period=period, mask=list(mask), low=low, noot=noot, mode=mode)


def modes(i):
    """Rotates through memory mode, oblivious transfer and output mode."""
    return dict(low=i % 2 == 1, noot=i // 2 % 3 != 0, mode=["consecutive", "separated", "last"][i // 6 % 3])


def matrix(rng, cycles=6, per=60):
    """Every gate type on every pair of operand kinds."""
    out = []
    for i, c in enumerate(gen.gate_matrix(per)):
        k = rng.randrange(36)
        out.append(sess(c, gen.rand_inputs(rng, c, cycles, extra=False), cycles, 0, gen.rand_bits(rng, len(c["out"])), **modes(i + k)))
    return out


def pairs(rng, share=1.0, per=90, cycles=3):
    """Every gate type over every pair of the outcomes of a first gate and the inputs p, g, e."""
    base = [0, 1, 2]
    firsts = [(t, a, b) for t in TYPES if t != "NOT" for a in base for b in base] + [("NOT", a, -1) for a in base]
    combos = [(f, t, o, side) for f in firsts for t in TYPES for o in base for side in (0, 1) if t != "NOT" or (o == 0 and side == 0)]
    rng.shuffle(combos)
    combos = combos[:int(len(combos) * share)]
    out = []
    for k in range(0, len(combos), per):
        gates, outs = [], []
        for f, t, o, side in combos[k:k + per]:
            gates.append(f)
            w = 3 + len(gates) - 1
            gates.append((t, w, -1) if t == "NOT" else (t, w, o) if side == 0 else (t, o, w))
            outs.append(3 + len(gates) - 1)
        c = circuit(px=1, gx=1, ex=1, gates=gates, out=outs)
        out.append(sess(c, gen.rand_inputs(rng, c, cycles, extra=False), cycles, 0, gen.rand_bits(rng, len(outs)), **modes(rng.randrange(36))))
    return out


def chains(rng, n):
    """Flip-flop structures: shift registers, holds, swaps, toggles, every kind of initial value and next state."""
    out = []
    for i in range(n):
        nd = rng.randint(1, 6)
        pi, gi, ei = rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 2)
        px, gx, ex = rng.randint(0, 1), rng.randint(0, 2), rng.randint(0, 2)
        if gi + ei + gx + ex == 0:
            gi = 1
        lo = pi + gi + ei + px + gx + ex
        base = pi + gi + ei
        gates = []
        for k in range(rng.randint(1, 5)):
            t = rng.choice(["NOT", "XOR", "AND", "OR", "XNOR", "ANDN"])
            hi = lo + nd + k
            a = rng.randrange(base, hi)
            gates.append((t, a, -1 if t == "NOT" else rng.randrange(base, hi)))
        hi = lo + nd + len(gates)
        D = []
        for d in range(nd):
            r = rng.random()
            D.append(lo + d if r < .2 else lo + (d + 1) % nd if r < .45 else lo + rng.randrange(nd) if r < .55
                     else rng.randrange(lo + nd, hi) if r < .85 else rng.randrange(base, lo) if lo > base and r < .93 else rng.choice([ZERO, ONE]))
        I = [rng.choice([ZERO, ONE] + list(range(base)) * 2) for _ in range(nd)]
        outs = [lo + d for d in range(nd)] + [rng.randrange(lo + nd, hi)]
        c = circuit(pi, gi, ei, px, gx, ex, gates, D, I, outs, rng.randrange(max(1, base), hi) if rng.random() < .3 else 0)
        cc = rng.randint(2, 7)
        out.append(sess(c, gen.rand_inputs(rng, c, cc), cc, rng.choice([0, 1, 2]) if c["term"] else 0, gen.rand_bits(rng, len(outs)), **modes(rng.randrange(36))))
    return out


def randoms(rng, n, **kw):
    return [gen.rand_session(rng, **kw) for _ in range(n)]


def wide(rng, kind, i=0):
    """Sizes beyond the usual word, table and transfer boundaries; results-level prediction only."""
    m = modes(rng.randrange(36))
    if kind == "inputs":        # wire numbers above 65535 and many input bits
        gx, px = 34000 + rng.randrange(200), 33000
        hi = gx + px + 3
        gates = [("AND", px + gx - 1, hi - 1), ("XOR", px + 5, hi - 2), ("OR", hi, hi + 1), ("NAND", px + 1, hi + 2), ("NOT", hi + 3, -1)]
        c = circuit(px=px, gx=gx, ex=3, gates=gates, out=[hi + k for k in range(5)] + [px + gx - 2, hi - 3])
        s = sess(c, gen.rand_inputs(rng, c, 1, extra=False), 1, 0, gen.rand_bits(rng, 7), **dict(m, noot=True, low=False))
    elif kind == "cycles":      # cycle numbers above 255
        c = circuit(px=1, gx=1, ex=1, gates=[("XOR", 0, 3), ("AND", 1, 2), ("XOR", 4, 5), ("ORN", 3, 6)], D=[6], I=[ONE], out=[6, 7, 3])
        cc = 300 + rng.randrange(20)
        s = sess(c, gen.rand_inputs(rng, c, cc, extra=False), cc, 0, gen.rand_bits(rng, 3), **dict(m, noot=m["noot"] or m["low"] is True))
    elif kind == "gates":       # gate numbers above 255 / 1023, tables of all types
        ng = 1100 + rng.randrange(60)
        gates = []
        for k in range(ng):
            hi = 12 + k
            t = rng.choice(TYPES)
            a = rng.randrange(max(0, hi - 40), hi)
            gates.append((t, a, -1 if t == "NOT" else rng.randrange(max(0, hi - 40), hi)))
        c = circuit(px=4, gx=4, ex=4, gates=gates, out=[12 + k for k in range(ng - 120, ng)])
        s = sess(c, gen.rand_inputs(rng, c, 2, extra=False), 2, 0, gen.rand_bits(rng, 120), **m)
    elif kind == "outputs":     # many outputs: shares beyond a machine word, across cycles
        c = circuit(px=70, gx=70, ex=70, gates=[("XOR", k, 70 + k) for k in range(70)] + [("AND", 70 + k, 140 + k) for k in range(70)],
                    out=list(range(210, 350)))
        s = sess(c, gen.rand_inputs(rng, c, 3, extra=False), 3, 0, gen.rand_bits(rng, 140), **dict(m, noot=True))
    elif kind == "otext":       # more evaluator bits than the base transfer takes
        n = 129 + rng.randrange(60)
        c = circuit(gx=n, ex=n, gates=[("XOR", k, n + k) for k in range(n)] + [("AND", k, n + k) for k in range(n)], out=list(range(2 * n, 4 * n)))
        s = sess(c, gen.rand_inputs(rng, c, 1, extra=False), 1, 0, gen.rand_bits(rng, 2 * n), **dict(m, noot=False, low=False))
    elif kind == "otmix":       # evaluator init and input bits together beyond the base transfer, several cycles
        c = circuit(gi=3, ei=40, gx=3, ex=35, gates=[("XOR", 46 + k, 81 + k % 43) for k in range(0, 38)] + [("AND", 84 + k, 124 + k) for k in range(35)],
                    D=[124 + k for k in range(43)], I=list(range(43)), out=list(range(124, 197)))
        s = sess(c, gen.rand_inputs(rng, c, 3, extra=False), 3, 0, gen.rand_bits(rng, 73), **dict(m, noot=False))
    return s


def thresholds(rng):
    """Numbers of evaluator bits just below, at and above the limit of the base transfer (128), in every transfer there is."""
    def straight(ei, ex):
        n = ei + ex + 1
        lo = n + ei                       # inputs, then the flip-flops
        gates = [("XOR", ei + 1 + k if k < ex else n + k - ex, ei) for k in range(ex + ei)]
        hold = [lo + ex + k for k in range(ei)]
        return circuit(ei=ei, gx=1, ex=ex, gates=gates, D=hold, I=list(range(ei)), out=[lo + k for k in range(ex + ei)])
    out = []
    for n in (127, 128, 129):
        for ei, ex, cc, low in ((n, 1, 2, True), (1, n, 2, True), (n - 1, 1, 1, False), (n - 2 * 31, 31, 2, False)):
            c = straight(ei, ex)
            out.append(sess(c, gen.rand_inputs(rng, c, cc, extra=False), cc, 0, gen.rand_bits(rng, len(c["out"])), low=low, noot=False,
                            mode=rng.choice(["consecutive", "separated", "last"])))
    return out


WIDE = ["inputs", "cycles", "gates", "outputs", "otext", "otmix"]


def stops(rng, n):
    """Terminate signals that are public, secret, or become known, rising in different cycles and maybe falling again."""
    out = []
    for i in range(n):
        L = rng.randint(1, 6)
        pi, gi, ei = rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1)
        px, gx, ex = rng.randint(0, 1), rng.randint(0, 1), 1
        base = pi + gi + ei
        lo = base + px + gx + ex
        nd = L + 1
        # flip-flops 0..L-1: a marker moving down; flip-flop L: a free bit
        glo = lo + nd
        gates = []

        def gate(t, a, b=-1):
            gates.append((t, a, b))
            return glo + len(gates) - 1
        mix = rng.randrange(base, lo)
        end = lo + L - 1
        kind = rng.randrange(8)
        free = gate(rng.choice(["XOR", "AND", "OR", "NAND"]), lo + L, mix)
        if kind == 0:
            term = end                                         # flip-flop itself
        elif kind == 1:
            term = gate("XOR", gate("XOR", end, mix), mix)      # secret or public, same value
        elif kind == 2:
            term = gate("AND", end, gate("OR", mix, gate("NOT", mix)))
        elif kind == 3:
            term = gate("AND", end, mix)
        elif kind == 4:
            term = gate("OR", end, gate("AND", mix, free))
        elif kind == 5:
            term = gate("NOT", gate("NAND", end, free))
        elif kind == 6:
            term = gate("XNOR", gate("NOT", end), rng.choice([mix, ZERO, ONE]))
        else:
            term = rng.randrange(max(1, base), lo) if lo > max(1, base) else end
        D = [lo + L if rng.random() < .3 else ZERO] + [lo + k for k in range(L - 1)] + [free]
        if L and rng.random() < .3:
            D[0] = lo + L - 1 if L else ZERO                   # the marker comes back
        I = [rng.choice([ONE, ONE] + list(range(base)))] + [ZERO] * (L - 1) + [rng.choice([ZERO, ONE] + list(range(base)))]
        outs = [free, rng.randrange(lo, glo + len(gates)), term] if term >= base else [free]
        c = circuit(pi, gi, ei, px, gx, ex, gates, D, I, outs, term)
        cc = rng.randint(1, 8)
        out.append(sess(c, gen.rand_inputs(rng, c, cc), cc, rng.choice([0, 1, 1, 1, 2, 2, 3, 4, cc, cc + 1]), gen.rand_bits(rng, 3), **modes(rng.randrange(36))))
    return out


def long_stops(rng, n):
    """Many cycles, stopping late; light predictions."""
    out = []
    for i in range(n):
        k = 8                       # 8-bit counter counting with a public or secret one
        secret = i % 2
        c0 = 2                      # gx, ex
        lo = 2
        glo = lo + k
        gates, D = [], []

        def gate(t, a, b=-1):
            gates.append((t, a, b))
            return glo + len(gates) - 1
        carry = None
        for j in range(k):
            q = lo + j
            if carry is None:
                D.append(gate("XOR", q, 0) if secret else gate("NOT", q))
                carry = gate("AND", q, 0) if secret else q
            else:
                D.append(gate("XOR", q, carry))
                carry = gate("AND", q, carry) if j < k - 1 else carry
        target = rng.choice([15, 16, 31, 63, 64, 100, 127, 128, 130])
        acc = None
        for j in range(k):
            bit = lo + j if target >> j & 1 else gate("NOT", lo + j)
            acc = bit if acc is None else gate("AND", acc, bit)
        x = gate("XOR", 1, lo)
        c = circuit(gx=1, ex=1, gates=gates, D=D, I=[ZERO] * k, out=[x] + [lo + j for j in range(k)], term=acc)
        cc = 140
        xs = gen.rand_inputs(rng, c, cc, extra=False)
        xs["gin"] = [1] * cc
        out.append(sess(c, xs, cc, rng.choice([1, 1, target, target + 1, 5]), gen.rand_bits(rng, 9), low=rng.random() < .5, noot=True, mode=rng.choice(["separated", "last", "consecutive"])))
    return out


def edges(rng):
    """Degenerate shapes: no gates, no flip-flops, inputs of one party only, outputs wired straight through, unused inputs."""
    out = []
    shapes = [
        circuit(gx=1, out=[0]), circuit(ex=1, out=[0]), circuit(px=1, out=[0]), circuit(px=2, gx=1, ex=1, out=[3, 2, 1, 0]),
        circuit(gi=1, D=[1], I=[0], out=[1]), circuit(ei=1, D=[1], I=[0], out=[1]), circuit(pi=1, D=[1], I=[0], out=[1]),
        circuit(gi=2, ei=2, gx=1, ex=1, D=[6, 7, 4, 5], I=[0, 1, 2, 3], out=[6, 7, 8, 9]),
        circuit(gx=1, ex=1, gates=[("NOT", 0, -1), ("NOT", 2, -1)], out=[3, 2, 1]),
        circuit(ex=5, gates=[("NOT", 2, -1)], out=[5]),
        circuit(gx=3, ex=3, out=[0, 0, 3, 3, 0]),
        circuit(gx=1, ex=1, gates=[("XOR", 0, 0), ("XNOR", 1, 1), ("AND", 2, 3)], out=[2, 3, 4]),
        circuit(px=1, gates=[("NOT", 0, -1)], D=[2], I=[ONE], out=[1, 2]),
        circuit(gx=1, ex=1, gates=[("AND", 0, 1)], D=[ONE, ZERO], I=[ZERO, ONE], out=[2, 3, 4]),
        circuit(gi=1, gx=1, ex=1, gates=[("AND", 1, 2)], out=[3]),      # initial bit nobody uses
    ]
    for c in shapes:
        for i in range(6):
            cc = [1, 1, 2, 3][i % 4]
            out.append(sess(c, gen.rand_inputs(rng, c, cc), cc, 0, gen.rand_bits(rng, len(c["out"])), low=i % 2 == 1, noot=i // 2 % 2 == 0, mode=["consecutive", "separated", "last"][i % 3]))
    return out


def needless(rng, n):
    """Gates garbled before a later one, by the labels of its operands, turns out not to need them."""
    out = []
    for i in range(n):
        gates, live = [], []
        add = lambda t, a, b: gates.append((t, a, b)) or 4 + len(gates) - 1     # 0 public, 1 garbler's, 2 evaluator's, 3 flip-flop
        for k in range(rng.randint(1, 4)):
            a, b = rng.choice([(1, 2), (2, 1), (1, 3), (3, 2)] + [(w, 2) for w in live])
            t = add(rng.choice(TYPES[:-1]), a, b)
            for d in range(rng.randint(0, 2)):
                t = add(rng.choice(TYPES[:-1]), t, rng.choice([0, 1, 2, 3]))
            r = rng.randrange(4)
            u = add("NOT", t, -1) if r == 0 else add("XOR", t, -3) if r == 1 else add("XNOR", t, -2) if r == 2 else t
            v = add(rng.choice(["AND", "XOR", "OR", "NOR", "ANDN", "XNOR", "NORN"]), t, u)
            live.append(add(rng.choice(["XOR", "OR", "AND"]), v, rng.choice([1, 2] + live)))
        c = circuit(px=1, gx=1, ex=1, gates=gates, D=[rng.choice([0, 1, live[-1]])], I=[rng.choice([-2, -3])], out=[rng.choice(live), 4 + len(gates) - 1])
        cc = rng.randint(2, 4)
        out.append(sess(c, gen.rand_inputs(rng, c, cc, extra=False), cc, 0, gen.rand_bits(rng, 2), **modes(rng.randrange(36))))
    return out
