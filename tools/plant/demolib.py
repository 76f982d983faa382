"""Helpers of the demonstrations: run the built commands and compare with an independent evaluation."""
import os, random, select, shutil, socket, subprocess, sys, tempfile, threading, time

B = os.path.join(os.getcwd(), "_build")
GC = os.path.join(B, "garbled_circuit", "TinyGarble")
PLAIN = os.path.join(B, "scd", "SCD_Evaluator_Main")
V2SCD = os.path.join(B, "scd", "V2SCD_Main")
CODE = {"AND": 8, "ANDN": 4, "NAND": 7, "NANDN": 11, "OR": 14, "ORN": 13, "NOR": 1, "NORN": 2, "XOR": 6, "XNOR": 9, "NOT": 12}
FN = {"AND": lambda x, y: x & y, "ANDN": lambda x, y: x & (1 - y), "NAND": lambda x, y: 1 - (x & y), "NANDN": lambda x, y: 1 - (x & (1 - y)),
      "OR": lambda x, y: x | y, "ORN": lambda x, y: x | (1 - y), "NOR": lambda x, y: 1 - (x | y), "NORN": lambda x, y: 1 - (x | (1 - y)),
      "XOR": lambda x, y: x ^ y, "XNOR": lambda x, y: 1 - (x ^ y), "NOT": lambda x, y: 1 - x}
W = tempfile.mkdtemp(prefix="demo-")


def done(ok, why=""):
    shutil.rmtree(W, ignore_errors=True)
    if not ok:
        print("FAILS:", why)
    os._exit(0 if ok else 1)


def scd(pi=0, gi=0, ei=0, px=0, gx=0, ex=0, gates=(), D=(), I=(), out=(), term=0):
    """gates: (type, a, b); the wires are numbered init, inputs, flip-flops, gates; -2 and -3 are 0 and 1"""
    c = dict(pi=pi, gi=gi, ei=ei, px=px, gx=gx, ex=ex, gates=list(gates), D=list(D), I=list(I), out=list(out), term=term)
    rows = [[pi, gi, ei, px, gx, ex, len(D), len(out), term, len(gates)], [g[1] for g in gates], [g[2] for g in gates], [CODE[g[0]] for g in gates], out, D, I]
    c["path"] = os.path.join(W, "c%d.scd" % random.getrandbits(40))
    open(c["path"], "w").write("\n".join(" ".join(map(str, r)) for r in rows) + "\n")
    lo = pi + gi + ei + px + gx + ex
    open(c["path"] + ".map", "w").write("".join("n%d %d\n" % (i, i) for i in range(lo, lo + len(D) + len(gates))) + "terminate %d\n" % term)
    return c


def bit(n, i):
    return n >> i & 1


def evaluate(c, cc=1, period=0, pinit=0, ginit=0, einit=0, pin=0, gin=0, ein=0):
    """the outputs of every executed cycle, as a list of lists of bits"""
    init = [bit(pinit, i) for i in range(c["pi"])] + [bit(ginit, i) for i in range(c["gi"])] + [bit(einit, i) for i in range(c["ei"])]
    run, q = [], [{-2: 0, -3: 1}.get(i, init[i] if i >= 0 else 0) for i in c["I"]]
    for t in range(cc):
        w = init + [bit(n, t * k + i) for n, k in ((pin, c["px"]), (gin, c["gx"]), (ein, c["ex"])) for i in range(k)] + q
        at = lambda i: {-2: 0, -3: 1}.get(i, w[i] if i >= 0 else 0)
        for g, a, b in c["gates"]:
            w.append(FN[g](at(a), at(b)))
        run.append([w[o] for o in c["out"]])
        q = [at(d) for d in c["D"]]
        if period and t % period == 0 and w[c["term"]]:
            break
    return run


def number(run):
    n, k = 0, 0
    for o in run:
        for b in o:
            n |= b << k
            k += 1
    return n


def port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def listening(p):
    return any(l.split()[1].endswith(":%04X" % p) and l.split()[3] == "0A" for l in open("/proc/net/tcp").read().splitlines()[1:])


def start(exe, args):
    d = tempfile.mkdtemp(dir=W)
    return subprocess.Popen([os.path.join(d, "x")] + args, executable=exe, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)


def end(p, limit=40):
    try:
        return p.communicate(timeout=limit)[0].decode(), p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return "", "no end"


def relay(src, dst, log, cut=None, tiny=False):
    n = 0
    try:
        while True:
            d = src.recv(1 if tiny else 65536)
            if not d:
                break
            if cut is not None and n + len(d) >= cut:
                dst.sendall(d[:cut - n])
                break
            n += len(d)
            log += d
            dst.sendall(d)
    except OSError:
        pass
    for s in ((src, dst) if cut is not None else (dst,)):
        try:
            s.shutdown(socket.SHUT_RDWR if cut is not None else socket.SHUT_WR)
        except OSError:
            pass


def session(c, a=(), b=(), both=(), cutA=None, cutB=None, tiny=False, limit=40):
    """The garbler and evaluator commands over a recording relay.
    cutA (cutB): the connection breaks after this many bytes from the garbler (evaluator)"""
    pa, pb = port(), port()
    A = start(GC, ["-a", "-p", str(pa), "-i", c["path"]] + list(both) + list(a))
    t = time.time()
    while not listening(pa) and A.poll() is None and time.time() - t < 10:
        time.sleep(.01)
    l = socket.socket()
    l.bind(("127.0.0.1", pb))
    l.listen(1)
    Bp = start(GC, ["-b", "-p", str(pb), "-s", "127.0.0.1", "-i", c["path"]] + list(both) + list(b))
    la, lb = bytearray(), bytearray()
    def go():
        try:
            l.settimeout(10)
            sb, _ = l.accept()
            sa = socket.create_connection(("127.0.0.1", pa))
            for s in (sa, sb):
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            t1 = threading.Thread(target=relay, args=(sa, sb, la, cutA, tiny), daemon=True)
            t2 = threading.Thread(target=relay, args=(sb, sa, lb, cutB, tiny), daemon=True)
            t1.start(); t2.start(); t1.join(); t2.join()
            sa.close(); sb.close()
        except OSError:
            pass
    threading.Thread(target=go, daemon=True).start()
    outB, rcB = end(Bp, limit)
    outA, rcA = end(A, 8)
    return dict(a=outA.split(), b=outB.split(), rcA=rcA, rcB=rcB, fromA=bytes(la), fromB=bytes(lb))


def hexes(l):
    return [int(x, 16) for x in l]


def single(exe, args, limit=40):
    o, rc = end(start(exe, args), limit)
    return o, rc


def cpp(src, *units, flags=()):
    """Compiles a program beside the demonstration with sources of the repository"""
    o = os.path.join(W, "prog")
    subprocess.run(["g++", "-std=c++14", "-O1", "-w", "-msse4.2", "-maes", "-mpclmul", "-I.", "-I_build", os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), src)] + list(units) + list(flags) + ["-o", o, "-lssl", "-lcrypto", "-lboost_program_options", "-lpthread"], check=True)
    return o
