"""Runs the real command-line tools: two processes over TCP, or one."""
import os, random, selectors, socket, subprocess, threading, time

LOCK = threading.Lock()
USED = set()


PORTS = random.SystemRandom()


def free_port():
    """Below the ports that outgoing connections get, so that none of those takes it."""
    with LOCK:
        while True:
            p = PORTS.randint(11000, 32000)
            if p in USED or p + 1 in USED:
                continue
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)     # a process just being started may still hold it
            try:
                s.bind(("0.0.0.0", p))
            except OSError:
                continue
            finally:
                s.close()
            USED.add(p)
            return p


def listening(port):
    h = ":%04X" % port
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            for l in open(f).read().splitlines()[1:]:
                c = l.split()
                if c[1].endswith(h) and c[3] == "0A":
                    return True
        except OSError:
            pass
    return False


def start(exe, name, args, cwd):
    # the log files go next to argv[0], so argv[0] is a name in the scratch directory
    return subprocess.Popen([os.path.join(cwd, name)] + args, executable=exe, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def finish(p, limit, keep=400):
    try:
        o, e = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return dict(rc=None, out=o.decode(errors="replace"), err=e.decode(errors="replace")[-keep:])
    return dict(rc=p.returncode, out=o.decode(errors="replace"), err=e.decode(errors="replace")[-keep:])


def single(exe, args, cwd, limit=30, keep=400):
    return [finish(start(exe, "tool", args, cwd), limit, keep)]


class Relay(threading.Thread):
    """Accepts one connection on its own address and passes it on, in small pieces."""

    def __init__(self, ip, port, to, seed):
        super().__init__(daemon=True)
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        for k in range(100):
            try:
                self.s.bind((ip, port))
                break
            except OSError:
                time.sleep(.02)
        self.s.listen(2)
        self.to, self.rng, self.used = to, random.Random(seed), False
        self.sent = {"A": bytearray(), "B": bytearray()}      # what each party sent

    def run(self):
        self.s.settimeout(60)
        try:
            a, _ = self.s.accept()
            self.used = True
            b = socket.create_connection(("127.0.0.1", self.to))
            for x in (a, b):
                x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            sel = selectors.DefaultSelector()
            sel.register(a, selectors.EVENT_READ, b)
            sel.register(b, selectors.EVENT_READ, a)
            while sel.get_map():
                ev = sel.select(60)
                if not ev:
                    break
                for k, _ in ev:
                    d = k.fileobj.recv(self.rng.choice([1, 3, 17, 500, 4096, 65536]))
                    if not d:
                        sel.unregister(k.fileobj)
                        try:
                            k.data.shutdown(socket.SHUT_WR)
                        except OSError:
                            pass
                    else:
                        self.sent["B" if k.fileobj is a else "A"] += d
                        k.data.sendall(d)
        except OSError:
            pass
        finally:
            self.s.close()


def session(exe, argsA, argsB, port, cwd, limit=60, relay=None, names=("alice", "bob"), keep=400):
    """Both processes; the evaluator is started when the garbler listens or has ended."""
    a = start(exe, names[0], argsA, cwd)
    t = time.time()
    while a.poll() is None and not listening(port) and time.time() - t < 20:
        time.sleep(.005)
    if relay:
        relay.start()
    b = start(exe, names[1], argsB, cwd)
    r = [None, None]
    def wait(k, p):
        r[k] = finish(p, limit, keep)
    th = threading.Thread(target=wait, args=(0, a))
    th.start()
    wait(1, b)
    killed = False
    if r[1]["rc"] != 0 and a.poll() is None:     # the evaluator is gone: the garbler has nobody to wait for
        t = time.time()
        while a.poll() is None and time.time() - t < (1 if relay is None or not relay.used else 8):
            time.sleep(.01)
        killed = a.poll() is None
        if killed:
            a.kill()
    th.join()
    if killed:
        r[0]["rc"] = "waiting"
    return r
