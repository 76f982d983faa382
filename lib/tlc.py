"""Runs TLC on the specifications in /verif/spec and collects what it prints."""
import json, os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC could not decide (parse error, crash, out of time)."""


class ModelViolation(Exception):
    """TLC found a state or behaviour of the specification that breaks a property."""


class Result:
    def __init__(self):
        self.states = self.distinct = 0
        self.lines = []
        self.violated = None
        self.text = ""
        self.coverage = {}


def run(module, cfg, work, env=None, workers=8, mem="6g", timeout=800, extra=(), allow_violation=False, simulate=None):
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cf = os.path.join(d, module + ".cfg")
    open(cf, "w").write(cfg)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config", cf]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(d, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC timed out on " + module)
    out = p.stdout.decode(errors="replace")
    r = Result()
    r.text = out
    for line in out.splitlines():
        if line.startswith('"@@'):
            r.lines.append(json.loads(json.loads(line)[2:]))
    m = re.findall(r"([\d,]+) states generated,? \(?([\d,]*)", out)
    m2 = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m2:
        r.states, r.distinct = (int(x.replace(",", "")) for x in m2[-1])
    else:
        m3 = re.findall(r"([\d,]+) states checked", out) or re.findall(r"states generated = ([\d,]+)", out)
        if m3:
            r.states = r.distinct = int(m3[-1].replace(",", ""))
    v = re.search(r"Error: (Invariant \S+ is violated|Action property \S+ .*violated|Temporal properties were violated|Deadlock reached|"
                  r"Assumption .* is false|The postcondition \S+ is false|Property \S+ is violated.*)", out)
    if v:
        r.violated = v.group(1)
    elif p.returncode != 0:
        i = out.find("Error:")
        raise TLCError("TLC exit %d on %s: %s" % (p.returncode, module, out[max(0, i - 1500):][:3000] if i >= 0 else out[-3000:]))
    if r.violated and not allow_violation:
        out = "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))
        i = out.find("Error:")
        raise ModelViolation("%s: %s\n%s" % (module, r.violated, out[i:i + 2500]))
    shutil.rmtree(d, ignore_errors=True)
    return r
