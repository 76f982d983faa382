"""One check run: seed, tier, scratch directory, findings, evidence."""
import json, os, random, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build, run, tlc

VERIF = build.VERIF
LEVELS = {}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d/%s" % (prop, seed, tier))
        self.work = tempfile.mkdtemp(prefix="tg-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.models = []
        self.samples = []
        self.notes = {}
        self.violations = []
        self.known = {}
        self.level = "model_checking"
        f = os.path.join(VERIF, "known_findings.json")
        self.findings = [k for k in json.load(open(f))["findings"] if k["property"] == prop] if os.path.exists(f) else []

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- specification side
    def tlc(self, module, cfg, env=None, **kw):
        r = tlc.run(module, cfg, self.work, env=env, **kw)
        self.count(module, r)
        return r

    def count(self, module, r):
        self.states += r.distinct
        self.transitions += r.states
        self.models.append(module)

    # ---- implementation side
    def run(self, bdir, jobs, **kw):
        return run.run_jobs(bdir, jobs, self.work, **kw)

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def finding(self, key, desc):
        """True when this failing case is a listed known finding."""
        for k in self.findings:
            if k["key"] == key:
                self.known[key] = k["what"]
                return True
        return False

    def violation(self, desc, data, key=None):
        if key is not None and self.finding(key, desc):
            return
        if len(self.violations) < 20:
            self.violations.append((desc, data))

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations),
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples or ["none"], models=sorted(set(self.models)), **self.notes))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        for k, w in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        for i, (desc, data) in enumerate(self.violations[:5]):
            p = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.prop, i))
            json.dump(dict(property=self.prop, what=desc, tier=self.tier, seed=self.seed, data=data), open(p, "w"), indent=1, default=repr)
            print("%s: %s" % (self.prop, desc))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        self.close()
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def parallel(fs, n=8):
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(f) for f in fs]]
