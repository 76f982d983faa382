"""C24: no execution touches memory that is not its own.

The behaviours the other properties' specifications generate - sessions, broken connections, refused
requests, transfers, translations, histories - are replayed with every memory access monitored, and
with memory that starts with different contents; the outcome may not depend on those."""
import glob, importlib, multiprocessing, os, re, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor
import build, ctx as C, run, tlc

MODULES = ["c01", "c06", "c10", "c11", "c12", "c14", "c15", "c16", "c18", "c19", "c20", "c21", "c22", "c23", "c13", "c09"]
# what is not memory of one's own; running out of memory or of (widened) stack frames is something else
BAD = re.compile(r"ERROR: AddressSanitizer: ((?:heap|stack|global|dynamic-stack|container|intra-object)[-\w]*(?:overflow|underflow|use-after[-\w]*)|"
                 r"heap-use-after-free|use-after-poison|stack-use-after-\w+|attempting double-free|attempting free|bad-free|alloc-dealloc-mismatch|"
                 r"negative-size-param|[-\w]*-param-overlap|calloc-overflow|SEGV|BUS|ILL|FPE|unknown-crash|initialization-order-fiasco|invalid-pointer-pair)")
REAL = build.build


def told(j):
    d = {k: str(v)[:3000] for k, v in j.items()}
    for k in ("scd", "b.scd", "a.scd"):
        if k in j and os.path.exists(str(j[k])):
            d["text of " + k] = open(str(j[k]), errors="replace").read()[:5000]
    return d


ABSENT = dict(id="", rc=[-90, -90], out=["", ""], crash=[0, 0], hang=None, deadlock=0, eof=0, overflow=0, w=[0, 0], r=[0, 0], ab="", ba="",
              ops=[], keys=["", ""], draws=["", ""])


def reports(d):
    out = []
    for f in glob.glob(os.path.join(d, "asan.*")):
        try:
            t = open(f, errors="replace").read()
            os.unlink(f)
        except OSError:
            continue
        m = BAD.search(t)
        if m and "ERROR: AddressSanitizer: stack-overflow" not in t:
            out.append((m.group(1), t[:3000]))
    return out


class Sub(C.Ctx):
    def __init__(self, parent, mod, share):
        super().__init__(mod.upper(), "quick", parent.seed + 1000)
        self.mod, self.share, self.most = mod, share, 1 if share < 1 else 20
        self.faults, self.jobs, self.compared, self.skipped = [], 0, 0, 0
        os.environ["ASAN_OPTIONS"] = ("abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:"
                                      "log_path=%s:symbolize=0:malloc_fill_byte=190:max_malloc_fill_size=4096" % os.path.join(self.work, "asan"))

    def scale(self, quick, thorough):
        return max(1, int(quick * self.share)) if isinstance(quick, int) and quick > 8 else quick

    def tlc(self, module, cfg, env=None, **kw):
        if env is None and module in ("OT", "OTExt", "Encoding") and "Emit" not in cfg:
            return tlc.Result()                 # nothing is replayed from these
        return super().tlc(module, cfg, env=env, **kw)

    def run(self, bdir, jobs, **kw):
        jobs, everything = [], jobs
        for j in everything:
            n = sum(len(str(v)) for v in j.values())
            if len(jobs) < 500 * self.most and not (self.mod == "c18" and n > 20000 * self.most):
                jobs.append(j)
        got = {id(j): r for j, r in zip(jobs, run.run_jobs(bdir, jobs, self.work, shards=3, **kw))} if jobs else {}
        recs = [got[id(j)] for j in jobs]
        self.jobs += len(jobs)
        left = reports(self.work)
        bad = [i for i, r in enumerate(recs) if any(r["crash"])]
        for i in bad[:4]:
            if len(self.faults) >= 3:
                break
            r = run.run_jobs(bdir, [dict(jobs[i])], self.work, **kw)[0]
            rep = reports(self.work)
            if rep:
                self.faults.append(("%s in a %s job" % (rep[0][0], jobs[i].get("fn") or jobs[i].get("kind")),
                                    dict(module=self.mod, job=told(jobs[i]), report=rep[0][1], record=r)))
        self.start(jobs, recs, **kw)
        return [got.get(id(j)) or dict(ABSENT) for j in everything]

    def start(self, jobs, recs, **kw):
        """The same jobs, with memory that starts as 0x55.. or 0xaa..: the same results."""
        ks = [i for i, r in enumerate(recs) if "cut_dir" not in jobs[i] and "cap" not in jobs[i] and not any(r["crash"]) and not r["hang"]]
        ks = ks[:150] if len(ks) <= 150 else self.rng.sample(ks, 150)
        if not ks or self.mod in ("c09", "c13", "c20", "c21", "c22"):      # (their jobs write files that are read afterwards)
            return
        # the jobs of the translator and the evaluator write beside their input: same text, same names

        def both(ks):
            return [run.run_jobs(REAL("pattern"), [dict(jobs[i]) for i in ks], self.work, shards=3, env=dict(MALLOC_PERTURB_="85"), **kw),
                    run.run_jobs(REAL("log"), [dict(jobs[i]) for i in ks], self.work, shards=3, env=dict(MALLOC_PERTURB_="170"), **kw)]

        def same(a, b):
            return a["rc"] == b["rc"] and a["out"] == b["out"] and a["crash"] == b["crash"]
        x, y = both(ks)
        self.compared += len(ks)
        for i, p, q in zip(ks, x, y):
            if same(p, q) or p["hang"] or q["hang"]:
                continue
            again = [both([i]) for _ in range(3)]
            ps, qs = [p] + [a[0] for a, _ in again], [q] + [b[0] for _, b in again]
            # each of the two is always the same with itself, and never with the other
            if all(same(ps[0], z) for z in ps) and all(same(qs[0], z) for z in qs) and len(self.faults) < 3:
                self.faults.append(("the result depends on memory nobody wrote, in a %s job" % (jobs[i].get("fn") or jobs[i].get("kind")),
                                    dict(module=self.mod, job=told(jobs[i]), one=p, other=q)))

    def violation(self, desc, data, key=None):
        self.skipped += 1                       # that is for the property it belongs to


def sub(args):
    parent_seed, mod, share = args

    class P:
        seed = parent_seed
    build.build = lambda variant="log", tools=False, **kw: REAL("asan", tools=tools)
    s = Sub(P, mod, share)
    t = time.time()
    err = None
    try:
        importlib.import_module("props." + mod).check(s)
    except BaseException:
        err = traceback.format_exc()[-2000:]
    for kind, t_ in reports(s.work):            # of the command-line tools
        if mod in ("c20", "c22") and len(s.faults) < 3:
            s.faults.append(("%s in a command" % kind, dict(module=mod, report=t_)))
    s.close()
    return dict(mod=mod, states=s.states, transitions=s.transitions, models=s.models, jobs=s.jobs, compared=s.compared, faults=s.faults,
                err=err, secs=round(time.time() - t, 1), skipped=s.skipped, sample=s.samples[:1])


def check(ctx):
    for v in ("asan", "pattern", "log"):
        REAL(v)
    REAL("asan", tools=True)
    share = ctx.scale(.15, 1.0)
    with ProcessPoolExecutor(4, mp_context=multiprocessing.get_context("fork"), max_tasks_per_child=None) as pool:
        got = list(pool.map(sub, [(ctx.seed, m, share) for m in MODULES]))
    for g in got:
        ctx.states += g["states"]
        ctx.transitions += g["transitions"]
        ctx.models += g["models"]
        ctx.traces += g["jobs"]
        ctx.note("compared_with_other_memory", g["compared"])
        ctx.notes.setdefault("parts", {})[g["mod"]] = [g["jobs"], g["secs"], g["err"] and g["err"].strip().split("\n")[-1]]
        for desc, data in g["faults"]:
            ctx.violation(desc, data)
        for x in g["sample"]:
            ctx.sample(x)
    if sum(1 for g in got if g["err"]) > len(got) // 2:
        raise RuntimeError("\n".join(g["err"] for g in got if g["err"]))
