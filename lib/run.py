"""Runs batches of jobs through the harness and returns their records."""
import json, os, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor


class HarnessError(Exception):
    pass


def _line(job):
    for k, v in job.items():
        assert "\t" not in str(v) and "\n" not in str(v)
    return "\t".join("%s=%s" % (k, v) for k, v in job.items())


HUNG = 0            # jobs that hung although alone and with their whole limit


def run_jobs(bdir, jobs, work, shards=8, env=None, timeout=840):
    """jobs: list of dicts (id is assigned here). Returns the list of records in order."""
    global HUNG
    for i, j in enumerate(jobs):
        j["id"] = i
        if HUNG >= 2:
            j["limit"] = min(int(j.get("limit", 60)), 10)
    shards = max(1, min(shards, len(jobs)))
    parts = [jobs[s::shards] for s in range(shards)]
    e = dict(os.environ)
    e.pop("MALLOC_PERTURB_", None)
    if env:
        e.update(env)

    def one(part):
        d = tempfile.mkdtemp(prefix="jobs-", dir=work)
        jf, of = os.path.join(d, "jobs"), os.path.join(d, "out")
        with open(jf, "w") as f:
            f.write("\n".join(_line(j) for j in part) + "\n")
        try:
            p = subprocess.run([os.path.join(bdir, "runner"), jf, of], cwd=d, env=e, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise HarnessError("runner timed out")
        if p.returncode:
            raise HarnessError("runner exit %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-500:]))
        rs = [json.loads(x) for x in open(of)]
        if len(rs) != len(part):
            raise HarnessError("runner wrote %d of %d records" % (len(rs), len(part)))
        return rs

    with ThreadPoolExecutor(shards) as ex:
        rs = [r for part in ex.map(one, parts) for r in part]
    rs.sort(key=lambda r: int(r["id"]))
    if len(rs) == 1 and rs[0]["hang"]:
        HUNG += 1
    return rs
