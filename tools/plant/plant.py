#!/usr/bin/env python3
"""plant.py ID [ID...]: checks /verif/seeded/ID in a scratch copy: applies, builds, stable tests pass, demo 0 without / non-zero with.
plant.py new ID PROP: makes patch.diff from the scratch copy's changes."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
R = "/tmp/plant/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build():
    if not os.path.exists(R + "/_build/build.ninja"):
        sh("cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DENABLE_LOG=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '-DCMAKE_CXX_FLAGS_RELEASE=-march=x86-64-v2 -maes -mpclmul'" % (R, R))
    r = sh("ninja -C %s/_build -j8" % R)
    if r.returncode:
        print(r.stdout[-1500:])
    return r.returncode == 0


def tests():
    b = R + "/_build"
    sh("ctest --test-dir %s -j1 --timeout 120 --test-output-size-passed 50000000 --test-output-size-failed 50000000 --output-junit %s/ctest.xml; python3 /opt/vp/collect.py %s %s/o.json" % (b, b, b, b))
    got = set(json.load(open(b + "/o.json"))["passed"])
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)


def demo(i):
    r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=R, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def reset():
    if not os.path.exists(R):
        sh("mkdir -p /tmp/plant; git clone -q /repo %s" % R)
    sh("git -C %s checkout -q -- .; git -C %s pull -q" % (R, R))


def verify(ids):
    reset()
    build()
    for i in ids:
        sh("git -C %s checkout -q -- ." % R)
        build()
        d0 = demo(i)
        a = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, i))
        ok = a.returncode == 0 and build()
        t = tests() if ok else None
        d1 = demo(i)
        good = ok and not t and d0[0] == 0 and d1[0] != 0
        print(i, "GOOD" if good else "BAD", dict(apply=a.returncode, broken_tests=t, clean=d0, planted=d1), flush=True)
    sh("git -C %s checkout -q -- ." % R)


if __name__ == "__main__":
    verify(sys.argv[1:])
