"""Builds the harness from /repo's working tree (never from committed objects)."""
import hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TG_REPO", "/repo")
DIRS = ["garbled_circuit", "crypto", "scd", "tcpip", "util"]
ARCH = ["-march=x86-64-v2", "-maes", "-mpclmul", "-std=c++11"]
WRAPS = ["read", "write", "recv", "send", "time", "RSA_generate_key_ex", "BN_rand"]
LIBS = ["-lboost_program_options", "-lssl", "-lcrypto", "-lrt", "-lpthread", "-ldl"]
CACHE = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def repo_files():
    fs = []
    for d in DIRS:
        for root, _, names in os.walk(os.path.join(REPO, d)):
            for n in sorted(names):
                if n.endswith((".cpp", ".cc", ".c", ".h", ".hpp", ".in", ".inc")):
                    fs.append(os.path.join(root, n))
    return sorted(fs)


def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in repo_files() + sorted(extra):
        h.update(os.path.relpath(f, REPO).encode() + b"\0" + REPO.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


GROUPS = ["hash", "gc", "ot", "otbn", "io", "scd", "util", "bn", "misc"]
MAIN = re.compile(r"^\s*int\s+main\s*\(", re.M)


def split_sources():
    lib, mains = [], []
    for f in repo_files():
        if not f.endswith((".cpp", ".cc", ".c")):
            continue
        (mains if MAIN.search(open(f, errors="replace").read()) else lib).append(f)
    return lib, mains


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def config_header(out, log, dump=False):
    src = os.path.join(REPO, "util", "tinygarble_config.h.in")
    t = open(src).read()
    t = t.replace("@PROJECT_SOURCE_DIR@", REPO).replace("@PROJECT_BINARY_DIR@", out)
    t = re.sub(r"@TinyGarble_VERSION_(MAJOR|MINOR|PATCH)@", "0", t)
    t = re.sub(r"#cmakedefine\s+ENABLE_LOG", "#define ENABLE_LOG" if log else "/* no ENABLE_LOG */", t)
    if dump:
        t = re.sub(r"#cmakedefine\s+ENABLE_DUMP", "#define ENABLE_DUMP", t)
    t = re.sub(r"#cmakedefine\s+(\w+)", r"/* no \1 */", t)
    t = re.sub(r"@[A-Z_a-z]*SOURCE_DIR@", REPO, t)
    t = re.sub(r"@[A-Z_a-z]*BINARY_DIR@", out, t)
    os.makedirs(os.path.join(out, "gen", "util"), exist_ok=True)
    open(os.path.join(out, "gen", "util", "tinygarble_config.h"), "w").write(t)


def build(variant="log", tools=False, jobs=8):
    """Returns a directory with 'runner' (and the command-line tools when tools=True).
    variant: log | nolog | dump | asan | pattern"""
    hd = os.path.join(VERIF, "harness")
    hs = [os.path.join(hd, n) for n in sorted(os.listdir(hd)) if n.endswith((".cpp", ".h"))]
    key = "%s-%s-%s" % (variant, "t" if tools else "r", tree_hash(hs + [os.path.abspath(__file__)]))
    final = os.path.join(CACHE, key)
    if os.path.exists(os.path.join(final, "ok")):
        return final
    os.makedirs(CACHE, exist_ok=True)
    old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
    for d in old[:-12]:
        shutil.rmtree(d, ignore_errors=True)
    out = tempfile.mkdtemp(prefix="b-", dir=CACHE)
    try:
        config_header(out, variant != "nolog", variant == "dump")
        flags = ARCH + ["-O1", "-g1", "-w", "-DNDEBUG", "-U_FORTIFY_SOURCE", "-I", os.path.join(out, "gen"), "-I", REPO,
                        "-I", os.path.join(VERIF, "harness")]
        link = list(LIBS)
        if variant == "asan":
            flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
            link = ["-fsanitize=address"] + link
        if variant == "pattern":                # automatic variables start with a pattern
            flags += ["-ftrivial-auto-var-init=pattern"]
        lib, mains = split_sources()
        # test-only helpers with a test suite in them stay out
        lib = [f for f in lib if not f.endswith(("_testsuit.cpp",))]
        objs = []

        stubbed = []

        def cc(src, obj, stub=False):
            try:
                run(["g++"] + flags + (["-DSTUB"] if stub else []) + ["-c", src, "-o", obj])
            except BuildError:
                if stub or not os.path.basename(src).startswith("g_") or os.path.dirname(src) != hd:
                    raise
                stubbed.append(os.path.basename(src)[2:-4])      # that interface is not there any more
                return cc(src, obj, True)
            return obj
        todo = []
        for i, f in enumerate(lib):
            o = os.path.join(out, "l%d_%s.o" % (i, os.path.basename(f).rsplit(".", 1)[0]))
            todo.append((f, o))
            objs.append(o)
        ho = []
        for n in ("vio.cpp", "runner.cpp"):
            o = os.path.join(out, "h_" + n[:-4] + ".o")
            todo.append((os.path.join(VERIF, "harness", n), o))
            ho.append(o)
        groups = {}
        for g in GROUPS:
            groups[g] = os.path.join(out, "g_" + g + ".o")
            todo.append((os.path.join(VERIF, "harness", "g_%s.cpp" % g), groups[g]))
        tm = {}
        if tools:
            for f in mains:
                b = os.path.basename(f)
                if "test" in b.lower():
                    continue
                o = os.path.join(out, "m_" + b.rsplit(".", 1)[0] + ".o")
                todo.append((f, o))
                tm[b] = o
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(lambda a: cc(*a), todo))
        wr = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]

        def link_runner():
            run(["g++"] + ho + list(groups.values()) + objs + wr + link + ["-o", os.path.join(out, "runner")])
        try:
            link_runner()
        except BuildError as e:
            missing = set(re.findall(r"g_(\w+)\.o", str(e))) & set(GROUPS) - set(stubbed)
            if not missing:
                raise
            for g in missing:
                stubbed.append(g)
                cc(os.path.join(hd, "g_%s.cpp" % g), groups[g], True)
            link_runner()
        open(os.path.join(out, "stubbed"), "w").write("\n".join(sorted(set(stubbed))))
        for b, o in tm.items():
            run(["g++", o] + objs + link + ["-o", os.path.join(out, b.rsplit(".", 1)[0])])
        for o in [x[1] for x in todo]:
            os.unlink(o)
        open(os.path.join(out, "ok"), "w").close()
        try:
            os.rename(out, final)
        except OSError:
            shutil.rmtree(out, ignore_errors=True)
        return final
    except BaseException:
        shutil.rmtree(out, ignore_errors=True)
        raise


PROGRAMS = [("-O1", "-fwrapv", "-ftrivial-auto-var-init=pattern"), ("-O1", "-fwrapv", "-fsanitize=address", "-fno-omit-frame-pointer")]


def build_programs(flags=(), jobs=8):
    """The processor's example programs of the working tree as native programs:
    (directory, {name: executable}, {name: why it could not be built})."""
    a23 = os.path.join(REPO, "a23")
    names = sorted(d for d in os.listdir(a23) if d not in ("lib", "tools", "include") and os.path.isdir(os.path.join(a23, d)))
    srcs = {n: [os.path.join(a23, n, f) for f in sorted(os.listdir(os.path.join(a23, n))) if f.endswith((".c", ".cpp", ".cc", ".h"))] for n in names}
    libs = [os.path.join(r, f) for d in ("lib", "include") for r, _, fs in os.walk(os.path.join(a23, d)) for f in sorted(fs) if f.endswith((".cpp", ".cc", ".c", ".h"))]
    key = "a23-%s-%s" % (hashlib.sha256(repr(flags).encode()).hexdigest()[:6], tree_hash(sum(srcs.values(), []) + libs + [os.path.abspath(__file__)]))
    final = os.path.join(CACHE, key)
    if not os.path.exists(os.path.join(final, "ok")):
        os.makedirs(CACHE, exist_ok=True)
        old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
        for d in old[:-12]:
            shutil.rmtree(d, ignore_errors=True)
        out = tempfile.mkdtemp(prefix="b-", dir=CACHE)
        try:
            config_header(out, True)
            cf = ARCH + ["-w", "-U_FORTIFY_SOURCE", "-I", os.path.join(out, "gen"), "-I", REPO, "-I", os.path.join(a23, "include")] + list(flags)
            util = [f for f in split_sources()[0] if os.path.relpath(f, REPO).startswith("util")]
            common = [f for f in libs if f.endswith((".cpp", ".cc", ".c"))] + util
            objs = [os.path.join(out, "l%d.o" % i) for i in range(len(common))]

            def one(n):
                try:
                    run(["g++"] + cf + ["-x", "c++"] + [f for f in srcs[n] if not f.endswith(".h")] + ["-x", "none"] + objs + LIBS + ["-o", os.path.join(out, "p_" + n)])
                except BuildError as e:
                    open(os.path.join(out, "failed_" + n), "w").write(str(e))
            with ThreadPoolExecutor(jobs) as ex:
                list(ex.map(lambda x: run(["g++"] + cf + ["-c", x[0], "-o", x[1]]), zip(common, objs)))
                list(ex.map(one, [n for n in names if any(not f.endswith(".h") for f in srcs[n])]))
            open(os.path.join(out, "ok"), "w").close()
            try:
                os.rename(out, final)
            except OSError:
                shutil.rmtree(out, ignore_errors=True)
        except BaseException:
            shutil.rmtree(out, ignore_errors=True)
            raise
    fs = os.listdir(final)
    return final, {f[2:]: os.path.join(final, f) for f in fs if f.startswith("p_")}, {f[7:]: open(os.path.join(final, f)).read() for f in fs if f.startswith("failed_")}


if __name__ == "__main__":
    import time
    t = time.time()
    if sys.argv[1:] == ["programs"]:
        for f in PROGRAMS:
            print(build_programs(f)[0], time.time() - t)
        sys.exit()
    print(build(*(sys.argv[1:2] or ["log"]), tools=len(sys.argv) > 2), time.time() - t)
