"""Shared machinery of the checks: build, run TLC, run harnesses, report."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ELL_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
CXX = os.environ.get("CXX", "g++")
CXXFLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-fno-fast-math", "-ffp-contract=off"]
LIBS = ["-lopenblas", "-llapack", "-lstdc++fs", "-lpthread", "-lboost_context"]


class CheckError(Exception):
    """The check itself could not be carried out (exit code 2)."""


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf-8", "replace") + "\n[timeout]"


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = "%s.%d.%d.tmp" % (path, os.getpid(), threading.get_ident())
    with open(tmp, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    os.replace(tmp, path)


# ------------------------------------------------------------------ building
def classes():
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    key = sha(*[open(s, "rb").read() for s in src])
    out = os.path.join(BUILD, "classes-" + key)
    if not os.path.exists(os.path.join(out, "ok")):
        tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
        os.makedirs(tmp, exist_ok=True)
        rc, o = sh(["javac", "-d", tmp, "-cp", JARS] + src, 300)
        if rc:
            raise CheckError("javac failed:\n" + o)
        open(os.path.join(tmp, "ok"), "w").close()
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def repo_hash():
    return tree_hash([os.path.join(REPO, "lib", "include"), os.path.join(REPO, "lib", "src")])


def compile_obj(src, rhash):
    inc = ["-I" + os.path.join(REPO, "lib", "include"), "-I" + os.path.join(VERIF, "harness")]
    hdr = tree_hash([p for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")))])
    key = sha(src, open(src, "rb").read(), rhash, hdr, *CXXFLAGS)
    out = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key + ".o")
    if os.path.exists(out):
        return out, ""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.%d.o" % (out, os.getpid(), threading.get_ident())
    rc, o = sh([CXX] + CXXFLAGS + inc + ["-c", src, "-o", tmp], 600)
    if rc:
        return None, o
    os.replace(tmp, out)
    return out, ""


def build_harness(src, libsrc):
    """libsrc: the library sources the harness needs ("*": all that compile).
    When linking fails with these, all of the library is tried."""
    rhash = repo_hash()
    src = os.path.join(VERIF, "harness", src)
    allsrc = sorted(glob.glob(os.path.join(REPO, "lib", "src", "*.cpp")))
    want = [s for s in allsrc if os.path.basename(s) in libsrc]
    exe = os.path.join(BUILD, "bin", os.path.basename(src)[:-4] + "-" + sha(
        rhash, open(src, "rb").read(), tree_hash(sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp")))), *CXXFLAGS))
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    with cf.ThreadPoolExecutor(8) as ex:
        main = ex.submit(compile_obj, src, rhash)
        objs = list(ex.map(lambda s: compile_obj(s, rhash), want))
        m, err = main.result()
        if m is None:
            raise CheckError("harness does not compile:\n" + err[-4000:])
        tmp = exe + ".%d" % os.getpid()
        rc, o = sh([CXX, m] + [x for x, _ in objs if x] + LIBS + ["-o", tmp], 300)
        if rc:
            more = list(ex.map(lambda s: compile_obj(s, rhash),
                               [s for s in allsrc if os.path.basename(s) != "spectral_fact.cpp"]))
            rc, o2 = sh([CXX, m] + [x for x, _ in more if x] + LIBS + ["-o", tmp], 300)
            if rc:
                raise CheckError("harness does not link:\n" + o2[-3000:] + "".join(e[-2000:] for _, e in more))
        os.replace(tmp, exe)
    return exe


# ----------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = rc == 0 and "No error has been found" in out


def tlc(module, cfg, env=None, workers="auto", timeout=800, extra=(), heap="3g", work=None, dfs=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg>."""
    work = work or new_work("tlc")
    meta = os.path.join(work, "meta-%d-%d" % (os.getpid(), threading.get_ident()))
    os.makedirs(meta, exist_ok=True)
    jopt = ["-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta]
    cmd = ["java"] + jopt + ["-cp", JARS + ":" + classes(), "-DTLA-Library=" + SPEC, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    rc, out = sh(cmd, timeout, env=env, cwd=work)
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(out, rc)


_n = [0]
_root = [None]


def new_work(name):
    if _root[0] is None:
        _root[0] = os.path.join(BUILD, "work", "%s-%d" % (os.environ.get("CHECK_ID", "x"), os.getpid()))
        shutil.rmtree(_root[0], ignore_errors=True)
    _n[0] += 1
    d = os.path.join(_root[0], "%s-%d" % (name, _n[0]))
    os.makedirs(d, exist_ok=True)
    return d


def cleanup():
    if _root[0] and not os.environ.get("KEEP"):
        shutil.rmtree(_root[0], ignore_errors=True)


# ------------------------------------------------------------------- harness
def run_harness(exe, args, trace, timeout=300, mem_gb=6):
    """Runs a harness that appends events to `trace`; a crash, a hang or an
    exception that escapes becomes a last event, which no specification allows."""
    if os.path.exists(trace):
        os.remove(trace)

    def limit():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Nehalem", LC_ALL="C")
    try:
        p = subprocess.run([exe, trace] + [str(a) for a in args], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=env, preexec_fn=limit)
        rc, out = p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout or b"").decode("utf-8", "replace")
    if rc == 3:
        raise CheckError("harness cannot run: " + out[-2000:])
    if rc != 0:
        data = open(trace, "rb").read() if os.path.exists(trace) else b""
        data = data[:data.rfind(b"\n") + 1]           # drop a torn last line
        with open(trace, "wb") as f:
            f.write(data)
            f.write((json.dumps({"e": "Crash", "rc": rc, "out": out[-300:]}) + "\n").encode())
    return rc, out


def split_cases(trace, n):
    """Cuts a trace into n pieces at Begin events of roughly equal length."""
    lines = open(trace).read().splitlines()
    starts = [i for i, l in enumerate(lines) if l.startswith('{"e":"Begin"')]
    if not starts or starts[0] != 0:
        if lines and '"Crash"' in lines[0]:
            return [lines]
        raise CheckError("trace does not start with Begin: %s" % (lines[:1],))
    if n <= 1 or len(starts) < 2:
        return [lines]
    # by length rather than number: long events take longer to check
    total = [0]
    for l in lines:
        total.append(total[-1] + len(l) + 100)
    parts, cur, goal = [], 0, max(1, total[-1] // n)
    for s in starts[1:]:
        if total[s] - total[cur] >= goal and len(parts) < n - 1:
            parts.append(lines[cur:s]); cur = s
    parts.append(lines[cur:])
    return parts


class Reject:
    def __init__(self, part, index, lines, tlc):
        self.part, self.index, self.lines, self.tlc = part, index, lines, tlc


def validate(module, cfg, trace, env=None, pieces=4, timeout=800, heap="2g"):
    """Validates a recorded trace against spec/<module>.tla.
    -> (list of Reject, states, transitions, number of cases, deviations)"""
    parts = split_cases(trace, pieces)
    work = new_work("trace")

    def one(k):
        f = os.path.join(work, "part%d.ndjson" % k)
        put(f, "\n".join(parts[k]) + "\n")
        e = dict(env or {}, TRACE=f)
        t = tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap,
                work=new_work("tv"))
        return t

    with cf.ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(one, range(len(parts))))
    rejects, st, tr, dev = [], 0, 0, {}
    for k, t in enumerate(runs):
        st += t.distinct
        tr += t.generated
        for m in re.finditer(r'<<"DEVIATION", "([^"]+)"', t.out):
            dev[m.group(1)] = dev.get(m.group(1), 0) + 1
        m = re.search(r'<<"TRACE-REJECTED-AT", (\d+)', t.out)
        if m:
            rejects.append(Reject(k, int(m.group(1)), parts[k], t))
        elif re.search(r"Invariant \S+ is violated", t.out):
            # the state in which it fails is the one after event l - 1
            at = re.findall(r"^(?:/\\ )?l = (\d+)$", t.out, re.M)
            rejects.append(Reject(k, max(1, int(at[-1]) - 1 if at else len(parts[k])), parts[k], t))
        elif "The error occurred when TLC was evaluating" in t.out and not re.search(
                r"OutOfMemory|StackOverflow|java\.|BigRat\.class is not", t.out):
            # what was recorded is not even of the kind the specification speaks of
            at = re.findall(r"^(?:/\\ )?l = (\d+)$", t.out, re.M)
            rejects.append(Reject(k, int(at[-1]) if at else 1, parts[k], t))
        elif not t.ok:
            raise CheckError("TLC failed on a trace (%s):\n%s" % (module, t.out[-3500:]))
    cases = sum(1 for p in parts for l in p if l.startswith('{"e":"Begin"'))
    return rejects, st, tr, cases, dev
