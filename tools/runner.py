"""Infrastructure shared by all the checks: building the drivers from /repo's
working tree, running TLC, replaying behaviours, writing the evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EFG_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRIVER = os.path.join(VERIF, "driver")
BUILD = os.path.join(VERIF, "build")
CORES = os.cpu_count() or 4

STANDIN = os.path.join(VERIF, "standin")
EXT = ["-DEFG_XML_IO=1", "-DEFG_LEARNING_ENABLED=1", "-I", STANDIN]
VARIANTS = {
    "asan": (["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
             ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"]),
    "fast": (["-O2"], ["-O1"]),
    "tsan": (["-O1", "-g1", "-fsanitize=thread"], ["-O0", "-g1", "-fsanitize=thread"]),
    # the parts that need XML-Parser and TrainingTools, compiled with stand-ins of them (standin/)
    "ext": (["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"] + EXT,
            ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"] + EXT),
    # threads of the real code as fibers under a controlled scheduler (driver/sched_shim.h)
    "sched": (["-O2"], ["-O2", "-DSCHED"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=0:report_signal_unsafe=0:history_size=4",
}


class Infra(Exception):
    """the check itself could not be run (exit code 2)"""


class NoCompile(Infra):
    """a driver could not be compiled"""


def log(*a):
    print(time.strftime("[%H:%M:%S]"), *a, flush=True)


DEADLINE = None      # the whole check has to answer before
STOP = threading.Event()  # a violation was confirmed: everything still running is pointless
ACTIVE = set()
ACTIVE_LOCK = threading.Lock()


class Stopped(Infra):
    """given up because the answer is already known or time is over"""


def left():
    return 1e9 if DEADLINE is None else DEADLINE - time.time()


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass


def stop():
    STOP.set()
    with ACTIVE_LOCK:
        for p in ACTIVE:
            kill(p)


def sh(cmd, timeout=None, cwd=None, env=None):
    """-> (return code, or None when it was cut, stdout, stderr)"""
    if STOP.is_set() or left() <= 0:
        raise Stopped("no time left")
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    with ACTIVE_LOCK:
        ACTIVE.add(p)
    try:
        out, err = p.communicate(timeout=min(timeout or 1e6, max(1, left()), 1e6))
        if STOP.is_set() and p.returncode == -9:
            raise Stopped("the answer is already known")
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        kill(p)
        out, err = p.communicate()
        return None, out, err
    finally:
        with ACTIVE_LOCK:
            ACTIVE.discard(p)


# --------------------------------------------------------------------- build
def repo_sources(xml=False):
    res = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src", "src")):
        dirs.sort()
        if os.path.basename(base) == "xml" and not xml:
            continue
        for f in sorted(files):
            if f.endswith(".cpp"):
                res.append(os.path.join(base, f))
    return res


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        files = []
        if os.path.isfile(root):
            files = [root]
        else:
            for base, _, fs in os.walk(root):
                files += [os.path.join(base, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


INC = ["-std=c++17", "-DEFG_JSON_IO=1", "-I", os.path.join(REPO, "src", "header"),
       "-I", os.path.join(REPO, "src", "src")]
_compile_pool = cf.ThreadPoolExecutor(max_workers=CORES)
_locks = {}
_locks_guard = threading.Lock()


def _lock(key):
    with _locks_guard:
        return _locks.setdefault(key, threading.Lock())


def _publish(tmp, final):
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def build_lib(variant):
    """objects of the library, compiled from the current tree of /repo"""
    with _lock("lib" + variant):
        flags = VARIANTS[variant][0]
        srcs = repo_sources(variant == "ext")
        key = tree_hash([os.path.join(REPO, "src", "src"), os.path.join(REPO, "src", "header")])
        out = os.path.join(BUILD, "lib-%s-%s" % (variant, hashlib.sha256((key + str(flags)).encode()).hexdigest()[:16]))
        if os.path.isdir(out):
            return out
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp-")
        objs = []
        futs = []
        for k, s in enumerate(srcs):
            o = os.path.join(tmp, "%02d.o" % k)
            objs.append(o)
            futs.append((s, _compile_pool.submit(sh, ["g++"] + INC + flags + ["-c", s, "-o", o], 600)))
        for s, f in futs:
            rc, _, err = f.result()
            if rc != 0:
                raise (NoCompile if variant == "ext" else Infra)("cannot compile %s:\n%s" % (s, err[-2000:]))
        rc, _, err = sh(["ar", "rcs", os.path.join(tmp, "libefg.a")] + objs)
        if rc != 0:
            raise Infra("ar failed: " + err)
        for o in objs:
            os.remove(o)
        _publish(tmp, out)
        return out


def build_driver(name, variant, libs=()):
    src = os.path.join(DRIVER, name + ".cpp")
    flags = VARIANTS[variant][1]
    key = hashlib.sha256((tree_hash([src] + sorted(os.path.join(DRIVER, h) for h in os.listdir(DRIVER) if h.endswith(".h")) + [
                                     os.path.join(REPO, "src", "header"), os.path.join(REPO, "src", "src")])
                          + str(flags)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s-%s" % (name, variant, key))
    with _lock(exe):
        if os.path.exists(exe):
            return exe
        os.makedirs(BUILD, exist_ok=True)
        obj = exe + ".%d.o" % os.getpid()
        f = _compile_pool.submit(sh, ["g++"] + INC + flags + ["-c", src, "-o", obj], 900)
        lib = build_lib(variant)
        rc, _, err = f.result()
        if rc != 0:
            raise NoCompile("cannot compile %s:\n%s" % (src, err[-3000:]))
        tmp = exe + ".%d.tmp" % os.getpid()
        rc, _, err = sh(["g++"] + flags + [obj, os.path.join(lib, "libefg.a"), "-lpthread", "-o", tmp], 300)
        if rc != 0:
            raise NoCompile("cannot link %s:\n%s" % (name, err[-3000:]))
        os.remove(obj)
        os.rename(tmp, exe)
        return exe


# ----------------------------------------------------------------------- TLC
def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(tla_value(x) for x in v))
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla_value(x) for x in v)
    raise ValueError(v)


class Scratch:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(dir=BUILD, prefix="run-")

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def tlc_prepare(wd, module, consts, spec="Spec", invariants=(), properties=(), post=None, deadlock=False,
                constraint=None, extra=""):
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), wd)
    defs, subs = [], []
    for k, v in sorted(consts.items()):
        defs.append("c_%s == %s" % (k, tla_value(v)))
        subs.append(" %s <- c_%s" % (k, k))
    with open(os.path.join(wd, "MC.tla"), "w") as f:
        f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n%s\n====\n" % (module, "\n".join(defs), extra))
    with open(os.path.join(wd, "MC.cfg"), "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        if not deadlock:
            f.write("CHECK_DEADLOCK FALSE\n")
        if subs:
            f.write("CONSTANTS\n%s\n" % "\n".join(subs))
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for i in properties:
            f.write("PROPERTY %s\n" % i)
        if constraint:
            f.write("CONSTRAINT %s\n" % constraint)
        if post:
            f.write("POSTCONDITION %s\n" % post)


JAVA_OPTS = "-Xss16m -XX:ParallelGCThreads=2"


def tlc_run(wd, args, timeout):
    rc, out, err = sh(["tlc", "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE", "-config", "MC.cfg"] + args
                      + ["MC.tla"], timeout, cwd=wd, env={"JAVA_TOOL_OPTIONS": JAVA_OPTS + " -Djava.io.tmpdir=" + wd})
    shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
    return rc, out, err


def tlc_simulate(wd, num, depth, seed, timeout):
    """behaviours printed by the Finish action of a specification"""
    t0 = time.time()
    rc, out, err = tlc_run(wd, ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed),
                                "-workers", "1"], timeout)
    lines = []
    for l in out.splitlines():
        if l.startswith('"@@'):
            try:
                lines.append(json.loads(l)[2:])
            except ValueError:
                if rc is not None:
                    raise
    if rc is None and not lines:
        raise Stopped("TLC had no time to draw a behaviour")
    if rc not in (0, None):
        tail = [l for l in out.splitlines() if not l.startswith('"@@')]
        raise Infra("TLC reports a problem of the specification itself (rc %s):\n%s\n%s"
                    % (rc, tlc_error(tail), err[-500:]))
    m = re.search(r"number of states generated: (\d+)", out) or re.search(r"Progress: (\d+) states", out)
    states = int(m.group(1)) if m else 0
    return {"lines": lines, "states": states, "wall": time.time() - t0, "out": out}


def tlc_error(lines):
    for k, l in enumerate(lines):
        if "Error" in l or "rror:" in l:
            return "\n".join(lines[k:k + 25])[:2500]
    return "\n".join(lines)[-1500:]


def tlc_check(wd, timeout, workers=2, args=()):
    """exhaustive model checking of a specification"""
    rc, out, err = tlc_run(wd, ["-workers", str(workers)] + list(args), timeout)
    if rc is None:
        raise Stopped("TLC did not finish in %d s" % timeout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    res = {"rc": rc, "out": out, "err": err,
           "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
           "lines": [json.loads(l)[2:] for l in out.splitlines() if l.startswith('"@@')]}
    return res


# -------------------------------------------------------------------- drivers
def parse_driver(rc, out, err):
    """-> (mismatches, stats, crash) where crash is None or a dict"""
    mism, stats = [], {}
    for l in out.splitlines():
        if l.startswith("@MISMATCH "):
            mism.append(json.loads(l[10:]))
        elif l.startswith("@STATS "):
            stats = json.loads(l[7:])
    crash = None
    if rc is None:
        # cut because time was over, not because of what it did: only what it had reported counts
        stats = {"behaviours": max(0, err.count("@B ") - 1), "cut_short": 1}
    elif rc not in (0, 1):
        last = -1
        for l in err.splitlines():
            if l.startswith("@B "):
                last = int(l[3:])
        kind = "crash"
        if rc == -14:
            kind = "timeout"   # SIGALRM: one behaviour took longer than its limit
        elif rc == -9:
            kind = "killed"
        elif rc == 98 or "ThreadSanitizer" in err:
            kind = "race"
        text = [l for l in err.splitlines() if not l.startswith("@B ")]
        keep = [l for l in text if "ERROR" in l or "SUMMARY" in l or "WARNING" in l or re.match(r"\s+#[0-7] ", l)
                or "terminate" in l or "what()" in l]
        crash = {"beh": last, "kind": kind, "msg": ("process ended with status %s: " % rc) + " | ".join(keep)[:1500]}
    return mism, stats, crash


def run_driver(exe, args, timeout):
    rc, out, err = sh([exe] + args, timeout, env=SAN_ENV)
    return parse_driver(rc, out, err) + (rc,)


def merge_stats(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v
    return a


class Result:
    """what one check found and covered"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.traces = 0
        self.stats = {}
        self.samples = []
        self.violations = []   # dicts: kind, msg, replay
        self.notes = []
        self.known = []
        self.parts = {}
        self.exhaustive = None
        self.t0 = time.time()

    def write(self, level, assumptions):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:3] or ["(none)"],
               "comparisons": self.stats, "parts": self.parts, "notes": self.notes}
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
             "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2),
             "violations": len(self.violations)}
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(d, f, indent=1)
        os.rename(p + ".tmp", p)


def save_replay(prop, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p
