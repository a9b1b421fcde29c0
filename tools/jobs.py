"""The kinds of work a check is made of."""
import concurrent.futures as cf
import json
import os
import random
import re
import time

import runner as R


class Sim:
    """TLC -simulate draws behaviours of a specification; a driver replays them
    into the real code, which must give the outcome the specification gives."""

    def __init__(self, name, module, consts, num, driver, args=(), variant="asan", depth=None, shards=None,
                 invariants=(), limit=60, spec="Spec", constraint=None, trace=None, optional=False,
                 alone=False):
        self.__dict__.update(locals())
        self.shards = shards or 4


class Exh:
    """TLC explores a specification exhaustively (checking its properties) and
    prints what the driver must replay (emit=True)."""

    def __init__(self, name, module, consts, invariants=(), properties=(), driver=None, args=(), variant="asan",
                 workers=2, timeout=300, limit=60, spec="Spec", deadlock=False, constraint=None, merge=False,
                 shards=1, tlcargs=(), extra=""):
        self.__dict__.update(locals())


class Run:
    """a driver that needs no behaviours from TLC (it reads a constant table
    generated in process) or whose recorded traces are validated by TLC"""

    def __init__(self, name, driver, args=(), variant="asan", shards=1, limit=120, trace=None, lib=None, env=None):
        self.__dict__.update(locals())


def derive(seed, *tags):
    rnd = random.Random("%s/%s" % (seed, "/".join(map(str, tags))))
    return rnd.randrange(1, 2 ** 31 - 1)


RETRY_KINDS = ("timeout", "killed", "loopy", "freq", "race")


def reports(parsed):
    """what a driver run reported: (deterministic ones, ones to be reproduced in isolation)"""
    mism, stats, crash, rc = parsed
    todo = list(mism)
    if crash:
        todo.append({"beh": crash["beh"], "step": -1, "kind": crash["kind"], "msg": crash["msg"]})
    return [m for m in todo if m["kind"] not in RETRY_KINDS], [m for m in todo if m["kind"] in RETRY_KINDS]


def reproduce(job, exe, args, file, m, tries):
    for _ in range(tries):
        a = list(args)
        if file is not None:
            a = [file, "--only=%d" % m["beh"]] + a
        mm, _, cc, _ = R.run_driver(exe, a, job.limit * 2 + 30)
        if mm or cc:
            return True
    return False


def violation(res, job, args, file, lines, m, seen):
    data = {"property": res.prop, "job": job.name, "driver": job.driver, "variant": job.variant,
            "args": list(args), "mismatch": m, "reproduced": bool(seen)}
    if file is not None and 0 <= m["beh"] < len(lines):
        try:
            data["behaviour"] = json.loads(lines[m["beh"]])
        except ValueError:
            data["behaviour"] = lines[m["beh"]]
    p = R.save_replay(res.prop, data)
    res.violations.append({"kind": "%s/%s" % (job.name, m["kind"]), "msg": m["msg"], "replay": p})
    R.stop()


def shard_file(d, k, lines):
    f = os.path.join(d, "beh%d.jsonl" % k)
    with open(f, "w") as o:
        o.write("\n".join(lines) + "\n")
    return f


def drive(res, job, exe, scr, lines, tag):
    if not lines:
        raise R.Infra("job %s: no behaviours were generated" % job.name)
    wd = scr.sub("drv-%s-%s" % (job.name, tag))
    f = shard_file(wd, 0, lines)
    args = [a.replace("@SCRATCH", wd) for a in job.args] + ["--limit=%d" % job.limit]
    parsed = R.run_driver(exe, [f] + args, None)
    return (job, exe, args, f, parsed, lines)


def run_all(plan, res, scr, seed):
    ex_build = cf.ThreadPoolExecutor(max_workers=6)
    ex = cf.ThreadPoolExecutor(max_workers=R.CORES)
    builds = {}

    def want(job):
        key = (job.driver, job.variant)
        if job.driver and key not in builds:
            builds[key] = ex_build.submit(R.build_driver, job.driver, job.variant)
        return builds.get(key)

    for j in plan:
        want(j)
    futs = []
    for j in plan:
        if isinstance(j, Sim):
            per = max(1, j.num // j.shards)
            for s in range(j.shards):
                futs.append(ex.submit(do_sim, res, j, scr, seed, s, per, want(j)))
        elif isinstance(j, Exh):
            futs.append(ex.submit(do_exh, res, j, scr, want(j)))
        else:
            for s in range(j.shards):
                futs.append(ex.submit(do_run, res, j, scr, seed, s, want(j)))
    err = []
    later, doubtful = [], []

    def take(out):
        if callable(out):
            later.append(out)
            return
        job, exe, args, file, parsed, lines = out
        if parsed[3] == 2:
            raise R.Infra("driver %s: %s" % (job.driver, parsed[2]["msg"] if parsed[2] else ""))
        R.merge_stats(res.stats, parsed[1])
        n = parsed[1].get("behaviours", 0)
        res.traces += n
        res.parts.setdefault(job.name, {"behaviours": 0})["behaviours"] += n
        if lines and len(res.samples) < 3 and not any(s["job"] == job.name for s in res.samples):
            res.samples.append({"job": job.name, "behaviour": lines[0][:1500]})
        sure, maybe = reports(parsed)
        for m in sure[:1]:
            if not res.violations:
                violation(res, job, args, file, lines, m, False)
        doubtful.extend((out, m) for m in maybe[:2])

    def gather(fs):
        for f in cf.as_completed(fs):
            try:
                for o in f.result():
                    take(o)
            except R.Stopped as e:
                if not res.violations:
                    res.notes.append("a part was not run: %s" % e)
            except R.Infra as e:
                err.append(e)

    gather(futs)
    with cf.ThreadPoolExecutor(max_workers=max(1, R.CORES // 4)) as ex2:
        gather([ex2.submit(o) for o in later])
    # timings and statistics: believed only when seen again with nothing else running
    for (job, exe, args, file, parsed, lines), m in doubtful[:8]:
        if res.violations:
            break
        try:
            if reproduce(job, exe, args, file, m, 6 if m["kind"] != "timeout" else 3):
                violation(res, job, args, file, lines, m, True)
            else:
                res.notes.append("not reproduced in isolation, ignored: %s" % json.dumps(m)[:500])
                R.log("not reproduced, ignored:", json.dumps(m)[:300])
        except R.Stopped:
            res.notes.append("not reproduced for lack of time: %s" % json.dumps(m)[:500])
    if err and not res.violations:
        raise err[0]
    if not res.traces and not res.states and not res.violations:
        raise R.Infra("nothing could be explored in the time available")


def do_sim(res, j, scr, seed, s, per, build):
    wd = scr.sub("tlc-%s-%d" % (j.name, s))
    R.tlc_prepare(wd, j.module, j.consts, spec=j.spec, invariants=j.invariants, constraint=j.constraint)
    t = R.tlc_simulate(wd, per, j.depth or 1000, derive(seed, j.name, s), 600)
    res.states += t["states"]
    res.transitions += max(0, t["states"] - per)
    part = res.parts.setdefault(j.name, {"behaviours": 0})
    part["tlc_s"] = round(max(part.get("tlc_s", 0), t["wall"]), 1)
    try:
        if not build:
            part["behaviours"] += len(t["lines"])
            return []
        exe = build.result()
    except R.NoCompile as e:
        # a part which depends on how the code is written (not only on what it does)
        if not j.optional:
            raise
        res.notes.append("job %s skipped, it does not compile with this tree: %s" % (j.name, str(e)[-400:]))
        R.log("job %s skipped: it does not compile with this tree" % j.name)
        return []
    if j.alone:
        # spinning threads: replayed when nothing else is running
        return [lambda: drive_sim(res, j, exe, scr, t, s, part)]
    return drive_sim(res, j, exe, scr, t, s, part)


def drive_sim(res, j, exe, scr, t, s, part):
    t0 = time.time()
    out = drive(res, j, exe, scr, t["lines"], s)
    if j.trace and not (out[4][2] and out[4][2]["kind"] == "crash"):
        validate_trace(res, j, scr, scr.sub("drv-%s-%s" % (j.name, s)), s)
    part["drive_s"] = round(max(part.get("drive_s", 0), time.time() - t0), 1)
    return [out]


def do_exh(res, j, scr, build):
    wd = scr.sub("tlc-%s" % j.name)
    R.tlc_prepare(wd, j.module, j.consts, spec=j.spec, invariants=j.invariants, properties=j.properties,
                  deadlock=j.deadlock, constraint=j.constraint, extra=j.extra)
    t0 = time.time()
    t = R.tlc_check(wd, j.timeout, j.workers, j.tlcargs)
    if t["rc"] != 0:
        tail = [l for l in t["out"].splitlines() if not l.startswith('"@@')]
        raise R.Infra("TLC rejects the specification %s itself:\n%s" % (j.module, R.tlc_error(tail)))
    res.states += t["distinct"]
    res.transitions += t["generated"]
    part = res.parts.setdefault(j.name, {"behaviours": 0})
    part.update({"distinct_states": t["distinct"], "tlc_s": round(time.time() - t0, 1), "exhaustive": True})
    if not build:
        return []
    exe = build.result()
    outs = []
    lines = t["lines"]
    n = max(1, min(j.shards, len(lines)))
    if n == 1:
        return [drive(res, j, exe, scr, lines, 0)]
    with cf.ThreadPoolExecutor(max_workers=n) as ex:
        fs = [ex.submit(drive, res, j, exe, scr, lines[k::n], k) for k in range(n)]
        for f in fs:
            outs.append(f.result())
    return outs


def do_run(res, j, scr, seed, s, build):
    exe = build.result()
    wd = scr.sub("run-%s-%d" % (j.name, s))
    args = [a.replace("@SCRATCH", wd).replace("@SEED", str(derive(seed, j.name, s))).replace("@SHARD", str(s))
            for a in j.args] + ["--limit=%d" % j.limit]
    t0 = time.time()
    parsed = R.run_driver(exe, args, j.limit + 60)
    part = res.parts.setdefault(j.name, {"behaviours": 0})
    part["drive_s"] = round(max(part.get("drive_s", 0), time.time() - t0), 1)
    if j.trace and not parsed[2]:
        validate_trace(res, j, scr, wd, s)
    return [(j, exe, args, None, parsed, [])]


def rejected_trace(f, out):
    m = re.search(r"@@REJECTED event (\d+) of recorded run (\d+)", out)
    lines = open(f).read().splitlines()
    k = int(m.group(2)) - 1 if m else 0
    return json.loads(lines[k])


def validate_trace(res, j, scr, wd, s):
    """TLC decides whether the recorded events are a behaviour of the spec"""
    module, consts, fname = j.trace
    files = sorted(f for f in os.listdir(wd) if f.startswith(fname))
    if not files:
        raise R.Infra("job %s recorded no trace" % j.name)
    for f in files:
        td = scr.sub("trc-%s-%d-%s" % (j.name, s, f))
        os.replace(os.path.join(wd, f), os.path.join(td, "trace.ndjson"))
        if not os.path.getsize(os.path.join(td, "trace.ndjson")):
            continue
        R.tlc_prepare(td, module, consts, spec="TraceSpec", invariants=["Good"])
        t = R.tlc_check(td, 600, 1)
        n = sum(1 for _ in open(os.path.join(td, "trace.ndjson")))
        res.states += t["distinct"]
        res.transitions += t["generated"]
        R.merge_stats(res.stats, {"traces_checked_by_tlc": n})
        if t["rc"] == 0:
            continue
        if "@@REJECTED" not in t["out"] and "is violated" not in t["out"]:
            raise R.Infra("TLC cannot read the recorded trace:\n" + t["out"][-3000:])
        m = re.search(r"@@REJECTED[^\n]*", t["out"])
        data = {"property": res.prop, "job": j.name, "driver": j.driver,
                "trace": rejected_trace(os.path.join(td, "trace.ndjson"), t["out"]),
                "why": m.group(0) if m else t["out"][-1500:]}
        p = R.save_replay(res.prop, data)
        res.violations.append({"kind": j.name + "/trace", "replay": p,
                               "msg": "recorded events are not a behaviour of %s: %s" % (module, data["why"][:600])})
        R.stop()
        return


def finding_present(k, res, scr):
    """does the real code still show this recorded finding?"""
    try:
        exe = R.build_driver(k["driver"], k.get("variant", "asan"))
    except R.NoCompile:
        return False
    wd = scr.sub("known")
    mm, _, cc, _ = R.run_driver(exe, [a.replace("@SCRATCH", wd) for a in k["args"]], 60)
    return bool(mm or cc)
