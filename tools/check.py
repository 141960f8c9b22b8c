#!/usr/bin/env python3
"""Runner: decides one property of properties.jsonl against /repo's working tree.

  check.py ID            (VERIF_SEED, VERIF_TIER in the environment)

Steps: model-check the specification (MC_* models, which also emit the inputs
to enumerate), build the driver from /repo, run it, and let TLC decide whether
every recorded behaviour is a behaviour of the specification (Trace_*).
Exit 0: held; 1: VIOLATION; 2: the machinery itself failed.
"""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from table import CHECKS  # noqa: E402

TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = os.environ.get("VERIF_SEED", "1")
TIER = os.environ.get("VERIF_TIER", "quick")
CXX = "g++"
BASE_FLAGS = ["-std=c++17", "-w", "-g0", "-DCEREAL_THREAD_SAFE=1", "-D_GLIBCXX_ASSERTIONS",
              "-I" + V + "/harness", "-I" + V + "/harness/compat",
              "-iquote", REPO + "/include/albatross", "-I" + REPO + "/include",
              "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/suitesparse",
              "-isystem", "/usr/include/libfccp"]
LIBS = ["-lspqr", "-lcholmod", "-lnlopt", "-lz", "-lzstd", "-lgflags", "-lpthread"]


def tail(text, n=2500):
    ls = [l for l in text.splitlines() if not re.match(r"(Parsing file|Semantic proc|Linting|Computed |\\s*$)", l)]
    return "\n".join(ls)[:n // 2] + "\n ... \n" + "\n".join(ls)[-n // 2:] if len("\n".join(ls)) > n else "\n".join(ls)


class MachineryError(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        rc = -999
    return rc, out.decode("utf8", "replace"), err.decode("utf8", "replace"), time.time() - t


def setup():
    """Compile the TLC module overrides (idempotent, safe to race)."""
    src = os.path.join(V, "java", "RealOverrides.java")
    dst = os.path.join(V, "build", "classes")
    os.makedirs(dst, exist_ok=True)
    with open(os.path.join(V, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mark = os.path.join(dst, "RealOverrides.class")
        if not os.path.exists(mark) or os.path.getmtime(mark) < os.path.getmtime(src):
            rc, out, err, _ = sh(["javac", "-cp", TLA, "-d", dst, src], 300)
            if rc:
                raise MachineryError("javac failed: " + out + err)


def tlc(module, cfg, work, env, workers, timeout, extra=(), path=None):
    meta = os.path.join(work, "meta_" + module)
    shutil.rmtree(meta, ignore_errors=True)
    heap = "-Xmx%s" % os.environ.get("VERIF_TLC_HEAP", "6g")
    cmd = ["java", heap, "-Xss64m", "-XX:+UseParallelGC",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RealOverrides",
           "-DTLA-Library=" + os.path.join(V, "spec", "lib") + ":" + os.path.join(V, "spec"),
           "-cp", os.path.join(V, "build", "classes") + ":" + TLA + ":" + CM,
           "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           *extra, path or os.path.join(V, "spec", module + ".tla")]
    rc, out, err, dt = sh(cmd, timeout, env=env, cwd=work)
    shutil.rmtree(meta, ignore_errors=True)
    open(os.path.join(work, module + ".tlc.log"), "w").write(out + err)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(rc=rc, out=out, err=err, wall=dt, generated=gen, distinct=dist,
                complete="Model checking completed" in out)


def compile_driver(unit, work):
    objs, jobs = [], []
    flags = BASE_FLAGS + unit.get("flags", [])
    if not any(f.startswith("-O") for f in flags):
        flags = flags + ["-O0"]
    procs = []
    for src in unit["driver"]:
        obj = os.path.join(work, os.path.splitext(src)[0] + ".o")
        objs.append(obj)
        procs.append((src, [CXX, *flags, "-c", os.path.join(V, "harness", src), "-o", obj]))
    with cf.ThreadPoolExecutor(8) as ex:
        for (src, cmd), (rc, out, err, dt) in zip(procs, ex.map(lambda p: sh(p[1], 800), procs)):
            if rc:
                raise MachineryError("compiling %s failed:\n%s" % (src, (out + err)[-6000:]))
    exe = os.path.join(work, "driver")
    rc, out, err, _ = sh([CXX, *unit.get("flags", []), *objs, "-o", exe, *LIBS], 300)
    if rc:
        raise MachineryError("linking failed:\n" + (out + err)[-4000:])
    return exe


def model_check(unit, work):
    """Run the unit's MC_ models; returns their statistics."""
    res = []
    gen = os.path.join(work, "inputs.ndjson")
    if os.path.exists(gen):
        os.remove(gen)
    for m in unit.get("mc", []):
        cfg = os.path.join(V, "spec", m + ("_thorough" if TIER == "thorough" and
              os.path.exists(os.path.join(V, "spec", m + "_thorough.cfg")) else "") + ".cfg")
        r = tlc(m, cfg, work, {"GEN": gen, "TIER": TIER, "SEED": SEED},
                unit.get("mc_workers", 4), unit.get("mc_timeout", 600 if TIER == "quick" else 3600))
        if r["rc"] != 0 or not r["complete"]:
            raise MachineryError("model %s did not complete:\n%s" % (m, tail(r["out"] + r["err"])))
        res.append((m, r))
    return res


def run_driver(unit, exe, work, tag):
    gen = os.path.join(work, "inputs.ndjson")
    out = os.path.join(work, "trace_%s.ndjson" % tag)
    rc, so, se, dt = sh([exe, gen, out, SEED, TIER], unit.get("driver_timeout", 200 if TIER == "quick" else 3000),
                        cwd=work, env=unit.get("env", {}))
    return dict(rc=rc, out=out, stdout=so, stderr=se, wall=dt)


def trace_check(unit, d, work, tag):
    lines = [l for l in open(d["out"]) if l.endswith("\n")]
    if not lines:
        return dict(rejects=[], lines=[], states=0, generated=0, behaviours=0)
    nsteps = 0
    good = []
    for l in lines:
        r = json.loads(l)
        nsteps += len(r["steps"])
        good.append(l)
    # split into shards, each validated by its own TLC process
    shards = min(unit.get("shards", 2), max(1, len(good) // 50))
    parts = [list(range(s, len(good), shards)) for s in range(shards)]

    def one(s):
        f = os.path.join(work, "shard_%s_%d.ndjson" % (tag, s))
        open(f, "w").writelines(good[n] for n in parts[s])
        w = os.path.join(work, "s%d" % s)
        os.makedirs(w, exist_ok=True)
        mod = os.path.join(w, "Trace_" + unit["spec"] + ".tla")
        tmpl = open(os.path.join(V, "spec", "lib", "TraceTemplate.tla")).read()
        open(mod, "w").write(tmpl.replace("@SPEC@", unit["spec"]))
        r = tlc("Trace_" + unit["spec"], os.path.join(V, "spec", "Trace.cfg"), w,
                {"TRACE": f}, unit.get("trace_workers", 4),
                unit.get("trace_timeout", 300 if TIER == "quick" else 3000), path=mod)
        os.remove(f)
        if r["rc"] != 0 or not r["complete"]:
            # an event of a shape the specification has no meaning for stops the evaluation: it is
            # rejected like any other event the specification does not allow
            at = re.findall(r"^State \d+:.*?\n/\\ i = (\d+)\n/\\ k = (\d+)", r["out"], re.M | re.S)
            if at and "while TLC was" not in r["out"] and "OutOfMemory" not in r["out"] + r["err"]:
                r["stuck"] = (int(at[-1][0]), int(at[-1][1]) + 1, tail(r["out"], 1500))
            else:
                raise MachineryError("trace check of %s did not complete:\n%s" % (unit["spec"], tail(r["out"] + r["err"])))
        return r

    with cf.ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    rejects = {}
    total = 0
    for s, r in enumerate(rs):
        total += r["distinct"]
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', r["out"]):
            n = parts[s][int(m.group(1)) - 1]
            rejects[(n, int(m.group(2)))] = m.group(3)
        if "stuck" in r:
            i, k, msg = r["stuck"]
            rejects[(parts[s][i - 1], k)] = "the recorded event has no meaning in the specification"
            print(msg)
    if not rejects and total != nsteps + len(good):
        raise MachineryError("%s: TLC saw %d states for %d events in %d behaviours but printed no rejection"
                             % (unit["spec"], total, nsteps, len(good)))
    return dict(rejects=sorted((n, k, w) for (n, k), w in rejects.items()), lines=good,
                states=total, generated=sum(r["generated"] for r in rs), behaviours=len(good), events=nsteps)


def known_findings(pid):
    p = os.path.join(V, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                r = json.loads(l)
                if r.get("property") == pid and r.get("status") == "known":
                    out.append(r)
    return out


def match_finding(finding, event, why):
    if finding.get("why") is not None and finding["why"] != why:
        return False
    for key, val in finding.get("event", {}).items():
        if event.get(key) != val:
            return False
    return True


def run_unit(pid, unit):
    work = os.path.join(V, "build", pid, unit["spec"])
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    t0 = time.time()
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(model_check, unit, work)
        fc = ex.submit(compile_driver, unit, work)
        mc, exe = fm.result(), fc.result()
    t1 = time.time()
    found = []
    d = run_driver(unit, exe, work, "a")
    crash = d["rc"] != 0
    if crash and d["rc"] == 64:
        raise MachineryError("driver usage: " + d["stderr"])
    t2 = time.time()
    tr = trace_check(unit, d, work, "a")
    t3 = time.time()
    if crash or tr["rejects"]:
        # report only what a second run of the real code repeats
        d2 = run_driver(unit, exe, work, "b")
        if crash:
            if d2["rc"] == 0:
                d2 = run_driver(unit, exe, work, "b")
            if d2["rc"] == 0:
                raise MachineryError("driver ended with %s, then with %s" % (d["rc"], d2["rc"]))
            found.append(dict(kind="crash", why="the code under test did not finish (exit %s): %s" %
                              (d["rc"], (d["stderr"] or d["stdout"])[-600:]), event={"crash": True}))
        if tr["rejects"]:
            tr2 = trace_check(unit, d2, work, "b")
            again = {(n, k) for n, k, _ in tr2["rejects"]}
            whys = {w for _, _, w in tr2["rejects"]}
            for n, k, w in tr["rejects"]:
                if (n, k) in again or w in whys:
                    beh = json.loads(tr["lines"][n])
                    found.append(dict(kind="reject", why=w, line=n, step=k, event=beh["steps"][k - 1], behaviour=beh))
            if not found:
                raise MachineryError("rejections did not repeat: %s" % tr["rejects"][:3])
    return dict(unit=unit, mc=mc, driver=d, trace=tr, found=found,
                times=dict(build=t1 - t0, drive=t2 - t1, trace=t3 - t2), work=work)


def short(x, n=1500):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def main():
    pid = sys.argv[1]
    t0 = time.time()
    setup()
    c = CHECKS[pid]
    ev_path = os.path.join(V, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    with cf.ThreadPoolExecutor(len(c["units"])) as ex:
        units = list(ex.map(lambda u: run_unit(pid, u), c["units"]))
    known = known_findings(pid)
    seen_known, violations = {}, []
    for u in units:
        for f in u["found"]:
            hit = next((k for k in known if match_finding(k, f["event"], f["why"])), None)
            if hit:
                seen_known[hit["id"]] = hit
            else:
                violations.append((u, f))
    samples = []
    ops = {}
    for u in units:
        ls = u["trace"]["lines"]
        for l in ls:
            for s in json.loads(l)["steps"]:
                op = u["unit"]["spec"] + "." + str(s.get("op", "?"))
                ops[op] = ops.get(op, 0) + 1
                if ops[op] == 1 and len(samples) < 12:
                    samples.append(short({"spec": u["unit"]["spec"], "event": s}, 600))
    for h in c.get("require_ops", []):
        if h not in ops and not violations:
            raise MachineryError("vacuous run: no event %s was recorded" % h)
    mcs = {m: {"distinct_states": r["distinct"], "states_generated": r["generated"], "wall_s": round(r["wall"], 1)}
           for u in units for m, r in u["mc"]}
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": int(SEED),
          "level": "model_checking",
          "coverage": {
              "states": sum(r["distinct"] for u in units for _, r in u["mc"]) + sum(u["trace"]["states"] for u in units),
              "transitions": sum(r["generated"] for u in units for _, r in u["mc"]) + sum(u["trace"]["generated"] for u in units),
              "traces_validated_against_impl": sum(u["trace"]["behaviours"] for u in units),
              "events_validated": sum(u["trace"].get("events", 0) for u in units),
              "events_by_kind": ops, "models": mcs, "samples": samples,
              "rejected_events": sum(len(u["found"]) for u in units)},
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
          "violations": len(violations)}
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for u in units:
        print("%s/%s: models %s; %d behaviours, %d events validated; times %s" % (
            pid, u["unit"]["spec"], {m: r["distinct"] for m, r in u["mc"]}, u["trace"]["behaviours"],
            u["trace"].get("events", 0), {a: round(b, 1) for a, b in u["times"].items()}))
    if violations:
        rep = os.path.join(V, "evidence", "replay")
        os.makedirs(rep, exist_ok=True)
        whys = set()
        n = 0
        for u, f in violations:
            key = (f["why"], f["event"].get("op"))
            if key in whys or n >= 8:
                continue
            whys.add(key)
            n += 1
            path = os.path.join(rep, "%s-%d.json" % (pid, n))
            with open(path, "w") as fh:
                json.dump({"property": pid, "spec": u["unit"]["spec"], "seed": SEED, "tier": TIER, **f}, fh, indent=1)
            print("  rejected: %s: %s" % (f["why"], short(f["event"], 700)))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        print("%d rejected events in total" % len(violations))
        return 1
    if not os.environ.get("VERIF_KEEP"):
        for u in units:
            shutil.rmtree(u["work"], ignore_errors=True)
    print("%s: held on everything explored (%.1f s)" % (pid, time.time() - t0))
    return 0


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        setup()
        sys.exit(0)
    try:
        sys.exit(main())
    except MachineryError as e:
        print("MACHINERY-ERROR: %s" % e)
        sys.exit(2)
