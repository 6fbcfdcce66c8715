#!/usr/bin/env python3
"""Runs the check of one property: check.py PROPERTY [quick|thorough] [options]

Builds the engine and the LLVM IR of the harness and of /repo's current tree,
lets the engine decide every scenario of the property (all schedules, all values
of the symbolic inputs), replays counterexamples natively, writes the evidence.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
REPO_TC = "1.90.0"
sys.path.insert(0, HERE)
import scenarios  # noqa: E402

T0 = time.time()


class Broken(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise Broken("%s failed:\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def build_engine():
    run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "engine"),
        env={"CARGO_TARGET_DIR": os.path.join(BUILD, "engine"), "RUSTUP_TOOLCHAIN": "stable", "RUSTFLAGS": ""})
    return os.path.join(BUILD, "engine", "release", "engine")


def build_ir():
    d = os.path.join(BUILD, "ir")
    run(["cargo", "build", "--release", "--offline", "--target", "x86_64-unknown-linux-gnu"],
        cwd=os.path.join(VERIF, "harness"),
        env={"CARGO_TARGET_DIR": d, "RUSTUP_TOOLCHAIN": REPO_TC, "RUSTC_BOOTSTRAP": "1",
             "RUSTFLAGS": "-Cno-vectorize-loops -Cno-vectorize-slp --emit=llvm-ir,link --cfg papaya_verif"})
    deps = os.path.join(d, "x86_64-unknown-linux-gnu", "release", "deps")
    out = []
    for name in ["harness", "papaya", "seize", "equivalent", "serde_core", "serde"]:
        fs = [f for f in glob.glob(os.path.join(deps, name + "*.ll"))
              if re.fullmatch(name + r"(-[0-9a-f]+)?\.ll", os.path.basename(f))]
        if fs:
            out.append(max(fs, key=os.path.getmtime))
    return out


def sysroot(tc):
    return run(["rustc", "+" + tc, "--print", "sysroot"]).strip()


def build_native(engine, lls):
    """The same IR, instrumented, compiled and linked for the replay."""
    d = os.path.join(BUILD, "native")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    llc = os.path.join(sysroot("stable"), "lib/rustlib/x86_64-unknown-linux-gnu/bin/llc")
    lib = os.path.join(sysroot(REPO_TC), "lib/rustlib/x86_64-unknown-linux-gnu/lib")

    def one(f):
        b = os.path.join(d, os.path.basename(f))
        run([engine, "instrument", f, b])
        run([llc, "-O1", "-filetype=obj", "-relocation-model=pic", b, "-o", b + ".o"])
        return b + ".o"

    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, lls))
    shim = os.path.join(d, "shim.o")
    run(["gcc", "-O1", "-g", "-w", "-c", os.path.join(VERIF, "replay", "shim.c"), "-o", shim])
    alloc = glob.glob(os.path.join(lib, "liballoc-*.rlib"))[0]
    m = re.search(rb"(_RNv\w*_7___rustc)35___rust_no_alloc_shim_is_unstable_v2", open(alloc, "rb").read())
    pre = m.group(1).decode()
    names = ["std", "core", "alloc", "panic_unwind", "unwind", "hashbrown", "addr2line", "gimli", "object", "memchr",
             "miniz_oxide", "adler2", "cfg_if", "rustc_demangle", "rustc_std_workspace_alloc",
             "rustc_std_workspace_core", "compiler_builtins", "std_detect"]
    rl = [f for n in names for f in glob.glob(os.path.join(lib, "lib%s-*.rlib" % n))]
    exe = os.path.join(d, "replay")
    run(["gcc", "-rdynamic", "-o", exe] + objs + [shim]
        + ["-Wl,--defsym=%s35___rust_no_alloc_shim_is_unstable_v2=vpx_zero" % pre,
           "-Wl,--defsym=%s42___rust_alloc_error_handler_should_panic_v2=vpx_zero" % pre,
           "-Wl,--defsym=%s26___rust_alloc_error_handler=vpx_alloc_error" % pre]
        + ["-Wl,--start-group"] + rl + ["-Wl,--end-group", "-lgcc_s", "-ldl", "-lpthread", "-lm"])
    return exe


def replay(exe, job, kind, code, tr, tag):
    scenario = job["name"]
    f = os.path.join(BUILD, "native", "trace-%s" % tag)
    with open(f, "w") as o:
        o.write("%s %d %d\n" % (kind, code, len(tr["schedule"])))
        for t, u in tr["schedule"]:
            o.write("%d %d\n" % (t, u))
        o.write("%d\n" % len(tr["values"]))
        for t, q, w, v in tr["values"]:
            o.write("%d %d %d %d\n" % (t, q, w, v))
    # assertions of other properties do not end an execution, as in the engine
    env = dict(os.environ, VP_ACCEPT=job.get("accept", ""), VP_IGNORE=job.get("ignore", ""))
    p = subprocess.run([exe, scenario, f], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=90)
    lines = [x for x in p.stdout.decode(errors="replace").splitlines()
             if x.split(" ")[0] in ("REPRODUCED", "DIVERGED", "CLEAN")]
    return p.returncode, lines[-1] if lines else "no answer (exit %d)" % p.returncode


PROCS = set()
LOCK = threading.Lock()
STOP = threading.Event()


def engine_run(engine, lls, job, secs, tag):
    out = os.path.join(BUILD, "run", tag + ".json")
    cmd = [engine] + lls + ["--scenario", job["name"], "--out", out, "--time", "%.1f" % secs,
                            "--hb", job.get("hb", "off"), "--max-states", str(job.get("max_states", 12000000))]
    if job.get("accept"):
        cmd += ["--accept", job["accept"]]
    if job.get("ignore"):
        cmd += ["--ignore", job["ignore"]]
    if job.get("preempt") is not None:
        cmd += ["--preempt", str(job["preempt"])]
    for k, v in job.get("fix", []):
        cmd += ["--fix", "%s=%d" % (k, v)]
    for x in job.get("args", []):
        cmd.append(x)

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))

    with LOCK:
        if STOP.is_set():
            return None
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim)
        PROCS.add(p)
    try:
        _, err = p.communicate(timeout=secs + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Broken("%s: the engine did not stop" % tag)
    finally:
        with LOCK:
            PROCS.discard(p)
    if STOP.is_set():
        return None
    if p.returncode != 0:
        m = re.search("ENGINE-ERROR (.*)", err.decode(errors="replace"), re.S)
        if m:
            # something the engine does not support: the scenario is not decided
            return {"error": m.group(1).strip()[:300]}
        raise Broken("%s: engine exit %d\n%s" % (tag, p.returncode, err.decode(errors="replace")[-3000:]))
    with open(out) as f:
        return json.load(f)


def stop_all():
    with LOCK:
        STOP.set()
        for p in list(PROCS):
            p.kill()


def known():
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return json.load(open(f))["findings"]


def main():
    prop = sys.argv[1]
    if prop == "setup":
        engine, lls = build_engine(), build_ir()
        build_native(engine, lls)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:] or None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = scenarios.PROPS[prop]
    jobs = scenarios.jobs(prop, tier)
    if only:
        jobs = [j for j in jobs if j["name"] in only]
    if not jobs:
        raise Broken("nothing to do")
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build_engine), ex.submit(build_ir)
        engine, lls = a.result(), b.result()
    t_build = time.time() - T0
    finds = [k for k in known() if k["property"] == prop]
    budget = scenarios.BUDGET[tier]
    end = time.time() + budget
    ncpu = min(8, os.cpu_count() or 1)
    results, errors, viols, knowns = [], [], [], []
    undecided = {}
    native = {}

    def get_native():
        with NLOCK:
            if "exe" not in native:
                native["exe"] = build_native(engine, lls)
            return native["exe"]

    NLOCK = threading.Lock()

    def work(i, job):
        if STOP.is_set():
            return
        ign = []
        hits = []
        while True:
            left = end - time.time()
            if left < 1:
                results.append((job, None))
                return
            tag = "%s-%d-%s" % (prop, i, job["name"])
            j = dict(job)
            if ign:
                j["ignore"] = ",".join(ign + ([job["ignore"]] if job.get("ignore") else []))
            r = engine_run(engine, lls, j, min(left, job.get("time", 1e9)), tag)
            if r is None:
                return
            if "error" in r:
                results.append((job, None))
                undecided[job["name"]] = r["error"]
                return
            v = r["violation"]
            if v is None:
                break
            code, line = replay(get_native(), j, v["kind"], v["code"], v, tag)
            v["replay"] = line
            if code != 10:
                errors.append("%s: %s (%s) does not reproduce natively: %s" % (job["name"], v["kind"], v["msg"], line))
                break
            k = [x for x in finds if x["scenario"] == job["name"] and x["kind"] == v["kind"] and x["code"] == v["code"]]
            if k:
                hits.append(k[0])
                ign.append("%s:%d" % (v["kind"], v["code"]))
                continue
            viols.append((job, r))
            stop_all()
            return
        r["known"] = [k["what"] for k in hits]
        knowns.extend(hits)
        r["ignore"] = j.get("ignore", "")
        results.append((job, r))

    with cf.ThreadPoolExecutor(ncpu) as ex:
        fs = [ex.submit(work, i, j) for i, j in enumerate(jobs)]
        for f in cf.as_completed(fs):
            try:
                f.result()
            except Broken as e:
                errors.append(str(e))
                stop_all()
            except subprocess.TimeoutExpired as e:
                errors.append(str(e))

    # translation check: complete executions of the engine, replayed natively
    valid, samples = 0, []
    if not viols and not errors:
        exe = get_native()
        todo = []
        for n, (job, r) in enumerate(results):
            if r:
                for k, s in enumerate(r["samples"]):
                    todo.append((dict(job, ignore=r["ignore"]), s, "%d-%d-%d" % (os.getpid(), n, k)))
        todo = todo[:400]
        with cf.ThreadPoolExecutor(ncpu) as ex:
            for (job, s, _), (code, line) in zip(todo, ex.map(lambda x: replay(exe, x[0], "none", 0, x[1], x[2]), todo)):
                if code != 0:
                    errors.append("%s: an execution of the engine differs natively: %s" % (job["name"], line))
                else:
                    valid += 1
                    if len(samples) < 3:
                        samples.append({"scenario": job["name"], "schedule (thread, events)": s["schedule"][:60],
                                        "values (thread, number, bits, value)": s["values"][:20], "native": line})

    done = [(j, r) for j, r in results if r]
    ran = [r for _, r in done + viols]
    total = lambda k: sum(r[k] for _, r in done)  # noqa: E731
    fns = {}
    for _, r in done:
        for n, c in r["functions"]:
            if "papaya" in n:
                fns[n] = fns.get(n, 0) + c
    groups = {}
    for j, r in results:
        groups.setdefault(j["group"], []).append((j, r))
    vacuous = [l[0][0]["name"] for l in groups.values()
               if all(r and r["complete"] and not r["reached"] and not r.get("known") and not r["foreign"] for _, r in l)]
    incomplete = [j["name"] for j, r in results if r is None or not r["complete"]]
    if vacuous and not viols:
        errors.append("never reaches its end: %s" % ", ".join(vacuous))
    for job, r in viols:
        v = r["violation"]
        samples.insert(0, {"scenario": job["name"], "violation": {k: v[k] for k in ("kind", "code", "msg", "replay")},
                           "schedule": v["schedule"], "values": v["values"]})
    cov = {
        # schedules and symbolic branches both; a sequential scenario has only the latter
        "states": sum(r["states"] + r["paths"] for r in ran),
        "transitions": sum(r["transitions"] + r["sat"] + r["paths"] for r in ran),
        "traces_validated_against_impl": valid,
        "samples": samples or [{"scenario": j["name"]} for j, _ in done[:1]],
        "exhaustive": not incomplete and not viols,
        "explanation": "symbolic execution of rustc's LLVM IR of /repo; z3 decides every branch and assertion; "
                       "all schedules of the stated scenarios at the granularity of atomic operations",
        "bounds": spec["bounds"],
        "scenarios": [
            {"name": j["name"], **{k: j[k] for k in ("hb", "preempt", "fix") if k in j},
             "complete": bool(r and r["complete"]), "reason": (r["reason"] if r else undecided.get(j["name"], "no time left")),
             **({k: r[k] for k in ("states", "transitions", "paths", "queries", "unsat", "solver_s", "wall", "symbols", "max_pc")} if r else {}),
             **({"other violations": r["foreign"]} if r and r["foreign"] else {})}
            for j, r in results],
        "incomplete": incomplete,
        "paths": total("paths"),
        "assertions": total("asserts"),
        "solver_queries": total("queries"),
        "queries_unsat": total("unsat"),
        "queries_sat": total("sat"),
        "decided_by_cached_query": total("cache_hits"),
        "solver_s": round(total("solver_s"), 3),
        "instructions": total("instructions"),
        "functions_encoded": len(fns),
        "functions": [n for n, _ in sorted(fns.items())][:400],
        "build_s": round(t_build, 1),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": scenarios.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, e in sorted(undecided.items()):
        print("NOT DECIDED %s: %s" % (n, e))
    if 2 * len(undecided) > len({j["name"] for j in jobs}):
        errors.append("most scenarios cannot be decided")
    for k in {k["id"]: k for k in knowns}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d scenarios, %d states, %d paths, %d queries (%.1f s solver), %d traces replayed, %d incomplete, %.0f s" % (
        prop, tier, len(done), cov["states"], cov["paths"], cov["solver_queries"], cov["solver_s"], valid, len(incomplete), time.time() - T0))
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for job, r in viols:
            v = r["violation"]
            p = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, job["name"]))
            with open(p, "w") as f:
                json.dump({"property": prop, "scenario": job["name"], "job": job, "violation": v}, f, indent=1)
            print("  %s: %s %s: %s" % (job["name"], v["kind"], v["code"], v["msg"]))
            for x in v["stack"][:12]:
                print("     in %s" % x)
            print("  natively: %s" % v["replay"])
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 3
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Broken as e:
        print("ERROR %s" % e)
        rc = 3
    sys.exit(rc)
