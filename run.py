#!/usr/bin/env python3
"""Runs the monitor of one property: builds /repo's current sources with the instrumentation, runs the workloads in
parallel shards, aggregates what the monitors observed into evidence/<id>.json.

  run.py C02 [--tier quick|thorough] [--seed N] [--scale X] [--only SUITE] [--replay FILE] [--keep DIR]
Exit 0: held on everything explored. 1: violation (a VIOLATION line is printed). 2: harness error."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks_config import CHECKS  # noqa

NCPU = max(1, min(8, os.cpu_count() or 8))
FLAV = {
    "plain": ["-O1", "-DVH_POISON"],
    "asan": ["-O0", "-gline-tables-only", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DVH_ASAN"],
    # only tensor storage is poisoned (by tt.h), so the uninstrumented C++ library cannot raise alarms
    "msan": ["-O1", "-gline-tables-only", "-fsanitize=memory", "-fno-sanitize-memory-use-after-dtor", "-mllvm", "-msan-poison-stack=0", "-DVH_MSAN"],
    "tsan": ["-O1", "-gline-tables-only", "-fsanitize=thread", "-DVH_TSAN"],
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                    "max_malloc_fill_size=67108864:malloc_fill_byte=255:print_summary=1:handle_abort=1:malloc_context_size=12:"
                    "alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:quarantine_size_mb=32",
    "MSAN_OPTIONS": "poison_in_malloc=0:poison_in_free=0:exit_code=77:halt_on_error=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "report_thread_leaks=0:halt_on_error=1:exitcode=77:second_deadlock_stack=1:detect_deadlocks=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=77:print_suppressions=0",
}


def die(msg):
    print("HARNESS-ERROR:", msg, flush=True)
    sys.exit(2)


def compile_all(jobs, outdir):
    """jobs: list of (src, obj, flags), biggest first"""
    errs = []

    def one(j):
        src, obj, flags = j
        for attempt in range(3):
            r = subprocess.run(["clang++"] + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return None
            if "error:" in r.stdout:
                break
            time.sleep(2)
        return src + "\n" + r.stdout[-4000:]

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(one, jobs):
            if e:
                errs.append(e)
    return errs


def build(builds, work):
    """compiles every library flavour needed plus the harness mains; returns list of executables"""
    jobs, links, done = [], [], set()
    src = os.path.join(REPO, "src")
    for i, b in enumerate(builds):
        fl = FLAV[b["flavour"]] + b.get("flags", [])
        # one library per distinct flag set
        dist = bool(b.get("dist"))
        only = b.get("sources")
        key = hashlib.md5(repr((fl, only)).encode()).hexdigest()[:8]
        common = ["-std=c++17", "-I" + os.path.join(VERIF, "harness", "stub"), "-I" + src, "-I" + os.path.join(REPO, "third_party"), "-w", "-DNDEBUG"] + fl
        libobjs = []
        srcs = sorted(glob.glob(src + "/**/*.cpp", recursive=True))
        if not only:
            srcs = [s for s in srcs if "/Distributed/" not in s]
        else:
            srcs = [s for s in srcs if any(re.search(p, s) for p in only)]
        if dist:
            srcs += [os.path.join(src, "Distributed", d) for d in dist_sources(b["dist"])]
        for s in srcs:
            o = os.path.join(work, key + "_" + os.path.relpath(s, src).replace("/", "_") + ".o")
            libobjs.append(o)
            if o in done:
                continue
            done.add(o)
            f = list(common)
            if "/Distributed/" in s:
                f += ["-include", os.path.join(VERIF, "harness", "dist_shim.h")]
            else:
                f += ["-fno-exceptions"]
            jobs.append((os.path.getsize(s) + (10**7 if "OpElemWiseCpu" in s else 10**6 if "Cpu.cpp" in s else 0), s, o, f))
        ho = []
        for m in b["main"] if isinstance(b["main"], list) else [b["main"]]:
            s = os.path.join(VERIF, "harness", m)
            o = os.path.join(work, "h%d_%s.o" % (i, m))
            ho.append(o)
            jobs.append((9 * 10**6 + os.path.getsize(s), s, o, common + b.get("hflags", [])))
        links.append((os.path.join(work, "run%d" % i), ho + libobjs, fl + b.get("lflags", [])))
    jobs.sort(key=lambda j: -j[0])
    errs = compile_all([(s, o, f) for _, s, o, f in jobs], work)
    if errs:
        die("build failed:\n" + "\n".join(errs)[:6000])
    exes = []
    for exe, objs, fl in links:
        r = subprocess.run(["clang++"] + fl + objs + ["-o", exe, "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            die("link failed:\n" + r.stdout[-4000:])
        exes.append(exe)
    return exes


def dist_sources(sel):
    return sel


def run_env(work, extra=None):
    e = dict(os.environ)
    e.update(ENV)
    for k, v in (extra or {}).items():
        e[k] += ":" + v
    e["VH_SCRATCH"] = work
    e["TMPDIR"] = work
    return e


def run_shards(exe, b, i, work, seed, scale, tier, only):
    n = b.get("shards", NCPU)
    procs = []
    for s in range(n):
        out = os.path.join(work, "o%d_%d.json" % (i, s))
        sd = os.path.join(work, "s%d_%d" % (i, s))
        os.makedirs(sd, exist_ok=True)
        cmd = [exe, "--seed", str(seed), "--scale", str(scale), "--shard", "%d/%d" % (s, n), "--out", out,
               "--log", os.path.join(work, "l%d_%d.txt" % (i, s))]
        if tier == "thorough":
            cmd.append("--thorough")
        if only:
            cmd += ["--only", only]
        env = run_env(sd, b.get("env"))
        pre = None
        procs.append((subprocess.Popen(cmd, env=env, cwd=sd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "e%d_%d.txt" % (i, s)), "w"),
                                       start_new_session=True, preexec_fn=pre), out))
    res = []
    for p, out in procs:
        rc = p.wait()
        if not os.path.exists(out):
            die("shard produced no result (rc %s)" % rc)
        res.append((json.load(open(out)), out + ".hash"))
    return res


def replay_once(exe, b, spec, tier, work, timeout):
    env = run_env(work, b.get("env"))
    cmd = [exe, "--replay", spec] + (["--thorough"] if tier == "thorough" else [])
    p = subprocess.Popen(cmd, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, "timeout"


def known_findings():
    res = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) suite=(\S+) sig=(\S+) msg=/(.*)/ (.*)", l.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--keep")
    a = ap.parse_args()
    t0 = time.time()
    if a.selftest:
        # everything is built by the checks themselves; only make sure that the tools are there
        for t in ("clang++",):
            if not shutil.which(t):
                die(t + " not found")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("ok")
        sys.exit(0)
    cfg = CHECKS[a.id]
    work = a.keep or tempfile.mkdtemp(prefix="ttverif_%s_" % a.id)
    os.makedirs(work, exist_ok=True)
    os.chmod(work, 0o755)
    try:
        rc = go(a, cfg, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def go(a, cfg, work, t0):
    builds = cfg["builds"]
    if a.replay:
        rp = json.load(open(a.replay))
        b = builds[rp["build"]]
        exe = build([b], work)[0]
        for k in range(5):
            rc, o = replay_once(exe, b, rp["spec"], rp["tier"], work, 600)
            print(o[-6000:])
            if rc != 0:
                print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
                return 1
        print("replay did not fail")
        return 0
    if a.tier == "quick":
        builds = [b for b in builds if not b.get("thorough_only")]
    tb = time.time()
    exes = build(builds, work)
    tb = time.time() - tb
    tot = dict(evaluations=0, planned=0)
    counters, samples, viols, hashes = {}, [], [], set()
    per = []
    for i, b in enumerate(builds):
        scale = a.scale if a.scale else b.get(a.tier, 1.0)
        ts = time.time()
        res = run_shards(exes[i], b, i, work, a.seed, scale, a.tier, a.only)
        ev = 0
        for r, hf in res:
            if r["harness_errors"] > 50:
                die("could not start workers")
            ev += r["evaluations"]
            tot["planned"] += r["planned"]
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            samples += r["samples"][:4]
            for v in r["violations"]:
                v["build"] = i
                viols.append(v)
            if os.path.exists(hf):
                d = open(hf, "rb").read()
                hashes.update(d[k:k + 8] for k in range(0, len(d), 8))
        tot["evaluations"] += ev
        per.append(dict(build=b["flavour"], main=b["main"], cases=ev, seconds=round(time.time() - ts, 1)))
    # a time-out is only a finding if the case hangs again on its own
    confirmed, slow = [], 0
    for v in viols:
        if v["sig"].startswith("hang") and v["suite"] != "end-of-run":
            if any(w["suite"] == v["suite"] and w["sig"].startswith("hang") for w in confirmed):
                continue  # one confirmed per suite is enough
            tries = cfg.get("hang_tries", 1)
            bad = False
            for _ in range(tries):
                rc, o = replay_once(exes[v["build"]], builds[v["build"]], v["replay"], a.tier, work, cfg.get("hang_timeout", 150))
                if rc != 0:
                    bad = True
                    v["msg"] += "\nreplay: " + o[-1500:]
                    break
            if not bad:
                slow += 1
                continue
        confirmed.append(v)
    known = known_findings()
    out, seenk = [], set()
    for v in confirmed:
        k = next((k for k in known if k[0] == a.id and k[1] == v["suite"] and re.fullmatch(k[2], v["sig"]) and re.search(k[3], v["msg"])), None)
        if k:
            if k not in seenk:
                seenk.add(k)
                print("KNOWN-FINDING: property=%s %s" % (a.id, k[4]))
        else:
            out.append(v)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, a.id + "-*.json")):
        os.remove(f)
    sigs = {}
    for v in out:
        sigs.setdefault((v["suite"], v["sig"]), []).append(v)
    n = 0
    for (suite, sig), vs in list(sigs.items())[:12]:
        v = vs[0]
        n += 1
        p = os.path.join(rdir, "%s-%d.json" % (a.id, n))
        full = CHECKS[a.id]["builds"]
        json.dump(dict(property=a.id, build=full.index(builds[v["build"]]), tier=a.tier, spec=v["replay"], suite=suite, sig=sig,
                       message=v["msg"], times=len(vs)), open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.id, p))
        print("  %s [%s] x%d\n  %s" % (v["replay"], sig, len(vs), v["msg"][:1500]))
    cov = dict(evaluations=tot["evaluations"], distinct_nontrivial=len(hashes), rule=cfg["rule"], samples=samples[:24] or ["(none)"],
               observed=dict(sorted(counters.items())), runs=per, planned=tot["planned"], timeouts_not_reproduced=slow,
               build_s=round(tb, 1), exhaustive=False)
    ev = dict(property=a.id, tier=a.tier, seed=a.seed, level=cfg.get("level", "exploration"), coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(out))
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.id + ".json"), "w"), indent=1)
    if tot["evaluations"] < tot["planned"] - slow and not viols:
        die("only %d of %d planned cases ran" % (tot["evaluations"] , tot["planned"]))
    for k, mn in cfg.get("must_observe", {}).items():
        got = sum(v for c, v in counters.items() if re.fullmatch(k, c))
        if not viols and not a.only and not a.scale and got < mn:
            die("monitor observed only %d events of %s" % (got, k))
    print("%s %s: %d cases, %d distinct, %d violations, build %.1fs, total %.1fs" % (
        a.id, a.tier, tot["evaluations"], len(hashes), len(out), tb, time.time() - t0))
    return 1 if out else 0


if __name__ == "__main__":
    main()
