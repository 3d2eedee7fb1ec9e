#!/usr/bin/env python3
"""Build the harnesses of one property against /repo's working tree, explore its
bounded space on all cores, and report.

  run.py C01                  (tier from VERIF_TIER, default quick)
  run.py C01 --tier thorough
  run.py C01 --replay FILE    (re-executes the single case a VIOLATION line names)
"""
import re, sys, os, json, subprocess, hashlib, time, shutil, argparse, glob, signal
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("STRF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

NPROC = max(1, int(os.environ.get("MC_JOBS", 0)) or min(8, os.cpu_count() or 8))


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    for f in sorted(glob.glob(HERE + "/*.hpp") + glob.glob(HERE + "/h/*.hpp") + glob.glob(HERE + "/data/*")):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h


def flags_of(job):
    fl = ["-std=" + job.get("std", "c++20")] + job.get("opt", "-O1").split() + ["-w", "-I" + os.path.join(REPO, "include"), "-I" + HERE]
    if job.get("san"):
        fl += ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        fl += ["-fno-sanitize=" + s for s in job.get("nosan", ["alignment"])]
    for d in job.get("defs", []):
        fl.append("-D" + d)
    return fl


def build_libs(job, base):
    """The shared libraries of a configuration job: libs = [(name, compiler, flags, static)], each of nsec sections of cfg/catalog.cpp."""
    cat = os.path.join(HERE, "cfg", "catalog.cpp")
    d = os.path.join(BUILD, "bin", "lib-" + job["name"] + "-" + hashlib.sha256(base + open(cat, "rb").read() + repr(job["libs"]).encode()).hexdigest()[:16])
    for old in glob.glob(os.path.join(BUILD, "bin", "lib-" + job["name"] + "-*")):
        if old != d:
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)

    def run(cmd):
        if os.path.exists(cmd[-1]):
            return None
        t = cmd[:-1] + [cmd[-1] + ".tmp"]
        r = subprocess.run(t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return "compile of %s failed:\n%s\n%s" % (job["name"], " ".join(t), r.stdout[-4000:])
        os.rename(t[-1], cmd[-1])
    todo, links, paths = [], [], []
    for i, (name, cxx, flags, static) in enumerate(job["libs"]):
        com = [cxx] + flags.split() + ["-w", "-fPIC", "-fvisibility=hidden", "-I" + os.path.join(REPO, "include")]
        objs = []
        for k in range(4):
            o = os.path.join(d, "l%d.%d.o" % (i, k)); objs.append(o)
            todo.append(com + (["-DSTRF_SEPARATE_COMPILATION"] if static else []) + ["-DSEC=%d" % k, "-c", cat, "-o", o])
        if static:
            o = os.path.join(d, "l%d.s.o" % i); objs.append(o)
            todo.append(com + ["-DSTRF_SEPARATE_COMPILATION", "-c", os.path.join(REPO, "src/strf.cpp"), "-o", o])
        so = os.path.join(d, "l%d.so" % i); paths.append(so)
        links.append([cxx, "-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs"] + objs + ["-o", so])
    todo.sort(key=lambda c: ("-DSEC=0" not in c, not re.search("-O[23]", " ".join(c))))      # the longest first
    with ThreadPoolExecutor(NPROC) as ex:
        for stage in (todo, links):
            for e in ex.map(run, stage):
                if e:
                    return e, None
    return None, ['-DCFG_NAMES="%s"' % ";".join(l[0] for l in job["libs"]), '-DCFG_PATHS="%s"' % ";".join(paths)]


def compile_job(job, base):
    src = os.path.join(HERE, "h", job["src"])
    fl = flags_of(job)
    cxx = job.get("cxx", "g++")
    key = hashlib.sha256(base + open(src, "rb").read() + repr((fl, cxx, job.get("static"), job.get("link"), job.get("libs") and open(os.path.join(HERE, "cfg", "catalog.cpp")).read(), job.get("libs"))).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", job["name"] + "-" + key)
    if os.path.exists(exe):
        return exe, None
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, "bin", job["name"] + "-*")):
        if len(os.path.basename(old)) == len(job["name"]) + 25:
            try:
                os.unlink(old)
            except OSError:
                pass
    tmp = exe + ".%d.tmp" % os.getpid()
    if job.get("libs"):
        err, more = build_libs(job, base)
        if err:
            return None, err
        fl = fl + more
    cmd = [cxx] + fl + [src]
    if job.get("static"):
        cmd += ["-DSTRF_SEPARATE_COMPILATION", os.path.join(REPO, "src/strf.cpp")]
    cmd += ["-o", tmp] + job.get("link", [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, "compile of %s failed:\n%s\n%s" % (job["name"], " ".join(cmd), r.stdout[-4000:])
    os.rename(tmp, exe)
    return exe, None


def headers_compile():
    r = subprocess.run(["g++", "-std=c++20", "-w", "-fsyntax-only", "-x", "c++", "-I" + os.path.join(REPO, "include"), "-"], text=True,
                       input="#include <string_view>\n#include <strf.hpp>\n#include <strf/to_string.hpp>\nint main() { return (int)strf::to_string(1, 'a', \"b\", 0.5).size(); }\n", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return r.returncode == 0


ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:handle_abort=0:handle_segv=0:allocator_may_return_null=0",
           UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1:halt_on_error=1", LC_ALL="C")


def run_shard(exe, job, shard, nshards, tier, rundir):
    out = os.path.join(rundir, "%s.%d" % (job["name"], shard))
    cmd = [exe, "--shard", str(shard), "--nshards", str(nshards), "--tier", tier, "--out", out]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=job.get("timeout", 850 if tier == "quick" else 86400), cwd=rundir)
        rc, log = r.returncode, r.stdout[-6000:].decode("latin1")
    except subprocess.TimeoutExpired as e:
        rc, log = -999, "timed out"
    recs = []
    if os.path.exists(out):
        for line in open(out, encoding="latin1"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    return dict(job=job, shard=shard, nshards=nshards, rc=rc, log=log, recs=recs, out=out)


def replay(exe, case, tier):
    cmd = [exe, "--only", str(case), "--tier", tier]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=300)
        return r.returncode, r.stdout.decode("latin1")[-8000:]
    except subprocess.TimeoutExpired as e:
        return 124, "did not terminate within 300 s\n" + (e.stdout or b"").decode("latin1")[-4000:]


def load_known():
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [e for e in json.load(open(f))["findings"] if e.get("status") == "open"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--job", help="only this job (development)")
    a = ap.parse_args()
    P = PROPS[a.prop]
    t0 = time.time()
    base = tree_hash().digest()
    jobs = [dict(j) for j in P["jobs"] if a.tier == "thorough" or not j.get("thorough_only")]
    if a.job:
        jobs = [j for j in jobs if j["name"] == a.job]

    if a.replay:
        rp = json.load(open(a.replay))
        jb = [j for j in P["jobs"] if j["name"] == rp["job"]][0]
        exe, err = compile_job(jb, base)
        if err:
            print(err); return 2
        rc, log = replay(exe, rp["case"], rp["tier"])
        print(log)
        if rc != 0:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        return 0

    rundir = os.path.join(BUILD, "run-%s-%d" % (a.prop, os.getpid()))
    os.makedirs(rundir, exist_ok=True)
    code = 2
    try:
        code = explore(a, P, jobs, base, rundir, t0)
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
    return code


def explore(a, P, jobs, base, rundir, t0):
    with ThreadPoolExecutor(NPROC) as ex:
        built = list(ex.map(lambda j: compile_job(j, base), jobs))
    errs = [e for _, e in built if e]
    if errs:
        # the harnesses use the public interface only: what they use must keep compiling, as long as the headers themselves do
        for j, (_, e) in zip(jobs, built):
            if e and re.search(": error: |undefined reference|multiple definition", e) and headers_compile():
                f = os.path.join(VERIF, "replays", a.prop + "-" + j["name"] + "-compile.txt")
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, "w").write(e)
                print(e)
                print("VIOLATION property=%s replay=%s" % (a.prop, f))
                return 1
        print("\n".join(errs))
        print("ERROR: a harness does not build against this tree")
        return 2
    tbuild = time.time() - t0
    tasks = []
    for j, (exe, _) in zip(jobs, built):
        n = j.get("shards", NPROC)
        tasks += [(exe, j, s, n) for s in range(n)]
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda t: run_shard(t[0], t[1], t[2], t[3], a.tier, rundir), tasks))
    exe_of = {j["name"]: exe for j, (exe, _) in zip(jobs, built)}

    known = [k for k in load_known() if k["property"] == a.prop]
    known_hit = {}
    viol, broken = [], []
    states = steps = cases = 0
    samples, counters, per_job = [], {}, {}
    for r in res:
        jn = r["job"]["name"]
        end = None
        for rec in r["recs"]:
            if rec["t"] == "fail":
                k = next((k for k in known if k["key"] == rec["key"]), None)
                if k:
                    known_hit.setdefault(k["key"], k)
                else:
                    viol.append(dict(job=jn, case=rec["case"], key=rec["key"], text=rec["text"]))
            elif rec["t"] in ("crash", "hang"):
                viol.append(dict(job=jn, case=rec["case"], key=rec["t"] + "@%d" % rec["case"],
                                 text=("the process crashed (signal %s: segfault, assertion, sanitizer report or unexpected exception)" % rec.get("sig") if rec["t"] == "crash" else "the case did not terminate") + "\n" + r["log"][-3000:]))
            elif rec["t"] == "end":
                end = rec
        if end is None and not any(x["t"] in ("crash", "hang") for x in r["recs"]):
            broken.append("%s shard %d: rc=%s\n%s" % (jn, r["shard"], r["rc"], r["log"][-2000:]))
        if end:
            steps += end["steps"]; cases += end["cases"]
            pj = per_job.setdefault(jn, dict(space=end["space"], cases=0, steps=0))
            pj["cases"] += end["cases"]; pj["steps"] += end["steps"]
            samples += [("%s: " % jn) + s for s in end["samples"][:3 if r["shard"] else 6]]
            for k, v in end["counters"].items():
                counters[k] = counters.get(k, 0) + v
    # distinct states: union of the shards' sketches, per job
    for jn in per_job:
        acc = 0
        for r in res:
            f = r["out"] + ".sk"
            if r["job"]["name"] == jn and os.path.exists(f):
                acc |= int.from_bytes(open(f, "rb").read(), "little")
        per_job[jn]["states"] = acc.bit_count()
        states += per_job[jn]["states"]
    complete = not viol and not broken
    for jn, pj in per_job.items():
        if complete and pj["cases"] != pj["space"]:
            broken.append("%s: explored %d of %d cases" % (jn, pj["cases"], pj["space"]))
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    # replay files
    rdir = os.path.join(VERIF, "replays")
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in viol:
            if (v["job"], v["case"]) in seen or len(seen) >= 5:
                continue
            seen.add((v["job"], v["case"]))
            path = os.path.join(rdir, "%s-%s-%d.json" % (a.prop, v["job"], v["case"]))
            rc, log = replay(exe_of[v["job"]], v["case"], a.tier)
            json.dump(dict(property=a.prop, tier=a.tier, job=v["job"], case=v["case"], key=v["key"], text=v["text"],
                           replay_rc=rc, replay_log=log, cmd="python3 mc/run.py %s --replay %s" % (a.prop, path)),
                      open(path, "w"), indent=1)
            print("---- %s (case %d of %s)\n%s" % (v["key"], v["case"], v["job"], v["text"][:1500]))
            lines.append("VIOLATION property=%s replay=%s" % (a.prop, path))
    wall = time.time() - t0
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=states, transitions=steps, traces_validated_against_impl=cases,
                            exhaustive=complete and not broken,
                            space=P["bounds"], per_harness=per_job, counters=counters, samples=samples[:30],
                            explanation="states: distinct (case, observable result) pairs, counted on a 2^27-cell sketch per harness (a lower bound); transitions: steps of the real code compared with the reference model; traces: complete executions of the real code (none sampled: every case of the stated space is run)."),
              assumptions=P.get("assumptions", []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d steps, %d states, build %.1fs, total %.1fs" % (a.prop, a.tier, cases, steps, states, tbuild, wall))
    for jn, pj in per_job.items():
        print("   ", jn, pj)
    if lines:
        print("\n".join(lines))
        return 1
    if broken:
        print("ERROR: " + "\n".join(broken))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
