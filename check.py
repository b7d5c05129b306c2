#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py C01 [quick|thorough]
Builds the library from /repo's working tree together with the property's harness, explores, writes
evidence/<id>.json.  Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
Replay of a reported execution: python3 check.py C01 --replay FILE"""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "/usr/bin/g++"
FLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize=bounds",
         "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-ftrivial-auto-var-init=pattern", "-pthread"]

LEVEL = "model_checking"
META = json.load(open(os.path.join(HERE, "checks.json")))

def build(prop, bdir, extra=()):
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    if prop == "C24":
        srcs += sorted(glob.glob(os.path.join(REPO, "src", "pybind", "*.cpp")))
    hs = [os.path.join(HERE, "harness", "explore.cpp"), os.path.join(HERE, "harness", prop.lower() + ".cpp")]
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")]
    jobs = []
    for s in hs[::-1] + srcs:
        o = os.path.join(bdir, os.path.basename(s) + ".o")
        jobs.append((s, o))
    def cc(j):
        s, o = j
        # C20: every basic block of the library is a place where its scheduler can preempt a thread
        pre = ["-fsanitize-coverage=trace-pc"] if prop == "C20" and s in srcs else []
        r = subprocess.run([CXX, *FLAGS, *pre, *extra, *inc, "-c", s, "-o", o], capture_output=True, text=True)
        return (r.returncode, s, r.stderr)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for rc, s, err in ex.map(cc, jobs):
            if rc:
                sys.stderr.write("cannot compile %s\n%s\n" % (s, err[:6000]))
                return None
    exe = os.path.join(bdir, "check")
    r = subprocess.run([CXX, *FLAGS, *[o for _, o in jobs], "-o", exe], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[:6000])
        return None
    return exe

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if len(sys.argv) > 2:
        if sys.argv[2] == "--replay":
            replay = sys.argv[3]
        else:
            tier = sys.argv[2]
    only = os.environ.get("VERIF_ONLY")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="sedmc-build.", dir="/tmp")
    shm = "/dev/shm"
    scratch = tempfile.mkdtemp(prefix="sedmc.", dir=shm if os.access(shm, os.W_OK) else "/tmp")
    try:
        exe = build(prop, bdir)
        if not exe:
            return 2
        tb = time.time() - t0
        rdir = os.path.join(HERE, "replays", prop)
        os.makedirs(rdir, exist_ok=True)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=512:abort_on_error=0:exitcode=77:"
                               "max_malloc_fill_size=65536:malloc_fill_byte=202:detect_stack_use_after_return=0:quarantine_size_mb=16:"
                               "symbolize=1:allocator_release_to_os_interval_ms=-1")
        env["VERIF_SCRATCH"] = scratch
        env["VERIF_KNOWN"] = "\n".join(known_findings(prop))
        env.pop("LD_PRELOAD", None)
        if replay:
            return subprocess.run([exe, "--replay", replay], env=env).returncode
        out = os.path.join(bdir, "out.json")
        args = [exe, "--tier", tier, "--workers", str(max(1, min(16, os.cpu_count() or 4))), "--out", out, "--replays", rdir]
        if only:
            args += ["--only", only]
        r = subprocess.run(args, env=env, capture_output=True, text=True, errors="replace")
        sys.stderr.write(r.stderr)
        if not os.path.exists(out):
            sys.stderr.write(r.stdout)
            return 2
        res = json.load(open(out))
        m = META[prop]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
            "coverage": {
                "states": res["states"], "transitions": res["transitions"],
                "traces_validated_against_impl": res["executions"],
                "exhaustive": bool(res["complete"]) and not only,
                "scenarios": res["scenarios"],
                "bounds": m["bounds"][tier] if isinstance(m["bounds"], dict) else m["bounds"],
                "oracle": m["oracle"],
                "samples": res["samples"] or ["(none)"],
                "explanation": "Every execution is run on the real library built from /repo and compared step by step with the reference "
                               "model; states = distinct observed/model states (hash), transitions = library operations performed, "
                               "traces_validated_against_impl = complete executions enumerated.",
            },
            "assumptions": m.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if r.returncode == 1 else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in res["known"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        print("%s %s: %d executions, %d transitions, %d states, build %.1f s, total %.1f s" % (
            prop, tier, res["executions"], res["transitions"], res["states"], tb, time.time() - t0))
        if r.returncode == 1:
            lines = r.stdout.splitlines()
            i = [k for k, l in enumerate(lines) if l.startswith("BAD ")][-1]
            print("\n".join(lines[i + 1:])[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, lines[i].split(" ", 1)[1]))
            return 1
        return 0 if r.returncode == 0 else 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
