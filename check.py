#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and runs one check.

  check.py run C01 [--tier quick|thorough]    exit 0 held, 1 violation, 2 error of the check
  check.py replay FILE                        re-evaluates a replay file against the current tree
  check.py setup                              builds everything once (smoke test of the machinery)
  check.py all [--tier ...]                   runs every check
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
REF = os.path.join(HERE, "ref")
EIGEN = ["-isystem", "/usr/include/eigen3"]
JOBS = max(1, min(16, os.cpu_count() or 4))

sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def tree_hash(patterns):
    h = hashlib.sha256()
    for pat in patterns:
        for f in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode())
                with open(f, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def library_sources(root):
    """All translation units of the library (the ROS node is not part of it)."""
    out = []
    for f in sorted(glob.glob(os.path.join(root, "src", "**", "*.cpp"), recursive=True)):
        with open(f, errors="replace") as fh:
            text = fh.read()
        if re.search(r'#\s*include\s*[<"](ros/|rclcpp/)', text) or re.search(r"\bint\s+main\s*\(", text):
            continue
        out.append(f)
    return out


def compile_jobs(jobs):
    """jobs: list of (cmd prefix, source, object). Compiled in parallel, reused when nothing relevant changed."""
    todo = [j for j in jobs if not os.path.exists(j[2])]

    def one(job):
        cmd, src, obj = job
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        r = sh(cmd + ["-c", src, "-o", tmp])
        if r.returncode:
            return "%s\n%s" % (" ".join(cmd + [src]), r.stdout[-4000:])
        os.replace(tmp, obj)
        return None

    # longest sources first
    todo.sort(key=lambda j: -os.path.getsize(j[1]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        raise BuildError("\n".join(errs[:3]))


def build(variant):
    v = VARIANTS[variant]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    cxx = [v["cxx"], "-std=c++17"] + v["flags"]
    repo_hdr = tree_hash([os.path.join(REPO, "include", "**", "*")])
    har_hdr = tree_hash([os.path.join(HARNESS, "*.hpp"), os.path.join(HARNESS, "*.inc")])
    ref_hdr = tree_hash([os.path.join(REF, "include", "**", "*")])

    def obj(cmd, src, extra):
        h = hashlib.sha256()
        h.update(" ".join(cmd).encode())
        h.update(extra.encode())
        with open(src, "rb") as fh:
            h.update(fh.read())
        h.update(os.path.basename(src).encode())
        return os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")

    jobs = []
    for src in library_sources(REPO):
        cmd = cxx + v.get("libflags", []) + ["-I" + os.path.join(REPO, "include")] + EIGEN
        jobs.append((cmd, src, obj(cmd, src, repo_hdr)))
    if v.get("ref"):
        for src in library_sources(REF):
            cmd = [v["cxx"], "-std=c++17", "-O1", "-DNDEBUG", "-w", "-I" + os.path.join(REF, "include")] + EIGEN
            jobs.append((cmd, src, obj(cmd, src, ref_hdr)))
        src = os.path.join(HARNESS, "spaces_ref.cpp")
        cmd = [v["cxx"], "-std=c++17", "-O1", "-w", "-I" + os.path.join(REF, "include"), "-I" + HARNESS] + EIGEN
        jobs.append((cmd, src, obj(cmd, src, ref_hdr + har_hdr)))
    for name in v["harness"]:
        src = os.path.join(HARNESS, name)
        cmd = cxx + [f.replace("{H}", HARNESS) for f in v.get("harflags", [])] + ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + EIGEN
        jobs.append((cmd, src, obj(cmd, src, har_hdr + repo_hdr)))
    compile_jobs(jobs)
    objs = [j[2] for j in jobs]
    key = hashlib.sha256(("|".join(objs) + " ".join(cxx)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "pbt-%s-%s" % (variant, key))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        r = sh(cxx + objs + ["-o", tmp, "-lpthread"])
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        os.replace(tmp, exe)
    prune()
    return exe


def prune():
    """Keeps the cache of objects and binaries small."""
    for pat, keep in (("obj/*.o", 500), ("pbt-*", 24)):
        fs = sorted(glob.glob(os.path.join(BUILD, pat)), key=os.path.getmtime, reverse=True)
        now = time.time()
        for f in fs[keep:]:
            if now - os.path.getmtime(f) > 600:
                try:
                    os.unlink(f)
                except OSError:
                    pass


def known_findings(pid):
    """known: property=Cnn key=<key> <what fails>   (lines starting with fixed: suppress nothing)"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def san_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["MSAN_OPTIONS"] = "abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1"
    return e


def run_check(pid, tier):
    t0 = time.time()
    chk = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    known = known_findings(pid)
    parts, seen_known, violation, errors = [], {}, None, []
    build_s = 0.0
    total_cap = 600.0 if tier == "quick" else 6 * 3600.0
    for run in chk["runs"]:
        if tier == "quick" and run.get("tier") == "thorough":
            continue
        tb = time.time()
        try:
            exe = build(run["variant"])
        except BuildError as e:
            print("BUILD-ERROR %s (%s)\n%s" % (pid, run["variant"], e))
            return 2
        build_s += time.time() - tb
        out = os.path.join(BUILD, "result-%s-%s-%s.json" % (pid, run["name"], run["variant"]))
        replay = os.path.join(HERE, "replays", "%s-%s-%s-seed%d.json" % (pid, run["name"], run["variant"], seed))
        if os.path.exists(out):
            os.unlink(out)
        cap = total_cap - (time.time() - t0)
        cases = run.get("quick" if tier == "quick" else "thorough", 0)
        cmd = [exe, "run", run["name"], "--tier", tier, "--cases", str(cases), "--seed", str(seed), "--jobs",
               str(run.get("jobs", JOBS)), "--timecap", "%.0f" % max(10.0, min(cap, run.get("cap", cap))), "--out", out,
               "--replay", replay]
        if known:
            cmd += ["--known", ",".join(known)]
        r = sh(cmd, env=san_env(), cwd=BUILD)
        with open(os.path.join(BUILD, "log-%s-%s-%s.txt" % (pid, run["name"], run["variant"])), "w") as fh:
            fh.write(r.stdout)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("ERROR %s: %s ended with %s\n%s" % (pid, run["name"], r.returncode, r.stdout[-3000:]))
            return 2
        d = json.load(open(out))
        d["variant"] = run["variant"]
        parts.append(d)
        for k, n in d["known"].items():
            seen_known[k] = seen_known.get(k, 0) + n
        for u in d["unconfirmed"]:
            errors.append(u)
            print("NOTE %s: a failure could not be reproduced: %s" % (pid, u))
        if r.returncode == 1:
            # annotate the replay file with how to run it
            rp = json.load(open(replay))
            rp.update({"check": pid, "variant": run["variant"], "seed": seed, "tier": tier,
                       "rerun": "python3 check.py replay %s" % os.path.relpath(replay, HERE)})
            json.dump(rp, open(replay, "w"), indent=1)
            violation = (replay, d["message"], d["case"])
            break
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, known.get(k, k), seen_known[k]))
    words = {}
    for d in parts:
        for k in d["labels"]:
            if k.startswith("word:"):
                words.setdefault(k.split(":")[1], set()).add(k.split(":")[2])
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": chk["level"],
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in parts),
            "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in parts),
            "rule": " || ".join("%s (%s): %s" % (d["property"], d["variant"], d["rule"]) for d in parts),
            "samples": [s for d in parts for s in d["samples"]][:12],
            "runs": [{k: d[k] for k in ("property", "variant", "requested", "evaluations", "nontrivial",
                                        "distinct_nontrivial", "explore_s", "jobs", "max_error_over_tolerance")}
                     for d in parts],
            "distribution": {k: v for d in parts for k, v in d["labels"].items() if not k.startswith("word:")},
            "distinct_path_words_per_space": {k: len(v) for k, v in sorted(words.items())},
        },
        "known_findings": {k: n for k, n in seen_known.items()},
        "unreproduced": errors,
        "violation": None if not violation else {"replay": os.path.relpath(violation[0], HERE), "message": violation[1],
                                                 "case": violation[2]},
        "build_s": round(build_s, 2),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if violation:
        print("%s: %s\n  minimal case: %s" % (pid, violation[1], violation[2]))
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    print("%s held on %d cases (%d distinct non-trivial), seed %d, %.1f s" %
          (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], seed, ev["wall_s"]))
    return 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a[:1] == ["run"] and len(a) == 2 and a[1] in CHECKS:
        return run_check(a[1], tier)
    if a[:1] == ["all"]:
        rc = 0
        for pid in CHECKS:
            rc = max(rc, run_check(pid, tier))
        return rc
    if a[:1] == ["setup"]:
        for v in VARIANTS:
            t = time.time()
            try:
                build(v)
            except BuildError as e:
                print("BUILD-ERROR (%s)\n%s" % (v, e))
                return 2
            print("built %s in %.1f s" % (v, time.time() - t))
        return 0
    if a[:1] == ["replay"] and len(a) == 2:
        rp = json.load(open(a[1]))
        exe = build(rp.get("variant", "main"))
        cmd = [exe, "replay", os.path.abspath(a[1])]
        known = known_findings(rp.get("check", ""))
        if known:
            cmd += ["--known", ",".join(known)]
        env = san_env()
        env["VH_VERBOSE"] = "1"
        r = sh(cmd, env=env)
        print(r.stdout)
        return r.returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
