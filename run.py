#!/usr/bin/env python3
"""Build and run the model-checking harnesses of one property.

  run.py check ID [--tier quick|thorough]   exit 0 held, 1 violated (VIOLATION line), 2 error
  run.py replay FILE                        replay a recorded violation
  run.py setup                              check the tools, build nothing that a check relies on
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, concurrent.futures

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
sys.path.insert(0, VERIF)
from checks import CHECKS, HARNESSES  # noqa: E402

CXX = "g++"
BASE = ["-std=c++11", "-g1", "-pthread", "-DHAVE_PTHREADS", "-w"]
ASAN_OPTS = "detect_leaks=0:quarantine_size_mb=24:malloc_context_size=5:allocator_may_return_null=1:exitcode=66:hard_rss_limit_mb=3500:detect_stack_use_after_return=0"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def sources_of_repo():
    out = []
    for d in ("include", "src", "rx"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files if re.search(r"\.(h|c|cpp)$", f)]
    return out


def build(name):
    """Compile a harness together with the repository's current sources; returns (binary, log)."""
    hn = HARNESSES[name]
    hdir = os.path.join(VERIF, "harness")
    hs = [os.path.join(r, f) for r, _, fs in os.walk(hdir) for f in fs if re.search(r"\.(h|cpp|inc|list)$", f)]
    key = tree_hash(hs + sources_of_repo() + [os.path.join(VERIF, "checks.py"), os.path.abspath(__file__)])
    d = os.path.join(BUILD, name)
    binary = os.path.join(d, "h-" + key)
    if os.path.exists(binary):
        return binary, ""
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            os.unlink(p)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "rx"), "-I" + os.path.join(REPO, "src"), "-I" + hdir]
    if "shim" in hn:
        inc = ["-I" + os.path.join(hdir, hn["shim"])] + inc
    if "so" in hn:
        return build_scheduled(hn, hdir, d, binary, inc)
    san = hn.get("flags", ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"])
    jobs = []
    for s in [os.path.join(hdir, hn["main"])] + [os.path.join(REPO, s) for s in hn.get("repo", [])] + \
             [os.path.join(hdir, s) for s in hn.get("extra", [])]:
        o = os.path.join(d, os.path.basename(s) + ".o")
        own = s.startswith(hdir)
        fl = hn.get("own_flags", san) if (own and s.endswith(".cpp") and os.path.basename(s) in hn.get("uninstrumented", [])) else san
        jobs.append(([CXX] + BASE + fl + hn.get("defs", []) + inc + ["-c", s, "-o", o], o))
    log = ""
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (cmd, o), r in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
            log += r.stdout
            if r.returncode:
                return None, " ".join(cmd) + "\n" + log
    tmp = binary + ".tmp"
    r = sh([CXX] + hn.get("link_flags", san) + ["-pthread", "-o", tmp] + [o for _, o in jobs] + hn.get("libs", []))
    if r.returncode:
        return None, log + r.stdout
    os.rename(tmp, binary)
    for _, o in jobs:
        os.unlink(o)
    return binary, log


WRAPPED = "memcpy memmove memset memcmp memchr strlen strcmp strncmp strcpy strchr strrchr malloc calloc free realloc _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_".split()


def build_scheduled(hn, hdir, d, binary, inc):
    """The scheduler as the program, and beside it the scenarios with the code under test as a library."""
    tsan = ["-O1", "-fPIC", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-ftls-model=initial-exec", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fno-stack-protector"]
    jobs = [([CXX] + BASE + ["-O2"] + inc + ["-c", os.path.join(hdir, hn["main"]), "-o", os.path.join(d, "main.o")], os.path.join(d, "main.o"))]
    for s in [os.path.join(hdir, s) for s in hn["so"]] + [os.path.join(REPO, s) for s in hn.get("repo", [])]:
        o = os.path.join(d, os.path.basename(s) + ".o")
        jobs.append(([CXX] + BASE + tsan + hn.get("defs", []) + inc + ["-c", s, "-o", o], o))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (cmd, o), r in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
            if r.returncode:
                return None, " ".join(cmd) + "\n" + r.stdout
    r = sh([CXX, "-shared", "-Wl,-Bsymbolic", "-o", binary + ".so"] + ["-Wl,--wrap=" + w for w in WRAPPED] + [o for _, o in jobs[1:]])
    if r.returncode:
        return None, r.stdout
    r = sh([CXX, "-O2", "-pthread", "-Wl,--dynamic-list=" + os.path.join(hdir, "sched.list"), "-o", binary + ".tmp", jobs[0][1], "-ldl"])
    if r.returncode:
        return None, r.stdout
    os.rename(binary + ".tmp", binary)
    for _, o in jobs:
        os.unlink(o)
    return binary, ""


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?)(?: -- (.*))?$", line.rstrip("\n"))
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3) or ""
    return out


def run_config(pid, tier, spec, binary, known, seq, left):
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    d = os.path.join(BUILD, "out")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%d.json" % (pid, seq))
    kf = os.path.join(d, "%s-known.txt" % pid)
    with open(kf, "w") as f:
        f.writelines(k + "\n" for k in known)
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binary, "--config", spec["config"], "--workers", str(workers), "--out", out, "--known", kf,
           "--time", str(max(5, min(spec.get("time", 600), left)))]
    for k, v in spec.get("params", {}).items():
        cmd += ["--p", "%s=%d" % (k, v)]
    env = dict(os.environ, ASAN_OPTIONS=ASAN_OPTS, LC_ALL="C")
    r = sh(cmd, env=env, errors="replace")
    if not os.path.exists(out):
        return None, cmd, r.stdout
    with open(out, errors="replace") as f:
        return json.load(f), cmd, r.stdout


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ch = CHECKS[pid]
    specs = ch["quick"] if tier == "quick" else ch.get("thorough", ch["quick"])
    known = known_findings(pid)
    os.makedirs(EVID, exist_ok=True)
    results, violations, known_hit = [], [], set()
    names = sorted({s["harness"] for s in specs})
    bins = {}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for n, (b, log) in zip(names, ex.map(build, names)):
            if not b:
                print("ERROR: cannot build harness %s\n%s" % (n, log[-6000:]))
                return 2
            bins[n] = b
    err = False
    for seq, s in enumerate(specs):
        left = 100000 if tier != "quick" else int(780 - (time.time() - t0)) // (len(specs) - seq)  # never beyond 900 s
        left = max(left, 60) if tier != "quick" or time.time() - t0 < 700 else left
        js, cmd, log = run_config(pid, tier, s, bins[s["harness"]], known, seq, left)
        sys.stdout.write(log if len(log) < 6000 else log[:6000] + "...\n")
        if js is None:
            print("ERROR: %s produced no result" % " ".join(cmd))
            err = True
            continue
        if js.get("broken"):
            print("ERROR: harness error in %s" % s["config"])
            err = True
        js["harness"] = s["harness"]
        js["what"] = s.get("what", "")
        results.append(js)
        known_hit |= set(js["known"])
        for v in js["violations"]:
            violations.append((s, v))
        if js["unreproduced"]:
            print("NOTE: %d failures did not reproduce in %s" % (len(js["unreproduced"]), s["config"]))
        if violations:
            break
    lvl = "model_checking"
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["executions"] for r in results),
        "evaluations": sum(r["cases"] for r in results),
        "exhaustive": bool(results) and all(r["complete"] for r in results),
        "rule": ch.get("rule", ""),
        "configurations": [{
            "name": r["config"], "bounds": r["params"], "what": r["what"], "executions": r["executions"],
            "choice_tree_edges": r["transitions"], "cases": r["cases"], "distinct_states": r["states"],
            "state_table_full": r["states_full"], "distinct_outcomes": r["outcomes"],
            "longest_choice_sequence": r["max_depth"], "complete": r["complete"], "wall_s": r["wall"],
            **({"counters": r["extra"]} if r["extra"] else {}),
        } for r in results],
        "samples": [dict(config=r["config"], **s) for r in results for s in r["samples"][:2]][:8],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
          "assumptions": ch.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    if known_hit:
        ev["coverage"]["known_findings_met"] = sorted(known_hit)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k, " -- " + known[k] if known.get(k) else ""))
    if violations:
        d = os.path.join(REPLAYS, pid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for i, (s, v) in enumerate(violations):
            p = os.path.join(d, "%d.json" % i)
            with open(p, "w") as f:
                json.dump({"property": pid, "harness": s["harness"], "config": s["config"],
                           "params": s.get("params", {}), "choices": v["choices"], "message": v["msg"],
                           "key": v["key"], "trace": v["trace"],
                           "replay": "./run.py replay " + os.path.relpath(p, VERIF)}, f, indent=1)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if err:
        return 2
    print("%s: held on everything explored (%d executions, %.1fs)" % (pid, cov["traces_validated_against_impl"], time.time() - t0))
    return 0


def replay(path):
    js = json.load(open(path))
    b, log = build(js["harness"])
    if not b:
        print(log)
        return 2
    cmd = [b, "--config", js["config"], "--replay", js["choices"]]
    for k, v in js["params"].items():
        cmd += ["--p", "%s=%d" % (k, v)]
    r = subprocess.run(cmd, env=dict(os.environ, ASAN_OPTIONS=ASAN_OPTS))
    return r.returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["setup"]:
        os.makedirs(BUILD, exist_ok=True)
        r = sh([CXX, "--version"])
        print(r.stdout.splitlines()[0])
        return r.returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
