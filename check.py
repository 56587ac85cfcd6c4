#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] -- decide one property against /repo's working tree.

Builds the property's harnesses from /repo/src, runs the exhaustive exploration, replays every
violation found before reporting it, writes evidence/ID.json.
exit 0: held on everything explored; exit 1 + "VIOLATION property=ID replay=PATH": broken.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, ROOT)
import plan

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    units = [u for u in plan.CHECKS[pid]["units"] if tier == "thorough" or not u.get("thorough_only")]
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    os.chmod(scratch, 0o755)
    env = dict(os.environ, TMPDIR=scratch, MC_SCRATCH=scratch, MC_REPO=REPO, LC_ALL="C",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0")
    repdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(repdir, f))
    viols, results, broken = [], [], []
    try:
        def build(iu):
            i, u = iu
            exe = os.path.join(scratch, "h%d" % i)
            cmd = plan.compile_cmd(u, os.path.join(ROOT, "harness"), REPO, exe)
            for attempt in (0, 1):
                try:
                    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=scratch, timeout=600)
                except subprocess.TimeoutExpired:
                    return exe, cmd, "compile timeout"
                if r.returncode == 0:
                    return exe, cmd, None
            return exe, cmd, r.stdout
        with ThreadPoolExecutor(8) as ex:
            built = list(ex.map(build, enumerate(units)))
        for u, (exe, cmd, err) in zip(units, built):
            name = u["src"] + ":" + u.get("variant", "gcc17")
            if err is not None:
                # the harness uses the documented API only: not compiling means this API is gone
                viols.append(dict(unit=name, key="compile:" + name, item=-1, cmd=" ".join(cmd),
                                  text="a program using the documented interface no longer compiles:\n" + "\n".join(
                                      l for l in err.splitlines() if "error" in l)[:3000]))
                continue
            args = [exe, "--tier", u.get("tier", tier), "--jobs", "8", "--seed", str(seed), "--slots", str(u.get("slots", 22))] + u.get("args", [])
            ue = dict(env)
            if "asan" in u.get("variant", ""):
                ue["MC_ASAN"] = "1"
            def run(extra, limit):
                wd = tempfile.mkdtemp(dir=scratch)
                os.chmod(wd, 0o777)
                try:
                    r = subprocess.run(args + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                       errors="replace", env=dict(ue, MC_WD=wd), cwd=wd, timeout=limit)
                except subprocess.TimeoutExpired:
                    return None, "timeout"
                finally:
                    shutil.rmtree(wd, ignore_errors=True)
                m = re.findall(r"^MCRESULT (.*)$", r.stdout, re.M)
                return (json.loads(m[-1]) if m else None), "exit %d\n%s" % (r.returncode, r.stderr[-2000:])
            t1 = time.time()
            res, log = run([], 840 if tier == "quick" else 4 * 3600)
            died = re.match(r"exit (-4|-6|-7|-8|-11|0|1|4[0-9]|5[0-9])\n", log or "") if res is None else None
            second = run([], 840) if died else None
            if second and second[0] is None and second[1].startswith("exit " + died.group(1)):
                # the exploring process itself (not one of its forked cases) was killed by the code under test, twice
                viols.append(dict(unit=name, key="crash:" + name, item=-1, cmd="mkdir -p " + scratch + " && " + " ".join(cmd) + " && " + " ".join(args),
                                  text="the implementation ended the exploring program (exit %s)\n%s" % (died.group(1), log[-1500:])))
                continue
            if res is None:
                broken.append("%s: harness gave no result: %s" % (name, log))
                continue
            res["name"], res["wall"] = name, round(time.time() - t1, 2)
            results.append(res)
            for v in res["violations"]:
                v.update(unit=name, cmd="mkdir -p " + scratch + " && " + " ".join(cmd) + " && " + " ".join(args + ["--replay", str(v["item"])]))
                # replay before report: the same work item alone must fail in the same way
                if len([x for x in viols if x["unit"] == name]) < 6:
                    again, log = run(["--replay", str(v["item"])], 600)
                    same = again and any(w["key"] == v["key"] for w in again["violations"])
                    if not same: # state carried over between cases? the whole run again, then
                        again, log = run([], 840)
                        same = again and again["violations"]
                    v["replayed"] = bool(same)
                viols.append(v)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = []
    kf = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3).strip()))
    hit = {k: 0 for k, _ in known}
    fresh = []
    for v in viols:
        ks = [k for k, _ in known if k == v["key"]]
        if ks:
            hit[ks[0]] += 1
        else:
            fresh.append(v)
    for k, text in known:
        if hit[k]:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, text, k))
        else:
            print("note: known finding no longer observed: %s %s" % (pid, k))
    unrepro = [v for v in fresh if v.get("replayed") is False]
    fresh = [v for v in fresh if v.get("replayed") is not False]
    for v in unrepro:
        print("note: not reproduced on replay, not reported: %s %s" % (v["key"], v["text"][:300]))
    states = sum(r["states"] for r in results)
    trans = sum(r["transitions"] for r in results)
    traces = sum(r["traces"] for r in results)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
                       "samples": [s for r in results for s in r["samples"]][:24],
                       "exhaustive": not any(r["capped"] for r in results),
                       "counting": "states: distinct canonical cases/states seen (shared hash set); transitions: calls made on the real code "
                                   "or environment answers given; traces: complete executions compared with the reference",
                       "units": [{k: r[k] for k in ("name", "states", "transitions", "traces", "items", "capped", "wall", "notes")} for r in results],
                       "bounds": plan.CHECKS[pid].get("bounds", "")},
          "assumptions": plan.CHECKS[pid].get("assumptions", plan.DEFAULT_ASSUMPTIONS),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for r in results:
        print("%s: states=%d transitions=%d traces=%d items=%d%s wall=%.1fs" % (r["name"], r["states"], r["transitions"], r["traces"], r["items"], " (state set capped)" if r["capped"] else "", r["wall"]))
    for n, v in enumerate(fresh[:12]):
        path = os.path.join(repdir, "%s-%d.txt" % (pid, n))
        with open(path, "w") as f:
            f.write("property %s\nunit %s\nwork item %s\nkey %s\n\n%s\n\nreplay (builds from the working tree):\n%s\n" % (pid, v["unit"], v["item"], v["key"], v["text"], v["cmd"]))
        print("  %s: %s" % (v["key"], v["text"].replace("\n", " | ")[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if fresh:
        sys.exit(1)
    if broken or unrepro:
        for b in broken:
            print("ERROR " + b)
        sys.exit(2)
    print("OK %s %s: states=%d transitions=%d traces=%d wall=%.1fs" % (pid, tier, states, trans, traces, time.time() - t0))

if __name__ == "__main__":
    main()
