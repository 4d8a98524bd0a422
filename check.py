#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property of the tree in /repo."""
import json, os, re, signal, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sxlib import build, tasks

VERIF = build.VERIF
MEMORY = ("use-after-free", "out-of-bounds", "double-free", "bad-free", "leak", "uninit", "null", "memory")


def say(*a):
    print(*a, flush=True)


def demangle(names):
    """readable names, without crate hashes"""
    names = sorted(names)
    try:
        out = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
        if len(out) == len(names) or len(out) == len(names) + 1:
            names = out[:len(names)]
    except OSError:
        pass
    return sorted(set(re.sub(r"\[[0-9a-f]{6,}\]", "", n) for n in names))


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.stop = threading.Event()
        self.procs = set()
        self.lock = threading.Lock()
        self.out = os.path.join(build.BUILD, "out", prop)
        os.makedirs(self.out, exist_ok=True)

    def engine(self, i, t, shard, deadline, cap=1e9):
        """one engine process"""
        if self.stop.is_set():
            return None
        left = deadline - time.time()
        if left < 5:
            return {"status": "incomplete", "timed_out": True, "task": t}
        res = os.path.join(self.out, "%d-%d.json" % (i, shard[0]))
        if os.path.exists(res):
            os.remove(res)
        cmd = [self.sx, "--entry", t["entry"], "--mode", t.get("mode", "bits"), "--out", res, "--time", "%d" % min(left, cap, t.get("time", 1e9)),
               "--shard", "%d/%d" % shard, "--samples", str(t.get("samples", 6))]
        for f in self.irs:
            cmd += ["--ir", f]
        for k, v in sorted(t.get("params", {}).items()):
            cmd += ["--param", "%s=%d" % (k, v)]
        cmd += t.get("opts", [])
        e = build.env()
        p = subprocess.Popen(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            log, _ = p.communicate(timeout=left + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            log, _ = p.communicate()
        with self.lock:
            self.procs.discard(p)
        if self.stop.is_set():
            return None
        if not os.path.exists(res):
            return {"status": "crash", "log": log[-1500:], "task": t, "rc": p.returncode}
        d = json.load(open(res))
        d["task"] = t
        return d

    def cancel(self):
        self.stop.set()
        with self.lock:
            for p in self.procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass

    # ---- native replay ----
    def run_native(self, entry, path, valgrind=False, timeout=120):
        e = build.env()
        e["SX_IN"] = path
        cmd = [self.native, entry]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect",
                   "--undef-value-errors=yes"] + cmd
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "hang", ""
        out = r.stdout.decode(errors="replace")
        return r.returncode, out

    def confirm(self, t, cex, n):
        """(reproduced, path, note)"""
        name = re.sub(r"[^A-Za-z0-9.-]+", "_", cex["label"])[:60]
        path = os.path.join(self.out, "%s-%d.replay" % (name, n))
        with open(path, "w") as f:
            f.write("# property %s entry %s\n# %s: %s\n" % (self.prop, t["entry"], cex["label"], cex["msg"].replace("\n", " ")))
            f.write("# SX_IN=%s %s %s\n" % (path, self.native, t["entry"]))
            f.write(cex["inputs"] or "")
        if cex["inputs"] is None:
            return False, path, "no inputs"
        if t.get("replay") == "engine":
            # schedules replay in the engine; re-run it
            return cex["confirmed"], path, "replayed on the encoded code"
        rc, out = self.run_native(t["entry"], path, timeout=30 if cex["label"] == "termination" else 120)
        if rc == "hang":
            return True, path, "does not terminate natively"
        if rc == 10:
            m = re.search(r"SX: FAIL (.*)", out)
            return True, path, "natively: " + (m.group(1) if m else "assertion")
        if rc < 0 or rc in (134, 139):
            return True, path, "natively: signal %d" % rc
        if any(m in cex["label"] for m in MEMORY) and rc == 0:
            rc, out = self.run_native(t["entry"], path, valgrind=True, timeout=300)
            if rc == 99:
                m = re.search(r"== (Invalid.*|.*definitely lost.*|Conditional.*|Mismatched.*)", out)
                return True, path, "valgrind: " + (m.group(1) if m else "error")
        return False, path, "native run exits %s: %s" % (rc, out[-200:].strip())

    def validate(self, t, s, n):
        """a sampled path natively: same observations?"""
        path = os.path.join(self.out, "sample-%d.in" % n)
        with open(path, "w") as f:
            f.write(s["inputs"])
        rc, out = self.run_native(t["entry"], path)
        if rc != 0:
            return "exit %s %s" % (rc, out[-300:])
        got = [l for l in out.splitlines() if l.startswith("OBS ")]
        want = s["obs"]
        if len(got) != len(want):
            return "%d observations, expected %d" % (len(got), len(want))
        for g, w in zip(got, want):
            a, b = g.split(), w.split()
            if a[1] != b[1]:
                return "%s expected %s" % (g, w)
            if a[2] == b[2]:
                continue
            x, y = int(a[2], 16), int(b[2], 16)
            fx, fy = struct.unpack("<d", struct.pack("<Q", x))[0], struct.unpack("<d", struct.pack("<Q", y))[0]
            gx, gy = (struct.unpack("<f", struct.pack("<I", v & 0xffffffff))[0] for v in (x, y))
            if fx != fx and fy != fy or (x < 1 << 32 and y < 1 << 32 and gx != gx and gy != gy):
                continue
            if t.get("mode") == "real":
                if x < 1 << 32 and y < 1 << 32:
                    fx, fy = gx, gy
                if not abs(fx - fy) > 1e-3 * (1 + abs(fx)):
                    continue
            return "%s expected %s" % (g, w)
        return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    plan = tasks.TASKS[prop]
    r = Run(prop, tier)
    r.sx, r.irs, r.native, tbuild = build.all()
    jobs = []
    todo = plan["quick"] if tier == "quick" else plan["quick"] + plan.get("thorough", [])
    for i, t in enumerate(todo):
        n = t.get("shards", 1)
        for k in range(n):
            jobs.append((i, t, (k, n)))
    # a turn of a minute for the light ones, then the others, long ones first;
    # light ones that took longer have what is left in the end
    light = [j for j in jobs if j[1].get("weight", 1) == 1 and j[2][1] == 1]
    heavy = sorted([j for j in jobs if j not in light], key=lambda j: -j[1].get("weight", 1))
    if tier != "quick":
        light, heavy = [], sorted(jobs, key=lambda j: -j[1].get("weight", 1))
    deadline = t0 + (660 if tier == "quick" else 7200)
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    known = {(k["property"], k["entry"], k["label"]): k for k in known}
    results, violations, candidates, hits, again = [], [], [], {}, []

    def one(j, cap=1e9):
        d = r.engine(*j, deadline, cap)
        if d is None:
            return
        if cap < 1e9 and d.get("timed_out") and not d.get("cex"):
            with r.lock:
                again.append((j, d))
            return
        found = []
        for n, c in enumerate(d.get("cex", [])):
            k = (prop, d["task"]["entry"], c["label"])
            ok, path, note = r.confirm(d["task"], c, j[0] * 1000 + j[2][0] * 10 + n)
            with r.lock:
                if k in known and ok:
                    hits[k] = path
                elif ok:
                    violations.append((c, path, note))
                    found.append(c)
                else:
                    candidates.append((d["task"], c, path, note))
        with r.lock:
            results.append(d)
        if found:
            r.cancel()

    with ThreadPoolExecutor(int(os.environ.get("SX_JOBS", "8"))) as ex:
        list(ex.map(lambda a: one(*a), [(j, 60) for j in light] + [(j, 1e9) for j in heavy]))
        last, again = again, []
        if deadline - time.time() > 60:
            list(ex.map(lambda a: one(a[0]), last))
        else:
            results += [d for _, d in last]

    # trace validation
    bad, validated, samples = [], 0, []
    if not violations:
        cases = []
        for d in results:
            if d["task"].get("replay") == "engine":
                continue
            for s in d.get("samples", [])[: 6 if d["task"].get("shards", 1) == 1 else 3]:
                cases.append((d["task"], s))
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda p: r.validate(p[1][0], p[1][1], p[0]), enumerate(cases)))
        for (t, s), e in zip(cases, rs):
            if e is None:
                validated += 1
            else:
                bad.append((t["entry"], e, s["inputs"]))
    for d in results:
        for s in d.get("samples", [])[:1]:
            if len(samples) < 12:
                samples.append({"entry": d["entry"], "inputs": s["inputs"].split("\n")[:40], "observed": s["obs"][:10]})

    problems, undecided = [], []
    reached, labels = {}, {}
    tot = {k: 0 for k in ("paths", "assumed_away", "forks", "steps", "queries", "sat", "unsat", "unknown", "cached")}
    solver, smax, funcs = 0.0, 0.0, set()
    per = {}
    for d in results:
        if d["status"] == "crash":
            problems.append("%s: engine failed: %s" % (d["task"]["entry"], d["log"][-600:]))
            continue
        if "paths" not in d:
            undecided.append("%s: not started in time" % d["task"]["entry"])
            continue
        for k in tot:
            tot[k] += d[k]
        solver += d["solver_s"]
        smax = max(smax, d["solver_max_s"])
        funcs.update(d["functions"])
        e = d["task"]["entry"]
        q = per.setdefault(e + " " + json.dumps(d["task"].get("params", {}), sort_keys=True),
                           {"mode": d["task"].get("mode", "bits"), "paths": 0, "queries": 0, "obligations": 0, "proved_by_solver": 0, "proved_by_rewriting": 0, "wall_s": 0})
        q["paths"] += d["paths"]
        q["queries"] += d["queries"]
        q["wall_s"] = round(max(q["wall_s"], d["wall"]), 2)
        for l, v in d["labels"].items():
            a = labels.setdefault(l, {"checked": 0, "trivial": 0, "unsat": 0, "sat": 0, "unknown": 0})
            for k in a:
                a[k] += v[k]
            q["obligations"] += v["checked"]
            q["proved_by_solver"] += v["unsat"]
            q["proved_by_rewriting"] += v["trivial"]
            if v["unknown"]:
                undecided.append("%s %s: %d undecided by every solver" % (e, l, v["unknown"]))
        for l, n in d["reached"].items():
            reached[(e, l)] = reached.get((e, l), 0) + n
        for u, n in d["unsupported"].items():
            undecided.append("%s: cannot encode %s (%d paths)" % (e, u, n))
        if d["timed_out"]:
            undecided.append("%s: time limit" % e)
    if not violations:
        for t in todo:
            for l in t.get("reach", []):
                if not reached.get((t["entry"], l)):
                    problems.append("%s: %s was never reached" % (t["entry"], l))
        for e, m, i in bad[:5]:
            problems.append("%s: native trace differs: %s\n%s" % (e, m, i))
        for t, c, path, note in candidates:
            undecided.append("%s %s: counterexample does not reproduce on the real code (%s) %s" % (t["entry"], c["label"], note, path))

    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
        "assumptions": plan["assumptions"],
        "coverage": {
            "states": tot["paths"] + tot["forks"], "transitions": tot["steps"],
            "traces_validated_against_impl": validated, "samples": samples,
            "paths": tot["paths"], "infeasible_or_assumed_away": tot["assumed_away"],
            "instructions_executed_symbolically": tot["steps"],
            "obligations": sum(v["checked"] for v in labels.values()),
            "proved_by_solver": sum(v["unsat"] for v in labels.values()),
            "proved_by_rewriting": sum(v["trivial"] for v in labels.values()),
            "per_assertion": labels, "per_entry": per,
            "queries": {k: tot[k] for k in ("queries", "sat", "unsat", "unknown", "cached")},
            "solver_s": round(solver, 2), "solver_max_s": smax, "build_s": round(tbuild, 1),
            "functions_encoded": demangle(funcs), "bounds": plan["bounds"],
            "undecided": undecided, "reached": {"%s/%s" % k: v for k, v in reached.items()},
        },
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s %s: %d paths, %d obligations (%d by solver), %d queries, %.1f s in solvers, %d traces validated, %.1f s (build %.1f s)" % (
        prop, tier, tot["paths"], ev["coverage"]["obligations"], ev["coverage"]["proved_by_solver"], tot["queries"], solver, validated, time.time() - t0, tbuild))
    if violations:
        for c, path, note in violations[:3]:
            say("%s: %s [%s]" % (c["label"], c["msg"], note))
            say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for k in known:
        if k[0] == prop and k in hits:
            say("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    for u in sorted(set(undecided)):
        say("UNDECIDED: " + u)
    if problems:
        for p in problems[:12]:
            say("INCONCLUSIVE: " + p)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
