"""Decides one property by seeded simulation.

    check.py C01 [--tier quick|thorough] [--seed N] [--runs N]   explore; exit 0 or 1
    check.py C01 --replay FILE                                   run one recorded violation again

Needs nothing but /repo's working tree and /opt/venv.  Exit 2: the check itself failed."""
import argparse
import json
import os
import random
import re
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ELGAS_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
CPU_LIMIT = 20            # CPU seconds one simulated run may take (they take milliseconds)

QUICK = {"C01": 16000, "C02": 16000, "C03": 12000, "C04": 16000, "C05": 24000, "C06": 20000,
         "C07": 24000, "C08": 16000, "C09": 20000, "C10": 10000, "C11": 12000, "C12": 12000,
         "C13": 16000, "C14": 9000, "C15": 60000, "C16": 24000, "C17": 10000, "C18": 7000, "C19": 16000,
         "C20": 12000, "C21": 12000, "C22": 1600, "C23": 16000}
THOROUGH_FACTOR = 40
THOROUGH_WALL = 780


def seam():
    sys.dont_write_bytecode = True
    sys.path[:0] = [REPO, VERIF]
    from sim import props, session
    session.E.load()
    import elgas
    where = os.path.realpath(list(elgas.__path__)[0])
    if where != os.path.realpath(os.path.join(REPO, "elgas")):
        raise RuntimeError("elgas comes from %s" % where)
    return props, session


def scenario(props, pid, seed, i):
    rng = random.Random("%s/%s/%d" % (seed, pid, i))
    return json.loads(json.dumps(props.PROFILES[pid].gen(rng)))


class CpuHang(Exception):
    pass


def execute(props, session, pid, scn, trace=False):
    """-> (violation dict or None, session or None)"""
    from sim.kernel import SimHang

    limit = getattr(props.PROFILES[pid], "CPU", CPU_LIMIT)

    def on_alarm(*_):
        raise SimHang("more than %d s of CPU time in one run" % limit)
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        v, s = session.run_guarded(props.PROFILES[pid].run, scn, trace)
    except SimHang as e:
        return {"op": None, "what": "does not terminate: %s" % e, "fatal": True}, None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if v is None:
        return None, s
    return {"op": v.op, "what": v.what}, s


def digest(s):
    return s.k.trace.hexdigest() if s is not None else ""


# ------------------------------------------------------------------ worker
def worker(a):
    props, session = seam()
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    from sim import net
    clock = net.real("perf_counter")
    began = clock()
    pid, w, n = a.pid, a.worker, a.workers
    res = {"runs": 0, "sim_us": 0, "faults": {}, "outcomes": {}, "steps": 0, "switches": 0,
           "points": 0, "ops": 0, "violation": None}
    traces, nontrivial, cells = set(), set(), set()
    for i in range(w, a.runs, n):
        if clock() - began > a.wall:
            break
        if res["runs"] % 16 == 0 and os.path.exists(a.out + ".stop"):
            try:
                if i > int(open(a.out + ".stop").read() or a.runs):
                    break
            except ValueError:
                pass
        scn = scenario(props, pid, a.seed, i)
        v, s = execute(props, session, pid, scn)
        res["runs"] += 1
        if s is not None and hasattr(s, "k"):
            k = s.k
            res["sim_us"] += k.now
            res["steps"] += k.total_steps
            res["switches"] += getattr(s, "switches", 0)
            res["ops"] += len(s.results) + getattr(s, "forgotten", 0)
            for key, c in k.faults.items():
                res["faults"][key] = res["faults"].get(key, 0) + c
            for key, c in s.counts.items():
                res["outcomes"][key] = res["outcomes"].get(key, 0) + c
                cells.add(key + "|" + ",".join(sorted(k.faults)))
            t = k.trace.digest()
            traces.add(t)
            if k.faults or k.total_steps > 20 or k.now or s.counts:
                nontrivial.add(t)
        if v is not None:
            res["violation"] = dict(v, index=i, worker=w, workers=n)
            break
    res["traces"] = len(traces)
    res["nontrivial"] = [t.hex() for t in nontrivial] if len(nontrivial) < 200000 else None
    res["nontrivial_n"] = len(nontrivial)
    res["cells"] = sorted(cells)
    with open(a.out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(a.out + ".tmp", a.out)
    sys.stdout.flush()
    os._exit(0)


# ------------------------------------------------------------------ one scenario
def one(a):
    """Runs the scenarios of a file in this process; reports on the last."""
    props, session = seam()
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    with open(a.one) as f:
        doc = json.load(f)
    for scn in doc.get("warmup", ()):
        execute(props, session, a.pid, scn)
    v, s = execute(props, session, a.pid, doc["scenario"], trace=True)
    out = {"violation": v, "digest": digest(s), "timeline": (s.k.log if s is not None else [])[-400:],
           "history": [] if s is None else
           ["%s %s [%d..%d us]" % (r["name"], r["out"].text, r["t0"], r["t1"]) for r in s.results][-60:]}
    sys.stdout.write("\nRESULT " + json.dumps(out) + "\n")
    sys.stdout.flush()
    os._exit(0)


def run_one(pid, doc):
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(doc, f)
    try:
        p = subprocess.run([PYTHON, os.path.join(VERIF, "check.py"), pid, "--one", f.name],
                           capture_output=True, text=True, env=environment(), timeout=600)
        for line in reversed(p.stdout.splitlines()):
            if line.startswith("RESULT "):
                return json.loads(line[7:])
        raise RuntimeError("replay failed: %s" % p.stderr[-2000:])
    finally:
        os.unlink(f.name)


def environment():
    return dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")


# ------------------------------------------------------------------ minimising
def kind_of(what):
    what = re.sub(r"\b(read|write)_[a-z_]+|\b(next_event|connect|disconnect)\b", "", what.lower())
    return " ".join(re.sub(r"[^a-z ]+", "", what).split())[:32]


KEEP = {"op", "a", "cfg", "k", "m_", "tr", "T", "pw", "pwid", "to", "addr", "bus", "base", "count",
        "what", "n", "clients", "ops", "sched", "says", "req", "hex", "svc", "code", "c", "cuts",
        "clean", "kind", "say"}


def variants(x, path=()):
    """Smaller scenarios, big steps first."""
    out = []

    def walk(node, path):
        if isinstance(node, dict):
            for key in list(node):
                if key in ("a", "cuts") or key == "m" and isinstance(node[key], str):
                    continue
                if key not in KEEP and not (key == "m" and "n" in node):
                    if key == "sch":
                        if node[key] != [0, 0]:
                            out.append((path + (key,), "zero"))
                        continue
                    if key in ("s", "r", "part", "enc") and not node[key]:
                        continue
                    if key == "enc":
                        out.append((path + (key,), "none"))
                        continue
                    if not (key == "n" and "m" in node):
                        out.append((path + (key,), "del"))
                walk(node[key], path + (key,))
        elif isinstance(node, list) and path and path[-1] in (
                "ops", "clients", "f", "jump", "pre", "m", "ct", "says", "say") or (
                isinstance(node, list) and len(path) > 1 and path[-2] == "req"):
            n = len(node)
            size = n // 2
            while size >= 1:
                for at in range(0, n, size):
                    out.append((path, ("cut", at, min(n, at + size))))
                size //= 2
            for j, y in enumerate(node):
                walk(y, path + (j,))
        elif isinstance(node, list):
            for j, y in enumerate(node):
                walk(y, path + (j,))
    walk(x, ())
    return out


def apply(scn, path, how):
    new = json.loads(json.dumps(scn))
    node = new
    for p in path[:-1]:
        node = node[p]
    if how == "del":
        del node[path[-1]]
    elif how == "none":
        node[path[-1]] = None
    elif how == "zero":
        node[path[-1]] = [0, 0]
    else:
        target = node[path[-1]]
        gone = target[how[1]:how[2]]
        if any(isinstance(g, dict) and (g.get("k") == "good" or g.get("op") in ("connect", "disconnect",
               "recover")) for g in gone):
            return None
        del target[how[1]:how[2]]
        if path[-1] == "clients" and not target:
            return None
    return new


def minimise(a):
    """Runs in its own process: a smaller scenario with the same violation."""
    props, session = seam()
    with open(a.minimise) as f:
        doc = json.load(f)
    scn, want = doc["scenario"], kind_of(doc["violation"]["what"])
    valid = getattr(props.PROFILES[a.pid], "valid", lambda s: True)
    from sim import net
    clock = net.real("perf_counter")
    end = clock() + a.wall
    tried = 0
    changed = True
    while changed and clock() < end:
        changed = False
        for path, how in variants(scn):
            if clock() > end:
                break
            try:
                new = apply(scn, path, how)
            except (KeyError, IndexError, TypeError):
                continue
            if new is None or new == scn:
                continue
            tried += 1
            try:
                if not valid(new):
                    continue
                v, s = execute(props, session, a.pid, new)
            except Exception:
                continue
            if v is not None and not v.get("fatal") and kind_of(v["what"]) == want:
                scn, changed = new, True
                break
    doc["scenario"], doc["tried"] = scn, tried
    with open(a.minimise, "w") as f:
        json.dump(doc, f)
    os._exit(0)


def report(pid, seed, v, props_gen):
    """Reproduce, minimise and record a violation. -> path of the replay file"""
    scn = props_gen(v["index"])
    doc = {"property": pid, "seed": seed, "run": v["index"], "scenario": scn,
           "violation": {"op": v["op"], "what": v["what"]}, "minimised": False}
    r = run_one(pid, doc)
    if r["violation"] is None:
        # it needs what earlier runs left behind in the process
        earlier = list(range(v["worker"], v["index"], v["workers"]))
        take = 1
        while True:
            doc["warmup"] = [props_gen(j) for j in earlier[-take:]]
            r = run_one(pid, doc)
            if r["violation"] is not None or take >= len(earlier):
                break
            take *= 4
    if r["violation"] is not None and "warmup" not in doc and not r["violation"].get("fatal"):
        doc["violation"] = r["violation"]
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
            json.dump(doc, f)
        try:
            subprocess.run([PYTHON, os.path.join(VERIF, "check.py"), pid, "--minimise", f.name,
                            "--wall", "40"], capture_output=True, env=environment(), timeout=200)
            with open(f.name) as g:
                small = json.load(g)
            r2 = run_one(pid, small)
            if r2["violation"] is not None:
                small["minimised"] = small["scenario"] != scn
                small["original_scenario"] = scn
                doc, r = small, r2
        except subprocess.TimeoutExpired:
            pass
        finally:
            os.unlink(f.name)
    if r["violation"] is None:
        doc["reproduced"] = False
    else:
        doc["reproduced"] = True
        doc["violation"] = r["violation"]
        doc["digest"], doc["timeline"], doc["history"] = r["digest"], r["timeline"], r["history"]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, seed, v["index"]))
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path, doc


def replay(a):
    with open(a.replay) as f:
        doc = json.load(f)
    r = run_one(a.pid, doc)
    for line in r["timeline"]:
        print("  " + line)
    for line in r["history"]:
        print("  " + line)
    same = r["digest"] == doc.get("digest")
    if r["violation"] is None:
        print("the violation does not occur")
        return 0
    print("operation %s: %s" % (r["violation"]["op"], r["violation"]["what"]))
    print("trace %s (%s the recorded one)" % (r["digest"], "the same as" if same else "not"))
    print("VIOLATION property=%s replay=%s" % (a.pid, os.path.abspath(a.replay)))
    return 1


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def check_known(pid):
    """-> violation that the findings file does not list, or None"""
    for k in known_findings(pid):
        r = run_one(pid, {"scenario": k["scenario"]})
        v = r["violation"]
        if v is None:
            continue
        if re.search(k["matches"], v["what"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            return dict(k, violation=v, result=r)
    return None


# ------------------------------------------------------------------ main
def explore(a):
    began = time.monotonic()
    pid = a.pid
    tier = a.tier
    runs = a.runs or QUICK[pid] * (THOROUGH_FACTOR if tier == "thorough" else 1)
    wall = THOROUGH_WALL if tier == "thorough" else 600
    new = check_known(pid)
    out = tempfile.mkdtemp(prefix="sim-%s-" % pid)
    procs = []
    stop = os.path.join(out, "stop")
    for w in range(a.workers):
        path = os.path.join(out, "w%d" % w)
        os.symlink(stop, path + ".stop")
        err = open(path + ".err", "w")
        procs.append((path, subprocess.Popen(
            [PYTHON, os.path.join(VERIF, "check.py"), pid, "--worker", str(w), "--workers",
             str(a.workers), "--runs", str(runs), "--seed", str(a.seed), "--out", path,
             "--wall", str(wall)], stdout=err, stderr=err, env=environment(), cwd=out)))
    results, pending, failed = [], dict(procs), []
    lowest = None
    while pending:
        for path, p in list(pending.items()):
            if p.poll() is None:
                continue
            del pending[path]
            if p.returncode or not os.path.exists(path):
                failed.append("worker %s: exit %s\n%s" % (path[-2:], p.returncode,
                                                          open(path + ".err").read()[-3000:]))
                continue
            with open(path) as f:
                res = json.load(f)
            results.append(res)
            v = res["violation"]
            if v is not None and (lowest is None or v["index"] < lowest["index"]):
                lowest = v
                with open(stop + ".tmp", "w") as f:
                    f.write(str(v["index"]))
                os.rename(stop + ".tmp", stop)
        time.sleep(0.02)
    explored = time.monotonic() - began
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    os.rmdir(out)

    props, _ = seam()
    code, violations = 0, []
    if new is not None:
        path = os.path.join(VERIF, "replays", "%s-finding-%s.json" % (pid, new["id"]))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": pid, "scenario": new["scenario"], "violation": new["violation"],
                       "digest": new["result"]["digest"]}, f, indent=1)
        print("%s: %s" % (pid, new["violation"]["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        violations.append({"what": new["violation"]["what"], "replay": path})
        code = 1
    if lowest is not None:
        path, doc = report(pid, a.seed, lowest, lambda i: scenario(props, pid, a.seed, i))
        print("%s: run %d of seed %s, operation %s: %s" % (
            pid, lowest["index"], a.seed, doc["violation"]["op"], doc["violation"]["what"]))
        if not doc["reproduced"]:
            print("%s: not reproduced in a fresh process" % pid)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        violations.append({"what": doc["violation"]["what"], "replay": path,
                           "reproduced": doc["reproduced"]})
        code = 1
    if failed and not code:
        sys.stderr.write("\n".join(failed) + "\n")
        code = 2
    evidence(pid, tier, a, runs, results, explored, began, violations, props)
    total = sum(r["runs"] for r in results)
    print("%s: %d runs in %.1f s, %s" % (pid, total, explored, "ok" if code == 0 else "exit %d" % code))
    return code


def evidence(pid, tier, a, planned, results, explored, began, violations, props):
    def total(key):
        return sum(r[key] for r in results)

    def merged(key):
        out = {}
        for r in results:
            for k, v in r[key].items():
                out[k] = out.get(k, 0) + v
        return dict(sorted(out.items()))
    runs = total("runs")
    digests = set()
    for r in results:
        if r["nontrivial"] is not None:
            digests.update(r["nontrivial"])
    distinct = len(digests) or total("nontrivial_n")
    from sim import coverage
    samples = [{"run": i, "scenario": scenario(props, pid, a.seed, i)} for i in range(3)]
    doc = {
        "property": pid, "tier": tier, "seed": int(a.seed), "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct,
            "rule": "runs are told apart by the hash of their event trace (every simulated call, "
                    "delivery, fault, task switch and outcome, in order); a run is trivial when "
                    "nothing was called and no fault was injected",
            "samples": samples,
            "runs_per_hour": int(runs / max(explored, 1e-9) * 3600),
            "operations": total("ops"),
            "simulated_calls": total("steps"),
            "simulated_time_s": round(total("sim_us") / 1e6, 1),
            "task_switches": total("switches"),
            "faults_injected": merged("faults"),
            "outcomes": merged("outcomes"),
            "distinct_outcome_fault_cells": len(set(c for r in results for c in r["cells"])),
            "workers": a.workers,
            "real_components": coverage.REAL.get(pid, coverage.REAL_ALL),
            "stub_components": coverage.STUB.get(pid, coverage.STUB_ALL),
        },
        "wall_s": round(time.monotonic() - began, 2),
        "assumptions": coverage.ASSUMPTIONS + coverage.ASSUME.get(pid, []),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", "%s.json" % pid)
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.rename(path + ".tmp", path)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("pid")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    p.add_argument("--runs", type=int, default=0)
    p.add_argument("--workers", type=int, default=8)
    p.add_argument("--worker", type=int)
    p.add_argument("--out")
    p.add_argument("--wall", type=float, default=600)
    p.add_argument("--replay")
    p.add_argument("--one")
    p.add_argument("--minimise")
    a = p.parse_args()
    if a.worker is not None:
        return worker(a)
    if a.one:
        return one(a)
    if a.minimise:
        return minimise(a)
    if a.replay:
        return replay(a)
    return explore(a)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
