"""Decides one property: builds the simulator from /repo, explores seeds, reports.

    python3 -m vsim.check P01 [--tier quick|thorough] [--seed N] [--budget S] [--jobs N]
    python3 -m vsim.check P01 --replay FILE
"""

import argparse
import collections
import copy
import glob
import json
import os
import select
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as simbuild  # noqa: E402

PY = simbuild.PY
SEED_SPAN = 1 << 32
RUN_TIMEOUT = 150.0
QUICK_BUDGET = 45.0
THOROUGH_BUDGET = 660.0


def setarch():
    try:
        if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0:
            return ["setarch", "-R"]
    except OSError:
        pass
    return []


SETARCH = setarch()


class Proc:
    def __init__(self, hashseed="0"):
        rt = os.path.join(simbuild.BUILD, "libsimrt.so")
        pkg = os.path.join(simbuild.BUILD, "pkg")
        env = {
            "PATH": "/usr/bin:/bin", "HOME": "/tmp", "LC_ALL": "C.UTF-8",
            "LD_PRELOAD": rt, "VSIM_RT": rt, "VSIM_PKG": pkg,
            "PYTHONPATH": pkg + ":" + VERIF, "PYTHONHASHSEED": hashseed, "PYTHONDONTWRITEBYTECODE": "1",
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg",
        }
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(
            [*SETARCH, PY, "-m", "vsim.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env, cwd=VERIF, bufsize=0,
        )
        self.buf = b""
        self.eof = False
        self.cur = None
        self.last = time.time()

    def send(self, d):
        self.p.stdin.write((json.dumps(d) + "\n").encode())

    def poll_lines(self):
        """Reads what is there; returns complete messages."""
        try:
            data = os.read(self.p.stdout.fileno(), 1 << 20)
        except OSError:
            data = b""
        if not data:
            self.eof = True
            return []
        self.last = time.time()
        self.buf += data
        *lines, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in lines if x]

    def recv(self, timeout):
        end = time.time() + timeout
        while True:
            if b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                return json.loads(line)
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            data = os.read(self.p.stdout.fileno(), 1 << 20)
            if not data:
                self.eof = True
                return None
            self.buf += data

    def death(self):
        """(signature, detail) of a worker that ended on its own."""
        rc = self.p.wait()
        self.err.seek(0)
        text = self.err.read()[-3000:].decode("utf-8", "replace")
        if rc == 97:
            return "no-progress", text
        if rc == 98:
            return "deadlock", text
        if rc < 0:
            return f"crash-signal-{-rc}", text
        return None, f"worker ended with status {rc}\n{text}"

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass


class HarnessError(Exception):
    pass


class Runner:
    """Runs single scenarios in a worker of its own, replacing it when it dies."""

    def __init__(self, prop):
        self.prop = prop
        self.proc = None

    def run(self, scenario, decisions=None, want_log=False, fresh=False, timeout=RUN_TIMEOUT, hashseed="0"):
        if fresh and self.proc:
            self.proc.kill()
            self.proc = None
        if self.proc is None:
            self.proc = Proc(hashseed)
            if self.proc.recv(60) is None:
                raise HarnessError("worker did not start: " + str(self.proc.death() if self.proc.eof else "timeout"))
        self.proc.send(
            {"cmd": "run", "prop": self.prop, "scenario": scenario, "decisions": decisions, "want_log": want_log}
        )
        r = self.proc.recv(timeout)
        if r is None:
            if self.proc.eof:
                sig, text = self.proc.death()
                self.proc.kill()
                self.proc = None
                if sig is None:
                    return {"viol": [], "err": text}
                return {"viol": [{"sig": sig, "msg": text}], "err": None}
            self.proc.kill()
            self.proc = None
            return {"viol": [{"sig": "no-progress", "msg": f"no result within {timeout} s"}], "err": None}
        return r

    def close(self):
        if self.proc:
            self.proc.kill()
            self.proc = None


def sigs(r):
    return [v["sig"] for v in r.get("viol", [])]


# ------------------------------------------------------------------ minimisation
LISTS = ("ops", "frames", "calls", "callers", "cycle", "faults", "objs", "clients", "outs")
INTS = {"n": 1, "nq": 1, "bins": 1, "k": 1, "n_frames": 1}


def shrinks(sc):
    """Candidate scenarios smaller than sc."""
    paths = []

    def walk(x, p):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == "sched":
                    continue
                walk(v, [*p, k])
        elif isinstance(x, list):
            if p and p[-1] in LISTS and len(x) > 1:
                paths.append(("list", p, len(x)))
            for i, v in enumerate(x):
                walk(v, [*p, i])
        elif isinstance(x, int) and not isinstance(x, bool) and p and p[-1] in INTS and x > INTS[p[-1]]:
            paths.append(("int", p, x))

    walk(sc, [])

    def get(d, p):
        for k in p:
            d = d[k]
        return d

    for kind, p, v in paths:
        if kind == "list":
            size = v // 2
            while size >= 1:
                for i in range(0, v, size):
                    c = copy.deepcopy(sc)
                    lst = get(c, p)
                    if len(lst) - len(lst[i : i + size]) >= 1:
                        del lst[i : i + size]
                        yield c
                size //= 2
    for kind, p, v in paths:
        if kind == "int":
            for w in {max(INTS[p[-1]], v // 2), v - 1}:
                c = copy.deepcopy(sc)
                get(c, p[:-1])[p[-1]] = w
                yield c
    if sc.get("sched", {}).get("hw", 2) > 2:
        c = copy.deepcopy(sc)
        c["sched"]["hw"] = 2
        yield c


def minimise(runner, sc, sig, deadline):
    tried = 0
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for c in shrinks(sc):
            if time.time() > deadline:
                break
            tried += 1
            r = runner.run(c, timeout=30)
            if sig in sigs(r):
                sc = c
                progress = True
                break
    # the schedule: from the recorded decisions, keep as few as still fail
    r = runner.run(sc, want_log=True, fresh=True)
    dec = r.get("log")
    if sig not in sigs(r) or dec is None or len(dec) > 400000:
        return sc, None, tried

    def ok(d):
        return time.time() < deadline and sig in sigs(runner.run(sc, d, timeout=30))

    full = len(dec)
    if ok([]):
        dec = []
    elif ok(dec):
        lo, hi = 0, len(dec)
        while hi - lo > max(1, full // 200):
            mid = (lo + hi) // 2
            tried += 1
            if ok(dec[:mid]):
                hi = mid
            else:
                lo = mid
        dec = dec[:hi]
        block = max(1, len(dec) // 4)
        while block >= 1 and time.time() < deadline:
            i = 0
            while i < len(dec) and time.time() < deadline:
                if any(dec[i : i + block]):
                    c = dec[:i] + [0] * len(dec[i : i + block]) + dec[i + block :]
                    tried += 1
                    if ok(c):
                        dec = c
                i += block
            if block == 1:
                break
            block //= 2
    else:
        return sc, None, tried
    while dec and dec[-1] == 0:
        dec.pop()
    return sc, dec, tried


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [e for e in json.load(open(path)) if e.get("property") == prop and e.get("status") == "known"]


def out(msg):
    print(msg, flush=True)


class Summary:
    def __init__(self):
        self.runs = 0
        self.stats = collections.Counter()
        self.probes = collections.Counter()
        self.faults = collections.Counter()
        self.kinds = collections.Counter()
        self.hashes = set()
        self.nontriv = set()
        self.maxw = 0
        self.suppressed = collections.Counter()
        self.errs = []

    def add(self, m):
        self.runs += 1
        st = m["stats"]
        self.maxw = max(self.maxw, st["max_workers"])
        h = (st["hash"], m.get("kind"), st["accesses"], st["decisions"])
        self.hashes.add(h)
        if m["nontrivial"]:
            self.nontriv.add(h)
        for k, v in st.items():
            if k not in ("hash", "max_workers"):
                self.stats[k] += v
        self.probes.update(m["probes"])
        self.faults.update(m["faults"])
        if m.get("kind"):
            self.kinds[m["kind"]] += 1


def explore(prop, tier, base, budget, jobs, maxruns, known, summ):
    """Returns (message with violations, proc history) or None."""
    until = time.time() + budget
    procs = []
    for w in range(jobs):
        p = Proc()
        p.idx = w
        p.next_first = w
        procs.append(p)
    per = max(1, maxruns // jobs) if maxruns else 1 << 40
    for p in procs:
        p.send(
            {
                "cmd": "seeds", "prop": prop, "tier": tier, "base": base, "first": p.idx, "step": jobs,
                "count": per, "until": until,
            }
        )
    found = None
    live = set(procs)
    by_fd = {p.p.stdout.fileno(): p for p in procs}
    while live and not found:
        r, _, _ = select.select([p.p.stdout for p in live], [], [], 2.0)
        for f in r:
            p = by_fd[f.fileno()]
            for m in p.poll_lines():
                if "start" in m:
                    p.cur = m["start"]
                elif "finished" in m:
                    live.discard(p)
                elif "seed" in m:
                    summ.add(m)
                    if m["err"]:
                        summ.errs.append((m["seed"], m["err"]))
                    new = []
                    for v in m["viol"]:
                        if v["sig"] in known:
                            summ.suppressed[v["sig"]] += 1
                        else:
                            new.append(v)
                    if new and not found:
                        found = {"seed": m["seed"], "viol": new, "worker": p.idx}
            if p.eof and p in live:
                live.discard(p)
                sig, text = p.death()
                if sig is None or p.cur is None:
                    summ.errs.append((p.cur, text))
                elif sig in known:
                    summ.suppressed[sig] += 1
                elif not found:
                    found = {"seed": p.cur, "viol": [{"sig": sig, "msg": text}], "worker": p.idx}
        now = time.time()
        for p in list(live):
            if now - p.last > RUN_TIMEOUT:
                live.discard(p)
                if not found:
                    found = {
                        "seed": p.cur, "worker": p.idx,
                        "viol": [{"sig": "no-progress", "msg": f"no result within {RUN_TIMEOUT} s"}],
                    }
    for p in procs:
        p.kill()
    return found


def scenario_of(prop, seed, tier):
    code = (
        "import sys,json;sys.path.insert(0,%r);from vsim import worker;import importlib;"
        "m=importlib.import_module('vsim.props.'+%r);print(json.dumps(worker.make_scenario(m,%d,%r)))"
        % (VERIF, prop.lower(), seed, tier)
    )
    rt = os.path.join(simbuild.BUILD, "libsimrt.so")
    pkg = os.path.join(simbuild.BUILD, "pkg")
    r = subprocess.run(
        [PY, "-c", code], capture_output=True, text=True,
        env={"PATH": "/usr/bin:/bin", "PYTHONPATH": pkg, "LD_PRELOAD": rt, "VSIM_RT": rt, "HOME": "/tmp",
             "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"},
    )
    if r.returncode:
        raise HarnessError(r.stderr[-2000:])
    return json.loads(r.stdout)


def write_replay(prop, seed, d):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}-{seed}.json")
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return path


def do_replay(prop, path, runner=None):
    """Runs a replay file in a fresh process; returns the signatures seen."""
    d = json.load(open(path)) if isinstance(path, str) else path
    if d.get("history"):
        h = d["history"]
        p = Proc()
        p.send({"cmd": "seeds", "prop": prop, "tier": d["tier"], "base": h["base"], "first": h["first"],
                "step": h["step"], "count": h["count"], "until": None})
        seen = []
        while True:
            m = p.recv(RUN_TIMEOUT)
            if m is None:
                if p.eof:
                    s, _ = p.death()
                    seen = [s]
                else:
                    seen = ["no-progress"]
                break
            if m.get("seed") == d["seed"]:
                seen = [v["sig"] for v in m["viol"]]
                break
            if "finished" in m:
                break
        p.kill()
        return seen
    own = runner is None
    runner = runner or Runner(prop)
    r = runner.run(d["scenario"], d.get("decisions"), fresh=True)
    if own:
        runner.close()
    return sigs(r)


def report(prop, tier, base, jobs, found, min_budget):
    """Minimise, write the replay file, confirm it in a fresh process."""
    sig = found["viol"][0]["sig"]
    seed = found["seed"]
    runner = Runner(prop)
    try:
        sc = scenario_of(prop, seed, tier)
        first = runner.run(sc, fresh=True)
        doc = {
            "property": prop, "tier": tier, "seed": seed, "sig": sig, "violation": found["viol"][0],
            "replay_cmd": f"python3 -m vsim.check {prop} --replay <this file>",
        }
        if sig in sigs(first):
            small, dec, tried = minimise(runner, sc, sig, time.time() + min_budget)
            doc.update(scenario=small, decisions=dec, minimise_attempts=tried)
            r = runner.run(small, dec, fresh=True)
            if sig not in sigs(r):
                doc.update(scenario=sc, decisions=None)
            else:
                doc["violation"] = next(v for v in r["viol"] if v["sig"] == sig)
            path = write_replay(prop, seed, doc)
            if sig in do_replay(prop, path):
                return path, doc
        # depends on what the worker did before: the whole of it is the replay
        w = found["worker"]
        doc.pop("scenario", None)
        doc["history"] = {"base": base, "first": w, "step": jobs, "count": (seed - base - w) // jobs + 1}
        path = write_replay(prop, seed, doc)
        if sig in do_replay(prop, path):
            return path, doc
        return None, doc
    finally:
        runner.close()


def determinism(prop, tier, base, count, summ_ref=None):
    """The same seeds in two fresh processes, with other hash seeds and another order of runs."""
    logs = []
    for hs, step in (("0", 1), ("4242", 1)):
        p = Proc(hs)
        p.send({"cmd": "seeds", "prop": prop, "tier": tier, "base": base, "first": 0, "step": step, "count": count,
                "until": None})
        got = {}
        while True:
            m = p.recv(RUN_TIMEOUT)
            if m is None or "finished" in m:
                break
            if "seed" in m:
                m.pop("t")
                got[m["seed"]] = json.dumps(m, sort_keys=True)
        p.kill()
        logs.append(got)
    bad = [s for s in logs[0] if logs[0][s] != logs[1].get(s)]
    return len(logs[0]), bad, logs


def evidence(prop, mod_meta, tier, seed, summ, wall, explore_s, violations, det, known_seen, replay):
    s = summ
    hours = max(explore_s, 1e-9) / 3600
    cov = {
        "evaluations": s.runs,
        "distinct_nontrivial": len(s.nontriv),
        "rule": mod_meta["rule"],
        "samples": mod_meta["samples"],
        "seeds": {"first": seed * SEED_SPAN, "count": s.runs},
        "runs_per_hour": int(s.runs / hours),
        "simulated_time": {
            "unit": "instrumented memory accesses executed inside simulated parallel regions",
            "accesses": s.stats["accesses"],
        },
        "distinct_executions": len(s.hashes),
        "distinct_measure": "hash over every scheduling and fault decision taken in the run",
        "schedule": {
            k: s.stats[k]
            for k in ("regions", "par_regions", "chunks", "switches", "preemptions", "locks", "lock_waits", "atomics",
                      "steals", "stalls", "sort_calls", "sort_shuffles", "ets_slots", "cancelled", "decisions")
        },
        "max_workers_in_a_region": s.maxw,
        "faults_injected": dict(s.faults) | {"allocation_failures": s.stats["alloc_faults"]},
        "probes": dict(s.probes),
        "scenario_kinds": dict(s.kinds),
        "races_seen": s.stats["races"],
        "determinism_selftest": det,
        "known_findings_seen": dict(s.suppressed) | known_seen,
        "real_components": "freud's C++ sources and Python modules as in /repo's working tree (every class built here), "
        "nanobind, NumPy, CPython",
        "stubbed_components": "oneTBB (scheduler, containers, sort: sim/include/simtbb.h), the operating system's "
        "threads and locks under it, operator new of freud's objects",
    }
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall,
        "assumptions": mod_meta["assumptions"], "violations": violations,
    }
    if replay:
        doc["coverage"]["replay"] = replay
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))


def meta(prop, base, tier):
    code = (
        "import sys,json;sys.path.insert(0,%r);from vsim import worker;import importlib;"
        "m=importlib.import_module('vsim.props.'+%r);print(json.dumps(dict(rule=m.RULE,assumptions=getattr(m,'ASSUME',[]),"
        "budget=getattr(m,'BUDGET',None),samples=[worker.make_scenario(m,%d+i,%r) for i in range(3)])))"
        % (VERIF, prop.lower(), base, tier)
    )
    rt = os.path.join(simbuild.BUILD, "libsimrt.so")
    pkg = os.path.join(simbuild.BUILD, "pkg")
    r = subprocess.run(
        [PY, "-c", code], capture_output=True, text=True,
        env={"PATH": "/usr/bin:/bin", "PYTHONPATH": pkg, "LD_PRELOAD": rt, "VSIM_RT": rt, "HOME": "/tmp",
             "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"},
    )
    if r.returncode:
        raise HarnessError(r.stderr[-3000:])
    return json.loads(r.stdout)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run one seed and print its result")
    ap.add_argument("--det", type=int, default=None)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop = a.prop.upper()
    t0 = time.time()
    try:
        simbuild.build()
    except SystemExit as e:
        raise HarnessError(f"build: {e}") from e
    for f in glob.glob(os.path.join(VERIF, "replays", f"{prop}-*.json")) if not a.replay else []:
        os.unlink(f)
    if a.replay:
        seen = do_replay(prop, a.replay)
        want = json.load(open(a.replay)).get("sig")
        if want in seen or (want is None and seen):
            out(f"VIOLATION property={prop} replay={os.path.abspath(a.replay)}")
            out(f"  signature: {want}")
            return 1
        out(f"replay of {a.replay} did not reproduce {want}; saw {seen}")
        return 0
    base = a.seed * SEED_SPAN
    m = meta(prop, base, a.tier)
    if a.one is not None:
        r = Runner(prop)
        res = r.run(scenario_of(prop, a.one, a.tier))
        print(json.dumps(res, indent=1))
        r.close()
        return 0
    budget = a.budget or (QUICK_BUDGET if a.tier == "quick" else THOROUGH_BUDGET)
    if m["budget"] and not a.budget:
        budget *= m["budget"]
    out(f"property={prop} tier={a.tier} VERIF_SEED={a.seed} seeds from {base}, build {time.time() - t0:.1f} s")
    # known findings: run the recorded input itself
    kf = known_findings(prop)
    known_seen = {}
    if kf:
        r = Runner(prop)
        for e in kf:
            res = r.run(e["scenario"], e.get("decisions"), fresh=True)
            if e["sig"] in sigs(res):
                out(f"KNOWN-FINDING: property={prop} {e['what']}")
                known_seen[e["sig"]] = 1
        r.close()
    summ = Summary()
    te = time.time()
    found = explore(prop, a.tier, base, budget, a.jobs, a.runs, {e["sig"] for e in kf}, summ)
    explore_s = time.time() - te
    det = {}
    code = 0
    replay = None
    if found:
        path, doc = report(prop, a.tier, base, a.jobs, found, 60 if a.tier == "quick" else 180)
        v = doc["violation"]
        if path:
            replay = path
            out(f"VIOLATION property={prop} replay={path}")
            out(f"  seed {found['seed']} signature {v['sig']}\n  {v['msg'][:1500]}")
            code = 1
        else:
            out(f"harness: seed {found['seed']} reported {v['sig']} but neither it nor the worker's history replays")
            out(v["msg"][:1500])
            code = 2
    elif summ.errs:
        out(f"harness error in {len(summ.errs)} runs; first: seed {summ.errs[0][0]}\n{summ.errs[0][1]}")
        code = 2
    elif summ.runs == 0:
        out("harness: no run finished")
        code = 2
    else:
        n = a.det if a.det is not None else (24 if a.tier == "quick" else 200)
        cnt, bad, logs = determinism(prop, a.tier, base, n)
        det = {"seeds_run_twice_in_fresh_processes": cnt, "differences": len(bad)}
        if bad or cnt < n:
            out(f"harness: {len(bad)} of {cnt} seeds did not repeat exactly ({n} wanted), first {bad[:1]}")
            for s in bad[:1]:
                out(logs[0][s][:1500])
                out(logs[1].get(s, "")[:1500])
            code = 2
    wall = time.time() - t0
    evidence(prop, m, a.tier, a.seed, summ, wall, explore_s, 1 if code == 1 else 0, det, known_seen, replay)
    out(
        f"{prop}: {summ.runs} runs ({len(summ.nontriv)} distinct non-trivial) in {explore_s:.0f} s, "
        f"{summ.stats['switches']} switches, faults {dict(summ.faults)}, probes {dict(summ.probes)}, "
        f"known {dict(summ.suppressed)}, wall {wall:.0f} s, exit {code}"
    )
    return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("harness:", e)
        sys.exit(2)
