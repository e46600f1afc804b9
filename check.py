#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

1. deductive part: every contract unit of the property is verified against the source text
   read from /repo now (pyvc: weakest-precondition style symbolic interpretation of the AST,
   obligations discharged by z3 / cvc5);
2. replay part: the real code is executed on concrete inputs against independent oracles.  It
   supplies the failing input for a violated obligation and is the labelled, bounded stand-in
   for units the verifier cannot reach.

exit 0: every obligation discharged (or the unit is reported as bounded) and no failing input
exit 1: VIOLATION line
"""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
CORES = min(8, os.cpu_count() or 8)


def run_one(a):
    pid, idx, wall = a
    from contracts.common import make_interp, units_of
    from pyvc.core import run_unit
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    u = units_of(pid)[idx]
    t = time.time()
    try:
        r = run_unit(u, make_interp, wall)
    except MemoryError:
        return dict(unit=u.name, unsupported="memory", obls=[], functions=list(u.functions), trusted=[], libs=[], solver=0, wall=time.time() - t, vacuous=True, paths=0, contracts=[])
    return dict(
        unit=u.name,
        functions=sorted(set(r.functions)),
        targets=list(u.functions),
        contracts=sorted(r.contracts_used),
        obls=[(o.name, o.status, o.backend, o.time, o.detail) for o in r.obls],
        trusted=sorted(r.trusted),
        solver=r.solver_time,
        unsupported=r.unsupported,
        vacuous=r.vacuous,
        paths=r.paths,
        wall=time.time() - t,
    )


def _child(w, a):
    try:
        r = run_one(a)
    except BaseException as e:
        r = "%s: %s" % (type(e).__name__, e)
    w.send(r)
    w.close()
    os._exit(0)


def run_units(pid, mod, wall, limit):
    """every unit in its own process; a process that dies is started once more"""
    t0 = time.time()
    C = mp.get_context("fork")
    blank = lambda i, why: dict(unit=mod.UNITS[i].name, functions=[], targets=list(mod.UNITS[i].functions), contracts=[], obls=[], trusted=[], solver=0, unsupported=why, vacuous=True, paths=0, wall=0)
    results, todo, running, tries = {}, list(range(len(mod.UNITS))), {}, {}
    while todo or running:
        while todo and len(running) < max(1, CORES - 1):
            i = todo.pop(0)
            tries[i] = tries.get(i, 0) + 1
            r, w = C.Pipe(False)
            p = C.Process(target=_child, args=(w, (pid, i, wall)), daemon=True)
            p.start()
            w.close()
            running[i] = (p, r)
        ready = mp.connection.wait([r for _, r in running.values()], timeout=max(1, limit - (time.time() - t0)))
        late = time.time() - t0 >= limit
        for i, (p, r) in list(running.items()):
            if r in ready:
                try:
                    v = r.recv()
                except EOFError:
                    v = "the verifier process ended"
                p.join(5)
            elif late:
                v = "timeout"
            else:
                continue
            if p.is_alive():
                p.kill()
                p.join()
            r.close()
            del running[i]
            flaky = isinstance(v, str) and v != "timeout" or isinstance(v, dict) and str(v["unsupported"] or "").startswith("z3:")
            if flaky and tries[i] < 3:
                todo.insert(0, i)
            else:
                results[i] = blank(i, v) if isinstance(v, str) else v
        if late:
            for i in todo:
                results[i] = blank(i, "timeout")
            todo = []
    return [results[i] for i in range(len(mod.UNITS))]


class Battery:
    def __init__(self, pid, seed, budget, tag, offset=0):
        self.out = os.path.join(HERE, "replays", "%s.%s.json" % (pid, tag))
        os.makedirs(os.path.dirname(self.out), exist_ok=True)
        if os.path.exists(self.out):
            os.unlink(self.out)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYVC_REPO=REPO)
        if os.path.isdir("/opt/mplconfig"):
            env.setdefault("MPLCONFIGDIR", "/opt/mplconfig")
        self.have = os.path.exists(os.path.join(HERE, "battery", pid.lower() + ".py"))
        self.p = None
        if self.have:
            self.log = open(self.out + ".log", "w")
            self.p = subprocess.Popen([PY, os.path.join(HERE, "battery", "run.py"), pid, "--seed", str(seed), "--budget", str(budget), "--offset", str(offset), "--out", self.out], cwd="/", env=env, stdout=self.log, stderr=self.log, start_new_session=True)
        self.deadline = time.time() + budget * 3 + 240

    def result(self):
        if not self.have:
            return dict(cases={}, evaluations=0, failure=None, note="no executable battery")
        try:
            self.p.wait(max(1, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            import signal

            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        self.log.close()
        if os.path.exists(self.out):
            with open(self.out) as f:
                return json.load(f)
        with open(self.out + ".log") as f:
            tail = f.read()[-3000:]
        return dict(cases={}, evaluations=0, failure=dict(case="battery-run", message="the battery process ended without a result:\n" + tail, seed=0, index=0), note="crash")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    quick = tier != "thorough"
    mod = importlib.import_module("contracts." + pid.lower())
    wall = getattr(mod, "WALL", 200) if quick else 1500
    bat = Battery(pid, seed, getattr(mod, "BATTERY", 25) if quick else 300, "main")
    results = []
    n = len(mod.UNITS)
    if n:
        results = run_units(pid, mod, wall, (wall + 120) if quick else 4000)
    b = bat.result()
    failed = [(r["unit"], o) for r in results for o in r["obls"] if o[1] != "discharged"]
    demoted = [r for r in results if r["unsupported"] or r["vacuous"]]
    runs = [b]
    if b["failure"] is None and (failed or demoted) and quick and b.get("note") != "no executable battery":
        # look harder for a concrete failing input
        spare = 560 - (time.time() - t0)
        bud = min(100 if failed else 45, spare / 4)
        if bud > 5:
            bs = [Battery(pid, seed + 1000 * (k + 1), bud, "search%d" % k, offset=10000 * (k + 1)) for k in range(4)]
            for x in bs:
                r = x.result()
                runs.append(r)
                if r["failure"] is not None and b["failure"] is None:
                    b = r
    violation = None
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rp = os.path.join(HERE, "replays", "%s-violation.json" % pid)
    if os.path.exists(rp):
        os.unlink(rp)
    known = load_known(pid)
    fl = b["failure"]
    if fl is not None and match_known(known, fl):
        print("KNOWN-FINDING: property=%s %s" % (pid, fl["message"].splitlines()[0]))
        fl = None
    if fl is not None:
        violation = dict(property=pid, kind="failing input on the real code", **fl)
        violation["reproduce"] = "%s %s %s --case %s --seed %s --index %s" % (PY, os.path.join(HERE, "battery", "run.py"), pid, fl["case"], fl["seed"], fl["index"])
        violation["failed_obligations"] = [dict(unit=u, obligation=o[0], backend=o[2], verifier_output=o[4]) for u, o in failed[:20]]
    elif failed:
        violation = dict(property=pid, kind="failed obligation, no failing input found", failed_obligations=[dict(unit=u, obligation=o[0], backend=o[2], verifier_output=o[4]) for u, o in failed[:40]])
    nobl = sum(len(r["obls"]) for r in results)
    ndis = sum(1 for r in results for o in r["obls"] if o[1] == "discharged")
    backends = {}
    for r in results:
        for o in r["obls"]:
            if o[1] == "discharged":
                backends[o[2]] = backends.get(o[2], 0) + 1
    proved = [r for r in results if not r["unsupported"] and not r["vacuous"] and all(o[1] == "discharged" for o in r["obls"])]
    bounded = list(getattr(mod, "BOUNDED", []))
    for r in demoted:
        bounded.append("%s: outside the verifier's reach in this tree (%s); decided only by the concrete battery" % (r["unit"], r["unsupported"] or "vacuous"))
    trusted = sorted({t for r in results for t in r["trusted"]} | set(getattr(mod, "TRUSTED", [])))
    trusted += [
        "pyvc: translation of the Python subset into obligations (front end, library contracts in pyvc/lib_*.py, induction and sum lemmas of the generator)",
        "z3 4.x/5.x and cvc5 answer 'unsat' only for unsatisfiable formulas",
        "machine floats are treated as mathematical reals, Python ints as mathematical integers, numpy integer arrays as unbounded",
    ]
    evals = sum(x.get("evaluations", 0) for x in runs)
    ev = dict(
        property=pid,
        tier="quick" if quick else "thorough",
        seed=seed,
        level="proof",
        coverage=dict(
            obligations=nobl,
            discharged=ndis,
            checker_cmd="python3-vt %s %s %s" % (os.path.join(HERE, "check.py"), pid, tier),
            trusted_base=trusted,
            evaluations=max(1, evals),
            functions_under_contract=sorted({f for r in proved for f in r["targets"]}),
            functions_interpreted=sorted({f for r in proved for f in r["functions"]}),
            callees_used_by_contract=sorted({f for r in proved for f in r["contracts"]}),
            units=[dict(unit=r["unit"], status="proved" if r in proved else ("bounded" if r in demoted else "failed"), obligations=len(r["obls"]), paths=r["paths"], solver_s=round(r["solver"], 2), wall_s=round(r["wall"], 2), note=r["unsupported"]) for r in results],
            backends=backends,
            solver_time_s=round(sum(r["solver"] for r in results), 2),
            bounded_stand_ins=bounded,
            replay_battery=dict(evaluations=evals, cases=b.get("cases", {}), bound="random and enumerated small inputs, budget in seconds"),
        ),
        assumptions=trusted + list(getattr(mod, "ASSUMES", [])),
        wall_s=round(time.time() - t0, 2),
        violations=0 if violation is None else 1,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d/%d units proved, %d battery evaluations, %.1f s" % (pid, nobl, ndis, len(proved), len(results), evals, time.time() - t0))
    for x in bounded:
        print("  bounded: " + x[:300])
    if violation is None:
        return 0
    with open(rp, "w") as f:
        json.dump(violation, f, indent=1)
    if fl is not None:
        print("  failing input: %s" % fl["message"][:1500])
    for u, o in failed[:5]:
        print("  failed obligation %s :: %s (%s)" % (u, o[0], o[2]))
    print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if fl is not None else " no-failing-input-found"))
    return 1


def load_known(pid):
    p = os.path.join(HERE, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid:
                    out.append(d)
    return out


def match_known(known, fl):
    return any(d.get("case") == fl["case"] and d.get("match", "\0") in fl["message"] for d in known)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
        print("check machinery error")
    sys.stdout.flush()
    os._exit(rc)
