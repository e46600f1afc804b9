"""runs the concrete battery of one property against the real code (under /opt/venv)"""
import argparse
import faulthandler
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--index", type=int)
    a = ap.parse_args()
    real_stdout = sys.stdout
    res = dict(cases={}, evaluations=0, failure=None)

    def finish():
        res["evaluations"] = sum(res["cases"].values())
        if a.out:
            with open(a.out, "w") as f:
                json.dump(res, f, indent=1)
        else:
            print(json.dumps(res, indent=1), file=real_stdout)
        real_stdout.flush()
        os._exit(1 if res["failure"] and not a.out else 0)

    signal.signal(signal.SIGALRM, on_alarm)
    try:
        signal.alarm(200)
        mod = importlib.import_module(a.pid.lower())
        signal.alarm(0)
    except (Exception, Hang):
        res["failure"] = dict(case="import", seed=0, index=0, message="importing the package or the battery fails:\n" + traceback.format_exc()[-2500:])
        finish()
    cases = [(f.__name__, f, getattr(f, "count", 10**9), getattr(f, "weight", 1)) for f in mod.CASES]
    if a.case:
        cases = [c for c in cases if c[0] == a.case]
    t0 = time.time()

    def one(name, fn, idx):
        seed = a.seed * 1000003 + idx * 7919 + sum(map(ord, name))
        rng = random.Random(seed)
        import numpy as np

        np.random.seed(seed % (2**32))
        random.seed(seed)
        sys.stdout = io.StringIO()
        signal.alarm(100)
        try:
            fn(rng, idx)
            signal.alarm(0)
            return None
        except Hang:
            return "no result after 100 s\n" + traceback.format_exc()[-1500:]
        except Exception as e:
            signal.alarm(0)
            m = "%s: %s" % (type(e).__name__, e)
            return m[:3000] + "\n" + traceback.format_exc()[-2500:]
        finally:
            signal.alarm(0)
            sys.stdout = real_stdout

    if a.index is not None:
        msg = one(cases[0][0], cases[0][1], a.index)
        res["cases"][cases[0][0]] = 1
        if msg:
            res["failure"] = dict(case=cases[0][0], seed=a.seed, index=a.index, message=msg)
        finish()
    state = {c[0]: 0 for c in cases}
    spent = {c[0]: 0.0 for c in cases}
    live = list(cases)
    first = True
    while live:
        # round robin by consumed time: the case that used least (weighted) runs next
        c = min(live, key=lambda c: (state[c[0]] > 0, spent[c[0]] / c[3]))
        name, fn, cnt, w = c
        if (time.time() - t0 > a.budget) and all(state[x[0]] > 0 for x in cases):
            break
        idx = a.offset + state[name]
        if getattr(fn, "enumerated", False):
            idx = state[name]
        t = time.time()
        msg = one(name, fn, idx)
        spent[name] += time.time() - t
        state[name] += 1
        res["cases"][name] = state[name]
        if msg:
            res["failure"] = dict(case=name, seed=a.seed, index=idx, message=msg)
            break
        if state[name] >= cnt:
            live.remove(c)
    finish()


if __name__ == "__main__":
    main()
