"""lists obligations that took longer than a threshold: python3-vt tools/slow.py [seconds] [ids]"""
import os, sys, time
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import glob


def one(a):
    pid, i = a
    sys.setrecursionlimit(20000)
    from contracts.common import make_interp, units_of
    from pyvc.core import run_unit

    u = units_of(pid)[i]
    t = time.time()
    r = run_unit(u, make_interp, 600)
    return pid, u.name, time.time() - t, [(o.name, o.status, o.backend, o.time) for o in r.obls], r.unsupported or ("vacuous" if r.vacuous else None)


if __name__ == "__main__":
    lim = float(sys.argv[1]) if len(sys.argv) > 1 else 1.0
    ids = sys.argv[2:] or sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(os.path.dirname(__file__), "..", "contracts", "c[0-9][0-9].py")))
    import importlib

    jobs = [(p, i) for p in ids for i in range(len(importlib.import_module("contracts." + p.lower()).UNITS))]
    with Pool(6, maxtasksperchild=1) as pool:
        for pid, n, t, obls, uns in pool.imap_unordered(one, jobs):
            if uns or any(o[1] != "discharged" for o in obls):
                print("!!", pid, n, uns, [o[0] for o in obls if o[1] != "discharged"], flush=True)
            for o in obls:
                if o[3] > lim:
                    print("%5.1f %-10s %s | %s | %s" % (o[3], o[2], pid, n, o[0]), flush=True)
