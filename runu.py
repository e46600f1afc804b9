"""developer tool: run units by name prefix, print every obligation that is not discharged"""
import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from contracts.common import *
from pyvc.core import run_unit
if __name__ == "__main__":
    pid = sys.argv[1]
    for u in units_of(pid):
        if len(sys.argv) > 2 and sys.argv[2] not in u.name: continue
        t=time.time()
        r = run_unit(u, make_interp, 600)
        bad=[o for o in r.obls if o.status!="discharged"]
        print("%s: obl %d, failed %d, paths %d, completed %d, %.1fs %s %s" % (u.name, len(r.obls), len(bad), r.paths, r.completed, time.time()-t, "UNSUPPORTED "+r.unsupported if r.unsupported else "", "VACUOUS" if r.vacuous else ""))
        seen=set()
        for o in bad:
            if o.name in seen: continue
            seen.add(o.name)
            print("   FAIL", o.name, o.backend, "%.1fs"%o.time, o.detail[: (3000 if '-v' in sys.argv else 300)])
        if '-a' in sys.argv:
            for o in r.obls: print("    ", o.status, o.backend, "%.2f"%o.time, o.name)
