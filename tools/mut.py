"""developer tool: python3-vt tools/mut.py PID file 'old' 'new' [unit substring]
runs the contracts of PID on a scratch copy of /repo with one textual change"""
import os, shutil, subprocess, sys, tempfile
pid, f, old, new = sys.argv[1:5]
sub = sys.argv[5] if len(sys.argv) > 5 else ""
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/mentpy", d + "/mentpy")
    p = d + "/" + f
    s = open(p).read()
    assert s.count(old) >= 1, "text not found"
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["python3-vt", os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "runu.py"), pid, sub], env=dict(os.environ, PYVC_REPO=d), capture_output=True, text=True)
    print("== ", old[:60].strip(), "->", new[:60].strip())
    print("\n".join(l[:220] for l in (r.stdout + r.stderr[-600:]).splitlines() if "FAIL" in l or "UNSUPP" in l or "Error" in l or "obl" in l))
finally:
    shutil.rmtree(d)
