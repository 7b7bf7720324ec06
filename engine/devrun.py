"""development aid: run a property's contracts and print failures.  devrun.py P05 [contract ...]"""
import sys, os, time, importlib, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
from spec import Program
pid = sys.argv[1]; only = sys.argv[2:]
m = importlib.import_module(pid)
t0 = time.time()
d = tempfile.mkdtemp(prefix="vdev")
prog = Program(m.UNITS, d); prog.demangle_all()
import shutil; shutil.rmtree(d)
fns = [f for f in m.CONTRACTS if not only or f.__name__ in only or getattr(f, "label", "") in only]
for r in runner.run_all(fns, prog):
    nd = sum(1 for o in r.obls if o[2] == "discharged")
    print("%s: %d/%d obligations %.1fs %s" % (r.label, nd, len(r.obls), r.wall, ("ERROR " + r.error) if r.error else ""))
    for h in r.havoc: print("     havoc", h)
    for o in r.obls:
        if o[2] != "discharged": print("   FAILED", o[0], o[5], "%.1fs" % o[4]); print("       ", o[7][:int(os.environ.get("GL","600"))]); print("       ", (o[6] or "").replace("\n", "; ")[:500])
        elif o[4] > 3: print("   slow %.1f %s" % (o[4], o[0]))
print("total %.1f" % (time.time() - t0))
