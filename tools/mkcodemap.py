"""Write sim/codemap.json for the current tree in /repo (search guidance, see sim/focus.py)."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import engine as E, focus as F
b = tempfile.mkdtemp()
sys.dont_write_bytecode = True
E.boot(b)
import gc; gc.unfreeze()
m = {}
for code, name in F.functions().items():
    m.setdefault(name, set()).add(F.fingerprint(code))
with open(F.PATH, "w") as fh:
    json.dump({k: sorted(v) for k, v in sorted(m.items())}, fh, indent=0)
    fh.write("\n")
shutil.rmtree(b)
print(len(m))
