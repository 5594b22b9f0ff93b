import json, os, sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
m = importlib.import_module("checks." + sys.argv[1])
print(json.dumps({"subs": [{"name": s.name, "quick": s.quick, "thorough": s.thorough, "shards": s.shards, "debug": s.debug} for s in m.SUBS],
                  "assumptions": getattr(m, "ASSUMPTIONS", [])}))
sys.stdout.flush()
os._exit(0)
