"""replay.py FILE: run the recorded failing input on the real code."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pool
d = json.load(open(sys.argv[1]))
if "job" not in d:
    print(json.dumps(d, indent=1))
    sys.exit(1)
j = d["job"]
if j.get("compare_with_forward_order"):
    f = dict(j, case=dict(j["case"], reverse=False))
    a, b = pool.run_jobs([f, j], stub=False, procs=2, timeout=600)
    bad = [k for k in b["digest"] if a["digest"].get(k) != b["digest"][k]]
    print("results that depend on the call order:", bad)
    sys.exit(1 if bad else 0)
r = pool.run_jobs([j], stub=False, procs=1, timeout=600)[0]
print(json.dumps(r, indent=1))
sys.exit(1 if r["status"] == "fail" else 0)
