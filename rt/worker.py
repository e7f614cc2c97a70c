"""Reads {"prop":..., "case":...} per line, answers one JSON line per job."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
real_out = os.dup(1)
os.dup2(2, 1)            # anything the code prints goes to stderr


def say(d):
    os.write(real_out, (json.dumps(d) + "\n").encode())


try:
    import harness as H
    say({"ready": True})
except Exception:
    say({"ready": False, "error": traceback.format_exc()[-3000:]})
    sys.exit(0)

for line in sys.stdin:
    job = json.loads(line)
    t0 = time.time()
    try:
        r = H.PROPS[job["prop"]](job["case"])
        if r is None:
            res = {"status": "skip"}
        elif isinstance(r, dict):
            res = dict(r, status="ok")
        else:
            res = {"status": "fail" if r else "ok", "msgs": [str(x)[:400] for x in r[:8]]}
    except H.Known as e:
        res = {"status": "known", "msgs": [str(e)]}
    except Exception as e:
        res = {"status": "fail", "msgs": ["%s raised: %s" % (type(e).__name__, str(e).strip()[:300])], "trace": traceback.format_exc()[-2500:]}
    res["time"] = round(time.time() - t0, 3)
    say(res)
