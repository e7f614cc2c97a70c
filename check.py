#!/usr/bin/env python3-vt
"""check.py PROPERTY [--thorough]

1. Deductive phase: the contracts of the functions that the property depends on are verified against the
   current source of /repo (callees by contract, transitively), plus the lemmas over the contracts (z3) and,
   where needed, the finite-sum facts in Lean.
2. Replay phase: counter-models of failed obligations, and a fixed and seeded set of concrete configurations,
   are run on the real code and compared with an independent evaluation of the specification.
Exit 0 quiet, 1 with a VIOLATION line.  See DESIGN.md for the meaning of the outcomes.
"""
import json, multiprocessing as mp, os, subprocess, sys, time, traceback, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "rt"))
sys.dont_write_bytecode = True
from pv import verify, contracts, lemmas, s2fft_ext          # noqa: E402
from pv.interp import World                                  # noqa: E402
import pool, cases                                           # noqa: E402
import props                                                 # noqa: E402

REPO = os.environ.get("RT_REPO", "/repo")
CPUS = 8


# ------------------------------------------------------------------ deductive phase
def _child(conn, fn, args):
    try:
        conn.send(fn(*args))
    except BaseException:
        conn.send([dict(function=str(args), variant="-", crash=True, records=[verify.rec("verifier", "undecided", traceback.format_exc()[-1200:])], called=[], inlined=[], assumed=[], external=[], time=0, solver={})])
    finally:
        conn.close()
        os._exit(0)


def job_fn(qual, vi, inline=()):
    return verify.run(WORLD, qual, vi, inline)


def job_lemma(i):
    return [lemmas.run_lemma(WORLD, i)]


def job_lean(path):
    t0 = time.time()
    p = subprocess.run(["lean", path], capture_output=True, text=True, timeout=600)
    out = p.stdout + p.stderr
    src = open(path).read()
    names = [l.split()[1] for l in src.splitlines() if l.startswith("theorem ")]
    rs = []
    bad = [a for a in ("sorry", "admit", "axiom ", "native_decide") if a in "\n".join(l for l in src.splitlines() if not l.strip().startswith("--"))]
    axs = {}
    for line in out.replace("\n  ", " ").replace(",\n", ", ").splitlines():
        if "depends on axioms:" in line:
            n, a = line.split("depends on axioms:")
            axs[n.strip().strip("'")] = {x.strip(" []") for x in a.split(",")}
    for n in names:
        ok = p.returncode == 0 and "error" not in out and not bad and n in axs and axs[n] <= {"propext", "Classical.choice", "Quot.sound"}
        rs.append(verify.rec("Lean theorem " + n, "proved" if ok else "undecided", "" if ok else out[:800], t=(time.time() - t0) / max(1, len(names))))
    return [dict(function="lean: Lemmas.lean", variant="-", records=rs, called=[], inlined=[], assumed=[], external=[], time=round(time.time() - t0, 2), solver={})]


class Sched:
    """fork per job, longest first, per job time limit, global deadline"""

    def __init__(s, deadline, limit):
        s.deadline, s.limit = deadline, limit
        s.todo, s.run_, s.done, s.seen = [], [], [], set()

    def add(s, key, cost, fn, *args):
        if key in s.seen:
            return
        s.seen.add(key)
        s.todo.append((cost, key, fn, args))

    def loop(s, on_result):
        while s.todo or s.run_:
            now = time.time()
            if now > s.deadline:
                for x in s.run_:
                    x["p"].kill()
                    x["p"].join()
                    on_result(x["key"], s.lost(x["key"], "global time limit"))
                for c, key, fn, args in s.todo:
                    on_result(key, s.lost(key, "global time limit (not started)"))
                s.run_, s.todo = [], []
                return
            while s.todo and len(s.run_) < CPUS:
                s.todo.sort(key=lambda x: x[0])
                c, key, fn, args = s.todo.pop()
                a, b = mp.Pipe(False)
                p = mp.Process(target=_child, args=(b, fn, args), daemon=True)
                p.start()
                b.close()
                s.run_.append(dict(p=p, c=a, key=key, t=now))
            mp.connection.wait([x["c"] for x in s.run_], timeout=1.0)
            keep = []
            for x in s.run_:
                if x["c"].poll():
                    try:
                        r = x["c"].recv()
                    except EOFError:
                        r = s.lost(x["key"], "verifier process ended (memory?)")
                    x["p"].join()
                    on_result(x["key"], r)
                elif time.time() - x["t"] > s.limit:
                    x["p"].kill()
                    x["p"].join()
                    on_result(x["key"], s.lost(x["key"], "time limit of %d s" % s.limit))
                else:
                    keep.append(x)
            s.run_ = keep

    def lost(s, key, why):
        return [dict(function=str(key[1]), variant=str(key[2:]), lost=True, records=[verify.rec("decided", "undecided", why)], called=[], inlined=[], assumed=[], external=[], time=0, solver={})]


def cost(q, v):
    c = {"base.analysis_looped": 60, "base.synthesis_looped": 30}.get(q, 5 if "synthesis" in q else 3 if "analysis" in q else 2 if "directional" in q else 1)
    if v.get("reality") and "looped" in q:
        c += 40
    return c


def deductive(P, deadline, limit):
    global WORLD
    WORLD = World()
    results, order = {}, []
    s = Sched(deadline, limit)

    def want(q):
        c = contracts.TABLE.get(q)
        if c is None:
            return
        for i, v in enumerate(c.variants):
            if props.variant_ok(P, q, v):
                s.add(("fn", q, i), cost(q, v), job_fn, q, i)

    def on_result(key, rs):
        results[key] = rs
        for r in rs:
            for q in r["called"]:
                want(q)

    for q in P["roots"]:
        want(q)
    for i, (n, tags, f) in enumerate(lemmas.LEMMAS):
        if P["id"] in tags:
            s.add(("lemma", n, i), 8, job_lemma, i)
    if P.get("lean"):
        s.add(("lean", "Lemmas.lean", 0), 100, job_lean, os.path.join(HERE, "lean", "Lemmas.lean"))
    s.loop(on_result)

    # a private helper that no longer meets its contract is not an alarm by itself: its callers are verified with its body
    badh = {key[1] for key, rs in results.items() if key[0] == "fn" and key[1].split(".")[-1].startswith("_")
            and any(x["status"] != "proved" for r in rs for x in r["records"])}
    dropped = []
    for h in sorted(badh):
        callers = [key for key, rs in results.items() if key[0] == "fn" and any(h in r["called"] for r in rs)]
        s2 = Sched(deadline, limit)
        again = {}
        for key in callers:
            s2.add(key, 1, job_fn, key[1], key[2], tuple(badh))
        s2.loop(lambda k, rs: again.__setitem__(k, rs))
        results.update(again)
        if callers and all(x["status"] == "proved" for rs in again.values() for r in rs for x in r["records"]):
            dropped.append(h)
            for key in [k for k in results if k[1] == h]:
                results.pop(key)
    return results, dropped


# ------------------------------------------------------------------ concrete phase
FAM = {"base.analysis_looped": "looped", "base.synthesis_looped": "looped", "base": "base", "wavelet": "jax", "wavelet_c": "c", "wavelet_precompute": "pre", "wavelet_precompute_torch": "torch"}


def directed_cfgs(P, fails):
    """(concrete configurations of the counter-models, per failed record (models executed, all of them))"""
    out, info = [], []
    wide = P["id"] in ("C02", "C03", "C04", "C05", "C12", "C13", "C15")
    for no, (key, r, x) in enumerate(fails):
        v = contracts.TABLE[key[1]].variants[key[2]] if key[0] == "fn" else {}
        ms = (x.get("model") or {}).get("models") or []
        execs = 0
        for m in ms:
            L = m.get("L", 8)
            if not (2 <= L <= (260 if wide else 72)) or not (1 < m.get("lam", 2.0) <= 20):
                continue
            if L > 40 and m.get("N", 3) > 6 and not wide:
                continue
            d = dict(L=L, lam=float(m.get("lam", 2.0)))
            J = cases.jmax(L, d["lam"])
            d["N"] = m.get("N", min(3, L))
            d["J_min"] = m.get("J_min", 0 if P["id"] != "C13" else 0)
            if P["id"] != "C13" and not cases.dom(L, d["N"], d["J_min"], d["lam"]):
                continue
            for k in ("spin", "spin0"):
                if k in m and abs(m[k]) < L:
                    d[k] = m[k]
            if not d.get("spin0"):
                d["spin0"] = 0
            if "reality" in v:
                d["reality"] = v["reality"]
                if v["reality"]:
                    d["spin"] = 0
            d.setdefault("spin", 0)
            if "multiresolution" in v:
                d["multi"] = v["multiresolution"]
            if "given" in v:
                d["given"] = v["given"]
            if m.get("J_max") is not None and v.get("J_max") is not None and d["J_min"] <= m["J_max"] <= J:
                d["J_max"] = m["J_max"]
            if "forward" in v:
                d["forward"] = v["forward"]
            q = key[1] if key[0] == "fn" else ""
            fam = FAM.get(q) or FAM.get(q.split(".")[0])
            if fam:
                d["fam"] = fam
            samp = [v["sampling"]] if isinstance(v.get("sampling"), str) else ["mw", "mwss", "dh", "gl"]
            if len(samp) > 1 and (not fam or L > 24):
                samp = [samp[len(out) % 4]]
            for sname in samp:
                out.append((no, dict(d, sampling=sname)))
            execs += 1
        info.append([execs, len(ms)])
    seen, uniq = {}, []
    for no, d in out:
        k = json.dumps(d, sort_keys=True)
        if k in seen:
            seen[k]["model_of"].append(no)
        elif len(uniq) < 40:
            uniq.append(dict(d, model_of=[no]))
            seen[k] = uniq[-1]
        else:
            info[no][0] = 0
    return uniq, info


def clean_models(no, info, jobs, res):
    """every counter-model of the failed record was run on the real code and does not fail"""
    if info[no][0] < 2 or info[no][0] < info[no][1]:
        return False
    mine = [r for j, r in zip(jobs, res) for c in [j["case"]] + list(j["case"].get("cfgs", [])) if no in c.get("model_of", ())]
    return bool(mine) and all(r and r["status"] in ("ok", "skip") for r in mine) and any(r["status"] == "ok" for r in mine)


def confirm(jobs, res, deadline):
    """failures of the fast run, re-run with the real dependency routines"""
    bad = [(j, r) for j, r in zip(jobs, res) if r and r["status"] == "fail"]
    bad.sort(key=lambda x: (x[0]["case"].get("L", 5), len(json.dumps(x[0]))))
    byfam, pick = {}, []
    for j, r in bad:
        f = j["case"].get("fam", "-")
        if byfam.get(f, 0) < 3:
            byfam[f] = byfam.get(f, 0) + 1
            pick.append((j, r))
    pick = pick[:12]
    if not pick:
        return [], 0
    rr = pool.run_jobs([j for j, _ in pick], stub=False, procs=CPUS, timeout=240, deadline=deadline)
    ok = [(j, r) for (j, _), r in zip(pick, rr) if r and r["status"] == "fail"]
    return ok, len(bad)


def digest_pairs(jobs, res):
    out = []
    for i, (j, r) in enumerate(zip(jobs, res)):
        if j["case"].get("digest") and j["case"].get("reverse") and i and r and res[i - 1] and r.get("digest") and res[i - 1].get("digest"):
            a, b = res[i - 1]["digest"], r["digest"]
            diff = [k for k in b if a.get(k) != b[k]]
            if diff:
                out.append((j, diff))
    return out


def concrete(P, tier, seed, directed, deadline, end):
    jobs = cases.cases(P["id"], seed, tier, directed, REPO)
    res = pool.run_jobs(jobs, stub=True, procs=CPUS, timeout=150, deadline=deadline)
    viol, nbad = confirm(jobs, res, min(time.time() + 200, end))
    if P["id"] == "C14":
        for j, diff in digest_pairs(jobs, res):
            fwd = dict(j, case=dict(j["case"], reverse=False))
            rr = pool.run_jobs([fwd, j], stub=False, procs=2, timeout=200, deadline=min(time.time() + 200, end))
            d = digest_pairs([fwd, j], rr)
            if d:
                viol.append((dict(j, compare_with_forward_order=True), dict(status="fail", msgs=["result depends on the order of calls: " + ", ".join(d[0][1][:4])])))
    return jobs, res, viol, nbad


def write(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, default=str)


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    t0 = time.time()
    quick = tier == "quick"
    results, dropped = deductive(P, t0 + (360 if quick else 3000), 300 if quick else 1500)
    t_ded = time.time() - t0

    recs = [(k, r, x) for k, rs in sorted(results.items(), key=str) for r in rs for x in r["records"]]
    nob = len(recs)
    proved = sum(x["status"] == "proved" for _, _, x in recs)
    failed = [(k, r, x) for k, r, x in recs if x["status"] == "failed" and props.relevant(P, k, r, x)]
    opened = [(k, r, x) for k, r, x in recs if x["status"] != "proved" and x["status"] != "failed"]
    if nob == 0:
        print("no obligations were generated for", pid)
        sys.exit(2)
    direct = [f for f in failed if props.direct(P, *f)]
    print("%s: %d obligations, %d discharged, %d failed, %d open (%.0f s)" % (pid, nob, proved, nob - proved - len(opened), len(opened), t_ded))
    for k, r, x in (failed + opened)[:12]:
        print("   %s [%s] %s: %s -- %s" % (x["status"], r["function"], r["variant"], x["name"], str(x["detail"])[:240].replace("\n", " ")))

    directed, info = directed_cfgs(P, failed)
    t1 = time.time()
    end = t0 + (760 if quick else 9000)
    jobs, res, viol, nbad = concrete(P, tier, seed, directed, t1 + (150 if quick else 2400), end)
    extra = 0
    if not viol and (failed or opened or nbad):
        # search harder before the outcome is decided
        for sd in range(1, 3 if quick else 8):
            left = (t0 + (600 if quick else 7200)) - time.time()
            if left < 30:
                break
            j2, r2, viol, nb2 = concrete(P, tier, seed + 7919 * sd, [], time.time() + min(left, 110), end)
            jobs, res = jobs + j2, res + r2
            extra += len(j2)
            if viol:
                break
    ran = [(j, r) for j, r in zip(jobs, res) if r and r["status"] not in ("skip",)]
    counts = {}
    for r in res:
        counts[r["status"] if r else "not-run"] = counts.get(r["status"] if r else "not-run", 0) + 1

    # known findings listed for this property: re-run, report, never an alarm
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["known"] if pid in k["properties"]]
    kjobs = [dict(prop=k["replay"]["prop"], case=k["replay"]["case"]) for k in known]
    for k, r in zip(known, pool.run_jobs(kjobs, stub=False, procs=CPUS, timeout=120) if kjobs else []):
        if r and r["status"] == "known":
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
        else:
            print("note: listed finding %s does not show (%s)" % (k["id"], r and r["status"]))

    rc, lines = 0, []
    rdir = os.path.join(HERE, "evidence", "replay")
    if viol:
        j, r = viol[0]
        path = os.path.join(rdir, pid + ".json")
        write(path, dict(property=pid, kind="failing input, run on the real code", job=j, observed=r.get("msgs"), trace=r.get("trace", "")[-1500:],
                         rerun="/opt/venv/bin/python %s/rt/replay.py %s" % (HERE, path), others=[dict(job=a, observed=b.get("msgs")) for a, b in viol[1:6]],
                         failed_obligations=[dict(function=q["function"], variant=q["variant"], obligation=x["name"], detail=x["detail"], model=x["model"]) for _, q, x in failed[:20]]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("   failing input: %s -> %s" % (json.dumps(j["case"])[:400], (r.get("msgs") or [""])[0][:300]))
        rc = 1
    else:
        sure = []
        for f in direct:
            i = failed.index(f)
            m = f[2].get("model") or {}
            replayed = clean_models(i, info, jobs, res) and not m.get("data") and f[2].get("replayable", True)
            if not replayed:
                sure.append(f)
        if sure:
            path = os.path.join(rdir, pid + ".json")
            write(path, dict(property=pid, kind="failed obligation, no failing input found", repository=REPO,
                             failed_obligations=[dict(function=q["function"], variant=q["variant"], obligation=x["name"], verifier_output=x["detail"], model=x["model"]) for _, q, x in sure[:30]]))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
            rc = 1
        elif failed:
            print("   counter-models of the failed obligations were run on the real code and do not fail: obligations left open, property checked only within the bounds below")
    fully = proved == nob
    fns = sorted({r["function"] for k, rs in results.items() for r in rs if k[0] == "fn"})
    assumptions = sorted({a for rs in results.values() for r in rs for a in r.get("assumed", [])})
    ext = sorted({a for rs in results.values() for r in rs for a in r.get("external", [])})
    solver = {}
    for rs in results.values():
        for r in rs:
            for a, b in (r.get("solver") or {}).items():
                solver[a] = round(solver.get(a, 0) + b, 3)
    rnd = random.Random(seed)
    smp = [dict(case=j["case"], status=r["status"]) for j, r in rnd.sample(ran, min(4, len(ran)))]
    distinct = len({json.dumps(j, sort_keys=True) for j, r in ran if r["status"] == "ok"})
    ev = dict(property=pid, tier=tier, seed=seed, level="proof",
              coverage=dict(
                  obligations=nob, discharged=proved, checker_cmd="python3-vt /verif/check.py %s" % pid,
                  trusted_base=props.TRUSTED + ["assumed contract of s2fft.%s" % e for e in ext],
                  functions_under_contract=fns, contract_instances=sum(1 for k in results if k[0] == "fn"),
                  lemmas=[r["function"] for k, rs in results.items() for r in rs if k[0] == "lemma"],
                  lean_theorems=[x["name"] for k, rs in results.items() for r in rs if k[0] == "lean" for x in r["records"] if x["status"] == "proved"],
                  inlined_helpers=sorted({a for rs in results.values() for r in rs for a in r.get("inlined", [])} - set(fns)),
                  helpers_verified_inline=dropped,
                  backend=dict(solver="z3 (python bindings %s) with exact normal forms over complex polynomials" % __import__("z3").get_version_string(), queries=solver.get("queries", 0), solver_time_s=round(solver.get("time", 0), 1),
                               case_splits=solver.get("cases", 0), cpu_time_s=round(sum(r.get("time") or 0 for rs in results.values() for r in rs), 1), wall_s=round(t_ded, 1)),
                  fully_discharged=fully,
                  failed=[dict(function=r["function"], variant=r["variant"], obligation=x["name"], detail=x["detail"][:300]) for k, r, x in recs if x["status"] == "failed"][:20],
                  open_obligations=[dict(function=r["function"], variant=r["variant"], obligation=x["name"], status=x["status"], detail=x["detail"][:300]) for k, r, x in opened][:20],
                  evaluations=len(ran), distinct_nontrivial=distinct,
                  rule="concrete cross-check (bounded, never counted as proved): real functions of /repo run on configurations (core list, seeded random, literals of the source, counter-models) and compared with an independent NumPy evaluation of the specification; distinct = different configurations in the domain that ran to comparison",
                  outcomes=counts, samples=smp, directed=len(directed)),
              assumptions=sorted(set(props.ASSUMPTIONS + assumptions)), wall_s=round(time.time() - t0, 1), violations=len(lines))
    write(os.path.join(HERE, "evidence", pid + ".json"), ev)
    for l in lines:
        print(l)
    print("%s %s: %s, %d concrete cases %s, %.0f s" % (pid, tier, "every obligation discharged" if fully else "obligations left open", len(ran), counts, time.time() - t0))
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
