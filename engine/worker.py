"""Worker process: reads one JSON job per line on stdin, answers with one JSON line on fd 3 (stdout of the code under test is kept apart)."""
import os, sys, json, time, traceback, importlib, resource
OUT = os.fdopen(os.dup(1), "w", buffering=1)
os.dup2(2, 1)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import warnings; warnings.filterwarnings("ignore")
from engine import harness, prove as pv, trace as tr, ir


def find(module, name):
    m = importlib.import_module("contracts." + module)
    for c in m.CONTRACTS:
        if c.name == name: return c
    raise KeyError(name)


def clean(m):
    return [[n, [int(i) for i in ix], (v if isinstance(v, (int, float, bool)) or v is None else float(v))] for n, ix, v in (m or [])]


def repo_raised(tb_txt):
    """was the exception raised below a frame of the repository?"""
    fr = [l for l in tb_txt.splitlines() if l.strip().startswith("File ")]
    return any(os.path.join(harness.REPO, "hydraxmpm") in l for l in fr)


def job_prove(j):
    c = find(j["module"], j["name"]); c.known = {e: True for e in j.get("known", ())}
    out = dict(results=[], functions=[], error=None, fallback=False)
    t0 = time.time()
    st0 = json.loads(json.dumps(pv.STATS))
    if not c.search_only and c.bounded is None or c.bounded and not c.search_only:
        try:
            r = c.prove(shard=(j.get("shard", 0), j.get("shards", 1)), only=j.get("only"), deadline=j.get("deadline"), stop_after=j.get("stop_after", 4))
            out["results"] = r["results"]; out["functions"] = r["functions"]; out["assumed"] = r.get("assumed", 0)
        except Exception as e:
            tb = traceback.format_exc()
            out["error"] = "%s: %s" % (type(e).__name__, str(e)[:400]); out["tb"] = tb[-3000:]
            out["repo_raised"] = repo_raised(tb)
        bad = [r for r in out["results"] if not r["ok"]]
        frag = out["error"] is not None or any("outside the fragment" in str(r["how"]) or "recursion depth" in str(r["how"]) for r in bad)
        if frag and c.dims and not j.get("nofallback"):
            # the general (symbolic size) obligation cannot be generated from the current source: bounded instance instead
            try:
                r = c.prove(shard=(j.get("shard", 0), j.get("shards", 1)), concrete=c.fallback_dims or c.sizes[0])
                good = {x["ens"] for x in bad} if out["error"] is None else None
                fb = [x for x in r["results"] if good is None or x["ens"] in good]
                if fb:
                    out["fallback"] = True
                    out["fallback_reason"] = out["error"] or str(bad[0]["how"])[:300]
                    for x in fb: x["bounded"] = True
                    out["results"] = [x for x in out["results"] if good is not None and x["ens"] not in good] + fb
                    out["functions"] = r["functions"]; out["error"] = None
            except Exception as e:
                out["fallback_error"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        bad = [r for r in out["results"] if not r["ok"]]
        bad = [r for r in bad if r["ens"] not in c.known]
        if bad and not out["fallback"] and not j.get("noretry"):
            # one retry with a larger budget (load, solver variance); the first obligation that fails again decides
            ob, z = c.budget, c.z3_ms
            c.budget, c.z3_ms = 3 * ob, 3 * z
            try:
                r2 = c.prove(obs={b["ob"] for b in bad}, deadline=j.get("deadline"), stop_after=1)
                m = {x["ob"]: x for x in r2["results"]}
                out["results"] = [m.get(r["ob"], r) if not r["ok"] else r for r in out["results"]]
            except Exception: pass
            c.budget, c.z3_ms = ob, z
    models = [clean(r["model"]) for r in out["results"] if not r["ok"] and r["model"]]
    for r in out["results"]: r["model"] = clean(r["model"]) if r["model"] else None
    if j.get("nosearch") and not models: out["search"] = {}
    elif j.get("shard", 0) == 0 or models or any(not r["ok"] for r in out["results"]):
        vio, st = c.search(j["seed"], budget_s=j.get("search_s", 20), models=models, rounds=j.get("rounds"))
        out["violation"], out["search"] = vio, st
        if vio and vio.get("exception"): vio["repo_raised"] = repo_raised(vio["fails"][0][2])
    if j.get("crosscheck") and j.get("shard", 0) == 0 and not c.search_only and not c.nocheck:
        try: out["crosscheck"] = c.crosscheck(j["seed"], j.get("cc_n", 1), max_elems=j.get("cc_elems", 6))
        except Exception as e: out["crosscheck"] = dict(compared=0, unknown=0, mismatches=[], nmism=0, error="%s: %s" % (type(e).__name__, str(e)[:200]))
    out["stats"] = dict(z3_queries=pv.STATS["z3_queries"] - st0["z3_queries"], z3_time=pv.STATS["z3_time"] - st0["z3_time"],
                        backend={k: v - st0["backend"].get(k, 0) for k, v in pv.STATS["backend"].items()})
    out["prims"] = sorted(tr.PRIMS_USED)
    out["assumes"] = c.assumes; out["bounded"] = c.bounded; out["known"] = list(c.known); out["wall"] = time.time() - t0
    return out


def job_search(j):
    """the real code on generated inputs, before the prover is asked: a failing input names the obligation to decide first"""
    c = find(j["module"], j["name"]); c.known = {e: True for e in j.get("known", ())}
    vio, st = c.search(j["seed"], budget_s=j.get("search_s", 20), rounds=j.get("rounds"))
    if vio and vio.get("exception"): vio["repo_raised"] = repo_raised(vio["fails"][0][2])
    return dict(results=[], functions=[], error=None, violation=vio, search=st, assumes=c.assumes, bounded=c.bounded, known=list(c.known))


def job_custom(j):
    m = importlib.import_module("contracts." + j["module"])
    f = {c.name: c for c in m.CUSTOM}[j["name"]]
    return f.run(j["seed"], j["tier"])


def main():
    mem = 6 * 2 ** 30
    for line in sys.stdin:
        j = json.loads(line)
        if j.get("quit"): break
        try:
            r = {"prove": job_prove, "search": job_search, "custom": job_custom}[j["type"]](j)
        except Exception as e:
            r = dict(results=[], functions=[], error="worker: %s: %s" % (type(e).__name__, str(e)[:300]), tb=traceback.format_exc()[-3000:])
        OUT.write(json.dumps(r, default=str) + "\n"); OUT.flush()


main()
