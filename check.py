#!/opt/venv/bin/python
"""Runs the check of one property (see DESIGN.md).

    check.py --property C01 --tier quick|thorough
    check.py --replay FILE          re-runs one reported counterexample natively
"""
import argparse
import json
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv" and not os.environ.get("PSX_NOEXEC"):
    os.environ["PSX_NOEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
os.environ.setdefault("COLUMNS", "80")
# one thread per process
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(v, "1")

REPO = os.environ.get("COINFLIP_REPO", "/repo")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ one config
def block_lit(rt, model):
    """false exactly on this model's inputs"""
    ctx = rt.ctx
    lits = []
    for (k, name), v in model.items():
        if k == "b":
            l = ctx.bitlit.get(name)
            if l is not None:
                lits.append(l if v else l ^ 1)
    return ctx.land_all(lits) ^ 1 if lits else None


def run_config(cfg, native, seed, t_end):
    """-> dict with the outcome of one symbolic run (in a forked child)"""
    import importlib

    from psx import prove
    from psx.rt import RT
    from psx.term import Budget, Ctx, Unsupported
    from psx.values import CUR

    t0 = time.time()
    deadline = min(t_end, t0 + cfg.get("t", 60))
    ctx = Ctx(seed=seed, npat=cfg.get("npat", 256), deadline=deadline)
    rt = RT(ctx, fork=cfg.get("fork", False), max_paths=cfg.get("max_paths", 4000))
    rt.lru_on = cfg.get("lru", False)
    CUR[0] = rt
    out = {"cfg": cfg_name(cfg), "h": cfg["h"], "p": cfg["p"], "paths": 0, "goals": 0, "proved": 0, "unknown": 0,
           "spurious": 0, "native": 0, "mismatch": [], "violation": None, "status": "proved", "notes": [], "samples": []}
    mod, fn = cfg["h"].split(":")
    h = getattr(importlib.import_module(mod), fn)
    inp = prove.SymInputs(rt, ctx)
    pv = prove.Prover(rt, cfg.get("solve_ms", 20000))

    class Found(BaseException):
        pass

    def asg_of(model):
        asg = dict(model)
        for key, vs in inp.vars.items():
            if key[0] == "bits":
                for l in vs:
                    nm = ctx.bitname(l)
                    asg.setdefault(("b", nm), 0)
        return asg

    def try_native(model, why):
        j = prove.tojson(asg_of(model))
        res = native.run(cfg["h"], cfg["p"], j, timeout=max(10, cfg.get("nt", 60)))
        out["native"] += 1
        if res.get("error"):
            out["notes"].append(f"native run failed: {res['error']}")
        bad = prove.failing(res)
        if bad is not None:
            out["violation"] = {"harness": cfg["h"], "params": cfg["p"], "model": j, "failed": bad, "found_by": why,
                                "inputs": describe(inp, ctx, asg_of(model))}
            raise Found
        return j, res

    def discharge(g):
        label = g[1]
        out["goals"] += 1
        extra = []
        for attempt in range(3):
            saved = list(rt.path)
            m = pv.goal(g, extra)
            if m is None:
                if attempt == 0:
                    out["proved"] += 1
                else:
                    out["notes"].append(f"goal {label!r}: fails only on inputs where the real run agrees ({attempt} excluded)")
                return
            if m == "unknown":
                out["unknown"] += 1
                out["notes"].append(f"goal {label!r}: solver gave no answer")
                return
            try_native(m, f"solver model for goal {label!r}")
            out["spurious"] += 1
            if os.environ.get("PSX_DEBUG"):
                memo, asg = {}, asg_of(m)
                log("SPURIOUS", label, describe(inp, ctx, asg), [prove.evaluate(rt, x, asg, memo) for x in g[2:4]], [repr(getattr(x, "poly", x))[:1500] for x in g[2:4]])
            b = block_lit(rt, m)
            if b is None:
                break
            extra.append(b)
        out["unknown"] += 1
        out["notes"].append(f"goal {label!r}: counterexamples do not reproduce natively")

    def witness():
        """one model of the finished path, run natively and compared"""
        q, m = ctx.solve([x for x in rt.path if x != 1], 10000, "witness")
        if m is None:
            return
        j, res = try_native(m, "witness of a proved path")
        if res.get("error") or res.get("vacuous"):
            if res.get("vacuous"):
                out["notes"].append("witness excluded natively by an assumption")
            return
        asg, memo = asg_of(m), {}
        nat = {}
        for r in res["results"]:
            nat.setdefault(r["label"], []).append(r)
        seen = 0
        for kind, label, a, b, tol, guard in inp.goals:
            try:
                if not ctx.eval_lit(guard, asg, memo):
                    continue
                va = prove.evaluate(rt, a, asg, memo) if kind != "true" else None
            except Exception:
                continue
            r = nat.get(label)
            if not r:
                out["mismatch"].append(f"{label}: no native counterpart")
                continue
            r = r.pop(0)
            seen += 1
            if kind != "true":
                pa = prove.plain(va)
                if not prove.nclose(pa, r["actual"], 1e-6) and str(pa) != str(r["actual"]):
                    out["mismatch"].append(f"{label}: symbolic {str(pa)[:80]} native {str(r['actual'])[:80]}")
                    if os.environ.get("PSX_DEBUG"):
                        log("MISMATCH", label, describe(inp, ctx, asg), repr(getattr(a, "poly", a))[:600], repr(getattr(b, "poly", b))[:600])
        out["validated"] = out.get("validated", 0) + 1
        if len(out["samples"]) < 2:
            out["samples"].append({"inputs": describe(inp, ctx, asg), "goals": len(inp.goals),
                                   "checked": [{"label": r["label"], "value": r["actual"]} for r in res["results"][:4]]})

    def body():
        inp.begin()
        h(inp, **cfg["p"])
        for g in list(inp.goals):
            discharge(g)
        if out["validated_tries"] < cfg.get("wit", 6):
            out["validated_tries"] += 1
            witness()

    out["validated_tries"] = 0
    try:
        for path, kind, val in rt.explore(body):
            out["paths"] += 1
            if kind == "exc":
                if isinstance(val, MemoryError):
                    raise Unsupported("out of memory")
                if isinstance(val, prove.Assumed):
                    continue
                out["goals"] += 1
                ok = False
                for _ in range(3):
                    q, m = ctx.solve([x for x in path if x != 1], 20000, "goal")
                    if m is None:
                        if q is None or str(q) == "unknown":
                            out["unknown"] += 1
                        else:
                            ok = True
                        break
                    try_native(m, f"path ending in {type(val).__name__}: {str(val)[:200]}")
                    out["spurious"] += 1
                    b = block_lit(rt, m)
                    if b is None:
                        break
                    path = list(path) + [b]
                if ok:
                    out["proved"] += 1
                else:
                    out["unknown"] += 1
                    tb = traceback.extract_tb(val.__traceback__)
                    where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-6:]]
                    out["notes"].append(f"exception path does not reproduce natively: {type(val).__name__}: {str(val)[:160]} at {where}")
        if out["unknown"]:
            out["status"] = "partial"
        if out["paths"] == 0 or out["goals"] == 0:
            out["status"] = "vacuous"
    except Found:
        out["status"] = "violation"
    except Unsupported as e:
        out["status"] = "unsupported"
        out["notes"].append(str(e)[:300])
        if os.environ.get("PSX_DEBUG"):
            traceback.print_exc()
    except Budget as e:
        out["status"] = "budget"
        out["notes"].append(str(e)[:200])
    except MemoryError:
        out["status"] = "budget"
        out["notes"].append("memory limit")
    except RecursionError:
        out["status"] = "unsupported"
        out["notes"].append("recursion limit")
    out["encoded"] = dict(rt.encoded)
    out["stats"] = ctx.stats.asdict()
    out["nodes"] = ctx.size()
    out["wall"] = round(time.time() - t0, 2)
    return out


def describe(inp, ctx, asg):
    d = {}
    for key, vs in inp.vars.items():
        kind, name = key
        if kind == "bits":
            d[name] = "".join(str(int(asg.get(("b", ctx.bitname(l)), 0))) for l in vs)
        else:
            v = asg.get(("n", name))
            d[name] = str(v)
    return d


def cfg_name(cfg):
    return cfg["h"].split(":")[1] + "(" + ", ".join(f"{k}={v}" for k, v in cfg["p"].items()) + ")"


def child(cfg, native, seed, t_end, conn):
    import resource

    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        mem = cfg.get("mem", 5) << 30
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(20000)
    try:
        out = run_config(cfg, native, seed, t_end)
    except BaseException as e:  # noqa: B902
        out = {"cfg": cfg_name(cfg), "h": cfg["h"], "p": cfg["p"], "status": "error", "notes": [f"{type(e).__name__}: {e}"[:300], traceback.format_exc()[-1500:]]}
    try:
        conn.send_bytes(json.dumps(out, default=str).encode())
    except Exception:
        pass
    conn.close()
    os._exit(0)


# ------------------------------------------------------------------ the pool
def run_all(cfgs, seed, budget, jobs, stop_first=True):
    import multiprocessing as mp
    from multiprocessing.connection import wait

    from psx.prove import Native

    mpc = mp.get_context("fork")
    t0 = time.time()
    t_end = t0 + budget
    natives = [Native(REPO) for _ in range(jobs)]
    free = list(range(jobs))
    todo = list(cfgs)
    running = {}
    results = []
    stop = False
    while running or (todo and not stop):
        while todo and free and not stop and time.time() < t_end - 2:
            cfg = todo.pop(0)
            s = free.pop()
            natives[s].ensure()
            a, b = mpc.Pipe(False)
            p = mpc.Process(target=child, args=(cfg, natives[s], seed, t_end, b))
            p.start()
            b.close()
            running[a] = (p, s, cfg, time.time())
        if not running:
            break
        ready = wait(list(running), timeout=0.5)
        now = time.time()
        for a in list(running):
            p, s, cfg, ts = running[a]
            out = None
            if a in ready:
                try:
                    out = json.loads(a.recv_bytes().decode())
                except EOFError:
                    out = {"cfg": cfg_name(cfg), "h": cfg["h"], "p": cfg["p"], "status": "budget", "notes": ["worker ended (memory)"]}
                    natives[s].stop()
            elif now > min(t_end, ts + cfg.get("t", 60)) + 15:
                p.kill()
                natives[s].stop()
                out = {"cfg": cfg_name(cfg), "h": cfg["h"], "p": cfg["p"], "status": "budget", "notes": ["time limit"], "wall": now - ts}
            if out is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                a.close()
                del running[a]
                free.append(s)
                results.append(out)
                if out["status"] == "violation" and stop_first:
                    stop = True
                if os.environ.get("PSX_VERBOSE"):
                    log(out["status"], out["cfg"], out.get("wall"), out.get("goals"), out.get("notes", [])[:3], out.get("mismatch", [])[:3])
        if stop:
            for a in list(running):
                p, s, cfg, ts = running.pop(a)
                p.kill()
                natives[s].stop()
    for cfg in todo:
        results.append({"cfg": cfg_name(cfg), "h": cfg["h"], "p": cfg["p"], "status": "not run", "notes": ["time budget used up"]})
    for n in natives:
        n.stop()
    return results


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    d = {}
                    head, _, what = line[6:].partition(" -- ")
                    for part in head.split():
                        k, _, v = part.partition("=")
                        d[k] = v
                    d["what"] = what
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("PSX_JOBS", "8")))
    ap.add_argument("--only")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from checks.registry import CHECKS

    chk = CHECKS[a.property]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    cfgs = list(chk["quick"])
    if tier == "thorough":
        cfgs += [c for c in chk.get("thorough", []) if c not in cfgs]
    if a.only:
        cfgs = [c for c in cfgs if a.only in cfg_name(c)]
    budget = chk.get("budget", 400) if tier == "quick" else chk.get("budget_thorough", 3000)
    t0 = time.time()

    # load everything once, in the parent; workers are forked from here
    import importlib

    load_error = None
    from psx import loader, models  # noqa: F401
    from psx.rt import RT
    from psx.term import Ctx, Unsupported
    from psx.values import CUR

    CUR[0] = RT(Ctx(seed=seed))
    loader.install()
    try:
        for h in sorted({c["h"].split(":")[0] for c in cfgs}):
            importlib.import_module(h)
    except (Exception, Unsupported) as e:
        load_error = f"{type(e).__name__}: {e}"
        log("cannot load:", load_error)
        if os.environ.get("PSX_DEBUG"):
            traceback.print_exc()
    results = run_all(cfgs, seed, budget, a.jobs) if load_error is None else []
    wall = time.time() - t0

    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    viol = [r for r in results if r["status"] == "violation"]
    rc = 0
    lines = []
    for r in viol:
        v = r["violation"]
        path = os.path.join(evdir, "replays", f"{a.property}-{abs(hash_of(v)) % 10**8}.json")
        with open(path, "w") as f:
            json.dump(dict(v, property=a.property), f, indent=1)
        lines.append(f"VIOLATION property={a.property} replay={path}")
        log(f"  {r['cfg']}: {v['failed'].get('label')}: actual {str(v['failed'].get('actual'))[:200]} expected {str(v['failed'].get('expected'))[:200]}")
        log(f"  inputs: {json.dumps(v['inputs'])[:600]}  ({v['found_by']})")
        rc = 1
    for k in known_findings():
        if k.get("property") == a.property:
            print(f"KNOWN-FINDING: property={a.property} {k['what']}")
    evidence(a.property, tier, seed, chk, results, wall, load_error, evdir, len(viol))
    for ln in lines:
        print(ln)
    done = [r for r in results if r["status"] == "proved"]
    log(f"{a.property} {tier}: {len(done)}/{len(results)} configurations proved, {len(viol)} violations, {wall:.1f} s")
    for r in results:
        if r["status"] != "proved":
            log(f"  {r['status']}: {r['cfg']} {r.get('notes', [])[:3]}")
        for m in r.get("mismatch", [])[:3]:
            log(f"  encoding mismatch in {r['cfg']}: {m}")
    return rc


def hash_of(v):
    import zlib

    return zlib.crc32(json.dumps(v, sort_keys=True, default=str).encode())


def evidence(pid, tier, seed, chk, results, wall, load_error, evdir, nviol):
    tot = {}
    enc = {}
    for r in results:
        for k, v in (r.get("stats") or {}).items():
            if isinstance(v, (int, float)):
                tot[k] = round(tot.get(k, 0) + v, 3)
        for k, v in (r.get("encoded") or {}).items():
            enc[k] = enc.get(k, 0) + v
    samples = []
    for r in results:
        for s in r.get("samples", [])[:1]:
            if len(samples) < 4:
                samples.append(dict(s, configuration=r["cfg"]))
    mism = sum(len(r.get("mismatch", [])) for r in results)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "method": "bounded symbolic execution of the current source of coinflip; every goal decided by SAT/SMT for all input values within the bounds of its configuration",
            "states": sum(r.get("nodes", 0) for r in results),
            "transitions": sum(enc.values()),
            "counting": "states: distinct symbolic values (gates and arithmetic terms) of the encodings; transitions: calls of coinflip/reference functions executed symbolically; traces: solver models run on the real code and compared with the encoding",
            "traces_validated_against_impl": sum(r.get("validated", 0) for r in results),
            "encoding_mismatches": mism,
            "symbolic_paths": sum(r.get("paths", 0) for r in results),
            "goals": sum(r.get("goals", 0) for r in results),
            "goals_proved": sum(r.get("proved", 0) for r in results),
            "goals_undecided": sum(r.get("unknown", 0) for r in results),
            "counterexamples_not_reproduced": sum(r.get("spurious", 0) for r in results),
            "solver": tot,
            "functions_encoded": dict(sorted(enc.items())),
            "configurations": [
                {"name": r["cfg"], "status": r["status"], "paths": r.get("paths"), "goals": r.get("goals"), "proved": r.get("proved"),
                 "wall_s": r.get("wall"), "notes": r.get("notes", [])[:5]}
                for r in results
            ],
            "bounds": chk.get("bounds", ""),
            "outside": chk.get("outside", ""),
            "exhaustive": bool(results) and all(r["status"] == "proved" for r in results),
            "samples": samples,
        },
        "assumptions": BASE_ASSUMPTIONS + list(chk.get("assumptions", [])),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    if load_error:
        ev["coverage"]["load_error"] = load_error
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


BASE_ASSUMPTIONS = [
    "floating-point arithmetic on symbolic values is exact rational arithmetic; goals on real-valued outputs allow a relative difference of 1e-9; reported counterexamples are confirmed with the real floating-point code",
    "pandas, NumPy, SciPy and standard-library operations follow the models in psx/models.py and psx/vec.py (each solver model that is replayed compares them with the real libraries)",
]


def replay(path):
    from psx import prove

    with open(path) as f:
        v = json.load(f)
    n = prove.Native(REPO)
    res = n.run(v["harness"], v["params"], v["model"], timeout=300)
    n.stop()
    bad = prove.failing(res)
    print(json.dumps({"inputs": v.get("inputs"), "failing": bad, "error": res.get("error")}, indent=1))
    if bad is not None:
        print(f"VIOLATION property={v.get('property')} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
