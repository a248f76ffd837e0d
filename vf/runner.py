"""Runs the contracts of one property and writes its evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from .limit import NoEnd, time_limit
from .lower import DrivenInput

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unit:
    """one module under contract with a list of configurations"""

    def __init__(self, name, build, configs, functions, thorough=(), budget=100, **opts):
        self.name, self.build, self.configs = name, build, list(configs)
        self.thorough = list(thorough)
        self.functions = functions       # names of the repository functions this contract covers
        self.budget = budget
        self.opts = opts


class PyUnit:
    """obligations over plain Python code: run(cfg, budget, seed) -> dict"""

    def __init__(self, name, run, configs, functions, thorough=(), budget=100):
        self.name, self.run, self.configs = name, run, list(configs)
        self.thorough = list(thorough)
        self.functions = functions
        self.budget = budget


def cfg_name(cfg):
    if isinstance(cfg, dict):
        return ",".join(f"{k}={v}" for k, v in cfg.items())
    return str(cfg)


def input_widths(ctx):
    """declared inputs by name (numbered where several have the same name)"""
    out = {}
    for s in ctx.inputs:
        n, k = s.name, 2
        while n in out:
            n, k = f"{s.name}#{k}", k + 1
        out[n] = len(s)
    return out


def too_narrow(prop, unit, cfg, ctx):
    """inputs which lost bits: no input value could tell, because the values are gone"""
    try:
        ref = json.load(open(os.path.join(ROOT, "widths.json")))[prop][f"{unit.name}|{cfg_name(cfg)}"]
    except (OSError, KeyError):
        return []
    return [f"input {n} has {w} of {ref[n]} bits" for n, w in input_widths(ctx).items() if w < ref.get(n, 0)]


def run_hdl(unit, cfg, seed, budget, verbose=False, slack=0, prop=None):
    from . import term as T
    from .contract import Ctx
    from .prove import Prover
    from .replay import pysim
    T.reset_table()
    t0 = time.time()
    log = (lambda *a: print(f"  [{unit.name} {cfg_name(cfg)}]", *a, flush=True)) if verbose else (lambda *a: None)
    ctx = Ctx()
    with time_limit(15 if FOUND.value else 60):
        unit.build(ctx, **cfg)
        p = ctx.lower()
    out = {"unit": unit.name, "config": cfg_name(cfg), "assumptions": list(ctx.assumptions),
           "registers": ctx.reg_counts[0], "in_cone": ctx.reg_counts[1], "undriven": ctx.undriven}
    log(f"lowered: {ctx.reg_counts} registers, {len(p.requires)} requires, {len(p.ensures)} ensures, {time.time()-t0:.1f}s")
    if not p.ensures:
        raise RuntimeError("no ensures clauses")
    narrow = too_narrow(prop, unit, cfg, ctx)
    if narrow:
        return dict(out, status="violated", violated="inputs_keep_their_width: " + ", ".join(narrow), ensures=["inputs_keep_their_width"])
    pr = Prover(p, seed=seed, budget=budget, slack=slack, log=log, **{k: v for k, v in unit.opts.items() if k in ("kmax", "tiers", "sim_cycles", "only_simulate")})
    res = pr.run()
    out["status"] = res.status
    out["stats"] = res.stats
    out["k"] = res.k
    out["note"] = res.note
    out["ensures"] = p.ens_names
    out["requires"] = p.require_names
    out["invariants"] = res.invariants
    # lowering cross-check against Amaranth's simulator
    n = 120
    tr = pr.sim.random_trace(seed + 99, n)
    rep = pr.sim.replay(tr, rows=True)
    states = []
    for t in range(len(tr)):
        env = {}
        for nme, w in p.reg_w.items():
            o = pr.sim.coloff[nme]
            v = 0
            for kk in range((w + 63) // 64):
                v |= int(rep["rows"][t][o + kk]) << (64 * kk)
            env[nme] = v
        states.append(env)
    x = pysim(ctx, tr, compare=states)
    out["crosscheck_cycles"] = x["cycles"]
    if x["mismatch"]:
        raise RuntimeError(f"extraction mismatch against pysim: {x['mismatch']}")
    if res.status == "violated":
        watch = [(s.name, s) for s in d_ports(ctx)]
        r = pysim(ctx, res.trace, watch=watch)
        out["replayed"] = r["ens"] is not None and r["req"] is None
        out["violated"] = r["ens"][1] if r["ens"] else res.ens
        out["at_cycle"] = r["ens"][0] if r["ens"] else None
        out["trace"] = res.trace
        out["watch"] = r["watch"][-60:]
        if not out["replayed"]:
            raise RuntimeError(f"counterexample did not replay: {r['req']} {r['ens']}")
    if res.status in ("proved", "bounded"):
        cov = res.stats.get("cover", {})
        for i in range(3):
            if all(cov.values()):
                break
            r = pr.sim.run(seed + 4711 + i, 2 * pr.sim_cycles, p.horizon * (1, 3, 10)[i], ncover=len(p.covers))
            for (nme, _), c in zip(p.covers, r["cover"]):
                cov[nme] += int(c)
        missed = [nme for nme, c in cov.items() if not c]
        if missed:
            # the clauses hold, but a situation they are about does not occur any more
            res.status = out["status"] = "unknown"
            pr.cti_ens = ["reachable:" + nme for nme in missed]
    if res.status == "unknown":
        out["cti"] = {"ensures": getattr(pr, "cti_ens", None),
                      "states": [s for s, _ in getattr(pr, "cti", [])],
                      "inputs": [i for _, i in getattr(pr, "cti", [])]}
    out["wall_s"] = round(time.time() - t0, 2)
    log(f"{res.status} k={res.k} inv={len(res.invariants)} {out['wall_s']}s cover={res.stats.get('cover')} dead={res.stats.get('dead_episodes')}/{res.stats.get('episodes')}")
    return out


def d_ports(ctx):
    seen, out = set(), []
    for s in list(ctx.inputs) + [s for _, s in ctx._aux] + [s for _, s in ctx._ens]:
        if id(s) not in seen:
            seen.add(id(s))
            out.append(s)
    return out


def work(args):
    prop, ui, ci, tier, seed, budget, verbose, end = args
    slack = 0
    if tier == "quick":
        # the whole check ends in time: what starts late, or after a violation has been found, gets less
        left = max(10, end - time.time())
        budget = min(budget, left, 25 if FOUND.value else 1e9)
        slack = 0 if FOUND.value else min(2 * budget, left - budget)
    try:
        mod = importlib.import_module(f"contracts.{prop.lower()}")
        unit = mod.UNITS[ui]
        cfgs = unit.configs + (unit.thorough if tier == "thorough" else [])
        cfg = cfgs[ci]
        if isinstance(unit, PyUnit):
            t0 = time.time()
            r = unit.run(cfg, budget, seed)
            r.update(unit=unit.name, config=cfg_name(cfg), wall_s=round(time.time() - t0, 2))
            if verbose:
                print(f"  [{unit.name} {cfg_name(cfg)}] {r['status']} {r.get('obligations')}/{r.get('discharged')} {r['wall_s']}s", flush=True)
            return r
        r = run_hdl(unit, cfg, seed, budget, verbose, slack, prop)
        if r["status"] == "violated":
            FOUND.value = 1
        return r
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        text = "".join(traceback.format_exception(e))[-4000:]
        last = traceback.extract_tb(e.__traceback__)[-1].filename if e.__traceback__ else ""
        out = {"unit": ui, "config": str(ci), "status": "error", "error": text}
        try:
            out.update(unit=unit.name, config=cfg_name(cfg))
        except NameError:
            pass
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        own = [i for i, f in enumerate(frames) if f.startswith(ROOT + "/")]
        code = [i for i, f in enumerate(frames) if f.startswith(REPO + "/amlib/")]
        if isinstance(e, (NoEnd, DrivenInput)) or code and (not own or code[-1] > own[-1]):
            # the code under contract itself fails for arguments the contract allows
            FOUND.value = 1
            out.update(status="violated", violated="builds_without_error: " + repr(e)[:200], ensures=["builds_without_error"])
        return out


QUICK_END = 600                        # seconds
LAST_END = 800
FOUND = mp.Value("i", 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-u", help="only this unit")
    ap.add_argument("-c", help="only configs containing this text")
    ap.add_argument("-1", dest="one", action="store_true", help="in process")
    ap.add_argument("-b", type=float, help="budget per task")
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    mod = importlib.import_module(f"contracts.{prop.lower()}")
    tasks = []
    for ui, u in enumerate(mod.UNITS):
        if a.u and u.name != a.u:
            continue
        cfgs = u.configs + (u.thorough if tier == "thorough" else [])
        for ci, c in enumerate(cfgs):
            if a.c and a.c not in cfg_name(c):
                continue
            b = a.b or u.budget * (4 if tier == "thorough" else 1)
            tasks.append((prop, ui, ci, tier, seed, b, a.v, t0 + QUICK_END))
    results = []
    if a.one:
        results = [work(t) for t in tasks]
    else:
        # longest budgets first
        order = sorted(tasks, key=lambda t: -t[5])
        with mp.get_context("fork").Pool(min(8, len(order)), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(work, order, chunksize=1)
            try:
                for _ in order:
                    # a worker that was killed (memory) never answers
                    results.append(it.next(t0 + LAST_END - time.time() if tier == "quick" else None))
            except mp.TimeoutError:
                results.append({"unit": "-", "config": "-", "status": "error", "error": f"{len(order) - len(results)} instances gave no answer"})
    known = load_known(prop)
    code = report(prop, mod, tier, seed, results, known, time.time() - t0, partial=bool(a.u or a.c))
    sys.stdout.flush()
    os._exit(code)


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == prop]


def finding_key(r):
    return f"{r['unit']}|{r['config']}|{r.get('violated')}"


def report(prop, mod, tier, seed, results, known, wall, partial=False):
    errors = [r for r in results if r["status"] == "error"]
    viol = [r for r in results if r["status"] == "violated"]
    unk = [r for r in results if r["status"] == "unknown"]
    ok = [r for r in results if r["status"] == "proved"]
    bounded = [r for r in results if r["status"] == "bounded"]
    kn = {k["key"] for k in known}
    new_viol = [r for r in viol if finding_key(r) not in kn]
    old_viol = [r for r in viol if finding_key(r) in kn]
    ob = sum(obligations(r) for r in ok + viol + unk + bounded)
    di = sum(obligations(r) for r in ok) + sum(r.get("discharged", 0) for r in bounded)
    rd = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    lines = []
    for r in old_viol:
        lines.append(f"KNOWN-FINDING: property={prop} {r['unit']} [{r['config']}] {r.get('violated')}")
    vcount = 0
    for kind, rs in (("v", new_viol), ("u", unk)):
        for i, r in enumerate(rs):
            path = os.path.join(rd, f"{prop}-{kind}{i}.json")
            json.dump(r, open(path, "w"), indent=1, default=str)
            vcount += 1
            tail = "" if kind == "v" else " no-failing-input-found"
            what = r.get("violated") if kind == "v" else (r.get("cti") or {}).get("ensures") or r.get("note")
            print(f"{'counterexample' if kind == 'v' else 'undischarged obligation'}: {r['unit']} [{r['config']}] clause {what}"
                  + (f" at cycle {r.get('at_cycle')}" if r.get("at_cycle") is not None else ""))
            if kind == "v" or not new_viol:                 # with a counterexample at hand, other instances were given up early
                lines.append(f"VIOLATION property={prop} replay={path}{tail}")
    for r in errors:
        print("ERROR", r["unit"], r["config"], r["error"], file=sys.stderr)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": ob, "discharged": di,
            "checker_cmd": f"python -m vf.runner {prop} (z3 {z3v()} QF_BV/QF_FD over the design elaborated from /repo on this run)",
            "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
            "functions_under_contract": sorted({f for u in mod.UNITS for f in u.functions}),
            "instances": [summary(r) for r in results],
            "bounded_instances": len(bounded),
            "solver_queries": sum(r.get("stats", {}).get("queries", 0) for r in results),
            "solver_s": round(sum(r.get("stats", {}).get("solver_s", 0) for r in results), 2),
            "extraction_crosscheck_cycles": sum(r.get("crosscheck_cycles", 0) for r in results),
            "simulated_cycles": sum(r.get("stats", {}).get("sim_cycles", 0) for r in results),
        },
        "assumptions": sorted({a for r in results for a in r.get("assumptions", [])} | set(getattr(mod, "ASSUMPTIONS", []))),
        "wall_s": round(wall, 2), "violations": vcount,
    }
    if not partial:
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop}: {len(ok)} instances proved, {len(bounded)} bounded, {len(old_viol)} known, {len(new_viol)} violated, "
          f"{len(unk)} undischarged, {len(errors)} errors; {di}/{ob} obligations; {wall:.1f}s")
    for l in lines:
        print(l)
    if new_viol or unk:
        return 1
    if errors or not results or ob == 0:
        print("ERROR: no verdict", file=sys.stderr)
        return 2
    return 0


TRUSTED = ["Amaranth 0.4.0 front end (Module/Fragment.prepare) produces the design that runs",
           "vf/lower.py: extraction of the elaborated design into bit-vector terms (cross-checked on every run against Amaranth's simulator)",
           "z3 (QF_FD/QF_BV)", "CPython",
           "domain resets are held deasserted; clock edges are abstract ticks (no metastability)"]


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def obligations(r):
    if "obligations" in r:
        return r["obligations"]
    inv = r.get("stats", {}).get("invariants", 0)
    return 2 * inv + 2 * len(r.get("ensures", []))


def summary(r):
    s = {k: r.get(k) for k in ("unit", "config", "status", "k", "registers", "in_cone", "wall_s")}
    st = r.get("stats", {})
    s["invariants"] = st.get("invariants", 0)
    s["ensures"] = r.get("ensures") or r.get("clauses")
    s["requires"] = r.get("requires")
    s["obligations"] = obligations(r) if r["status"] != "error" else 0
    s["queries"] = st.get("queries")
    s["solver_s"] = round(st.get("solver_s", 0), 2)
    s["cover"] = st.get("cover")
    if r.get("undriven"):
        s["undriven_read_as_reset_value"] = r["undriven"]
    return {k: v for k, v in s.items() if v is not None}


if __name__ == "__main__":
    main()
