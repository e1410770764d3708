"""Runs the obligations of one property: symbolic execution, path exploration, solver, replay."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = "/repo"
REPLAYS = VERIF / "evidence" / "replay"


class Ob:
    def __init__(self, prop, name, fn, tier, kw):
        self.prop, self.name, self.fn, self.tier = prop, name, fn, tier
        self.max_paths = kw.pop("max_paths", 12)
        self.timeout = kw.pop("timeout", 120)
        self.expect_raise = kw.pop("expect_raise", None)
        self.allow_pins = kw.pop("allow_pins", False)
        self.bounds = kw.pop("bounds", None)
        assert not kw, kw


REG: list[Ob] = []


def obligation(prop, name, tier="quick", **kw):
    def d(fn):
        assert all(o.name != name or o.prop != prop for o in REG), f"duplicate obligation {prop}/{name}"
        REG.append(Ob(prop, name, fn, tier, dict(kw)))
        return fn

    return d


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


# ---------------------------------------------------------------- functions encoded
FUNCS: set = set()


def trace_functions():
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "symq")
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + "/qadence/"):
            FUNCS.add(f"{fn[len(REPO) + 1:]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


# ---------------------------------------------------------------- one obligation
def run_symbolic(ob, values):
    from . import expr as X
    from .session import Session
    from .shadow import Run, Sym

    import torch

    X.reset()
    run = Run()
    run.env.values = {}
    s = Session(values, run)
    torch.manual_seed(0)
    with Sym(run, check=bool(os.environ.get("SYMQ_CHECK"))):
        ob.fn(s)
    return s, run


def run_concrete(ob, values):
    from .session import Session

    import torch

    torch.manual_seed(0)
    s = Session(values, None)
    ob.fn(s)
    return s


def concrete_verdict(ob, values):
    """Runs the harness on the real code: list of (label, detail); an exception is a failure."""
    from .session import Reject

    try:
        s = run_concrete(ob, values)
    except Reject:
        return []
    except (KeyboardInterrupt, Timeout):
        raise
    except Exception as e:  # the code under test raised
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if f.filename.startswith(REPO)), None)
        # an unknown name or signature used by the harness is its own error; a result of the wrong
        # shape, length or key is the code's
        own = not isinstance(e, (ValueError, IndexError, KeyError, RuntimeError)) or isinstance(e, NotImplementedError)
        if where is None and own and any(f.filename.startswith(str(VERIF)) for f in tb[-1:]):
            return [("harness-error", f"HARNESS {type(e).__name__}: {e}")]
        return [("raised", f"raised {type(e).__name__}: {str(e)[:300]} at {where}")]
    return s.fails


def handle(ob):
    from . import decide as D
    from . import expr as X
    from .expr import Env, Unsupported
    from .session import Reject

    t0 = time.time()
    FUNCS.clear()
    sys.monitoring.restart_events()
    D.STATS = D.Stats()
    res = dict(
        name=ob.name, status="discharged", paths=0, pairs=0, violations=[], inconclusive=[], notes=[],
        ops=0, symops=0, facts=0, vars=0, unexplored=0, infeasible=0,
    )
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(ob.timeout)
    work = [({}, 0)]
    seen = set()
    last_values = {}
    try:
        while work and res["paths"] < ob.max_paths:
            values, start = work.pop(0)
            last_values = values
            try:
                s, run = run_symbolic(ob, values)
            except Reject:
                continue
            except Unsupported as e:
                res["inconclusive"].append(f"engine: {e} {_where(e)}")
                _witness(ob, values, res)
                continue
            except Timeout:
                raise
            except Exception as e:
                fails = concrete_verdict(ob, values)
                if fails:
                    _viol(ob, values, fails, res)
                else:
                    if os.environ.get("SYMQ_TB"): traceback.print_exc()
                    res["inconclusive"].append(f"engine: {type(e).__name__}: {str(e)[:300]} {_where(e)}")
                continue
            sig = tuple(r for _, r in run.path)
            if sig in seen:
                continue
            seen.add(sig)
            res["paths"] += 1
            res["ops"] += run.nops
            res["symops"] += run.nsym
            res["pairs"] += len(s.pairs)
            res["facts"] += len(s.facts)
            res["vars"] = max(res["vars"], len(s.names))
            if run.pins and not ob.allow_pins:
                res["inconclusive"].append("concretised: " + "; ".join(sorted(set(run.pins))))
                _witness(ob, s.used, res)
            # vacuity: the path condition must hold at the witness
            if not D.holds(run.path, Env(run.env.values)):
                res["inconclusive"].append("path condition does not hold at its own witness")
            bad = [f for f in s.facts if not f[1]]
            if bad:
                fails = replay(ob, s.used, [])
                if fails:
                    _viol(ob, s.used, fails, res, done=True)
                else:
                    res["inconclusive"].append(f"fact fails only symbolically: {bad[0][2]}")
            groups = {}
            for label, i, a, b, tol in s.pairs:
                groups.setdefault((label, tol), []).append((a, b))
            for (label, tol), pairs in groups.items():
                if any(v["label"] == label for v in res["violations"]):
                    continue
                r, pt = D.decide(pairs, run.path, tol)
                if r == "unsat":
                    continue
                if r == "sat":
                    vals = {s.names[k]: v for k, v in pt.items() if k in s.names}
                    fails = replay(ob, vals, [])
                    if fails:
                        _viol(ob, vals, fails, res, done=True)
                    else:
                        res["inconclusive"].append(f"{label}: solver model does not reproduce at {_short(vals)}")
                else:
                    res["inconclusive"].append(f"{label}: solver unknown")
                    _witness(ob, s.used, res)
            # other side of every branch
            for k in range(start, len(run.path)):
                b, r = run.path[k]
                if len(seen) + len(work) >= ob.max_paths:
                    res["unexplored"] += 1
                    continue
                ans, pt = D.flip(run.path[:k], b, not r)
                if ans == "sat":
                    vals = {s.names[i]: v for i, v in pt.items() if i in s.names}
                    work.append((vals, k + 1))
                elif ans == "unsat":
                    res["infeasible"] += 1
                else:
                    res["unexplored"] += 1
    except Timeout:
        res["inconclusive"].append(f"timeout after {ob.timeout} s")
    except MemoryError:
        res["inconclusive"].append("out of memory")
    finally:
        signal.alarm(0)
    if res["inconclusive"] and not res["violations"]:
        signal.alarm(60)
        try:
            _witness(ob, {}, res)
        except Timeout:
            pass
        finally:
            signal.alarm(0)
    if res["violations"]:
        res["status"] = "violated"
    elif res["inconclusive"]:
        res["status"] = "inconclusive"
    elif not (res["pairs"] or res["facts"]):
        res["status"] = "inconclusive"
        res["inconclusive"].append("no obligation was reached")
    st = D.STATS
    res.update(queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown, solver_s=st.time)
    res["functions"] = sorted(FUNCS)
    res["wall"] = time.time() - t0
    return res


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(REPO)]
    return f"(at {fr[-1].filename}:{fr[-1].lineno})" if fr else ""


def _short(v):
    return {k: round(x, 6) for k, x in list(v.items())[:8]}


def _witness(ob, values, res):
    """An undecided obligation is at least executed at its witness."""
    if res["violations"] or res.get("witnessed"):
        return
    res["witnessed"] = True
    fails = concrete_verdict(ob, values)
    if fails:
        _viol(ob, values, fails, res)


def _viol(ob, values, fails, res, done=False):
    if not done:
        fails = replay(ob, values, fails)
        if not fails:
            res["inconclusive"].append("failure did not reproduce in a fresh process")
            return
    if fails[0][0] == "harness-error":
        res["inconclusive"].append(fails[0][1])
        return
    for label, detail in fails:
        if all(v["label"] != label for v in res["violations"]):
            res["violations"].append(dict(label=label, detail=detail, values=values))


def replay(ob, values, _):
    """Replays values on the real code in a fresh process without the executor."""
    REPLAYS.mkdir(parents=True, exist_ok=True)
    f = REPLAYS / f"{ob.prop}.{ob.name}.{os.getpid()}.tmp.json".replace("/", "_").replace(" ", "")
    f.write_text(json.dumps(dict(property=ob.prop, obligation=ob.name, values=values)))
    try:
        p = subprocess.run(
            [sys.executable, str(VERIF / "checks" / "run.py"), ob.prop, "--replay", str(f), "--json"],
            capture_output=True, text=True, timeout=240, cwd="/",
        )
    finally:
        f.unlink(missing_ok=True)
    for line in p.stdout.splitlines():
        if line.startswith("REPLAY "):
            return [tuple(x) for x in json.loads(line[7:])]
    raise RuntimeError(f"replay failed: {p.stderr[-500:]}")


# ---------------------------------------------------------------- a property
def _worker(q_in, q_out):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    trace_functions()
    while True:
        i = q_in.get()
        if i is None:
            return
        try:
            r = handle(REG[i])
        except BaseException as e:
            r = dict(name=REG[i].name, status="inconclusive", violations=[], inconclusive=[f"runner: {type(e).__name__}: {e}\n{traceback.format_exc()[-800:]}"],
                     paths=0, pairs=0, facts=0, ops=0, symops=0, vars=0, unexplored=0, infeasible=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, functions=[], wall=0.0, notes=[])
        q_out.put((i, r))


def known():
    f = VERIF / "known_findings.json"
    return json.loads(f.read_text())["findings"] if f.exists() else []


def main(prop, tier, only=None, jobs=None, verbose=False):
    t0 = time.time()
    obs = [i for i, o in enumerate(REG) if o.prop == prop and (tier == "thorough" or o.tier == "quick")]
    if only:
        obs = [i for i in obs if only in REG[i].name]
    ctx = mp.get_context("fork")
    q_in, q_out = ctx.Queue(), ctx.Queue()
    for i in obs:
        q_in.put(i)
    n = min(jobs or 8, max(1, len(obs)))
    for _ in range(n):
        q_in.put(None)
    ps = [ctx.Process(target=_worker, args=(q_in, q_out), daemon=True) for _ in range(n)]
    for p in ps:
        p.start()
    results = {}
    while len(results) < len(obs):
        try:
            i, r = q_out.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps) and q_out.empty():
                break
            continue
        results[i] = r
        if verbose:
            print(f"[{r['status']:12s}] {r['name']} paths={r['paths']} pairs={r['pairs']} q={r['queries']} {r['wall']:.1f}s", r["inconclusive"][:2], [v["detail"] for v in r["violations"]][:3], r["unexplored"] or "", flush=True)
    for p in ps:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
    out = [results.get(i) or dict(name=REG[i].name, status="inconclusive", violations=[], inconclusive=["worker died"], paths=0, pairs=0, facts=0, ops=0, symops=0, vars=0, unexplored=0, infeasible=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, functions=[], wall=0.0) for i in obs]
    kn = [k for k in known() if k["property"] == prop]
    viol, knownhits = [], []
    for r in out:
        for v in r["violations"]:
            hit = next((k for k in kn if k["obligation"] == r["name"] and k["label"] == v["label"]), None)
            (knownhits if hit else viol).append((r, v, hit))
    for r, v, k in knownhits:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    code = 0
    disch = [r for r in out if r["status"] == "discharged"]
    if viol:
        REPLAYS.mkdir(parents=True, exist_ok=True)
        for r, v, _ in viol:
            f = REPLAYS / f"{prop}.{r['name']}.json".replace(" ", "")
            f.write_text(json.dumps(dict(property=prop, obligation=r["name"], label=v["label"], detail=v["detail"], values=v["values"],
                                         command=f"/opt/venv/bin/python /verif/checks/run.py {prop} --replay {f}"), indent=1))
            print(f"  {r['name']}: {v['detail']}")
        f = REPLAYS / f"{prop}.{viol[0][0]['name']}.json".replace(" ", "")
        print(f"VIOLATION property={prop} replay={f}")
        code = 1
    elif not disch and not knownhits:
        print(f"ERROR property={prop}: no obligation could be discharged")
        code = 2
    funcs = sorted({f for r in out for f in r["functions"]})
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
        coverage=dict(
            explanation="Each obligation executes the real qadence code symbolically (every ATen operation, on symbolic inputs), "
            "and z3 decides the negated property over all inputs within the bounds; sat answers are replayed on the real code.",
            evaluations=sum(r["paths"] for r in out),
            distinct_nontrivial=sum(r["paths"] for r in out if r["symops"] or r["facts"]),
            rule="one evaluation = one symbolic path of one obligation; non-trivial when symbolic operations were executed or path facts were checked",
            obligations=len(out), discharged=len(disch),
            inconclusive=[dict(name=r["name"], why=r["inconclusive"][:3]) for r in out if r["status"] == "inconclusive"],
            known_findings=[f"{r['name']}/{v['label']}" for r, v, _ in knownhits],
            paths=sum(r["paths"] for r in out), paths_infeasible=sum(r["infeasible"] for r in out), paths_unexplored=sum(r["unexplored"] for r in out),
            equalities=sum(r["pairs"] for r in out), path_facts=sum(r["facts"] for r in out),
            symbolic_inputs_max=max([r["vars"] for r in out] or [0]),
            aten_ops=sum(r["ops"] for r in out), aten_ops_symbolic=sum(r["symops"] for r in out),
            solver="z3 " + _z3v(), queries=sum(r["queries"] for r in out), unsat=sum(r["unsat"] for r in out), sat=sum(r["sat"] for r in out),
            unknown=sum(r["unknown"] for r in out), solver_s=round(sum(r["solver_s"] for r in out), 3),
            functions_encoded=len(funcs), functions=funcs,
            bounds="angles in [-2pi,2pi], amplitudes (re, im) in [-1,1], other reals in [-7,7] unless the obligation says otherwise; circuits, supports and batch sizes as enumerated in the harness; per-obligation path limit 12",
            samples=[dict(obligation=r["name"], equalities=r["pairs"], paths=r["paths"], queries=r["queries"], status=r["status"], wall_s=round(r["wall"], 2)) for r in out[:: max(1, len(out) // 40)]],
        ),
        assumptions=[
            "floating point is read as real arithmetic; coefficients that differ by less than 1e-9 are identified",
            "ATen kernels compute what their names say (each is cross-checked against the concrete witness when SYMQ_CHECK is set)",
        ],
        wall_s=round(wall, 2), violations=len(viol),
    )
    if not only:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    inc = sum(1 for r in out if r["status"] == "inconclusive")
    print(f"{prop} [{tier}]: {len(disch)}/{len(out)} obligations discharged, {inc} inconclusive, {len(viol)} violations, "
          f"{ev['coverage']['queries']} queries, {ev['coverage']['solver_s']:.1f}s solver, {wall:.0f}s wall")
    return code


def _z3v():
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

    return z3.get_version_string()
