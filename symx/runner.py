"""Runs one property's harness over all its configurations and writes the evidence file."""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import re
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = sys.executable
LISTED_TEXT = "; markets list each category from high to low, where `listed` is set: from low to high at creation (upwards), or added one by one (one) or in a group (group); `numbers`: ints are arbitrary whole numbers given as int; `names`: same gives all categories one name"
SLICE = 2.0            # seconds of exploration before a job is split


# ---------------------------------------------------------------- worker side
def _work(task):
    from . import engine as eng
    from .ctx import SymCtx, _clear_handlers, plain
    pid, ci, cfg, extra, opts = task
    t0 = time.time()
    mod = importlib.import_module("harness." + pid.lower())
    covers, samples, funcs, xq = set(), [], set(), []
    state = {"ctx": None}
    repo = os.environ.get("SYMX_REPO", "/repo") + "/"

    def prof(frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(repo):
                funcs.add(fn[len(repo):] + ":" + frame.f_code.co_qualname)

    def path(e):
        _clear_handlers()
        ctx = state["ctx"] = SymCtx(e)
        ctx.cfg = cfg
        if opts["trace"] and ex.stats["paths"] < 3:
            sys.setprofile(prof)
            try:
                mod.run(ctx, cfg)
            finally:
                sys.setprofile(None)
        else:
            mod.run(ctx, cfg)

    ex = eng.Explorer(path, extra, path_seconds=opts["path_seconds"])
    ex.xq, ex.xq_left = xq, opts["xcheck"]

    def on_path(e):
        covers.update(state["ctx"].covered)
        n = e.stats["paths"]
        if len(samples) < opts["samples"] and (n in (1, 3, 10, 30, 100, 300, 1000)):
            try:
                vals = e.nice_model(bounds=(20, 1000), timeout=1500)
                m = e.nice
                obs = [[k, plain(v, m.val)] for k, v in e.observed]
                samples.append({"cfg": cfg, "values": {k: str(v) for k, v in vals.items()}, "observed": obs})
            except (eng.Unsupported, eng._NoValue):
                pass

    kind, info = ex.explore(opts["slice"], on_path)
    if kind == "violation" and info.get("values") is not None:
        info["values"] = {k: str(v) for k, v in info["values"].items()}
    return dict(ci=ci, kind=kind, info=info, stats=ex.stats, covers=covers, samples=samples, funcs=funcs, xq=xq,
                seconds=time.time() - t0)


# ---------------------------------------------------------------- main side
def concrete(pid, runs, timeout):
    """Run harness instances on the real code in a fresh process (scratch cwd)."""
    with tempfile.TemporaryDirectory(prefix="symx-") as d:
        f = os.path.join(d, "runs.json")
        json.dump({"property": pid, "runs": runs}, open(f, "w"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        try:
            p = subprocess.run([PYTHON, "-W", "ignore", os.path.join(VERIF, "symx", "replay.py"), f], cwd=d, env=env, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        except subprocess.TimeoutExpired:
            return None, "timeout"
    out = []
    for line in p.stdout.splitlines():
        try:
            out.append(json.loads(line))
        except ValueError:
            pass
    return out, p.stderr[-2000:]


def reproduces(pid, cfg, values):
    """(labels that fail on the real code, how) or (None, why)."""
    why = ""
    for exact in (False, True):
        out, err = concrete(pid, [{"cfg": cfg, "values": values, "exact": exact, "seconds": 20}], 60)
        if not out:
            why = "replay process failed: %s" % err
            continue
        if out[0]["failed"]:
            return out[0], "exact fractions" if exact else "ints/floats"
        why = "status %s, nothing failed" % out[0]["status"]
    return None, why


def known_findings(pid):
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def cvc5_check(queries):
    """Re-decide obligation queries (all of them unsat according to z3) with a second solver."""
    import shutil
    exe = shutil.which("cvc5")
    agree = disagree = other = 0
    if not exe:
        return None
    for q in queries:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + q + "\n(check-sat)\n")
        try:
            p = subprocess.run([exe, "--tlimit=10000", f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=30)
            r = p.stdout.strip().splitlines()[:1]
            if r == ["unsat"]:
                agree += 1
            elif r == ["sat"]:
                disagree += 1
            else:
                other += 1
        except subprocess.TimeoutExpired:
            other += 1
        finally:
            os.unlink(f.name)
    return agree, disagree, other


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--only", help="regex on the configuration (debugging)")
    ap.add_argument("--every", type=int, default=1, help="only every n-th configuration (debugging)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid, tier = a.pid, a.tier
    t0 = time.time()
    limit = int(os.environ.get("SYMX_LIMIT", 0)) or (800 if tier == "quick" else 5400)
    mod = importlib.import_module("harness." + pid.lower())
    cfgs = list(mod.configs(tier))
    if hasattr(mod, "LISTED"):
        cfgs += mod.listed_variants(cfgs, *mod.LISTED)
    if a.only:
        cfgs = [c for c in cfgs if re.search(a.only, json.dumps(c))]
    cfgs = cfgs[::a.every]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tot, per_cfg = {}, [dict(paths=0, seconds=0.0, queries=0) for _ in cfgs]
    covers, funcs, samples, xq = set(), set(), [], []
    problems, violation, knowns = [], None, known_findings(pid)
    undecided = {}         # configuration -> why; a few of them are reported and leave the verdict on the others as it is
    most = len(cfgs) // (4 if tier == "quick" else 2)
    opts = dict(slice=SLICE, path_seconds=60, trace=True, samples=3, xcheck=1)
    opts2 = dict(opts, trace=False, samples=1, xcheck=0)

    pool = cf.ProcessPoolExecutor(a.jobs, mp_context=multiprocessing.get_context("fork"))
    pending = {}
    try:
        # quick: larger configurations first; thorough: smaller ones first, so that the time limit cuts off the largest
        for ci in sorted(range(len(cfgs)), key=lambda i: cfgs[i].get("weight", 0) * (-1 if tier == "quick" else 1)):
            pending[pool.submit(_work, (pid, ci, cfgs[ci], [], opts))] = ci
        while pending:
            left = limit - (time.time() - t0)
            if left <= 0:
                for ci in pending.values():
                    undecided.setdefault(ci, "not finished within %d s" % limit)
                break
            done, _ = cf.wait(list(pending), timeout=min(left, 30), return_when=cf.FIRST_COMPLETED)
            for fu in done:
                ci = pending.pop(fu)
                r = fu.result()
                for k, v in r["stats"].items():
                    tot[k] = tot.get(k, 0) + v
                per_cfg[ci]["paths"] += r["stats"]["paths"]
                per_cfg[ci]["queries"] += r["stats"]["queries"]
                per_cfg[ci]["seconds"] += r["seconds"]
                covers |= r["covers"]
                funcs |= r["funcs"]
                samples += r["samples"]
                xq += r["xq"]
                if r["kind"] == "split":
                    for lits in r["info"]:
                        pending[pool.submit(_work, (pid, ci, cfgs[ci], lits, opts2))] = ci
                elif r["kind"] == "unsupported":
                    undecided.setdefault(ci, str(r["info"]))
                elif r["kind"] == "violation":
                    v = r["info"]
                    v["cfg"] = cfgs[ci]
                    if v["values"] is None:
                        problems.append("config %s: %s, but no witness: %s" % (json.dumps(cfgs[ci]), v["label"], v.get("why")))
                        continue
                    rep, how = reproduces(pid, cfgs[ci], v["values"])
                    if rep is None:
                        problems.append("config %s: counterexample to '%s' does not reproduce on the real code (%s): %s"
                                        % (json.dumps(cfgs[ci]), v["label"], how, json.dumps(v["values"])))
                        continue
                    v["reproduced"], v["how"] = rep, how
                    violation = v
                if len(problems) > 12:
                    break
            if violation or len(problems) > 12 or len(undecided) > most and tier == "quick":
                break
    except cf.process.BrokenProcessPool as ex:
        problems.append("a worker process died: %s" % ex)
    finally:
        for p in list((pool._processes or {}).values()):
            p.kill()
        pool.shutdown(wait=False, cancel_futures=True)

    if len(undecided) > most:
        problems += ["config %s: not decided: %s" % (json.dumps(cfgs[ci]), why) for ci, why in undecided.items()]
    validated = mismatched = 0
    mismatches = []
    if not violation and samples:
        step = max(1, len(samples) // (60 if tier == "quick" else 400))
        chosen = samples[::step]
        from .ctx import same
        again = []
        for exact in (False, True):
            batch = chosen if not exact else again
            if not batch:
                break
            out, err = concrete(pid, [{"cfg": s["cfg"], "values": s["values"], "exact": exact} for s in batch], 300)
            bad = []
            if out is None or len(out) < len(batch):
                problems.append("validation run failed: %s" % err)
                break
            for s, o in zip(batch, out):
                ok = o["status"] == "ok" and not o["failed"] and same([list(x) for x in s["observed"]], o["observed"])
                if ok:
                    validated += 1
                else:
                    bad.append(s)
                    if exact:
                        mismatches.append({"values": s["values"], "cfg": s["cfg"], "symbolic": s["observed"], "real": o})
            again = bad
        mismatched = len(mismatches)
        if mismatched > max(1, len(chosen) // 5):
            problems.append("the encoding disagrees with the real code on %d of %d sampled paths, e.g. %s"
                            % (mismatched, len(chosen), json.dumps(mismatches[0])[:1500]))
    x = cvc5_check(xq[:20 if tier == "quick" else 200]) if not violation else None
    if x and x[1]:
        problems.append("z3 and cvc5 disagree on %d queries" % x[1])
    if not violation and not a.only and a.every == 1:
        missing = set(getattr(mod, "COVER", ())) - covers
        if missing and not problems:
            problems.append("vacuous: never reached: %s" % ", ".join(sorted(missing)))
        for ci, (c, pc) in enumerate(zip(cfgs, per_cfg)):
            if pc["paths"] == 0 and not problems and ci not in undecided:
                problems.append("vacuous: no feasible path in %s" % json.dumps(c))

    wall = time.time() - t0
    import z3
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=tot.get("paths", 0) + tot.get("forks", 0), transitions=tot.get("decisions", 0),
                  traces_validated_against_impl=validated,
                  samples=[dict(config=s["cfg"], inputs=s["values"], outputs=s["observed"]) for s in samples[:3]],
                  exhaustive=not problems and not violation and not undecided,
                  not_decided=[dict(cfg=cfgs[ci], why=why) for ci, why in sorted(undecided.items())],
                  bounds=getattr(mod, "BOUNDS", "") + (LISTED_TEXT if hasattr(mod, "LISTED") else ""),
                  configurations=[dict(cfg={k: v for k, v in c.items() if k != "weight"}, paths=p["paths"], queries=p["queries"], cpu_s=round(p["seconds"], 2))
                                  for c, p in zip(cfgs, per_cfg)],
                  paths_explored=tot.get("paths", 0), infeasible_prefixes=tot.get("infeasible", 0),
                  solver_queries=tot.get("queries", 0), solver_sat=tot.get("sat", 0), solver_unsat=tot.get("unsat", 0),
                  solver_seconds=round(tot.get("solver_s", 0.0), 2),
                  obligations=tot.get("obligations", 0), discharged=0 if violation else tot.get("obligations", 0),
                  obligations_settled_without_solver=tot.get("trivial", 0),
                  cross_checked_with_cvc5=None if x is None else dict(agree=x[0], disagree=x[1], undecided=x[2]),
                  encoding_mismatches=mismatched, mismatch_examples=mismatches[:2],
                  reached=sorted(covers), functions_encoded=sorted(funcs), problems=problems[:12],
                  solver="z3 " + z3.get_version_string()),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
              wall_s=round(wall, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d configurations, %d paths, %d forks, %d queries (%.1f s solver), %d obligations, %d traces validated, %.1f s"
          % (pid, tier, len(cfgs), tot.get("paths", 0), tot.get("forks", 0), tot.get("queries", 0), tot.get("solver_s", 0.0),
             tot.get("obligations", 0), validated, wall))
    if a.v:
        for c, p in sorted(zip(cfgs, per_cfg), key=lambda t: -t[1]["seconds"])[:12]:
            print("   %7.1fs %7d paths  %s" % (p["seconds"], p["paths"], json.dumps(c)))
        print("   reached:", sorted(covers), "mismatched:", mismatched, "cvc5:", x)
    for _, what in knowns:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", pid + ".json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "what": violation["label"], "on_real_code": violation["reproduced"],
                       "runs": [{"cfg": violation["cfg"], "values": violation["values"], "exact": violation["how"] != "ints/floats"}],
                       "verbose": True, "rerun": "%s %s/symx/replay.py %s" % (PYTHON, VERIF, rp)}, f, indent=1)
        print("  config: %s" % json.dumps(violation["cfg"]))
        print("  inputs: %s" % json.dumps(violation["values"]))
        print("  solver: %s" % violation["label"])
        print("  real code: %s" % "; ".join(violation["reproduced"]["failed"][:3]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    for ci, why in sorted(undecided.items())[:12]:
        print("UNDECIDED: config %s: %s" % (json.dumps(cfgs[ci]), why))
    if problems:
        for p in problems[:12]:
            print("ERROR: " + p)
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "Python floats are treated as exact real numbers: rounding is outside the claim (counterexamples are replayed on the real float code before they are reported).",
    "The code is executed symbolically from /repo's current source; only division, float literals, float()/int(), %-formatting, math.* and the LP solver call are replaced by exact/symbolic equivalents, and logging output is off.",
    "The claim is for the configurations (category sizes, recipes, trees) listed under coverage.configurations and for all values within the stated range; nothing is claimed outside.",
]
