#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current tree by bounded symbolic execution.

exit 0: the property holds on every path within the bounds (known findings are listed); exit 1: VIOLATION, with a replay
file that reproduces it on the plain code; exit 2: no verdict (the reason is printed).
"""
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
ENV = {"MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1",
       "OMP_NUM_THREADS": "1", "SX_CHILD": "1"}


def reexec():
    if os.environ.get("SX_CHILD") == "1":
        return
    env = dict(os.environ, **ENV)
    scratch = os.path.join("/tmp", "sx-mpl-%d" % os.getuid())
    os.makedirs(scratch, exist_ok=True)
    env["MPLCONFIGDIR"] = scratch
    os.execve(VENV, [VENV, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)


def load_property(pid):
    from sx import harness as h
    del h.REGISTRY[:]
    mod = importlib.import_module("props.%s" % pid.lower())
    return mod, [x for x in h.REGISTRY if x.fn.__module__ == mod.__name__]


# ------------------------------------------------------------------ symbolic worker (one forked process per instance)
def work(h, params, ntm, budget, narrow, seed, max_violations, repo):
    from sx import engine as e, env, ctx as c, history
    before = history.Snapshot()
    funcs, lines = set(), set()
    mon = sys.monitoring
    root = os.path.join(repo, "netomaton") + os.sep

    def on_start(code, off):
        if code.co_filename.startswith(root):
            funcs.add("%s:%s" % (code.co_filename[len(root):], code.co_qualname))
        return mon.DISABLE

    def on_line(code, line):
        if code.co_filename.startswith(root):
            lines.add((code.co_filename[len(root):], line))
        return mon.DISABLE
    mon.use_tool_id(3, "sx")
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.PY_START | mon.events.LINE)

    eng = e.Engine(max_paths=h.max_paths, path_seconds=h.path_seconds, deadline=time.time() + budget)
    samples = []
    state = {"reason": None, "every": 1}

    def run():
        cx = c.SymCtx(eng, ntm, params, narrow=narrow)
        cx.uninterpreted_math = h.math and narrow is None
        env.CTX = cx
        try:
            h.fn(cx, **params)
        except e.Control:
            raise
        except c.CheckFailed:
            raise
        except AssertionError as ex:
            crash(cx, ex)
        except Exception as ex:
            crash(cx, ex)
        finally:
            env.CTX = None
        # keep a few passing paths for validation on the plain code: spread over the exploration
        if len(samples) < 4 or (eng.paths % state["every"] == 0 and len(samples) < 24):
            samples.append((cx.assignment(eng.path_model()), list(cx.trace)))
            if len(samples) >= 4:
                state["every"] *= 2

    def crash(cx, ex):
        import traceback
        where = ""
        for f in traceback.extract_tb(ex.__traceback__)[::-1]:
            if f.filename.startswith(root):
                where = "%s:%d" % (f.filename[len(root):], f.lineno)
                break
        label = "exception:%s" % type(ex).__name__
        eng.reached[label] = eng.reached.get(label, 0) + 1
        eng.violations.append({"label": label, "assignment": cx.assignment(eng.path_model()),
                               "detail": "%s at %s" % (str(ex)[:300], where)})
        raise e.StopPath()

    orig_run = run

    def guarded():
        try:
            orig_run()
        except e.PathTimeout:
            # may be non-termination: the replay decides
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                m = eng.path_model()
                eng.violations.append({"label": "termination", "timeout": True,
                                       "assignment": state["cx"].assignment(m) if state.get("cx") else None})
            except e.Control:
                pass
            state["reason"] = "a path took more than %d s" % h.path_seconds
            raise Enough()
        finally:
            before.restore()
            if len(eng.violations) >= max_violations:
                raise Enough()

    class Enough(BaseException):
        pass

    init = c.SymCtx.__init__

    def init2(self, *a, **k):
        init(self, *a, **k)
        state["cx"] = self
    c.SymCtx.__init__ = init2
    t0 = time.time()
    done = False
    try:
        eng.explore(guarded)
        done = True
    except Enough:
        pass
    except e.Inconclusive as ex:
        state["reason"] = str(ex)[:500]
    except e.Control as ex:
        state["reason"] = "%s outside of a path" % type(ex).__name__
    except RecursionError:
        state["reason"] = "recursion limit of the engine"
    return {"complete": done, "reason": state["reason"], "paths": eng.paths, "infeasible": eng.infeasible,
            "decisions": eng.decisions, "queries": eng.queries, "solver_s": eng.solver_s, "asserts": eng.asserts,
            "asserts_solver": eng.asserts_solver, "reached": eng.reached, "violations": eng.violations,
            "samples": samples, "functions": sorted(funcs), "lines": sorted(lines), "wall_s": time.time() - t0}


class Job:
    pass


def spawn(h, params, ntm, budget, narrow, seed, max_violations, repo):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = work(h, params, ntm, budget, narrow, seed, max_violations, repo)
            except BaseException as ex:  # noqa
                import traceback
                res = {"complete": False, "reason": "engine error: " + "".join(
                    traceback.format_exception(type(ex), ex, ex.__traceback__))[-1500:]}
            with os.fdopen(w, "w") as f:
                json.dump(res, f)
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    j = Job()
    j.pid, j.fd, j.h, j.params, j.buf, j.narrow = pid, r, h, params, b"", narrow
    j.t0 = time.time()
    return j


# ------------------------------------------------------------------ replay on the plain code
class Replayer:
    """A separate process in which the plain package is loaded; every replay runs in a fork of it."""

    def __init__(self, pid, history=False):
        self.p = subprocess.Popen([VENV, "-W", "ignore", os.path.join(HERE, "replay.py"), "--serve", pid] + ["--history"] * history,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, cwd=HERE,
                                  env=dict(os.environ, **ENV))

    def run(self, harness, params, assignment, timeout=20):
        self.p.stdin.write(json.dumps({"harness": harness, "params": params, "assignment": assignment,
                                       "timeout": timeout}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"outcome": "error", "detail": "the replay process ended"}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()


def main():
    reexec()
    sys.setrecursionlimit(5000)
    pid, tier = sys.argv[1].upper(), (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("SX_ONLY")
    verbose = os.environ.get("SX_VERBOSE")
    t0 = time.time()
    total = 800 if tier == "quick" else 3300
    sys.path.insert(0, HERE)
    from sx import loader
    rep = Replayer(pid)
    try:
        ntm = loader.load_symbolic()
    except Exception as ex:
        print("NO-VERDICT property=%s the package does not import: %r" % (pid, ex))
        sys.exit(2)
    mod, harnesses = load_property(pid)
    from sx import history
    before = history.preludes(ntm, harnesses)
    if verbose:
        for b in before:
            if b[2] != "ok":
                print("  history", *b)
        print("  history took %.1f s" % (time.time() - t0))
    rep2 = []
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") != "fixed"]

    queue = []
    for h in harnesses:
        if only and h.name not in only.split(","):
            continue
        for p in h.instances(tier):
            queue.append((h, p, None))
    queue.sort(key=lambda q: -q[1].get("_weight", 0))
    ncpu = int(os.environ.get("SX_JOBS", "8"))
    running, results, violations, problems, findings, notes = [], [], [], [], {}, []
    validated, diverged, sample_out = 0, 0, []
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    stop = False

    def strip(p):
        return {k: x for k, x in p.items() if not k.startswith("_")}

    def handle(j, res):
        nonlocal validated, diverged, stop
        h, p = j.h, strip(j.params)
        res["harness"], res["params"], res["narrow"] = h.name, p, j.narrow
        reproduced = False
        bad = None
        for vi in res.get("violations", []):
            if vi.get("assignment") is None:
                bad = "a path timed out and could not be modelled"
                continue
            out = rep.run(h.name, p, vi["assignment"], 15)
            if out["outcome"] not in ("check", "exception", "timeout"):
                # once more, in a process which has made other calls before
                if not rep2:
                    rep2.append(Replayer(pid, True))
                out2 = rep2[0].run(h.name, p, vi["assignment"], 15)
                if out2["outcome"] in ("check", "exception", "timeout"):
                    out = dict(out2, history=True)
            if out["outcome"] in ("check", "exception", "timeout"):
                label = out["label"]
                reproduced = True
                match = [k for k in known if k["harness"] == h.name and k["label"] == label]
                if match:
                    findings.setdefault(match[0]["what"], out)
                    continue
                record(h, p, vi["assignment"], label, out)
            elif h.narrow is None or j.narrow is not None:
                bad = "counterexample for %r does not reproduce (%s): %s; replay: %s" % (
                    vi["label"], h.name, vi.get("detail", ""), out.get("outcome"))
            else:
                bad = "artefact %s %s" % (vi["label"], vi.get("detail", ""))
        if not stop:
            step = max(1, len(res.get("samples", [])) // 8)
            for a, tr in res.get("samples", [])[::step][:10]:
                out = rep.run(h.name, p, a, 20)
                if out["outcome"] == "ok" and out["trace"] == tr:
                    validated += 1
                elif out["outcome"] in ("check", "exception"):
                    match = [k for k in known if k["harness"] == h.name and k["label"] == out["label"]]
                    if match:
                        findings.setdefault(match[0]["what"], out)
                    else:
                        record(h, p, a, out["label"], out)
                        break
                else:
                    diverged += 1
                    notes.append("sample of %s diverged on the plain code: %s" % (h.name, out.get("outcome")))
                    if verbose:
                        print("  diverged", h.name, p, a, tr, out)
                if len(sample_out) < 12:
                    sample_out.append({"harness": h.name, "params": p, "inputs": a["inputs"], "checks": tr[:8]})
        if bad is None and not res["complete"] and not reproduced and not res.get("violations"):
            bad = res["reason"] or "incomplete"
        if bad is None and not res.get("reached"):
            bad = "vacuous: no assertion of %s was reached" % h.name
        res["bad"] = bad
        results.append(res)
        if verbose:
            print("  %-28s %-40s paths=%d q=%d %.1fs wall=%.1fs %s" % (h.name, json.dumps(p)[:40], res.get("paths", 0), res.get(
                "queries", 0), res.get("solver_s", 0), res.get("wall_s", 0), bad or ""), flush=True)
        if violations:
            stop = tier == "quick"
            return
        if bad is not None:
            if j.narrow is not None and res.get("reached") and str(bad).startswith("time budget") and h.narrow is not None:
                # the narrowed exploration is a fallback for code the terms cannot follow: it covers what it gets to
                notes.append("%s %s: narrowed exploration ended by its time budget: %s" % (h.name, json.dumps(p), bad))
                print("NOTE property=%s %s" % (pid, notes[-1]))
            elif j.narrow is None and h.narrow is not None:
                # the code could not be executed on terms: bounded values, path by path
                notes.append("%s: executed on narrowed concrete ranges (%s)" % (h.name, bad[:200]))
                res["superseded"] = True
                queue.append((h, j.params, h.narrow))
            else:
                problems.append("%s %s: %s" % (h.name, json.dumps(p), bad))

    def record(h, p, assignment, label, out):
        nonlocal stop
        path = os.path.join(replays, "%s-%d.json" % (pid.lower(), len(violations)))
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": h.name, "params": p, "assignment": assignment, "label": label,
                       "history": bool(out.get("history")), "detail": out.get("detail", "")}, f, indent=1)
        violations.append((path, h.name, label, out.get("detail", "")))
        stop = tier == "quick"

    while (queue or running) and not stop:
        while queue and len(running) < ncpu:
            h, p, narrow = queue.pop(0)
            left = total - (time.time() - t0)
            if left < 5:
                problems.append("time budget used up before %s %s" % (h.name, p))
                continue
            if narrow is not None:
                left = min(left, max(60, min(0.2 * total, left / (1 + len(queue) / ncpu))))
            elif h.narrow is not None:
                left = max(5, left - 0.25 * total)
            running.append(spawn(h, strip(p), ntm, left, narrow, seed, 3 if not h.known else 1, loader.REPO))
            running[-1].params = p
        if not running:
            break
        ready, _, _ = select.select([j.fd for j in running], [], [], 1.0)
        for j in list(running):
            if j.fd in ready:
                d = os.read(j.fd, 1 << 20)
                if d:
                    j.buf += d
                    continue
                os.close(j.fd)
                os.waitpid(j.pid, 0)
                running.remove(j)
                try:
                    res = json.loads(j.buf)
                except ValueError:
                    res = {"complete": False, "reason": "the worker process ended without a result"}
                handle(j, res)
            elif time.time() - t0 > total + 30:
                os.kill(j.pid, signal.SIGKILL)
                os.waitpid(j.pid, 0)
                os.close(j.fd)
                running.remove(j)
                problems.append("%s did not finish in time" % j.h.name)
    for j in running:
        os.kill(j.pid, signal.SIGKILL)
        os.waitpid(j.pid, 0)
    for r in [rep] + rep2:
        r.close()

    wall = time.time() - t0
    good = [r for r in results if not r.get("superseded")]
    tot = lambda k: sum(r.get(k, 0) for r in good)
    reached = {}
    for r in good:
        for l, n in r.get("reached", {}).items():
            reached[l] = reached.get(l, 0) + n
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"), "traces_validated_against_impl": validated,
            "samples": sample_out,
            "traces_diverged": diverged,
            "solver_queries": tot("queries"), "solver_s": round(tot("solver_s"), 2),
            "assertions_decided": tot("asserts"), "assertions_needing_solver": tot("asserts_solver"),
            "assertion_labels_reached": reached,
            "functions_encoded": sorted({f for r in good for f in r.get("functions", [])}),
            "source_lines_encoded": len({tuple(l) for r in good for l in r.get("lines", [])}),
            "harnesses": [{"harness": r["harness"], "params": r["params"], "paths": r.get("paths", 0),
                           "queries": r.get("queries", 0), "solver_s": round(r.get("solver_s", 0), 2),
                           "wall_s": round(r.get("wall_s", 0), 1), "complete": bool(r.get("complete")),
                           "narrowed": r.get("narrow")} for r in good],
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside": getattr(mod, "OUTSIDE", ""),
            "states_meaning": "paths of the real code, each feasible by the solver and closed by it for all values",
            "transitions_meaning": "branch and concretisation decisions taken along them",
            "notes": notes + problems,
            "exhaustive": not problems and all(r.get("complete") for r in good),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "numpy/random/math/msgpack are the stand-ins of sx/env.py; real numbers are exact (no rounding)"],
        "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d harness runs, %d paths, %d decisions, %d queries, %.1f s solver, %d assertions, %d traces replayed, "
          "%.1f s" % (pid, tier, len(good), tot("paths"), tot("decisions"), tot("queries"), tot("solver_s"),
                      tot("asserts"), validated, wall))
    for what in sorted(findings):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if violations:
        for path, hn, label, detail in violations[:5]:
            print("  %s: %s: %s" % (hn, label, detail))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if problems:
        for p in problems:
            print("NO-VERDICT property=%s %s" % (pid, p))
        sys.exit(2)
    for k in known:
        if k["what"] not in findings and not only:
            print("note: the known finding %r was not seen on this tree" % k["what"])
    sys.exit(0)


if __name__ == "__main__":
    main()
