#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample against the plain (unhooked) code of /repo.
exit 1: it reproduces.  exit 0: it does not.   (--serve PROPERTY: used by check.py)"""
import json
import os
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def setup(pid):
    import warnings
    warnings.simplefilter("ignore")
    import matplotlib
    matplotlib.use("Agg")
    import networkx  # noqa: these bind the original generators
    import matplotlib.pyplot  # noqa
    from sx import env, loader
    env.patch_rng()
    ntm = loader.load_plain()
    import importlib
    from sx import harness as h
    importlib.import_module("props.%s" % pid.lower())
    return ntm, {x.name: x for x in h.REGISTRY if x.fn.__module__ == "props.%s" % pid.lower()}


def run_one(ntm, harnesses, req):
    from sx import ctx as c, env
    cx = c.ConcreteCtx(ntm, req["params"], req["assignment"])
    env.CTX = cx
    h = harnesses[req["harness"]]
    try:
        h.fn(cx, **req["params"])
        return {"outcome": "ok", "trace": cx.trace, "missing": cx.missing}
    except c.CheckFailed as ex:
        return {"outcome": "check", "label": ex.label, "detail": ex.detail}
    except c.Skip:
        return {"outcome": "skip"}
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        root = os.environ.get("VERIF_REPO", "/repo")
        where = [f for f in tb if f.filename.startswith(root)]
        if cx.missing:
            pass
        at = "%s:%d" % (where[-1].filename, where[-1].lineno) if where else "harness %s:%d" % (
            os.path.basename(tb[-1].filename), tb[-1].lineno)
        return {"outcome": "exception", "label": "exception:%s" % type(ex).__name__,
                "detail": "%s: %s at %s" % (type(ex).__name__, str(ex)[:300], at)}
    finally:
        env.CTX = None


def past(ntm, hs):
    """the calls this process makes before (see sx/history.py)"""
    from sx import history
    devnull, keep = os.open(os.devnull, os.O_WRONLY), os.dup(1)
    os.dup2(devnull, 1)
    history.preludes(ntm, list(hs.values()))
    sys.stdout.flush()
    os.dup2(keep, 1)


def forked(ntm, harnesses, req):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            out = run_one(ntm, harnesses, req)
            with os.fdopen(w, "w") as f:
                json.dump(out, f, default=str)
        finally:
            os._exit(0)
    os.close(w)
    buf, end = b"", time.time() + req.get("timeout", 20)
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"outcome": "timeout", "label": "termination", "detail": "the call did not return"}
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return {"outcome": "error", "detail": "the replay ended without a result"}


def main():
    if sys.argv[1] == "--serve":
        ntm, hs = setup(sys.argv[2])
        out = os.fdopen(os.dup(1), "w")
        os.dup2(2, 1)
        if "--history" in sys.argv:
            past(ntm, hs)
        for line in sys.stdin:
            out.write(json.dumps(forked(ntm, hs, json.loads(line))) + "\n")
            out.flush()
        return
    import check
    if os.environ.get("SX_CHILD") != "1":
        env = dict(os.environ, **check.ENV)
        env["MPLCONFIGDIR"] = "/tmp/sx-mpl-%d" % os.getuid()
        os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
        os.execve(check.VENV, [check.VENV, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
    with open(sys.argv[1]) as f:
        req = json.load(f)
    ntm, hs = setup(req["property"])
    if req.get("history"):
        past(ntm, hs)
    res = forked(ntm, hs, req)
    print(json.dumps(res, indent=1))
    sys.exit(1 if res["outcome"] in ("check", "exception", "timeout") else 0)


if __name__ == "__main__":
    main()
