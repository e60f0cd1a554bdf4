#!/usr/bin/env python3
"""seed_check.py [ids...]: run each planted bug's check against a scratch copy of /repo with the bug applied.

A development tool (no registered check uses it): prints which planted bugs the quick checks catch.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid, verif):
    meta = json.load(open("%s/seeded/%s/meta.json" % (HERE, sid)))
    work = tempfile.mkdtemp(prefix="seedcheck-")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        patch = "%s/seeded/%s/patch.diff" % (HERE, sid)
        r = subprocess.run(["git", "-C", repo, "apply", patch], capture_output=True, text=True)
        if r.returncode:
            return sid, meta["property"], "NOAPPLY", 0, r.stderr
        t = time.time()
        r = subprocess.run(["python3", "check.py", meta["property"], "quick"], cwd=verif, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
        viol = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        verdict = "caught" if r.returncode == 1 and viol else "MISSED" if r.returncode == 0 else "rc=%d" % r.returncode
        return sid, meta["property"], verdict, time.time() - t, (r.stdout + r.stderr)[-1500:]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
    verif = tempfile.mkdtemp(prefix="seedverif-")
    path = os.path.join(HERE, "tools", "seed_results.json")
    results = json.load(open(path)) if os.path.exists(path) else {}
    try:
        for x in os.listdir(HERE):
            if x in (".git", "seeded", "evidence", "replays"):
                continue
            (shutil.copytree if os.path.isdir(os.path.join(HERE, x)) else shutil.copy)(os.path.join(HERE, x), os.path.join(verif, x))
        os.makedirs(verif + "/evidence"), os.makedirs(verif + "/replays")
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("SEED_JOBS", "2"))) as ex:
            for f in [ex.submit(one, s, verif) for s in ids]:
                sid, prop, verdict, secs, out = f.result()
                results[sid] = verdict
                print("%-32s %s %-8s %4.0f s" % (sid, prop, verdict, secs), flush=True)
                if verdict != "caught":
                    print("    " + "\n    ".join(out.strip().splitlines()[-8:]), flush=True)
    finally:
        shutil.rmtree(verif, ignore_errors=True)
    with open(path, "w") as f:
        json.dump({k: v for k, v in sorted(results.items()) if os.path.exists("%s/seeded/%s" % (HERE, k))}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
