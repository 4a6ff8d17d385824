#!/usr/bin/env python3
"""Run the quick check of its property against every planted change.

  sweep.py COPY [ids...]     COPY: a scratch copy or worktree of /repo

Prints one line per change: id, property, exit code, seconds, first finding.
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    copy, ids = sys.argv[1], sys.argv[2:]
    runner = os.environ.get("SWEEP_VERIF", VERIF)
    root = os.path.join(VERIF, "seeded")
    for i in sorted(ids or os.listdir(root)):
        d = os.path.join(root, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
        subprocess.run(["git", "-C", copy, "apply", d + "/patch.diff"], check=True)
        t = time.time()
        r = subprocess.run([sys.executable, "vrun.py", prop, "quick"], cwd=runner, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_REPO=copy))
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print(i, prop, r.returncode, int(time.time() - t), (v or r.stdout.splitlines()[-1:] or [""])[0][:150],
              flush=True)


main()
