#!/usr/bin/env python3
"""runseeds.py [-a] [-r REPO] [ID...]: applies each planted change to the
repository, runs the check of its property (-a: of every property), undoes the
change and prints which checks report it. A development tool; no check uses it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
R = "/repo"
if "-r" in args:
    # The harness beside must depend on that path.
    k = args.index("-r")
    R = args[k + 1]
    del args[k:k + 2]
    os.environ["VERIF_REPO"] = R
every = "-a" in args
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
props = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]] if every else None
for i in ids:
    d = V + "/seeded/" + i
    own = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], check=True)
    try:
        out = []
        for p in (props or [own]):
            t = time.time()
            r = subprocess.run([sys.executable, V + "/check.py", p, "quick"], capture_output=True, text=True, errors="replace")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode == 1 and v:
                out.append(p)
            elif r.returncode != 0:
                out.append("%s:exit%d" % (p, r.returncode))
            last = "%.0fs" % (time.time() - t)
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    print(i, "caught" if own in out else "MISSED", "own=" + own, " ".join(out), last, flush=True)
