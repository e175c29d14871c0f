#!/usr/bin/env python3
"""Decides one property of the code in /repo: builds the harness against the
current working tree, searches generated inputs, writes evidence.

  check.py <ID> [quick|thorough]     decide a property
  check.py --build                   build only
  check.py --replay FILE             run a replay file in the profile it names

Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: an error of
the check itself (build failure, a case that does not end, harness bug).
"""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "harness", "target")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
THREADS = os.cpu_count() or 8

sys.path.insert(0, os.path.join(VERIF, "tools"))
import literals
import plan

DICT = os.path.join(TARGET, "dictionary.txt")


def env(extra_flags=""):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUSTFLAGS"] = ("-Awarnings " + extra_flags).strip()
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src", "examples"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def freshen():
    """Cargo compares time stamps; this compares contents as well."""
    stamp = os.path.join(TARGET, "tree.sha256")
    now = tree_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != now and os.path.isdir(TARGET):
        for d, dirs, _ in os.walk(TARGET):
            if os.path.basename(d) == ".fingerprint":
                for x in list(dirs):
                    if x.startswith("claxon"):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                dirs[:] = []
    os.makedirs(TARGET, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)
    literals.write(os.path.join(REPO, "src"), DICT)


BUILDS = {
    "checked": (["cargo", "build", "--offline", "--profile", "checked"], "", "checked/worker"),
    "release": (["cargo", "build", "--offline", "--release"], "", "release/worker"),
    # As users build it for debugging.
    "plain": (["cargo", "build", "--offline"], "", "debug/worker"),
    "asan": (["cargo", "+nightly", "build", "--offline", "--release", "--target",
              "x86_64-unknown-linux-gnu"], "-Zsanitizer=address", "x86_64-unknown-linux-gnu/release/worker"),
    # Coverage-guided (thorough only); not with --cfg fuzzing, which makes claxon
    # ignore checksums.
    "fuzz": (["cargo", "+nightly", "build", "--offline", "--release", "--target", "x86_64-unknown-linux-gnu",
              "--manifest-path", "fuzz/Cargo.toml", "--target-dir", os.path.join(TARGET, "fuzzbuild")],
             "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 "
             "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table "
             "-Cllvm-args=-sanitizer-coverage-trace-compares -Zsanitizer=address -Cdebug-assertions=on "
             "-Coverflow-checks=on", "fuzzbuild/x86_64-unknown-linux-gnu/release/fuzz"),
}


def build(profiles):
    freshen()
    procs = []
    for p in profiles:
        cmd, flags, _ = BUILDS[p]
        procs.append((p, subprocess.Popen(cmd, cwd=os.path.join(VERIF, "harness"), env=env(flags),
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for p, pr in procs:
        out = pr.communicate()[0]
        if pr.returncode != 0:
            ok = False
            print("ERROR: build of profile %s failed:\n%s" % (p, out[-4000:]))
    return ok


def worker(profile):
    return os.path.join(TARGET, BUILDS[profile][2])


def run_env(profile):
    e = dict(os.environ)
    e["VERIF_DICT"] = DICT
    if profile == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0"
    return e


CRASH = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def crash_case(prop, profile, seed, tier, progress):
    """After the worker died on a signal: which case, if any, kills it alone?"""
    try:
        raw = open(progress, "rb").read()
    except OSError:
        return None
    idx = sorted({int.from_bytes(raw[i:i + 8], "little") - 1 for i in range(0, len(raw) - 7, 8)} - {-1})
    for i in idx:
        rec = os.path.join(REPLAYS, "%s-%s-%d-%d.choices" % (prop, profile, seed, i))
        try:
            r = subprocess.run([worker(profile), "one", prop, "--seed", str(seed), "--index", str(i),
                                "--tier", tier, "--record", rec], capture_output=True, text=True,
                               errors="replace", timeout=240, env=run_env(profile))
        except subprocess.TimeoutExpired:
            continue
        if r.returncode < 0 and -r.returncode in CRASH:
            if "memory allocation of" in r.stderr and prop[:3] not in ("C02", "C12"):
                continue
            choices = " ".join(open(rec).read().split())
            path = rec[:-8] + ".replay"
            note = [l for l in r.stderr.splitlines() if l.strip()]
            with open(path, "w") as f:
                f.write("property %s\nprofile %s\ntier %s\nseed %d index %d\nsignature crash-signal-%d\n"
                        "message %s\nchoices %s\n" % (prop, profile, tier, seed, i, -r.returncode,
                                                      " / ".join(note[:4])[:500], choices))
            os.remove(rec)
            return path, "crash-signal-%d" % -r.returncode, " / ".join(note[:4])[:300], i
        try:
            os.remove(rec)
        except OSError:
            pass
    return None


def seen_case(prop, profile, seed, tier, found):
    """The worker saw a failure, but did not survive repeating it."""
    try:
        index, sig, msg = (open(found).read().split("\n") + ["", "", ""])[:3]
    except OSError:
        return None
    if not sig:
        return None
    path = os.path.join(REPLAYS, "%s-%s-%d-%s.replay" % (prop, profile, seed, index))
    rec = path + ".choices"
    choices = ""
    try:
        subprocess.run([worker(profile), "one", prop, "--seed", str(seed), "--index", index, "--tier", tier, "--record", rec],
                       capture_output=True, timeout=120, env=run_env(profile))
    except subprocess.TimeoutExpired:
        pass
    if os.path.exists(rec):
        choices = " ".join(open(rec).read().split())
        os.remove(rec)
    with open(path, "w") as f:
        f.write("property %s\nprofile %s\ntier %s\nseed %d index %s\nsignature %s\nmessage %s\nchoices %s\n"
                % (prop, profile, tier, seed, index, sig, msg, choices))
    return path, sig, msg


def fuzz(part, secs, seed, cov):
    """Coverage-guided share: the fuzzer's bytes are the generators' choices.
    Returns None, ("error", text) or (replay, signature, message)."""
    top = tempfile.mkdtemp(prefix="claxon-verif-fuzz-")
    try:
        rnd = random.Random(seed)
        procs = []
        for k in range(THREADS):
            d = os.path.join(top, str(k))
            os.makedirs(os.path.join(d, "corpus"))
            for i in range(200):
                with open(os.path.join(d, "corpus", "s%d" % i), "wb") as f:
                    f.write(rnd.randbytes(rnd.choice([64, 512, 4096])))
            e = run_env("asan")
            e.update(VERIF_FUZZ_PROP=part, VERIF_FUZZ_OUT=os.path.join(d, "out"), VERIF_FUZZ_STAT=os.path.join(d, "stat"),
                     VERIF_FUZZ_KNOWN=KNOWN)
            log = open(os.path.join(d, "log"), "w")
            procs.append((d, e, subprocess.Popen(
                [worker("fuzz"), "corpus", "-max_total_time=%d" % secs, "-max_len=8192", "-len_control=0", "-timeout=300",
                 "-rss_limit_mb=3000", "-seed=%d" % (seed * 100 + k + 1), "-artifact_prefix=" + d + "/"],
                cwd=d, env=e, stdout=log, stderr=log)))
        end = time.time() + secs + 600
        left = list(procs)
        ended = None
        while left and ended is None and time.time() < end:
            time.sleep(0.5)
            for x in list(left):
                if x[2].poll() is not None:
                    left.remove(x)
                    if x[2].returncode != 0:
                        ended = x
        for x in left:
            x[2].kill()
            x[2].wait()
        n = nt = runs = 0
        for d, _, _ in procs:
            if os.path.exists(d + "/stat"):
                a = [int(v) for v in (open(d + "/stat").read().split() + ["0"] * 3)[:3]]
                n, nt, runs = n + a[0], nt + a[1], runs + a[2]
        cov["evaluations"] += n
        # Distinct within each process.
        cov["distinct_nontrivial"] += nt
        cov["executions_of_claxon"] += runs
        cov["profiles"]["fuzz:%s" % part] = {"cases": n, "wall_s": secs}
        if ended is None:
            return None
        d, e, pr = ended
        log = open(d + "/log", errors="replace").read()
        if os.path.exists(d + "/out"):
            sig, msg, choices = (open(d + "/out").read().split("\n") + ["", "", ""])[:3]
            if sig == "BUG":
                return "error", msg
        else:
            bad = [x for x in os.listdir(d) if x.startswith("crash-")]
            if not bad:
                return "error", "a fuzzing process ended with %d\n%s" % (pr.returncode, log[-2000:])
            # A crash (sanitizer, signal): the choices up to it.
            e["VERIF_FUZZ_RECORD"] = d + "/choices"
            r = subprocess.run([worker("fuzz"), os.path.join(d, bad[0])], cwd=d, env=e, capture_output=True, timeout=600)
            if r.returncode == 0:
                return "error", "a crash that does not repeat: %s" % log[-2000:]
            choices = " ".join(open(d + "/choices").read().split())
            m = re.search(r"SUMMARY: (.*)", log)
            sig, msg = "crash-fuzz", m.group(1) if m else "the process died"
        path = os.path.join(REPLAYS, "%s-fuzz-%d.replay" % (part, seed))
        with open(path, "w") as f:
            f.write("property %s\nprofile %s\ntier thorough\nseed %d\nsignature %s\nmessage %s\nchoices %s\n"
                    % (part, "asan" if sig == "crash-fuzz" else "checked", seed, sig, msg, choices))
        return path, sig, msg
    finally:
        shutil.rmtree(top, ignore_errors=True)


def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = plan.PLAN[prop]
    shares = p[tier]
    profiles = [x[0] for x in shares]
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not build(sorted(set(profiles) | set(p.get("also", [])))):
        return 2
    built = time.time() - t0
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "executions_of_claxon": 0,
           "labels": {}, "profiles": {}}
    violation = None
    known = []
    at = 0
    for share in shares:
        profile, count, secs = share[:3]
        part = share[3] if len(share) > 3 else prop
        if profile == "fuzz":
            res = fuzz(part, secs, seed, cov)
            if res and res[0] == "error":
                print("ERROR: %s" % res[1])
                return 2
            if res:
                violation = res
                break
            continue
        out = os.path.join(TARGET, "out-%s-%s.json" % (prop, profile))
        prog = os.path.join(TARGET, "progress-%s-%s" % (prop, profile))
        cmd = [worker(profile), "run", part, "--seed", str(seed), "--from", str(at if part == prop else 0), "--count", str(count),
               "--threads", str(THREADS), "--tier", tier, "--out", out, "--progress", prog,
               "--known", KNOWN, "--replay-dir", REPLAYS, "--profile", profile,
               "--case-secs", "150" if tier == "quick" else "600"]
        if secs:
            cmd += ["--max-secs", str(secs)]
        if part == prop:
            at += count
        seen = os.path.join(TARGET, "found-%s-%s" % (prop, profile))
        cmd += ["--found", seen]
        for x in (out, seen):
            if os.path.exists(x):
                os.remove(x)
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=run_env(profile))
        if r.returncode in (0, 1) and os.path.exists(out):
            j = json.load(open(out))
            os.remove(out)
            cov["evaluations"] += j["evaluations"]
            cov["distinct_nontrivial"] += j["distinct_nontrivial"]
            cov["executions_of_claxon"] += j["runs"]
            if part == prop:
                cov["rule"] = j["rule"] or cov["rule"]
            cov["samples"] += j["samples"][:4]
            for k, v in j["labels"].items():
                cov["labels"][k] = cov["labels"].get(k, 0) + v
            cov["profiles"][profile if part == prop else "%s:%s" % (profile, part)] = {"cases": j["evaluations"], "wall_s": j["wall_s"]}
            known += [(k["sig"], k["msg"]) for k in j["known"]]
            if j["fail"]:
                violation = (j["fail"]["replay"], j["fail"]["sig"], j["fail"]["msg"])
                break
        elif os.path.exists(seen) and r.returncode not in (0, 1):
            violation = seen_case(part, profile, seed, tier, seen)
            if violation is None:
                print("ERROR: worker ended with %d\n%s" % (r.returncode, r.stderr[-2000:]))
                return 2
            break
        elif r.returncode < 0 and -r.returncode in CRASH:
            c = crash_case(part, profile, seed, tier, prog)
            if c is None and "memory allocation of" not in r.stderr:
                # It takes more than one case: all up to the crash, as they were run.
                sig = "crash-signal-%d" % -r.returncode
                path = os.path.join(REPLAYS, "%s-%s-%d-run.replay" % (part, profile, seed))
                note = " / ".join(l for l in r.stderr.splitlines() if l.strip())[-300:]
                with open(path, "w") as f:
                    f.write("property %s\nprofile %s\ntier %s\nseed %d\nsignature %s\nmessage %s\nrun %s\n"
                            % (part, profile, tier, seed, sig, note, " ".join(cmd)))
                c = (path, sig, "no single case reproduces it: " + note)
            if c is None:
                print("ERROR: worker died on signal %d and no single case reproduces it\n%s" % (-r.returncode, r.stderr[-2000:]))
                return 2
            violation = c[:3]
            break
        else:
            print("ERROR: worker ended with %d\n%s\n%s" % (r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
            return 2
    for extra in p.get("extra_" + tier, []):
        if violation:
            break
        res = extra(sys.modules[__name__], prop, seed, cov)
        if res and res[0] == "error":
            print("ERROR: %s" % res[1])
            return 2
        if res:
            violation = res[1:]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": p.get("level", "exploration"),
          "coverage": cov, "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "build_s": round(built, 2), "violations": 1 if violation else 0}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for sig, msg in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, sig, msg))
    if violation:
        print("%s: %s" % (violation[1], violation[2]))
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" %
          (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, built))
    return 0


def main():
    a = sys.argv[1:]
    if a == ["--build"]:
        return 0 if build(["checked", "release"]) else 2
    if len(a) == 2 and a[0] == "--replay":
        m = re.search(r"^profile (\w+)", open(a[1]).read(), re.M)
        prof = m.group(1) if m else "checked"
        m = re.search(r"^property (\w+)", open(a[1]).read(), re.M)
        also = plan.PLAN.get(m.group(1), {}).get("also", []) if m else []
        if not build(sorted(set([prof] + also))):
            return 2
        m = re.search(r"^run (.+)", open(a[1]).read(), re.M)
        cmd = m.group(1).split(" ") if m else [worker(prof), "replay", a[1]]
        return subprocess.run(cmd, env=run_env(prof)).returncode
    if len(a) in (1, 2) and a[0] in plan.PLAN:
        tier = a[1] if len(a) == 2 else os.environ.get("VERIF_TIER", "quick")
        return decide(a[0], tier)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
