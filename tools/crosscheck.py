#!/usr/bin/env python3
"""Compares the harness's own encoder with the reference flac tool: streams it
generates must decode there to the audio it says it encoded.

  crosscheck.py [count] [seed]      (needs a built release worker and `flac`)
"""
import os, shutil, struct, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("WORKER", os.path.join(V, "harness/target/release/worker"))
count = sys.argv[1] if len(sys.argv) > 1 else "2000"
seed = sys.argv[2] if len(sys.argv) > 2 else "1"
d = tempfile.mkdtemp()
ok = bad = 0
try:
    subprocess.run([W, "dump", d, "--count", count, "--seed", seed], check=True)
    for f in sorted(os.listdir(d)):
        if not f.endswith(".flac"):
            continue
        b = os.path.join(d, f[:-5])
        bps = int(open(b + ".bps").read())
        r = subprocess.run(["flac", "-s", "-d", "-f", "--channel-map=none", "-o", b + ".wav", b + ".flac"], capture_output=True, text=True, errors="replace")
        want = open(b + ".raw", "rb").read()
        want = struct.unpack("<%di" % (len(want) // 4), want)
        got = None
        if os.path.exists(b + ".wav"):
            w = open(b + ".wav", "rb").read()
            at = w.index(b"data")
            n = struct.unpack("<I", w[at + 4:at + 8])[0]
            data = w[at + 8:at + 8 + n]
            k = (bps + 7) // 8
            sh = 8 * k - bps
            if k == 1:
                got = tuple(x - 128 for x in data[:n])
            else:
                got = tuple(int.from_bytes(data[i:i + k], "little", signed=True) >> sh for i in range(0, len(data), k))
            got = got[:len(want)] if len(got) - len(want) <= 1 else got
        if r.returncode == 0 and got == want:
            ok += 1
        else:
            bad += 1
            print("DIFFERS", f, r.stderr.strip()[-200:], open(b + ".txt").read()[:300])
finally:
    shutil.rmtree(d)
print("agree", ok, "differ", bad)
sys.exit(1 if bad else 0)
