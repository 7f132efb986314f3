#!/usr/bin/env python3
"""setup_cmd: makes sure the toolchains the checks need are there (the checks build everything else themselves)."""
import subprocess, sys
ok = True
for c in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"], ["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path", "harness/Cargo.toml"]):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        ok = False
        print("setup:", " ".join(c), "failed:", r.stdout[-2000:])
    elif "metadata" not in c:
        print("setup:", r.stdout.strip())
sys.exit(0 if ok else 1)
