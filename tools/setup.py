#!/usr/bin/env python3
"""Build every monitor once (both builds) to show that the framework builds offline."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", RUSTFLAGS="--cap-lints=warn")
e.setdefault("RUSTUP_TOOLCHAIN", "1.98.1")
for prof, d in (("release", "rel"), ("checked", "chk")):
    r = subprocess.run(["cargo", "build", "--offline", "--bins", "--profile", prof, "--target-dir", os.path.join(ROOT, "target", d)],
                       cwd=os.path.join(ROOT, "harness"), env=e)
    if r.returncode:
        sys.exit(r.returncode)
sys.path.insert(0, os.path.join(ROOT, "tools"))
import port
bad = port.build()
if bad:
    print(bad)
    sys.exit(1)
