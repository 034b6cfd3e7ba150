#!/usr/bin/env python3
"""builds the native harness once, to show that everything needed is present"""
import os, subprocess, sys
R = os.path.dirname(os.path.abspath(__file__))
e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.99.0-x86_64-unknown-linux-gnu")
for crate in ("dom", "pure", "sel", "css", "mt", "apps"):
    d = os.path.join(R, "harness", crate)
    if os.path.exists(os.path.join(d, "Cargo.toml")):
        ee = dict(e, CARGO_TARGET_DIR=os.path.join(R, "target", crate))
        r = subprocess.run(["cargo", "build", "--offline", "-q"] + (["--features", "control"] if crate == "css" else []), cwd=d, env=ee)
        if r.returncode:
            sys.exit(r.returncode)
print("ok")
