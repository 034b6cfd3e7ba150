#!/usr/bin/env python3
"""mkdemo.py ID MAIN.rs [--pure]: lay out seeded/ID/demo (a stand-alone crate against /repo, with its own copy of
the simulated page) and demo.sh.  The patch and meta.json are written by hand."""
import os, shutil, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, main = sys.argv[1:3]
pure = "--pure" in sys.argv
d = os.path.join(R, "seeded", pid)
shutil.rmtree(os.path.join(d, "demo"), ignore_errors=True)
os.makedirs(os.path.join(d, "demo", "src"))
shutil.copy(main, os.path.join(d, "demo/src/main.rs"))
if pure:
    cargo = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
x-bow = { path = "/repo/x-bow" }
async_ui_internal_utils = { path = "/repo/async_ui_internal_utils" }
futures-lite = "1.13.0"
futures-core = "0.3.28"
'''
    src = os.path.join(R, "harness/pure")
else:
    src = os.path.join(R, "harness/dom")
    cargo = open(os.path.join(src, "Cargo.toml")).read().replace("domcheck", "demo").replace("../../fakedom/", "fakedom/")
    cargo = cargo[:cargo.index("[profile.dev]")]
    shutil.copytree(os.path.join(R, "fakedom"), os.path.join(d, "demo/fakedom"), ignore=shutil.ignore_patterns("target"))
    open(os.path.join(d, "demo/src/util.rs"), "w").write(open(os.path.join(R, "tools/demo_util.rs")).read())
open(os.path.join(d, "demo/Cargo.toml"), "w").write(cargo)
lock = open(os.path.join(src, "Cargo.lock")).read().replace('"domcheck"', '"demo"').replace('"purecheck"', '"demo"')
open(os.path.join(d, "demo/Cargo.lock"), "w").write(lock)
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# exit 0: the property held in the demonstration; nonzero: it was broken
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/demo" "$tmp/demo"
cd "$tmp/demo" || exit 3
CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true cargo build --offline -q 2>"$tmp/err" || { cat "$tmp/err"; exit 3; }
timeout 60 "$tmp/target/debug/demo"
''')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
