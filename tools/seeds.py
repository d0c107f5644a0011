#!/usr/bin/env python3
"""Makes and confirms planted bugs: seeds.py DEFS.py [id…]. Works in a scratch copy of /repo; a seed is
kept under /verif/seeded only if it applies, builds, passes the tests, and its demonstration fails
with it and passes without it."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(here, "seeded")
DEMO = """#!/bin/bash
# run in the repository; builds a small program against it and runs that
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
poreader = { path = "$repo" }
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" CARGO_TERM_COLOR=never
cd "$d"
cargo build --offline -q >"$d/log" 2>&1 || { cat "$d/log"; exit 3; }
"$d/target/debug/demo"
"""
HELP = """#![allow(unused)]
use poreader::{error::Error, unit::Unit, CatalogueReader, Message, PoParser, State};
use std::io::Read;
fn read<R: Read>(r: R) -> (Vec<Unit>, Option<Error>) {
    let p = PoParser::new();
    let mut units = vec![];
    match p.parse(r) {
        Err(e) => return (units, Some(e)),
        Ok(it) => {
            for u in it {
                match u {
                    Ok(u) => units.push(u),
                    Err(e) => return (units, Some(e)),
                }
            }
        }
    }
    (units, None)
}
fn ids(u: &[Unit]) -> Vec<String> {
    u.iter().map(|u| u.message().get_id().to_string()).collect()
}
"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    base = "/tmp/seedrepo"
    if os.path.exists(base):
        shutil.rmtree(base)
    sh(["cp", "-a", "/repo", base], "/")
    for s in g["S"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        sh(["git", "checkout", "-q", "--", "."], base)
        ok = True
        for f, a, b in s["edits"]:
            p = os.path.join(base, f)
            t = open(p).read()
            head = t.split("// no-coverage:start\n#[cfg(test)]")[0]
            if head.count(a) != 1:
                print(s["id"], "edit matches", head.count(a), "times:", a[:60])
                ok = False
                break
            open(p, "w").write(head.replace(a, b) + t[len(head):])
        if not ok:
            continue
        diff = sh(["git", "diff"], base).stdout
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=base + "/target", CARGO_TERM_COLOR="never")
        t = sh(["cargo", "test", "--offline", "--workspace", "--no-fail-fast"], base, env=env)
        failed = [l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
        n = sum(int(l.split("ok. ")[1].split()[0]) for l in t.stdout.splitlines() if l.startswith("test result: ok."))
        if t.returncode != 0:
            print(s["id"], "tests fail:", failed[:6])
            continue
        d = tempfile.mkdtemp(prefix="seed")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(HELP + s["demo"].strip() + "\n")
        bad = sh(["bash", os.path.join(d, "demo.sh")], base)
        sh(["git", "checkout", "-q", "--", "."], base)
        good = sh(["bash", os.path.join(d, "demo.sh")], base)
        if good.returncode != 0 or bad.returncode in (0, 3):
            print(s["id"], "demo: unchanged", good.returncode, good.stdout[-800:], "patched", bad.returncode, bad.stdout[-800:])
            continue
        o = os.path.join(SEEDED, s["id"])
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(d, o)
        shutil.rmtree(d)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(o, "meta.json"), "w"), indent=1)
        print(s["id"], "kept;", n, "tests;", bad.stdout.strip().splitlines()[-3:][:1])
    shutil.rmtree(base)


main()
