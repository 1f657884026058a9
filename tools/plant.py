#!/usr/bin/env python3
"""Author and verify planted bugs.

usage: plant.py SPEC.py [ID...]
SPEC.py defines BUGS = [dict(id=, prop=, edits=[(file, old, new), ...], demo=rust source,
features="", needs=, breaks=), ...].  For each: writes /verif/seeded/<id>/, checks in a scratch
worktree that the patch applies, builds, keeps the stable tests passing, and that the demo passes
without it and fails with it.  A bug that fails any of that is removed again.
"""
import importlib.util, json, os, re, shutil, subprocess, sys

WT = "/tmp/scratch/wt"
BASE = "4e42a49"
SEEDED = "/verif/seeded"

DEMO_SH = r'''#!/usr/bin/env bash
# Builds the small program beside this file against the repository in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'cd /; rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
schemars = { path = "$repo/schemars"@FEATURES@ }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
@DEPS@
[profile.dev]
debug = false
EOF
cd "$d"
CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" CARGO_INCREMENTAL=0 timeout 280 cargo run --offline -q
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def wt_reset():
    if not os.path.isdir(WT):
        sh(f"cp -a /repo {WT}")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if sh(f"git -C {WT} rev-parse HEAD").stdout.strip() != head:
        shutil.rmtree(WT)
        sh(f"cp -a /repo {WT}")
    sh(f"git -C {WT} checkout -- .")


def original_ok(patch):
    """Every file's removed lines exist in the base revision; at least one line is removed or the
    hunk's context is original."""
    f = None
    bad = []
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            base = sh(f"git -C /repo show {BASE}:{f}").stdout.splitlines()
        elif line.startswith("-") and not line.startswith("---"):
            if line[1:].strip() and line[1:] not in base:
                bad.append(line)
    return bad


def demo(bid, cwd):
    env = dict(os.environ, DEMO_TARGET="/tmp/scratch/demot")
    return sh(f"bash {SEEDED}/{bid}/demo.sh", cwd=cwd, env=env)


def tests():
    sh("cp /opt/vp/test.sh /dev/null")
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", cwd=WT, env=env)
    out = r.stdout + r.stderr
    failed = sorted(set(re.findall(r"^test (.*) \.\.\. FAILED", out, re.M)))
    if "could not compile" in out:
        failed.append("COMPILE: " + "\n".join(re.findall(r"^error.*\n.*", out, re.M)[:5]))
    return failed, len(re.findall(r"^test .* \.\.\. ok", out, re.M))


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    for b in m.BUGS:
        bid = b["id"]
        if only and bid not in only:
            continue
        wt_reset()
        err = None
        for f, old, new in b["edits"]:
            p = f"{WT}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                err = f"{f}: old text occurs {s.count(old)} times"
                break
            open(p, "w").write(s.replace(old, new))
        if err:
            print(bid, "EDIT", err)
            continue
        patch = sh(f"git -C {WT} diff").stdout
        bad = original_ok(patch)
        if bad:
            print(bid, "NOT ORIGINAL LINES", bad)
            continue
        d = f"{SEEDED}/{bid}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(patch)
        feats = b.get("features", "")
        fs = f', features = [{feats}]' if feats else ""
        open(f"{d}/demo.sh", "w").write(DEMO_SH.replace("@FEATURES@", fs).replace("@DEPS@", b.get("deps", "")))
        open(f"{d}/main.rs", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        ok = True
        failed, n = tests()
        if failed:
            print(bid, "TESTS FAIL", failed[:6])
            ok = False
        r = demo(bid, WT)
        if r.returncode == 0:
            print(bid, "DEMO PASSES WITH PATCH", r.stdout[-300:])
            ok = False
        elif ok:
            print("   patched demo:", (r.stderr or r.stdout).strip()[-260:].replace("\n", " | "))
        sh(f"git -C {WT} checkout -- .")
        r = demo(bid, WT)
        if r.returncode != 0:
            print(bid, "DEMO FAILS CLEAN", (r.stderr + r.stdout)[-1500:])
            ok = False
        print(bid, "OK" if ok else "REJECTED", f"({n} tests ok)", flush=True)
        if not ok:
            shutil.rmtree(d)


main()
