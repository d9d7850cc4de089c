"""Makes a planted bug: python3 tools/plant.py FILE.py [ID ...]. FILE.py defines BUGS, a list of dicts
  id, property, needs, breaks, edits: [(file, old, new)], demo: Rust source of main.rs, hooks: whether the demo
  builds with the observation points.
In a scratch copy of /repo the change has to apply, build and pass the stable tests, and the demonstration has to
succeed without it and fail with it; then it is kept in seeded/<id>/."""
import json, os, re, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant-repo"
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = """#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: exit 0 if it behaves.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
rm -rf /tmp/demo-%(id)s
mkdir -p /tmp/demo-%(id)s/src || exit 3
cp "$here/main.rs" /tmp/demo-%(id)s/src/main.rs
cp "$repo/Cargo.lock" /tmp/demo-%(id)s/Cargo.lock
cat > /tmp/demo-%(id)s/Cargo.toml <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
pokers = { path = "$repo" }
%(deps)s[workspace]
[profile.release]
overflow-checks = true
END
cd /tmp/demo-%(id)s || exit 3
export CARGO_TARGET_DIR=/tmp/demo-%(id)s/target%(flags)s
cargo build --release --offline -q || { rm -rf /tmp/demo-%(id)s; exit 3; }
timeout 200 ./target/release/demo
rc=$?
rm -rf /tmp/demo-%(id)s
exit $rc
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", PATH="/root/.cargo/bin:" + os.environ["PATH"], **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def stable(cwd):
    r = sh("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 --skip equity_calculator::simulator::tests::",
           cwd, {"CARGO_TARGET_DIR": SCR + "/target"})
    ok = set(re.findall(r"^test (\S+)(?: - .*?)?(?: \(line \d+\))?(?: - compile)? \.\.\. ok", r.stdout, re.M))
    m = re.findall(r"(\d+) passed; (\d+) failed", r.stdout)
    return r.returncode == 0, m, r.stdout


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    shutil.rmtree(SCR, ignore_errors=True)
    shutil.copytree("/repo", SCR, symlinks=True)
    sh("git checkout -q -- . && git clean -fdq", SCR)
    for b in bugs:
        if only and b["id"] not in only:
            continue
        sh("git checkout -q -- .", SCR)
        good = True
        for f, old, new in b["edits"]:
            p = os.path.join(SCR, f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                print(b["id"], "EDIT does not apply once:", t.count(old), old[:60])
                good = False
                break
            open(p, "w", newline="").write(t.replace(old, new))
        if not good:
            continue
        diff = subprocess.run("git diff", shell=True, cwd=SCR, stdout=subprocess.PIPE).stdout
        d = os.path.join(ROOT, ".work", "plant-" + b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/main.rs", "w").write(b["demo"])
        flags = '\nexport RUSTFLAGS="--cfg pokers_verif"' if b.get("hooks") else ""
        open(d + "/demo.sh", "w").write(DEMO % {"id": b["id"], "flags": flags, "deps": b.get("deps", "")})
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok, m, out = stable(SCR)
        if not ok:
            print(b["id"], "TESTS fail with the change", m, out[-1500:])
            continue
        bad = sh("bash " + d + "/demo.sh", SCR)
        sh("git checkout -q -- .", SCR)
        fine = sh("bash " + d + "/demo.sh", SCR)
        if fine.returncode != 0 or bad.returncode in (0, 3):
            print(b["id"], "DEMO", "unchanged:", fine.returncode, fine.stdout[-800:], "changed:", bad.returncode, bad.stdout[-800:])
            continue
        dest = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.move(d, dest)
        print(b["id"], "kept;", m, bad.stdout.strip().splitlines()[-1:] )
    shutil.rmtree(SCR, ignore_errors=True)


main()
