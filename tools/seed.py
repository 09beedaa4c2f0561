#!/usr/bin/env python3
"""seed.py SPEC.py [id ...]: makes /verif/seeded/<id>/ from a list SEEDS of planted bugs, after checking
on /repo that the change builds, passes the stable tests, and that its demonstration distinguishes it.
Each seed: dict(id, property, needs, what, edits=[(file, old, new)], main=rust source of the demo)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, "harness")
DEMO = r'''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: broken. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cp -r "$here/ws/." "$w"; mkdir -p "$w/demo/src"; cp "$here/main.rs" "$w/demo/src/main.rs"
find "$w" -name '*.tmpl' | while read -r f; do sed "s#/repo/#$repo/#" "$f" > "${f%.tmpl}"; done
cd "$w" || exit 1
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
unset RUSTFLAGS
cargo build --offline -q -p demo 2> "$w/log" || { tail -40 "$w/log"; echo "demo does not build"; exit 99; }
timeout 120 "$w/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def ws(dst):
    os.makedirs(dst)
    for m in ("sds", "bindings"):
        os.makedirs(f"{dst}/{m}")
        shutil.copy(f"{H}/{m}/Cargo.toml", f"{dst}/{m}/Cargo.toml.tmpl")
    shutil.copytree(f"{H}/stubs", f"{dst}/stubs")
    for root, _, fs in os.walk(f"{dst}/stubs"):
        for f in fs:
            if f == "Cargo.toml":
                os.rename(f"{root}/{f}", f"{root}/{f}.tmpl")
    shutil.copy(f"{H}/Cargo.lock", f"{dst}/Cargo.lock")
    open(f"{dst}/Cargo.toml.tmpl", "w").write('[workspace]\nmembers = ["sds", "bindings", "demo", "stubs/farmhash", "stubs/regex-automata-fork"]\nresolver = "2"\n[profile.dev]\ndebug = false\nincremental = false\n')
    os.makedirs(f"{dst}/demo")
    open(f"{dst}/demo/Cargo.toml.tmpl", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ndd-sds = { path = "../sds", features = ["testing", "bench"] }\nsds-bindings-utils = { path = "../bindings" }\nserde_json = "1.0.114"\n')


def stable(out):
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(out))
    want = set(base["stable"])
    got = set(res.get("passed") or [])
    return sorted(want - got)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert sh("git -C /repo status --porcelain").stdout == "", "/repo not clean"
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = f"{ROOT}/seeded/{s['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ws(d + "/ws")
        open(d + "/main.rs", "w").write(s["main"])
        open(d + "/demo.sh", "w").write(DEMO)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        p = sh(f"bash {d}/demo.sh", cwd="/repo")
        if p.returncode != 0:
            print(s["id"], "DEMO FAILS ON CLEAN TREE", p.returncode, p.stdout[-1500:], p.stderr[-500:]); continue
        try:
            for f, old, new in s["edits"]:
                t = open("/repo/" + f).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open("/repo/" + f, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            b = sh("bash /opt/vp/build.sh")
            if b.returncode: print(s["id"], "BUILD FAILS", b.stderr[-1500:]); ok = False
            if ok:
                sh("bash /opt/vp/test.sh /tmp/seed_test.json")
                bad = stable("/tmp/seed_test.json")
                if bad: print(s["id"], "TESTS FAIL", bad[:5]); ok = False
            if ok:
                p = sh(f"bash {d}/demo.sh", cwd="/repo")
                if p.returncode in (0, 99): print(s["id"], "DEMO DOES NOT SEE IT", p.returncode, p.stdout[-800:]); ok = False
                c = sh(f"python3 {ROOT}/tools/check.py {s['property']}", cwd=ROOT)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                print(s["id"], "demo rc", p.returncode, "| check rc", c.returncode, v[0] if v else "MISSED: " + c.stdout[-400:])
        finally:
            sh("git -C /repo checkout -- .")
        print(s["id"], "kept" if ok else "REJECTED")
        if not ok: shutil.rmtree(d)


main()
