#!/usr/bin/env python3
"""plant.py SPEC.py: writes planted bugs (patch, demo, meta) from a list of them and confirms each
in a scratch copy of /repo: it applies, builds, passes the tests, and its demonstration fails with
it and passes without it.  SPEC defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old,
new)], demo=rust main or dict(sh=...), features)}."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/pl"
HEAD = '''#!/bin/bash
# Run with cwd = the tree.  Everything it makes is in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
'''
LIB = HEAD + '''mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cfg-expr = {{ path = "$repo"{features} }}
{more}[workspace]
EOF
CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true cargo run --offline --quiet --manifest-path "$t/Cargo.toml"
'''
UPD = HEAD + '''CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true cargo build --offline --quiet --manifest-path "$repo/update/Cargo.toml"
mkdir -p "$t/w/src/targets" "$t/b"
cd "$t/w"
cat > "$t/b/rustc" <<'EOF'
#!/bin/bash
D=$(dirname "$(dirname "$0")")
case "$*" in
  *--version*) cat "$D/version" ;;
  *target-list*) cat "$D/list" ;;
  *"--print cfg"*) cat "$D/cfg" ;;
esac
EOF
cat > "$t/b/rustfmt" <<'EOF'
#!/bin/bash
exit 0
EOF
chmod +x "$t/b/rustc" "$t/b/rustfmt"
echo "rustc 1.2.3 (abc 2020-01-01)" > "$t/version"
echo "some-made-up-target" > "$t/list"
printf '%s\\n' debug_assertions 'panic="unwind"' 'target_abi=""' 'target_arch="x86_64"' 'target_endian="little"' 'target_env="gnu"' \\
  'target_family="unix"' 'target_has_atomic="8"' 'target_os="linux"' 'target_pointer_width="64"' 'target_vendor="unknown"' unix > "$t/cfg"
echo "old" > src/targets/builtins.rs
printf 'rustc [1.1.0]\\n[1.1.0]: (x)\\n' > README.md
run() { RUSTC="$t/b/rustc" PATH="$t/b:$PATH" timeout 60 "$t/target/debug/update"; }
'''


def sh(cmd, cwd, **kw):
    env = {k: v for k, v in os.environ.items() if k not in ("CARGO_TARGET_DIR",)}
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 0, "", "out of time")  # not a clear failure: not kept


def copy(name):
    d = os.path.join(SC, name)
    if not os.path.exists(d):
        os.makedirs(SC, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
    sh("git checkout -q -f . && git clean -qfd", d)
    return d


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    clean, work = copy("clean"), copy("work")
    for bid, b in bugs.items():
        if only and bid not in only:
            continue
        out = os.path.join(V, "seeded", bid)
        sh("git checkout -q -f . && git clean -qfd", work)
        for f, old, new in b["edits"]:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, "EDIT MATCHES", s.count(old), repr(old[:60])); break
            open(p, "w").write(s.replace(old, new))
        else:
            os.makedirs(out, exist_ok=True)
            diff = sh("git diff", work).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            if "sh" in b:
                open(os.path.join(out, "demo.sh"), "w").write(UPD + b["sh"])
            else:
                feats = ', features = ["targets"]' if b.get("targets") else ""
                more = 'target-lexicon = "=0.13.2"\n' if b.get("targets") else ""
                open(os.path.join(out, "demo.sh"), "w").write(LIB.replace("{{", "{").replace("}}", "}").replace("{features}", feats).replace("{more}", more))
                open(os.path.join(out, "main.rs"), "w").write(b["demo"].strip() + "\n")
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
            ok = True
            for cmd in ("cargo test --workspace --offline -- --test-threads 8", "cargo test --workspace --offline --all-features -- --test-threads 8",
                        "cargo build --offline --manifest-path update/Cargo.toml"):
                r = sh(cmd, work)
                if r.returncode:
                    ok = False
                    print(bid, "TESTS", (r.stdout + r.stderr)[-1500:])
                    break
            a = sh(f"bash {out}/demo.sh", clean, timeout=300)
            c = sh(f"bash {out}/demo.sh", work, timeout=300)
            print(bid, "tests", "pass" if ok else "FAIL", "demo clean", a.returncode, "bug", c.returncode,
                  "" if a.returncode == 0 else a.stderr[-800:], "" if c.returncode else "NOT SHOWN", flush=True)
            if not (ok and a.returncode == 0 and c.returncode != 0):
                shutil.rmtree(out)
    sh("git checkout -q -f . && git clean -qfd", work)


main()
