#!/usr/bin/env python3
"""mkseed.py FILE...: makes /verif/seeded/<id>/ from seeds/<id>.txt. Format:
property: C01
needs: ...
breaks: ...
deps: enum_vec enum_like ...          (default: enum_vec)
=== path/to/file
<<<<
old text
----
new text
>>>>
=== main.rs
demo program
"""
import difflib, json, os, re, subprocess, sys
OUT = "/verif/seeded"
DEPS = {
    "enum_vec": 'enum_vec = { path = "@/enum_vec", features = ["smallvec"] }',
    "smallvec": 'smallvec = "0.6"',
    "enum_like": 'enum_like = "0.2"',
    "enum_like_local": 'enum_like = { path = "@/enum_like" }',
    "enum_like_derive_local": 'enum_like_derive = { path = "@/enum_like_derive" }',
    "enum_set": 'enum_set2 = { path = "@/enum_set" }',
    "bit-set": 'bit-set = "0.5"',
}
DEMO = """#!/bin/bash
# Builds and runs main.rs against the crates in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
%s
%s[profile.dev]
debug = false
%s[workspace]
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline --quiet
"""
for f in sys.argv[1:]:
    sid = os.path.basename(f)[:-4]
    parts = re.split(r"^=== (.*)\n", open(f).read(), flags=re.M)
    head = dict(l.split(": ", 1) for l in parts[0].splitlines() if l.strip())
    d = os.path.join(OUT, sid)
    os.makedirs(d, exist_ok=True)
    diff = ""
    files = dict(zip(parts[1::2], parts[2::2]))
    for name, body in files.items():
        if "/" not in name:
            open(os.path.join(d, name), "w").write(body)
            continue
        old = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + name], stdout=subprocess.PIPE, text=True, check=True).stdout
        new = old
        for m in re.finditer(r"^<<<<\n(.*?)^----\n(.*?)^>>>>\n", body, flags=re.S | re.M):
            assert new.count(m[1]) == 1, (sid, name, new.count(m[1]), m[1])
            new = new.replace(m[1], m[2])
        assert new != old, sid
        diff += "diff --git a/%s b/%s\n" % (name, name) + "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + name, "b/" + name))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    deps = "\n".join(DEPS[x].replace("@", "$repo") for x in head.get("deps", "enum_vec").split())
    patch = ""
    if head.get("patch"):
        patch = '[patch.crates-io]\nenum_like = { path = "$repo/enum_like" }\nenum_like_derive = { path = "$repo/enum_like_derive" }\n'
    prof = "overflow-checks = false\ndebug-assertions = false\n" if head.get("release") else ""
    if "demo.sh" not in files:
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (deps, patch, prof))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": head["property"], "needs": head["needs"], "what_it_breaks": head["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "meta.json"), "a").write("\n")
    print("made", sid)
