#!/usr/bin/env python3
"""mkseed.py FILE: FILE is Python defining BUGS, a list of dicts with id, property, edits (list of
(path, old, new)), needs, breaks and main (the body of the demonstration). Writes /verif/seeded/ID."""
import sys, os, json, subprocess
ns = {}
exec(open(sys.argv[1]).read(), ns)
DEMO = '''#!/bin/bash
# Run with the repository as working directory, after its build. Exit 0: behaves as specified.
set -u
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
hcl-rs = { path = "$repo/crates/hcl-rs" }
hcl-edit = { path = "$repo/crates/hcl-edit" }
hcl-primitives = { path = "$repo/crates/hcl-primitives", features = ["serde"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
indexmap = "2"
[workspace]
EOF
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
cd "$tmp" && cargo build --offline -q || exit 2
exec timeout 60 "$tmp/target/debug/demo"
'''
for b in ns['BUGS']:
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    for path, old, new in b['edits']:
        p = '/repo/' + path
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], path, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(b.get('demo', DEMO).replace('exec timeout', 'timeout'))
    os.chmod(d + '/demo.sh', 0o755)
    if 'main' in b:
        open(d + '/main.rs', 'w').write(b['main'].strip() + '\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(b['id'])
