#!/usr/bin/env python3
"""mkseed.py SPEC.py: write a planted bug from a spec (dict S) into seeded/<id>/.
S: id, property, needs, breaks, edits: [(file, old, new)], demo: rust main (lib demo) or files."""
import os, subprocess, sys, json, shutil
SR = os.environ.get('SR', '/tmp/sr')
def git(*a): return subprocess.run(['git', '-C', SR] + list(a), check=True, capture_output=True, text=True).stdout
if not os.path.isdir(SR): subprocess.run(['git', 'clone', '-q', '/repo', SR], check=True)
git('fetch', '-q', 'origin'); git('reset', '-q', '--hard', 'origin/' + subprocess.check_output(['git','-C','/repo','rev-parse','--abbrev-ref','HEAD'],text=True).strip())
ns = {}; exec(open(sys.argv[1]).read(), ns); S = ns['S']
DEMO = '''#!/bin/bash
# builds the program beside this file against /repo and runs it in a scratch directory
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/run"
cp "$D/main.rs" "$T/src/main.rs"
cp "$D/Cargo.toml.demo" "$T/Cargo.toml"
cp /repo/Cargo.lock "$T/Cargo.lock"
export RUSTUP_TOOLCHAIN=1.74 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TARGET_DIR=/repo/target
export PATH="/root/.cargo/bin:$PATH" HOME=/root
cd "$T"
cargo build -q --offline
cd "$T/run"
HOME="$T/run" GIT_CONFIG_NOSYSTEM=1 timeout 120 /repo/target/debug/%s
'''
CT = '''[package]
name = "%s"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
[dependencies]
git-branchless-lib = { path = "/repo/git-branchless-lib" }
%s
'''
for f, old, new in S['edits']:
    p = os.path.join(SR, f); s = open(p).read(); assert s.count(old) == 1, (f, s.count(old), old); open(p, 'w').write(s.replace(old, new))
d = '/verif/seeded/' + S['id']; os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(git('diff'))
json.dump({'property': S['property'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(d + '/meta.json', 'w'), indent=1)
if 'main' in S:
    n = 'demo-' + S['id'].lower()
    open(d + '/main.rs', 'w').write(S['main']); open(d + '/demo.sh', 'w').write(DEMO % n); open(d + '/Cargo.toml.demo', 'w').write(CT % (n, S.get('deps', '')))
else:
    open(d + '/demo.sh', 'w').write(S['demo'])
os.chmod(d + '/demo.sh', 0o755)
git('reset', '-q', '--hard')
print(d)
