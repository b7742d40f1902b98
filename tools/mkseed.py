#!/usr/bin/env python3
"""Plants the bugs of tools/seeds.py in a scratch copy of /repo, confirms each (compiles, stable
tests pass, demo passes without and fails with the patch) and writes /verif/seeded/<id>/.
   mkseed.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
BASE = '321f63f'
DEMO = '''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rusty-source-map = { path = "$repo" }
source-map-mappings = "0.5.0"
serde_json = "1.0"
TOML
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo run --offline --quiet
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def main(ids):
    scratch = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    repo = os.path.join(scratch, 'repo')
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    bad = []
    for s in SEEDS:
        if ids and s['id'] not in ids:
            continue
        d = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        sh('git checkout -- .', repo)
        why = None
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                why = 'anchor occurs %d times: %r' % (t.count(old), old[:60])
                break
            open(p, 'w').write(t.replace(old, new))
            orig = sh('git show %s:%s' % (BASE, f), repo).stdout
            removed = [l[1:] for l in sh('git diff -U0 -- ' + f, repo).stdout.splitlines() if l.startswith('-') and not l.startswith('---')]
            if not any(l.strip() and l in orig.split('\n') for l in removed):
                print(s['id'], 'WARNING: removes no line of the original', f)
        if why is None:
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', repo).stdout)
            open(os.path.join(d, 'main.rs'), 'w').write(s['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r = sh('cargo test --workspace --offline 2>&1', repo)
            if r.returncode or 'FAILED' in r.stdout:
                why = 'tests: ' + r.stdout[-600:]
            else:
                r = sh('bash %s/demo.sh' % d, repo)
                if r.returncode == 0:
                    why = 'demo passes with the bug'
                sh('git checkout -- .', repo)
                r2 = sh('bash %s/demo.sh' % d, repo)
                if r2.returncode:
                    why = 'demo fails without the bug: ' + (r2.stdout + r2.stderr)[-500:]
        print(s['id'], 'ok' if why is None else 'REJECTED ' + why, flush=True)
        if why:
            bad.append(s['id'])
            shutil.rmtree(d)
    shutil.rmtree(scratch)
    print('rejected:', bad)


main(sys.argv[1:])
