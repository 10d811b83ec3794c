#!/usr/bin/env python3
"""Make /verif/seeded/<id>: mkseed.py SPECFILE [name ...].

SPECFILE defines SEEDS = {id: dict(property, needs, breaks, edits=[(path, old, new)], main=rust source | demo=shell source, files={})}.
The patch is made in a scratch worktree of /repo's HEAD, built, tested, and the demonstration is run with and without it there.
"""
import sys, os, json, subprocess, shutil, pathlib
REPO, OUT = '/repo', pathlib.Path('/verif/seeded')
W = pathlib.Path(os.environ.get('SEED_WORK', '/tmp/seedwork'))
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ipmb = { path = "@REPO@/ipmb" }
libc = "0.2"
%s
[workspace]
'''
DEMO = '''#!/bin/bash
# Builds the program beside this file against the tree in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cd "$work"
cargo build --offline --target-dir "$work/target" > build.log 2>&1 || { cat build.log; exit 3; }
timeout 120 "$work/target/debug/demo"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def demo(d, cwd):
    return sh(f'bash {d}/demo.sh', cwd, timeout=300)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    seeds = ns['SEEDS']
    want = sys.argv[2:] or list(seeds)
    if not W.exists():
        shutil.copytree(REPO, W, symlinks=True)
    head = sh('git rev-parse HEAD', REPO).stdout.strip()
    sh(f'git fetch -q {REPO} HEAD && git checkout -q -f {head}', W)
    env = 'export PATH=$PATH:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only; '
    for i in want:
        s = seeds[i]
        sh('git checkout -q -f .', W)
        d = OUT / i
        tmp = pathlib.Path(f'/tmp/seedtmp/{i}')
        shutil.rmtree(tmp, ignore_errors=True)
        tmp.mkdir(parents=True)
        if 'main' in s:
            (tmp / 'main.rs').write_text(s['main'])
            (tmp / 'Cargo.toml.in').write_text(TOML % s.get('deps', ''))
            (tmp / 'demo.sh').write_text(DEMO)
        else:
            (tmp / 'demo.sh').write_text(s['demo'])
        for k, v in s.get('files', {}).items():
            (tmp / k).write_text(v)
        (tmp / 'meta.json').write_text(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
        r0 = demo(tmp, W)
        bad = []
        if r0.returncode != 0:
            bad.append(f'demo fails on HEAD ({r0.returncode}): {r0.stdout[-1500:]} {r0.stderr[-1500:]}')
        for path, old, new in s['edits']:
            p = W / path
            t = p.read_text()
            if t.count(old) != 1:
                bad.append(f'edit of {path}: {t.count(old)} matches of {old[:60]!r}')
            p.write_text(t.replace(old, new, 1))
        diff = sh('git diff', W).stdout
        (tmp / 'patch.diff').write_text(diff)
        b = sh(env + 'cargo build --workspace --all-targets --offline', W)
        if b.returncode:
            bad.append('build: ' + b.stderr[-2500:])
        else:
            t = sh(env + 'timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8', W)
            fails = [l for l in t.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED')]
            if fails:
                bad.append('tests: ' + str(fails))
            r1 = demo(tmp, W)
            if r1.returncode == 0:
                bad.append('demo passes with the patch: ' + r1.stdout[-800:])
            elif r1.returncode == 3:
                bad.append('demo does not build with the patch: ' + r1.stdout[-800:])
            else:
                print(f'   {i}: with the patch: {r1.returncode} {(r1.stdout + r1.stderr).strip()[-200:]}')
        sh('git checkout -q -f .', W)
        if bad:
            print(f'BAD {i}')
            for x in bad:
                print('   ', x)
        else:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
            print(f'OK {i}')
main()
