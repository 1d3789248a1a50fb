#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids]: writes /verif/seeded/<id>/ from a spec (list SEEDS of dicts) and confirms each in a scratch copy:
patch applies, crate compiles, demo passes on the clean tree and fails with the patch, stable tests pass."""
import json, os, subprocess, sys, shutil, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# builds main.rs against the crates of the tree in the current directory and runs it
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2024-10-18 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" CARGO_PROFILE_DEV_DEBUG=0
python3 "$here/layout.py" "$repo" "$w/ws" "$here" || exit 9
cd "$w/ws"
cargo run -q --offline -p demo
'''
LAYOUT = '''# layout.py REPO WS HERE: a workspace with the demo and the crate under test
import os, re, shutil, sys
repo, ws, here = sys.argv[1:]
man = open(repo + '/Cargo.toml').read()
man = re.sub(r'(?ms)^members\\s*=\\s*\\[.*?\\]', lambda m: 'members = ["demo", "crates/CRATE"]', man, count=1)
man = re.sub(r'(?ms)^exclude = \\[.*?\\]\\n', '', man, count=1)
os.makedirs(ws + '/demo/src'); os.makedirs(ws + '/crates/CRATE')
open(ws + '/Cargo.toml', 'w').write(man)
shutil.copy(repo + '/Cargo.lock', ws)
c = '/crates/CRATE'
os.symlink(repo + c + '/src', ws + c + '/src')
if os.path.exists(repo + c + '/README.md'):
    os.symlink(repo + c + '/README.md', ws + c + '/README.md')
open(ws + c + '/Cargo.toml', 'w').write(re.sub(r'(?ms)^\\[dev-dependencies\\].*?(?=^\\[|\\Z)', '', open(repo + c + '/Cargo.toml').read()))
shutil.copy(here + '/main.rs', ws + '/demo/src/main.rs')
open(ws + '/demo/Cargo.toml', 'w').write(\"\"\"[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
PKG = { path = "../crates/CRATE" }
serde.workspace = true
serde_json.workspace = true
DEPS
\"\"\")
'''
LAYOUT2 = '''# layout.py REPO WS HERE: a workspace with the demo, the crates under test and stand-ins (stubs/) for crates that cannot be fetched here
import os, re, shutil, sys
repo, ws, here = sys.argv[1:]
crates = CRATELIST
stubs = sorted(x for x in os.listdir(here + '/stubs') if not x.startswith('vercre-'))
man = open(repo + '/Cargo.toml').read()
man = re.sub(r'(?ms)^members\\s*=\\s*\\[.*?\\]', lambda m: 'members = [' + ', '.join('"%s"' % x for x in ['demo'] + crates) + ']', man, count=1)
man = re.sub(r'(?ms)^exclude = \\[.*?\\]\\n', '', man, count=1)
for c in ('vercre-did', 'vercre-infosec'):
    man = re.sub(r'(?m)^%s = .*$' % c, '%s = { path = "%s/stubs/%s" }' % (c, here, c), man)
man += '\\n[patch.crates-io]\\n' + ''.join('%s = { path = "%s/stubs/%s" }\\n' % (c, here, c) for c in stubs)
os.makedirs(ws + '/demo/src')
open(ws + '/Cargo.toml', 'w').write(man)
shutil.copy(repo + '/Cargo.lock', ws)
for c in crates:
    os.makedirs(ws + '/' + c)
    os.symlink(repo + '/' + c + '/src', ws + '/' + c + '/src')
    if os.path.exists(repo + '/' + c + '/README.md'):
        os.symlink(repo + '/' + c + '/README.md', ws + '/' + c + '/README.md')
    open(ws + '/' + c + '/Cargo.toml', 'w').write(re.sub(r'(?ms)^\\[dev-dependencies\\].*?(?=^\\[|\\Z)', '', open(repo + '/' + c + '/Cargo.toml').read()))
for f in os.listdir(here):
    if f.endswith('.rs'):
        shutil.copy(here + '/' + f, ws + '/demo/src/')
open(ws + '/demo/Cargo.toml', 'w').write("""[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
DEPS
""")
'''
for sd in ns['SEEDS']:
    if only and sd['id'] not in only:
        continue
    d = f'{V}/seeded/{sd["id"]}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = '/tmp/seedwt'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(f'mkdir -p {wt} && cd /repo && git archive HEAD | tar xf - -C {wt} && cd {wt} && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True)
    if 'files' in sd:      # own layout
        for n, t in sd['files'].items():
            open(f'{d}/{n}', 'w').write(t)
    elif 'crates' in sd:   # several crates, with the stand-ins
        open(f'{d}/demo.sh', 'w').write(DEMO)
        open(f'{d}/layout.py', 'w').write(LAYOUT2.replace('CRATELIST', repr(sd['crates'])).replace('DEPS', sd['deps']))
        open(f'{d}/main.rs', 'w').write(sd['main'])
        for n, t in sd.get('extra', {}).items():
            open(f'{d}/{n}', 'w').write(t)
        shutil.copytree(f'{V}/stubs', f'{d}/stubs', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
    else:
        open(f'{d}/demo.sh', 'w').write(DEMO)
        open(f'{d}/layout.py', 'w').write(LAYOUT.replace('CRATE', sd['crate']).replace('PKG', sd['pkg']).replace('DEPS', sd.get('deps', '')))
        open(f'{d}/main.rs', 'w').write(sd['main'])
    os.chmod(f'{d}/demo.sh', 0o755)
    r0 = subprocess.run(['bash', f'{d}/demo.sh'], cwd=wt, capture_output=True, text=True)
    ok = True
    for f, a, b in sd['edits']:
        s = open(f'{wt}/{f}').read()
        if s.count(a) < 1:
            print(sd['id'], 'NOT FOUND', a[:80]); ok = False
        open(f'{wt}/{f}', 'w').write(s.replace(a, b, sd.get('n', 1)))
    diff = subprocess.run(['git', 'diff'], cwd=wt, capture_output=True, text=True).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    r1 = subprocess.run(['bash', f'{d}/demo.sh'], cwd=wt, capture_output=True, text=True)
    json.dump({'property': sd['property'], 'needs': sd['needs'], 'what_it_breaks': sd['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    print(sd['id'], 'clean', r0.returncode, 'patched', r1.returncode, '' if r0.returncode == 0 and r1.returncode not in (0, 9) and 'error' not in r1.stderr[:300] and ok else '  <<<<< BAD ' + r0.stderr[-400:] + '\n' + r1.stderr[-400:], flush=True)
    shutil.rmtree(wt, ignore_errors=True)
