"""Builds the real crates of /repo (with stand-ins for dependencies that are not available offline) together with
the replay drivers of /verif/drivers, in a scratch workspace, and runs them."""
import os, re, subprocess, fcntl, json
from .check import VERIF, REPO, SCRATCH

ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-2024-10-18', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           RUSTC_WRAPPER='', HOME='/root', CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='0',
           PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''))

# repository crates: package -> (dir, extra manifest edits)
CRATES = {
    'vercre-core': 'crates/core', 'vercre-dif-exch': 'crates/dif-exch', 'vercre-macros': 'crates/macros',
    'vercre-w3c-vc': 'crates/w3c-vc', 'vercre-status': 'crates/status', 'vercre-openid': 'crates/openid',
    'vercre-iso-mdl': 'crates/iso-mdl', 'vercre-issuer': 'vercre-issuer', 'vercre-verifier': 'vercre-verifier',
    'vercre-holder': 'vercre-holder',
}
W3C = ['vercre-core', 'vercre-dif-exch', 'vercre-w3c-vc']
OPENID = W3C + ['vercre-status', 'vercre-openid']
ISSUER = OPENID + ['vercre-iso-mdl', 'vercre-issuer']
# stand-ins of /verif/stubs: crate -> crates.io name
STUBS = ['tracing', 'uuid', 'image', 'qrcode', 'urlencoding', 'derive_builder', 'bitvec', 'flate2', 'rand', 'ciborium', 'coset']
GIT = {'vercre-did': 'did', 'vercre-infosec': 'infosec'}
# driver crate -> repository crates it links
DRIVERS = {
    'core': ['vercre-core'],
    'difexch': ['vercre-dif-exch'],
    'macros': OPENID + ['vercre-macros'],
    'w3c': W3C, 'status': W3C + ['vercre-status'], 'mdl': ['vercre-iso-mdl'], 'openid': OPENID,
    'issuer': ISSUER, 'verifier': OPENID + ['vercre-verifier'], 'holder': ISSUER + ['vercre-macros', 'vercre-holder'],
}


def read(p):
    with open(p, encoding='utf-8') as f:
        return f.read()


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or read(p) != s:
        with open(p, 'w', encoding='utf-8') as f:
            f.write(s)


def link(target, p):
    if os.path.islink(p) and os.readlink(p) == target:
        return
    if os.path.lexists(p):
        os.remove(p)
    os.symlink(target, p)


def drop_table(text, header):
    return re.sub(rf'(?ms)^\[{re.escape(header)}\][^\n]*\n.*?(?=^\[|\Z)', '', text)


def layout(driver):
    ws = os.path.join(SCRATCH, 'ws-' + driver)
    os.makedirs(ws, exist_ok=True)
    crates = DRIVERS[driver]
    members = ['driver'] + [CRATES[c] for c in crates]
    man = read(f'{REPO}/Cargo.toml')
    man, n = re.subn(r'(?ms)^members\s*=\s*\[.*?\]', lambda m: 'members = [' + ', '.join(f'"{x}"' for x in members) + ']', man, count=1)
    man = re.sub(r'(?ms)^exclude = \[.*?\]\n', '', man, count=1)
    if any(c not in ('vercre-core', 'vercre-dif-exch', 'vercre-macros') for c in crates):
        for c in GIT:
            man = re.sub(rf'(?m)^{c} = .*$', f'{c} = {{ path = "{VERIF}/stubs/{c}" }}', man)
        man += '\n[patch.crates-io]\n' + ''.join(f'{c} = {{ path = "{VERIF}/stubs/{c}" }}\n' for c in STUBS)
    write(f'{ws}/Cargo.toml', man)
    write(f'{ws}/Cargo.lock', read(f'{REPO}/Cargo.lock'))
    for c in crates:
        d = CRATES[c]
        os.makedirs(f'{ws}/{d}', exist_ok=True)
        link(f'{REPO}/{d}/src', f'{ws}/{d}/src')
        write(f'{ws}/{d}/Cargo.toml', drop_table(read(f'{REPO}/{d}/Cargo.toml'), 'dev-dependencies'))
        if os.path.exists(f'{REPO}/{d}/README.md'):
            link(f'{REPO}/{d}/README.md', f'{ws}/{d}/README.md')
    os.makedirs(f'{ws}/driver', exist_ok=True)
    if driver == 'macros':
        # the macros name `vercre_issuer`; of that crate they use the types of vercre-openid only
        write(f'{ws}/vercre-issuer/Cargo.toml', '[package]\nname = "vercre-issuer"\nversion = "0.1.0-alpha.6"\nedition = "2021"\n\n[dependencies]\nvercre-openid.workspace = true\n')
        write(f'{ws}/vercre-issuer/src/lib.rs', 'pub use vercre_openid::issuer::*;\n')
    else:
        link(f'{VERIF}/drivers/{driver}/src', f'{ws}/driver/src')
    write(f'{ws}/driver/Cargo.toml', read(f'{VERIF}/drivers/{driver}/Cargo.toml'))
    return ws


def build(driver):
    """-> (binary path | None, log)"""
    os.makedirs(SCRATCH, exist_ok=True)
    lock = open(os.path.join(SCRATCH, f'ws-{driver}.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    ws = layout(driver)
    if driver == 'macros':
        return build_macros(ws)
    tgt = os.path.join(SCRATCH, 'target-' + driver)
    r = subprocess.run(['cargo', 'build', '--offline', '-p', f'rvc-driver-{driver}'], cwd=ws, env=dict(ENV, CARGO_TARGET_DIR=tgt),
                       capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return os.path.join(tgt, 'debug', f'rvc-driver-{driver}'), r.stderr


def build_macros(ws):
    """the driver of the request macros is generated; malformed requests are compiled separately and must not compile"""
    import importlib.util
    spec = importlib.util.spec_from_file_location('macros_gen', f'{VERIF}/drivers/macros/gen.py')
    gen = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(gen)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    big = os.environ.get('VERIF_TIER') == 'thorough'
    gs, bs = gen.good(seed, 1200 if big else 240), gen.bad(seed, 8 if big else 2)
    (gm, gat), (bm, bat) = gen.render(gs, bs)
    write(f'{ws}/driver/src/main.rs', gm)
    write(f'{ws}/driver/src/dump.rs', read(f'{VERIF}/drivers/macros/src/dump.rs'))
    write(f'{ws}/driver/src/bin/bad.rs', bm)
    tgt = os.path.join(SCRATCH, 'target-macros')
    fails, err = [], None

    def cargo(which):
        r = subprocess.run(['cargo', 'build', '--offline', '-p', 'rvc-driver-macros', '--message-format=json'] + which, cwd=ws,
                           env=dict(ENV, CARGO_TARGET_DIR=tgt), capture_output=True, text=True)
        ls, other = {}, []
        for l in r.stdout.splitlines():
            m = json.loads(l) if l.startswith('{') else {}
            if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                sp = [s for s in m['message']['spans'] if s['is_primary']]
                f = [root(s) for s in sp]
                if m['target']['name'] in ('rvc-driver-macros', 'bad') and f:
                    ls.setdefault(f[0], m['message']['message'])
                elif m['target']['name'] not in ('rvc-driver-macros', 'bad'):
                    other.append(m['message'].get('rendered') or m['message']['message'])
        return r, ls, other

    def root(s):
        while s.get('expansion'):
            s = s['expansion']['span']
        return s['line_start']
    r, ls, other = cargo(['--bin', 'rvc-driver-macros'])
    if other or (r.returncode and not ls):
        return None, (other or [r.stderr])[0]
    for l, msg in sorted(ls.items()):
        if l in gat:
            k, src, _ = gs[gat[l]]
            fails.append(f'{k}_request!({src}) does not compile: {msg}')
        elif not any(x in gat for x in ls):
            return None, f'line {l}: {msg}'
    good = r.returncode == 0
    r, ls, other = cargo(['--bin', 'bad'])
    if other or (r.returncode and not ls):
        return None, (other or [r.stderr])[0]
    n = 0
    for l, i in bat.items():
        n += 1
        if l not in ls:
            k, what, src = bs[i]
            fails.append(f'{k}_request!({src}) compiles although {what}')
    out = f'{tgt}/driver-macros.sh'
    with open(out, 'w') as f:
        f.write('#!/bin/sh\n')
        if good:
            f.write(f'{tgt}/debug/rvc-driver-macros\n')
        f.write(f"cat <<'EOF_FAILS'\n" + ''.join(f'FAIL {x}\n' for x in fails) + f'STAT cases {n + len(gs)}\nEOF_FAILS\n')
    os.chmod(out, 0o755)
    return out, ''


def run(binary, args, timeout=600):
    """-> (list of failures, stats dict)"""
    try:
        r = subprocess.run([binary] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, {'error': 'driver timed out'}
    fails, stats = [], {}
    for l in r.stdout.splitlines():
        if l.startswith('FAIL '):
            fails.append(l[5:])
        elif l.startswith('STAT '):
            k, _, v = l[5:].partition(' ')
            stats[k] = v
    if r.returncode not in (0, 3) and not fails:
        return None, {'error': f'driver exit {r.returncode}: {r.stderr[-1500:]}'}
    return fails, stats
