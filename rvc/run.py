#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import argparse, importlib.util, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from rvc.check import Check, VERIF, REPO, SCRATCH
from rvc.src import Unsupported
from rvc import replay
import z3

BOUND_SCALE = {'quick': 1, 'thorough': 8}


def load_contract(pid):
    sys.path.insert(0, os.path.join(VERIF, 'contracts'))
    p = os.path.join(VERIF, 'contracts', pid + '.py')
    spec = importlib.util.spec_from_file_location('contract_' + pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier if a.tier in BOUND_SCALE else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(SCRATCH, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    mod = load_contract(pid)
    c = Check(pid, tier, seed)
    unsupported = None
    # ---- bounded run of the real code (replay of failures, stand-in for what the verifier cannot reach); a failing
    # input found first only shortens the solver's time limits, the obligations are generated and checked all the same
    drv = getattr(mod, 'DRIVER', None)
    fails, stats, drv_err, ran, binary = [], {}, None, False, None

    def drive(scale):
        nonlocal fails, stats, drv_err, ran
        f, st_ = replay.run(binary, [pid, seed, scale] + list(drv[1:]), timeout=400)
        ran = True
        if f is None:
            drv_err = st_.get('error')
        else:
            fails, stats = f, st_
    if drv:
        binary, log = replay.build(drv[0])
        if binary is None:
            drv_err = 'driver does not build against this tree: ' + log[-1500:]
        else:
            drive(BOUND_SCALE[tier])
            c.hurry = bool(fails)
    try:
        c.load()
        mod.contract(c)
    except Unsupported as e:
        unsupported = str(e)
    except Exception as e:   # the verifier itself fails on this source: treated as out of reach, never as an alarm
        unsupported = 'verifier error: ' + ''.join(traceback.format_exception_only(type(e), e)).strip()
        if a.v:
            traceback.print_exc()
    failed = [o for o in c.obls if o.status in ('failed', 'undischarged')]
    hav = [o for o in c.obls if o.status == 'unsupported']
    if hav and unsupported is None:
        unsupported = 'loop without an exact summary: ' + '; '.join(o.name for o in hav)[:600]
    vac = [o for o in c.obls if o.status == 'vacuous']
    disch = [o for o in c.obls if o.status == 'discharged']
    if not c.obls and unsupported is None:
        unsupported = 'no obligation was generated'
    if vac and unsupported is None:
        unsupported = 'vacuous: ' + '; '.join(o.name for o in vac)
    t_proof = time.time() - t0
    if binary and drv_err is None and not fails and tier == 'quick' and (failed or unsupported is not None):
        drive(8)
    known = known_findings(pid)
    news = []
    for f in fails:
        k = next((k for k in known if k['match'] in f), None)
        if k is None:
            news.append(f)
    for k in known:
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    violation = None
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    rp = os.path.join(VERIF, 'evidence', 'replay', pid + '.txt')
    if os.path.exists(rp):
        os.remove(rp)
    if failed or news:
        with open(rp, 'w') as f:
            f.write(f'property {pid}\n')
            for o in failed:
                f.write(f'FAILED OBLIGATION: {o.name}\n{o.detail}\n\n')
            for x in news:
                f.write(f'FAILING INPUT (real code, driver {drv}): {x}\n')
            if drv_err:
                f.write(f'driver: {drv_err}\n')
        violation = f'VIOLATION property={pid} replay={rp}' + ('' if news else ' no-failing-input-found')
    wall = time.time() - t0
    per = {}
    for o in disch:
        per[o.backend] = per.get(o.backend, 0) + 1
    decided = 'violated' if violation else ('proved' if unsupported is None and not failed else 'bounded only')
    trusted = sorted(set(getattr(mod, 'TRUSTED', [])) | {f'model: {m}' for m in (c.ex.used_models if c.prog else [])})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': len(c.obls), 'discharged': len(disch),
            'checker_cmd': f'python3-vt {VERIF}/rvc/run.py {pid} --tier {tier}',
            'trusted_base': trusted or ['rvc verification condition generator', 'z3'],
            'verdict': decided,
            'functions_under_contract': sorted(c.functions),
            'discharged_by': per,
            'solver_seconds': round(sum(o.secs for o in c.obls) + (c.ex.qtime if c.prog else 0), 2),
            'proof_seconds': round(t_proof, 2),
            'obligation_names': [f'{o.name}: {o.status} ({o.backend}, {o.secs:.2f}s)' for o in c.obls][:400],
            'vacuity_checks': [f'{n}: {r}' for n, r in c.covers][:200],
            'not_in_reach': unsupported,
            'bounded_cases_on_real_code': int(stats.get('cases', 0)) if stats else 0,
            'bounded_run': ran,
            'driver_error': drv_err,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + c.assumptions + [
            'the rvc front end (syn) parses the same items rustc compiles; cfg(test) items and attributes are dropped',
            'rvc executes Rust semantics as described in DESIGN.md; termination is not proved',
            'models of the standard library and third-party crates listed in trusted_base are assumed contracts',
        ],
        'wall_s': round(wall, 2),
        'violations': len(failed) + len(news),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {decided}; obligations {len(c.obls)}, discharged {len(disch)} {per}; bounded cases {stats.get("cases", 0) if stats else 0}; {wall:.1f}s'
          + (f'; out of reach: {unsupported}' if unsupported else '') + (f'; driver: {drv_err[:300]}' if drv_err else ''))
    if a.v:
        for o in c.obls:
            if o.status != 'discharged':
                print('  ', o.status, o.name, o.detail[:3000])
        for x in news:
            print('   FAIL', x)
    if violation:
        print(violation)
        sys.exit(1)
    if (unsupported is not None or failed) and not (ran and drv_err is None):
        print(f'{pid}: undecided: neither the verifier nor the bounded driver could decide this tree')
        sys.exit(2)
    sys.exit(0)


main()
