"""Check driver: generates obligations from /repo's current source, discharges them, decides the outcome."""
import json, os, subprocess, sys, time, traceback
import z3
from .src import Unsupported, Program
from .val import *
from . import val as V
from .ex import Ex, State, Frame, T, F, has_quant
from . import std, prov, ext, tok

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('RVC_REPO', '/repo')
SCRATCH = os.environ.get('RVC_SCRATCH', '/tmp/rvc-scratch')


def front_binary():
    """build the front end (syn based parser) from /verif/rvc/front"""
    tgt = os.path.join(SCRATCH, 'front')
    env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-2024-10-18', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=tgt,
               CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', HOME='/root', PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''))
    os.makedirs(tgt, exist_ok=True)
    lock = open(os.path.join(SCRATCH, 'front.lock'), 'w')
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(VERIF, 'rvc/front'), env=env,
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('front end does not build: ' + r.stderr[-2000:])
    return os.path.join(tgt, 'debug/rvc-front')


def symbols(f, out, seen):
    stack = [f]
    while stack:
        e = stack.pop()
        if not z3.is_expr(e) or e.get_id() in seen:
            continue
        seen[e.get_id()] = e
        if z3.is_quantifier(e):
            stack.append(e.body())
            for i in range(e.num_patterns()):
                stack.extend(e.pattern(i).children())
            continue
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            stack.extend(e.children())


def closure(fs):
    """formulas + the axioms of every symbol they mention (transitively) + string literal facts"""
    seen, syms, done = {}, set(), set()
    for f in fs:
        symbols(f, syms, seen)
    ax = []
    while True:
        new = [s for s in syms if s not in done]
        if not new:
            break
        for s in new:
            done.add(s)
            for a in W.axioms.get(s, []):
                ax.append(a)
                symbols(a, syms, seen)
    lits = sorted(s[4:] for s in syms if s.startswith('lit:'))
    if len(lits) > 1:
        ax.append(z3.Distinct([W.lit(s) for s in lits]))
    # length / emptiness of literals
    for nm, f in (('strlen', lambda s: len(s.encode())),):
        if nm in syms:
            fn = W.fn(nm, [Str], I)
            ax += [fn(W.lit(s)) == f(s) for s in lits]
    for g in LIT_FACTS:
        ax += g(syms, lits)
    return ax


def relevant(pc, goal, depth):
    """the hypotheses connected to the goal: each is reached through its rarest symbols, depth times"""
    syms = []
    for f in pc:
        x = set()
        symbols(f, x, {})
        syms.append({y for y in x if not y.startswith('lit:')})
    freq = {}
    for x in syms:
        for y in x:
            freq[y] = freq.get(y, 0) + 1
    cur = set()
    symbols(goal, cur, {})
    keep = set()
    for _ in range(depth):
        new = set()
        for i, x in enumerate(syms):
            if i in keep:
                continue
            lim = max(2, min((freq[y] for y in x), default=0) * 1.5)
            if not x or any(freq[y] <= lim for y in x & cur):
                keep.add(i)
                new |= x
        cur |= new
    return [f for i, f in enumerate(pc) if i in keep]


LIT_FACTS = []   # callables (symbols, literals) -> axioms


class Obligation:
    def __init__(self, name, status, secs, backend, detail=''):
        self.name, self.status, self.secs, self.backend, self.detail = name, status, secs, backend, detail


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obls, self.covers, self.assumptions, self.functions = [], [], [], set()
        self.unsupported = []
        self.timeout = 12000 if tier == 'quick' else 120000
        self.t0 = time.time()
        self.prog = None
        self.hurry = False     # a failing input is already known

    def load(self):
        front = front_binary()
        self.prog = Program(REPO, front)
        self.front = front
        self.ex = self.new_ex()

    def new_ex(self):
        ex = Ex(self.prog)
        std.install(ex)
        ext.install(ex)
        prov.install(ex)
        tok.install(ex)
        return ex

    # ------------------------------------------------------------- execution
    def run(self, path, args, st=None, targs=(), ex=None):
        ex = ex or self.ex
        fn = self.prog.fns.get(path)
        if fn is None:
            raise Unsupported(f'function {path} not found')
        self.functions.add(path)
        st = st or State()
        saved, ex.body_of = ex.body_of, path     # a function is checked against its own body; recursive calls use its contract
        try:
            rs = ex.call_fn(st, fn, args, None, None, targs)
        finally:
            ex.body_of = saved
        for s, _, _ in rs:
            ex.drain(s)
        self.functions |= ex.inlined
        return rs

    # ------------------------------------------------------------- proving
    def prove(self, name, pc, goal, hyps=()):
        """obligation: pc and hyps imply goal"""
        pc = list(pc.pc if isinstance(pc, State) else pc) + list(hyps)
        if V.FACTS:
            pc += V.FACTS
            V.FACTS.clear()
        goal = z3.BoolVal(goal) if isinstance(goal, bool) else goal
        if z3.is_true(z3.simplify(goal)) if not has_quant(goal) else False:
            self.obls.append(Obligation(name, 'discharged', 0.0, 'simplifier'))
            return True
        t0 = time.time()
        fs = pc + [z3.Not(goal)]
        ax = closure(fs)
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.set('random_seed', 0)
        s.add(*ax)
        s.add(*fs)
        nfail = sum(o.status != 'discharged' for o in self.obls)
        late = time.time() - self.t0 > (240 if self.tier == 'quick' else 3600)
        tmo = self.timeout if nfail < 3 and not self.hurry and not late else min(self.timeout, 3000 if not late else 1000)   # the verdict is known; keep the rest short
        s.set('timeout', tmo)
        s.set('timeout', min(tmo, 2500))
        r = s.check()
        if r == z3.unknown:
            for depth in (1, 2) if nfail < 12 and not late else ():          # fewer hypotheses first: dropping one is sound
                sub = relevant(fs[:-1], fs[-1], depth)
                if len(sub) < len(pc):
                    s3 = z3.Solver()
                    s3.set('timeout', 2500)
                    s3.add(*closure(sub + fs[-1:]))
                    s3.add(*sub, fs[-1])
                    if s3.check() == z3.unsat:
                        r = z3.unsat
                        break
            if r == z3.unknown and tmo > 2500:
                s.set('timeout', tmo)
                r = s.check()
        dt = time.time() - t0
        if r == z3.unsat:
            self.obls.append(Obligation(name, 'discharged', dt, 'z3'))
            return True
        syms = set()
        for f in fs:
            symbols(f, syms, {})
        if any(x.startswith('hav!') for x in syms):
            # a loop was over-approximated: the failure says nothing about the code
            self.obls.append(Obligation(name, 'unsupported', dt, 'rvc', 'depends on a loop that has no exact summary'))
            return False
        # second back end
        r2 = cvc5(s, tmo) if nfail < 3 and not self.hurry and not late else 'skipped'
        if r2 == 'unsat':
            self.obls.append(Obligation(name, 'discharged', time.time() - t0, 'cvc5'))
            return True
        if r == z3.unknown and nfail < 2 and not self.hurry and not late:      # quantifier instantiation depends on the seed: try others before giving up
            for seed in (7, 42, 1234):
                s2 = z3.Solver()
                s2.set('timeout', tmo)
                s2.set('random_seed', seed)
                s2.add(*fs)
                s2.add(*ax)
                if s2.check() == z3.unsat:
                    self.obls.append(Obligation(name, 'discharged', time.time() - t0, 'z3'))
                    return True
        detail = f'z3: {r} ({s.reason_unknown() if r == z3.unknown else "model"}); cvc5: {r2}'
        if r == z3.sat:
            m = s.model()
            lines = []
            for d in sorted(m.decls(), key=lambda d: d.name()):
                if d.arity() == 0 and not d.name().startswith('lit:'):
                    lines.append(f'{d.name()} = {m[d]}')
            detail += '\ncounterexample (constants): ' + '; '.join(lines[:60])
        detail += '\nnegated goal: ' + str(goal)[:1500]
        self.obls.append(Obligation(name, 'failed' if 'sat' in (str(r), r2) else 'undischarged', time.time() - t0, 'z3+cvc5', detail))
        return False

    def fail(self, name, detail):
        self.obls.append(Obligation(name, 'failed', 0.0, 'rvc', detail))

    def cover(self, name, pc, hyps=()):
        """vacuity guard: the path condition must not be contradictory"""
        pc = list(pc.pc if isinstance(pc, State) else pc) + list(hyps)
        s = z3.Solver()
        s.set('timeout', 2000)
        ax = closure(pc)
        s.add(*ax)
        s.add(*pc)
        r = str(s.check())
        self.covers.append((name, r))
        if r == 'unsat':
            self.obls.append(Obligation('cover: ' + name, 'vacuous', 0.0, 'z3', 'no execution reaches this point'))
        return r

    def first_of(self, *variants, cut=None):
        """several ways to cut the same proof into contracts: the first whose obligations are all discharged decides,
        otherwise the last one is reported"""
        for i, f in enumerate(variants):
            n, nc = len(self.obls), len(self.covers)
            ex, tmo = self.ex, self.timeout
            self.ex = self.new_ex()
            last = i == len(variants) - 1 or self.hurry
            if not last and not cut:
                self.timeout = min(self.timeout, 6000)
            try:
                f()
                bad = [o for o in self.obls[n:] if o.status != 'discharged']
                if not bad or last:
                    return
                if cut and not any(o.name.startswith(cut) or o.status in ('unsupported', 'vacuous') for o in bad):
                    return      # the contract of the callee holds: the failure is the caller's
            except Unsupported:
                if last:
                    raise
            except Exception:   # noqa  a cut that does not fit this source
                if last:
                    raise
            finally:
                ex.used_models |= self.ex.used_models
                ex.qtime += self.ex.qtime
                self.ex, self.timeout = ex, tmo
            del self.obls[n:], self.covers[nc:]

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)


def cvc5(solver, timeout):
    try:
        txt = solver.to_smt2()
        r = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={min(timeout, 8000)}', '--full-saturate-quant', '-q', '-'],
                           input='(set-logic ALL)\n' + txt, capture_output=True, text=True, timeout=timeout / 1000 + 30)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'error'
        return o if o in ('sat', 'unsat', 'unknown') else 'error'
    except Exception as e:   # noqa
        return 'error'
