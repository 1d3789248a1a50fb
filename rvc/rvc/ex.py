"""Symbolic executor / verification-condition generator over the real Rust AST."""
import z3
from .src import Unsupported, Program, Fn
from .val import *
from . import val as V

T, F = z3.BoolVal(True), z3.BoolVal(False)


class State:
    __slots__ = ('cells', 'pc', 'ghost')

    def __init__(self, cells=None, pc=None, ghost=None):
        self.cells = cells if cells is not None else {}
        self.pc = pc if pc is not None else []
        self.ghost = ghost if ghost is not None else {}

    def fork(self):
        return State(dict(self.cells), list(self.pc), dict(self.ghost))

    def add(self, *fs):
        for f in fs:
            f = z3.simplify(f) if z3.is_expr(f) and not z3.is_quantifier(f) else f
            if not z3.is_true(f):
                self.pc.append(f)
        return self


def pushes(v):
    """how a collection grew: root, number of additions"""
    if isinstance(v, (VVec, VMap)):
        if getattr(v, 'bulk', None): return ('bulk', id(v))
        return (id(v.base if v.base is not None else v), len(v.appended if isinstance(v, VVec) else v.ins)) if v.base is not None else (id(v), 0)
    return None


class Frame:
    __slots__ = ('fn', 'mod', 'selfty', 'tys', 'env', 'rty')

    def __init__(self, fn, mod, selfty=None, tys=None, env=None, rty=None):
        self.fn, self.mod, self.selfty, self.rty = fn, mod, selfty, rty
        self.tys = tys if tys is not None else {}
        self.env = env if env is not None else {}

    def scope(self):
        return Frame(self.fn, self.mod, self.selfty, self.tys, dict(self.env), self.rty)


PRIMS = {'bool': BOOL, 'str': STR, 'String': STR, 'f32': ('opaque', 'f64'), 'f64': ('opaque', 'f64'), 'char': ('int', 'char')}
for _k in INT_RANGES:
    PRIMS.setdefault(_k, ('int', _k))


class Ex:
    def __init__(self, prog, timeout=20000):
        self.p = prog
        self.ctx = []
        self.stack = []
        self.ncell = 0
        self.fn_models = {}     # key -> model(ex, st, fr, args, expect, targs)
        self.m_models = {}      # (head, method) -> model(ex, st, fr, recv, place, args, expect, targs)
        self.macro_models = {}
        self.in_loops = 0
        self.any_types = ()   # types whose values no obligation reads: an inexact loop over them does not matter
        self.body_of = None     # the function whose body is being checked
        self.contracts = {}     # fn path -> model used instead of the body at call sites
        self.panic_ok = lambda msg, line: False
        self.inlined = set()
        self.used_models = set()
        self.nq = 0
        self.consts = {}
        self.qtime = 0.0
        self.draws = []         # random draws: (symbol, lo, hi, index context)
        W.adt = self.adt

    # ---------------------------------------------------------------- types
    def adt(self, t):
        it = self.find_adt(t[1])
        if it is None:
            return None
        ast, mod = it
        gens = list(ast['gen'].keys())
        tys = dict(zip(gens, t[2]))
        fr = Frame(None, mod, t, tys)
        if ast['k'] == 'struct':
            return ('struct', [(f['name'], self.ty(fr, f['t'])) for f in ast['f']['fs']])
        return ('enum', [(v['name'], [(f['name'], self.ty(fr, f['t'])) for f in v['f']['fs']]) for v in ast['vs']])

    def find_adt(self, path):
        segs = tuple(path.split('::'))
        m = self.p.mods.get(segs[:-1])
        if m is None:
            return None
        it = m.items.get(segs[-1])
        if it is None or it['k'] not in ('struct', 'enum'):
            return None
        return it, m

    def ty(self, fr, a):
        """AST type -> Ty"""
        if a is None:
            return UNIT
        k = a['k']
        if k == 'ref':
            return self.ty(fr, a['t'])
        if k == 'tuple':
            return ('tuple', tuple(self.ty(fr, t) for t in a['ts']))
        if k in ('slice', 'array'):
            return ('vec', self.ty(fr, a['t']))
        if k in ('impl', 'dyn'):
            names = [b['segs'][-1][0] for b in a['b']]
            if len(names) == 1 and names[0] in ('Fn', 'FnMut', 'FnOnce'):
                return ('fn',)
            for b in a['b']:
                if b['segs'][-1][0] in ('Into', 'AsRef') and b['segs'][-1][1]:
                    return self.ty(fr, b['segs'][-1][1][0])
                if b['segs'][-1][0] == 'Iterator':
                    for g in b['segs'][-1][1] or []:
                        if g['k'] == 'assoc':
                            return ('vec', self.ty(fr, g['ty']))
                if b['segs'][-1][0] == 'Future':
                    for g in b['segs'][-1][1] or []:
                        if g['k'] == 'assoc':
                            return self.ty(fr, g['ty'])
            return ('param', '+'.join(names), tuple(self.trait_name(fr, b) for b in a['b']))
        if k == 'infer':
            return None
        if k == 'never':
            return None
        if k != 'path':
            raise Unsupported(f'type {k}')
        p = a['p']
        segs = [s[0] for s in p['segs']]
        args = p['segs'][-1][1]
        if p['q'] is not None:
            return ('opaque', '::'.join(segs))
        if len(segs) == 1:
            n = segs[0]
            if n in fr.tys:
                return fr.tys[n]
            if n == 'Self':
                return fr.selfty
        if segs[0] == 'Self' and len(segs) == 2:
            # associated type of the current impl
            if fr.fn is not None and fr.fn.impl is not None:
                for it in fr.fn.impl['items']:
                    if it['k'] == 'type' and it['name'] == segs[1]:
                        return self.ty(fr, it['t'])
            return ('opaque', '::'.join(segs))
        r = self.p.resolve(fr.mod, segs)
        last = segs[-1]
        targs = tuple(self.ty(fr, x) for x in (args or []) if x['k'] not in ('assoc', 'const'))
        if r[0] == 'item':
            it, mod = r[2], r[3]
            if it['k'] == 'type':
                gens = list(it['gen'].keys())
                tys = {g: (targs[i] if i < len(targs) else None) for i, g in enumerate(gens)}
                if last == 'Result':
                    a2 = it['t']['p']['segs'][-1][1] if it['t']['k'] == 'path' else None
                    e = None
                    if len(targs) > 1:
                        e = targs[1]
                    elif a2 and len(a2) > 1:
                        e = self.ty(Frame(None, mod, None, {**tys, **({g: None for g in gens if a2[1]['k'] == 'path' and a2[1]['p']['segs'][-1][0] == g})}), a2[1])
                        if e is None and 'provider' in mod.path:
                            e = ('opaque', 'anyhow::Error')
                        elif e is None and mod.path[0] == 'vercre_openid':
                            e = ('adt', 'vercre_openid::error::Error', ())
                    return ('adt', 'Result', (targs[0] if targs else UNIT, e))
                return self.ty(Frame(None, mod, None, tys), it['t'])
            if it['k'] in ('struct', 'enum'):
                n = len(it['gen'])
                ta = targs + (None,) * (n - len(targs))
                return ('adt', '::'.join(r[1]), ta[:n])
            if it['k'] == 'trait':
                return ('param', last, ('::'.join(r[1]),))
        if r[0] == 'ext':
            last = r[1].split('::')[-1]
        if r[0] == 'ext' and r[1] in ('serde_json::Value', 'Value') or segs[-2:] == ['serde_json', 'Value']:
            return ('adt', 'serde_json::Value', ())
        return self.std_ty(last, targs, r[1] if r[0] == 'ext' else '::'.join(segs))

    def std_ty(self, n, a, full):
        if n in PRIMS:
            return PRIMS[n]
        if n in ('Option',):
            return ('adt', 'Option', (a[0] if a else None,))
        if n == 'Result':
            if 'anyhow' in full and len(a) < 2:
                return ('adt', 'Result', (a[0] if a else None, ('opaque', 'anyhow::Error')))
            return ('adt', 'Result', (a[0] if a else None, a[1] if len(a) > 1 else ('opaque', full.rsplit('::', 1)[0] + '::Error')))
        if n in ('Vec', 'VecDeque'):
            return ('vec', a[0] if a else None)
        if n in ('HashMap', 'BTreeMap', 'IndexMap'):
            return ('map', a[0] if a else None, a[1] if len(a) > 1 else None)
        if n == 'Map':
            return ('map', STR, a[1] if len(a) > 1 else ('adt', 'serde_json::Value', ()))
        if n in ('HashSet', 'BTreeSet'):
            return ('set', a[0] if a else None)
        if n in ('Box', 'Arc', 'Rc', 'Cow', 'MutexGuard', 'Mutex', 'RwLock'):
            return a[0] if a else None
        if n in ('DateTime',):
            return ('int', 'DateTime')
        if n in ('TimeDelta', 'Duration'):
            return ('int', 'TimeDelta')
        return ('opaque', full)

    def trait_name(self, fr, b):
        r = self.p.resolve(fr.mod, [s[0] for s in b['segs']])
        return '::'.join(r[1]) if r[0] == 'item' else b['segs'][-1][0]

    # ---------------------------------------------------------------- misc
    def fresh(self, t, hint='v'):
        return app(f'{hint}!{W.uid()}', list(self.ctx), t)

    def fresh_idx(self, hint='k'):
        return self.fresh(('int', 'int'), hint).z

    def new_cell(self, st, v):
        self.ncell += 1
        st.cells[self.ncell] = v
        return self.ncell

    def drain(self, st):
        if V.FACTS:
            st.pc.extend(V.FACTS)
            V.FACTS.clear()

    def uns(self, what, e=None, fr=None):
        line = (e or {}).get('line') if isinstance(e, dict) else None
        fn = fr.fn.path if fr and fr.fn else '?'
        raise Unsupported(f'{what} (in {fn}{":" + str(line) if line else ""})')

    def feasible(self, st, *cs):
        cs = [z3.simplify(c) for c in cs]
        if any(z3.is_false(c) for c in cs):
            return False
        if all(z3.is_true(c) for c in cs):
            return True
        import time
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 150)
        qf = [f for f in st.pc if not has_quant(f)]
        s.add(*qf)
        s.add(*[c for c in cs if not has_quant(c)])
        self.nq += 1
        r = s.check()
        self.qtime += time.time() - t0
        return r != z3.unsat

    # ---------------------------------------------------------------- places
    def load(self, st, cell, path=()):
        v = st.cells[cell]
        for p in path:
            v = self.deref(st, v)
            v = self.project(st, v, p)
        return v

    def deref(self, st, v):
        while isinstance(v, VRef):
            v = self.load(st, v.cell, v.path)
        return v

    def project(self, st, v, p):
        v = force(v)
        k = p[0]
        if k == 'f':
            if isinstance(v, VStruct):
                if p[1] in v.f:
                    return v.f[p[1]]
                # field through Deref: single-field wrappers
                raise Unsupported(f'field {p[1]} of {tname(v.ty)}')
            if isinstance(v, VTuple):
                return v.es[int(p[1])]
            raise Unsupported(f'field {p[1]} of {type(v).__name__} {v.ty}')
        if k == 'v':
            if isinstance(v, VEnum):
                return v.vs[p[1]][1][p[2]]
            raise Unsupported('variant projection')
        if k == 'i':
            return v.get(p[1])
        if k == 'm':
            return v.at(p[1])
        raise Unsupported(str(p))

    def store(self, st, cell, path, new):
        cur = st.cells.get(cell)
        if not path:
            st.cells[cell] = new
            return
        # follow references inside the path
        v = cur
        for j, p in enumerate(path):
            if isinstance(v, VRef):
                return self.store(st, v.cell, v.path + tuple(path[j:]), new)
            v = self.project(st, v, p)
        st.cells[cell] = self.update(st, cur, path, new)

    def update(self, st, v, path, new):
        if not path:
            return new
        p, rest = path[0], path[1:]
        v = force(v)
        if p[0] == 'f':
            if isinstance(v, VTuple):
                es = list(v.es)
                es[int(p[1])] = self.update(st, es[int(p[1])], rest, new)
                return VTuple(es)
            f = LazyDict(v.f)
            f[p[1]] = self.update(st, v.f[p[1]], rest, new)
            return VStruct(v.ty, f)
        if p[0] == 'v':
            vs = dict(v.vs)
            c, pl = vs[p[1]]
            pl2 = LazyDict(pl)
            pl2[p[2]] = self.update(st, pl[p[2]], rest, new)
            vs[p[1]] = (c, pl2)
            return VEnum(v.ty, vs)
        if p[0] == 'i':
            old = v
            x = self.update(st, v.get(p[1]), rest, new)
            if v.items is not None and z3.is_int_value(z3.simplify(p[1])):
                items = list(v.items)
                items[z3.simplify(p[1]).as_long()] = x
                return VVec.of(items, v.ety)
            return VVec(old.n, lambda i: ite(i == p[1], x, old.get(i)), old.ety)
        if p[0] == 'm':
            x = self.update(st, v.at(p[1]), rest, new)
            return self.map_insert(v, p[1], x)
        raise Unsupported('update ' + str(p))

    def map_insert(self, m, k, x, kv=None):
        def at(q):
            if m.items == []:
                return x
            return ite(q == k, x, m.at(q))
        base = m if m.base is None or getattr(m, 'bulk', None) else m.base
        return VMap(m.kty, m.vty or x.ty, lambda q: z3.Or(q == k, m.has(q)), at,
                    base=base, ins=(m.ins if base is not m else []) + [(k, x)])

    def place(self, st, e, fr):
        """evaluate an expression as a place -> [(st, kind, (cell, path))]"""
        k = e['k']
        if k == 'path' and len(e['p']['segs']) == 1 and e['p']['segs'][0][0] in fr.env:
            return [(st, 'val', self.norm(st, (fr.env[e['p']['segs'][0][0]], ())))]
        if k == 'field':
            out = []
            for s, kd, pl in self.place(st, e['e'], fr):
                if kd != 'val':
                    out.append((s, kd, pl))
                    continue
                c, p = pl
                v = force(self.load(s, c, p))
                p2 = self.field_path(s, v, e['m'], p, fr, e)
                out.append((s, 'val', self.norm(s, (c, p2))))
            return out
        if k == 'un' and e['op'] == '*':
            return self.place(st, e['e'], fr)
        if k == 'index':
            out = []
            for s, kd, pl in self.place(st, e['e'], fr):
                if kd != 'val':
                    out.append((s, kd, pl))
                    continue
                for s2, kd2, iv in self.eval(s, e['i'], fr):
                    if kd2 != 'val':
                        out.append((s2, kd2, iv))
                        continue
                    c, p = pl
                    base = force(self.load(s2, c, p))
                    iv = self.deref(s2, iv)
                    if isinstance(base, VVec) and isinstance(iv, VInt):
                        inb = z3.And(iv.z >= 0, iv.z < base.n)
                        for s3, yes in self.branch(s2, inb):
                            if yes:
                                out.append((s3, 'val', (c, p + (('i', iv.z),))))
                            else:
                                out.append((s3, 'panic', f'index out of bounds:{e["line"]}'))
                    elif isinstance(base, VMap):
                        kt = self.keyterm(s2, iv)
                        for s3, yes in self.branch(s2, base.has(kt)):
                            if yes:
                                out.append((s3, 'val', (c, p + (('m', kt),))))
                            else:
                                out.append((s3, 'panic', f'map index:{e["line"]}'))
                    else:
                        for s3, kd3, v3 in self.index_value(s2, base, iv, e, fr):
                            out.append((s3, kd3, (self.new_cell(s3, v3), ()) if kd3 == 'val' else v3))
            return out
        # temporary
        out = []
        for s, kd, v in self.eval(st, e, fr):
            if kd != 'val':
                out.append((s, kd, v))
            else:
                out.append((s, 'val', self.norm(s, (self.new_cell(s, v), ()))))
        return out

    def index_value(self, st, base, iv, e, fr):
        m = self.m_models.get(('index', type(base).__name__))
        if m:
            return m(self, st, fr, base, iv, e)
        self.uns(f'index {type(base).__name__}[{type(iv).__name__}]', e, fr)

    def field_path(self, st, v, m, p, fr, e):
        if isinstance(v, VStruct) and m not in v.f:
            # auto-deref through `impl Deref`
            fs = self.p.methods.get(v.ty[1], {}).get('deref')
            if fs:
                body = fs[0].ast['body']
                b = body[-1]['e'] if body else None
                if b and b['k'] == 'ref' and b['e']['k'] == 'field':
                    f0 = b['e']['m']
                    v2 = force(self.deref(st, v.f[f0]))
                    return self.field_path(st, v2, m, p + (('f', f0),), fr, e)
        return p + (('f', m),)

    def norm(self, st, pl):
        """follow references: the place denoted by auto-deref"""
        c, p = pl
        v = self.load(st, c, p)
        while isinstance(v, VRef):
            c, p = v.cell, v.path
            v = self.load(st, c, p)
        return (c, p)

    def keyterm(self, st, v):
        t = to_term(self.deref(st, v))
        self.drain(st)
        return t

    # ---------------------------------------------------------------- control
    def branch(self, st, c):
        """fork on a z3 condition -> [(state, bool)]"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        a = st.fork()
        if self.feasible(st, c):
            out.append((a.add(c), True))
        n = z3.Not(c)
        if self.feasible(st, n):
            out.append((st.fork().add(n), False))
        return out

    def seq(self, rs, f):
        out = []
        for s, k, v in rs:
            if k == 'val':
                out.extend(f(s, v))
            else:
                out.append((s, k, v))
        return out

    def eval_list(self, st, es, fr, expects=None):
        """evaluate expressions in order -> [(st, kind, [values])]"""
        acc = [(st, 'val', [])]
        for i, e in enumerate(es):
            nxt = []
            for s, k, vs in acc:
                if k != 'val':
                    nxt.append((s, k, vs))
                    continue
                for s2, k2, v in self.eval(s, e, fr, expects[i] if expects and i < len(expects) else None):
                    nxt.append((s2, k2, vs + [v]) if k2 == 'val' else (s2, k2, v))
            acc = nxt
        return acc

    def rv(self, st, v):
        return force(self.deref(st, v))

    def block(self, st, stmts, fr, expect=None):
        fr = fr.scope()
        # local items
        for s in stmts:
            if s['k'] == 'item' and s['i'] and s['i']['k'] == 'use':
                import copy
                m = copy.copy(fr.mod)
                m.uses = dict(m.uses)
                m.globs = list(m.globs)
                for n, p in s['i']['us']:
                    if n == '*':
                        m.globs.append(p)
                    else:
                        m.uses[n] = p
                fr.mod = m
            elif s['k'] == 'item' and s['i'] and s['i']['k'] in ('fn', 'const', 'struct', 'enum'):
                import copy
                m = copy.copy(fr.mod)
                m.items = dict(m.items)
                nm = s['i'].get('name') or s['i']['sig']['name']
                m.items[nm] = s['i']
                fr.mod = m
        return self.stmts(st, stmts, 0, fr, expect)

    def stmts(self, st, stmts, i, fr, expect):
        rs = [(st, 'val', UNITV, fr)]
        done = []
        n = len(stmts)
        for j in range(n):
            s = stmts[j]
            if s['k'] == 'item':
                continue
            nxt = []
            for st1, _, _, fr1 in rs:
                if s['k'] == 'let':
                    for x in self.let(st1, s, fr1):
                        (nxt if x[1] == 'val' else done).append(x)
                else:
                    last = j == n - 1 and not s['semi']
                    for s2, k2, v2 in self.eval(st1, s['e'], fr1, expect if last else None):
                        if k2 == 'val':
                            nxt.append((s2, 'val', v2 if last else UNITV, fr1))
                        else:
                            done.append((s2, k2, v2))
            rs = nxt
        return [(s, k, v) for s, k, v, _ in rs] + [x[:3] for x in done]

    def let(self, st, s, fr):
        """-> [(st, kind, val, frame)]"""
        out = []
        tyh = None
        if s['p']['k'] == 'typed':
            tyh = self.ty(fr, s['p']['t'])
        if s['e'] is None:
            fr2 = fr.scope()
            p = s['p']['p'] if s['p']['k'] == 'typed' else s['p']
            fr2.env[p['name']] = self.new_cell(st, VTuple([]))
            return [(st, 'val', UNITV, fr2)]
        isref = s['e']['k'] == 'ref' and s['e']['mut']
        for s1, k1, v1 in self.eval(st, s['e'], fr, tyh):
            if k1 != 'val':
                out.append((s1, k1, v1, fr))
                continue
            if tyh is not None and isinstance(v1, Value) and not isinstance(v1, (VRef, VFn)):
                v1 = retype(v1, tyh)
            for s2, ok_, env in self.match(s1, s['p'], v1, None, fr):
                if ok_:
                    fr2 = fr.scope()
                    fr2.env.update(env)
                    out.append((s2, 'val', UNITV, fr2))
                elif s['els'] is not None:
                    for s3, k3, v3 in self.eval(s2, s['els'], fr):
                        if k3 == 'val':
                            self.uns('let-else falls through', s, fr)
                        out.append((s3, k3, v3, fr))
                else:
                    self.uns('refutable let', s, fr)
        return out

    # ---------------------------------------------------------------- patterns
    def match(self, st, p, v, place, fr):
        """-> [(st, matched, env)]  v: value (may be VRef: bindings become references)"""
        k = p['k']
        if k == 'wild' or k == 'rest':
            return [(st, True, {})]
        if k == 'typed':
            return self.match(st, p['p'], v, place, fr)
        if k == 'ref':
            return self.match(st, p['p'], self.deref(st, v), place, fr)
        if k == 'ident':
            r = None
            if p['name'][0].isupper() and p['sub'] is None:
                r = self.p.resolve(fr.mod, [p['name']])
                isconst = r[0] == 'item' and r[2]['k'] == 'const'
                if p['name'] == 'None' or isconst or (r[0] in ('assoc', 'item') and r[0] == 'assoc'):
                    return self.match(st, {'k': 'path', 'p': {'segs': [[p['name'], None]], 'q': None, 'abs': False}}, v, place, fr)
            if p['sub'] is not None:
                out = []
                for s, m, env in self.match(st, p['sub'], v, place, fr):
                    if m:
                        env = dict(env)
                        env[p['name']] = self.new_cell(s, v)
                    out.append((s, m, env))
                return out
            s = st
            return [(s, True, {p['name']: self.new_cell(s, v)})]
        if k == 'or':
            out, cur = [], [st]
            for alt in p['ps']:
                nxt = []
                for s in cur:
                    for s2, m, env in self.match(s, alt, v, place, fr):
                        (out if m else nxt).append((s2, m, env) if m else s2)
                cur = nxt
            return out + [(s, False, {}) for s in cur]
        if k == 'lit':
            x = self.rv(st, v)
            l = self.lit(p['l'])
            c = eq(x, l)
            return [(s, b, {}) for s, b in self.branch(st, c)]
        if k == 'range':
            x = self.rv(st, v)
            cs = []
            for nm, op in (('lo', lambda a, b: a <= b), ('hi', None)):
                if p[nm] is not None:
                    y = self.eval(st, p[nm], fr)[0][2]
                    cs.append(y.z <= x.z if nm == 'lo' else (x.z <= y.z if p['incl'] else x.z < y.z))
            return [(s, b, {}) for s, b in self.branch(st, z3.And(cs))]
        if k == 'tuple':
            x = self.rv(st, v)
            if not isinstance(x, VTuple):
                self.uns('tuple pattern', None, fr)
            subs = []
            ps = p['ps']
            if any(q['k'] == 'rest' for q in ps):
                i = [q['k'] for q in ps].index('rest')
                ps = ps[:i] + [{'k': 'wild'}] * (len(x.es) - len(ps) + 1) + ps[i+1:]
            for i, q in enumerate(ps):
                subs.append((q, self.sub(st, v, ('f', str(i)))))
            return self.match_all(st, subs, fr)
        if k == 'slice':
            x = self.rv(st, v)
            if any(q['k'] in ('rest',) or (q['k'] == 'ident' and q.get('sub')) for q in p['ps']):
                self.uns('slice rest pattern', None, fr)
            out = []
            for s, b in self.branch(st, x.n == len(p['ps'])):
                if not b:
                    out.append((s, False, {}))
                else:
                    out.extend(self.match_all(s, [(q, self.sub(s, v, ('i', z3.IntVal(i)))) for i, q in enumerate(p['ps'])], fr))
            return out
        if k in ('path', 'tstruct', 'struct'):
            return self.match_ctor(st, p, v, fr)
        self.uns(f'pattern {k}', None, fr)

    def sub(self, st, v, pr):
        if isinstance(v, VRef):
            c, p = self.norm(st, (v.cell, v.path))
            return VRef(c, p + (pr,))
        return self.project(st, v, pr)

    def match_all(self, st, subs, fr):
        acc = [(st, True, {})]
        for q, sv in subs:
            nxt = []
            for s, m, env in acc:
                if not m:
                    nxt.append((s, m, env))
                    continue
                for s2, m2, e2 in self.match(s, q, sv, None, fr):
                    nxt.append((s2, m2, {**env, **e2} if m2 else {}))
            acc = nxt
        return acc

    def ctor(self, fr, segs):
        """resolve a path to (adt type path, variant or None)"""
        if segs[-1] in ('Some', 'None') and len(segs) <= 2:
            return ('Option', segs[-1])
        if segs[-1] in ('Ok', 'Err') and len(segs) <= 2:
            return ('Result', segs[-1])
        if segs[0] == 'Self':
            if fr.selfty is None:
                return None
            if len(segs) == 1:
                return (fr.selfty[1], None)
            if len(segs) != 2 or fr.selfty[0] != 'adt':
                return None
            d = adt_def((fr.selfty[0], fr.selfty[1], fr.selfty[2] or (None, None, None)))
            if d is not None and (d[0] != 'enum' or segs[1] not in [n for n, _ in d[1]]):
                return None
            return (fr.selfty[1], segs[1])
        r = self.p.resolve(fr.mod, segs)
        if r[0] == 'item':
            it = r[2]
            if it['k'] == 'type':
                t = self.ty(Frame(None, r[3]), it['t'])
                return (t[1], None) if t[0] == 'adt' else None
            if it['k'] == 'struct':
                return ('::'.join(r[1]), None)
            return None
        if r[0] == 'assoc' and len(r[4]) == 1:
            it = r[2]
            if it['k'] == 'type':
                t = self.ty(Frame(None, r[3]), it['t'])
                if t[0] == 'adt':
                    return (t[1], r[4][0])
                return None
            if it['k'] == 'enum' and any(v['name'] == r[4][0] for v in it['vs']):
                return ('::'.join(r[1]), r[4][0])
            return None
        if r[0] == 'ext':
            full = r[1].split('::')
            if len(full) >= 2 and full[-2] == 'Value':
                return ('serde_json::Value', full[-1])
        if segs[0] == 'Value' and len(segs) == 2:
            return ('serde_json::Value', segs[1])
        return None

    def match_ctor(self, st, p, v, fr):
        segs = [s[0] for s in p['p']['segs']]
        c = self.ctor(fr, segs)
        if c is None:
            r = self.p.resolve(fr.mod, segs)
            if p['k'] == 'path':
                cv = self.eval(st, {'k': 'path', 'p': p['p'], 'line': 0}, fr)
                return [(s, b, {}) for s, b in self.branch(st, eq(self.rv(st, v), self.rv(st, cv[0][2])))]
            # foreign enum: model as opaque enum if registered
            c = self.foreign_ctor(fr, segs, r)
            if c is None:
                self.uns(f'pattern path {"::".join(segs)}', None, fr)
        head, var = c
        x = self.rv(st, v)
        out = []
        if var is None:
            subs = self.subpats(st, p, v, None, fr)
            return self.match_all(st, subs, fr)
        if not isinstance(x, VEnum):
            self.uns(f'match of {type(x).__name__} {tname(x.ty) if x.ty else ""} against {"::".join(segs)}', None, fr)
        if var not in x.vs:
            if (d := adt_def(x.ty)) and var not in [n for n, _ in d[1]]:
                self.uns(f'variant {var} of {tname(x.ty)}', None, fr)
            return [(st, False, {})]
        for s, b in self.branch(st, x.vs[var][0]):
            if not b:
                out.append((s, False, {}))
            else:
                out.extend(self.match_all(s, self.subpats(s, p, v, var, fr), fr))
        return out

    def foreign_ctor(self, fr, segs, r):
        full = r[1] if r[0] == 'ext' else '::'.join(segs)
        parts = full.split('::')
        for n in BUILTIN_ADTS:
            if n.split('::')[-1] == parts[-2 if len(parts) > 1 else -1]:
                d = BUILTIN_ADTS[n]((None, None))
                if d[0] == 'enum' and parts[-1] in [x for x, _ in d[1]]:
                    return (n, parts[-1])
        return None

    def subpats(self, st, p, v, var, fr):
        def pr(n):
            return ('v', var, n) if var is not None else ('f', n)
        if p['k'] == 'path':
            return []
        if p['k'] == 'tstruct':
            ps = p['ps']
            if any(q['k'] == 'rest' for q in ps):
                i = [q['k'] for q in ps].index('rest')
                if i == len(ps) - 1:
                    ps = ps[:i]
                else:
                    self.uns('.. in tuple struct pattern', None, fr)
            return [(q, self.sub(st, v, pr(str(i)))) for i, q in enumerate(ps)]
        return [(q, self.sub(st, v, pr(n))) for n, q in p['fs']]

    # ---------------------------------------------------------------- expressions
    def lit(self, l, expect=None):
        k = l['k']
        if k == 'str':
            return VStr(l['v'])
        if k == 'int':
            return VInt(int(l['v'].replace('_', '')), l['suf'] or (expect[1] if expect and expect[0] == 'int' else 'int'))
        if k == 'bool':
            return VBool(l['v'])
        if k == 'char':
            return VInt(ord(l['v']), 'char')
        if k == 'float':
            return VTerm(z3.Const('float:' + l['v'], U), ('opaque', 'f64'))
        if k == 'bytestr':
            return VVec.of([VInt(b, 'u8') for b in l['v']], ('int', 'u8'))
        raise Unsupported('literal ' + k)

    def eval(self, st, e, fr, expect=None):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            self.uns(f'expression {e["k"]}', e, fr)
        return m(st, e, fr, expect)

    def e_lit(self, st, e, fr, ex):
        return [(st, 'val', self.lit(e['l'], ex))]

    def e_await(self, st, e, fr, ex):
        return self.eval(st, e['e'], fr, ex)

    def e_block(self, st, e, fr, ex):
        rs = self.block(st, e['b'], fr, ex)
        if e.get('label'):
            rs = [(s, 'val', v[1]) if k == 'brk' and v[0] == e['label'] else (s, k, v) for s, k, v in rs]
        return rs

    def e_tuple(self, st, e, fr, ex):
        xs = list(ex[1]) if ex and ex[0] == 'tuple' and len(ex[1]) == len(e['es']) else None
        return self.seq(self.eval_list(st, e['es'], fr, xs), lambda s, vs: [(s, 'val', VTuple(vs))])

    def e_array(self, st, e, fr, ex):
        et = ex[1] if ex and ex[0] == 'vec' else None
        return self.seq(self.eval_list(st, e['es'], fr, [et] * len(e['es'])), lambda s, vs: [(s, 'val', VVec.of(vs, et))])

    def e_repeat(self, st, e, fr, ex):
        def f(s, vs):
            x, n = self.rv(s, vs[0]), self.rv(s, vs[1])
            return [(s, 'val', VVec(n.z, lambda i: x, x.ty))]
        return self.seq(self.eval_list(st, [e['e'], e['n']], fr), f)

    def e_path(self, st, e, fr, ex):
        segs = [s[0] for s in e['p']['segs']]
        if len(segs) == 1 and segs[0] in fr.env:
            return [(st, 'val', st.cells[fr.env[segs[0]]])]
        c = self.ctor(fr, segs)
        if c is not None:
            head, var = c
            if head == 'Option' and var == 'None':
                return [(st, 'val', none(ex[2][0] if ex and ex[0] == 'adt' and ex[1] == 'Option' else None))]
            d = self.ctor_def(head, var)
            if d is not None and not d:   # unit
                return [(st, 'val', self.build(head, var, {}, ex, fr))]
            return [(st, 'val', VFn('ctor', head=head, var=var))]
        v = self.const_path(st, segs, fr, e)
        if v is not None:
            return [(st, 'val', v)]
        return [(st, 'val', VFn('path', segs=segs, ast=e['p'], fr=fr))]

    def const_path(self, st, segs, fr, e):
        if segs[0] == 'Self' and len(segs) == 2 and fr.fn is not None and fr.fn.impl:
            for m, im in self.p.impls:
                if fr.selfty and fr.selfty[0] == 'adt' and self.p.type_head(m, im['ty']) == fr.selfty[1]:
                    for it in im['items']:
                        if it['k'] == 'const' and it['name'] == segs[1]:
                            rs = self.eval(st, it['e'], Frame(None, m, fr.selfty), self.ty(Frame(None, m, fr.selfty), it['t']))
                            return rs[0][2]
        r = self.p.resolve(fr.mod, segs)
        if r[0] == 'item' and r[2]['k'] == 'const':
            f2 = Frame(None, r[3])
            rs = self.eval(st, r[2]['e'], f2, self.ty(f2, r[2]['t']))
            return rs[0][2]
        full = r[1] if r[0] == 'ext' else '::'.join(segs)
        if isinstance(full, str):
            parts = full.split('::')
            if len(parts) >= 2 and parts[-2] in INT_RANGES and parts[-1] in ('MAX', 'MIN') and INT_RANGES[parts[-2]]:
                return VInt(INT_RANGES[parts[-2]][1 if parts[-1] == 'MAX' else 0], parts[-2])
            for n in (full, '::'.join(parts[-2:])):
                if n in self.consts:
                    return self.consts[n]
        return None

    def ctor_def(self, head, var):
        d = adt_def(('adt', head, (None, None, None)))
        if d is None:
            return None
        if d[0] == 'struct':
            return d[1]
        for n, fs in d[1]:
            if n == var:
                return fs
        return None

    def build(self, head, var, fields, ex, fr):
        ta = ()
        if ex and ex[0] == 'adt' and ex[1] == head:
            ta = ex[2]
        elif fr.selfty and fr.selfty[0] == 'adt' and fr.selfty[1] == head:
            ta = fr.selfty[2]
        elif head not in BUILTIN_ADTS:
            it = self.find_adt(head)
            if it and it[0]['gen']:
                ta = self.infer_args(it, var, fields)
        if head in ('Option', 'Result'):
            ta = list(ta) if ta else [None] * (1 if head == 'Option' else 2)
            v0 = fields.get('0')
            if v0 is not None:
                i = 0 if var in ('Some', 'Ok') else 1
                ta[i] = v0.ty if not isinstance(v0, VRef) else ta[i]
            ta = tuple(ta)
        t = ('adt', head, ta)
        if var is None:
            return VStruct(t, dict(fields))
        return VEnum(t, {var: (T, dict(fields))})

    def infer_args(self, it, var, fields):
        ast, mod = it
        gens = list(ast['gen'].keys())
        fs = ast['f']['fs'] if ast['k'] == 'struct' else next(v for v in ast['vs'] if v['name'] == var)['f']['fs']
        sub = {}
        for f in fs:
            v = fields.get(f['name'])
            if v is None or v.ty is None:
                continue
            self.unify(f['t'], v.ty, gens, sub)
        return tuple(sub.get(g) for g in gens)

    def unify(self, a, t, gens, sub):
        if a['k'] == 'ref':
            return self.unify(a['t'], t, gens, sub)
        if a['k'] == 'path':
            segs = a['p']['segs']
            n, args = segs[-1]
            if n in gens and len(segs) == 1:
                if t is not None:
                    sub.setdefault(n, t)
                return
            if args and t:
                ts = t[2] if t[0] == 'adt' else t[1:] if t[0] in ('vec', 'map', 'set') else ()
                if n in ('Box', 'Arc'):
                    ts = (t,)
                for x, y in zip([x for x in args if x['k'] not in ('assoc', 'const')], ts):
                    self.unify(x, y, gens, sub)
        if a['k'] in ('slice', 'array') and t and t[0] == 'vec':
            self.unify(a['t'], t[1], gens, sub)

    def e_struct(self, st, e, fr, ex):
        segs = [s[0] for s in e['p']['segs']]
        c = self.ctor(fr, segs)
        if c is None:
            self.uns(f'struct literal {"::".join(segs)}', e, fr)
        head, var = c
        ta = ex[2] if ex and ex[0] == 'adt' and ex[1] == head else (fr.selfty[2] if fr.selfty and fr.selfty[0] == 'adt' and fr.selfty[1] == head else None)
        if ta is None:
            it = self.find_adt(head)
            ta = tuple(None for _ in it[0]['gen']) if it else ()
        d = adt_def(('adt', head, ta))
        fts = dict(d[1] if d[0] == 'struct' else dict(d[1])[var])
        names = [n for n, _ in e['fs']]
        es = [x for _, x in e['fs']]

        def f(s, vs):
            fields = dict(zip(names, vs))
            if e['rest'] is not None:
                def g(s2, base):
                    b = self.rv(s2, base)
                    allf = {n: (fields[n] if n in fields else b.f[n]) for n in fts}
                    return [(s2, 'val', VStruct(b.ty, allf))]
                return self.seq(self.eval(s, e['rest'], fr, ('adt', head, ta)), g)
            return [(s, 'val', self.build(head, var, fields, ex, fr))]
        return self.seq(self.eval_list(st, es, fr, [fts.get(n) for n in names]), f)

    def e_field(self, st, e, fr, ex):
        return self.seq(self.place(st, e, fr), lambda s, pl: [(s, 'val', self.load(s, *pl))])

    def e_index(self, st, e, fr, ex):
        return self.seq(self.place(st, e, fr), lambda s, pl: [(s, 'val', self.load(s, *pl))])

    def e_ref(self, st, e, fr, ex):
        if e['mut']:
            return self.seq(self.place(st, e['e'], fr), lambda s, pl: [(s, 'val', VRef(*pl))])
        return self.seq(self.eval(st, e['e'], fr, ex), lambda s, v: [(s, 'val', v if isinstance(v, VRef) else v)])

    def e_un(self, st, e, fr, ex):
        op = e['op']
        if op == '*':
            return self.seq(self.eval(st, e['e'], fr, ex), lambda s, v: [(s, 'val', self.deref(s, v))])
        def f(s, v):
            v = self.rv(s, v)
            if op == '!':
                if isinstance(v, VBool):
                    return [(s, 'val', VBool(z3.Not(v.z)))]
            if op == '-' and isinstance(v, VInt):
                return self.int_result(s, -v.z, v.t, 'neg', e)
            self.uns(f'unary {op} on {type(v).__name__}', e, fr)
        return self.seq(self.eval(st, e['e'], fr, ex), f)

    def int_result(self, st, z, t, what, e):
        rg = INT_RANGES.get(t)
        if rg is None:
            return [(st, 'val', VInt(z, t))]
        out = []
        for s, b in self.branch(st, z3.And(z >= rg[0], z <= rg[1])):
            if b:
                out.append((s, 'val', VInt(z, t)))
            else:
                out.append((s, 'panic', f'arithmetic overflow ({what}):{e.get("line")}'))
        return out

    def e_bin(self, st, e, fr, ex):
        op = e['op']
        if op in ('&&', '||'):
            return self.cond_bool(st, e, fr)
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            return self.opassign(st, e, fr)
        def f(s, vs):
            return self.binop(s, op, self.rv(s, vs[0]), self.rv(s, vs[1]), e, fr)
        return self.seq(self.eval_list(st, [e['l'], e['r']], fr), f)

    def cond_bool(self, st, e, fr):
        """&& and || with short-circuit; pure right operands stay symbolic"""
        op = e['op']
        out = []
        for s, k, l in self.eval(st, e['l'], fr):
            if k != 'val':
                out.append((s, k, l))
                continue
            l = self.rv(s, l)
            for s2, b in self.branch(s, l.z):
                if (op == '&&') != b:
                    out.append((s2, 'val', VBool(not (op == '&&'))))
                else:
                    out.extend(self.eval(s2, e['r'], fr))
        return self.merge(st, out)

    def opassign(self, st, e, fr):
        op = e['op'][:-1]
        out = []
        for s, k, r in self.eval(st, e['r'], fr):
            if k != 'val':
                out.append((s, k, r))
                continue
            for s2, k2, pl in self.place(s, e['l'], fr):
                if k2 != 'val':
                    out.append((s2, k2, pl))
                    continue
                cur = self.rv(s2, self.load(s2, *pl))
                def g(s3, v):
                    self.store(s3, *pl, v)
                    return [(s3, 'val', UNITV)]
                out.extend(self.seq(self.binop(s2, op, cur, self.rv(s2, r), e, fr), g))
        return out

    def binop(self, st, op, a, b, e, fr):
        if op in ('==', '!='):
            z = self.equal(st, a, b, fr)
            return [(st, 'val', VBool(z if op == '==' else z3.Not(z)))]
        if isinstance(a, VInt) and isinstance(b, VInt):
            t = a.t if a.t != 'int' else b.t
            if op in ('<', '<=', '>', '>='):
                z = {'<': a.z < b.z, '<=': a.z <= b.z, '>': a.z > b.z, '>=': a.z >= b.z}[op]
                return [(st, 'val', VBool(z))]
            if a.t == 'DateTime':
                t = 'TimeDelta' if op == '-' and b.t == 'DateTime' else 'DateTime'
            if op in ('+', '-', '*'):
                z = {'+': a.z + b.z, '-': a.z - b.z, '*': a.z * b.z}[op]
                return self.int_result(st, z, t, op, e)
            if op in ('/', '%'):
                out = []
                for s, nz in self.branch(st, b.z != 0):
                    if not nz:
                        out.append((s, 'panic', f'division by zero:{e.get("line")}'))
                        continue
                    q = tdiv(a.z, b.z)
                    out.append((s, 'val', VInt(q if op == '/' else a.z - q * b.z, t)))
                return out
        if isinstance(a, VBool) and isinstance(b, VBool) and op in ('&', '|', '^'):
            return [(st, 'val', VBool({'&': z3.And(a.z, b.z), '|': z3.Or(a.z, b.z), '^': z3.Xor(a.z, b.z)}[op]))]
        if isinstance(a, VStr) and isinstance(b, VStr) and op == '+':
            return [(st, 'val', VStr(a.parts + b.parts))]
        self.uns(f'{type(a).__name__} {op} {type(b).__name__}', e, fr)

    def custom_eq(self, t, seen=()):
        """does equality of this type involve a hand-written PartialEq?"""
        if t is None or t in seen:
            return False
        k = t[0]
        if k == 'adt':
            if (t[1], 'PartialEq') in self.p.trait_impls:
                return True
            memo = self.__dict__.setdefault('_ceq', {})
            if not seen and t in memo:
                return memo[t]
            sub = list(t[2])
            if t[1] not in BUILTIN_ADTS:
                d = adt_def(t)
                if d:
                    sub += [x for _, x in d[1]] if d[0] == 'struct' else [x for _, fs in d[1] for _, x in fs]
            r = any(self.custom_eq(x, seen + (t,)) for x in sub)
            if not seen:
                memo[t] = r
            return r
        if k in ('vec', 'set', 'map'):
            return any(self.custom_eq(x, seen) for x in t[1:])
        if k == 'tuple':
            return any(self.custom_eq(x, seen) for x in t[1])
        return False

    def equal(self, st, a, b, fr):
        # user-written PartialEq impls
        a, b = self.deref(st, a), self.deref(st, b)
        for x, y in ((a, b), (b, a)):
            t = x.ty
            if t and t[0] == 'adt' and (t[1], 'PartialEq') in self.p.trait_impls:
                f = [f for f in self.p.methods[t[1]].get('eq', []) if f.trait == 'PartialEq'][0]
                rs = self.call_fn(st.fork(), f, [x, y], None, None)
                v = self.pure_merge(st, rs)
                return v.z
        if self.custom_eq(a.ty) or self.custom_eq(b.ty):
            x, y = force(a), force(b)
            if isinstance(x, VTuple) and isinstance(y, VTuple):
                return z3.And([T] + [self.equal(st, p, q, fr) for p, q in zip(x.es, y.es)])
            if isinstance(x, VStruct) and isinstance(y, VStruct):
                return z3.And([T] + [self.equal(st, x.f[k], y.f[k], fr) for k in x.f])
            if isinstance(x, VEnum) and isinstance(y, VEnum):
                out = []
                for k in x.vs:
                    if k in y.vs:
                        cs = [x.vs[k][0], y.vs[k][0]]
                        if any(z3.is_false(z3.simplify(c)) for c in cs):
                            continue
                        pa, pb = x.vs[k][1], y.vs[k][1]
                        out.append(z3.And(cs + [self.equal(st, pa[f], pb[f], fr) for f in pa]))
                return z3.Or(out) if out else F
            if isinstance(x, VVec) and isinstance(y, VVec):
                if x.items is not None and y.items is not None:
                    return z3.And([z3.BoolVal(len(x.items) == len(y.items))] + [self.equal(st, p, q, fr) for p, q in zip(x.items, y.items)])
                i = z3.Int(f'e!{W.uid()}')
                return z3.And(x.n == y.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x.n), self.equal(st, x.get(i), y.get(i), fr))))
            raise Unsupported(f'equality of {tname(a.ty)} with a hand-written part')
        # serde_json::Value: PartialEq with text and booleans
        for x, y in ((a, b), (b, a)):
            x, y = force(x), force(y)
            if isinstance(y, VEnum) and y.ty[1] == 'serde_json::Value' and isinstance(x, (VStr, VBool)):
                var = 'String' if isinstance(x, VStr) else 'Bool'
                return z3.And(y.cond(var), x.z == y.vs[var][1]['0'].z) if var in y.vs else F
        z = eq(a, b)
        self.drain(st)
        return z

    def pure_merge(self, st, rs):
        m = self.merge(st, rs)
        if len(m) != 1 or m[0][1] != 'val':
            raise Unsupported('impure or partial pure call')
        return m[0][2]

    def e_assign(self, st, e, fr, ex):
        out = []
        if e['l']['k'] == 'infer' or (e['l']['k'] == 'path' and e['l']['p']['segs'][0][0] == '_'):
            return self.seq(self.eval(st, e['r'], fr), lambda s, v: [(s, 'val', UNITV)])
        # expected type from the current value of the place
        for s, k, r in self.eval(st, e['r'], fr, self.place_ty(st, e['l'], fr)):
            if k != 'val':
                out.append((s, k, r))
                continue
            l = e['l']
            if l['k'] == 'path' and len(l['p']['segs']) == 1:
                c = fr.env[l['p']['segs'][0][0]]
                s.cells[c] = r
                out.append((s, 'val', UNITV))
                continue
            for s2, k2, pl in self.place(s, l, fr):
                if k2 == 'val':
                    self.store(s2, pl[0], pl[1], r)
                    out.append((s2, 'val', UNITV))
                else:
                    out.append((s2, k2, pl))
        return out

    def place_ty(self, st, l, fr):
        try:
            rs = self.place(st.fork(), l, fr)
            v = self.load(rs[0][0], *rs[0][2])
            return v.ty
        except (Unsupported, KeyError, TypeError, IndexError, AttributeError):
            return None

    def e_cast(self, st, e, fr, ex):
        t = self.ty(fr, e['t'])
        def f(s, v):
            v = self.rv(s, v)
            if isinstance(v, VBool) and t[0] == 'int':
                return [(s, 'val', VInt(z3.If(v.z, 1, 0), t[1]))]
            if isinstance(v, VInt) and t[0] == 'int':
                rg = INT_RANGES.get(t[1])
                src = INT_RANGES.get(v.t)
                if rg is None or (src and rg[0] <= src[0] and src[1] <= rg[1]):
                    return [(s, 'val', VInt(v.z, t[1]))]
                w = rg[1] - rg[0] + 1
                z = v.z % w if rg[0] == 0 else ((v.z - rg[0]) % w) + rg[0]
                z = z3.If(z3.And(v.z >= rg[0], v.z <= rg[1]), v.z, z)
                return [(s, 'val', VInt(z, t[1]))]
            if t[0] == 'opaque' and isinstance(v, VInt):
                return [(s, 'val', app('castf', [v.z], t))]
            self.uns('cast', e, fr)
        return self.seq(self.eval(st, e['e'], fr, None), f)

    def e_range(self, st, e, fr, ex):
        es = [x for x in (e['lo'], e['hi']) if x is not None]
        def f(s, vs):
            vs = [self.rv(s, v) for v in vs]
            lo = vs.pop(0) if e['lo'] is not None else None
            hi = vs.pop(0) if e['hi'] is not None else None
            return [(s, 'val', VRange(lo, hi, e['incl']))]
        return self.seq(self.eval_list(st, es, fr), f)

    def e_closure(self, st, e, fr, ex):
        return [(st, 'val', VFn('closure', ast=e, fr=fr))]

    def e_return(self, st, e, fr, ex):
        if e['e'] is None:
            return [(st, 'ret', UNITV)]
        return [(s, 'ret' if k == 'val' else k, v) for s, k, v in self.eval(st, e['e'], fr, fr.rty)]

    def e_break(self, st, e, fr, ex):
        if e['e'] is None:
            return [(st, 'brk', (e['label'], UNITV))]
        return [(s, 'brk', (e['label'], v)) if k == 'val' else (s, k, v) for s, k, v in self.eval(st, e['e'], fr)]

    def e_continue(self, st, e, fr, ex):
        return [(st, 'cont', (e['label'],))]

    def e_try(self, st, e, fr, ex):
        ex2 = None
        if ex is not None and fr.rty is not None and fr.rty[0] == 'adt' and fr.rty[1] in ('Option', 'Result'):
            ex2 = ('adt', fr.rty[1], (ex,) + ((None,) if fr.rty[1] == 'Result' else ()))
        def f(s, v):
            v = self.rv(s, v)
            if not isinstance(v, VEnum):
                self.uns(f'? on {type(v).__name__}', e, fr)
            good = 'Some' if v.ty[1] == 'Option' else 'Ok'
            out = []
            for s2, b in self.branch(s, v.cond(good)):
                if b:
                    out.append((s2, 'val', v.vs[good][1]['0']))
                elif good == 'Some':
                    out.append((s2, 'ret', none()))
                else:
                    ev = v.vs['Err'][1]['0']
                    et = fr.rty[2][1] if fr.rty and fr.rty[0] == 'adt' and fr.rty[1] == 'Result' else None
                    out.append((s2, 'ret', err(self.convert_err(s2, ev, et, fr))))
            return out
        return self.seq(self.eval(st, e['e'], fr, ex2), f)

    def convert_err(self, st, ev, et, fr):
        if et is None or ev.ty == et or ev.ty is None:
            return ev
        if et[0] == 'adt' and (et[1], 'From') in self.p.trait_impls:
            for f in self.p.methods[et[1]].get('from', []):
                pt = self.ty(Frame(f, f.mod, et), f.ast['sig']['ins'][0]['t'])
                if pt == ev.ty:
                    rs = self.call_fn(st, f, [ev], None, None)
                    return self.pure_merge(st, rs)
        return self.fresh(et, 'err')

    def e_if(self, st, e, fr, ex):
        out = []
        for s, b, fr2, k, v in self.cond(st, e['c'], fr):
            if k != 'val':
                out.append((s, k, v))
            elif b:
                out.extend(self.block(s, e['t'], fr2, ex))
            elif e['f'] is not None:
                out.extend(self.eval(s, e['f'], fr, ex))
            else:
                out.append((s, 'val', UNITV))
        return self.merge(st, out)

    def cond(self, st, c, fr):
        """-> [(st, bool, frame-with-bindings, kind, val)]"""
        if c['k'] == 'let':
            out = []
            for s, k, v in self.scrutinee(st, c['e'], fr):
                if k != 'val':
                    out.append((s, None, fr, k, v))
                    continue
                for s2, m, env in self.match(s, c['p'], v, None, fr):
                    fr2 = fr
                    if m:
                        fr2 = fr.scope()
                        fr2.env.update(env)
                    out.append((s2, m, fr2, 'val', None))
            return out
        if c['k'] == 'bin' and c['op'] == '&&' and has_let(c):
            out = []
            for s, b, f1, k, v in self.cond(st, c['l'], fr):
                if k != 'val' or not b:
                    out.append((s, b, fr, k, v))
                else:
                    out.extend(self.cond(s, c['r'], f1))
            return out
        out = []
        for s, k, v in self.eval(st, c, fr):
            if k != 'val':
                out.append((s, None, fr, k, v))
                continue
            v = self.rv(s, v)
            for s2, b in self.branch(s, v.z):
                out.append((s2, b, fr, 'val', None))
        return out

    def scrutinee(self, st, e, fr):
        """match scrutinee: keep a mutable reference when matching on a reference variable"""
        return self.eval(st, e, fr)

    def e_match(self, st, e, fr, ex):
        out = []
        for s, k, v in self.scrutinee(st, e['e'], fr):
            if k != 'val':
                out.append((s, k, v))
                continue
            cur = [s]
            for arm in e['arms']:
                nxt = []
                for s1 in cur:
                    for s2, m, env in self.match(s1, arm['p'], v, None, fr):
                        if not m:
                            nxt.append(s2)
                            continue
                        fr2 = fr.scope()
                        fr2.env.update(env)
                        if arm['g'] is not None:
                            for s3, b, fr3, k3, v3 in self.cond(s2, arm['g'], fr2):
                                if k3 != 'val':
                                    out.append((s3, k3, v3))
                                elif b:
                                    out.extend(self.eval(s3, arm['b'], fr3, ex))
                                else:
                                    nxt.append(s3)
                        else:
                            out.extend(self.eval(s2, arm['b'], fr2, ex))
                cur = nxt
            for s1 in cur:
                if self.feasible(s1, T) and not self.exhausted(s1):
                    pass
        return self.merge(st, out)

    def exhausted(self, st):
        return True

    # ---------------------------------------------------------------- merging
    def merge(self, st0, rs):
        """join the 'val' outcomes of a statement into one state when they are mergeable"""
        vals = [r for r in rs if r[1] == 'val']
        if len(vals) < 2:
            return rs
        n0 = len(st0.pc)
        for s, _, _ in vals:
            if len(s.pc) < n0 or any(a is not b for a, b in zip(s.pc[:n0], st0.pc)):
                return rs
        try:
            g0 = vals[0][0].ghost
            for s, _, _ in vals[1:]:
                if not ghost_same(s.ghost, g0):
                    return rs
            conds = [z3.And(s.pc[n0:]) if len(s.pc) > n0 + 1 else (s.pc[n0] if len(s.pc) > n0 else T) for s, _, _ in vals]
            v = vals[-1][2]
            for (s, _, x), c in reversed(list(zip(vals[:-1], conds[:-1]))):
                v = self.join(s, c, x, v)
            ms = State(dict(), list(st0.pc), dict(g0))
            for cell in st0.cells:
                xs = [s.cells[cell] for s, _, _ in vals]
                x = xs[-1]
                if self.ctx and any(y is not x for y in xs) and len({pushes(y) for y in xs}) > 1:
                    return rs       # keep apart: the loop summary needs to see which path pushes
                for y, c in reversed(list(zip(xs[:-1], conds[:-1]))):
                    if y is not x:
                        x = ite(c, y, x)
                ms.cells[cell] = x
            # cells reachable from the merged value (references to new cells) are kept
            for s, _, _ in vals:
                for c, x in s.cells.items():
                    if c not in ms.cells:
                        ms.cells[c] = x
            ms.pc.append(z3.simplify(z3.Or(conds)) if not any(has_quant(c) for c in conds) else z3.Or(conds))
            if z3.is_true(ms.pc[-1]):
                ms.pc.pop()
            return [(ms, 'val', v)] + [r for r in rs if r[1] != 'val']
        except Unsupported:
            return rs

    def join(self, st, c, a, b):
        if isinstance(a, VRef) or isinstance(b, VRef):
            if same(a, b):
                return a
            raise Unsupported('merge refs')
        return ite(c, a, b)

    # ---------------------------------------------------------------- calls
    def e_call(self, st, e, fr, ex):
        f = e['f']
        if f['k'] == 'path':
            segs = [s[0] for s in f['p']['segs']]
            if not (len(segs) == 1 and segs[0] in fr.env):
                return self.call_path(st, f['p'], e['args'], fr, ex, e)
        def g(s, fv):
            return self.seq(self.eval_list(s, e['args'], fr), lambda s2, vs: self.call_value(s2, fv, vs, ex, fr))
        return self.seq(self.eval(st, f, fr), g)

    def call_path(self, st, p, argasts, fr, ex, e):
        segs = [s[0] for s in p['segs']]
        targs = [self.ty(fr, x) for x in (p['segs'][-1][1] or []) if x['k'] not in ('assoc', 'const')]
        c = self.ctor(fr, segs) if p['q'] is None else None
        if c is not None:
            head, var = c
            d = self.ctor_def(head, var)
            if d is None:
                self.uns(f'constructor {"::".join(segs)}', e, fr)
            ta = ex[2] if ex and ex[0] == 'adt' and ex[1] == head else None
            if ta is None and fr.selfty and fr.selfty[0] == 'adt' and fr.selfty[1] == head:
                ta = fr.selfty[2]
            dd = adt_def(('adt', head, ta if ta else (None, None, None)))
            fts = [t for _, t in (dd[1] if dd[0] == 'struct' else dict(dd[1])[var])]
            def f(s, vs):
                return [(s, 'val', self.build(head, var, {str(i): v for i, v in enumerate(vs)}, ex, fr))]
            return self.seq(self.eval_list(st, argasts, fr, fts), f)
        tgt = self.target(fr, p, segs)
        exps = None
        if isinstance(tgt, Fn):
            exps = self.param_tys(tgt, fr)
        def f(s, vs):
            return self.call_target(s, tgt, segs, vs, targs, ex, fr, e)
        return self.seq(self.eval_list(st, argasts, fr, exps), f)

    def param_tys(self, fn, fr):
        try:
            sty = self.self_ty(fn, None)
            tys = {g: None for g in fn.ast['sig']['gen']}
            f2 = Frame(fn, fn.mod, sty, {**tys, **{g: None for g in (fn.impl or {'gen': {}})['gen']}})
            return [(sty if i.get('self') else self.ty(f2, i['t'])) for i in fn.ast['sig']['ins']]
        except (Unsupported, KeyError):
            return None

    def target(self, fr, p, segs):
        """resolve a call path to Fn or a model key string"""
        if p['q'] is not None:
            t = self.ty(fr, p['q']['ty'])
            return self.assoc_fn(t, segs[-1], fr, segs) or '::'.join(segs[-2:])
        if segs[0] == 'Self' and len(segs) == 2:
            r = self.assoc_fn(fr.selfty, segs[1], fr, segs)
            if r is not None:
                return r
            return f'{tname(fr.selfty)}::{segs[1]}'
        if len(segs) >= 2 and segs[0] in fr.tys and fr.tys[segs[0]] is not None:
            r = self.assoc_fn(fr.tys[segs[0]], segs[1], fr, segs)
            if r is not None:
                return r
        r = self.p.resolve(fr.mod, segs)
        if r[0] == 'item' and r[2]['k'] == 'fn':
            fp = '::'.join(r[1])
            return self.p.fns.get(fp) or Fn(fp, r[3], r[2], file=r[3].file)
        if r[0] == 'assoc':
            it = r[2]
            if it['k'] == 'trait':
                return '::'.join(r[1][-1:] + tuple(r[4]))
            if it['k'] == 'type':
                t = self.ty(Frame(None, r[3]), it['t'])
            else:
                t = ('adt', '::'.join(r[1]), tuple(None for _ in it.get('gen', {})))
            a = self.assoc_fn(t, r[4][0], fr, segs)
            if a is not None:
                return a
            return f'{r[1][-1]}::{r[4][0]}'
        return r[1] if r[0] == 'ext' else '::'.join(segs)

    def assoc_fn(self, t, name, fr, segs):
        if t is None:
            return None
        if t[0] == 'adt':
            fs = self.p.methods.get(t[1], {}).get(name)
            if fs:
                return fs[0]
        if name == 'default':
            return ('default', t)
        return None

    def model_for(self, key):
        parts = key.split('::')
        for n in range(len(parts), 0, -1):
            k = '::'.join(parts[-n:])
            if k in self.fn_models:
                self.used_models.add(k)
                return self.fn_models[k]
        return None

    def call_target(self, st, tgt, segs, vs, targs, ex, fr, e):
        if isinstance(tgt, tuple) and tgt[0] == 'default':
            return [(st, 'val', self.default(st, tgt[1], fr))]
        if isinstance(tgt, Fn):
            return self.call_fn(st, tgt, vs, ex, fr, targs)
        m = self.model_for(tgt)
        if m is not None:
            rs = m(self, st, fr, vs, ex, targs)
            for s, _, _ in rs:
                self.drain(s)
            return rs
        # Type::method(receiver, args..) form
        name = segs[-1]
        if vs:
            return self.method(st, fr, name, vs[0], None, vs[1:], ex, targs, e)
        self.uns(f'call of {tgt}', e, fr)

    def self_ty(self, fn, recv_ty):
        if fn.selfty is None:
            return None
        if recv_ty is not None and recv_ty[0] == 'adt' and recv_ty[1] == self.p.type_head(fn.mod, fn.selfty):
            return recv_ty
        tys = {g: None for g in (fn.impl['gen'] if fn.impl else {})}
        return self.ty(Frame(None, fn.mod, None, tys), fn.selfty)

    def call_fn(self, st, fn, vs, ex, fr, targs=()):
        if any(isinstance(self.deref(st, v), (VMap, VVec)) and self.deref(st, v).items == [] for v in vs if not isinstance(v, VFn)):
            pts = self.param_tys(fn, fr) or [None] * len(vs)
            vs = [retype(v, t) if not isinstance(v, VRef) else v for v, t in zip(vs, pts)]
        if fn.path in self.contracts and not (fn.path == self.body_of and fn.path not in self.stack):
            rs = self.contracts[fn.path](self, st, fr, vs, ex, targs)
            if rs is not None:
                for s, _, _ in rs:
                    self.drain(s)
                return rs
        if self.stack.count(fn.path) >= 1:
            raise Unsupported(f'recursion in {fn.path} without a contract')
        self.inlined.add(fn.path)
        sig = fn.ast['sig']
        ins = sig['ins']
        recv_ty = None
        if ins and ins[0].get('self') and vs:
            recv_ty = self.deref(st, vs[0]).ty
        sty = self.self_ty(fn, recv_ty)
        tys = {}
        if fn.impl:
            for g in fn.impl['gen']:
                tys[g] = None
            if sty and sty[0] == 'adt' and fn.selfty['k'] == 'path':
                sub = {}
                self.unify(fn.selfty, sty, list(fn.impl['gen']), sub)
                tys.update(sub)
        for i, g in enumerate(sig['gen']):
            tys[g] = targs[i] if i < len(targs or ()) else None
            if tys[g] is None:
                b = sig['gen'][g]
                names = [x['segs'][-1][0] for x in b]
                if names and names[0] in ('Into', 'AsRef') and b[0]['segs'][-1][1]:
                    tys[g] = self.ty(Frame(fn, fn.mod, sty, tys), b[0]['segs'][-1][1][0])
        # infer type parameters from arguments
        for a, v in zip(ins, vs):
            if not a.get('self'):
                sub = {}
                vt = self.deref(st, v).ty if not isinstance(v, VFn) else None
                if vt is not None:
                    self.unify(a['t'], vt, [g for g in tys if tys[g] is None], sub)
                    for g, t in sub.items():
                        if tys.get(g) is None:
                            tys[g] = t
        for g in sig['gen']:
            if tys.get(g) is None and ex is not None and sig['out'] is not None:
                sub = {}
                self.unify(sig['out'], ex, [g], sub)
                tys.update({k: v for k, v in sub.items() if v is not None})
        env = {}
        nf = Frame(fn, fn.mod, sty, tys, env)
        try:
            nf.rty = self.ty(nf, sig['out']) if sig['out'] is not None else UNIT
        except Unsupported:
            nf.rty = ex
        rs0 = [(st, env)]
        saved = set(st.cells)
        binds = [st]
        for a, v in zip(ins, vs):
            if a.get('self'):
                env['self'] = self.new_cell(st, v)
            else:
                pt = a['t']
                if pt['k'] != 'ref' and isinstance(v, VRef) and not (pt['k'] == 'path'):
                    v = self.deref(st, v)
                ms = self.match(st, a['p'], v, None, nf)
                if len(ms) != 1 or not ms[0][1]:
                    raise Unsupported(f'parameter pattern of {fn.path}')
                env.update(ms[0][2])
        self.stack.append(fn.path)
        try:
            rs = self.block(st, fn.ast['body'], nf, nf.rty)
        finally:
            self.stack.pop()
        out = []
        for s, k, v in rs:
            if k == 'ret':
                k = 'val'
            out.append((s, k, v))
        return self.merge_call(st, out, saved)

    def merge_call(self, st, rs, saved):
        base = State({c: v for c, v in st.cells.items() if c in saved}, st.pc, st.ghost)
        # merging compares against the path condition at entry
        return self.merge(_Prefix(base, rs), rs)

    def call_value(self, st, f, vs, ex, fr):
        f = self.deref(st, f) if isinstance(f, VRef) else f
        if not isinstance(f, VFn):
            raise Unsupported(f'call of {type(f).__name__}')
        if f.kind == 'closure':
            nf = f.fr.scope()
            nf.rty = ex
            acc = [(st, True, {})]
            for p, v in zip(f.ast['ps'], vs):
                nxt = []
                for s, _, env in acc:
                    for s2, m, e2 in self.match(s, p, v, None, nf):
                        if m:
                            nxt.append((s2, True, {**env, **e2}))
                acc = nxt
            out = []
            for s, _, env in acc:
                fr2 = nf.scope()
                fr2.env.update(env)
                fr2.rty = ex
                for s2, k, v in self.eval(s, f.ast['body'], fr2, ex):
                    out.append((s2, 'val' if k == 'ret' else k, v))
            return self.merge(st, out) if len(acc) == 1 else out
        if f.kind == 'ctor':
            vs = [self.deref(st, v) for v in vs]
            return [(st, 'val', self.build(f.head, f.var, {str(i): v for i, v in enumerate(vs)}, ex, fr))]
        if f.kind == 'path':
            tgt = self.target(f.fr, f.ast, f.segs)
            targs = [self.ty(f.fr, x) for x in (f.ast['segs'][-1][1] or []) if x['k'] not in ('assoc', 'const')]
            return self.call_target(st, tgt, f.segs, vs, targs, ex, f.fr, {'line': 0})
        if f.kind == 'py':
            return f.call(st, vs)
        raise Unsupported('call ' + f.kind)

    # ---------------------------------------------------------------- methods
    def e_mcall(self, st, e, fr, ex):
        targs = [self.ty(fr, t) for t in (e['tf'] or [])]
        r = e['e']
        isplace = r['k'] in ('path', 'field', 'index') or (r['k'] == 'un' and r['op'] == '*')
        if r['k'] == 'path' and not (len(r['p']['segs']) == 1 and r['p']['segs'][0][0] in fr.env):
            isplace = False
        out = []
        rs = self.place(st, r, fr) if isplace else self.eval(st, r, fr)
        for s, k, x in rs:
            if k != 'val':
                out.append((s, k, x))
                continue
            pl = None
            if isplace:
                pl = x
                recv = self.load(s, *pl)
            else:
                recv = x
                if isinstance(recv, VRef):
                    pl = self.norm(s, (recv.cell, recv.path))
                    recv = self.load(s, *pl)
            exps = self.method_expects(s, recv, e['m'])
            for s2, k2, vs in self.eval_list(s, e['args'], fr, exps):
                if k2 != 'val':
                    out.append((s2, k2, vs))
                    continue
                if pl is not None:
                    recv = self.load(s2, *pl)
                out.extend(self.method(s2, fr, e['m'], recv, pl, vs, ex, targs, e))
        return out

    def method_expects(self, st, recv, name):
        t = recv.ty
        if t and t[0] == 'adt':
            fs = self.p.methods.get(t[1], {}).get(name)
            if fs:
                r = self.param_tys(fs[0], None)
                return r[1:] if r else None
            if t[1] == 'Option' and name in ('unwrap_or', 'insert', 'replace'):
                return [t[2][0]]
        if t and t[0] == 'vec' and name == 'push':
            return [t[1]]
        if t and t[0] == 'map' and name == 'insert':
            return [t[1], t[2]]
        return None

    def method(self, st, fr, name, recv, pl, vs, ex, targs, e):
        if isinstance(recv, VRef):
            pl = self.norm(st, (recv.cell, recv.path))
            recv = self.load(st, *pl)
        t = recv.ty
        # 1. methods defined in the repository
        if t and t[0] == 'adt' and t[1] in self.p.methods and name in self.p.methods[t[1]]:
            fs = self.p.methods[t[1]][name]
            fn = fs[0]
            if len(fs) > 1 and fr is not None:
                inh = [f for f in fs if f.trait is None]
                if inh:
                    fn = inh[0]
                else:
                    c = [f for f in fs if f.trait in fr.mod.uses]
                    if len(c) != 1:
                        self.uns(f'ambiguous method {name}', e, fr)
                    fn = c[0]
            sig = fn.ast['sig']
            if sig['ins'] and sig['ins'][0].get('self'):
                s0 = sig['ins'][0]
                if (s0['ref'] and s0['mut']) or (not s0['ref'] and fn.selfty is not None and fn.selfty['k'] == 'ref' and fn.selfty.get('mut')):
                    if pl is None:
                        pl = (self.new_cell(st, recv), ())
                    me = VRef(*pl)
                else:
                    me = recv
                return self.call_fn(st, fn, [me] + vs, ex, fr, targs)
        # 2. trait-bounded parameters: provider models
        if t and t[0] == 'param':
            for tr in self.trait_closure(t[2]):
                k = f'{tr.split("::")[-1]}::{name}'
                m = self.model_for(k)
                if m is not None:
                    rs = m(self, st, fr, [recv] + vs, ex, targs)
                    for s, _, _ in rs:
                        self.drain(s)
                    return rs
        recv2 = force(recv)
        # 3. built-in models
        for head in self.heads(recv2):
            m = self.m_models.get((head, name))
            if m is not None:
                self.used_models.add(f'{head}.{name}')
                rs = m(self, st, fr, recv2, pl, vs, ex, targs)
                for s, _, _ in rs:
                    self.drain(s)
                return rs
        # 4. Deref to an inner repository type
        if isinstance(recv2, VStruct) and recv2.ty[0] == 'adt' and 'deref' in self.p.methods.get(recv2.ty[1], {}):
            p2 = self.field_path(st, recv2, '\0none', pl[1] if pl else (), fr, e) if False else None
            fn = self.p.methods[recv2.ty[1]]['deref'][0]
            b = fn.ast['body'][-1]['e']
            if b['k'] == 'ref' and b['e']['k'] == 'field':
                f0 = b['e']['m']
                return self.method(st, fr, name, recv2.f[f0], (pl[0], pl[1] + (('f', f0),)) if pl else None, vs, ex, targs, e)
        self.uns(f'method {name} on {type(recv2).__name__} {tname(t) if t else ""}', e, fr)

    def trait_closure(self, names):
        seen, todo = [], list(names)
        while todo:
            n = todo.pop(0)
            if n in seen:
                continue
            seen.append(n)
            segs = tuple(n.split('::'))
            m = self.p.mods.get(segs[:-1])
            it = m.items.get(segs[-1]) if m else None
            if it and it['k'] == 'trait':
                for b in it['super']:
                    todo.append(self.trait_name(Frame(None, m), b))
        return seen

    def heads(self, v):
        c = type(v).__name__
        out = []
        if isinstance(v, VEnum):
            out.append(v.ty[1])
        if isinstance(v, VInt):
            out.append(v.t)
        if isinstance(v, (VTerm, VStruct)) and v.ty:
            out.append(tname(v.ty))
            out.append(v.ty[1] if len(v.ty) > 1 and isinstance(v.ty[1], str) else '')
        if isinstance(v, VOpaque):
            out.append(v.tag)
        return out + [c, '*']

    # ---------------------------------------------------------------- defaults
    def default(self, st, t, fr):
        if t is None:
            raise Unsupported('default of unknown type')
        k = t[0]
        if k == 'bool': return VBool(False)
        if k == 'int': return VInt(0, t[1])
        if k == 'str': return VStr('')
        if k == 'vec': return VVec.of([], t[1])
        if k == 'map': return self.empty_map(t[1], t[2])
        if k == 'set': return VSet(t[1], lambda q: F)
        if k == 'tuple': return VTuple([self.default(st, x, fr) for x in t[1]])
        if k == 'adt':
            if t[1] == 'Option': return none(t[2][0])
            if t[1] == 'serde_json::Value': return VEnum(t, {'Null': (T, {})})
            if (t[1], 'Default') in self.p.trait_impls:
                f = [f for f in self.p.methods[t[1]]['default'] if f.trait == 'Default'][0]
                fr2 = Frame(f, f.mod, t)
                tys = {}
                self.unify(f.selfty, t, list(f.impl['gen']), tys)
                f2 = Frame(f, f.mod, t, tys, {}, t)
                rs = self.block(st.fork(), f.ast['body'], f2, t)
                return rs[0][2]
            it = self.find_adt(t[1])
            if it:
                ast, mod = it
                if not any('Default' in a for a in ast['attrs']):
                    raise Unsupported(f'no Default for {t[1]}')
                d = self.adt(t)
                if d[0] == 'struct':
                    return VStruct(t, LazyDict({n: (lambda x=x: self.default(st, x, fr)) for n, x in d[1]}))
                for v in ast['vs']:
                    if 'default' in v['attrs']:
                        return VEnum(t, {v['name']: (T, {})})
        if k == 'opaque':
            return VTerm(z3.Const(f'default:{t[1]}', U), t)
        raise Unsupported(f'default of {t}')

    def empty_map(self, k=None, v=None):
        def at(q):
            raise Unsupported('value of empty map')
        m = VMap(k or STR, v, lambda q: F, at, n=z3.IntVal(0), key=lambda i: z3.Const('nokey', sort_of(k or STR)), items=[])
        return m

    # ---------------------------------------------------------------- closures over indices
    def lam(self, st, n, guard, fun, hint='x'):
        """evaluate fun(st, k) -> outcomes at a symbolic index; returns (value at index function, extra outcomes)
        The result is exact: value(i) is the merged outcome with k replaced by i."""
        k = self.fresh_idx('ix')
        s = st.fork()
        s.add(k >= 0, k < n)
        if guard is not None:
            s.add(guard(k))
        self.ctx.append(k)
        try:
            base = s.fork()
            rs = fun(s, k)
        finally:
            self.ctx.pop()
        if not rs:
            # unreachable body (no elements)
            return None, [], k
        panics = [(s2, kk, v) for s2, kk, v in rs if kk == 'panic']
        vals = [(s2, kk, v) for s2, kk, v in rs if kk == 'val']
        if any(kk not in ('panic', 'val') for _, kk, _ in rs):
            raise Unsupported('control flow out of an iterator closure')
        for s2, _, _ in vals:
            for c in base.cells:
                if s2.cells.get(c) is not base.cells[c] and not same(s2.cells[c], base.cells[c]):
                    raise Unsupported('iterator closure with side effects')
            if not ghost_same(s2.ghost, base.ghost):
                raise Unsupported('iterator closure with ghost effects')
        n0 = len(base.pc)
        conds = [z3.And(s2.pc[n0:]) if len(s2.pc) > n0 else T for s2, _, _ in vals]
        if not vals:
            v = None
        else:
            v = vals[-1][2]
            v = self.deref(vals[-1][0], v)
            for (s2, _, x), c in reversed(list(zip(vals[:-1], conds[:-1]))):
                v = ite(c, self.deref(s2, x), v)
        j = z3.Int(f'j!{W.uid()}')
        anyc = z3.Or(conds) if conds else F
        if not z3.is_true(z3.simplify(anyc)) if not has_quant(anyc) else True:
            g = z3.And(j >= 0, j < n, guard(j) if guard is not None else T)
            if not panics:
                st.add(z3.ForAll([j], z3.Implies(g, z3.substitute(anyc, (k, j)))))
        extra = []
        for s2, kk, x in panics:
            extra.append((s2, kk, x))
        if panics and vals:
            g = z3.And(j >= 0, j < n, guard(j) if guard is not None else T)
            st.add(z3.ForAll([j], z3.Implies(g, z3.substitute(anyc, (k, j)))))
        return (lambda i: subst(v, [(k, i if z3.is_expr(i) else z3.IntVal(i))])) if v is not None else None, extra, k

    # ---------------------------------------------------------------- loops
    def to_iter(self, st, v, fr, e=None):
        """value -> VIter (and the place of the container for iter_mut)"""
        if isinstance(v, VIter):
            return v
        x = self.rv(st, v)
        if isinstance(x, VIter):
            return x
        if isinstance(v, VRef) and isinstance(x, VVec):
            c, p = self.norm(st, (v.cell, v.path))
            return VIter(x.n, lambda i: VRef(c, p + (('i', i),)), None, None)
        if isinstance(x, VVec):
            it = VIter(x.n, x.get, None, x.ety)
            it.items = x.items
            return it
        if isinstance(x, VRange):
            lo = x.lo.z
            if x.hi is None:
                raise Unsupported('unbounded range')
            hi = x.hi.z + 1 if x.incl else x.hi.z
            n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            t = x.lo.t if x.lo.t != 'int' else x.hi.t
            return VIter(n, lambda i: VInt(z3.simplify(lo + i), t), None, ('int', t))
        if isinstance(x, VMap):
            st.add(*x.enum())
            kv = x
            return VIter(x.n, lambda i: VTuple([wrap(kv.kty, kv.key(i)), kv.at(kv.key(i))]), None, ('tuple', (x.kty, x.vty)))
        if isinstance(x, VEnum) and x.ty[1] == 'Option':
            c = x.cond('Some')
            return VIter(z3.If(c, z3.IntVal(1), z3.IntVal(0)), lambda i: x.vs['Some'][1]['0'], None, x.ty[2][0])
        self.uns(f'iteration over {type(x).__name__} {x.ty}', e, fr)

    def e_for(self, st, e, fr, ex):
        def f(s, v):
            it = self.to_iter(s, v, fr, e)
            def body(s1, k):
                return self.for_body(s1, e, fr, it.get(k))
            items = getattr(it, 'items', None)
            if items is not None and len(items) <= 8 and it.guard is None:
                return self.unroll(s, [(lambda s1, x=x: self.for_body(s1, e, fr, x)) for x in items], e['label'])
            return self.loop(s, fr, it.n, it.guard, body, e['label'], e)
        return self.seq(self.eval(st, e['e'], fr), f)

    def for_body(self, st, e, fr, x):
        out = []
        for s, m, env in self.match(st, e['p'], x, None, fr):
            if not m:
                raise Unsupported('refutable for pattern')
            fr2 = fr.scope()
            fr2.env.update(env)
            out.extend(self.block(s, e['b'], fr2))
        return out

    def unroll(self, st, bodies, label):
        rs = [(st, 'val', UNITV)]
        done = []
        for b in bodies:
            nxt = []
            for s, _, _ in rs:
                for s2, k, v in b(s):
                    if k == 'val' or (k == 'cont' and v[0] in (None, label)):
                        nxt.append((s2, 'val', UNITV))
                    elif k == 'brk' and v[0] in (None, label):
                        done.append((s2, 'val', UNITV))
                    else:
                        done.append((s2, k, v))
            rs = self.merge(st, nxt) if len(nxt) > 1 else nxt
        return rs + done

    def e_while(self, st, e, fr, ex):
        def body(s, k):
            out = []
            for s1, b, fr2, kd, v in self.cond(s, e['c'], fr):
                if kd != 'val':
                    out.append((s1, kd, v))
                elif b:
                    out.extend(self.block(s1, e['b'], fr2))
                else:
                    out.append((s1, 'brk', (None, UNITV)))
            return out
        return self.loop(st, fr, None, None, body, e['label'], e)

    def e_loop(self, st, e, fr, ex):
        return self.loop(st, fr, None, None, lambda s, k: self.block(s, e['b'], fr), e['label'], e)

    def loop(self, st, fr, n, guard, body, label, e):
        """exact summary of a loop (see DESIGN.md).  n: number of iterations (None: unknown)"""
        def classify(rs):
            cont, exits = [], []
            for s, k, v in rs:
                if k == 'val' or (k == 'cont' and v[0] in (None, label)):
                    cont.append(s)
                else:
                    exits.append((s, k, v))
            return cont, exits

        def run(s0, k, facts):
            s = s0.fork()
            s.add(k >= 0)
            if n is not None:
                s.add(k < n)
            if guard is not None:
                s.add(guard(k))
            s.add(*facts)
            self.ctx.append(k)
            self.in_loops += 1
            try:
                tick(s, 'it')
                base = len(s.pc)
                cells0 = dict(s.cells)
                ghost0 = dict(s.ghost)
                rs = body(s, k)
            finally:
                self.ctx.pop()
                self.in_loops -= 1
            return rs, base, cells0, ghost0

        k = self.fresh_idx('it')
        accs = {}   # (cell, fields) -> accumulator description
        ticks = False   # does the clock advance in an iteration that continues
        def tick(s, suffix):
            if ticks and 'clock' in s.ghost:
                t = self.fresh(('int', 'int'), 'now_' + suffix).z
                s.add(t >= s.ghost['clock'])
                if suffix == 'it':
                    began.append(t >= s.ghost['clock'])
                s.ghost['clock'] = t
        began = []      # when the iterations began
        ticked = False
        for attempt in range(6):
            s0 = st.fork()
            for (c, p), a in accs.items():
                s0.cells[c] = put_in(s0.cells[c], p, a['val'](k))
            rs, base, cells0, ghost0 = run(s0, k, [])
            cont, exits = classify(rs)
            new = {}
            for s in cont:
                ticks = ticks or s.ghost.get('clock') is not ghost0.get('clock')
                if not ghost_same({**s.ghost, **QUIET}, {**ghost0, **QUIET}):
                    raise Unsupported('loop with effects on the ghost state')
                for c in cells0:
                    if c in st.cells and s.cells[c] is not cells0[c] and not same(s.cells[c], cells0[c]):
                        for p, o in changes(cells0[c], s.cells[c], ()):
                            if not any(c2 == c and p[:len(p2)] == p2 for c2, p2 in accs):
                                new.setdefault((c, p), []).append(o)
            new = {(c, p): o for (c, p), o in new.items() if not any(c2 == c and p2 != p and p[:len(p2)] == p2 for c2, p2 in new)}
            if not new and not (ticks and not ticked):
                break
            ticked = ticks
            for (c, p), outs in new.items():
                accs = {(c2, p2): a for (c2, p2), a in accs.items() if not (c2 == c and p2[:len(p)] == p)}
                accs[(c, p)] = self.make_acc(get_in(st.cells[c], p), outs)
        else:
            raise Unsupported('loop accumulators do not stabilise')

        if began:
            j = z3.Int(f'j!{W.uid()}')
            b = z3.substitute(began[-1], (k, j))
            st.add(z3.ForAll([j], b, patterns=[b.arg(0)]) if occurs(began[-1], k.decl().name()) else b)

        # continue condition as a function of the index
        def cut(s):
            fs = s.pc[base:]
            return z3.And(fs) if len(fs) > 1 else (fs[0] if fs else T)
        conds = [cut(s) for s in cont]
        C = z3.Or(conds) if len(conds) > 1 else (conds[0] if conds else F)

        def C_at(j):
            c = z3.substitute(C, (k, j))
            return z3.Implies(guard(j), c) if guard is not None else c

        finals = {}
        for c, a in accs.items():
            finals[c] = self.summarise(get_in(st.cells[c[0]], c[1]), a, cont, conds, c, k, guard)
        for c, a in accs.items():
            # closed forms for accumulators read inside the body
            for fct in finals[c]['facts']:
                st.add(fct)

        def all_before(m):
            j = z3.Int(f'j!{W.uid()}')
            if z3.is_true(z3.simplify(C)) if not has_quant(C) else False:
                return T
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), C_at(j)))

        out = []
        # 1. leave the loop at iteration k
        if exits:
            s0 = st.fork()
            for c in accs:
                v, facts = finals[c]['at'](k)
                s0.add(*facts)
                s0.cells[c[0]] = put_in(s0.cells[c[0]], c[1], v)
            s0.add(all_before(k))
            if accs:
                rs2, base2, _, _ = run(s0, k, [])
                _, exits2 = classify(rs2)
            else:
                exits2 = []
                for s, kd, v in exits:
                    s2 = State(s.cells, s0.pc + s.pc[base - (base - len(st.pc)):] if False else s.pc + [all_before(k)], s.ghost)
                    exits2.append((s2, kd, v))
            for s, kd, v in exits2:
                if kd == 'brk' and v[0] in (None, label):
                    out.append((s, 'val', v[1]))
                else:
                    out.append((s, kd, v))
        # 2. run to completion
        if n is not None:
            s = st.fork()
            for c in accs:
                v, facts = finals[c]['at'](n)
                s.add(*facts)
                s.cells[c[0]] = put_in(s.cells[c[0]], c[1], v)
            tick(s, 'end')
            ab = all_before(n)
            s.add(ab)
            if cont or self.feasible(s, n <= 0):
                if not cont:
                    s.add(n <= 0)
                out.append((s, 'val', UNITV))
        return out

    def make_acc(self, v0, outs):
        t = v0.ty
        def known(x):
            return x is not None and (x[0] not in ('vec', 'set') or x[1] is not None) and (x[0] != 'map' or x[2] is not None) and \
                (x[0] != 'adt' or all(y is not None for y in x[2]))
        if not known(t):
            for o in outs:
                if known(o.ty):
                    t = o.ty
                    break
        if t is not None and t[0] == 'int' and t[1] == 'int':
            for o in outs:
                if isinstance(o, VInt):
                    t = o.ty
        nm = f'acc{W.uid()}'
        ctx = list(self.ctx)
        memo = {}
        def val(k):
            key = k.sexpr()
            if key not in memo:
                x = app(nm, ctx + [k], t)
                if isinstance(x, VVec):
                    x.base = None
                memo[key] = x
            return memo[key]
        if t is None or t[0] in ('ref', 'fn', 'iter', 'range'):
            raise Unsupported('loop-carried value of unknown type')
        if t[0] == 'opaque' and isinstance(v0, VOpaque):
            raise Unsupported('loop-carried opaque value')
        return {'val': val, 'name': nm, 'ty': t}

    def summarise(self, v0, a, cont, conds, cell, k, guard):
        acc = a['val'](k)
        outs = [get_in(s.cells[cell[0]], cell[1]) for s in cont]
        nm = a['name']
        def mentions(x):
            ls = []
            leaves(x, ls)
            return any(occurs(l, nm) for l in ls)
        cond_mentions = any(occurs(c, nm) for c in conds)
        changed = [not same(o, acc) and o is not acc for o in outs]
        gd = (lambda j: guard(j)) if guard is not None else (lambda j: T)
        always = all(changed) and guard is None
        def condz(j):
            cs = [c for c, ch in zip(conds, changed) if ch]
            return z3.And(gd(j), z3.substitute(z3.Or(cs) if len(cs) > 1 else cs[0], (k, j)))
        def pick(sel):
            xs = [(c, sel(o)) for o, c, ch in zip(outs, conds, changed) if ch]
            v = xs[-1][1]
            for c, x in reversed(xs[:-1]):
                v = ite(c, x, v)
            return v
        ctx = list(self.ctx)
        # --- vector pushes
        if isinstance(acc, VVec) and all((not ch) or (isinstance(o, VVec) and o.base is acc and len(o.appended) == 1) for o, ch in zip(outs, changed)):
            x = pick(lambda o: o.appended[0])
            if not mentions(x):
                n0, g0, ety = v0.n, v0, v0.ety or x.ty
                if always:
                    def at(m):
                        mm = z3.If(m > 0, m, z3.IntVal(0))
                        get = (lambda i: subst(x, [(k, z3.simplify(i - n0))])) if v0.items == [] else \
                            (lambda i: ite(i < n0, g0.get(i), subst(x, [(k, i - n0)])))
                        return VVec(z3.simplify(n0 + mm), get, ety), []
                    j = z3.Int(f'j!{W.uid()}')
                    an = a['val'](j).n
                    return {'at': at, 'facts': [z3.ForAll([j], z3.Implies(j >= 0, an == n0 + j), patterns=[an])]}
                if not cond_mentions:
                    def at(m):
                        u = W.uid()
                        cnt = app(f'cnt{u}', ctx, ('int', 'int')).z
                        sf = lambda i: app(f'src{u}', ctx + [i], ('int', 'int')).z
                        df = lambda i: app(f'dst{u}', ctx + [i], ('int', 'int')).z
                        i, j = z3.Int(f'i!{u}'), z3.Int(f'j!{u}')
                        mm = z3.If(m > 0, m, z3.IntVal(0))
                        facts = [cnt >= 0, cnt <= mm,
                                 z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt), z3.And(0 <= sf(i), sf(i) < mm, condz(sf(i)), df(sf(i)) == i)), patterns=[sf(i)]),
                                 z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt), sf(i) < sf(j)), patterns=[z3.MultiPattern(sf(i), sf(j))]),
                                 z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < mm, condz(j)), z3.And(0 <= df(j), df(j) < cnt, sf(df(j)) == j)))]
                        get = (lambda q: subst(x, [(k, sf(z3.simplify(q - n0)))])) if v0.items == [] else \
                            (lambda q: ite(q < n0, g0.get(q), subst(x, [(k, sf(q - n0))])))
                        return VVec(z3.simplify(n0 + cnt), get, ety), facts
                    return {'at': at, 'facts': []}
        # --- pushes on an optional vector, made by the first push
        if always and outs and all(getattr(o, 'opt_push', (None,))[0] is acc for o in outs):
            x = pick(lambda o: o.opt_push[1])
            f0 = force(v0)
            old = force(f0.vs['Some'][1]['0']) if 'Some' in f0.vs else None
            if not mentions(x):
                n0 = z3.If(f0.cond('Some'), old.n, z3.IntVal(0)) if old is not None else z3.IntVal(0)
                def at(m):
                    get = (lambda i: subst(x, [(k, i)])) if old is None else (lambda i: ite(i < n0, old.get(i), subst(x, [(k, i - n0)])))
                    some_ = z3.Or(f0.cond('Some'), m > 0)
                    return VEnum(a['ty'], {'None': (z3.Not(some_), {}), 'Some': (some_, {'0': VVec(z3.simplify(n0 + z3.If(m > 0, m, z3.IntVal(0))), get, x.ty)})}), []
                return {'at': at, 'facts': []}
        # --- map inserts
        if isinstance(acc, VMap) and all((not ch) or (isinstance(o, VMap) and o.base is acc and len(o.ins) == 1) for o, ch in zip(outs, changed)):
            kx = [(c, o.ins[0][0]) for o, c, ch in zip(outs, conds, changed) if ch]
            kt = kx[-1][1]
            for c, x in reversed(kx[:-1]):
                kt = z3.If(c, x, kt)
            x = pick(lambda o: o.ins[0][1])
            if always and cond_mentions and not mentions(x) and not occurs(kt, nm) and v0.kty is not None:
                # every iteration that continues inserts: closed form of the accumulator at every index
                u = W.uid()
                ks = sort_of(v0.kty)
                keyat = lambda j: z3.substitute(kt, (k, j))
                wf = lambda m, q: app(f'last{u}', ctx + [m, q], ('int', 'int')).z
                hit = lambda m, q: z3.And(0 <= wf(m, q), wf(m, q) < m, keyat(wf(m, q)) == q)
                m_, q_, j_ = z3.Int(f'm!{u}'), z3.Const(f'q!{u}', ks), z3.Int(f'j!{u}')
                am = a['val'](m_)
                facts = [z3.ForAll([m_, q_], z3.Implies(m_ >= 0, am.has(q_) == z3.Or(v0.has(q_), hit(m_, q_))), patterns=[am.has(q_)]),
                         z3.ForAll([m_, j_], z3.Implies(z3.And(0 <= j_, j_ < m_), z3.And(hit(m_, keyat(j_)), wf(m_, keyat(j_)) >= j_)), patterns=[wf(m_, keyat(j_))])]
                def at(m):
                    mm = z3.If(m > 0, m, z3.IntVal(0))
                    f2 = [z3.ForAll([j_], z3.Implies(z3.And(0 <= j_, j_ < mm), z3.And(hit(mm, keyat(j_)), wf(mm, keyat(j_)) >= j_)))]
                    def atv(q):
                        y = subst(x, [(k, wf(mm, q))])
                        return y if v0.items == [] else ite(hit(mm, q), y, v0.at(q))
                    return VMap(v0.kty, v0.vty or x.ty, lambda q: z3.Or(v0.has(q), hit(mm, q)), atv), f2
                return {'at': at, 'facts': facts}
            if not mentions(x) and not occurs(kt, nm) and not cond_mentions:
                def at(m):
                    u = W.uid()
                    wf = lambda q: app(f'last{u}', ctx + [q], ('int', 'int')).z
                    keyat = lambda j: z3.substitute(kt, (k, j))
                    mm = z3.If(m > 0, m, z3.IntVal(0))
                    hit = lambda q: z3.And(0 <= wf(q), wf(q) < mm, condz(wf(q)), keyat(wf(q)) == q)
                    j = z3.Int(f'j!{u}')
                    facts = [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < mm, condz(j)), z3.And(hit(keyat(j)), wf(keyat(j)) >= j)))]
                    def atv(q):
                        y = subst(x, [(k, wf(q))])
                        return y if v0.items == [] else ite(hit(q), y, v0.at(q))
                    r = VMap(v0.kty, v0.vty or x.ty, lambda q: z3.Or(v0.has(q), hit(q)), atv)
                    if v0.base is None:
                        r.base, r.bulk = v0, (mm, condz, keyat, lambda j: subst(x, [(k, j)]))
                    return r, facts
                return {'at': at, 'facts': []}
        # --- map inserts by an inner loop
        ch = [o for o, c_ in zip(outs, changed) if c_]
        if isinstance(acc, VMap) and len(ch) == 1 and getattr(ch[0], 'bulk', None) and ch[0].base is acc and not cond_mentions:
            bn, bcond, bkey, bx = ch[0].bulk
            kk = z3.Int(f'k!{W.uid()}')
            if not any(occurs(f, nm) for f in (bn, bcond(kk), bkey(kk))) and not mentions(bx(kk)):
                def at(m):
                    u = W.uid()
                    wo = lambda q: app(f'lasto{u}', ctx + [q], ('int', 'int')).z
                    wi = lambda q: app(f'lasti{u}', ctx + [q], ('int', 'int')).z
                    mm = z3.If(m > 0, m, z3.IntVal(0))
                    sb = lambda f, j: z3.substitute(f, (k, j))
                    there = lambda jo, ji: z3.And(0 <= jo, jo < mm, condz(jo), 0 <= ji, ji < sb(bn, jo), sb(bcond(ji), jo))
                    hit = lambda q: z3.And(there(wo(q), wi(q)), sb(bkey(wi(q)), wo(q)) == q)
                    jo, ji = z3.Int(f'jo!{u}'), z3.Int(f'ji!{u}')
                    key = sb(bkey(ji), jo)
                    facts = [z3.ForAll([jo, ji], z3.Implies(there(jo, ji), z3.And(hit(key), z3.Or(wo(key) > jo, z3.And(wo(key) == jo, wi(key) >= ji)))))]
                    def atv(q):
                        y = subst(bx(wi(q)), [(k, wo(q))])
                        return y if v0.items == [] else ite(hit(q), y, v0.at(q))
                    return VMap(v0.kty, v0.vty or acc.vty, lambda q: z3.Or(v0.has(q), hit(q)), atv), facts
                return {'at': at, 'facts': []}
        # --- counters
        if isinstance(acc, VInt) and all(isinstance(o, VInt) for o in outs):
            d = [z3.simplify(o.z - acc.z) for o in outs]
            if all(z3.is_int_value(x) for x in d) and len({x.as_long() for x in d}) == 1 and guard is None:
                step = d[0].as_long()
                j = z3.Int(f'j!{W.uid()}')
                aj = a['val'](j).z
                return {'at': lambda m: (VInt(v0.z + step * z3.If(m > 0, m, z3.IntVal(0)), acc.t), []),
                        'facts': [z3.ForAll([j], z3.Implies(j >= 0, aj == v0.z + step * j), patterns=[aj])]}
        # --- text built one character per iteration
        if isinstance(acc, VStr) and always and not cond_mentions and v0.const() == '' and \
                all(isinstance(o, VStr) and len(o.parts) == 2 and not isinstance(o.parts[0], str) and o.parts[0].eq(acc.z) for o in outs):
            def char_of(p):
                if isinstance(p, str):
                    return z3.IntVal(ord(p)) if len(p) == 1 else None
                return p.arg(0) if z3.is_app(p) and p.decl().name() == 'chr2str' else None
            cs = [char_of(o.parts[1]) for o in outs]
            if all(c is not None and not occurs(c, nm) for c in cs):
                x = pick(lambda o: VInt(char_of(o.parts[1]), 'char'))
                def at(m):
                    t = self.fresh(STR, 'strcollect')
                    v = app('chars', [t.z], ('vec', ('int', 'char')))
                    j = z3.Int(f'j!{W.uid()}')
                    mm = z3.If(m > 0, m, z3.IntVal(0))
                    return t, [v.n == mm, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < mm), v.get(j).z == subst(x, [(k, j)]).z))]
                return {'at': at, 'facts': []}
        # --- plain overwrites (last write wins)
        try:
            x = pick(lambda o: o)
            if not mentions(x) and not cond_mentions:
                def at(m):
                    u = W.uid()
                    if always:
                        return ite(m > 0, subst(x, [(k, m - 1)]), v0), []
                    lw = app(f'lastw{u}', ctx, ('int', 'int')).z
                    j = z3.Int(f'j!{u}')
                    facts = [z3.Or(z3.And(lw == -1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Not(condz(j))))),
                                   z3.And(0 <= lw, lw < m, condz(lw), z3.ForAll([j], z3.Implies(z3.And(lw < j, j < m), z3.Not(condz(j))))))]
                    return ite(lw >= 0, subst(x, [(k, lw)]), v0), facts
                return {'at': at, 'facts': []}
        except Unsupported:
            pass
        # --- havoc (sound over-approximation); nothing is known about the final value
        t = a['ty']
        def at(m):
            return ite(m > 0, self.fresh(t, 'any' if any(x in str(t) for x in self.any_types) else 'hav'), v0), []
        return {'at': at, 'facts': []}

    # ---------------------------------------------------------------- macros
    def e_macro(self, st, e, fr, ex):
        m = self.macro_models.get(e['name'])
        if m is None:
            self.uns(f'macro {e["name"]}!', e, fr)
        return m(self, st, e, fr, ex)


def changes(a, b, path):
    """the fields in which a value differs: [(path, new value)]"""
    if isinstance(a, (VTerm, VStruct)) and isinstance(b, VStruct) and a.ty == b.ty and a.ty and a.ty[0] == 'adt':
        fa = force(a)
        if isinstance(fa, VStruct) and set(fa.f) == set(b.f):
            return [x for n in b.f if b.f[n] is not fa.f[n] and not same(b.f[n], fa.f[n]) for x in changes(fa.f[n], b.f[n], path + (n,))]
    return [(path, b)]


def get_in(v, path):
    for n in path:
        v = force(v).f[n]
    return v


def put_in(v, path, x):
    if not path:
        return x
    v = force(v)
    return VStruct(v.ty, {**dict(v.f.items()), path[0]: put_in(v.f[path[0]], path[1:], x)})


class _Prefix:
    """view of a state used as the merge base for a call"""
    def __init__(self, base, rs):
        n = None
        for s, k, _ in rs:
            if k == 'val':
                m = 0
                for a, b in zip(s.pc, base.pc):
                    if a is not b:
                        break
                    m += 1
                n = m if n is None else min(n, m)
        # common prefix of all outcomes
        vals = [s for s, k, _ in rs if k == 'val']
        if vals:
            first = vals[0].pc
            m = len(first)
            for s in vals[1:]:
                i = 0
                while i < m and i < len(s.pc) and s.pc[i] is first[i]:
                    i += 1
                m = min(m, i)
            self.pc = first[:m]
        else:
            self.pc = base.pc
        self.cells, self.ghost = base.cells, base.ghost


# records of what a path did, of which a loop keeps only what was done before it and in the iteration it is left in
QUIET = {'clock': 0, 'calls': 0, 'uuids': 0, 'enc': 0, 'rcv': 0}


def ghost_same(a, b):
    if a is b:
        return True
    if set(a) != set(b):
        return False
    return all(a[k] is b[k] or a[k] == b[k] for k in a)


_hq = {}


def has_quant(f):
    if not z3.is_expr(f):
        return False
    i = f.get_id()
    if i in _hq:
        return _hq[i][1]
    r = z3.is_quantifier(f) or any(has_quant(c) for c in f.children())
    _hq[i] = (f, r)
    return r


def occurs(f, name, seen=None):
    seen = set() if seen is None else seen
    if not z3.is_expr(f) or f.get_id() in seen:
        return False
    seen.add(f.get_id())
    if z3.is_quantifier(f):
        return occurs(f.body(), name, seen)
    if z3.is_app(f) and f.decl().name() == name:
        return True
    return any(occurs(c, name, seen) for c in f.children())


def has_let(c):
    return c['k'] == 'let' or (c['k'] == 'bin' and c['op'] == '&&' and (has_let(c['l']) or has_let(c['r'])))


def tdiv(a, b):
    """truncating division"""
    return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
