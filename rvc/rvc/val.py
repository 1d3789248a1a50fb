"""Symbolic values.  Leaves are z3 terms of sort Bool, Int, Str (uninterpreted) or U
(uninterpreted, all other values); structure lives in Python and is expanded lazily."""
import z3
from .src import Unsupported

U = z3.DeclareSort('U')
Str = z3.DeclareSort('Str')
I, B = z3.IntSort(), z3.BoolSort()

INT_RANGES = {'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1),
              'usize': (0, 2**64-1), 'u128': (0, 2**128-1), 'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1),
              'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1), 'isize': (-2**63, 2**63-1),
              'i128': (-2**127, 2**127-1), 'char': (0, 0x10ffff), 'DateTime': None, 'TimeDelta': None, 'int': None}

# ---- types: ('bool',) ('int',name) ('str',) ('adt',path,args) ('vec',t) ('map',k,v) ('set',t)
#      ('tuple',ts) ('param',name,bounds) ('opaque',name) ('fn',) ('unit',)
BOOL, STR, UNIT = ('bool',), ('str',), ('tuple', ())


def tname(t):
    if t is None:
        return '_'
    k = t[0]
    if k in ('bool', 'str', 'fn'):
        return k
    if k == 'int':
        return t[1]
    if k == 'adt':
        n = t[1].split('::')[-1] if not t[1].startswith('vercre') else '.'.join(t[1].replace('vercre_', '').split('::'))
        return n + ('<' + ','.join(map(tname, t[2])) + '>' if t[2] else '')
    if k in ('vec', 'set'):
        return f'{k}<{tname(t[1])}>'
    if k == 'map':
        return f'map<{tname(t[1])},{tname(t[2])}>'
    if k == 'tuple':
        return '(' + ','.join(map(tname, t[1])) + ')'
    return t[1] if len(t) > 1 else k


def sort_of(t):
    if t is None:
        return U
    return {'bool': B, 'str': Str, 'int': I}.get(t[0], U)


class World:
    """Function symbols, their axioms and string literals."""

    def __init__(self):
        self.decls, self.axioms, self.lits, self.n = {}, {}, {}, 0
        self.adt = None   # callback: adt type -> ('struct', [(name, ty)]) | ('enum', [(variant, [(f, ty)])])
        self.extra = {}   # function symbol name -> [axiom]

    def fn(self, name, dom, rng):
        key = (name, tuple(str(d) for d in dom), str(rng))
        f = self.decls.get(key)
        if f is None:
            f = z3.Function(name if not any(k[0] == name for k in self.decls) else f'{name}#{len(self.decls)}', *dom, rng)
            self.decls[key] = f
        return f

    def uid(self):
        self.n += 1
        return self.n

    def lit(self, s):
        c = self.lits.get(s)
        if c is None:
            c = z3.Const('lit:' + s, Str)
            self.lits[s] = c
        return c

    def axiom(self, f, mk):
        """register an axiom about function symbol f (included in queries mentioning f)"""
        self.axioms.setdefault(f.name(), []).append(mk)


W = World()


def reset():
    global W
    W.__init__()


def bvars(n_dom):
    return [z3.Const(f'a{i}!', d) for i, d in enumerate(n_dom)]


def app(name, args, t):
    """value of type t given by symbol name applied to z3 terms"""
    dom = [a.sort() for a in args]
    rng = sort_of(t)
    fresh = (name, tuple(str(d) for d in dom), str(rng)) not in W.decls
    f = W.fn(name, dom, rng)
    if fresh and t is not None:
        if t[0] == 'int' and INT_RANGES.get(t[1]):
            lo, hi = INT_RANGES[t[1]]
            if dom:
                vs = bvars(dom)
                W.axiom(f, z3.ForAll(vs, z3.And(f(*vs) >= lo, f(*vs) <= hi), patterns=[f(*vs)]))
            else:
                W.axiom(f, z3.And(f() >= lo, f() <= hi))
    return wrap(t, f(*args))


def wrap(t, term):
    if t is None:
        return VTerm(term, None)
    k = t[0]
    if k == 'bool':
        return VBool(term)
    if k == 'int':
        return VInt(term, t[1])
    if k == 'str':
        return VStr([term])
    if k == 'tuple':
        if not t[1]:
            return VTuple([])
        return VTuple([proj(term, t, str(i), x) for i, x in enumerate(t[1])])
    if k == 'vec':
        return vec_of_term(term, t)
    if k == 'map':
        return map_of_term(term, t)
    if k == 'set':
        return set_of_term(term, t)
    return VTerm(term, t)


def proj(term, owner, fname, t):
    return app(f'{tname(owner)}.{fname}', [term], t)


# ---- values ---------------------------------------------------------------
class Value:
    ty = None


class VBool(Value):
    def __init__(self, z): self.z = z if z3.is_expr(z) else z3.BoolVal(z)
    ty = BOOL


class VInt(Value):
    def __init__(self, z, t='int'): self.z = z if z3.is_expr(z) else z3.IntVal(z); self.t = t
    @property
    def ty(self): return ('int', self.t)


class VStr(Value):
    """concatenation of parts (python str | z3 Str)"""
    ty = STR
    def __init__(self, parts):
        out = []
        for p in ([parts] if isinstance(parts, str) else parts):
            if isinstance(p, str):
                if p == '': continue
                if out and isinstance(out[-1], str): out[-1] += p; continue
            elif p.decl().name().startswith('lit:'):
                s = p.decl().name()[4:]
                if s == '': continue
                if out and isinstance(out[-1], str): out[-1] += s; continue
                p = s
            out.append(p)
        self.parts = out

    @property
    def z(self):
        if not self.parts: return W.lit('')
        ts = [W.lit(p) if isinstance(p, str) else p for p in self.parts]
        r = ts[-1]
        f = cat_fn() if len(ts) > 1 else None
        for p in reversed(ts[:-1]): r = f(p, r)
        return r

    def const(self):
        if not self.parts: return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str): return self.parts[0]
        return None


def cat_fn():
    new = ('cat', (str(Str), str(Str)), str(Str)) not in W.decls
    f = W.fn('cat', [Str, Str], Str)
    if new:
        x, y, w = (z3.Const(n, Str) for n in ('cx!', 'cy!', 'cw!'))
        e = W.lit('')
        W.axiom(f, z3.ForAll([x], f(e, x) == x, patterns=[f(e, x)]))
        W.axiom(f, z3.ForAll([x], f(x, e) == x, patterns=[f(x, e)]))
        W.axiom(f, z3.ForAll([x, y, w], f(f(x, y), w) == f(x, f(y, w)), patterns=[f(f(x, y), w)]))
        W.axiom(f, z3.ForAll([x, y], (f(x, y) == e) == z3.And(x == e, y == e), patterns=[f(x, y)]))
    return f


class VTerm(Value):
    def __init__(self, z, ty): self.z, self.ty = z, ty


class VStruct(Value):
    def __init__(self, ty, f): self.ty, self.f = ty, f


class VTuple(Value):
    def __init__(self, es): self.es = list(es)
    @property
    def ty(self): return ('tuple', tuple(e.ty for e in self.es))


class VEnum(Value):
    """vs: variant -> (cond z3 Bool, payload: dict name->Value)"""
    def __init__(self, ty, vs): self.ty, self.vs = ty, vs

    def cond(self, v):
        return self.vs[v][0] if v in self.vs else z3.BoolVal(False)


class VVec(Value):
    def __init__(self, n, get, ety=None, items=None, base=None, appended=(), term=None):
        self.n, self._get, self.ety, self.items = n, get, ety, items
        self.base, self.appended, self.term = base, list(appended), term
    kind = 'vec'
    @property
    def ty(self): return ('vec', self.ety)

    def get(self, i):
        if isinstance(i, int): i = z3.IntVal(i)
        if self.items is not None:
            i = z3.simplify(i)
            if z3.is_int_value(i):
                k = i.as_long()
                if 0 <= k < len(self.items): return self.items[k]
            if not self.items:
                if self.ety is None: raise Unsupported('element of empty vec')
                return app(f'undef{W.uid()}', [], self.ety)
            r = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                r = ite(i == k, self.items[k], r)
            return r
        return self._get(i)

    @staticmethod
    def of(items, ety=None):
        items = list(items)
        if ety is None and items: ety = items[0].ty
        return VVec(z3.IntVal(len(items)), None, ety, items=items)

    def push(self, x):
        if self.items is not None:
            r = VVec.of(self.items + [x], self.ety or x.ty)
            if self.base is not None: r.base, r.appended = self.base, self.appended + [x]
            else: r.base, r.appended = self, [x]
            return r
        n0, g = self.n, self.get
        base = self if self.base is None else self.base
        def get(i):
            return ite(i == n0, x, g(i))
        return VVec(z3.simplify(n0 + 1), get, self.ety or x.ty, base=base,
                    appended=(self.appended if self.base is not None else []) + [x])


def vec_of_term(term, t):
    tn = tname(t)
    f = W.fn(f'{tn}.len', [U], I)
    if f.name() not in W.axioms:
        v = z3.Const('v!', U)
        W.axiom(f, z3.ForAll([v], z3.And(f(v) >= 0, f(v) < 2**63), patterns=[f(v)]))
    return VVec(f(term), lambda i: app(f'{tn}.at', [term, i], t[1]), t[1], term=term)


class VMap(Value):
    """has(keyterm)->Bool; at(keyterm)->Value; keys are z3 terms of the key sort"""
    def __init__(self, kty, vty, has, at, n=None, key=None, idx=None, term=None, base=None, ins=(), items=None):
        self.kty, self.vty, self.has, self._at = kty, vty, has, at
        self.n, self.key, self.idx, self.term = n, key, idx, term
        self.base, self.ins = base, list(ins)
        self.items = items      # concrete association list [(keyvalue, value)] if known
    @property
    def ty(self): return ('map', self.kty, self.vty)

    def at(self, k): return self._at(k)

    def enum(self):
        """make sure an enumeration of the keys exists; returns (n, key(i)->z3, facts)"""
        if self.n is not None:
            return []
        u = W.uid()
        ks = sort_of(self.kty)
        self.n = z3.Int(f'mlen{u}')
        kf, xf = z3.Function(f'mkey{u}', I, ks), z3.Function(f'midx{u}', ks, I)
        self.key, self.idx = (lambda i: kf(i)), (lambda k: xf(k))
        i, k = z3.Int('i!'), z3.Const('k!', ks)
        return [self.n >= 0,
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(self.has(kf(i)), xf(kf(i)) == i)), patterns=[kf(i)]),
                z3.ForAll([k], z3.Implies(self.has(k), z3.And(0 <= xf(k), xf(k) < self.n, kf(xf(k)) == k)), patterns=[xf(k)]),
                z3.ForAll([k], z3.Implies(self.has(k), z3.And(0 <= xf(k), xf(k) < self.n, kf(xf(k)) == k)))]


def map_of_term(term, t):
    tn = tname(t)
    ks = sort_of(t[1])
    has, ln = W.fn(f'{tn}.has', [U, ks], B), W.fn(f'{tn}.len', [U], I)
    key, idx = W.fn(f'{tn}.key', [U, I], ks), W.fn(f'{tn}.idx', [U, ks], I)
    if ln.name() not in W.axioms:
        m, k, i = z3.Const('m!', U), z3.Const('k!', ks), z3.Int('i!')
        W.axiom(ln, z3.ForAll([m], ln(m) >= 0, patterns=[ln(m)]))
        a1 = z3.ForAll([m, i], z3.Implies(z3.And(0 <= i, i < ln(m)), z3.And(has(m, key(m, i)), idx(m, key(m, i)) == i)), patterns=[key(m, i)])
        a2 = z3.ForAll([m, k], z3.Implies(has(m, k), z3.And(0 <= idx(m, k), idx(m, k) < ln(m), key(m, idx(m, k)) == k)), patterns=[has(m, k)])
        W.axiom(key, a1)
        W.axiom(key, a2)
        W.axiom(idx, a2)
    return VMap(t[1], t[2], lambda k: has(term, k), lambda k: app(f'{tn}.val', [term, k], t[2]),
                n=ln(term), key=lambda i: key(term, i), idx=lambda k: idx(term, k), term=term)


class VSet(Value):
    def __init__(self, ety, has, term=None): self.ety, self.has, self.term = ety, has, term
    @property
    def ty(self): return ('set', self.ety)


def set_of_term(term, t):
    has = W.fn(f'{tname(t)}.in', [U, sort_of(t[1])], B)
    return VSet(t[1], lambda k: has(term, k), term=term)


class VRef(Value):
    """&mut place"""
    def __init__(self, cell, path=()): self.cell, self.path = cell, tuple(path)
    ty = ('ref',)


class VFn(Value):
    ty = ('fn',)
    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)


class VIter(Value):
    """n elements get(i), of which those with guard(i) are produced"""
    ty = ('iter',)
    def __init__(self, n, get, guard=None, ety=None, post=None, consumed=None):
        self.n, self.get, self.guard, self.ety = n, get, guard, ety


class VRange(Value):
    ty = ('range',)
    def __init__(self, lo, hi, incl): self.lo, self.hi, self.incl = lo, hi, incl


class VOpaque(Value):
    """python-level payload (token streams, builders)"""
    def __init__(self, tag, data): self.tag, self.data = tag, data; self.ty = ('opaque', tag)


class VTok(Value):
    """token stream: items ('i', ident) ('p', char, joint) ('l', literal) ('g', delimiter, items) ('h', Value)
    ('r', separator, n, guard, i -> items) ('c', condition, items, items)"""
    ty = ('opaque', 'TokenStream')
    def __init__(self, items): self.items = list(items)


def tok_items(v):
    if isinstance(v, VTok): return v.items
    return [('h', v)]


def tok_subst(it, pairs):
    out = []
    for x in it:
        if x[0] == 'g': out.append(('g', x[1], tok_subst(x[2], pairs)))
        elif x[0] == 'h': out.append(('h', subst(x[1], pairs)))
        elif x[0] == 'c': out.append(('c', z3.substitute(x[1], *pairs), tok_subst(x[2], pairs), tok_subst(x[3], pairs)))
        elif x[0] == 'r':
            _, sep, n, guard, get = x
            def get2(i, get=get):
                u = z3.Int(f's!{W.uid()}')
                return tok_subst(tok_subst(get(u), pairs), [(u, i if z3.is_expr(i) else z3.IntVal(i))])
            def guard2(i, guard=guard):
                u = z3.Int(f's!{W.uid()}')
                return z3.substitute(z3.substitute(guard(u), *pairs), (u, i))
            out.append(('r', sep, z3.substitute(n, *pairs), guard and guard2, get2))
        else: out.append(x)
    return out


def tok_leaves(it, out, depth):
    for x in it:
        if x[0] == 'g': tok_leaves(x[2], out, depth)
        elif x[0] == 'h': leaves(x[1], out, depth + 1)
        elif x[0] == 'c': out.append(x[1]); tok_leaves(x[2], out, depth); tok_leaves(x[3], out, depth)
        elif x[0] == 'r': out.append(x[2]); tok_leaves(x[4](z3.Int('i!')), out, depth)


UNITV = VTuple([])


def option(t): return ('adt', 'Option', (t,))
def result(t, e): return ('adt', 'Result', (t, e))
def some(v): return VEnum(option(v.ty), {'Some': (z3.BoolVal(True), {'0': v})})
def none(t=None): return VEnum(option(t), {'None': (z3.BoolVal(True), {})})
def ok(v, e=None): return VEnum(result(v.ty, e), {'Ok': (z3.BoolVal(True), {'0': v})})
def err(v, t=None): return VEnum(result(t, v.ty), {'Err': (z3.BoolVal(True), {'0': v})})


def opt_cond(c, v):
    """Some(v) if c else None"""
    return VEnum(option(v.ty), {'Some': (c, {'0': v}), 'None': (z3.Not(c), {})})


BUILTIN_ADTS = {
    'Option': lambda a: ('enum', [('None', []), ('Some', [('0', a[0])])]),
    'Result': lambda a: ('enum', [('Ok', [('0', a[0])]), ('Err', [('0', a[1])])]),
    'serde_json::Value': lambda a: ('enum', [('Null', []), ('Bool', [('0', BOOL)]), ('Number', [('0', ('opaque', 'serde_json::Number'))]),
                                    ('String', [('0', STR)]), ('Array', [('0', ('vec', ('adt', 'serde_json::Value', ())))]),
                                    ('Object', [('0', ('map', STR, ('adt', 'serde_json::Value', ())))])]),
}


def adt_def(t):
    if t[1] in BUILTIN_ADTS:
        return BUILTIN_ADTS[t[1]](t[2])
    return W.adt(t) if W.adt else None


def force(v):
    """expand a symbolic ADT term by one level"""
    if isinstance(v, VTerm) and v.ty and v.ty[0] == 'adt':
        d = adt_def(v.ty)
        if d is None:
            return v
        tn = tname(v.ty)
        if d[0] == 'struct':
            r = VStruct(v.ty, LazyDict({n: (lambda n=n, t=t: app(f'{tn}.{n}', [v.z], t)) for n, t in d[1]}))
            r.term = v.z
            return r
        tag = W.fn(f'{tn}.tag', [U], I)
        if tag.name() not in W.axioms:
            x = z3.Const('x!', U)
            W.axiom(tag, z3.ForAll([x], z3.And(tag(x) >= 0, tag(x) < len(d[1])), patterns=[tag(x)]))
        vs = {}
        for k, (vn, fs) in enumerate(d[1]):
            vs[vn] = (tag(v.z) == k, LazyDict({n: (lambda n=n, t=t, vn=vn: app(f'{tn}.{vn}.{n}', [v.z], t)) for n, t in fs}))
        r = VEnum(v.ty, vs)
        r.term = v.z
        return r
    return v


class LazyDict(dict):
    def __getitem__(self, k):
        x = dict.__getitem__(self, k)
        if callable(x) and not isinstance(x, Value):
            x = x()
            dict.__setitem__(self, k, x)
        return x

    def get(self, k, d=None):
        return self[k] if k in self else d

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]


def same(a, b):
    """syntactic identity (cheap)"""
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (VBool, VInt, VTerm)): return a.z.eq(b.z)
    if isinstance(a, VStr): return a.z.eq(b.z)
    if isinstance(a, VTuple): return len(a.es) == len(b.es) and all(same(x, y) for x, y in zip(a.es, b.es))
    if isinstance(a, VStruct):
        ta, tb = getattr(a, 'term', None), getattr(b, 'term', None)
        if ta is not None and tb is not None: return ta.eq(tb)
        return a.ty == b.ty and set(a.f) == set(b.f) and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, VEnum):
        ta, tb = getattr(a, 'term', None), getattr(b, 'term', None)
        if ta is not None and tb is not None: return ta.eq(tb)
        if ta is not None or tb is not None: return False
        return set(a.vs) == set(b.vs) and all(a.vs[k][0].eq(b.vs[k][0]) and set(a.vs[k][1]) == set(b.vs[k][1]) and
                   all(same(a.vs[k][1][f], b.vs[k][1][f]) for f in a.vs[k][1]) for k in a.vs)
    if isinstance(a, VVec):
        if a.term is not None and b.term is not None: return a.term.eq(b.term)
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
        return False
    if isinstance(a, (VMap, VSet)):
        return a.term is not None and b.term is not None and a.term.eq(b.term)
    if isinstance(a, VRef): return a.cell == b.cell and a.path == b.path
    if isinstance(a, VOpaque): return a.tag == b.tag and a.data == b.data
    return False


def ite(c, a, b):
    """value-level if-then-else"""
    c = z3.simplify(c)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if same(a, b): return a
    if isinstance(a, VTerm) and isinstance(b, VTerm) and a.z.sort() == b.z.sort() and (a.ty == b.ty or a.ty is None or b.ty is None or True):
        return VTerm(z3.If(c, a.z, b.z), a.ty or b.ty)
    if isinstance(a, VTok) or isinstance(b, VTok):
        return VTok([('c', c, tok_items(a), tok_items(b))])
    a, b = force(a), force(b)
    if isinstance(a, VBool) and isinstance(b, VBool): return VBool(z3.If(c, a.z, b.z))
    if isinstance(a, VInt) and isinstance(b, VInt): return VInt(z3.If(c, a.z, b.z), a.t if a.t != 'int' else b.t)
    if isinstance(a, VStr) and isinstance(b, VStr):
        pa, pb, pre, post = list(a.parts), list(b.parts), [], []
        while pa and pb and _peq(pa[0], pb[0]): pre.append(pa.pop(0)); pb.pop(0)
        while pa and pb and _peq(pa[-1], pb[-1]): post.insert(0, pa.pop()); pb.pop()
        if not pa and not pb: return a
        return VStr(pre + [z3.If(c, VStr(pa).z, VStr(pb).z)] + post)
    if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.es) == len(b.es):
        return VTuple([ite(c, x, y) for x, y in zip(a.es, b.es)])
    if isinstance(a, VStruct) and isinstance(b, VStruct):
        return VStruct(a.ty, LazyDict({k: (lambda k=k: ite(c, a.f[k], b.f[k])) for k in a.f}))
    if isinstance(a, VEnum) and isinstance(b, VEnum):
        vs = {}
        for k in list(a.vs) + [k for k in b.vs if k not in a.vs]:
            ca = z3.And(c, a.vs[k][0]) if k in a.vs else z3.BoolVal(False)
            cb = z3.And(z3.Not(c), b.vs[k][0]) if k in b.vs else z3.BoolVal(False)
            if k in a.vs and k in b.vs:
                pa, pb = a.vs[k][1], b.vs[k][1]
                pl = LazyDict({f: (lambda f=f, pa=pa, pb=pb: ite(c, pa[f], pb[f])) for f in pa})
            else:
                pl = (a.vs if k in a.vs else b.vs)[k][1]
            vs[k] = (z3.simplify(z3.Or(ca, cb)), pl)
        t = a.ty
        if t and t[0] == 'adt' and t[1] in ('Option', 'Result'):
            t = ('adt', t[1], tuple(x or y for x, y in zip(a.ty[2], b.ty[2])))
        return VEnum(t, vs)
    if isinstance(a, VVec) and isinstance(b, VVec):
        ea, eb = a.items == [], b.items == []
        if a.base is not None and a.base is b.base and len(a.appended) == len(b.appended) and a.items is None and b.items is None:
            r = a.base
            for x, y in zip(a.appended, b.appended): r = r.push(ite(c, x, y))
            return r
        if a.term is not None and b.term is not None and a.ety is not None and a.ety == b.ety: return vec_of_term(z3.If(c, a.term, b.term), ('vec', a.ety))
        return VVec(z3.If(c, a.n, b.n), (lambda i: b.get(i)) if ea else (lambda i: a.get(i)) if eb else (lambda i: ite(c, a.get(i), b.get(i))), a.ety or b.ety)
    if isinstance(a, VMap) and isinstance(b, VMap):
        if a.term is not None or b.term is not None:
            if a.items == [] and a.vty is None: a = VMap(b.kty, b.vty, a.has, a._at, items=[])
            if b.items == [] and b.vty is None: b = VMap(a.kty, a.vty, b.has, b._at, items=[])
            ta, tb = opt_term(a), opt_term(b)
            if ta is not None and tb is not None and a.ty == b.ty: return map_of_term(z3.If(c, ta, tb), a.ty)
        def at(k):
            if a.items == []: return b.at(k)
            if b.items == []: return a.at(k)
            return ite(c, a.at(k), b.at(k))
        return VMap(a.kty or b.kty, a.vty or b.vty, lambda k: z3.If(c, a.has(k), b.has(k)), at)
    if isinstance(a, VSet) and isinstance(b, VSet):
        return VSet(a.ety, lambda k: z3.If(c, a.has(k), b.has(k)))
    raise Unsupported(f'merge of {type(a).__name__} and {type(b).__name__}')


def eq(a, b):
    """z3 formula: the two values are equal"""
    if same(a, b): return z3.BoolVal(True)
    if isinstance(a, VTerm) and isinstance(b, VTerm): return a.z == b.z
    ta, tb = getattr(a, 'term', None), getattr(b, 'term', None)
    if ta is not None and tb is not None and isinstance(a, (VVec, VMap, VSet, VStruct, VEnum)): return ta == tb
    if ta is not None and isinstance(b, VTerm): return ta == b.z
    if tb is not None and isinstance(a, VTerm): return a.z == tb
    a, b = force(a), force(b)
    if isinstance(a, (VBool, VInt)) and isinstance(b, (VBool, VInt)): return a.z == b.z
    if isinstance(a, VStr) and isinstance(b, VStr):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None: return z3.BoolVal(ca == cb)
        # strip common literal prefix/suffix parts
        pa, pb = list(a.parts), list(b.parts)
        while pa and pb and _peq(pa[0], pb[0]): pa, pb = pa[1:], pb[1:]
        while pa and pb and _peq(pa[-1], pb[-1]): pa, pb = pa[:-1], pb[:-1]
        return VStr(pa).z == VStr(pb).z
    if isinstance(a, VTuple) and isinstance(b, VTuple):
        return z3.And([eq(x, y) for x, y in zip(a.es, b.es)]) if a.es else z3.BoolVal(True)
    if isinstance(a, VStruct) and isinstance(b, VStruct):
        return z3.And([eq(a.f[k], b.f[k]) for k in a.f]) if a.f else z3.BoolVal(True)
    if isinstance(a, VEnum) and isinstance(b, VEnum):
        out = []
        for k in a.vs:
            if k in b.vs:
                cs = [a.vs[k][0], b.vs[k][0]]
                if any(z3.is_false(z3.simplify(c)) for c in cs): continue
                pa, pb = a.vs[k][1], b.vs[k][1]
                out.append(z3.And(cs + [eq(pa[f], pb[f]) for f in pa]))
        return z3.Or(out) if out else z3.BoolVal(False)
    if isinstance(a, VVec) and isinstance(b, VVec):
        if a.items is not None and b.items is not None:
            return z3.And([z3.BoolVal(len(a.items) == len(b.items))] + [eq(x, y) for x, y in zip(a.items, b.items)])
        if a.items == []: return b.n == 0
        if b.items == []: return a.n == 0
        i = z3.Int(f'e!{W.uid()}')
        return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), eq(a.get(i), b.get(i)))))
    if isinstance(a, VMap) and isinstance(b, VMap):
        k = z3.Const(f'ek!{W.uid()}', sort_of(a.kty or b.kty))
        if a.items == [] or b.items == []:
            return z3.ForAll([k], a.has(k) == b.has(k))
        return z3.ForAll([k], z3.And(a.has(k) == b.has(k), z3.Implies(a.has(k), eq(a.at(k), b.at(k)))))
    if isinstance(a, VSet) and isinstance(b, VSet):
        k = z3.Const(f'ek!{W.uid()}', sort_of(a.ety or b.ety))
        return z3.ForAll([k], a.has(k) == b.has(k))
    if isinstance(a, VTerm) or isinstance(b, VTerm):
        t = to_term(a) == to_term(b) if sortable(a) and sortable(b) else None
        if t is not None: return t
    raise Unsupported(f'equality of {type(a).__name__}({tname(a.ty) if a.ty else a}) and {type(b).__name__}({tname(b.ty) if b.ty else b})')


def _peq(x, y):
    if isinstance(x, str) or isinstance(y, str): return isinstance(x, str) and isinstance(y, str) and x == y
    return x.eq(y)


def sortable(v):
    return isinstance(v, (VTerm, VStr, VInt, VBool, VStruct, VEnum, VTuple, VVec, VMap))


FACTS = []   # facts produced while packing (drained by the executor)


def to_term(v):
    """encode a value as one z3 term (leaf sort or U)"""
    if isinstance(v, (VBool, VInt, VStr, VTerm)): return v.z
    t = getattr(v, 'term', None)
    if t is not None: return t
    if isinstance(v, VTuple):
        ts = [to_term(e) for e in v.es]
        return _pack('tuple' + str(len(ts)), v.ty, [(str(i), e) for i, e in enumerate(v.es)])
    if isinstance(v, VStruct):
        return _pack(tname(v.ty), v.ty, list(v.f.items()))
    if isinstance(v, VEnum):
        r = None
        for k, (c, pl) in v.vs.items():
            if z3.is_false(z3.simplify(c)): continue
            t = _pack(f'{tname(v.ty)}::{k}', v.ty, list(pl.items()), k)
            r = t if r is None else z3.If(c, t, r)
        if r is None: raise Unsupported('empty enum')
        return r
    if isinstance(v, VVec):
        tn = tname(('vec', v.ety))
        if v.items is not None:
            ts = [to_term(e) for e in v.items]
            f = W.fn(f'{tn}#{len(ts)}', [x.sort() for x in ts], U)
            t = f(*ts)
            ln = W.fn(f'{tn}.len', [U], I)
            FACTS.append(ln(t) == len(ts))
            for i, e in enumerate(ts):
                at = W.fn(f'{tn}.at', [U, I], e.sort())
                FACTS.append(at(t, i) == e)
            return t
        if not hasattr(v, '_packed'):
            ln = W.fn(f'{tn}.len', [U], I)
            i = z3.Int('i!')
            e = to_term(v.get(i))
            at = W.fn(f'{tn}.at', [U, I], e.sort())
            fv = free_vars([v.n, e], i)
            t = z3.Function(f'vecpack{W.uid()}', *[x.sort() for x in fv], U)(*fv)
            v._packed = t
            close = lambda f: FACTS.append(z3.ForAll(fv, f, patterns=[t]) if fv else f)
            close(ln(t) == v.n)
            FACTS.append(z3.ForAll(fv + [i], z3.Implies(z3.And(0 <= i, i < v.n), at(t, i) == e), patterns=[at(t, i)]))
        return v._packed
    if isinstance(v, VMap):
        if not hasattr(v, '_packed'):
            ks = sort_of(v.kty)
            tn = tname(('map', v.kty, v.vty))
            has = W.fn(f'{tn}.has', [U, ks], B)
            k = z3.Const('k!', ks)
            if v.items == []:
                t = z3.Const(f'empty:{tn}', U)   # one empty map
                v._packed = t
                FACTS.append(z3.ForAll([k], z3.Not(has(t, k)), patterns=[has(t, k)]))
                return t
            h, e = v.has(k), None
            if v.vty is not None:
                try:
                    e = to_term(v.at(k))
                except Unsupported:
                    pass
            fv = free_vars([h] + ([e] if e is not None else []), k)
            t = z3.Function(f'mappack{W.uid()}', *[x.sort() for x in fv], U)(*fv)
            v._packed = t
            FACTS.append(z3.ForAll(fv + [k], has(t, k) == h, patterns=[has(t, k)]))
            if e is not None:
                val = W.fn(f'{tn}.val', [U, ks], e.sort())
                FACTS.append(z3.ForAll(fv + [k], z3.Implies(h, val(t, k) == e), patterns=[val(t, k)]))
        return v._packed
    raise Unsupported(f'cannot encode {type(v).__name__} as a term')


def retype(v, t):
    """give an empty collection the element type it is used at"""
    if t is None: return v
    if isinstance(v, VMap) and v.items == [] and v.vty is None and t[0] == 'map': return VMap(t[1], t[2], v.has, v._at, items=[])
    if isinstance(v, VVec) and v.items == [] and v.ety is None and t[0] == 'vec': return VVec.of([], t[1])
    if isinstance(v, VEnum) and t[0] == 'adt' and t[1] == 'Option' and set(v.vs) == {'None'} and v.ty[1] == 'Option': return VEnum(t, v.vs)
    if isinstance(v, VTerm) and v.ty and v.ty[0] == t[0] == 'adt' and v.ty[1] == t[1] and None in v.ty[2] and None not in t[2]: return VTerm(v.z, t)
    return v


def free_vars(terms, bound):
    """constants that stand for loop indices or quantified variables (their names contain '!'): a packed value is a function of them"""
    out, seen, stack = {}, set(), list(terms)
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): stack.append(e.body())
        elif z3.is_app(e):
            if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in e.decl().name() and not e.eq(bound): out[e.decl().name()] = e
            stack.extend(e.children())
    return [out[n] for n in sorted(out)]


def opt_term(v):
    """the term of a collection if it has one without packing"""
    if v.term is not None: return v.term
    if isinstance(v, VMap) and v.items == [] and v.vty is not None: return to_term(v)
    return None


def _pack(name, ty, fs, variant=None):
    ts = [to_term(e) for _, e in fs]
    f = W.fn('mk:' + name, [x.sort() for x in ts], U)
    if ty and f.name() not in W.axioms and ty[0] == 'adt':
        W.axioms[f.name()] = []
        tn = tname(ty)
        vs = bvars([x.sort() for x in ts])
        body = []
        if variant is not None:
            d = adt_def(ty)
            if d:
                tag = W.fn(f'{tn}.tag', [U], I)
                body.append(tag(f(*vs)) == [x[0] for x in d[1]].index(variant))
        for (n, _), x in zip(fs, vs):
            p = W.fn(f'{tn}.{variant + "." if variant else ""}{n}', [U], x.sort())
            body.append(p(f(*vs)) == x)
        if body:
            W.axiom(f, z3.ForAll(vs, z3.And(body), patterns=[f(*vs)]) if vs else z3.And(body))
    return f(*ts)


def subst(v, pairs):
    """substitute z3 terms inside a value"""
    if isinstance(v, VBool): return VBool(z3.substitute(v.z, *pairs))
    if isinstance(v, VInt): return VInt(z3.substitute(v.z, *pairs), v.t)
    if isinstance(v, VStr): return VStr([p if isinstance(p, str) else z3.substitute(p, *pairs) for p in v.parts])
    if isinstance(v, VTerm): return VTerm(z3.substitute(v.z, *pairs), v.ty)
    if isinstance(v, VTuple): return VTuple([subst(e, pairs) for e in v.es])
    if isinstance(v, VStruct):
        r = VStruct(v.ty, LazyDict({k: (lambda k=k: subst(v.f[k], pairs)) for k in v.f}))
        if getattr(v, 'term', None) is not None: r.term = z3.substitute(v.term, *pairs)
        return r
    if isinstance(v, VEnum):
        r = VEnum(v.ty, {k: (z3.substitute(c, *pairs), LazyDict({f: (lambda f=f, pl=pl: subst(pl[f], pairs)) for f in pl})) for k, (c, pl) in v.vs.items()})
        if getattr(v, 'term', None) is not None: r.term = z3.substitute(v.term, *pairs)
        return r
    if isinstance(v, VVec):
        if v.items is not None: return VVec.of([subst(e, pairs) for e in v.items], v.ety)
        def get(i):
            u = z3.Int(f's!{W.uid()}')
            return subst(subst(v.get(u), pairs), [(u, i)])
        t = z3.substitute(v.term, *pairs) if v.term is not None else None
        return VVec(z3.substitute(v.n, *pairs), get, v.ety, term=t)
    if isinstance(v, VMap):
        ks = sort_of(v.kty)
        def has(k):
            u = z3.Const(f's!{W.uid()}', ks)
            return z3.substitute(z3.substitute(v.has(u), *pairs), (u, k))
        def at(k):
            u = z3.Const(f's!{W.uid()}', ks)
            return subst(subst(v.at(u), pairs), [(u, k)])
        if v.term is not None:
            return map_of_term(z3.substitute(v.term, *pairs), v.ty)
        return VMap(v.kty, v.vty, has, at, items=[] if v.items == [] else None)
    if isinstance(v, VSet):
        ks = sort_of(v.ety)
        def has(k):
            u = z3.Const(f's!{W.uid()}', ks)
            return z3.substitute(z3.substitute(v.has(u), *pairs), (u, k))
        return VSet(v.ety, has)
    if isinstance(v, (VFn, VRef)): return v
    if isinstance(v, VOpaque): return v
    if isinstance(v, VTok): return VTok(tok_subst(v.items, pairs))
    raise Unsupported(f'subst in {type(v).__name__}')


def leaves(v, out, depth=0):
    """z3 terms occurring in a value (approximate, for occurs checks)"""
    if depth > 6: return
    if isinstance(v, VTok): tok_leaves(v.items, out, depth)
    elif isinstance(v, (VBool, VInt, VTerm)): out.append(v.z)
    elif isinstance(v, VStr): out.append(v.z)
    elif isinstance(v, VTuple):
        for e in v.es: leaves(e, out, depth + 1)
    elif getattr(v, 'term', None) is not None: out.append(v.term)
    elif isinstance(v, VStruct):
        for e in v.f.values(): leaves(e, out, depth + 1)
    elif isinstance(v, VEnum):
        for c, pl in v.vs.values():
            out.append(c)
            for e in pl.values(): leaves(e, out, depth + 1)
    elif isinstance(v, VVec):
        out.append(v.n)
        if v.items is not None:
            for e in v.items: leaves(e, out, depth + 1)
        else:
            try: leaves(v.get(z3.Int('i!')), out, depth + 1)
            except Unsupported: pass
    elif isinstance(v, VMap):
        k = z3.Const('k!', sort_of(v.kty))
        out.append(v.has(k))
        if v.items != []:
            try: leaves(v.at(k), out, depth + 1)
            except Unsupported: pass
