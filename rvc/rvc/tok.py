"""Token streams: a model of quote!, and the meaning of generated expressions.

`agree(tokens, spec)` is the condition under which the generated expression builds the value described by `spec`:
  ('struct', name, {field: spec})   struct or struct variant literal; name is the last one or two path segments
  ('call', name, [spec])            tuple struct / variant / function
  ('some', spec) ('none',) ('bool', b) ('str', VStr)
  ('list', n, i -> spec)            vec![...]
  ('map', n, i -> (spec, spec))     Some map from pairs
  ('user', Value)                   the expression the user wrote for that value
  ('tuple', [spec]) ('ite', c, spec, spec) ('fn', f)  f(ast) -> condition | None
Conversions (`into`, `to_string`, `String::from`, ...) keep the value and are ignored."""
import z3
from .src import Unsupported
from .val import *
from . import val as V

T, F = z3.BoolVal(True), z3.BoolVal(False)
TS = ('opaque', 'TokenStream')
TOKS = {}      # results of functions under contract: name -> (arguments, spec) -> condition
CONV = {'into', 'to_string', 'to_owned', 'clone', 'as_str', 'to_vec', 'try_into'}


def install(ex):
    X, M, Fm = ex.macro_models, ex.m_models, ex.fn_models

    def lookup(ex, st, fr, n):
        if n in fr.env:
            return ex.rv(st, st.cells[fr.env[n]])
        raise Unsupported(f'quote!: #{n}')

    def interp(ex, st, fr, raw, idx=None):
        out, i = [], 0
        while i < len(raw):
            t = raw[i]
            if t[0] == 'p' and t[1] == '#' and i + 1 < len(raw):
                nx = raw[i + 1]
                if nx[0] == 'i':
                    v = lookup(ex, st, fr, nx[1])
                    if idx is not None and nx[1] in idx:
                        v = idx[nx[1]]
                    out += tok_items(v) if isinstance(v, VTok) else [('h', v)]
                    i += 2
                    continue
                if nx[0] == 'g' and nx[1] == '(':
                    j, sep = i + 2, None
                    if raw[j][0] == 'p' and raw[j][1] != '*':
                        sep, j = raw[j][1], j + 1
                    if not (raw[j][0] == 'p' and raw[j][1] == '*'):
                        raise Unsupported('quote!: repetition')
                    names = []
                    def coll(ts):
                        for a, b in zip(ts, ts[1:] + [None]):
                            if a[0] == 'p' and a[1] == '#' and b and b[0] == 'i': names.append(b[1])
                            if a[0] == 'g': coll(a[2])
                    coll(nx[2])
                    its = {}
                    for n in names:
                        v = lookup(ex, st, fr, n)
                        if isinstance(v, (VVec, VIter)):
                            its[n] = ex.to_iter(st, v, fr)
                    if not its:
                        raise Unsupported('quote!: repetition without an iterator')
                    first = next(iter(its.values()))
                    if len(its) > 1 and any(it.guard is not None or not z3.simplify(it.n).eq(z3.simplify(first.n)) for it in its.values()):
                        raise Unsupported('quote!: repetition over several iterators')
                    body = nx[2]
                    frozen = st.fork()
                    out.append(('r', sep, first.n, first.guard,
                                lambda k, body=body, its=its, frozen=frozen: interp(ex, frozen, fr, body, {n: ex.rv(frozen, it.get(k)) for n, it in its.items()})))
                    i = j + 1
                    continue
            out.append(('g', t[1], interp(ex, st, fr, t[2], idx)) if t[0] == 'g' else tuple(t))
            i += 1
        return out

    def quote(ex, st, e, fr, exp):
        ex.used_models.add('quote!')
        return [(st, 'val', VTok(interp(ex, st, fr, e['raw'])))]
    X['quote'] = quote

    def new(ex, st, fr, a, exp, ta): return [(st, 'val', VTok([]))]
    Fm['TokenStream::new'] = new
    Fm['proc_macro2::TokenStream::new'] = new

    Fm['proc_macro2::Span::call_site'] = lambda ex, st, fr, a, exp, ta: [(st, 'val', V.app('span', [], ('opaque', 'Span')))]
    Fm['Span::call_site'] = Fm['proc_macro2::Span::call_site']

    def error(ex, st, fr, a, exp, ta): return [(st, 'val', V.app('syn_error', [], ('opaque', 'syn::Error')))]
    Fm['syn::parse::Error::new'] = error
    Fm['syn::Error::new'] = error

    def extend(ex, st, fr, r, pl, a, exp, ta):
        x = ex.rv(st, a[0])
        ex.store(st, pl[0], pl[1], VTok(list(r.items) + (tok_items(x))))
        return [(st, 'val', UNITV)]
    M[('VTok', 'extend')] = extend
    M[('VTok', 'clone')] = lambda ex, st, fr, r, pl, a, exp, ta: [(st, 'val', r)]
    M[('TokenStream', 'clone')] = lambda ex, st, fr, r, pl, a, exp, ta: [(st, 'val', r)]
    M[('VTok', 'is_empty')] = lambda ex, st, fr, r, pl, a, exp, ta: [(st, 'val', VBool(not r.items))]


# ---------------------------------------------------------------- reading generated expressions
class Reader:
    def __init__(self, items):
        self.t = flat(items)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def isp(self, c, k=0):
        x = self.peek(k)
        return x is not None and x[0] == 'p' and x[1] == c

    def expr(self):
        while self.isp('&') or self.isp('*'):
            self.i += 1
        e = self.atom()
        while True:
            x = self.peek()
            if x is not None and x[0] == 'p' and x[1] == '.':
                n = self.peek(1)
                g = self.peek(2)
                if n and n[0] == 'i' and g and g[0] == 'g' and g[1] == '(':
                    self.i += 3
                    e = ('mcall', e, n[1], lst(g[2]))
                    continue
                raise Unsupported('generated field access')
            if x is not None and x[0] == 'g' and x[1] == '(' and e[0] == 'path':
                self.i += 1
                e = ('call', e[1], lst(x[2]))
                continue
            break
        return e

    def atom(self):
        x = self.peek()
        if x is None:
            raise Unsupported('empty generated expression')
        if x[0] == 'h':
            self.i += 1
            return ('hole', x[1])
        if x[0] == 'c':
            self.i += 1
            return ('choice', x[1], whole(x[2]), whole(x[3]))
        if x[0] == 'l':
            self.i += 1
            return ('lit', x[1])
        if x[0] == 'g':
            self.i += 1
            if x[1] == '[':
                return ('list', lst(x[2]))
            if x[1] == '(':
                es = lst(x[2])
                return es[0] if len(es) == 1 and not trailing(x[2]) and es[0][0] != 'rep' else ('tuple', es)
            if x[1] in ('{', ''):
                return whole(x[2])
        if x[0] == 'i' or (x[0] == 'p' and x[1] == ':'):
            segs = []
            while True:
                if self.isp(':') and self.isp(':', 1):
                    self.i += 2
                x = self.peek()
                if x is None or x[0] != 'i':
                    raise Unsupported('generated path')
                segs.append(x[1])
                self.i += 1
                if not (self.isp(':') and self.isp(':', 1)):
                    break
            if segs in (['true'], ['false']):
                return ('bool', segs[0] == 'true')
            if self.isp('!'):
                g = self.peek(1)
                self.i += 2
                if segs[-1] == 'vec' and g[0] == 'g':
                    return ('list', lst(g[2]))
                raise Unsupported(f'generated macro {segs[-1]}!')
            g = self.peek()
            if g is not None and g[0] == 'g' and g[1] == '{':
                self.i += 1
                return ('struct', segs, fields(g[2]))
            return ('path', segs)
        raise Unsupported(f'generated token {x}')


def flat(items):
    """splice known tokens"""
    out = []
    for x in items:
        if x[0] == 'h':
            v = x[1]
            if isinstance(v, VTok):
                out += flat(v.items)
                continue
            v2 = force(v) if not isinstance(v, VTok) else v
            if isinstance(v2, VEnum) and v2.ty and v2.ty[0] == 'adt' and v2.ty[1].endswith('parse::Value'):
                live = [k for k, (c, _) in v2.vs.items() if not z3.is_false(z3.simplify(c))]
                if live == ['Tokens'] and isinstance(v2.vs['Tokens'][1]['0'], VTok):
                    out += flat(v2.vs['Tokens'][1]['0'].items)
                    continue
                pl = v2.vs['Tokens'][1].get('0') if 'Tokens' in v2.vs and 'Tokens' in live else None
                if isinstance(pl, VTok):
                    rest = VEnum(v2.ty, {k: v2.vs[k] for k in live if k != 'Tokens'})
                    out.append(('c', v2.vs['Tokens'][0], pl.items, [('h', rest)]))
                    continue
        out.append(x)
    return out


def whole(items):
    r = Reader(items)
    if len(r.t) == 1 and r.t[0][0] == 'c':
        _, c, a, b = r.t[0]
        return ('choice', c, whole(a), whole(b))
    e = r.expr()
    if r.i != len(r.t):
        raise Unsupported(f'generated expression: {r.t[r.i:][:3]}')
    return e


def commas(items):
    parts, cur = [], []
    for x in flat(items):
        if x[0] == 'p' and x[1] == ',':
            parts.append(cur)
            cur = []
        else:
            cur.append(x)
    return parts, cur


def trailing(items):
    ps, cur = commas(items)
    return bool(ps) and not cur


def lst(items):
    ps, cur = commas(items)
    if cur:
        ps.append(cur)
    out = []
    for p in ps:
        if len(p) == 1 and p[0][0] == 'r':
            out.append(('rep', p[0]))
        else:
            out.append(whole(p))
    return out


def fields(items):
    ps, cur = commas(items)
    if cur:
        ps.append(cur)
    out = {}
    for p in ps:
        if p and p[0][0] == 'i' and len(p) > 2 and p[1][0] == 'p' and p[1][1] == ':':
            if p[0][1] in out:
                raise Unsupported('field given twice')
            out[p[0][1]] = whole(p[2:])
        else:
            raise Unsupported('generated struct literal')
    return out


def strip(e):
    while True:
        if e[0] == 'mcall' and e[2] in CONV and not e[3]:
            e = e[1]
        elif e[0] == 'call' and len(e[2]) == 1 and e[1][-2:] in (['Into', 'into'], ['String', 'from'], ['From', 'from']):
            e = e[2][0]
        else:
            return e


def agree(e, s):
    k = s[0]
    if k == 'any':
        return T
    if k == 'ite':
        return z3.And(z3.Implies(s[1], agree(e, s[2])), z3.Implies(z3.Not(s[1]), agree(e, s[3])))
    e = strip(e)
    if e[0] == 'choice':
        return z3.And(z3.Implies(e[1], agree(e[2], s)), z3.Implies(z3.Not(e[1]), agree(e[3], s)))
    if e[0] == 'mcall' and e[2] in ('unwrap', 'expect'):
        return agree(e[1], ('some', s))
    if e[0] == 'hole':
        v = force(e[1]) if not isinstance(e[1], VTok) else e[1]
        if isinstance(v, VOpaque) and v.tag == 'denotes':
            return v.data(s)
        if isinstance(v, VTerm) and z3.is_app(v.z) and v.z.decl().name() in TOKS:
            return TOKS[v.z.decl().name()](v.z.children(), s)
        if k == 'user':
            return V.eq(e[1], s[1]) if v.ty == force(s[1]).ty else F
        if k == 'str':
            return V.eq(v, s[1]) if isinstance(v, VStr) else F
        if k == 'bool':
            if isinstance(v, VBool): return v.z == s[1]
            return z3.And(v.cond('Bool'), v.vs['Bool'][1]['0'].z == s[1]) if isinstance(v, VEnum) and 'Bool' in v.vs else F
        if k == 'int':
            return v.z == s[1] if isinstance(v, VInt) else F
        if k == 'den':
            return s[1](e)
        if isinstance(v, VEnum) and v.ty[1].endswith('parse::Value') and k in ('none', 'some', 'struct', 'call', 'list'):
            return F      # the user's expression where something else belongs
        if isinstance(v, (VBool, VInt, VStr)):
            return F
        raise Unsupported(f'generated hole {getattr(v,'z',v)} {v.ty} for {s}')
    if k == 'den':
        return s[1](e)
    if k in ('user', 'str', 'int'):
        if k == 'str' and e[0] == 'lit':
            return V.eq(VStr(rust_str(e[1])), s[1])
        if e[0] in ('lit', 'bool', 'list', 'struct', 'tuple') or is_opt(e) or e[0] == 'path':
            return F
        raise Unsupported(f'generated {e[0]} for the expression of the user')
    if k == 'bool':
        return z3.BoolVal(e[1]) == s[1] if e[0] == 'bool' else F
    if k == 'none':
        if e[0] == 'path' and e[1][-1] == 'None': return T
        if is_opt(e): return F
        raise Unsupported('generated option')
    if k == 'some':
        if e[0] == 'call' and e[1][-1] == 'Some' and len(e[2]) == 1: return agree(e[2][0], s[1])
        if is_opt(e): return F
        raise Unsupported('generated option')
    if k == 'call' and e[0] == 'call':
        if not name_eq(e[1], s[1]): return F
        if len(e[2]) != len(s[2]): return F
        return z3.And([agree(a, b) for a, b in zip(e[2], s[2])] + [T])
    if k == 'call' and not s[2] and e[0] == 'path':
        return z3.BoolVal(name_eq(e[1], s[1]))
    if k == 'struct' and e[0] == 'struct':
        if not name_eq(e[1], s[1]): return F
        if set(e[2]) != set(s[2]): raise Unsupported(f'fields of {s[1]}: {sorted(set(e[2]) ^ set(s[2]))}')
        return z3.And([agree(e[2][f], s[2][f]) for f in s[2]])
    if k == 'tuple' and e[0] == 'tuple':
        if len(e[1]) != len(s[1]): return F
        return z3.And([agree(a, b) for a, b in zip(e[1], s[1])])
    if k == 'list' and e[0] == 'list':
        return list_agree(e[1], s[1], s[2])
    if k in ('struct', 'call', 'list', 'tuple') and e[0] in ('struct', 'call', 'list', 'tuple', 'path', 'lit', 'bool') and not (e[0] == 'call' and k != 'call' and not e[1][-1][:1].isupper()):
        return F
    raise Unsupported(f'generated {e[0]} for {k}')


def list_agree(es, n, f):
    if len(es) == 1 and es[0][0] == 'rep':
        _, sep, rn, guard, get = es[0][1]
        i = z3.Int(f'ag!{W.uid()}')
        body = flat(get(i))
        if body and body[-1][0] == 'p' and body[-1][1] == ',':
            body = body[:-1]
        elif sep != ',':
            return z3.And(n == rn, rn <= 1)       # elements run into each other
        g = guard(i) if guard is not None else T
        return z3.And(n == rn, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(g, agree(whole(body), f(i))))))
    if any(x[0] == 'rep' for x in es):
        raise Unsupported('generated list')
    return z3.And([n == len(es)] + [agree(x, f(z3.IntVal(i))) for i, x in enumerate(es)])


def is_opt(e):
    return (e[0] == 'call' and e[1][-1] == 'Some') or (e[0] == 'path' and e[1][-1] == 'None')


def name_eq(segs, name):
    want = name.split('::')
    return segs[-len(want):] == want


def rust_str(lit):
    import ast
    return ast.literal_eval(lit)
