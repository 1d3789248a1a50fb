"""URL decoding: parameters are split first and decoded one by one; decoding inverts encoding."""
from common import *

DRIVER = ('core',)
FULL = frozenset(b for b in range(128) if not (chr(b).isalnum() or chr(b) in '-._~'))
ASSUMPTIONS = [
    'str::split and split_once cut exactly at the separator: proved texts contain no further separator because percent-encoding removes it',
    'percent decoding inverts percent encoding',
    'serde_json::from_value of the JSON form of a record gives the record back (derived Deserialize)',
    'a text value that is itself a JSON array or object is read as that JSON (outside the property)',
]
JV = ('adt', 'serde_json::Value', ())


def contract(c):
    ex = c.ex
    seen = []
    base = ex.fn_models['serde_json::from_value']

    def from_value(ex, st, fr, a, exp, ta):
        v = ex.rv(st, a[0])
        r = V.app('deser', [z3.Int(f'call{len(seen)}')], result(opaque('T'), opaque('serde_json::Error')))
        seen.append((st.fork(), v, r))
        return [(st, 'val', r)]
    ex.fn_models['serde_json::from_value'] = from_value
    src = sym('input', STR)
    st = State()
    # the input is the encoding of n parameters with distinct keys K(i) and texts X(i)
    n = z3.Int('n')
    K, X = W.fn('K', [I], Str), W.fn('X', [I], Str)
    i, j = z3.Int('i!'), z3.Int('j!')
    x, y = z3.Const('x!', Str), z3.Const('y!', Str)
    pct = ex.pct(VStr([x]), FULL).z.decl()
    parts = V.app('split', [src.z, W.lit('&')], ('vec', STR))
    dec = W.fn('pctdec', [Str], Str)
    pair = lambda a, b: cat_fn()(a, cat_fn()(W.lit('='), b))
    so = V.app('split_once', [pair(pct(x), y), W.lit('=')], option(('tuple', (STR, STR))))
    so = force(so)
    tup = so.vs['Some'][1]['0']
    W.axiom(W.fn('split_once', [Str, Str], U), z3.ForAll([x, y], z3.And(so.cond('Some'), tup.es[0].z == pct(x), tup.es[1].z == y), patterns=[pair(pct(x), y)]))
    W.axiom(dec, z3.ForAll([x], dec(pct(x)) == x, patterns=[dec(pct(x))]))
    W.axiom(dec, z3.ForAll([x], dec(pct(x)) == x, patterns=[pct(x)]))
    hyp = [n >= 1, parts.n == n,
           z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), parts.get(i).z == pair(pct(K(i)), pct(X(i)))), patterns=[parts.get(i).z]),
           z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), K(i) != K(j)), patterns=[z3.MultiPattern(K(i), K(j))])]
    st.add(*hyp)
    c.cover('an encoded record exists', st)
    rs = c.run('vercre_core::urlencode::from_str', [src], st, targs=(opaque('T'),))
    no_panic(c, 'from_str', rs)
    if not seen:
        raise Unsupported('from_str does not build one JSON value')
    for s, k, v in rs:
        if k != 'val':
            continue
        v = force(c.ex.deref(s, v))
        hit = []
        for s0, obj, r in seen:
            hit.append(r)
        # on encoded input no error arises before deserialization
        f = force(seen[0][2])
        bad = z3.And(v.cond('Err'), f.cond('Ok'))
        c.prove('from_str: an encoded record is rejected only by the type\'s own deserialization', s, z3.Not(bad))
        c.prove('from_str: a decoded value is the deserialized one', s, z3.Implies(v.cond('Ok'), z3.Or([eq(v.vs['Ok'][1]['0'], force(r).vs['Ok'][1]['0']) for r in hit])) if 'Ok' in v.vs else T)
    for s, obj, r in seen:
        c.cover('from_str reaches deserialization', s)
        obj = force(obj)
        c.prove('from_str: deserializes an object', s, obj.cond('Object'))
        m = obj.vs['Object'][1]['0']
        q = z3.Const('q', Str)
        w = z3.Int('w')
        c.prove('from_str: every parameter becomes a member under its decoded key', s, z3.Implies(z3.And(0 <= w, w < n), m.has(K(w))))
        e = z3.Int(f'e!{W.uid()}')
        c.prove('from_str: no member without a parameter (nothing can be injected)', s, z3.Implies(m.has(q), z3.Exists([e], z3.And(0 <= e, e < n, K(e) == q))))
        pj = force(V.app(f'from_json<{tname(JV)}>', [X(w)], result(JV, opaque('serde_json::Error'))))
        val = force(m.at(K(w)))
        got = val
        isjson = z3.And(pj.cond('Ok'), z3.Or(force(pj.vs['Ok'][1]['0']).cond('Array'), force(pj.vs['Ok'][1]['0']).cond('Object')))
        h = z3.And(0 <= w, w < n)
        c.prove('from_str: text is kept exactly', s, z3.Implies(z3.And(h, z3.Not(isjson)), z3.And(val.cond('String'), val.vs['String'][1]['0'].z == X(w))))
        c.prove('from_str: arrays and objects are read as JSON', s, z3.Implies(z3.And(h, isjson), eq(val, force(pj.vs['Ok'][1]['0']))))
    # ---- arbitrary input: a repeated parameter is an error, and nothing panics
    seen.clear()
    st = State()
    rs = c.run('vercre_core::urlencode::from_str', [src], st, targs=(opaque('T'),))
    no_panic(c, 'from_str (any input)', rs)
    one = lambda k: force(V.app('split_once', [parts.get(k).z, W.lit('=')], option(('tuple', (STR, STR)))))
    key = lambda k: dec(one(k).vs['Some'][1]['0'].es[0].z)
    a, b = z3.Int('a'), z3.Int('b')
    for s, obj, r in seen:
        c.prove('from_str (any input): a repeated parameter is rejected', s, z3.Implies(z3.And(0 <= a, a < b, b < parts.n), key(a) != key(b)))
        c.prove('from_str (any input): a parameter without = is rejected', s, z3.Implies(z3.And(0 <= a, a < parts.n), one(a).cond('Some')))
