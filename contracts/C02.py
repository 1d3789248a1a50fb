"""Generated identifiers and PINs."""
from common import *
from rvc.ex import occurs

DRIVER = ('core',)
ASSUMPTIONS = ['fastrand::usize(range) returns a uniformly drawn value inside its range; draws are independent',
               'base64url encoding of 32 bytes is a 43 character URL-safe text and is injective',
               'the generator is fastrand: unpredictability against an attacker is not claimed']
SAFE = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789)(*&^%$#@!~"
PIN = "0123456789"
IDS = ['auth_code', 'issuer_state', 'nonce', 'notification_id', 'uri_token', 'token', 'transaction_id']


def drawn(c, name, s, cs, n, alpha, ndraws):
    """the n characters are alpha[d(i)] for one draw d per position with range exactly the alphabet"""
    c.prove(f'{name}: has exactly {n} characters', s, cs.n == n)
    draws = c.ex.draws[ndraws:]
    table = VVec.of([VInt(ord(x), 'char') for x in alpha], ('int', 'char'))
    found = None
    for sym_, lo, hi, ctx in draws:
        if len(ctx) != 1 or not any(occurs(f, sym_) for f in s.pc):
            continue
        d = W.fn(sym_, [I], I)
        i = z3.Int(f'i!{W.uid()}')
        sub = lambda t: z3.substitute(t, (ctx[0], i))
        found = (d, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(sub(lo) == 0, sub(hi) == len(alpha) - 1))))
        break
    if found is None:
        raise Unsupported(f'{name}: characters are not drawn one by one')
    d, rng = found
    c.prove(f'{name}: every position draws from the whole alphabet', s, rng)
    c.prove(f'{name}: every character is the drawn one', s, forall(n, lambda i: cs.get(i).z == table.get(d(i)).z))


def contract(c):
    inv_b = W.fn('unbytes', [U], Str)
    inv_e = W.fn('unb64url', [Str], U)
    x, y = z3.Const('x!', Str), z3.Const('y!', U)
    bo, be = W.fn('bytes_of', [Str], U), W.fn('b64url', [U], Str)
    W.axiom(bo, z3.ForAll([x], inv_b(bo(x)) == x, patterns=[bo(x)]))
    W.axiom(be, z3.ForAll([y], inv_e(be(y)) == y, patterns=[be(y)]))
    for f in IDS:
        nd = len(c.ex.draws)
        rs = c.run('vercre_core::gen::' + f, [])
        no_panic(c, f, rs)
        for s, v in vals(rs):
            c.cover(f, s)
            v = deref(c, s, v)
            raw = VStr([inv_b(inv_e(v.z))])
            c.prove(f'{f}: is the base64url text of its characters', s, v.z == be(bo(raw.z)))
            drawn(c, f, s, chars(raw), 32, SAFE, nd)
    nd = len(c.ex.draws)
    rs = c.run('vercre_core::gen::tx_code', [])
    no_panic(c, 'tx_code', rs)
    for s, v in vals(rs):
        c.cover('tx_code', s)
        drawn(c, 'tx_code', s, chars(deref(c, s, v)), 6, PIN, nd)
