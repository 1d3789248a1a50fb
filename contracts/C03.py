"""PKCE verifier and challenge."""
from common import *

DRIVER = ('core',)
ASSUMPTIONS = ['fastrand::usize(range) returns a value inside its range',
               'sha2::Sha256 and base64ct::Base64UrlUnpadded implement SHA-256 and unpadded base64url']
UNRES = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"


def contract(c):
    rs = c.run('vercre_core::pkce::code_verifier', [])
    no_panic(c, 'code_verifier', rs)
    for s, v in vals(rs):
        c.cover('code_verifier', s)
        cs = chars(deref(c, s, v))
        c.prove('code_verifier: 43 to 128 characters', s, z3.And(cs.n >= 43, cs.n <= 128))
        c.prove('code_verifier: only unreserved characters', s, forall(cs.n, lambda i: z3.Or([cs.get(i).z == ord(x) for x in UNRES])))
        # every length can occur
        n = z3.Int('wanted')
        for k in (43, 85, 128):
            c.cover(f'code_verifier of length {k}', s.pc + [cs.n == k])
    x = sym('verifier', STR)
    rs = c.run('vercre_core::pkce::code_challenge', [x])
    no_panic(c, 'code_challenge', rs)
    for s, v in vals(rs):
        c.cover('code_challenge', s)
        sha = V.app('sha256', [W.fn('bytes_of', [Str], U)(x.z)], opaque('digest'))
        want = V.app('b64url', [sha.z], STR)
        c.prove('code_challenge: is base64url(SHA-256(verifier)) for every verifier', s, deref(c, s, v).z == want.z)
