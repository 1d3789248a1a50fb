"""A token is granted for the grant it was issued to, and to nobody else."""
from iss import *

DRIVER = ('issuer',)
ASSUMPTIONS = ['the state store returns what was put under a key until it is purged; puts and purges may fail at any call',
               'metadata look-ups are functions of their arguments within one request',
               'generated codes and tokens (C02) collide with nothing',
               'the clock does not run backwards']
TR = adt(P + 'TokenRequest')


def spec(req, st0, now):
    """may the request be granted, up to the choice of credentials"""
    g = req.grant_type
    pre, auth = g.is_('PreAuthorizedCode'), g.is_('AuthorizationCode')
    code = z3.If(pre, g.as_('PreAuthorizedCode', 'pre_authorized_code').z, g.as_('AuthorizationCode', 'code').z)
    st = stored(code)
    s = st.as_('Ok')
    sv = server_of(req.credential_issuer.z)
    server = sv.as_('Ok')
    gts = server.oauth.grant_types_supported
    offer, az = s.stage.as_('Offered'), s.stage.as_('Authorized')
    cid = req.client_id
    empty = z3.Or(z3.Not(cid.is_some), cid.some.z == W.lit(''))
    pre_ok = z3.And(s.stage.is_('Offered'), has_variant(gts.some, 'PreAuthorizedCode'),
                    z3.Or(z3.Not(empty), server.pre_authorized_grant_anonymous_access_supported.z),
                    g.as_('PreAuthorizedCode', 'tx_code').eq(offer.tx_code))
    ver = g.as_('AuthorizationCode', 'code_verifier')
    chal = V.app('code_challenge', [ver.some.z], STR).z
    auth_ok = z3.And(s.stage.is_('Authorized'), has_variant(gts.some, 'AuthorizationCode'),
                     cid.is_some, cid.some.z == az.client_id.z,
                     g.as_('AuthorizationCode', 'redirect_uri').eq(az.redirect_uri),
                     ver.is_some, chal == az.code_challenge.z)
    cl = client_of(cid.some.z)
    client_ok = z3.Implies(cid.is_some, z3.And(cl.is_('Ok'), scopes_ok(cl.as_('Ok'), server)))
    return {
        'the code is known': st.is_('Ok'),
        'the code has not expired': not_expired(s.expires_at.z, now),
        'the authorization server is known and lists its grant types': z3.And(sv.is_('Ok'), gts.is_some),
        'a pre-authorized code was offered, the transaction code is the one issued, and anonymous use is allowed': z3.Implies(pre, pre_ok),
        'an authorization code is redeemed by its client, for its redirect URI, with the verifier of its challenge': z3.Implies(auth, auth_ok),
        'a named client is registered and its scopes are supported': client_ok,
    }, code, s


def run(c):
    install(c)
    st, now0 = start()
    r = sym('req', TR)
    rs = c.run('vercre_issuer::token::token', [sym('provider', PROV), r], st)
    return N(r), now0, rs


def contract(c):
    req, now0, rs = run(c)
    no_panic(c, 'token', rs)
    n = 0
    for s, v in vals(rs):
        v = deref(c, s, v)
        if not z3.is_false(v.cond('Ok')):
            c.cover('token granted', s)
            n += 1
            want, _, _ = spec(req, s, now0)
            for k, w in want.items():
                c.prove(f'a token is granted only if {k}', s, z3.Implies(v.cond('Ok'), w))
        if not z3.is_false(v.cond('Err')) and not io_failed(s):
            # refused although everything holds: only the choice of credentials can be the reason
            want, _, g = spec(req, s, end_clock(s) + 2 * SEC)
            base = z3.And(list(want.values()) + [z3.Not(req.authorization_details.is_some),
                                                 z3.Implies(g.stage.is_('Offered'), g.stage.as_('Offered').items.is_some)])
            c.prove('a request that meets every condition is not refused', s, z3.Implies(v.cond('Err'), z3.Not(base)))
    if not n:
        c.fail('tokens can be granted', 'no execution grants a token')
