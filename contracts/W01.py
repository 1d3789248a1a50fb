"""Securing a credential or presentation signs exactly it; verifying a token yields exactly what was signed."""
from iss import *

DRIVER = ('w3c',)
W3 = 'vercre_w3c_vc::'
FMT, PAY = adt(W3 + 'proof::W3cFormat'), adt(W3 + 'proof::Payload')
VCC, VPC = adt(W3 + 'proof::jose::VcClaims'), adt(W3 + 'proof::jose::VpClaims')
SIG = opaque('Signer')
ASSUMPTIONS = ['jws::encode signs the claims given; jws::decode succeeds only on a token validly signed by the key its kid names',
               'the clock does not run backwards']


def encoded(ex, st, fr, a, exp, ta):
    vs = [ex.rv(st, x) for x in a]
    r = V.app('jws_encode', [to_term(v) for v in vs], result(STR, prov.AE))
    st.ghost['enc'] = st.ghost.get('enc', ()) + ((tuple(vs), r),)
    return [(st, 'val', r)]


def or_empty(o): return z3.If(o.is_some, o.some.z, W.lit(''))


def create(c):
    c.ex.contracts['vercre_infosec::jose::jws::encode'] = encoded
    st, now0 = start()
    fmt, pay, sg = sym('format', FMT), sym('payload', PAY), sym('signer', SIG)
    rs = c.run(W3 + 'proof::create', [fmt, pay, sg], st)
    no_panic(c, 'create', rs)
    f, p = N(fmt), N(pay)
    jwt = z3.Or(f.is_('JwtVcJson'), f.is_('JwtVcJsonLd'))
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        enc = s.ghost.get('enc', ())
        ok_ = v.is_('Ok')
        c.prove('create: only JWT formats are secured', s, z3.Implies(ok_, jwt))
        if len(enc) != 1:
            c.prove('create: nothing is signed in another format, and every payload is in a JWT format', s, z3.And(z3.Not(ok_), z3.Not(jwt)))
            continue
        (ty, cl, signer), r = enc[0]
        r, ty, cl = N(r), N(ty), N(cl)
        if z3.is_false(ok_):
            c.prove('create: what can be signed is returned', s, z3.Not(r.is_('Ok')))
            continue
        c.prove('create: the token returned is the one signed, by the signer given', s,
                z3.And(ok_ == r.is_('Ok'), z3.Implies(ok_, v.as_('Ok').z == r.as_('Ok').z), to_term(signer) == to_term(sg)))
        n += 1
        c.cover('create: signed', s)
        isvc = p.is_('Vc')
        if cl.v.ty == VCC:
            vc = p.as_('Vc', 'vc')
            c.prove('create: a credential is signed as a credential, whole', s, z3.And(isvc, ty.is_('Credential'), cl.vc.eq(vc)))
            iss = z3.If(vc.issuer.is_('String'), vc.issuer.as_('String').z, vc.issuer.as_('Object').id.z)
            q = vc.credential_subject
            many = q.as_('Many')
            sub = z3.If(q.is_('One'), or_empty(q.as_('One').id), z3.If(many.n > 0, or_empty(many.at(z3.IntVal(0)).id), W.lit('')))
            c.prove('create: issuer, subject and id of the token are those of the credential', s, z3.And(cl.iss.z == iss, cl.sub.z == sub, cl.jti.z == or_empty(vc.id)))
            until = vc.valid_until
            c.prove('create: the token is issued when said and expires with the credential', s, z3.And(
                cl.iat.z == p.as_('Vc', 'issued_at').z, cl.exp.is_some == until.is_some,
                z3.Implies(until.is_some, cl.exp.some.z == timestamp(until.some.z))))
        else:
            vp = p.as_('Vp', 'vp')
            c.prove('create: a presentation is signed as a presentation, whole', s, z3.And(p.is_('Vp'), ty.is_('Presentation'), cl.vp.eq(vp)))
            c.prove('create: a presentation is bound to its audience and nonce', s, z3.And(cl.aud.z == p.as_('Vp', 'client_id').z, cl.nonce.z == p.as_('Vp', 'nonce').z))
            c.prove('create: issuer and id of the token are holder and id of the presentation', s, z3.And(cl.iss.z == or_empty(vp.holder), cl.jti.z == or_empty(vp.id)))
            t1 = end_clock(s)
            c.prove('create: a presentation is good from now for one hour', s, z3.And(
                cl.iat.z >= timestamp(now0), cl.iat.z <= timestamp(t1), cl.nbf.z >= timestamp(now0), cl.nbf.z <= timestamp(t1),
                cl.exp.z >= timestamp(now0 + 3600 * SEC), cl.exp.z <= timestamp(t1 + 3600 * SEC)), [t1 < 10**26])
    if n < 2:
        c.fail('create: credentials and presentations can be secured', f'{n} of 2 can')


def timestamp(t): return t / SEC


def verify(c):
    st, _ = start()
    pr = sym('proof', adt(W3 + 'proof::Verify'))
    rs = c.run(W3 + 'proof::verify', [pr, sym('resolver', PROV)], st)
    no_panic(c, 'verify', rs)
    p = N(pr)
    kvc, kvp = p.as_('Vc'), p.as_('Vp')
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        t1, t2 = kvc.as_('String').z, kvp.as_('String').z
        o1, j1, _ = prov.jws_parts(t1, (VCC,))
        o2, j2, _ = prov.jws_parts(t2, (VPC,))
        vp = kvp.as_('Object')
        emb = z3.And(p.is_('Vp'), kvp.is_('Object'), vp.proof.is_some, vp.proof.some.is_('One'))
        sg1, sg2 = z3.And(p.is_('Vc'), kvc.is_('String'), o1), z3.And(p.is_('Vp'), kvp.is_('String'), o2)
        c.prove('verify: it succeeds exactly on a validly signed token of the kind asked for, or on a presentation with one embedded proof', s, ok_ == z3.Or(sg1, sg2, emb))
        if z3.is_false(ok_):
            continue
        n += 1
        r = v.as_('Ok')
        c.prove('verify: a credential is verified as a credential, a presentation as a presentation', s, z3.Implies(ok_, r.is_('Vc') == p.is_('Vc')))
        cl1, cl2 = N(j1).claims, N(j2).claims
        c.prove('verify: the credential returned is the one signed', s, z3.Implies(z3.And(ok_, p.is_('Vc')), z3.And(
            r.as_('Vc', 'vc').eq(cl1.vc), r.as_('Vc', 'issued_at').z == cl1.iat.z)))
        c.prove('verify: the presentation returned, its audience and its nonce are those signed', s, z3.Implies(z3.And(ok_, sg2), z3.And(
            r.as_('Vp', 'vp').eq(cl2.vp), r.as_('Vp', 'client_id').z == cl2.aud.z, r.as_('Vp', 'nonce').z == cl2.nonce.z)))
        ch = vp.proof.some.as_('One').challenge
        c.prove('verify: with an embedded proof the nonce is its challenge', s, z3.Implies(z3.And(ok_, emb), z3.And(
            r.as_('Vp', 'vp').eq(vp), r.as_('Vp', 'nonce').z == or_empty(ch), r.as_('Vp', 'client_id').z == W.lit(''))))
    if not n:
        c.fail('verify: tokens can be verified', 'never')


def contract(c):
    c.ex.any_types = ('LangString', 'LangValue')
    create(c)
    verify(c)
