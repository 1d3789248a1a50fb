"""What is issued is the holder's data: the subject's dataset, narrowed to what was authorized and asked for, bound to the key that
proved possession and signed by the issuer."""
from cred import *

DRIVER = ('issuer',)
DATASET = adt(P + 'Dataset')
STATUS = option(adt('vercre_core::Quota', adt('vercre_w3c_vc::model::vc::CredentialStatus')))


def dataset(sp, q): return N(V.app('Subject.dataset', [sp.s.subject_id.some.z, q], result(DATASET, ANY)))
def status(sp, q): return N(V.app('Status.status', [sp.s.subject_id.some.z, q], result(STATUS, ANY)))


def asked(sp):
    """(does the request narrow the claims, key -> is it asked for)"""
    o = claims_of_format(sp.fmt)
    return z3.And(z3.Not(sp.by_id), o.is_some), lambda k: o.some.has(k)


def contract(c):
    req, now0, rs = run(c)
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        if z3.is_false(v.is_('Ok')):
            continue
        sp = Spec(req, now0)
        r = v.as_('Ok').response
        hyp = [own_name(sp), v.is_('Ok'), z3.Not(r.is_('TransactionId'))] + fresh_gens(s, req.access_token.z)
        if c.cover('credential issued', s, hyp) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        jwt, mdoc = calls(s, 'vc_jwt'), calls(s, 'mdoc')
        if len(jwt) + len(mdoc) != 1:
            c.fail('one credential is signed per request', f'{len(jwt)} and {len(mdoc)}')
            continue
        a, res = (jwt or mdoc)[0]
        fmt = sp.cfg.format
        c.prove('the credential returned is the one signed', s,
                z3.And(res.is_('Ok'), r.is_('Credential'), r.as_('Credential').is_('String'), r.as_('Credential').as_('String').z == res.as_('Ok').z), hyp)
        sg = N(V.app('signer', [req.credential_issuer.z], result(opaque('Signer'), ANY)))
        c.prove('it is signed by the issuer', s, z3.And(sg.is_('Ok'), to_term(a[-1]) == sg.as_('Ok').term()), hyp)
        c.prove('it has the format of its configuration', s, fmt.is_('JwtVcJson' if jwt else 'IsoMdl'), hyp)
        if jwt:
            c.prove('it is encoded as a JWT', s, N(a[0]).is_('JwtVcJson'), hyp)
            p = N(a[1])
            c.prove('what is signed is a credential', s, p.is_('Vc'), hyp)
            vc, iat = p.as_('Vc', 'vc'), p.as_('Vc', 'issued_at').z
            sub = vc.credential_subject
            c.prove('the credential has one subject', s, sub.is_('One'), hyp)
            claims = sub.as_('One').claims
            i = z3.Int('i!h')
            sid = sub.as_('One').id
            c.prove('the subject is the DID of a key that signed a proof', s,
                    z3.Implies(sp.pts.is_some, z3.And(sid.is_some, exists(sp.n, lambda i: z3.And(sp.proof_ok(i), sid.some.z == sp.holder(i))))), hyp)
            c.prove('it is dated when it was issued', s, z3.And(iat * SEC > now0 - SEC, iat * SEC <= end_clock(s)), hyp)
            c.prove('it names the issuer', s, z3.And(vc.issuer.is_('String'), vc.issuer.as_('String').z == sp.iss.credential_issuer.z), hyp)
            ty = fmt.as_('JwtVcJson').credential_definition.type_
            c.prove('it has the type of its configuration', s, z3.And(ty.is_some, ty.some.n >= 2, vc.type_.is_('Many'),
                    contains(vc.type_.as_('Many'), ty.some.at(z3.IntVal(1)).v)), hyp)
        else:
            claims = N(a[0])
        for which, cond in (('identifier', sp.by_id), ('format', z3.Not(sp.by_id))):
            h = hyp + [cond]
            narrow, is_asked = asked(sp)
            k = z3.Const('k!c', Str)

            def right(q):
                """the claims are those of the credential the token holds under q"""
                rec = sp.creds.get(q)
                d = dataset(sp, rec.credential_identifier.z)
                dc = d.as_('Ok').claims
                ids = rec.claim_ids
                want = lambda k: z3.And(dc.has(k), z3.Implies(ids.is_some, contains(ids.some, VStr([k]))), z3.Implies(narrow, is_asked(k)))
                st = status(sp, rec.credential_identifier.z)
                return z3.And(sp.covers(q), d.is_('Ok'), z3.Not(d.as_('Ok').pending.z),
                              z3.ForAll([k], z3.And(claims.has(k) == want(k), z3.Implies(claims.has(k), claims.get(k).term() == dc.get(k).term()))),
                              z3.And(st.is_('Ok'), vc.credential_status.eq(st.as_('Ok'))) if jwt else z3.BoolVal(True))
            q = z3.Const('q!c', Str)
            goal = right(sp.id) if which == 'identifier' else z3.Exists([q], right(q))
            c.prove(f'the claims and status are exactly those of the credential requested by {which}, narrowed to what was authorized and asked for', s, goal, h)
    if not n:
        c.fail('credentials can be issued', 'no execution issues a credential')
