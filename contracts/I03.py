"""A token carries exactly what was authorized, narrowed by what was asked for."""
from I01 import *


def granted(req, items):
    """predicate on items: does the request get it; and is every requested detail authorized"""
    ds = req.authorization_details
    asked = lambda it: exists(ds.some.n, lambda j: same(it, ds.some.at(j)))
    same = lambda it, d: z3.And(it.item.is_('AuthorizationDetail'), same_credential(it.item.as_('AuthorizationDetail').credential, d.credential))
    return (lambda it: z3.Or(z3.Not(ds.is_some), asked(it))), same


def contract(c):
    req, now0, rs = run(c)
    no_panic(c, 'token', rs)
    n = 0
    g = req.grant_type
    pre = g.is_('PreAuthorizedCode')
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        _, code, st = spec(req, s, now0)
        if z3.is_false(v.is_('Ok')):
            c.prove('a refused request stores nothing', s, z3.BoolVal(not puts(s)))
            continue
        ok_ = v.is_('Ok')
        hyp = [ok_] + fresh_gens(s, code)
        resp = v.as_('Ok')
        c.cover('token granted', s)
        n += 1
        ps = puts(s)
        if len(ps) != 1:
            c.fail('one state is stored for a token', f'{len(ps)} stored')
            continue
        _, key, sv, exp = ps[0]
        sv = val(c, s, sv)
        c.prove('the token is newly generated', s, one_of(resp.access_token.z, gens(s, 'token') or gens(s)), hyp)
        c.prove('the token is stored under its own name', s, key == resp.access_token.z, hyp)
        c.prove('the stored state is that of a token', s, sv.stage.is_('Validated'), hyp)
        tok = sv.stage.as_('Validated')
        c.prove('the stored token is the one returned', s, tok.access_token.z == resp.access_token.z, hyp)
        c.prove('the nonce returned is the nonce stored, newly generated', s,
                z3.And(resp.c_nonce.is_some, resp.c_nonce.some.z == tok.c_nonce.z, one_of(tok.c_nonce.z, gens(s, 'nonce') or gens(s)), tok.c_nonce.z != resp.access_token.z), hyp)
        c.prove('the token lives 15 minutes', s, z3.And(within(sv.expires_at.z, now0, s, 900), resp.expires_in.z == 900), hyp)
        c.prove('the nonce lives 10 minutes', s, z3.And(within(tok.c_nonce_expires_at.z, now0, s, 600),
                                                        resp.c_nonce_expires_in.is_some, resp.c_nonce_expires_in.some.z == 600), hyp)
        c.prove('the store may drop the state only when it expires', s, N(exp).z >= sv.expires_at.z, hyp)
        c.prove('the token is bound to the subject of the grant', s, sv.subject_id.eq(st.subject_id), hyp)
        # the credentials
        off, az = st.stage.as_('Offered').items.some, st.stage.as_('Authorized').items
        for which, cond, items in (('offered', pre, off), ('authorized', z3.Not(pre), az)):
            h = hyp + [cond]
            get, same = granted(req, items)
            q = z3.Const('q!', Str)
            rec = tok.credentials.get(q)
            c.prove(f'every credential of the token was {which} and is one asked for', s, z3.Implies(tok.credentials.has(q), exists(items.n, lambda i: z3.And(
                get(items.at(i)), contains(items.at(i).credential_identifiers, VStr([q])),
                rec.credential_identifier.z == q, rec.credential_configuration_id.z == items.at(i).credential_configuration_id.z))), h)
            i, j = z3.Int('i!x'), z3.Int('j!x')
            inr = z3.And(0 <= i, i < items.n, 0 <= j, j < items.at(i).credential_identifiers.n)
            c.prove(f'without details the token gets all that was {which}', s,
                    z3.Implies(z3.And(z3.Not(req.authorization_details.is_some), inr), tok.credentials.has(items.at(i).credential_identifiers.at(j).z)), h)
            ds = req.authorization_details.some
            d = ds.at(i)
            ind = z3.And(req.authorization_details.is_some, 0 <= i, i < ds.n)
            c.prove(f'every detail asked for was {which}, and the token gets its credentials', s, z3.Implies(ind, exists(items.n, lambda k: z3.And(
                same(items.at(k), d), forall(items.at(k).credential_identifiers.n, lambda m: tok.credentials.has(items.at(k).credential_identifiers.at(m).z))))), h)
            iss = issuer_of(req.credential_issuer.z)
            found, cid, hascl, cl = requested(iss.as_('Ok'), d.credential)
            c.prove('the claims of every detail asked for are supported and complete', s,
                    z3.Implies(ind, z3.And(iss.is_('Ok'), found, z3.Implies(hascl, claims_fit(iss.as_('Ok'), cid, cl)))), h)
            rd = resp.authorization_details
            e = rd.some.at(j)
            c.prove(f'every detail returned is one {which} and asked for, with its identifiers', s, z3.Implies(z3.And(rd.is_some, 0 <= j, j < rd.some.n),
                    exists(items.n, lambda k: z3.And(get(items.at(k)), items.at(k).item.is_('AuthorizationDetail'), items.at(k).item.as_('AuthorizationDetail').eq(e.authorization_detail),
                                                     items.at(k).credential_identifiers.eq(e.credential_identifiers)))), h)
            c.prove('every detail granted is returned', s, z3.And(
                z3.Implies(z3.And(ind, z3.BoolVal(True)), z3.And(rd.is_some, exists(rd.some.n, lambda k: same_credential(rd.some.at(k).authorization_detail.credential, d.credential)))),
                z3.Implies(z3.And(z3.Not(req.authorization_details.is_some), 0 <= j, j < items.n, items.at(j).item.is_('AuthorizationDetail')), z3.And(rd.is_some, exists(rd.some.n, lambda k: z3.And(
                    rd.some.at(k).authorization_detail.eq(items.at(j).item.as_('AuthorizationDetail')), rd.some.at(k).credential_identifiers.eq(items.at(j).credential_identifiers)))))), h)
    if not n:
        c.fail('tokens can be granted', 'no execution grants a token')
