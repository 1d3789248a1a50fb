"""An offer stands for exactly what was requested and authorized, under a code of its own, and is handed out once."""
from az import *

DRIVER = ('issuer',)
CO = adt(P + 'CreateOfferRequest')
OR = adt(P + 'CredentialOfferRequest')


def contract(c):
    create(c)
    retrieve(c)


def create(c):
    install(c)
    st, now0 = start()
    r0 = sym('req', CO)
    rs = c.run('vercre_issuer::create_offer::create_offer', [sym('provider', PROV), r0], st)
    no_panic(c, 'create_offer', rs)
    req = N(r0)
    iss_r, sv_r = issuer_of(req.credential_issuer.z), server_of(req.credential_issuer.z)
    iss, sv = iss_r.as_('Ok'), sv_r.as_('Ok')
    ids = req.credential_configuration_ids
    gts = req.grant_types
    gt = lambda name: z3.And(gts.is_some, has_variant(gts.some, name))
    pre, code = gt('PreAuthorizedCode'), gt('AuthorizationCode')
    sup = sv.oauth.grant_types_supported
    conditions = {
        'issuer and server are known': z3.And(iss_r.is_('Ok'), sv_r.is_('Ok')),
        'it names an issuer and credentials': z3.And(req.credential_issuer.z != W.lit(''), ids.n > 0),
        'every credential is supported': forall(ids.n, lambda i: iss.credential_configurations_supported.has(ids.at(i).z)),
        'the server supports every grant': z3.Implies(z3.And(gts.is_some, sup.is_some), forall(gts.some.n, lambda i: contains(sup.some, gts.some.at(i).v))),
        'a pre-authorized offer is made to a holder': z3.Implies(pre, req.subject_id.is_some),
    }
    auth = lambda i: authorize_of(req.subject_id.some.z, ids.at(i).z)
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        if z3.is_false(v.is_('Ok')):
            if not io_failed(s):
                c.prove('a refused offer stores nothing', s, z3.BoolVal(not puts(s) and not purges(s)))
                c.prove('a valid request is refused only if the holder is not authorized', s,
                        z3.Not(z3.And(list(conditions.values()) + [z3.Implies(pre, forall(ids.n, lambda i: auth(i).is_('Ok')))])))
            continue
        hyp = [v.is_('Ok')] + fresh_gens(s)
        if c.cover('offer made', s, hyp) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        for k, g in conditions.items():
            c.prove(f'an offer is made only if {k}', s, g, hyp)
        resp = v.as_('Ok')
        want_tx = z3.And(req.tx_code_required.z, pre)
        tx = resp.tx_code
        c.prove('a transaction code is made for a pre-authorized offer that requires one, and only then', s, tx.is_some == want_tx, hyp)
        if not z3.is_false(z3.simplify(tx.is_some)):
            c.prove('a transaction code is newly generated', s, z3.Implies(tx.is_some, one_of(tx.some.z, gens(s, 'tx_code') or gens(s))), hyp)
        byval = req.send_type.is_('ByVal')
        c.prove('the offer is sent as asked', s, resp.offer_type.is_('Object') == byval, hyp)
        offered, pending = [], []
        for _, key, x, exp in puts(s):
            x = val(c, s, x)
            (pending if z3.is_false(z3.simplify(x.stage.is_('Offered'))) else offered).append((key, x, exp))
        if len(offered) > 1 or len(pending) > 1:
            c.fail('one offer is stored per request', f'{len(offered)} and {len(pending)}')
            continue
        if pending:
            key, x, exp = pending[0]
            c.prove('only an offer to be retrieved is stored for retrieval', s, z3.And(z3.Not(byval), x.stage.is_('Pending')), hyp)
            c.prove('the offer is retrievable under the name in its URI, which is a new one, for 5 minutes', s,
                    z3.And(resp.offer_type.as_('Uri').z == VStr([req.credential_issuer.z, '/credential_offer/', key]).z,
                           one_of(key, gens(s, 'uri_token') or gens(s)), within(x.expires_at.z, now0, s, 300), N(exp).z >= x.expires_at.z), hyp)
            offer = x.stage.as_('Pending')
        else:
            c.prove('an offer not sent is stored for retrieval', s, byval, hyp)
            offer = resp.offer_type.as_('Object')
        g = offer.grants.some
        p, a = g.pre_authorized_code, g.authorization_code
        c.prove('the offer is that of the issuer, for the credentials requested', s, z3.And(offer.credential_issuer.z == req.credential_issuer.z, offer.credential_configuration_ids.eq(ids)), hyp)
        c.prove('it has exactly the grants requested', s, z3.And(
            offer.grants.is_some == z3.Or(pre, code), z3.Implies(offer.grants.is_some, z3.And(p.is_some == pre, a.is_some == code))), hyp)
        c.prove('it announces a transaction code exactly if there is one', s, z3.Implies(z3.And(offer.grants.is_some, p.is_some), p.some.tx_code.is_some == want_tx), hyp)
        if not offered:
            c.prove('an offer with grants is stored', s, z3.Not(offer.grants.is_some), hyp)
            continue
        key, x, exp = offered[0]
        o = x.stage.as_('Offered')
        c.prove('what is stored is an offer, for 5 minutes', s, z3.And(x.stage.is_('Offered'), within(x.expires_at.z, now0, s, 300), N(exp).z >= x.expires_at.z), hyp)
        c.prove('it is stored under the code in the offer, which is a new one', s, z3.And(
            z3.Or(pre, code), z3.Implies(pre, p.some.pre_authorized_code.z == key),
            z3.Implies(code, z3.And(a.some.issuer_state.is_some, a.some.issuer_state.some.z == key)),
            one_of(key, gens(s, 'auth_code') or gens(s))), hyp)
        c.prove('it is bound to the holder and to the transaction code returned', s, z3.And(x.subject_id.eq(req.subject_id), o.tx_code.eq(tx)), hyp)
        c.prove('it can be redeemed without authorization exactly if it is a pre-authorized one', s, o.items.is_some == pre, hyp)
        i = z3.Int('i!o')
        it = o.items.some.at(i)
        inr = z3.And(o.items.is_some, 0 <= i, i < o.items.some.n)
        d = it.item.as_('AuthorizationDetail')
        c.prove('it covers exactly the credentials requested', s, z3.Implies(o.items.is_some, o.items.some.n == ids.n), hyp)
        c.prove('each under its own configuration, with the identifiers the holder is authorized for', s, z3.Implies(inr, z3.And(
            it.credential_configuration_id.z == ids.at(i).z, auth(i).is_('Ok'), it.credential_identifiers.eq(auth(i).as_('Ok')),
            it.item.is_('AuthorizationDetail'), d.credential.is_('ConfigurationId'),
            d.credential.as_('ConfigurationId', 'credential_configuration_id').z == ids.at(i).z,
            z3.Not(d.credential.as_('ConfigurationId', 'claims').is_some))), hyp)
    if not n:
        c.fail('offers can be made', 'no execution makes one')


def retrieve(c):
    st, now0 = start()
    r0 = sym('oreq', OR)
    rs = c.run('vercre_issuer::credential_offer::credential_offer', [sym('provider', PROV), r0], st)
    no_panic(c, 'credential_offer', rs)
    req = N(r0)
    g = stored(req.id.z)
    x = g.as_('Ok')
    o = x.stage.as_('Pending')
    cond = lambda t: z3.And(g.is_('Ok'), not_expired(x.expires_at.z, t), x.stage.is_('Pending'), o.credential_issuer.z == req.credential_issuer.z)
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        c.prove('retrieving an offer stores nothing', s, z3.BoolVal(not puts(s)))
        for _, k in purges(s):
            c.prove('only the offer itself is removed', s, k == req.id.z)
        if not z3.is_false(v.is_('Ok')):
            n += 1
            c.cover('offer handed out', s, [v.is_('Ok')])
            c.prove('an offer is handed out only if it is known, unexpired and that of the issuer', s, z3.Implies(v.is_('Ok'), cond(now0)))
            c.prove('it is handed out as it was made', s, z3.Implies(v.is_('Ok'), v.as_('Ok').credential_offer.eq(o)))
            c.prove('it is handed out once', s, z3.Implies(v.is_('Ok'), z3.Or([k == req.id.z for _, k in purges(s)] or [F])))
        if not io_failed(s):
            c.prove('an open offer is handed out', s, z3.Implies(cond(end_clock(s) + 2 * SEC), v.is_('Ok')))
    if not n:
        c.fail('offers can be retrieved', 'no execution hands one out')
