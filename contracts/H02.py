"""A wallet asks an issuer for a token for what its holder accepted (token, authorize)."""
from hold import *
from H01 import step, profile, set_of, remote

DRIVER = ('holder',)
TR, TQ = adt(P + 'TokenResponse'), adt(P + 'TokenRequest')


def cfg(iss, x):
    """the configuration an authorized detail is for: (known, id)"""
    cr = x.authorization_detail.credential
    r = N(V.app('config_id', [iss.term(), cr.as_('Format').term()], result(STR, ANY)))
    ci = cr.is_('ConfigurationId')
    return z3.Or(ci, r.is_('Ok')), z3.If(ci, cr.as_('ConfigurationId', 'credential_configuration_id').z, r.as_('Ok').z)


def report(c, name, s, iss, tok, r, hyp, nonempty):
    """the wallet is told the credentials the token is for"""
    ds = tok.authorization_details
    there = z3.And(ds.is_some, ds.some.n > 0) if nonempty else ds.is_some
    c.prove(f'{name}: the wallet is told what the token is for, if the issuer says', s, r.authorized.is_some == there, hyp)
    m, k, d = r.authorized.some, z3.Const('k!auth', Str), ds.some
    hyp = hyp + [there]
    i = z3.Int('i!auth')
    c.prove(f'{name}: every credential authorized is reported', s, z3.Implies(z3.And(0 <= i, i < d.n), m.has(cfg(iss, d.at(i))[1])), hyp)
    c.prove(f'{name}: nothing else is, and with the identifiers given', s, z3.Implies(
        m.has(k), exists(d.n, lambda j: z3.And(cfg(iss, d.at(j))[1] == k, m.get(k).eq(d.at(j).credential_identifiers)))), hyp)


def resolved(iss, tok, nonempty=False):
    d = tok.authorization_details
    return z3.Implies(d.is_some, forall(d.some.n, lambda i: cfg(iss, d.some.at(i))[0]))


def one_call(c, name, s, what):
    """the one request of this kind"""
    cs = calls(s, what)
    if len(cs) != 1:
        c.fail(f'{name}: one {what} request', f'{len(cs)} are made')
        return None, None
    return N(cs[0][0][0]), cs[0][1]


def token(c):
    st, now0 = start()
    kv = sym('issuance_id', STR)
    key = kv.z
    f = flow(key).as_('Ok')
    pre = f.offer.grants.some.pre_authorized_code
    ready = z3.And(flow(key).is_('Ok'), f.offer.grants.is_some, pre.is_some, f.status.is_('Accepted'))
    rs = c.run(HI + 'token::token', [sym('provider', PROV), kv], st)
    no_panic(c, 'token', rs)
    own = [z3.Implies(flow(key).is_('Ok'), f.id.z == key)]
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove('token: only in a pre-authorized flow that is accepted', s, z3.Implies(ok_, ready), own)
        c.prove('token: nothing is removed', s, z3.BoolVal(not purges(s)))
        cs = calls(s, 'token')
        c.prove('token: requested only then', s, z3.Implies(z3.BoolVal(bool(cs)), ready), own)
        if not cs:
            c.prove('token: requested whenever the flow is ready', s, z3.Not(ready), own)
            c.prove('token: without a request nothing changes', s, z3.And(z3.Not(ok_), z3.BoolVal(not puts(s))), own)
            continue
        if c.cover('token: requested', s, own) == 'unsat':
            c.obls.pop()
            continue
        q, tr = one_call(c, 'token', s, 'token')
        if q is None:
            continue
        g = q.grant_type
        c.prove('token: with the code offered and the PIN given', s, z3.And(
            g.is_('PreAuthorizedCode'), g.as_('PreAuthorizedCode', 'pre_authorized_code').eq(pre.some.pre_authorized_code),
            g.as_('PreAuthorizedCode', 'tx_code').eq(f.pin)), own)
        c.prove('token: from the issuer of the flow, by its client, for what was accepted', s, z3.And(
            q.credential_issuer.eq(f.issuer.credential_issuer), q.client_id.is_some, q.client_id.some.eq(f.client_id),
            q.authorization_details.eq(f.accepted)), own)
        t = tr.as_('Ok')
        may = z3.And(tr.is_('Ok'), resolved(f.issuer, t))
        c.prove('token: only if the issuer grants one', s, z3.Implies(ok_, may), own)
        if not io_failed(s):
            c.prove('token: whenever the issuer grants one', s, z3.Implies(may, ok_), own)
        if not puts(s):
            c.prove('token: a token granted is kept', s, z3.Not(ok_), own)
            continue
        c.prove('token: no token, no change', s, ok_, own)
        n += 1
        kept(c, 'token', s, f, key, tr.as_('Ok'), v.as_('Ok'), own + [ok_], ('token', 'status'))
        report(c, 'token', s, f.issuer, t, v.as_('Ok'), own + [ok_], False)
    if not n:
        c.fail('token: possible', 'no execution gets one')


def kept(c, name, s, f, key, tok, r, hyp, changed):
    if len(puts(s)) != 1:
        c.fail(f'{name}: the flow is kept once', f'{len(puts(s))} times')
        return None
    _, k, sv, exp = puts(s)[0]
    sv = val(c, s, sv)
    c.prove(f'{name}: the token is kept with the flow', s, z3.And(sv.token.eq(tok), sv.status.is_('TokenReceived'), k == key, sv.id.z == key, r.issuance_id.z == key, N(exp).z >= end_clock(s)), hyp)
    c.prove(f'{name}: nothing else in the flow changes', s, same_but(f, sv, *changed), hyp)
    return sv


def authorize(c, by_wallet):
    st, now0 = start()
    name = 'authorize, started by the wallet' if by_wallet else 'authorize'
    req = N(sym('req', adt(HI + 'authorize::AuthorizeRequest')))
    ini = req.initiator
    st.add(ini.is_('Wallet' if by_wallet else 'Issuer'))
    det = req.authorization_details
    rs = c.run(HI + 'authorize::authorize', [sym('provider', PROV), req.v], st)
    no_panic(c, name, rs)
    if by_wallet:
        W_ = lambda x: ini.as_('Wallet', x)
        cid, scope = W_('issuer'), W_('scope')
        mq = VStruct(adt(P + 'MetadataRequest'), {'credential_issuer': cid.v, 'languages': none(STR)})
        aq = VStruct(adt(P + 'OAuthServerRequest'), {'credential_issuer': cid.v, 'issuer': none(STR)})
        m = remote('metadata', mq, adt(P + 'MetadataResponse'))
        a = remote('oauth_server', aq, adt(P + 'OAuthServerResponse'))
        iss, srv = m.as_('Ok').credential_issuer, a.as_('Ok').authorization_server
        ready = z3.And(z3.Not(z3.And(det.is_some, scope.is_some)), m.is_('Ok'), a.is_('Ok'), z3.Or(det.is_some, scope.is_some))
        own, client, subject = [], W_('client_id'), W_('subject_id')
    else:
        key = ini.as_('Issuer', 'issuance_id').z
        f = flow(key).as_('Ok')
        own = [z3.Implies(flow(key).is_('Ok'), f.id.z == key)]
        iss, srv, client, subject = f.issuer, f.authorization_server, f.client_id, f.subject_id
        g, gt = f.offer.grants, srv.oauth.grant_types_supported
        sup = iss.credential_configurations_supported
        ids = f.offer.credential_configuration_ids
        narrowed = z3.Or(det.is_some, f.accepted.is_some)
        ready = z3.And(flow(key).is_('Ok'), f.status.is_('Accepted'), z3.If(
            g.is_some, g.some.authorization_code.is_some, z3.And(gt.is_some, has_variant(gt.some, 'AuthorizationCode'))),
            z3.Or(narrowed, forall(ids.n, lambda i: sup.has(ids.at(i).z))))
    ms = srv.oauth.code_challenge_methods_supported
    ready = z3.And(ready, ms.is_some, ms.some.n > 0, srv.oauth.response_types_supported.n > 0)
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove(f'{name}: nothing is removed', s, z3.BoolVal(not purges(s)))
        ac, tc = calls(s, 'authorization'), calls(s, 'token')
        if not ac:
            c.prove(f'{name}: authorization is requested whenever the flow allows it', s, z3.Not(ready), own)
            c.prove(f'{name}: without it nothing changes', s, z3.And(z3.Not(ok_), z3.BoolVal(not puts(s) and not tc)), own)
            continue
        if c.cover(f'{name}: requested', s, own) == 'unsat':
            c.obls.pop()
            continue
        c.prove(f'{name}: authorization is requested only when the flow allows it', s, ready, own)
        aq, ar = one_call(c, name, s, 'authorization')
        if aq is None:
            continue
        c.prove(f'{name}: the request is sent as such', s, aq.is_('Object'), own)
        o = aq.as_('Object')
        c.prove(f'{name}: authorization from the issuer of the flow, for its client and holder', s, z3.And(
            o.credential_issuer.eq(iss.credential_issuer), o.client_id.eq(client), o.subject_id.eq(subject), o.redirect_uri.eq(req.redirect_uri)), own)
        vs = gens(s, 'code_verifier')
        if len(vs) != 1:
            c.fail(f'{name}: a new code verifier', f'{len(vs)} are made')
            continue
        ver = vs[0]
        c.prove(f'{name}: bound to a new code verifier', s, z3.And(
            o.code_challenge.z == V.app('code_challenge', [ver], STR).z, o.code_challenge_method.is_('S256')), own)
        if by_wallet:
            c.prove(f'{name}: for the scope or the credentials the wallet names', s, z3.And(
                o.scope.eq(scope), o.authorization_details.eq(det), z3.Not(o.issuer_state.is_some)), own)
            acc = det
        else:
            acode = g.some.authorization_code
            c.prove(f'{name}: for the offer', s, z3.And(
                z3.Not(o.scope.is_some), o.issuer_state.is_some == z3.And(g.is_some, acode.is_some, acode.some.issuer_state.is_some),
                z3.Implies(o.issuer_state.is_some, o.issuer_state.eq(acode.some.issuer_state))), own)
            d = o.authorization_details
            acc = N(ite(det.is_some, det.v, f.accepted.v))
            c.prove(f'{name}: for exactly what was asked for, or else accepted', s, z3.Implies(narrowed, d.eq(acc)), own)
            i = z3.Int('i!all')
            hyp = own + [z3.Not(narrowed)]
            c.prove(f'{name}: or else for all on offer', s, z3.And(d.is_some, d.some.n == ids.n), hyp)
            hyp = hyp + [0 <= i, i < ids.n]
            cr = d.some.at(i).credential
            cl = cr.as_('ConfigurationId', 'claims')
            fmt = sup.get(ids.at(i).z).format
            fc = claims_of_format(fmt)
            c.prove(f'{name}: each credential on offer, with all its claims', s, z3.And(
                cr.is_('ConfigurationId'), cr.as_('ConfigurationId', 'credential_configuration_id').eq(ids.at(i)), cl.is_some == fc.is_some,
                z3.Implies(cl.is_some, profile(fmt, fc.some, cl.some))), hyp)
        if not tc:
            c.prove(f'{name}: a token is requested once authorized', s, z3.And(z3.Not(ar.is_('Ok')), z3.Not(ok_), z3.BoolVal(not puts(s))), own)
            continue
        q, tr = one_call(c, name, s, 'token')
        if q is None:
            continue
        g2 = q.grant_type
        c.prove(f'{name}: the token is requested with the code, redirect URI and code verifier of the authorization', s, z3.And(
            ar.is_('Ok'), g2.is_('AuthorizationCode'), g2.as_('AuthorizationCode', 'code').eq(ar.as_('Ok').code),
            g2.as_('AuthorizationCode', 'redirect_uri').eq(req.redirect_uri),
            g2.as_('AuthorizationCode', 'code_verifier').is_some, g2.as_('AuthorizationCode', 'code_verifier').some.z == ver), own)
        c.prove(f'{name}: from the same issuer, by the same client, for the same credentials', s, z3.And(
            q.credential_issuer.eq(iss.credential_issuer), q.client_id.is_some, q.client_id.some.eq(client),
            q.authorization_details.eq(acc)), own)
        t = tr.as_('Ok')
        may = z3.And(tr.is_('Ok'), resolved(iss, t))
        c.prove(f'{name}: only if the issuer grants a token', s, z3.Implies(ok_, may), own)
        if not io_failed(s):
            c.prove(f'{name}: whenever the issuer grants one', s, z3.Implies(may, ok_), own)
        if not puts(s):
            c.prove(f'{name}: a token granted is kept', s, z3.Not(ok_), own)
            continue
        c.prove(f'{name}: no token, no change', s, ok_, own)
        n += 1
        hyp = own + [ok_]
        r = v.as_('Ok')
        if by_wallet:
            if len(puts(s)) != 1:
                c.fail(f'{name}: the flow is kept once', f'{len(puts(s))} times')
                continue
            _, k, sv, exp = puts(s)[0]
            sv = val(c, s, sv)
            c.prove(f'{name}: the token is kept with the flow, under a new name', s, z3.And(
                one_of(k, uuids(s) + gens(s)), sv.id.z == k, r.issuance_id.z == k, sv.token.eq(t), sv.status.is_('TokenReceived'), N(exp).z >= end_clock(s)), hyp)
            c.prove(f'{name}: the flow is of this client, holder and issuer', s, z3.And(
                sv.client_id.eq(client), sv.subject_id.eq(subject), sv.issuer.eq(iss), sv.authorization_server.eq(srv), sv.scope.eq(scope), sv.accepted.eq(det)), hyp)
            kk = z3.Const('k!d', Str)
            c.prove(f'{name}: nothing is received yet', s, z3.And(sv.credentials.n == 0, z3.Not(sv.deferred.has(kk)), z3.Not(sv.notification_id.is_some)), hyp)
        else:
            sv = kept(c, name, s, f, key, t, r, hyp, ('token', 'status', 'accepted', 'code_verifier', 'code_challenge'))
            if sv is None:
                continue
            c.prove(f'{name}: what was authorized is kept as accepted', s, sv.accepted.eq(acc), hyp)
        report(c, name, s, iss, t, r, hyp, True)
    if not n:
        c.fail(f'{name}: possible', 'no execution gets a token')


def contract(c):
    c.ex.any_types = ('LangString', 'LangValue')
    install(c)
    c.ex.contracts['vercre_core::pkce::code_verifier'] = generator('code_verifier')
    token(c)
    authorize(c, False)
    authorize(c, True)
