"""The issuance flow of a wallet: offer, accept, pin, cancel, save."""
from hold import *

DRIVER = ('holder',)


def remote(name, arg, t): return N(V.app('Issuer.' + name, [to_term(arg)], result(t, ANY)))


def set_of(vec, k):
    return exists(vec.n, lambda i: vec.at(i).z == k)


def offer(c):
    st, now0 = start()
    req = N(sym('req', adt(HI + 'offer::OfferRequest')))
    rs = c.run(HI + 'offer::offer', [sym('provider', PROV), req.v], st)
    no_panic(c, 'offer', rs)
    of, cid = req.offer, req.offer.credential_issuer
    ids = of.credential_configuration_ids
    mq = VStruct(adt(P + 'MetadataRequest'), {'credential_issuer': cid.v, 'languages': none(STR)})
    aq = VStruct(adt(P + 'OAuthServerRequest'), {'credential_issuer': cid.v, 'issuer': none(STR)})
    m = remote('metadata', mq, adt(P + 'MetadataResponse'))
    a = remote('oauth_server', aq, adt(P + 'OAuthServerResponse'))
    iss, srv = m.as_('Ok').credential_issuer, a.as_('Ok').authorization_server
    sup = iss.credential_configurations_supported
    fit = z3.And(ids.n > 0, m.is_('Ok'), a.is_('Ok'), forall(ids.n, lambda i: sup.has(ids.at(i).z)))
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove('offer: a flow starts only for an offer whose every credential its issuer supports', s, z3.Implies(ok_, fit))
        if not io_failed(s):
            c.prove('offer: such an offer starts a flow', s, z3.Implies(fit, ok_))
        c.prove('offer: nothing is removed', s, z3.BoolVal(not purges(s)))
        if not puts(s):
            c.prove('offer: a flow that starts is kept', s, z3.Not(ok_))
            continue
        c.prove('offer: an offer that is refused leaves nothing', s, ok_)
        if c.cover('offer: started', s, [ok_]) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        if len(puts(s)) != 1:
            c.fail('offer: one flow is kept', f'{len(puts(s))} are')
            continue
        _, key, sv, exp = puts(s)[0]
        sv, r = val(c, s, sv), v.as_('Ok')
        c.prove('offer: the flow is kept under a new name, which the wallet gets', s, z3.And(
            one_of(key, uuids(s) + gens(s)), sv.id.z == key, r.issuance_id.z == key), [ok_])
        c.prove('offer: it is for this client, holder and offer', s, z3.And(
            sv.client_id.eq(req.client_id), sv.subject_id.eq(req.subject_id), sv.offer.eq(of)), [ok_])
        c.prove('offer: it keeps the metadata of the issuer and its server', s, z3.And(sv.issuer.eq(iss), sv.authorization_server.eq(srv)), [ok_])
        c.prove('offer: it waits to be accepted, with nothing accepted or received yet', s, z3.And(
            sv.status.is_('Ready'), z3.Not(sv.accepted.is_some), z3.Not(sv.pin.is_some), z3.Not(sv.code_verifier.is_some),
            z3.Not(sv.scope.is_some), z3.Not(sv.notification_id.is_some), sv.credentials.n == 0), [ok_])
        k = z3.Const('k!any', Str)
        c.prove('offer: nothing is deferred', s, z3.Not(sv.deferred.has(k)), [ok_])
        c.prove('offer: it does not expire', s, N(exp).z >= end_clock(s), [ok_])
        c.prove('offer: the wallet is shown exactly the credentials offered', s, z3.And(
            r.offered.has(k) == set_of(ids, k), z3.Implies(r.offered.has(k), r.offered.get(k).eq(sup.get(k)))), [ok_])
        c.prove('offer: with their issuer and grants', s, z3.And(r.issuer.eq(cid), r.grants.eq(of.grants)), [ok_])
    if not n:
        c.fail('offer: flows can start', 'no execution starts one')


def step(c, name, req, rs, key, allowed, *, changed, then, io_ok=lambda s: True):
    """a step of a flow: possible exactly if allowed; changes only the fields named, as `then` says"""
    no_panic(c, name, rs)
    f = flow(key)
    st0 = f.as_('Ok')
    may = z3.And(f.is_('Ok'), allowed(st0))
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        own = [z3.Implies(f.is_('Ok'), st0.id.z == key)]
        c.prove(f'{name}: only when the flow is ready for it', s, z3.Implies(ok_, may), own)
        if not io_failed(s):
            c.prove(f'{name}: whenever the flow is ready for it', s, z3.Implies(may, ok_), own)
        c.prove(f'{name}: nothing is removed', s, z3.BoolVal(not purges(s)))
        if not puts(s):
            c.prove(f'{name}: a step taken is kept', s, z3.Not(ok_), own)
            continue
        c.prove(f'{name}: a step refused changes nothing', s, ok_, own)
        if c.cover(f'{name}: taken', s, [ok_] + own) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        if len(puts(s)) != 1:
            c.fail(f'{name}: the flow is kept once', f'{len(puts(s))} times')
            continue
        _, k, sv, exp = puts(s)[0]
        sv = val(c, s, sv)
        hyp = own + [ok_]
        c.prove(f'{name}: it is this flow', s, z3.And(k == key), hyp)
        c.prove(f'{name}: nothing else in the flow changes', s, same_but(st0, sv, *changed), hyp)
        c.prove(f'{name}: the flow does not expire', s, N(exp).z >= end_clock(s), hyp)
        then(s, st0, sv, v.as_('Ok'), hyp)
    if not n:
        c.fail(f'{name}: possible', 'no execution takes it')


def profile(fmt, claims, p):
    """ProfileClaims p narrows a credential of this format to these claims"""
    w3 = z3.Or([fmt.is_(x) for x in ('JwtVcJson', 'JwtVcJsonLd', 'LdpVc')])
    w = p.as_('W3c')
    return z3.And(z3.Implies(w3, z3.And(p.is_('W3c'), w.credential_subject.is_some, w.credential_subject.some.eq(claims), z3.Not(w.type_.is_some), z3.Not(w.context.is_some))),
                  z3.Implies(fmt.is_('IsoMdl'), z3.And(p.is_('IsoMdl'), p.as_('IsoMdl').eq(claims))),
                  z3.Implies(fmt.is_('VcSdJwt'), z3.And(p.is_('SdJwt'), p.as_('SdJwt').eq(claims))))


def accept(c):
    st, now0 = start()
    req = N(sym('req', adt(HI + 'accept::AcceptRequest')))
    key = req.issuance_id.z
    f = flow(key)
    acc = req.accept

    def allowed(f):
        sup, ids = f.issuer.credential_configurations_supported, f.offer.credential_configuration_ids

        def one(i):
            x = acc.some.at(i)
            k = x.credential_configuration_id.z
            return z3.And(set_of(ids, k), z3.Implies(x.claims.is_some, sup.has(k)))
        return z3.And(f.status.is_('Ready'), z3.Implies(acc.is_some, z3.And(acc.some.n > 0, forall(acc.some.n, one))))

    def then(s, st0, sv, r, hyp):
        g = st0.offer.grants
        p = g.some.pre_authorized_code
        pin = z3.And(g.is_some, p.is_some, p.some.tx_code.is_some)
        c.prove('accept: the flow waits for a PIN exactly if the offer asks for one', s, z3.And(
            sv.status.is_('PendingPin') == pin, sv.status.is_('Accepted') == z3.Not(pin)), hyp)
        c.prove('accept: everything is accepted unless narrowed', s, sv.accepted.is_some == acc.is_some, hyp)
        d, i = sv.accepted.some, z3.Int('i!acc')
        hyp = hyp + [acc.is_some]
        c.prove('accept: one detail per credential accepted', s, d.n == acc.some.n, hyp)
        hyp = hyp + [0 <= i, i < d.n]
        x, cr = acc.some.at(i), d.at(i).credential
        cl = cr.as_('ConfigurationId', 'claims')
        c.prove('accept: each names the credential accepted', s, z3.And(
            cr.is_('ConfigurationId'), cr.as_('ConfigurationId', 'credential_configuration_id').eq(x.credential_configuration_id), cl.is_some == x.claims.is_some), hyp)
        fmt = st0.issuer.credential_configurations_supported.get(x.credential_configuration_id.z).format
        c.prove('accept: each is narrowed to the claims accepted', s, z3.Implies(cl.is_some, profile(fmt, x.claims.some, cl.some)), hyp)
        c.prove('accept: the flow is named', s, r.z == key, hyp)
    rs = c.run(HI + 'accept::accept', [sym('provider', PROV), req.v], st)
    step(c, 'accept', req, rs, key, allowed, changed=('accepted', 'status'), then=then)


def pin(c):
    st, now0 = start()
    req = N(sym('req', adt(HI + 'pin::PinRequest')))
    key = req.issuance_id.z

    def then(s, st0, sv, r, hyp):
        c.prove('pin: the PIN given is kept, and the flow accepted', s, z3.And(
            sv.pin.is_some, sv.pin.some.eq(req.pin), sv.status.is_('Accepted')), hyp)
        c.prove('pin: the flow is named', s, r.z == key, hyp)
    rs = c.run(HI + 'pin::pin', [sym('provider', PROV), req.v], st)
    step(c, 'pin', req, rs, key, lambda f: f.status.is_('PendingPin'), changed=('pin', 'status'), then=then)


NR = 'NotificationRequest'


def notified(s, f, event):
    """the issuer was told this event, for the notification id of the flow, and answered"""
    cs = [z3.And(x.credential_issuer.eq(f.issuer.credential_issuer), x.access_token.eq(f.token.access_token),
                 x.notification_id.eq(f.notification_id.some), x.event.is_(event)) for x in (N(a[0]) for a, _ in calls(s, 'notification'))]
    return z3.Or(cs) if cs else z3.BoolVal(False)


def told_ok(s): return z3.And([v.is_('Ok') for _, v in calls(s, 'notification')])


def end(c, name, fn, ty):
    st, now0 = start()
    req = N(sym('req', adt(HI + ty)))
    key = req.issuance_id.z
    rs = c.run(HI + fn, [sym('provider', PROV), req.v], st)
    no_panic(c, name, rs)
    f = flow(key)
    return req, key, f, f.as_('Ok'), [z3.Implies(f.is_('Ok'), f.as_('Ok').id.z == key)], rs


def cancel(c):
    req, key, f, st0, own, rs = end(c, 'cancel', 'cancel::cancel', 'cancel::CancelRequest')
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove('cancel: only a known flow', s, z3.Implies(ok_, f.is_('Ok')), own)
        if not io_failed(s):
            c.prove('cancel: any known flow, if its issuer can be told', s, z3.Implies(z3.And(f.is_('Ok'), told_ok(s)), ok_), own)
        c.prove('cancel: nothing is stored', s, z3.BoolVal(not puts(s)))
        if not purges(s):
            c.prove('cancel: a flow cancelled is gone', s, z3.Not(ok_), own)
            continue
        c.prove('cancel: otherwise it stays', s, ok_, own)
        if c.cover('cancel: done', s, [ok_] + own) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        c.prove('cancel: it is this flow', s, z3.And(len(purges(s)) == 1, purges(s)[0][1] == key), own)
        c.prove('cancel: its issuer is told, if it asked for that', s, z3.Implies(st0.notification_id.is_some, z3.And(notified(s, st0, 'CredentialDeleted'), told_ok(s))), own)
        c.prove('cancel: and only then', s, z3.Implies(z3.BoolVal(bool(calls(s, 'notification'))), st0.notification_id.is_some), own)
        c.prove('cancel: the flow is named', s, v.as_('Ok').z == key, own + [ok_])
    if not n:
        c.fail('cancel: possible', 'no execution cancels')


def save(c):
    req, key, f, st0, own, rs = end(c, 'save', 'save::save', 'save::SaveRequest')
    kept = lambda x: N(V.app('CredentialStorer.save', [x.term()], result(UNIT, ANY))).is_('Ok')
    all_kept = forall(st0.credentials.n, lambda i: kept(st0.credentials.at(i)))
    k = z3.Const('k!def', Str)
    waits = z3.Exists([k], st0.deferred.has(k))
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove('save: only if every credential received is kept', s, z3.Implies(ok_, z3.And(f.is_('Ok'), all_kept)), own)
        if not io_failed(s):
            c.prove('save: whenever they are, if its issuer can be told', s, z3.Implies(z3.And(f.is_('Ok'), all_kept, told_ok(s)), ok_), own)
        if not purges(s) and not puts(s):
            c.prove('save: a flow whose credentials are saved is ended or kept without them', s, z3.Not(ok_), own)
            continue
        c.prove('save: otherwise it stays', s, ok_, own)
        if c.cover('save: done', s, [ok_] + own) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        if len(puts(s)) + len(purges(s)) != 1:
            c.fail('save: one change', f'{prov.log(s)}')
            continue
        c.prove('save: its issuer is told, if it asked for that', s, z3.Implies(st0.notification_id.is_some, z3.And(notified(s, st0, 'CredentialAccepted'), told_ok(s))), own)
        c.prove('save: and only then', s, z3.Implies(z3.BoolVal(bool(calls(s, 'notification'))), st0.notification_id.is_some), own)
        c.prove('save: the flow is named', s, v.as_('Ok').z == key, own + [ok_])
        if purges(s):
            c.prove('save: the flow ends only if nothing is deferred', s, z3.And(purges(s)[0][1] == key, z3.Not(waits)), own + [ok_])
            continue
        c.prove('save: the flow goes on only if something is deferred', s, waits, own + [ok_])
        _, kk, sv, exp = puts(s)[0]
        sv = val(c, s, sv)
        c.prove('save: it goes on without the credentials saved', s, z3.And(
            kk == key, sv.credentials.n == 0, same_but(st0, sv, 'credentials', 'notification_id'), N(exp).z >= end_clock(s)), own + [ok_])
        c.prove('save: and without telling its issuer again', s, z3.Not(sv.notification_id.is_some), own + [ok_])
    if not n:
        c.fail('save: possible', 'no execution saves')


def contract(c):
    c.ex.any_types = ('LangString', 'LangValue')
    install(c)
    offer(c)
    accept(c)
    pin(c)
    cancel(c)
    save(c)
