"""What a wallet requests and keeps: credentials, deferred."""
from hold import *
from H01 import set_of, remote
from H02 import cfg, kept
from W01 import encoded
from O02 import same_format

DRIVER = ('holder',)
W3 = 'vercre_w3c_vc::'
CC, CR = adt(P + 'CredentialConfiguration'), adt(P + 'CredentialResponse')
VC, PAY = adt(W3 + 'model::vc::VerifiableCredential'), adt(W3 + 'proof::Payload')
HC = HI + 'credentials::'
PCR = HC + 'process_credential_response'
RES = result(('tuple', (option(('vec', CRED)), option(STR))), ANY)
ASSUMPTIONS = ASSUMPTIONS + ['proof::verify yields a credential only from a validly signed token (W01)',
                             'credential_request! builds the request written (M01)',
                             'credentials gathered over several requests: bounded (driver); every single request and what is kept of its answer: proved']


def verify(ex, st, fr, a, exp, ta):
    """W01 by contract"""
    return [(st, 'val', V.app('proof_verify', [to_term(ex.rv(st, a[0]))], result(PAY, ANY)))]


def verified(kind):
    """what a credential received verifies to: (verifies, credential, issue time)"""
    arg = VEnum(adt(W3 + 'proof::Verify'), {'Vc': (z3.BoolVal(True), {'0': kind.v})})
    r = N(V.app('proof_verify', [to_term(arg)], result(PAY, ANY)))
    p = r.as_('Ok')
    return z3.And(r.is_('Ok'), p.is_('Vc')), p.as_('Vc', 'vc'), p.as_('Vc', 'issued_at').z


def usable(kind):
    ok_, vc, at = verified(kind)
    return z3.And(ok_, kind.is_('String'), V.app('ts_in_range', [at], BOOL).z)


def good(cred, kind, config):
    """what is kept of a credential received"""
    _, vc, at = verified(kind)
    iss = z3.If(vc.issuer.is_('String'), vc.issuer.as_('String').z, vc.issuer.as_('Object').id.z)
    return z3.And(cred.vc.eq(vc), cred.issued.z == kind.as_('String').z, cred.issuer.z == iss, cred.issuance_date.z == at * SEC,
                  cred.display.eq(config.display), z3.Implies(vc.id.is_some, cred.id.z == vc.id.some.z))


def logo(cred, config):
    d = config.display
    d0 = d.some.at(z3.IntVal(0)).logo
    uri = d0.some.uri
    a = N(V.app('Issuer.logo', [uri.some.z], result(adt('vercre_holder::credential::Logo'), ANY)))
    there = z3.And(d.is_some, d.some.n > 0, d0.is_some, uri.is_some, a.is_('Ok'))
    return z3.And(cred.logo.is_some == there, z3.Implies(there, cred.logo.some.eq(a.as_('Ok'))))


def receive(c):
    st, now0 = start()
    config, resp = N(sym('config', CC)), N(sym('resp', CR))
    rs = c.run(PCR, [sym('provider', PROV), config.v, resp.v], st)
    no_panic(c, 'receive', rs)
    t = resp.response
    many, single = t.as_('Credentials'), t.as_('Credential')
    fit = z3.And(z3.Implies(t.is_('Credential'), usable(single)), z3.Implies(t.is_('Credentials'), forall(many.n, lambda i: usable(many.at(i)))))
    n, i = 0, z3.Int('i!rcv')
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove('receive: only credentials that verify', s, z3.Implies(ok_, fit))
        c.prove('receive: all credentials that verify', s, z3.Implies(fit, ok_))
        c.prove('receive: the store is left alone', s, z3.BoolVal(not prov.log(s)))
        if z3.is_false(ok_):
            continue
        if c.cover('receive: received', s, [ok_]) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        cs, tx = v.as_('Ok').tup(0), v.as_('Ok').tup(1)
        c.prove('receive: a deferred credential is its transaction', s, z3.And(
            tx.is_some == t.is_('TransactionId'), cs.is_some == z3.Not(t.is_('TransactionId')), z3.Implies(tx.is_some, tx.some.z == t.as_('TransactionId').z)), [ok_])
        c.prove('receive: one credential is kept as verified', s, z3.And(cs.some.n == 1, good(cs.some.at(z3.IntVal(0)), single, config)), [ok_, t.is_('Credential')])
        c.prove('receive: with its logo', s, logo(cs.some.at(z3.IntVal(0)), config), [ok_, t.is_('Credential')])
        c.prove('receive: of several, each is kept', s, cs.some.n == many.n, [ok_, t.is_('Credentials')])
        h = [ok_, t.is_('Credentials'), 0 <= i, i < many.n]
        c.prove('receive: as verified', s, good(cs.some.at(i), many.at(i), config), h)
        c.prove('receive: each with its logo', s, logo(cs.some.at(i), config), h)
    if not n:
        c.fail('receive: possible', 'no execution receives anything')


def proof_ok(s, q, f, nonce=None):
    """the request proves possession, to the issuer of the flow"""
    p = q.proof
    j = p.some.as_('Single', 'proof_type').as_('Jwt', 'jwt')
    base = z3.And(p.is_some, p.some.is_('Single'))
    outs = []
    for (ty, cl, sg), r in s.ghost.get('enc', ()):
        cl, r, ty = N(cl), N(r), N(ty)
        g = [ty.is_('Proof'), r.is_('Ok'), r.as_('Ok').z == j.z, cl.iss.is_some, cl.iss.some.eq(f.client_id), cl.aud.eq(f.issuer.credential_issuer)]
        if nonce is not None:
            g.append(cl.nonce.eq(nonce))
        outs.append(z3.And(g))
    return z3.And(base, z3.Or(outs) if outs else z3.BoolVal(False))


def received(cf, r): return N(V.app('received', [cf, r.term()], RES))


def asked(c, name, s, q, f, own):
    c.prove(f'{name}: each request is to the issuer of the flow, with its token', s, z3.And(
        q.credential_issuer.eq(f.issuer.credential_issuer), q.access_token.eq(f.token.access_token)), own)


def credentials(c, by_scope):
    st, now0 = start()
    name = 'credentials by scope' if by_scope else 'credentials'
    req = N(sym('req', adt(HC + 'CredentialsRequest')))
    key = req.issuance_id.z
    fl = flow(key)
    f = fl.as_('Ok')
    st.add(f.scope.is_some if by_scope else z3.Not(f.scope.is_some))
    own = [z3.Implies(fl.is_('Ok'), f.id.z == key)]
    sup, ds = f.issuer.credential_configurations_supported, f.token.authorization_details
    k = z3.Const('k!cfg', Str)
    if by_scope:
        match = lambda k: z3.And(sup.has(k), sup.get(k).scope.eq(f.scope), same_format(sup.get(k).format.v, req.format.some.v))
        ready = z3.And(fl.is_('Ok'), f.status.is_('TokenReceived'), z3.Not(req.credential_identifiers.is_some), req.format.is_some, z3.Exists([k], match(k)))
    else:
        ready = z3.And(fl.is_('Ok'), f.status.is_('TokenReceived'), ds.is_some)
    rs = c.run(HC + 'credentials', [sym('provider', PROV), req.v], st)
    no_panic(c, name, rs)
    n = m = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove(f'{name}: only once a token is received', s, z3.Implies(ok_, ready), own)
        c.prove(f'{name}: nothing is removed', s, z3.BoolVal(not purges(s)))
        cs, enc = calls(s, 'credential'), s.ghost.get('enc', ())
        c.prove(f'{name}: no request before', s, z3.Implies(z3.BoolVal(bool(cs)), ready), own)
        for a, r in cs:
            m += 1
            q = N(a[0])
            asked(c, name, s, q, f, own)
            c.prove(f'{name}: each request proves possession', s, proof_ok(s, q, f, f.token.c_nonce if by_scope else None), own)
            ids = req.credential_identifiers
            if by_scope:
                c.prove(f'{name}: the request is for the format asked for', s, z3.And(
                    q.credential.is_('Format'), same_format(q.credential.as_('Format').v, req.format.some.v)), own)
            else:
                cid = q.credential.as_('Identifier', 'credential_identifier')
                c.prove(f'{name}: each is for a credential authorized', s, z3.And(q.credential.is_('Identifier'), exists(
                    ds.some.n, lambda i: contains(ds.some.at(i).credential_identifiers, cid.v))), own)
                c.prove(f'{name}: and wanted', s, z3.Implies(ids.is_some, contains(ids.some, cid.v)), own)
        if not puts(s) and not io_failed(s):
            # refused: not ready, or something the wallet relies on failed
            c.prove(f'{name}: what is received is kept', s, z3.Not(ok_), own)
            fails = [z3.Not(r.is_('Ok')) for _, r in cs] + [z3.Not(N(r).is_('Ok')) for _, r in enc]
            fails += [z3.Not(received(cf, r).is_('Ok')) for cf, r in s.ghost.get('rcv', ())]
            if not by_scope:
                i = z3.Int('i!unk')
                fails.append(z3.Exists([i], z3.And(0 <= i, i < ds.some.n, z3.Or(z3.Not(cfg(f.issuer, ds.some.at(i))[0]), z3.Not(sup.has(cfg(f.issuer, ds.some.at(i))[1]))))))
            c.prove(f'{name}: it fails only if a request or its answer does', s, z3.Or([z3.Not(ready)] + fails), own)
            continue
        if not puts(s):
            continue
        c.prove(f'{name}: what fails changes nothing', s, ok_, own)
        if c.cover(f'{name}: done', s, own) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        _, kk, sv, exp = puts(s)[0]
        sv = val(c, s, sv)
        c.prove(f'{name}: the flow kept is this one', s, z3.And(len(puts(s)) == 1, kk == key, v.as_('Ok').issuance_id.z == key, N(exp).z > (end_clock(s) if by_scope else now0)), own)
        c.prove(f'{name}: nothing changes but what is received', s, same_but(f, sv, 'credentials', 'deferred', 'token', 'notification_id'), own)
        c.prove(f'{name}: the token stays', s, same_but(f.token, sv.token, 'c_nonce', 'c_nonce_expires_in'), own)
        d = v.as_('Ok').deferred
        x = z3.Const('k!x', Str)
        c.prove(f'{name}: the wallet is told what is deferred', s, z3.And(
            z3.Implies(d.is_some, z3.And(d.some.has(x) == sv.deferred.has(x), z3.Implies(sv.deferred.has(x), d.some.get(x).eq(sv.deferred.get(x))))),
            z3.Implies(sv.deferred.has(x), d.is_some)), own)
        if by_scope:
            if len(cs) == 1:
                renewed(c, name, s, f, sv, cs[0][1].as_('Ok'), own)
            if len(cs) != 1:
                c.fail(f'{name}: one request', f'{len(cs)} are made')
                continue
            gather(c, name, s, f, sv, cs[0][1], lambda cf, k: z3.And(match(k), sup.get(k).term() == cf), own)
    if not n or not m:
        c.fail(f'{name}: possible', 'no execution gets one')


def renewed(c, name, s, f, sv, resp, own):
    """the nonce received is the one to prove with from now on"""
    c.prove(f'{name}: the token stays but for its nonce', s, same_but(f.token, sv.token, 'c_nonce', 'c_nonce_expires_in'), own)
    for x in ('c_nonce', 'c_nonce_expires_in'):
        a, b, r = N(f.token._f.f[x]), N(sv.token._f.f[x]), N(resp._f.f[x])
        c.prove(f'{name}: a {x} received is kept', s, z3.And(z3.Implies(r.is_some, b.eq(r)), z3.Implies(z3.Not(r.is_some), b.eq(a))), own)


def gather(c, name, s, f, sv, resp, config, own):
    """what the answer holds is added to the flow"""
    rc = s.ghost.get('rcv', ())
    if len(rc) != 1:
        c.fail(f'{name}: one answer is processed', f'{len(rc)} are')
        return
    cf, ans = rc[0]
    k = z3.Const('k!g', Str)
    c.prove(f'{name}: the answer is taken for a configuration that fits', s, z3.And(ans.eq(resp.as_('Ok')), z3.Exists([k], config(cf, k))), own)
    r = received(cf, ans).as_('Ok')
    cs, tx = r.tup(0), r.tup(1)
    add = z3.If(cs.is_some, cs.some.n, z3.IntVal(0))
    i = z3.Int('i!g')
    n0 = f.credentials.n
    c.prove(f'{name}: every credential received is added', s, sv.credentials.n == n0 + add, own)
    c.prove(f'{name}: those there stay', s, z3.Implies(z3.And(0 <= i, i < n0), sv.credentials.at(i).eq(f.credentials.at(i))), own)
    c.prove(f'{name}: those added are those received', s, z3.Implies(z3.And(n0 <= i, i < n0 + add), sv.credentials.at(i).eq(cs.some.at(i - n0))), own)
    return tx, cf


def rcv(ex, st, fr, a, exp, ta):
    """receive by contract"""
    cf, r = to_term(ex.rv(st, a[1])), ex.rv(st, a[2])
    v = V.app('received', [cf, to_term(r)], RES)
    st.ghost['rcv'] = st.ghost.get('rcv', ()) + ((cf, N(r)),)
    return [(st, 'val', v)]


def deferred(c):
    st, now0 = start()
    name = 'deferred'
    req = N(sym('req', adt(HI + 'deferred::DeferredRequest')))
    key = req.issuance_id.z
    fl = flow(key)
    f = fl.as_('Ok')
    own = [z3.Implies(fl.is_('Ok'), f.id.z == key)]
    sup = f.issuer.credential_configurations_supported
    ck, tk = req.credential_configuration_id.z, req.transaction_id.z
    ready = z3.And(fl.is_('Ok'), f.status.is_('TokenReceived'))
    rs = c.run(HI + 'deferred::deferred', [sym('provider', PROV), req.v], st)
    no_panic(c, name, rs)
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove(f'{name}: only once a token is received, for a known configuration', s, z3.Implies(ok_, z3.And(ready, sup.has(ck))), own)
        cs = calls(s, 'deferred')
        c.prove(f'{name}: no request before', s, z3.Implies(z3.BoolVal(bool(cs)), ready), own)
        for a, r in cs:
            q = N(a[0])
            asked(c, name, s, q, f, own)
            c.prove(f'{name}: the request is for the transaction named', s, q.transaction_id.z == tk, own)
        if not prov.log(s):
            c.prove(f'{name}: what is received is kept', s, z3.Not(ok_), own)
            fails = [z3.Not(r.is_('Ok')) for _, r in cs] + [z3.Not(received(cf, r).is_('Ok')) for cf, r in s.ghost.get('rcv', ())]
            c.prove(f'{name}: it fails only if the request or its answer does', s, z3.Or([z3.Not(ready), z3.Not(sup.has(ck))] + fails), own)
            continue
        if io_failed(s):
            c.prove(f'{name}: a change that cannot be kept is reported', s, z3.Not(ok_), own)
            continue
        c.prove(f'{name}: what fails changes nothing', s, ok_, own)
        if c.cover(f'{name}: done', s, own) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        x = z3.Const('k!x', Str)
        rc = s.ghost.get('rcv', ())
        if len(rc) != 1 or len(cs) != 1 or len(prov.log(s)) != 1:
            c.fail(f'{name}: one answer is processed', f'{len(rc)} are')
            continue
        cf, ans = rc[0]
        r = received(cf, ans).as_('Ok')
        rec, tx = r.tup(0), r.tup(1)
        left = lambda x: z3.Or(z3.And(f.deferred.has(x), x != tk), z3.And(tx.is_some, x == tx.some.z))
        d = v.as_('Ok').deferred
        c.prove(f'{name}: the wallet is told what is still deferred', s, z3.And(
            z3.Implies(d.is_some, d.some.has(x) == left(x)), z3.Implies(left(x), d.is_some)), own)
        if purges(s):
            c.prove(f'{name}: the flow ends only with nothing received and nothing deferred', s, z3.And(
                purges(s)[0][1] == key, z3.Not(left(x)), f.credentials.n == 0, z3.Or(z3.Not(rec.is_some), rec.some.n == 0)), own)
            continue
        _, kk, sv, exp = puts(s)[0]
        sv = val(c, s, sv)
        c.prove(f'{name}: the flow kept is this one', s, z3.And(kk == key, v.as_('Ok').issuance_id.z == key, N(exp).z >= end_clock(s)), own)
        c.prove(f'{name}: nothing changes but what is received', s, same_but(f, sv, 'credentials', 'deferred', 'token', 'notification_id'), own)
        renewed(c, name, s, f, sv, cs[0][1].as_('Ok').credential_response, own)
        gather(c, name, s, f, sv, N(VEnum(result(CR, ANY), {'Ok': (z3.BoolVal(True), {'0': cs[0][1].as_('Ok').credential_response.v})})), lambda cf, k: z3.And(k == ck, sup.get(k).term() == cf), own)
        c.prove(f'{name}: the transaction is no longer deferred, unless deferred again', s, sv.deferred.has(x) == left(x), own)
        c.prove(f'{name}: for its configuration', s, z3.Implies(left(x), z3.If(z3.And(tx.is_some, x == tx.some.z), sv.deferred.get(x).z == ck, sv.deferred.get(x).eq(f.deferred.get(x)))), own)
    if not n:
        c.fail(f'{name}: possible', 'no execution gets one')


def contract(c):
    c.ex.any_types = ('LangString', 'LangValue')
    install(c)
    if PCR not in c.prog.fns:
        raise Unsupported('process_credential_response is gone')
    c.ex.contracts[W3 + 'proof::verify'] = verify
    c.ex.contracts['vercre_infosec::jose::jws::encode'] = encoded
    receive(c)
    c.ex.contracts[PCR] = rcv
    credentials(c, True)
    credentials(c, False)
    deferred(c)
