"""A deferred credential is delivered once, for its own transaction, when it is ready."""
from cred import *

DRIVER = ('issuer',)
DR = adt(P + 'DeferredCredentialRequest')
RESP = adt(P + 'CredentialResponse')
ASSUMPTIONS = ASSUMPTIONS + ['the credential endpoint by its contracts I04 to I06: in particular it stores only under the token presented and under newly generated names (I05)']


def err_is(v, k): return v.as_('Err').is_(k) if not z3.is_false(v.is_('Err')) else z3.BoolVal(False)


def contract(c):
    install(c)
    pending(c)
    # the deferred endpoint, against the contract of the credential endpoint
    c.ex.contracts['vercre_issuer::credential::credential'] = recorded('credential', result(RESP, adt('vercre_openid::error::Error')))
    c.ex.fn_models['Provider::clone'] = lambda ex, st, fr, a, exp, ta: [(st, 'val', a[0])]
    st, now0 = start()
    r0 = sym('dreq', DR)
    rs = c.run('vercre_issuer::deferred::deferred', [sym('provider', PROV), r0], st)
    req = N(r0)
    no_panic(c, 'deferred', rs)
    n = 0
    txn = req.transaction_id.z
    g = stored(txn)
    st0 = g.as_('Ok')
    d = st0.stage.as_('Deferred')
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        cs = calls(s, 'credential')
        c.prove('deferral itself stores nothing', s, z3.BoolVal(not puts(s)))
        ps = purges(s)
        gone = z3.Or([k == txn for _, k in ps]) if ps else z3.BoolVal(False)
        for _, k in ps:
            c.prove('only the transaction itself is removed', s, k == txn)
        known = z3.And(g.is_('Ok'), st0.stage.is_('Deferred'))
        for a, res in cs:
            q = N(a[1])
            c.prove('a credential is requested only for a known, unexpired transaction', s, z3.And(known, not_expired(st0.expires_at.z, now0)))
            want = VStruct(q._f.ty, {**dict(force(d.credential_request.v).f.items()), 'credential_issuer': req.credential_issuer.v, 'access_token': req.access_token.v})
            c.prove('the request made is the one deferred, for the issuer and the token presented', s, V.eq(q.v, want))
        if len(cs) > 1:
            c.fail('the credential endpoint is asked once', f'{len(cs)} times')
            continue
        if not cs:
            c.prove('without asking the credential endpoint nothing is delivered', s, v.is_('Err'))
            c.prove('without asking the credential endpoint nothing is removed', s, z3.Not(gone))
            if not io_failed(s):
                c.prove('a known, unexpired transaction is not refused', s, z3.Not(z3.And(known, not_expired(st0.expires_at.z, end_clock(s) + 2 * SEC))))
            continue
        res = cs[0][1]
        ready = z3.And(res.is_('Ok'), z3.Not(res.as_('Ok').response.is_('TransactionId')))
        pend = z3.And(res.is_('Ok'), res.as_('Ok').response.is_('TransactionId'))
        n += 1
        c.prove('a credential is delivered only when it is ready', s, z3.Implies(v.is_('Ok'), ready))
        if not z3.is_false(v.is_('Ok')):
            c.prove('what is delivered is what the credential endpoint issued', s, z3.Implies(v.is_('Ok'), v.as_('Ok').credential_response.eq(res.as_('Ok'))))
        c.prove('a delivered transaction is over', s, z3.Implies(v.is_('Ok'), gone))
        c.prove('a transaction that is not delivered remains', s, z3.Implies(z3.Not(ready), z3.Not(gone)))
        c.prove('pending issuance is reported as pending', s, z3.Implies(pend, z3.And(v.is_('Err'), err_is(v, 'IssuancePending'))))
        c.prove('an error of the credential endpoint is passed on', s, z3.Implies(res.is_('Err'), z3.And(v.is_('Err'), v.as_('Err').eq(res.as_('Err')) if not z3.is_false(v.is_('Err')) else z3.BoolVal(False))))
        if not io_failed(s):
            c.prove('a ready credential is delivered', s, z3.Implies(ready, v.is_('Ok')))
    if not n:
        c.fail('deferred credentials are delivered', 'the credential endpoint is never asked')


def pending(c):
    """the credential endpoint defers when, and only when, the data are pending"""
    req, now0, rs = run(c)
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        if z3.is_false(v.is_('Ok')):
            continue
        sp = Spec(req, now0)
        r = v.as_('Ok')
        hyp = [own_name(sp), v.is_('Ok'), r.response.is_('TransactionId')] + fresh_gens(s, req.access_token.z)
        if c.cover('credential deferred', s, hyp) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        from I06 import dataset
        q = z3.Const('q!d', Str)
        pend = lambda q: z3.And(sp.covers(q), dataset(sp, sp.creds.get(q).credential_identifier.z).is_('Ok'), dataset(sp, sp.creds.get(q).credential_identifier.z).as_('Ok').pending.z)
        c.prove('a credential is deferred only if its data are pending', s, z3.If(sp.by_id, pend(sp.id), z3.Exists([q], pend(q))), hyp)
        t = r.response.as_('TransactionId').z
        c.prove('the transaction is newly named', s, one_of(t, gens(s, 'transaction_id') or gens(s)), hyp)
        got = N(prov.lookup(s, t, STATE))
        dd = got.as_('Ok').stage.as_('Deferred')
        c.prove('the transaction is stored under its name with the request made, for 15 minutes', s,
                z3.And(got.is_('Ok'), got.as_('Ok').stage.is_('Deferred'), dd.credential_request.eq(req), dd.transaction_id.z == t,
                       within(got.as_('Ok').expires_at.z, now0, s, 900)), hyp)
        for _, key, sv, exp in puts(s):
            c.prove('nothing else is stored', s, z3.And(key == t, N(exp).z >= val(c, s, sv).expires_at.z), hyp)
        c.prove('no nonce is handed out with a transaction', s, z3.And(z3.Not(r.c_nonce.is_some), z3.Not(r.notification_id.is_some)), hyp)
    if not n:
        c.fail('credentials can be deferred', 'no execution defers')
