"""A notification is accepted once, for a credential that was issued."""
from cred import *

DRIVER = ('issuer',)
NR = adt(P + 'NotificationRequest')


def contract(c):
    # issuance hands out the id under which it stored the credential
    req, now0, rs = run(c)
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        if z3.is_false(v.is_('Ok')):
            continue
        sp = Spec(req, now0)
        r = v.as_('Ok')
        hyp = [own_name(sp), v.is_('Ok'), z3.Not(r.response.is_('TransactionId'))] + fresh_gens(s, req.access_token.z)
        if c.cover('credential issued', s, hyp) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        t = r.notification_id.some.z
        got = N(prov.lookup(s, t, STATE))
        c.prove('every credential comes with a newly generated notification id', s, z3.And(r.notification_id.is_some, one_of(t, gens(s, 'notification_id') or gens(s)), t != req.access_token.z), hyp)
        c.prove('an issued credential is stored under it', s, z3.And(got.is_('Ok'), got.as_('Ok').stage.is_('Issued')), hyp)
        jwt = calls(s, 'vc_jwt')
        if jwt:
            vc = N(jwt[0][0][1]).as_('Vc', 'vc')
            c.prove('the credential stored is the one signed', s, got.as_('Ok').stage.as_('Issued').credential.eq(vc), hyp)
    if not n:
        c.fail('credentials can be issued', 'no execution issues a credential')
    # the endpoint
    st, now0 = start()
    r0 = sym('nreq', NR)
    rs = c.run('vercre_issuer::notification::notification', [sym('provider', PROV), r0], st)
    req = N(r0)
    no_panic(c, 'notification', rs)
    g = stored(req.notification_id.z)
    m = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        c.prove('a notification stores nothing', s, z3.BoolVal(not puts(s)))
        issued = z3.And(g.is_('Ok'), g.as_('Ok').stage.is_('Issued'))
        ps = purges(s)
        gone = z3.Or([k == req.notification_id.z for _, k in ps]) if ps else z3.BoolVal(False)
        c.prove('only an issued credential can be notified', s, z3.Implies(v.is_('Ok'), issued))
        c.prove('an accepted notification is not accepted again', s, z3.Implies(v.is_('Ok'), gone))
        for _, k in ps:
            c.prove('nothing but the notified credential is removed', s, z3.And(k == req.notification_id.z, issued))
        if not io_failed(s):
            c.prove('a notification of an issued credential is accepted', s, z3.Implies(issued, v.is_('Ok')))
        m += not z3.is_false(v.is_('Ok'))
    if not m:
        c.fail('notifications can be accepted', 'no execution accepts')
