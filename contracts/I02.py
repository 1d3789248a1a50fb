"""A code is redeemed at most once, whatever becomes of the request."""
from I01 import *


def contract(c):
    req, now0, rs = run(c)
    no_panic(c, 'token', rs)
    n = 0
    for s, v in vals(rs):
        v = deref(c, s, v)
        _, code, _ = spec(req, s, now0)
        known = stored(code).is_('Ok')
        purge_failed = any(e[:2] == ('fail', 'purge') for e in prov.log(s))
        hyp = fresh_gens(s, code)
        if not z3.is_false(v.cond('Ok')):
            c.cover('token granted', s)
            n += 1
            c.prove('a token is granted only for a code that exists', s, z3.Implies(v.cond('Ok'), known), hyp)
        gone = N(prov.lookup(s, code, STATE)).is_('Err')
        if purge_failed:
            c.prove('a code that cannot be withdrawn grants nothing', s, z3.And(v.cond('Err'), z3.BoolVal(not puts(s))))
        else:
            c.prove('once presented, a code no longer works', s, gone, hyp)
        first = next((i for i, e in enumerate(prov.log(s)) if e[0] == 'put'), None)
        if first is not None:
            before = [e for e in prov.log(s)[:first] if e[0] == 'purge']
            c.prove('the code is withdrawn before anything is granted', s, z3.Or([e[1] == code for e in before]) if before else F)
    if not n:
        c.fail('tokens can be granted', 'no execution grants a token')
