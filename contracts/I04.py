"""A credential is issued or deferred only to the holder of a token that covers it, on valid proofs."""
from cred import *

DRIVER = ('issuer',)


def contract(c):
    req, now0, rs = run(c)
    no_panic(c, 'credential', [r for r in rs if not (r[1] == 'panic' and out_of_scope(r[2]))])
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        if not z3.is_false(v.is_('Ok')):
            c.cover('credential issued or deferred', s)
            n += 1
            for k, w in Spec(req, now0).conditions().items():
                c.prove(f'a credential is issued or deferred only if {k}', s, z3.Implies(v.is_('Ok'), w))
        if not z3.is_false(v.is_('Err')) and not io_failed(s):
            sp = Spec(req, end_clock(s) + 2 * SEC)
            base = z3.And(list(sp.conditions().values()) + [sp.s.subject_id.is_some])
            c.prove('a request that meets every condition fails for internal reasons only', s,
                    z3.Implies(z3.And(v.is_('Err'), base), v.as_('Err').is_('ServerError')))
    if not n:
        c.fail('credentials can be issued', 'no execution issues a credential')
