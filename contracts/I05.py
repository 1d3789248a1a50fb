"""A nonce is good for one credential: it is replaced whenever a credential is issued or a proof found invalid."""
from cred import *

DRIVER = ('issuer',)


def contract(c):
    req, now0, rs = run(c)
    n = m = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        sp = Spec(req, now0)
        t, old = sp.tok, sp.tok.c_nonce.z
        hyp = [own_name(sp)] + fresh_gens(s, req.access_token.z, old)
        # whatever is stored
        for _, key, sv, exp in puts(s):
            sv = val(c, s, sv)
            tk = sv.stage.as_('Validated')
            valid = sv.stage.is_('Validated')
            c.prove('only the token presented is stored as a token, under its own name', s,
                    z3.Implies(valid, z3.And(key == req.access_token.z, tk.access_token.z == key)), hyp)
            c.prove('a token is stored with a new nonce that lives 10 minutes', s,
                    z3.Implies(valid, z3.And(tk.c_nonce.z != old, one_of(tk.c_nonce.z, gens(s, 'nonce') or gens(s)), within(tk.c_nonce_expires_at.z, now0, s, 600))), hyp)
            c.prove('a token keeps its subject and its credentials', s,
                    z3.Implies(valid, z3.And(sv.subject_id.eq(sp.s.subject_id), tk.credentials.eq(t.credentials))), hyp)
            c.prove('a token lives no longer than 15 minutes', s, z3.Implies(valid, sv.expires_at.z <= end_clock(s) + 900 * SEC), hyp)
            c.prove('nothing is stored over another token', s, z3.Implies(z3.Not(valid), z3.And(key != req.access_token.z, one_of(key, gens(s)))), hyp)
        c.prove('a token is never purged', s, z3.BoolVal(not purges(s)))
        now_ = N(prov.lookup(s, req.access_token.z, STATE))
        held = now_.as_('Ok').stage.as_('Validated').c_nonce.z
        ok_ = v.is_('Ok')
        if not z3.is_false(ok_):
            r = v.as_('Ok')
            issued = z3.And(ok_, z3.Not(r.response.is_('TransactionId')))
            c.cover('credential issued', s, [issued]) if not n else None
            n += 1
            c.prove('after issuance the token holds a new nonce', s, z3.Implies(issued, z3.And(now_.is_('Ok'), now_.as_('Ok').stage.is_('Validated'), held != old)), hyp)
            c.prove('the new nonce is returned with the credential', s,
                    z3.Implies(issued, z3.And(r.c_nonce.is_some, r.c_nonce.some.z == held)), hyp)
            c.prove('with the time it has left', s, z3.Implies(issued, z3.And(
                r.c_nonce_expires_in.is_some, r.c_nonce_expires_in.some.z <= 600, r.c_nonce_expires_in.some.z * SEC >= 599 * SEC - (end_clock(s) - now0))), hyp)
        er = v.as_('Err')
        bad = z3.And(v.is_('Err'), er.is_('InvalidProof'))
        if not z3.is_false(z3.simplify(bad)):
            c.cover('proof refused', s, [bad]) if not m else None
            m += 1
            c.prove('after an invalid proof the token holds a new nonce', s, z3.Implies(bad, z3.And(now_.is_('Ok'), now_.as_('Ok').stage.is_('Validated'), held != old)), hyp)
            c.prove('the new nonce is returned with the error', s,
                    z3.Implies(bad, z3.And(er.as_('InvalidProof', 'c_nonce').z == held, er.as_('InvalidProof', 'c_nonce_expires_in').z == 600)), hyp)
        if not z3.is_false(v.is_('Err')) and not io_failed(s):
            cond = Spec(req, end_clock(s) + 2 * SEC).conditions()
            ks = list(cond)
            valid_but_proof = z3.And([cond[k] for k in ks[:4]] + [z3.Implies(sp.pts.is_some, sp.pts.some.has(W.lit('jwt')))])
            c.prove('a request that lacks only a valid proof is refused as an invalid proof', s,
                    z3.Implies(z3.And(v.is_('Err'), valid_but_proof, z3.Not(z3.And(cond[ks[4]], cond[ks[5]]))), er.is_('InvalidProof')), hyp)
    if not n or not m:
        c.fail('credentials are issued and proofs refused', f'{n} executions issue, {m} refuse a proof')
