"""Claim policy: a claim set passes exactly when every claim in it is supported and every mandatory claim is present."""
from common import *

DRIVER = ('openid',)
ASSUMPTIONS = ['claim trees are finite (the recursive predicates are their own unfolding)',
               'a map with no entries is the empty map']
P = 'vercre_openid::issuer::'
CL = adt(P + 'Claim')
M = ('map', STR, CL)
CC = adt(P + 'CredentialConfiguration')
ANY = opaque('anyhow::Error')
EMPTY = None


def okof(name, a, b): return force(V.app(name, [a, b], result(UNIT, ANY))).cond('Ok')
def mapof(t): return map_of_term(t, M)


def empty():
    m = VMap(STR, CL, lambda k: F, lambda k: None, items=[])
    return to_term(m)


def supported(req, sup, rec):
    """every requested claim exists, nested claims in nested sets"""
    k = z3.Const(f'k!{W.uid()}', Str)
    r, s = force(req.at(k)), force(sup.at(k))
    nested = z3.And(s.cond('Set'), rec(r.vs['Set'][1]['0'].term, s.vs['Set'][1]['0'].term))
    return z3.ForAll([k], z3.Implies(req.has(k), z3.And(sup.has(k), z3.Implies(r.cond('Set'), nested))))


def required(req, sup, rec):
    """every mandatory claim is present, at every depth; a set cannot be requested as a single claim"""
    k = z3.Const(f'k!{W.uid()}', Str)
    r, s = force(req.at(k)), force(sup.at(k))
    mand = force(force(s.vs['Entry'][1]['0']).f['mandatory'])
    must = z3.And(mand.cond('Some'), mand.vs['Some'][1]['0'].z)
    sn = s.vs['Set'][1]['0'].term
    nested = z3.If(req.has(k), z3.And(r.cond('Set'), rec(r.vs['Set'][1]['0'].term, sn)), rec(empty(), sn))
    return z3.ForAll([k], z3.Implies(sup.has(k), z3.And(z3.Implies(s.cond('Set'), nested), z3.Implies(z3.And(s.cond('Entry'), must), req.has(k)))))


def model(name):
    def f(ex, st, fr, a, exp, ta):
        r = V.app(name, [to_term(ex.rv(st, x)) for x in a[-2:]], result(UNIT, ANY))
        ex.drain(st)
        return [(st, 'val', r)]
    return f


def candidates(c):
    """the recursive checks: functions of two claim maps"""
    out = []
    for p, fn in c.prog.fns.items():
        if p.startswith(P) and fn.ast['sig']['ins']:
            ts = [t for t in c.ex.param_tys(fn, None) or []]
            if len(ts) == 2 and ts[0] == M and ts[1] == M:
                out.append(p)
    return out


def by_contract(c, sup, req):
    """the recursive checks, used by contract at every call site"""
    c.ex.contracts[sup] = model('claims_supported')
    c.ex.contracts[req] = model('claims_required')


def claims_of(fmt):
    """the claims a format describes: Option<map>"""
    f = force(fmt)
    r = None
    for v in f.vs:
        pl = force(f.vs[v][1]['0'])
        if 'credential_definition' in pl.f:
            o = force(pl.f['credential_definition']).f['credential_subject']
        else:
            o = pl.f['claims']
        r = o if r is None else ite(f.cond(v), o, r)
    return force(r)


def contract(c):
    fs = candidates(c)
    if len(fs) != 2:
        raise Unsupported('the supported/required checks are not two functions of two claim maps')
    fs.sort(key=lambda p: 'requir' in p)
    c.first_of(lambda: proof(c, fs[0], fs[1]), *([] if 'requir' in fs[1] else [lambda: proof(c, fs[1], fs[0])]))


def proof(c, sup_fn, req_fn):
    by_contract(c, sup_fn, req_fn)
    req, sup = sym('req', M), sym('sup', M)
    for path, fn, spec in ((sup_fn, 'claims_supported', supported), (req_fn, 'claims_required', required)):
        rs = c.run(path, [req, sup])
        no_panic(c, fn, rs)
        want = spec(req, sup, lambda a, b, fn=fn: okof(fn, a, b))
        for s, v in vals(rs):
            c.cover(fn, s)
            v = deref(c, s, v)
            c.prove(f'{fn}: accepted only if the rule holds', s, z3.Implies(v.cond('Ok'), want))
            c.prove(f'{fn}: refused only if the rule is broken', s, z3.Implies(v.cond('Err'), z3.Not(want)))
    me = sym('self', CC)
    rs = c.run(P + 'CredentialConfiguration::verify_claims', [me, req])
    no_panic(c, 'verify_claims', rs)
    cl = claims_of(force(me).f['format'])
    m = cl.vs['Some'][1]['0']
    S, R = okof('claims_supported', req.term, to_term(m)), okof('claims_required', req.term, to_term(m))
    # an empty request is supported: the rule applied to the empty set
    k = z3.Const('ke!', Str)
    hyp = [z3.Implies(z3.ForAll([k], z3.Not(req.has(k))), S)]
    c.prove('an empty claim set asks for nothing unsupported', [z3.ForAll([k], z3.Not(req.has(k)))], supported(req, m, lambda a, b: okof('claims_supported', a, b)))
    for s, v in vals(rs):
        c.cover('verify_claims', s)
        v = deref(c, s, v)
        c.prove('claims pass only if supported and complete', s, z3.Implies(z3.And(v.cond('Ok'), cl.cond('Some')), z3.And(S, R)), hyp)
        c.prove('claims are refused only if some are unsupported or missing', s, z3.Implies(v.cond('Err'), z3.And(cl.cond('Some'), z3.Not(z3.And(S, R)))), hyp)
