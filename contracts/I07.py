"""An authorization code is issued only for a valid request, and stands for exactly what was requested and authorized."""
from az import *

DRIVER = ('issuer',)
AR = P + 'AuthorizationRequest'


def saved(c, s, sp, req, v, hyp, now0):
    """obligations on the state behind the code"""
    resp = v.as_('Ok')
    ps = puts(s)
    if len(ps) != 1:
        c.fail('one state is stored for a code', f'{len(ps)} stored')
        return
    _, key, sv, exp = ps[0]
    sv = val(c, s, sv)
    c.prove('the code is newly generated, and names the state stored', s, z3.And(one_of(resp.code.z, gens(s, 'auth_code') or gens(s)), key == resp.code.z), hyp)
    c.prove('the state stored is that of an authorization', s, sv.stage.is_('Authorized'), hyp)
    az = sv.stage.as_('Authorized')
    c.prove('the authorization is bound to client, redirect URI, challenge and holder of the request', s,
            z3.And(az.client_id.z == req.client_id.z, az.redirect_uri.eq(req.redirect_uri), az.code_challenge.z == req.code_challenge.z,
                   az.code_challenge_method.eq(req.code_challenge_method), sv.subject_id.is_some, sv.subject_id.some.z == req.subject_id.z), hyp)
    c.prove('the code lives 5 minutes', s, z3.And(within(sv.expires_at.z, now0, s, 300), N(exp).z >= sv.expires_at.z), hyp)
    c.prove('the answer goes to the redirect URI, with the state of the request', s,
            z3.And(resp.redirect_uri.z == req.redirect_uri.some.z, resp.state.eq(req.state)), hyp)
    c.prove('the offer it refers to is closed', s, z3.Implies(req.issuer_state.is_some, z3.Or([k == req.issuer_state.some.z for _, k in purges(s)] or [F])), hyp)
    items = az.items
    i = z3.Int('i!z')
    it = items.at(i)
    cid = it.credential_configuration_id.z
    d = it.item.as_('AuthorizationDetail')
    w = it.item.as_('Scope')
    ds = sp.ds.some
    ws = words(req.scope.some.z)
    by_detail = z3.And(it.item.is_('AuthorizationDetail'), sp.ds.is_some, exists(ds.n, lambda j: z3.And(ds.at(j).eq(d), sp.config(ds.at(j))[1] == cid)))
    by_scope = z3.And(it.item.is_('Scope'), req.scope.is_some, contains(ws, w.v), sp.has_scope(cid, w.z))
    inr = z3.And(0 <= i, i < items.n)
    c.prove('every item authorized was asked for by a detail or by a scope', s, z3.Implies(inr, z3.Or(by_detail, by_scope)), hyp)
    c.prove('every item is authorized for the holder, with the identifiers the provider names', s, z3.Implies(inr, z3.And(
        authorize_of(req.subject_id.z, cid).is_('Ok'), it.credential_identifiers.eq(authorize_of(req.subject_id.z, cid).as_('Ok')))), hyp)
    c.prove('every detail asked for is authorized', s, z3.Implies(z3.And(sp.ds.is_some, 0 <= i, i < ds.n),
            exists(items.n, lambda m: z3.And(items.at(m).item.is_('AuthorizationDetail'), items.at(m).credential_configuration_id.z == sp.config(ds.at(i))[1]))), hyp)
    q = z3.Const('q!z', Str)
    c.prove('every scope asked for is authorized', s, z3.Implies(z3.And(req.scope.is_some, 0 <= i, i < ws.n, sp.has_scope(q, ws.at(i).z)),
            exists(items.n, lambda m: items.at(m).credential_configuration_id.z == q)), hyp)


def run(c, variant, payload):
    install(c)
    st, now0 = start()
    rs = c.run('vercre_issuer::authorize::authorize', [sym('provider', PROV), VEnum(adt(AR), {variant: (T, {'0': payload})})], st)
    no_panic(c, 'authorize', rs)
    return now0, rs


def judge(c, rs, req, is_par, now0, extra):
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        sp = Spec(req, is_par, now0)
        if z3.is_false(v.is_('Ok')):
            if not io_failed(s):
                c.prove('a refused request stores and removes nothing', s, z3.BoolVal(not puts(s) and not purges(s)))
                late = Spec(req, is_par, end_clock(s) + 2 * SEC)
                k = z3.Const(f'k!{W.uid()}', Str)
                anyk = z3.ForAll([k], authorize_of(req.subject_id.z, k).is_('Ok'))
                some_item = z3.Or(z3.And(sp.ds.is_some, sp.ds.some.n > 0), z3.And(req.scope.is_some, words(req.scope.some.z).n > 0))
                c.prove('a valid request is refused only if the holder is not authorized', s,
                        z3.Not(z3.And(list(late.conditions.values()) + extra(s, end_clock(s) + 2 * SEC) + [anyk, some_item])))
            continue
        n += 1
        c.cover('code issued', s)
        hyp = [v.is_('Ok')] + fresh_gens(s, req.issuer_state.some.z)
        for k, g in sp.conditions.items():
            c.prove(f'a code is issued only if {k}', s, g, hyp)
        for g in extra(s, now0):
            c.prove('a code is issued for a pushed request only while it is known and valid', s, g, hyp)
        saved(c, s, sp, req, v, hyp, now0)
    if not n:
        c.fail('codes can be issued', 'no execution issues a code')


def contract(c):
    def go(cut):
        if cut:
            scope_contract(c)
            scope_model(c)
        ro = sym('req', RO)
        now0, rs = run(c, 'Object', ro)
        judge(c, rs, N(ro), False, now0, lambda s, t: [])
    c.first_of(lambda: go(True), lambda: go(False), cut='verify_scope')
