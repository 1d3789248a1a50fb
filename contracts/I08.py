"""A pushed request is verified when it is pushed and stands for itself until it expires."""
import I07
from I07 import *

PR = adt(P + 'PushedAuthorizationRequest')
RU = adt(P + 'RequestUri')
PREFIX = 'urn:ietf:params:oauth:request_uri:'


def go(c, cut):
    if cut:
        scope_contract(c)
        scope_model(c)
    # pushing
    install(c)
    st, now0 = start()
    r0 = sym('preq', PR)
    rs = c.run('vercre_issuer::par::par', [sym('provider', PROV), r0], st)
    no_panic(c, 'par', rs)
    req = N(r0).request
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        sp = Spec(req, True, now0)
        if z3.is_false(v.is_('Ok')):
            c.prove('a refused push stores nothing', s, z3.BoolVal(not puts(s) and not purges(s)))
            if not io_failed(s):
                c.prove('a valid push is not refused', s, z3.Not(z3.And(list(Spec(req, True, end_clock(s) + 2 * SEC).conditions.values()))))
            continue
        n += 1
        c.cover('request pushed', s)
        hyp = [v.is_('Ok')]
        for k, g in sp.conditions.items():
            c.prove(f'a request is accepted only if {k}', s, g, hyp)
        resp = v.as_('Ok')
        ps = puts(s)
        if len(ps) != 1 or purges(s):
            c.fail('one state is stored for a pushed request', f'{len(ps)} stored')
            continue
        _, key, sv, exp = ps[0]
        sv = val(c, s, sv)
        p = sv.stage.as_('PushedAuthorization')
        c.prove('the request is stored as it was pushed', s, z3.And(sv.stage.is_('PushedAuthorization'), p.request.eq(req)), hyp)
        c.prove('under the URI returned, which is a new one', s,
                z3.And(key == resp.request_uri.z, z3.Or([key == VStr([PREFIX, g]).z for g in gens(s, 'uri_token') or gens(s)] or [F])), hyp)
        c.prove('for ten minutes', s, z3.And(within(p.expires_at.z, now0, s, 600), within(sv.expires_at.z, now0, s, 600), resp.expires_in.z == 600, N(exp).z >= p.expires_at.z - (end_clock(s) - now0)), hyp)
    if not n:
        c.fail('requests can be pushed', 'no execution accepts one')
    # using it
    ru = sym('uri', RU)
    now0, rs = run(c, 'Uri', ru)
    g = stored(N(ru).request_uri.z)
    par = g.as_('Ok').stage.as_('PushedAuthorization')
    judge(c, rs, par.request, True, now0, lambda s, t: [z3.And(g.is_('Ok'), g.as_('Ok').stage.is_('PushedAuthorization'), par.expires_at.z >= t)])


def contract(c):
    c.first_of(lambda: go(c, True), lambda: go(c, False), cut='verify_scope')
