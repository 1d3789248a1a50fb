"""A presentation request asks for exactly what was specified, under a fresh name and nonce, and is served to its own client only."""
from ver import *
from rvc.val import cat_fn
from W01 import encoded

DRIVER = ('verifier',)


def cat(*xs):
    r = xs[-1] if not isinstance(xs[-1], str) else W.lit(xs[-1])
    for x in reversed(xs[:-1]):
        r = cat_fn()(W.lit(x) if isinstance(x, str) else x, r)
    return r


def create(c):
    st, now0 = start()
    req = N(sym('req', adt(OV + 'CreateRequestRequest')))
    rs = c.run('vercre_verifier::create_request::create_request', [sym('provider', PROV), req.v], st)
    no_panic(c, 'create_request', rs)
    meta = N(V.app('Metadata.verifier', [req.client_id.z], result(adt(OV + 'Verifier'), ANY)))
    cross = req.device_flow.is_('CrossDevice')
    fit = z3.And(req.input_descriptors.n > 0, meta.is_('Ok'))
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove('a request is created only for a known client that asks for something', s, z3.Implies(ok_, fit))
        if not io_failed(s):
            c.prove('a request for something by a known client is created', s, z3.Implies(fit, ok_))
        c.prove('creating a request removes nothing', s, z3.BoolVal(not purges(s)))
        if z3.is_false(ok_):
            c.prove('a request refused is not stored', s, z3.BoolVal(not puts(s)))
            continue
        if c.cover('created', s, [ok_]) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        if len(puts(s)) != 1:
            c.fail('one request is stored', f'{len(puts(s))} are')
            continue
        hyp = [ok_] + fresh_gens(s)
        _, key, sv, exp = puts(s)[0]
        sv, r = val(c, s, sv), v.as_('Ok')
        o = sv.request_object
        c.prove('the request is stored under a new name, which it carries', s, z3.And(one_of(key, gens(s)), o.state.is_some, o.state.some.z == key), hyp)
        c.prove('its nonce is new, and not its name', s, z3.And(one_of(o.nonce.z, gens(s)), o.nonce.z != key), hyp)
        c.prove('it lives 5 minutes', s, z3.And(within(sv.expires_at.z, now0, s, 300), N(exp).z >= sv.expires_at.z), hyp)
        pd = o.presentation_definition
        d = pd.as_('Object')
        c.prove('it asks for exactly the credentials specified', s, z3.And(pd.is_('Object'), d.input_descriptors.eq(req.input_descriptors)), hyp)
        c.prove('for the purpose specified', s, z3.And(d.purpose.is_some, d.purpose.some.z == req.purpose.z), hyp)
        uu = [W.fn('display<Uuid>', [u.sort()], Str)(u) for u in s.ghost.get('uuids', ())]
        c.prove('its definition is newly named', s, one_of(d.id.z, uu + gens(s)), hyp)
        c.prove('it carries the metadata of its client', s, o.client_metadata.eq(meta.as_('Ok')), hyp)
        c.prove('it asks for a presentation', s, o.response_type.is_('VpToken'), hyp)
        cid = req.client_id.z
        c.prove('across devices: the response is posted to the client', s, z3.And(
            o.response_mode.is_some, o.response_mode.some.z == W.lit('direct_post'), o.client_id.z == cat(cid, '/post'),
            o.response_uri.is_some, o.response_uri.some.z == cat(cid, '/post')), hyp + [cross])
        c.prove('across devices: the caller gets where the request is, and not the request', s, z3.And(
            z3.Not(r.request_object.is_some), r.request_uri.is_some, r.request_uri.some.z == cat(cid, '/request/', key)), hyp + [cross])
        c.prove('same device: the response goes to the callback of the client', s, z3.And(
            o.client_id.z == cat(cid, '/callback'), z3.Not(o.response_uri.is_some)), hyp + [z3.Not(cross)])
        c.prove('same device: the caller gets the request stored', s, z3.And(
            z3.Not(r.request_uri.is_some), r.request_object.is_some, r.request_object.some.eq(o)), hyp + [z3.Not(cross)])
    if not n:
        c.fail('requests can be created', 'no execution creates one')


def fetch(c):
    c.ex.contracts['vercre_infosec::jose::jws::encode'] = encoded
    st, now0 = start()
    req = N(sym('req', adt(OV + 'RequestObjectRequest')))
    rs = c.run('vercre_verifier::request_object::request_object', [sym('provider', PROV), req.v], st)
    no_panic(c, 'request_object', rs)
    stt = vstored(req.id.z)
    o = stt.as_('Ok').request_object
    own = z3.And(stt.is_('Ok'), o.client_id.z == cat(req.client_id.z, '/post'))
    signer = N(V.app('signer', [req.client_id.z], result(opaque('Signer'), prov.AE)))
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove('fetching a request changes nothing', s, z3.BoolVal(not puts(s) and not purges(s)))
        c.prove('a request is served only if it exists and is of the client named', s, z3.Implies(ok_, own))
        enc = s.ghost.get('enc', ())
        if not enc:
            c.prove('a request of the client named is signed', s, z3.Not(z3.And(own, signer.is_('Ok'))))
        else:
            c.prove('a request that can be signed is served', s, z3.Implies(z3.And(own, N(enc[-1][1]).is_('Ok')), ok_))
        if z3.is_false(ok_):
            continue
        if c.cover('served', s, [ok_]) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        if len(enc) != 1:
            c.fail('one request is signed', f'{len(enc)} are')
            continue
        (ty, cl, sg), r = enc[0]
        r, ty, cl = N(r), N(ty), N(cl)
        ro = v.as_('Ok').request_object
        c.prove('what is signed is the request stored, as a request', s, z3.And(ty.is_('Request'), cl.eq(o)), [ok_])
        c.prove('it is signed by the client named', s, z3.And(signer.is_('Ok'), to_term(sg) == signer.as_('Ok').term()), [ok_])
        c.prove('what is served is the signed token', s, z3.And(r.is_('Ok'), ro.is_('Jwt'), ro.as_('Jwt').z == r.as_('Ok').z), [ok_])
    if not n:
        c.fail('requests can be served', 'no execution serves one')


def contract(c):
    c.ex.any_types = ('LangString', 'LangValue')
    install(c)
    create(c)
    fetch(c)
