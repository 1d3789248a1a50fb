"""Presenting: what a wallet stores of a request, and what it sends when the holder agrees."""
from hold import *
from W01 import encoded
import W02

DRIVER = ('holder',)
W3 = 'vercre_w3c_vc::'
OV = 'vercre_openid::verifier::'
RO, ROR, RR = adt(OV + 'RequestObject'), adt(OV + 'RequestObjectResponse'), adt(OV + 'ResponseResponse')
VP, PB, PAY = adt(W3 + 'model::vp::VerifiablePresentation'), adt(W3 + 'model::vp::VpBuilder'), adt(W3 + 'proof::Payload')
RUD = result(STR, opaque('std::string::FromUtf8Error'))
STATUS = adt(HP + 'Status')
ASSUMPTIONS = ASSUMPTIONS + ['proof::create signs exactly the payload given (W01); the builder of a presentation keeps what is put into it (W02)',
                             'urlencode::from_str reads what urlencode::to_string writes (C04, C05)',
                             'jws::decode succeeds only on a token validly signed by the key its kid names']


def inline(z): return N(V.app('urlencode_from_str', [z], result(RO, ANY)))


def request(c):
    st, now0 = start()
    req = sym('req', STR)
    rs = c.run(HP + 'request::request', [sym('provider', PROV), req], st)
    no_panic(c, 'request', rs)
    n = m = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove('request: nothing is removed', s, z3.BoolVal(not purges(s)))
        asked, found = calls(s, 'request_object'), calls(s, 'find')
        if not puts(s):
            c.prove('request: a request taken up is kept', s, z3.Not(ok_))
            if not io_failed(s):
                fails = [z3.Not(r.is_('Ok')) for _, r in asked + found]
                for _, r in asked:
                    t = r.as_('Ok').request_object
                    o, j, _ = prov.jws_parts(t.as_('Jwt').z, (RO,))
                    fails += [z3.Not(z3.And(t.is_('Jwt'), o)), bad(N(j).claims)]
                if not asked:
                    fails += [z3.Not(N(V.app('urldecode', [req.z], RUD)).is_('Ok')),
                              z3.Not(inline(req.z).is_('Ok')), bad(inline(req.z).as_('Ok'))]
                c.prove('request: only what cannot be read, is not signed, or asks for nothing is refused', s, z3.Or(fails))
            continue
        if io_failed(s):
            c.prove('request: a flow that cannot be kept is reported', s, z3.Not(ok_))
            continue
        c.prove('request: one refused leaves nothing', s, ok_)
        if c.cover('request: taken up', s, [ok_]) == 'unsat':
            c.obls.pop()
            continue
        if len(puts(s)) != 1 or len(found) != 1 or len(asked) > 1:
            c.fail('request: one flow is kept', f'{len(puts(s))} are')
            continue
        _, key, sv, exp = puts(s)[0]
        sv, r, q = val(c, s, sv), v.as_('Ok'), None
        q = sv.request
        c.prove('request: the flow is kept under a new name, which the wallet gets', s, z3.And(
            one_of(key, uuids(s) + gens(s)), sv.id.z == key, r.presentation_id.z == key), [ok_])
        c.prove('request: it waits for the holder', s, z3.And(sv.status.is_('Requested'), r.status.is_('Requested')), [ok_])
        c.prove('request: it does not expire', s, N(exp).z >= end_clock(s), [ok_])
        if asked:
            n += 1
            t = asked[0][1].as_('Ok').request_object
            o, j, _ = prov.jws_parts(t.as_('Jwt').z, (RO,))
            c.prove('request: a request fetched is one validly signed, kept as signed', s, z3.And(asked[0][1].is_('Ok'), t.is_('Jwt'), o, q.eq(N(j).claims)), [ok_])
            c.prove('request: it is fetched from the address given', s, N(asked[0][0][0]).z == N(V.app('urldecode', [req.z], RUD)).as_('Ok').z, [ok_])
        else:
            m += 1
            c.prove('request: a request in the text given is kept as given', s, z3.And(inline(req.z).is_('Ok'), q.eq(inline(req.z).as_('Ok'))), [ok_])
        d = q.presentation_definition
        first = d.as_('Object').input_descriptors
        f = N(found[0][0][0])
        c.prove('request: the credentials looked for are those asked for', s, z3.And(
            z3.Not(bad(q)), f.is_some, f.some.eq(first.at(z3.IntVal(0)).constraints), sv.filter.eq(f.some)), [ok_])
        cs = found[0][1]
        c.prove('request: the flow holds, and the holder is shown, exactly those found', s, z3.And(
            cs.is_('Ok'), sv.credentials.eq(cs.as_('Ok')), r.credentials.eq(cs.as_('Ok'))), [ok_])
    if not n or not m:
        c.fail('request: possible', f'by address {n}, in the text {m}')


def bad(q):
    d = q.presentation_definition
    return z3.Or(d.is_('String'), d.as_('Object').input_descriptors.n == 0)


def authorize(c):
    st, now0 = start()
    req = sym('req', STR)
    fl = pres(req.z)
    f = fl.as_('Ok')
    own = [z3.Implies(fl.is_('Ok'), f.id.z == req.z)]
    fit = z3.And(fl.is_('Ok'), f.status.is_('Requested'))
    rs = c.run(HP + 'authorize::authorize', [sym('provider', PROV), req], st)
    no_panic(c, 'authorize', rs)
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        c.prove('authorize: only a flow requested, and only once', s, z3.Implies(ok_, fit), own)
        if not io_failed(s):
            c.prove('authorize: a flow requested is authorized', s, z3.Implies(fit, ok_), own)
        c.prove('authorize: nothing is removed or sent', s, z3.BoolVal(not purges(s) and not s.ghost.get('calls')))
        if not puts(s):
            c.prove('authorize: what is authorized is kept', s, z3.Not(ok_), own)
            continue
        if io_failed(s):
            c.prove('authorize: what cannot be kept is reported', s, z3.Not(ok_), own)
            continue
        c.prove('authorize: what is refused changes nothing', s, ok_, own)
        if c.cover('authorize: authorized', s, own) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        _, key, sv, exp = puts(s)[0]
        sv = val(c, s, sv)
        c.prove('authorize: the flow is authorized and nothing else changes', s, z3.And(
            len(puts(s)) == 1, key == req.z, sv.status.is_('Authorized'), v.as_('Ok').is_('Authorized'), same_but(f, sv, 'status')), own)
        c.prove('authorize: it does not expire', s, N(exp).z >= end_clock(s), own)
    if not n:
        c.fail('authorize: possible', 'no execution authorizes')


# ---- VpBuilder by contract (W02)
def builder(c):
    B = W3 + 'model::vp::VpBuilder::'

    def add_credential(ex, st, fr, a, exp, ta):
        b, x = force(ex.rv(st, a[0])), ex.rv(st, a[1])
        vp = force(b.f['vp'])
        o = vp.f['verifiable_credential']
        old = N(o)
        if 'Some' in force(o).vs:
            n0, before = z3.If(old.is_some, old.some.n, z3.IntVal(0)), old.some
            vec = VVec(z3.simplify(n0 + 1), lambda i: V.ite(i < n0, before.at(i).v, x), x.ty)
        else:
            vec = VVec.of([x], x.ty)
        r = V.some(vec)
        r.opt_push = (o, x)
        fs = dict(vp.f.items(), verifiable_credential=r)
        return [(st, 'val', VStruct(b.ty, {'vp': VStruct(vp.ty, fs)}))]

    def build(ex, st, fr, a, exp, ta):
        b = force(ex.rv(st, a[0]))
        old = N(b.f['vp'])
        full = z3.And(old.context.n >= 2, z3.Not(old.type_.is_('One')))
        st.ghost['calls'] = st.ghost.get('calls', ()) + (('build', (b.f['vp'],), full),)
        return [(st, 'val', VEnum(result(VP, ANY), {'Ok': (full, {'0': b.f['vp']}), 'Err': (z3.Not(full), {'0': ex.fresh(ANY, 'err')})}))]
    c.ex.contracts[B + 'add_credential'] = add_credential
    c.ex.contracts[B + 'build'] = build


def created(ex, st, fr, a, exp, ta):
    """proof::create by contract (W01)"""
    vs = [ex.rv(st, x) for x in a]
    r = V.app('proof_create', [to_term(v) for v in vs], result(STR, ANY))
    st.ghost['enc'] = st.ghost.get('enc', ()) + ((tuple(vs), r),)
    return [(st, 'val', r)]


def present(c):
    st, now0 = start()
    req = sym('req', STR)
    fl = pres(req.z)
    f = fl.as_('Ok')
    q = f.request
    fit = z3.And(fl.is_('Ok'), f.status.is_('Authorized'))
    rs = c.run(HP + 'present::present', [sym('provider', PROV), req], st)
    no_panic(c, 'present', rs)
    d = q.presentation_definition.as_('Object')
    i = z3.Int('i!p')
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        sent, enc = calls(s, 'present'), s.ghost.get('enc', ())
        blt = [x for x in s.ghost.get('calls', ()) if x[0] == 'build']
        c.prove('present: only what the holder authorized', s, z3.Implies(z3.Or(ok_, z3.BoolVal(bool(sent or enc))), fit))
        c.prove('present: the flow is left as it is', s, z3.BoolVal(not prov.log(s)))
        if not sent:
            c.prove('present: presenting is sending', s, z3.Not(ok_))
            c.prove('present: it fails only if nothing can be built or signed', s, z3.Or(
                [z3.Not(fit), q.presentation_definition.is_('String')] + [z3.Not(x[2]) for x in blt] + [z3.Not(N(r).is_('Ok')) for _, r in enc]))
            continue
        if c.cover('present: sent', s) == 'unsat':
            c.obls.pop()
            continue
        n += 1
        if len(sent) != 1 or len(enc) != 1:
            c.fail('present: one presentation is signed and sent', f'{len(enc)}, {len(sent)}')
            continue
        (uri, body), ans = sent[0]
        uri, body = N(uri), N(body)
        c.prove('present: the answer is the verifier\'s', s, z3.And(ok_ == ans.is_('Ok'), z3.Implies(ok_, v.as_('Ok').eq(ans.as_('Ok')))))
        (fm, pay, sg), tok = enc[0]
        fm, pay, tok = N(fm), N(pay), N(tok)
        vp, t = pay.as_('Vp', 'vp'), body.vp_token
        c.prove('present: what is sent is the presentation signed', s, z3.And(
            tok.is_('Ok'), t.is_some, t.some.n == 1, t.some.at(z3.IntVal(0)).is_('String'), t.some.at(z3.IntVal(0)).as_('String').z == tok.as_('Ok').z))
        c.prove('present: it is signed for the verifier asking, with its nonce', s, z3.And(
            pay.is_('Vp'), pay.as_('Vp', 'client_id').z == q.client_id.z, pay.as_('Vp', 'nonce').z == q.nonce.z))
        kid = V.app('kid_of', [to_term(sg)], STR).z
        c.prove('present: its holder is the one who signs', s, z3.And(vp.holder.is_some, vp.holder.some.z == V.app('split', [kid, W.lit('#')], ('vec', STR)).get(z3.IntVal(0)).z))
        cs, fc = vp.verifiable_credential, f.credentials
        got = z3.If(cs.is_some, cs.some.n, z3.IntVal(0))
        c.prove('present: it holds as many credentials as were found', s, got == fc.n)
        c.prove('present: each as issued, in order', s, z3.And(cs.some.at(i).is_('String'), cs.some.at(i).as_('String').z == fc.at(i).issued.z), [0 <= i, i < fc.n])
        sm = body.presentation_submission
        c.prove('present: the submission is for the definition of the request', s, z3.And(sm.is_some, sm.some.definition_id.z == d.id.z))
        dm = sm.some.descriptor_map
        c.prove('present: it answers every credential asked for', s, dm.n == d.input_descriptors.n)
        c.prove('present: each by name, in the presentation', s, z3.And(
            dm.at(i).id.z == d.input_descriptors.at(i).id.z, dm.at(i).path.z == W.lit('$')), [0 <= i, i < d.input_descriptors.n])
        c.prove('present: it names the state of the request', s, body.state.eq(q.state))
        c.prove('present: it is sent where the request says', s, z3.And(
            uri.is_some == q.response_uri.is_some, z3.Implies(uri.is_some, z3.Or(uri.some.z == q.response_uri.some.z, uri.some.z == V.app('str.trim_end_matches', [q.response_uri.some.z, W.lit('/')], STR).z))))
    if not n:
        c.fail('present: possible', 'nothing is ever sent')


def status(c):
    name = f'<{STATUS[1]} as FromStr>::from_str'
    no_panic(c, 'Status::from_str', c.run(name, [sym('text', STR)]))
    msg = sym('message', STR)
    for v in ('Inactive', 'Requested', 'Authorized', 'Failed'):
        st = State()
        x = VEnum(STATUS, {v: (z3.BoolVal(True), {'0': msg} if v == 'Failed' else {})})
        n = 0
        for s, r in vals(c.run(name, [c.ex.display(st, x)], st)):
            r = N(deref(c, s, r))
            n += c.cover(f'status: {v} read', s) != 'unsat'
            c.prove(f'status: {v} is read as written', s, z3.And(r.is_('Ok'), r.as_('Ok').is_(v), r.as_('Ok').as_('Failed').z == msg.z if v == 'Failed' else T))
        if not n:
            c.fail(f'status: {v} is read as written', 'never')


def contract(c):
    c.ex.any_types = ('LangString', 'LangValue', 'Quota')
    install(c)
    c.ex.contracts['vercre_core::urlencode::from_str'] = lambda ex, st, fr, a, exp, ta: [(st, 'val', V.app('urlencode_from_str', [to_term(ex.rv(st, a[0]))], result(RO, ANY)))]
    request(c)
    authorize(c)
    builder(c)
    c.ex.contracts[W3 + 'proof::create'] = created
    present(c)
    status(c)
