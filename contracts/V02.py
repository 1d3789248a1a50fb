"""A response is accepted only if it presents what was asked for, to whom asked, and once."""
from ver import *

DRIVER = ('verifier',)
JVR = result(JV, opaque('serde_json::Error'))
VCC, VPC = adt(W3 + 'proof::jose::VcClaims'), adt(W3 + 'proof::jose::VpClaims')
VPS = ('vec', VP)
FR = result(BOOL, ANY)


class Spec:
    def __init__(self, req, now, recs):
        self.req, self.now = req, now
        self.st = vstored(req.state.some.z)
        self.saved = self.st.as_('Ok').request_object
        self.tokens = req.vp_token.some
        self.defn = self.saved.presentation_definition.as_('Object')
        self.subm = req.presentation_submission.some
        jvr = lambda t, z: N(V.app(f'to_json<{tname(t)}>', [z], JVR))
        one = jvr(VP, recs[VP][1] if VP in recs else self.vp(z3.IntVal(0)).term())
        self.json_ok, self.doc = one.is_('Ok'), one.as_('Ok').term()
        if VPS in recs:
            many = jvr(VPS, recs[VPS][1])
            both = lambda x, y: z3.If(self.tokens.n == 1, x, y) if VP in recs else y
            self.json_ok, self.doc = both(self.json_ok, many.is_('Ok')), both(self.doc, many.as_('Ok').term())

    def jwt(self, i): return prov.jws_parts(self.tokens.at(i).as_('String').z, (VPC,))

    def vp(self, i):
        """the presentation token i stands for"""
        k = self.tokens.at(i)
        return N(ite(k.is_('String'), N(self.jwt(i)[1]).claims.vp.v, k.as_('Object').v))

    def presented(self, i):
        k = self.tokens.at(i)
        o, j, _ = self.jwt(i)
        cl = N(j).claims
        vp = k.as_('Object')
        pr = vp.proof.some.as_('One').challenge
        emb = z3.And(vp.proof.is_some, vp.proof.some.is_('One'))
        return z3.And(z3.Implies(k.is_('String'), z3.And(o, cl.nonce.z == self.saved.nonce.z, cl.aud.z == self.saved.client_id.z)),
                      z3.Implies(k.is_('Object'), z3.And(emb, z3.If(pr.is_some, pr.some.z, W.lit('')) == self.saved.nonce.z)))

    def fulfils(self, m, d):
        """(what mapping m points at, meets descriptor d)"""
        path = N(V.app('jsonpath', [m.path_nested.path.z], result(opaque('JsonPath'), opaque('serde_json_path::ParseError'))))
        nodes = N(V.app('jp_nodes', [path.as_('Ok').term(), self.doc], ('vec', JV)))
        node = nodes.at(z3.IntVal(0))
        o, j, _ = prov.jws_parts(node.as_('String').z, (VCC,))
        vc = N(j).claims.vc
        sat = N(V.app('satisfied', [d.constraints.term(), vc.term()], FR))
        return {
            'in a format asked for': z3.Implies(d.format.is_some, d.format.some.has(m.path_nested.format.z)),
            'the one thing its path selects': z3.And(path.is_('Ok'), nodes.n == 1),
            'a validly signed credential': z3.And(node.is_('String'), o),
            'which meets the constraints': z3.And(sat.is_('Ok'), sat.as_('Ok').z),
            'and has not expired': z3.Implies(vc.valid_until.is_some, vc.valid_until.some.z >= self.now)}

    def conditions(self):
        r, s = self.req, self.saved
        return {
            'to a request made': z3.And(r.state.is_some, self.st.is_('Ok')),
            'that has not expired': not_expired(self.st.as_('Ok').expires_at.z, self.now),
            'with presentations': r.vp_token.is_some,
            'each validly signed, for the nonce and the verifier of the request': forall(self.tokens.n, self.presented),
            'and a submission': r.presentation_submission.is_some,
            'for the definition of the request': z3.And(s.presentation_definition.is_('Object'), self.subm.definition_id.z == self.defn.id.z)}


def one_mapping(sp, d, good):
    maps = sp.subm.descriptor_map
    return exists(maps.n, lambda k: z3.And(maps.at(k).id.z == d.id.z, good(maps.at(k))))


def contract(c):
    c.ex.any_types = ('LangString', 'LangValue')
    install(c)
    c.ex.contracts['vercre_dif_exch::Constraints::satisfied'] = fn_contract('satisfied', FR)
    st, now0 = start()
    req = N(sym('req', adt(OV + 'ResponseRequest')))
    rs = c.run('vercre_verifier::response::response', [sym('provider', PROV), req.v], st)
    no_panic(c, 'response', rs)
    n = 0
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        ok_ = v.is_('Ok')
        recs = {x.ty: (x, z) for x, z in s.ghost.get('jsoned', ()) if x.ty in (VP, VPS)}
        ran = [t for e in purges(s) for t in [e[1]]]
        c.prove('nothing is stored', s, z3.BoolVal(not puts(s)))
        c.prove('nothing is purged but the request answered', s, z3.And([z3.And(req.state.is_some, k == req.state.some.z) for k in ran]) if ran else T)
        sp = Spec(req, now0, recs)
        alone = sp.tokens.n == 1
        if VP in recs:
            c.prove('a presentation given alone is taken as it is', s, z3.And(*([alone] if VPS not in recs else []), N(recs[VP][0]).eq(sp.vp(z3.IntVal(0)))), [alone] if VPS in recs else [])
        if VPS in recs:
            x, i = N(recs[VPS][0]), z3.Int('i!v')
            several = [z3.Not(alone)] if VP in recs else []
            c.prove('several presentations are taken as a list', s, z3.And(z3.Not(alone), x.n == sp.tokens.n), several)
            c.prove('those listed are those given, in order', s, x.at(i).eq(sp.vp(i)), several + [0 <= i, i < x.n])
        if not z3.is_false(ok_):
            if c.cover('accepted', s, [ok_]) == 'unsat':
                c.obls.pop()
                continue
            n += 1
            if not recs:
                c.fail('what is presented is looked up in the presentations', 'nothing is serialised')
                continue
            c.prove('an accepted response is removed, once', s, z3.BoolVal(len(ran) == 1))
            for k, g in sp.conditions().items():
                c.prove('accepted only as a response ' + k, s, z3.Implies(ok_, g))
            i = z3.Int('i!d')
            d = sp.defn.input_descriptors.at(i)
            rng = [ok_, 0 <= i, i < sp.defn.input_descriptors.n]
            for k in sp.fulfils(sp.subm.descriptor_map.at(i), d):
                c.prove('accepted only if a mapping of each descriptor gives ' + k, s, one_mapping(sp, d, lambda m: sp.fulfils(m, d)[k]), rng)
            c.prove('accepted only if a mapping of each descriptor gives all of this', s, one_mapping(sp, d, lambda m: z3.And(list(sp.fulfils(m, d).values()))), rng)
        if not z3.is_false(v.is_('Err')):
            if not io_failed(s):
                c.prove('a request not answered remains', s, z3.Implies(v.is_('Err'), z3.BoolVal(not ran)))
                end = Spec(req, end_clock(s) + 2 * SEC, recs)
                i, k = z3.Int(f'i!{W.uid()}'), z3.Int(f'k!{W.uid()}')
                ds, ms = end.defn.input_descriptors, end.subm.descriptor_map
                each = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ds.n), z3.And(
                    one_mapping(end, ds.at(i), lambda m: T),
                    z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ms.n, ms.at(k).id.z == ds.at(i).id.z), z3.And(list(end.fulfils(ms.at(k), ds.at(i)).values())))))))
                c.prove('a response that meets all of this is accepted', s,
                        z3.Implies(v.is_('Err'), z3.Not(z3.And(list(end.conditions().values()) + [end.json_ok, each]))))
    if not n:
        c.fail('responses can be accepted', 'no execution accepts')
