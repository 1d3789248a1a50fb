"""Shared by the properties of the authorization endpoints."""
from iss import *

RO = adt(P + 'RequestObject')
ASSUMPTIONS = ['the state store returns what was put under a key until it is purged; puts and purges may fail at any call',
               'metadata look-ups and authorization of a subject are functions of their arguments within one request',
               'generated codes (C02) collide with nothing',
               'the clock does not run backwards']


def words(z): return N(V.app('split_ws', [z], ('vec', STR)))
def authorize_of(subject, cid): return N(V.app('Subject.authorize', [subject, cid], result(('vec', STR), ANY)))


class Spec:
    def __init__(self, req, is_par, now):
        self.req = req
        self.iss_r, self.cl_r, self.sv_r = issuer_of(req.credential_issuer.z), client_of(req.client_id.z), server_of(req.credential_issuer.z)
        self.iss, cl, sv = self.iss_r.as_('Ok'), self.cl_r.as_('Ok'), self.sv_r.as_('Ok')
        self.cfgs = self.iss.credential_configurations_supported
        self.ds = req.authorization_details
        self.off = stored(req.issuer_state.some.z)
        off = self.off.as_('Ok')
        rpar = sv.oauth.require_pushed_authorization_requests
        rt = req.response_type
        n = chars_len(req.code_challenge)
        opt_has = lambda o, name: z3.And(o.is_some, has_variant(o.some, name))
        self.conditions = {
            'issuer, client and server are known': z3.And(self.iss_r.is_('Ok'), self.cl_r.is_('Ok'), self.sv_r.is_('Ok')),
            'it was pushed where the server requires that': z3.Implies(z3.And(rpar.is_some, rpar.some.z), z3.BoolVal(is_par)),
            'client and server support its response type': z3.And(contains(sv.oauth.response_types_supported, rt.v), cl.oauth.response_types.is_some, contains(cl.oauth.response_types.some, rt.v)),
            'the scopes of the client are supported': scopes_ok(cl, sv),
            'client and server allow authorization codes': z3.And(opt_has(cl.oauth.grant_types, 'AuthorizationCode'), opt_has(sv.oauth.grant_types_supported, 'AuthorizationCode')),
            'the holder is identified': req.subject_id.z != W.lit(''),
            'an offer it refers to is open, and was made to the same holder': z3.Implies(req.issuer_state.is_some, z3.And(
                self.off.is_('Ok'), not_expired(off.expires_at.z, now), off.subject_id.is_some, off.subject_id.some.z == req.subject_id.z)),
            'it asks for credentials': z3.Or(self.ds.is_some, req.scope.is_some),
            'every credential asked for in details is supported, with its claims': z3.Implies(self.ds.is_some, forall(self.ds.some.n, self.detail_ok)),
            'every scope asked for is that of a credential': z3.Implies(req.scope.is_some, forall(words(req.scope.some.z).n, lambda i: self.scope_ok(words(req.scope.some.z).at(i).z))),
            'its redirect URI is one the client registered': z3.And(req.redirect_uri.is_some, cl.oauth.redirect_uris.is_some, contains(cl.oauth.redirect_uris.some, req.redirect_uri.some.v)),
            'its challenge method is supported': z3.And(sv.oauth.code_challenge_methods_supported.is_some, contains(sv.oauth.code_challenge_methods_supported.some, req.code_challenge_method.v)),
            'its challenge has 43 to 128 characters': z3.And(n >= 43, n <= 128),
        }

    def config(self, d):
        """(found, configuration id) of a detail"""
        found, cid, _, _ = requested(self.iss, d.credential)
        return found, cid

    def detail_ok(self, i):
        found, cid, has, cl = requested(self.iss, self.ds.some.at(i).credential)
        return z3.And(found, self.cfgs.has(cid), z3.Implies(has, claims_fit(self.iss, cid, cl)))

    def in_details(self, k):
        return z3.And(self.ds.is_some, exists(self.ds.some.n, lambda j: self.config(self.ds.some.at(j))[1] == k))

    def has_scope(self, k, w):
        sc = self.cfgs.get(k).scope
        return z3.And(self.cfgs.has(k), z3.Not(self.in_details(k)), sc.is_some, sc.some.z == w)

    def scope_ok(self, w):
        k = z3.Const(f'k!{W.uid()}', Str)
        return z3.Exists([k], self.has_scope(k, w))


def chars_len(s): return V.app('str.len', [s.z], ('int', 'usize')).z


CTX = adt('vercre_issuer::authorize::Context')
VS = 'vercre_issuer::authorize::Context::verify_scope'


def scope_fn(c):
    """(path, type of its argument) of the method that adds the configurations of the scopes of a request:
    verify_scope, or else the one method of Context that is given a scope"""
    found = []
    for p, f in c.prog.fns.items():
        if p.rsplit('::', 1)[0] != VS.rsplit('::', 1)[0] or f.ast['sig'].get('async'):
            continue
        ins = f.ast['sig']['ins']
        ts = c.ex.param_tys(f, None) if len(ins) == 2 and ins[0].get('self') else []
        if ts and ts[1] in (STR, option(STR), RO):
            found.append((p, ts[1]))
    for x in found:
        if x[0] == VS:
            return x
    if len(found) != 1:
        raise Unsupported('no verify_scope')
    return found[0]


def scope_arg(v):
    """(present, scope) of the argument"""
    if v.ty == STR:
        return T, v.z
    o = N(v) if v.ty == option(STR) else N(v).scope
    return o.is_some, o.some.z


def scoped(ctx, q):
    """the configuration q can be asked for by its scope: details take precedence"""
    cfg = ctx.issuer.credential_configurations_supported
    return z3.And(cfg.has(q), z3.Not(ctx.auth_dets.has(q)), cfg.get(q).scope.is_some)


def scopes_named(ctx, scope):
    """every scope names a configuration"""
    given, scope = scope
    ws = words(scope)
    cfg = ctx.issuer.credential_configurations_supported
    q = z3.Const(f'q!{W.uid()}', Str)
    return z3.Implies(given, forall(ws.n, lambda i: z3.Exists([q], z3.And(scoped(ctx, q), cfg.get(q).scope.some.z == ws.at(i).z))))


def in_scope(ctx, scope, q):
    return z3.And(scope[0], scoped(ctx, q), contains(words(scope[1]), ctx.issuer.credential_configurations_supported.get(q).scope.some.v))


def scope_contract(c):
    """verify_scope adds the configurations of the scopes, each with its scope, or fails"""
    path, ty = scope_fn(c)
    st, _ = start()
    ctx0 = sym('ctx', CTX)
    f = force(ctx0)
    ctx0 = VStruct(CTX, {**dict(f.f.items()), 'scope_items': c.ex.empty_map(STR, STR)})
    cell = c.ex.new_cell(st, ctx0)
    sc = sym('scope', ty)
    rs = c.run(path, [VRef(cell), sc], st)
    sc = scope_arg(sc)
    no_panic(c, 'verify_scope', rs)
    ctx = N(ctx0)
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        after = N(s.cells[cell])
        c.prove('verify_scope: it succeeds exactly if every scope is that of a configuration not asked for by a detail', s, v.is_('Ok') == scopes_named(ctx, sc))
        if not z3.is_false(v.is_('Ok')):
            q = z3.Const('q!s', Str)
            c.prove('verify_scope: it adds no configuration but those of the scopes, with their scope', s, z3.Implies(z3.And(v.is_('Ok'), after.scope_items.has(q)),
                    z3.And(in_scope(ctx, sc, q), after.scope_items.get(q).z == ctx.issuer.credential_configurations_supported.get(q).scope.some.z)))
            c.prove('verify_scope: it adds every configuration of the scopes', s, z3.Implies(z3.And(v.is_('Ok'), in_scope(ctx, sc, q)), after.scope_items.has(q)))
            for n in f.f:
                if n != 'scope_items':
                    c.prove(f'verify_scope: it leaves {n} alone', s, z3.Implies(v.is_('Ok'), after.fld(n).eq(ctx.fld(n))))


def scope_model(c):
    """callers of verify_scope see its contract"""
    def model(ex, st, fr, a, exp, ta):
        me, sc = a[0], scope_arg(ex.rv(st, a[1]))
        v = force(ex.rv(st, me))
        ctx = N(v)
        if not isinstance(me, VRef) or force(v.f['scope_items']).items != []:
            raise Unsupported('verify_scope called with scopes present')
        named = scopes_named(ctx, sc)
        bad = st.fork()
        bad.add(z3.Not(named))
        st.add(named)
        cfg = ctx.issuer.credential_configurations_supported
        u = W.uid()
        has = W.fn(f'in_scope{u}', [Str], z3.BoolSort())
        q = z3.Const(f'q!{u}', Str)
        st.add(z3.ForAll([q], has(q) == in_scope(ctx, sc, q), patterns=[has(q)]),
               z3.ForAll([q], z3.Implies(in_scope(ctx, sc, q), has(q))))
        m = VMap(STR, STR, lambda k: has(k), lambda k: cfg.get(k).scope.some.v)
        ex.store(st, me.cell, me.path + (('f', 'scope_items'),), m)
        e = adt('vercre_openid::error::Error')
        return [(st, 'val', ok(UNITV, e)), (bad, 'val', err(ex.fresh(e, 'err'), UNIT))]
    c.ex.contracts[scope_fn(c)[0]] = model
