"""Shared by the issuer properties: contracts of the metadata helpers, the store at entry, accessors."""
from common import *
from rvc import prov

P = 'vercre_openid::issuer::'
ANY = opaque('anyhow::Error')
STATE = adt('vercre_issuer::state::State')
SEC = 10**9
PROV = opaque('Provider')


class N:
    """read access to a symbolic value"""
    def __init__(self, v): self.v = v if isinstance(v, VTerm) else v
    @property
    def _f(self): return force(self.v)
    def __getattr__(self, n): return N(self._f.f[n])
    def fld(self, n): return N(self._f.f[n])
    def tup(self, i): return N(self._f.es[i])
    def is_(self, v): return self._f.cond(v)
    def as_(self, v, f='0'):
        e = self._f
        if v not in e.vs:
            return N(app(f'undef{W.uid()}', [], variant_ty(e.ty, v, f)))
        return N(e.vs[v][1][f])
    @property
    def some(self): return self.as_('Some')
    @property
    def is_some(self): return self.is_('Some')
    @property
    def z(self): return self.v.z
    @property
    def n(self): return self._f.n
    def at(self, i): return N(self._f.get(i))
    def has(self, k): return self._f.has(k)
    def get(self, k): return N(self._f.at(k))
    def term(self): return to_term(self.v)
    def eq(self, o): return V.eq(self.v, o.v if isinstance(o, N) else o)


def variant_ty(t, v, f):
    for vn, fs in V.adt_def(t)[1]:
        if vn == v:
            return dict(fs)[f]
    raise Unsupported(f'variant {v}')


def fn_contract(name, t):
    """a callee by contract: a function of its arguments"""
    def f(ex, st, fr, a, exp, ta):
        r = V.app(name, [to_term(ex.rv(st, x)) for x in a], t)
        ex.drain(st)
        return [(st, 'val', r)]
    return f


GEN = 'auth_code issuer_state nonce notification_id uri_token token transaction_id tx_code'.split()


def generator(name):
    """C02 by contract: a value nobody has seen (recorded in the ghost state)"""
    def f(ex, st, fr, a, exp, ta):
        r = ex.fresh(STR, 'gen_' + name)
        st.ghost['gen'] = st.ghost.get('gen', ()) + ((name, r.z),)
        return [(st, 'val', r)]
    return f


def gens(s, name=None): return [z for n, z in s.ghost.get('gen', ()) if name in (None, n)]


def fresh_gens(s, *known):
    """generated values collide neither with each other nor with what was known before"""
    g = gens(s)
    return ([z3.Distinct(g)] if len(g) > 1 else []) + [a != b for a in g for b in known]


def one_of(z, zs): return z3.Or([z == x for x in zs]) if zs else z3.BoolVal(False)


def install(c):
    for n in GEN:
        if f'vercre_core::gen::{n}' in c.prog.fns:
            c.ex.contracts[f'vercre_core::gen::{n}'] = generator(n)
    c.ex.contracts['vercre_core::pkce::code_challenge'] = fn_contract('code_challenge', STR)
    """callees with properties of their own (O01, O02) are used by contract"""
    c.ex.contracts[P + 'CredentialConfiguration::verify_claims'] = fn_contract('verify_claims', result(UNIT, ANY))
    c.ex.contracts[P + 'Issuer::credential_configuration_id'] = fn_contract('config_id', result(STR, ANY))


def install_credential(c):
    install(c)
    c.ex.contracts['vercre_w3c_vc::proof::create'] = fn_contract('vc_jwt', result(STR, ANY))
    c.ex.contracts['vercre_iso_mdl::to_credential'] = fn_contract('mdoc', result(STR, ANY))


def contains(vec, v):
    i = z3.Int(f'i!{W.uid()}')
    return z3.Exists([i], z3.And(0 <= i, i < vec.n, vec.at(i).eq(v)))


def has_variant(vec, name):
    """the list of enum values contains `name`"""
    i = z3.Int(f'i!{W.uid()}')
    return z3.Exists([i], z3.And(0 <= i, i < vec.n, vec.at(i).is_(name)))


def stored(key):
    """what the store holds under key when the endpoint is called: Result<State>"""
    return N(V.app('store0', [key], result(STATE, prov.AE)))


def meta(name, args, t): return N(V.app(f'Metadata.{name}', args, result(adt(P + t), ANY)))


def server_of(issuer): return meta('server', [issuer, to_term(none(STR))], 'Server')
def client_of(cid): return meta('client', [cid], 'Client')
def issuer_of(iid): return meta('issuer', [iid], 'Issuer')


def claims_of_format(f):
    """Option of the claims a format lists"""
    r = None
    f = f._f
    for v in f.vs:
        pl = N(f.vs[v][1]['0'])
        o = pl.credential_definition.credential_subject.v if 'credential_definition' in pl._f.f else pl.claims.v
        r = o if r is None else ite(f.cond(v), o, r)
    return N(r)


def claims_of_profile(p):
    r = None
    f = p._f
    for v in f.vs:
        x = N(f.vs[v][1]['0'])
        o = x.credential_subject.v if v == 'W3c' else some(x.v)
        r = o if r is None else ite(f.cond(v), o, r)
    return N(r)


def requested(issuer, cred):
    """what a credential of an authorization detail asks for: (found, configuration id, Option<claims>)"""
    ci, cf = cred.is_('ConfigurationId'), cred.is_('Format')
    fmt = cred.as_('Format')
    id1 = cred.as_('ConfigurationId', 'credential_configuration_id')
    r2 = N(V.app('config_id', [issuer.term(), fmt.term()], result(STR, ANY)))
    prof = cred.as_('ConfigurationId', 'claims')
    pc = claims_of_profile(prof.some)
    c1_some, c1 = z3.And(prof.is_some, pc.is_some), pc.some
    c2 = claims_of_format(fmt)
    found = z3.Or(ci, r2.is_('Ok'))
    cid = z3.If(ci, id1.z, r2.as_('Ok').z)
    return found, cid, z3.If(ci, c1_some, c2.is_some), z3.If(ci, c1.term(), c2.some.term())


def claims_fit(issuer, cid, claims_term):
    cfg = issuer.credential_configurations_supported
    ok_ = N(V.app('verify_claims', [cfg.get(cid).term(), claims_term], result(UNIT, ANY))).is_('Ok')
    return z3.And(cfg.has(cid), ok_)


def scopes_ok(client, server):
    cs, ss = client.oauth.scope, server.oauth.scopes_supported
    ws = N(V.app('split_ws', [cs.some.z], ('vec', STR)))
    return z3.And(cs.is_some, ss.is_some, forall(ws.n, lambda i: contains(ss.some, ws.at(i))))


def not_expired(expires_at, now): return expires_at - now > -SEC


def start():
    st = State()
    now0 = z3.Int('now0')
    st.ghost['clock'] = now0
    st.add(now0 >= 0)
    return st, now0


def end_clock(s): return s.ghost['clock']


def puts(s): return [e for e in prov.log(s) if e[0] == 'put']
def purges(s): return [e for e in prov.log(s) if e[0] == 'purge']
def io_failed(s): return any(e[0] == 'fail' for e in prov.log(s))
def arm(v, name): return N(v).is_(name)


def within(t, now0, s, secs):
    """the time t lies secs after some moment of this request"""
    return z3.And(t >= now0 + secs * SEC, t <= end_clock(s) + secs * SEC)


def same_credential(a, b):
    """O02: the same configuration, or the same format and types"""
    from O02 import same_format
    return z3.Or(z3.And(a.is_('ConfigurationId'), b.is_('ConfigurationId'),
                        a.as_('ConfigurationId', 'credential_configuration_id').z == b.as_('ConfigurationId', 'credential_configuration_id').z),
                 z3.And(a.is_('Format'), b.is_('Format'), same_format(a.as_('Format').v, b.as_('Format').v)))


def exists(n, f):
    i = z3.Int(f'i!{W.uid()}')
    return z3.Exists([i], z3.And(0 <= i, i < n, f(i)))


def val(c, s, v): return N(c.ex.rv(s, v) if isinstance(v, VRef) else v)
