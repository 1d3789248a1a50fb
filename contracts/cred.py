"""Shared by the properties of the credential endpoint."""
from iss import *

CR = adt(P + 'CredentialRequest')
JWT = 'vercre_infosec::jose::jws::Jwt'
CLAIMS = adt(P + 'ProofClaims')
ASSUMPTIONS = ['the state store returns what was put under a key until it is purged; puts and purges may fail at any call',
               'metadata, dataset and status look-ups are functions of their arguments within one request',
               'jws::decode succeeds only on a token signed by the key its kid names; what it yields is a function of the token',
               'a state stored under a token is that of this token (I03, kept by I05)',
               'generated nonces and identifiers (C02) collide with nothing',
               'the clock does not run backwards']


def recorded(name, t):
    """a callee by contract: a function of its arguments; the call is recorded"""
    def f(ex, st, fr, a, exp, ta):
        vs = [ex.rv(st, x) for x in a]
        r = V.app(name, [to_term(v) for v in vs], t)
        st.ghost['calls'] = st.ghost.get('calls', ()) + ((name, tuple(vs), r),)
        ex.drain(st)
        return [(st, 'val', r)]
    return f


def calls(s, name): return [(a, N(r)) for n, a, r in s.ghost.get('calls', ()) if n == name]


def run(c, path='vercre_issuer::credential::credential', t=CR):
    install(c)
    c.ex.any_types = ('LangString', 'LangValue')
    c.ex.contracts['vercre_w3c_vc::proof::create'] = recorded('vc_jwt', result(STR, ANY))
    c.ex.contracts['vercre_iso_mdl::to_credential'] = recorded('mdoc', result(STR, ANY))
    st, now0 = start()
    r = sym('req', t)
    return N(r), now0, c.run(path, [sym('provider', PROV), r], st)


def decoded(tok):
    """(valid, header and claims) of a proof"""
    o, j, _ = prov.jws_parts(tok, (CLAIMS,))
    return o, N(j)


def proofs(req):
    """(n, i -> token) of the proofs of a request that has some"""
    p = req.proof.some
    one = p.is_('Single')
    jwt = p.as_('Single', 'proof_type').as_('Jwt', 'jwt').z
    many = p.as_('Multiple').as_('Jwt')
    return z3.If(one, 1, many.n), lambda i: z3.If(one, jwt, many.at(i).z)


class Spec:
    """what the endpoint goes by"""
    def __init__(self, req, now):
        self.req = req
        self.st = stored(req.access_token.z)
        s = self.s = self.st.as_('Ok')
        self.tok = s.stage.as_('Validated')
        self.iss_r = issuer_of(req.credential_issuer.z)
        self.iss = self.iss_r.as_('Ok')
        cr = self.cr = req.credential
        self.by_id = cr.is_('Identifier')
        self.id = cr.as_('Identifier', 'credential_identifier').z
        self.fmt = cr.as_('Format')
        self.cfg_r = N(V.app('config_id', [self.iss.term(), self.fmt.term()], result(STR, ANY)))
        creds = self.creds = self.tok.credentials
        self.cid = z3.If(self.by_id, creds.get(self.id).credential_configuration_id.z, self.cfg_r.as_('Ok').z)
        self.cfgs = self.iss.credential_configurations_supported
        self.cfg = self.cfgs.get(self.cid)
        self.pts = self.cfg.proof_types_supported
        n, at = proofs(req)
        self.n, self.at = n, at
        self.known = z3.And(self.st.is_('Ok'), s.stage.is_('Validated'))
        self.fresh = z3.And(not_expired(s.expires_at.z, now), not_expired(self.tok.c_nonce_expires_at.z, now))
        q = z3.Const(f'q!{W.uid()}', Str)
        self.authorized = z3.If(self.by_id, creds.has(self.id), z3.And(self.cfg_r.is_('Ok'), z3.Exists([q], self.covers(q))))

    def covers(self, q):
        """the credential the token holds under q is the one requested"""
        return z3.And(self.creds.has(q), z3.If(self.by_id, q == self.id, self.creds.get(q).credential_configuration_id.z == self.cfg_r.as_('Ok').z))

    def proof_ok(self, i):
        o, j = decoded(self.at(i))
        return z3.And(o, j.header.typ.is_('Proof'), j.claims.nonce.is_some, j.claims.nonce.some.z == self.tok.c_nonce.z, j.header.key.is_('KeyId'))

    def holder(self, i):
        _, j = decoded(self.at(i))
        return N(V.app('split', [j.header.key.as_('KeyId').z, W.lit('#')], ('vec', STR))).at(z3.IntVal(0)).z

    def conditions(self):
        return {
            'the access token is known and a token': self.known,
            'neither the token nor its nonce has expired': self.fresh,
            'the credential is one the token covers': z3.And(self.iss_r.is_('Ok'), self.authorized),
            'its configuration is supported': self.cfgs.has(self.cid),
            'a proof is given where one is required, and proofs by JWT are accepted':
                z3.Implies(self.pts.is_some, z3.And(self.req.proof.is_some, self.n >= 1, self.pts.some.has(W.lit('jwt')))),
            'every proof is a signed proof token by a named key for the current nonce':
                z3.Implies(self.pts.is_some, forall(self.n, self.proof_ok)),
        }


def own_name(sp):
    """I03: the state stored under a token names it"""
    return z3.Implies(sp.known, sp.tok.access_token.z == sp.req.access_token.z)


def out_of_scope(m): return m.startswith('todo!')
