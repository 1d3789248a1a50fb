"""Request macros: what they accept and what the generated expression builds."""
from common import *
from rvc import tok

DRIVER = ('macros',)
ASSUMPTIONS = ['quote! interpolates the tokens of its variables; the Rust compiler gives struct, call and vec! expressions their usual meaning',
               'conversions (into, to_string, From, Into) keep the value',
               'reading the macro input into a key/value tree is checked on the compiled macros only (bounded)']
P = 'vercre_macros::'
VAL = adt(P + 'parse::Value')
JSON = adt(P + 'parse::Json')
STR = ('str',)
MAPT = ('map', STR, VAL)


class In:
    """well-formedness and meaning of the input tree"""
    def __init__(self, fields): self.m = fields
    def has(self, k): return self.m.has(W.lit(k))
    def at(self, k): return force(self.m.at(W.lit(k)))


def is_str(v, *ss): return z3.And(v.cond('String'), z3.Or([v.vs['String'][1]['0'].z == W.lit(s) for s in ss]))
def arr(v): return force(v.vs['Array'][1]['0'])
def obj(v): return In(force(v.vs['Object'][1]['0']))
def opt(i, k, s=None): return ('ite', i.has(k), ('some', s or ('user', i.at(k))), ('none',))
def req(i, k): return ('user', i.at(k))
def only(i, keys):
    k = z3.Const(f'k!{W.uid()}', Str)
    return z3.ForAll([k], z3.Implies(i.m.has(k), z3.Or([k == W.lit(x) for x in keys])))


def subject_ok(d): return z3.Implies(d.has('credentialSubject'), d.at('credentialSubject').cond('Object'))
def subject(d):
    return ('ite', d.has('credentialSubject'), ('some', ('claimsmap', to_term(d.at('credentialSubject').vs['Object'][1]['0']))), ('none',))


def definition(d):
    return ('struct', 'CredentialDefinition', {'context': ('any',), 'type_': opt(d, 'type'), 'credential_subject': subject(d)})


def def_ok(i, required):
    v = i.at('credential_definition')
    c = z3.And(v.cond('Object'), subject_ok(obj(v)))
    return z3.And(i.has('credential_definition'), c, obj(v).has('type')) if required else z3.Implies(i.has('credential_definition'), c)


def detail_ok(v):
    d = obj(v)
    t = d.at('type')
    f = d.at('format')
    return z3.And(v.cond('Object'), d.has('type'), z3.Implies(t.cond('String'), is_str(t, 'openid_credential')),
                  z3.If(d.has('credential_configuration_id'), def_ok(d, False),
                        z3.And(d.has('format'), is_str(f, 'jwt_vc_json'), def_ok(d, True))))


def fmt(i): return ('call', 'Format::JwtVcJson', [('struct', 'ProfileW3c', {'credential_definition': definition(obj(i.at('credential_definition')))})])


def detail(v):
    d = obj(v)
    by_id = ('struct', 'CredentialAuthorization::ConfigurationId', {
        'credential_configuration_id': req(d, 'credential_configuration_id'),
        'claims': opt(d, 'credential_definition', ('call', 'ProfileClaims::W3c', [definition(obj(d.at('credential_definition')))]))})
    by_fmt = ('call', 'CredentialAuthorization::Format', [fmt(d)])
    return ('struct', 'AuthorizationDetail', {'type_': ('call', 'AuthorizationDetailType::OpenIdCredential', []),
            'credential': ('ite', d.has('credential_configuration_id'), by_id, by_fmt), 'locations': ('none',)})


def details_ok(i):
    v = i.at('authorization_details')
    return z3.Implies(i.has('authorization_details'), z3.And(v.cond('Array'), forall(arr(v).n, lambda k: detail_ok(force(arr(v).get(k))))))
def details(i):
    v = i.at('authorization_details')
    return opt(i, 'authorization_details', ('list', arr(v).n, lambda k: detail(force(arr(v).get(k)))))


def offer(i):
    ids, g = i.at('credential_configuration_ids'), i.at('grant_types')
    pre, auth = 'urn:ietf:params:oauth:grant-type:pre-authorized_code', 'authorization_code'
    okc = z3.And(i.has('credential_issuer'), i.has('credential_configuration_ids'), ids.cond('Array'), arr(ids).n > 0,
                 z3.Implies(i.has('grant_types'), z3.And(g.cond('Array'), forall(arr(g).n, lambda k: is_str(force(arr(g).get(k)), pre, auth)))),
                 only(i, ['credential_issuer', 'subject_id', 'credential_configuration_ids', 'grant_types', 'tx_code_required', 'send_type']))
    gt = lambda k: ('ite', is_str(force(arr(g).get(k)), pre), ('call', 'GrantType::PreAuthorizedCode', []), ('call', 'GrantType::AuthorizationCode', []))
    return okc, ('struct', 'CreateOfferRequest', {
        'credential_issuer': req(i, 'credential_issuer'), 'subject_id': opt(i, 'subject_id'),
        'credential_configuration_ids': req(i, 'credential_configuration_ids'),
        'grant_types': opt(i, 'grant_types', ('list', arr(g).n, gt)),
        'tx_code_required': ('ite', i.has('tx_code_required'), req(i, 'tx_code_required'), ('bool', F)),
        'send_type': ('ite', i.has('send_type'), req(i, 'send_type'), ('call', 'SendType::ByVal', []))})


def authorization(i):
    rq = ['credential_issuer', 'response_type', 'client_id', 'code_challenge', 'code_challenge_method', 'subject_id']
    op = ['redirect_uri', 'state', 'scope', 'resource', 'wallet_issuer', 'user_hint', 'issuer_state']
    okc = z3.And([i.has(k) for k in rq] + [details_ok(i), only(i, rq + op + ['authorization_details'])])
    f = {k: req(i, k) for k in rq}
    f |= {k: opt(i, k) for k in op}
    f['authorization_details'] = details(i)
    return okc, ('call', 'AuthorizationRequest::Object', [('struct', 'RequestObject', f)])


def token(i):
    g = i.at('grant_type')
    pre, auth = is_str(g, 'urn:ietf:params:oauth:grant-type:pre-authorized_code'), is_str(g, 'authorization_code')
    base = ['credential_issuer', 'client_id', 'grant_type', 'authorization_details']
    okc = z3.And(i.has('credential_issuer'), i.has('grant_type'), details_ok(i), z3.Or(
        z3.And(pre, i.has('pre-authorized_code'), only(i, base + ['pre-authorized_code', 'tx_code'])),
        z3.And(auth, i.has('code'), i.has('code_verifier'), only(i, base + ['code', 'redirect_uri', 'code_verifier']))))
    gt = ('ite', pre, ('struct', 'TokenGrantType::PreAuthorizedCode', {'pre_authorized_code': req(i, 'pre-authorized_code'), 'tx_code': opt(i, 'tx_code')}),
          ('struct', 'TokenGrantType::AuthorizationCode', {'code': req(i, 'code'), 'redirect_uri': opt(i, 'redirect_uri'), 'code_verifier': ('some', req(i, 'code_verifier'))}))
    return okc, ('struct', 'TokenRequest', {'credential_issuer': req(i, 'credential_issuer'), 'client_id': opt(i, 'client_id'), 'grant_type': gt,
                                            'authorization_details': details(i), 'client_assertion': ('none',)})


def credential(i):
    base = ['credential_issuer', 'access_token', 'proof', 'credential_response_encryption']
    p = i.at('proof')
    po = obj(p)
    okc = z3.And(i.has('credential_issuer'), i.has('access_token'),
                 z3.If(i.has('credential_identifier'), only(i, base + ['credential_identifier']),
                       z3.And(i.has('format'), is_str(i.at('format'), 'jwt_vc_json'), def_ok(i, True), only(i, base + ['format', 'credential_definition']))),
                 z3.Implies(i.has('proof'), z3.And(p.cond('Object'), po.has('proof_type'), is_str(po.at('proof_type'), 'jwt'), po.has('jwt'))))
    cr = ('ite', i.has('credential_identifier'), ('struct', 'CredentialIssuance::Identifier', {'credential_identifier': req(i, 'credential_identifier')}),
          ('call', 'CredentialIssuance::Format', [fmt(i)]))
    pr = opt(i, 'proof', ('struct', 'Proof::Single', {'proof_type': ('struct', 'SingleProof::Jwt', {'jwt': req(po, 'jwt')})}))
    return okc, ('struct', 'CredentialRequest', {'credential_issuer': req(i, 'credential_issuer'), 'access_token': req(i, 'access_token'),
                                                 'credential': cr, 'proof': pr, 'credential_response_encryption': opt(i, 'credential_response_encryption')})


MACROS = [('create_offer', offer), ('authorization', authorization), ('token', token), ('credential', credential)]


def contract(c):
    # ---- claims: recursive, used by contract
    CL = P + 'authorization::claims'
    tok.TOKS['toks:claims'] = lambda args, s: (s[1][1] == args[0]) if s[0] == 'some' and s[1][0] == 'claimsmap' else F
    if CL in c.prog.fns:
        def claims(ex, st, fr, a, exp, ta):
            m = ex.rv(st, a[0])
            return [(st, 'val', VTok([('h', VTerm(W.fn('toks:claims', [U], U)(to_term(m)), tok.TS))]))]
        c.ex.contracts[CL] = claims
        m = sym('claimset', MAPT)
        rs = c.run(CL, [m])
        no_panic(c, 'claims', rs)
        mv = force(m)
        for s, v in vals(rs):
            c.cover('claims', s)
            v = deref(c, s, v)
            keys = c.ex.to_iter(s, mv, None)
            def entry(k):
                kv = keys.get(k)
                key, x = (deref(c, s, e) for e in kv.es)
                inner = force(x.vs['Object'][1]['0'])
                q = z3.Const(f'q!{W.uid()}', Str)
                has = z3.And(x.cond('Object'), z3.Exists([q], inner.has(q)))
                return ('tuple', [('str', key), ('ite', has, ('call', 'Claim::Set', [('claimsmap', to_term(inner))]),
                                                 ('call', 'Claim::Entry', [('call', 'ClaimDefinition::default', [])]))])
            c.prove('claims: one entry per claim, nested claims kept', s,
                    tok.agree(tok.whole(v.items), ('some', ('call', 'HashMap::from', [('list', keys.n, entry)]))))
    for name, spec in MACROS:
        j = sym('input', JSON)
        rs = c.run(P + name + '::request', [j])
        no_panic(c, name, rs)
        okc, want = spec(In(force(force(j).f['fields'])))
        for s, v in vals(rs):
            v = deref(c, s, v)
            c.cover(name, s)
            c.prove(f'{name}: accepted only if well formed', s, z3.Implies(v.cond('Ok'), okc))
            c.prove(f'{name}: well formed input is accepted', s, z3.Implies(okc, v.cond('Ok')))
            if not z3.is_false(z3.simplify(v.cond('Ok'))):
                t = v.vs['Ok'][1]['0']
                c.prove(f'{name}: the request built is the one written', s, z3.Implies(v.cond('Ok'), tok.agree(tok.whole(tok_items(t)), want)))
    values(c)


def values(c):
    """the expression of a value: a literal for text, numbers and booleans, the expression itself for names and expressions, a list for arrays"""
    TT = f'<{P}parse::Value as ToTokens>::to_tokens'
    if TT not in c.prog.fns:
        raise Unsupported('Value::to_tokens not found')

    def to_tokens(ex, st, fr, a, exp, ta):
        r = a[1]
        cur = ex.rv(st, r)
        ex.store(st, r.cell, r.path, VTok(tok_items(cur) + [('h', ex.rv(st, a[0]))]))
        return [(st, 'val', UNITV)]
    c.ex.contracts[TT] = to_tokens
    v = sym('value', VAL)
    vv = force(v)
    st = State()
    cell = c.ex.new_cell(st, VTok([]))
    rs = c.run(TT, [v, VRef(cell, ())], st)
    pay = lambda k: force(vv.vs[k][1]['0'])
    spec = {'String': lambda: ('str', pay('String')), 'Bool': lambda: ('bool', pay('Bool').z), 'Number': lambda: ('int', pay('Number').z),
            'Ident': lambda: ('user', vv.vs['Ident'][1]['0']), 'Tokens': lambda: ('user', vv.vs['Tokens'][1]['0']),
            'Array': lambda: ('list', pay('Array').n, lambda i: ('user', pay('Array').get(i)))}
    for s, k, r in rs:
        if k == 'panic':
            c.prove('value: only an object has no expression of its own', s, vv.cond('Object'))
            continue
        t = force(c.ex.rv(s, s.cells[cell]))
        c.cover('value', s)
        e = tok.whole(tok_items(t))
        for n, f in spec.items():
            if c.ex.feasible(s, vv.cond(n)):
                s2 = s.fork()
                s2.add(vv.cond(n))
                def prune(x):
                    while x[0] == 'choice' and not (c.ex.feasible(s2, x[1]) and c.ex.feasible(s2, z3.Not(x[1]))):
                        x = x[2] if c.ex.feasible(s2, x[1]) else x[3]
                    return x
                c.prove(f'value: {n}', s2, tok.agree(prune(e), f()))
