"""Provider traits: the store as a ghost history of successful puts and purges, everything else as functions of the arguments.

The initial content of the store is arbitrary (`store0`); every put or purge may fail; what was put is what is got back."""
import z3
from .src import Unsupported
from .val import *
from . import val as V
from .std import R

AE = ('opaque', 'anyhow::Error')
HOLDER = {'vercre_holder::issuance': 'vercre_holder::issuance::Issuance', 'vercre_holder::presentation': 'vercre_holder::presentation::Presentation'}
STATE = {'vercre_issuer': 'vercre_issuer::state::State', 'vercre_verifier': 'vercre_verifier::state::State'}
TRAITS = ('Metadata', 'Subject', 'SecOps', 'Signer', 'Status', 'DidResolver', 'Algorithm')


def log(st): return st.ghost.get('log', ())


def lookup(st, key, t):
    """what `get(key)` sees"""
    v = app('store0', [key], result(t, AE))
    for e in log(st):
        if e[0] == 'put':
            if e[2].ty is not None and e[2].ty != t:
                continue
            v = ite(key == e[1], ok(e[2], AE), v)
        elif e[0] == 'purge':
            v = ite(key == e[1], err(app('missing', [], AE)), v)
    return v


def err(v): return VEnum(result(None, v.ty), {'Err': (z3.BoolVal(True), {'0': v})})


def install(ex):
    Fm, M = ex.fn_models, ex.m_models

    def get(ex, st, fr, a, exp, ta):
        t = ta[0] if ta and ta[0] else None
        if t is None:
            p = fr.fn.path.lstrip('<').split('::')
            t = HOLDER.get('::'.join(p[:2])) or STATE.get(p[0])
            if t is None:
                raise Unsupported('type of stored state')
            t = ('adt', t, ())
        k = ex.rv(st, a[1]).z
        return R(st, lookup(st, k, t))

    def put(ex, st, fr, a, exp, ta):
        k, v, e = ex.rv(st, a[1]).z, ex.deref(st, a[2]), ex.rv(st, a[3])
        v = ex.rv(st, a[2]) if not isinstance(v, Value) else v
        s2 = st.fork()
        o = ex.fresh(BOOL, 'put_ok').z
        st.add(o)
        s2.add(z3.Not(o))
        st.ghost['log'] = log(st) + (('put', k, v, e),)
        s2.ghost['log'] = log(s2) + (('fail', 'put', k),)
        return [(st, 'val', ok(UNITV, AE)), (s2, 'val', err(app('put_error', [], AE)))]

    def purge(ex, st, fr, a, exp, ta):
        k = ex.rv(st, a[1]).z
        s2 = st.fork()
        o = ex.fresh(BOOL, 'purge_ok').z
        st.add(o)
        s2.add(z3.Not(o))
        st.ghost['log'] = log(st) + (('purge', k),)
        s2.ghost['log'] = log(s2) + (('fail', 'purge', k),)
        return [(st, 'val', ok(UNITV, AE)), (s2, 'val', err(app('purge_error', [], AE)))]
    for n, f in (('get', get), ('put', put), ('purge', purge)):
        Fm['StateStore::' + n] = f

    def trait_fn(ex, tr, name, path=None):
        def f(ex, st, fr, a, exp, ta):
            r = ex.p.resolve(fr.mod, path or [tr])
            if r[0] != 'item' or r[2]['k'] != 'trait':
                raise Unsupported(f'trait {tr}')
            it = next((x for x in r[2]['items'] if x['k'] == 'fn' and x['sig']['name'] == name), None) if True else None
            if it is None:
                raise Unsupported(f'{tr}::{name}')
            from .ex import Frame
            t = ex.ty(Frame(None, r[3], None, {}), it['sig']['out'])
            fr2 = Frame(None, r[3], None, {})
            tys = [ex.ty(fr2, i['t']) for i in it['sig']['ins'] if not i.get('self')]
            args = [ex.deref(st, x) for x in a[1:]]
            if len(tys) == len(args):
                args = [V.retype(x, t) for x, t in zip(args, tys)]
            return R(st, app(f'{tr}.{name}', [to_term(x) for x in args], t))
        return f
    for tr, names in (('Metadata', 'issuer client server verifier register'), ('Subject', 'authorize dataset'), ('Status', 'status')):
        for n in names.split():
            Fm[f'{tr}::{n}'] = trait_fn(ex, tr, n)

    Fm['Signer::verification_method'] = lambda ex, st, fr, a, exp, ta: R(st, app('kid_of', [to_term(ex.rv(st, a[0]))], STR))

    # ---- the wallet's view of issuer and verifier: what they answer is a function of what they are asked
    def remote(tr, name):
        g = trait_fn(ex, tr, name, ['crate', 'provider', tr])

        def f(ex, st, fr, a, exp, ta):
            args = tuple(ex.deref(st, x) for x in a[1:])
            rs = g(ex, st, fr, a, exp, ta)
            for s, _, v in rs:
                s.ghost['calls'] = s.ghost.get('calls', ()) + ((name, args, v),)
            return rs
        return f
    for tr, names in (('Issuer', 'metadata oauth_server authorization token credential deferred logo notification'),
                      ('Verifier', 'request_object present'), ('CredentialStorer', 'save load find remove')):
        for n in names.split():
            Fm[f'{tr}::{n}'] = remote(tr, n)

    # ---- credential_request! by contract (M01): the request the object describes
    def cred_request(ex, st, e, fr, exp):
        P = 'vercre_openid::issuer::'
        o = dict(e.get('obj') or [])
        pr = dict(o.get('proof', {}).get('obj') or [])
        if not {'credential_issuer', 'access_token', 'credential_identifier', 'proof'} == set(o) or set(pr) != {'proof_type', 'jwt'} \
                or pr['proof_type']['e'].get('k') != 'lit' or ex.lit(pr['proof_type']['e']['l']).z is not V.W.lit('jwt'):
            raise Unsupported('credential_request! with other members')
        es = [o[k]['e'] for k in ('credential_issuer', 'access_token', 'credential_identifier')] + [pr['jwt']['e']]

        def f(s, vs):
            ci, at, cid, jwt = (ex.rv(s, v) for v in vs)
            adt = lambda n: ('adt', P + n, ())
            d = force(ex.default(s, adt('CredentialRequest'), fr))
            pt = VEnum(adt('SingleProof'), {'Jwt': (z3.BoolVal(True), {'jwt': jwt})})
            fs = dict({k: d.f[k] for k in d.f}, credential_issuer=ci, access_token=at, proof=some(VEnum(adt('Proof'), {'Single': (z3.BoolVal(True), {'proof_type': pt})})),
                      credential=VEnum(adt('CredentialIssuance'), {'Identifier': (z3.BoolVal(True), {'credential_identifier': cid})}))
            return R(s, VStruct(adt('CredentialRequest'), fs))
        return ex.seq(ex.eval_list(st, es, fr), f)
    ex.macro_models['credential_request'] = cred_request

    # ---- signatures: what a token decodes to is a function of the token, and decoding succeeds only with a valid
    # signature by the key the callback names; signing is a function of the claims and the signer
    JWT, SIG = 'vercre_infosec::jose::jws::Jwt', ('opaque', 'Signer')

    def verify_key(ex, st, e, fr, exp):
        def f(s, vs):
            x = ex.rv(s, vs[0])
            if x.ty is None or x.ty[0] not in ('opaque', 'param'):
                raise Unsupported('keys resolved by something else than a provider')
            return R(s, app('key_of_did', [to_term(x)], ('opaque', 'VerifyKey')))
        return ex.seq(ex.eval_list(st, [x[1] for x in e['args']], fr), f)
    ex.macro_models['verify_key'] = verify_key

    def decode(ex, st, fr, a, exp, ta):
        k = ex.rv(st, a[1])
        if k.ty != ('opaque', 'VerifyKey'):
            raise Unsupported('jws::decode with another key source')
        tok = ex.rv(st, a[0]).z
        t = (None,)
        if exp and exp[0] == 'adt' and exp[1] == 'Result' and exp[2][0] and exp[2][0][0] == 'adt' and exp[2][0][1] == JWT:
            t = exp[2][0][2]
        o, j, e = jws_parts(tok, t)
        return R(st, VEnum(result(('adt', JWT, t), AE), {'Ok': (o, {'0': j}), 'Err': (z3.Not(o), {'0': e})}))

    def encode(ex, st, fr, a, exp, ta):
        typ, cl, sg = (ex.rv(st, x) for x in a)
        return R(st, app('jws_encode', [to_term(typ), to_term(cl), to_term(sg)], result(STR, AE)))
    ex.contracts['vercre_infosec::jose::jws::decode'] = decode
    ex.contracts['vercre_infosec::jose::jws::encode'] = encode

    def signer(ex, st, fr, a, exp, ta):
        return R(st, app('signer', [ex.rv(st, a[1]).z], result(SIG, AE)))
    Fm['SecOps::signer'] = signer
    M[('Provider', 'signer')] = lambda ex, st, fr, r, pl, a, exp, ta: signer(ex, st, fr, [r] + list(a), exp, ta)


def jws_parts(tok, t):
    """(decodes with a valid signature, the token, the error)"""
    return (app('jws_ok', [tok], BOOL).z, VTerm(W.fn('jws_jwt', [V.Str], U)(tok), ('adt', 'vercre_infosec::jose::jws::Jwt', t)), app('jws_error', [tok], AE))
