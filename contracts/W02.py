"""Builders: a credential or presentation built holds exactly what was put into it, and is refused if incomplete."""
from iss import *

DRIVER = ('w3c',)
W3 = 'vercre_w3c_vc::model::'
VC, VP = adt(W3 + 'vc::VerifiableCredential'), adt(W3 + 'vp::VerifiablePresentation')
VB, PB = adt(W3 + 'vc::VcBuilder'), adt(W3 + 'vp::VpBuilder')
SUBJ, PROOF, STATUS = adt(W3 + 'vc::CredentialSubject'), adt('vercre_w3c_vc::proof::integrity::Proof'), adt(W3 + 'vc::CredentialStatus')
LS, LV = adt(W3 + 'types::LangString'), adt(W3 + 'types::LangValue')
JV = adt('serde_json::Value')
ASSUMPTIONS = ['Clone yields an equal value', 'the JSON form of a credential (serde derives) is not covered']


def quota(q):
    """sequence view of a Quota: (length, element)"""
    f = q._f
    if 'Many' not in f.vs:
        return z3.IntVal(1), lambda i: q.as_('One')
    if 'One' not in f.vs:
        return q.as_('Many').n, lambda i: q.as_('Many').at(i)
    one, x, m = q.is_('One'), q.as_('One'), q.as_('Many')
    return z3.If(one, 1, m.n), lambda i: N(ite(one, x.v, m.at(i).v))


def vec(v): return v.n, lambda i: v.at(i)
def opt(o, view):
    n, at = view(o.some)
    return z3.If(o.is_some, n, 0), at


def appended(old, new, x):
    (n0, a0), (n1, a1) = old, new
    return z3.And(n1 == n0 + 1, forall(n0, lambda i: a1(i).eq(a0(i))), a1(n0).eq(x))


def same_but(a, b, names): return z3.And([a.fld(n).eq(b.fld(n)) for n in a._f.f if n not in names] + [T])


def empty_subject(x): return z3.And(z3.Not(x.id.is_some), emptymap(x.claims))
def emptymap(m):
    k = z3.Const(f'k!{W.uid()}', Str)
    return z3.ForAll([k], z3.Not(m.has(k)))


def step(c, path, field, args, spec, builder, inner):
    b0 = sym('builder', builder)
    rs = c.run(path, [b0] + [a for a in args])
    name = '::'.join(path.rsplit('::', 2)[1:])
    no_panic(c, name, rs)
    old = N(b0).fld(inner)
    for s, v in vals(rs):
        if c.cover(name, s) == 'unsat':
            c.obls.pop()
            continue
        new = N(deref(c, s, v)).fld(inner)
        c.prove(f'{name}: changes {field} and nothing else', s, same_but(old, new, (field,)))
        c.prove(f'{name}: {field} is as given', s, spec(old.fld(field), new.fld(field)))


def vc(c):
    B = W3 + 'vc::VcBuilder::'
    st, _ = start()
    rs = c.run(B + 'new', [], st)
    no_panic(c, 'VcBuilder::new', rs)
    for s, v in vals(rs):
        x = N(deref(c, s, v)).vc
        n, at = quota(x.type_)
        c.prove('VcBuilder::new: one context, one type, nothing else', s, z3.And(
            x.context.n == 1, n == 1, at(z3.IntVal(0)).z == W.lit('VerifiableCredential'),
            x.issuer.is_('String'), x.issuer.as_('String').z == W.lit(''), x.credential_subject.is_('One'), empty_subject(x.credential_subject.as_('One')),
            *[z3.Not(x.fld(f).is_some) for f in 'id name description valid_from valid_until credential_status credential_schema proof related_resource refresh_service terms_of_use evidence'.split()]))
    txt = sym('text', STR)
    ctx = sym('ctx', adt('vercre_core::Kind', JV))
    step(c, B + 'add_context', 'context', [ctx], lambda o, n: appended(vec(o), vec(n), ctx), VB, 'vc')
    step(c, B + 'id', 'id', [txt], lambda o, n: z3.And(n.is_some, n.some.z == txt.z), VB, 'vc')
    step(c, B + 'add_type', 'type_', [txt], lambda o, n: appended(quota(o), quota(n), txt), VB, 'vc')
    step(c, B + 'issuer', 'issuer', [txt], lambda o, n: z3.And(n.is_('String'), n.as_('String').z == txt.z), VB, 'vc')
    for f in ('name', 'description'):
        x = sym(f, option(LS))
        step(c, B + 'add_' + f, f, [x], lambda o, n: n.eq(x), VB, 'vc')
    su = sym('subject', SUBJ)
    step(c, B + 'add_subject', 'credential_subject', [su], lambda o, n: z3.If(
        z3.And(o.is_('One'), empty_subject(o.as_('One'))), z3.And(quota(n)[0] == 1, quota(n)[1](z3.IntVal(0)).eq(su)), appended(quota(o), quota(n), su)), VB, 'vc')
    pr = sym('pr', PROOF)
    step(c, B + 'add_proof', 'proof', [pr], lambda o, n: z3.And(n.is_some, appended(opt(o, quota), quota(n.some), pr)), VB, 'vc')
    x2 = sym('status', option(adt('vercre_core::Quota', STATUS)))
    step(c, B + 'status', 'credential_status', [x2], lambda o, n: n.eq(x2), VB, 'vc')
    b0 = sym('builder', VB)
    old = N(b0).vc
    complete = z3.And(old.context.n >= 2, quota(old.type_)[0] >= 2, z3.Not(z3.And(old.issuer.is_('String'), old.issuer.as_('String').z == W.lit(''))),
                      z3.Not(z3.And(old.credential_subject.is_('One'), empty_subject(old.credential_subject.as_('One')))))
    build(c, B + 'build', b0, old, complete)


def build(c, path, b0, old, complete):
    name = '::'.join(path.rsplit('::', 2)[1:])
    rs = c.run(path, [b0])
    no_panic(c, name, rs)
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        c.prove(f'{name}: it succeeds exactly if nothing mandatory is missing', s, v.is_('Ok') == complete)
        if not z3.is_false(v.is_('Ok')):
            c.cover(f'{name}: built', s)
            c.prove(f'{name}: what is built is what was put in', s, z3.Implies(v.is_('Ok'), v.as_('Ok').eq(old)))


def vp(c):
    B = W3 + 'vp::VpBuilder::'
    st, _ = start()
    rs = c.run(B + 'new', [], st)
    no_panic(c, 'VpBuilder::new', rs)
    for s, v in vals(rs):
        x = N(deref(c, s, v)).vp
        n, at = quota(x.type_)
        c.prove('VpBuilder::new: an id, one context, one type, nothing else', s, z3.And(
            x.id.is_some, x.context.n == 1, n == 1, at(z3.IntVal(0)).z == W.lit('VerifiablePresentation'),
            *[z3.Not(x.fld(f).is_some) for f in 'verifiable_credential holder proof'.split()]))
    txt = sym('text', STR)
    ctx = sym('ctx', adt('vercre_core::Kind', JV))
    step(c, B + 'add_context', 'context', [ctx], lambda o, n: appended(vec(o), vec(n), ctx), PB, 'vp')
    step(c, B + 'add_type', 'type_', [txt], lambda o, n: appended(quota(o), quota(n), txt), PB, 'vp')
    step(c, B + 'holder', 'holder', [txt], lambda o, n: z3.And(n.is_some, n.some.z == txt.z), PB, 'vp')
    k = sym('vc', adt('vercre_core::Kind', VC))
    step(c, B + 'add_credential', 'verifiable_credential', [k], lambda o, n: z3.And(n.is_some, appended(opt(o, vec), vec(n.some), k)), PB, 'vp')
    b0 = sym('builder', PB)
    old = N(b0).vp
    build(c, B + 'build', b0, old, z3.And(old.context.n >= 2, z3.Not(old.type_.is_('One'))))
    rs = c.run(f'<{W3}vp::VerifiablePresentation as FromStr>::from_str', [sym('text', STR)])
    no_panic(c, 'VerifiablePresentation::from_str', rs)


def lang(c):
    B = W3 + 'types::LangString::'
    x, l = sym('lang', LS), sym('language', STR)
    inner = N(force(x).f['0'])
    q = inner.as_('Object')
    n, at = quota(q)
    has = lambda i: z3.And(at(i).language.is_some, at(i).language.some.z == l.z)
    rs = c.run(B + 'value', [x, l])
    no_panic(c, 'LangString::value', rs)
    for s, v in vals(rs):
        v = N(deref(c, s, v))
        c.prove('LangString::value: plain text is good for any language, else there must be a value in it', s, v.is_('Ok') == z3.Or(inner.is_('String'), exists(n, has)))
        if not z3.is_false(v.is_('Ok')):
            r = v.as_('Ok').z
            c.prove('LangString::value: the first value in the language', s, z3.Implies(v.is_('Ok'), z3.If(inner.is_('String'), r == inner.as_('String').z,
                    exists(n, lambda i: z3.And(has(i), r == at(i).value.z, forall(i, lambda j: z3.Not(has(j))))))))
    rs = c.run(B + 'len', [x])
    for s, v in vals(rs):
        c.prove('LangString::len: counts the values', s, deref(c, s, v).z == z3.If(inner.is_('String'), 1, n))
    st = State()
    cell = c.ex.new_cell(st, x)
    lv = sym('lv', LV)
    rs = c.run(B + 'add', [VRef(cell), lv], st)
    no_panic(c, 'LangString::add', rs)
    for s, v in vals(rs):
        after = N(force(s.cells[cell]).f['0'])
        n1, a1 = quota(after.as_('Object'))
        c.prove('LangString::add: every value is kept, in order, and the new one is last', s, z3.And(after.is_('Object'), z3.Implies(
            inner.is_('Object'), appended((n, at), (n1, a1), lv)), z3.Implies(inner.is_('String'), z3.And(
                n1 == 2, a1(z3.IntVal(0)).value.z == inner.as_('String').z, z3.Not(a1(z3.IntVal(0)).language.is_some), a1(z3.IntVal(1)).eq(lv)))))


def contract(c):
    vc(c)
    vp(c)
    lang(c)
