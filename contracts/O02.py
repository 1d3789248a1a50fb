"""Format to configuration: the identifier found names a supported configuration of that very format."""
from common import *

DRIVER = ('openid',)
ASSUMPTIONS = ['HashMap iteration visits each entry once, in an arbitrary order']
P = 'vercre_openid::issuer::'
IS = adt(P + 'Issuer')
FMT = adt(P + 'Format')
CA = adt(P + 'CredentialAuthorization')


def types_of(pl):
    d = force(force(pl).f['credential_definition'])
    return d.f['type_']


def same_format(a, b):
    """same kind and same credential type(s); claims do not matter"""
    a, b = force(a), force(b)
    out = []
    for v in a.vs:
        pa, pb = force(a.vs[v][1]['0']), force(b.vs[v][1]['0'])
        if 'credential_definition' in pa.f:
            e = V.eq(types_of(pa), types_of(pb))
        else:
            n = [x for x in pa.f if x != 'claims']
            e = z3.And([V.eq(pa.f[x], pb.f[x]) for x in n])
        out.append(z3.And(a.cond(v), b.cond(v), e))
    return z3.Or(out)


def contract(c):
    # format equality, as the code's own == evaluates it
    f1, f2 = sym('f1', FMT), sym('f2', FMT)
    st = State()
    z = c.ex.equal(st, f1, f2, None)
    c.prove('formats are equal only with the same kind and types', st, z3.Implies(z, same_format(f1, f2)))
    c.prove('formats with the same kind and types are equal', st, z3.Implies(same_format(f1, f2), z))
    a1, a2 = sym('a1', CA), sym('a2', CA)
    z = c.ex.equal(st, a1, a2, None)
    x, y = force(a1), force(a2)
    want = z3.Or(z3.And(x.cond('ConfigurationId'), y.cond('ConfigurationId'),
                        V.eq(x.vs['ConfigurationId'][1]['credential_configuration_id'], y.vs['ConfigurationId'][1]['credential_configuration_id'])),
                 z3.And(x.cond('Format'), y.cond('Format'), same_format(x.vs['Format'][1]['0'], y.vs['Format'][1]['0'])))
    c.prove('authorized credentials are the same only by the same configuration or format', st, z3.Implies(z, want))
    c.prove('the same configuration or format is the same authorized credential', st, z3.Implies(want, z))
    c.functions |= {p for p in c.prog.fns if p.endswith('::eq') and 'openid::issuer' in p}
    # lookup
    me, fmt = sym('self', IS), sym('fmt', FMT)
    rs = c.run(P + 'Issuer::credential_configuration_id', [me, fmt])
    no_panic(c, 'credential_configuration_id', rs)
    m = force(me).f['credential_configurations_supported']
    k = z3.Const('k', Str)
    for s, v in vals(rs):
        c.cover('lookup', s)
        v = deref(c, s, v)
        if 'Ok' in v.vs:
            i = v.vs['Ok'][1]['0']
            i = deref(c, s, i).z
            c.prove('the configuration found is supported and of the requested format', s,
                    z3.Implies(v.cond('Ok'), z3.And(m.has(i), same_format(force(m.at(i)).f['format'], fmt))))
        if 'Err' in v.vs:
            c.prove('no configuration is found only if none has the requested format', s,
                    z3.Implies(z3.And(v.cond('Err'), m.has(k)), z3.Not(same_format(force(m.at(k)).f['format'], fmt))))
