"""Constraint evaluation: every field, paths in order, optional means absent."""
from common import *
from dif import *

DRIVER = ('difexch',)
ASSUMPTIONS = ['serde_json_path returns the selected nodes of a query, a function of query and document',
               'a claims value serialises to one JSON document',
               'filter evaluation (where it is a function of its own) is used by contract: a function of filter and value, whose meaning is D02']


def contract(c):
    c.first_of(lambda: proof(c, True, True), lambda: proof(c, True, False), lambda: proof(c, False, False))


def proof(c, filters, fields):
    P = 'vercre_dif_exch::Constraints::satisfied'
    FM, FL = 'vercre_dif_exch::FilterValue::matched', 'vercre_dif_exch::Field::matched'
    j = z3.Int('fj')
    USE['filter'] = filter_spec
    if filters and by_contract(c, FM, 'filter_matched'):
        USE['filter'] = lambda fv, node: res_of('filter_matched', [to_term(fv), to_term(node)])
    fspec = field_spec
    fn = c.prog.fns.get(FL)
    if fields and fn is not None:
        # ---- one field
        fld, doc = sym('field', FIELD), sym('doc', JV)
        rs = c.run(FL, [fld, doc])
        no_panic(c, 'field', rs)
        yes, no, er = field_spec(fld, doc)
        for s, v in vals(rs):
            c.cover('field', s)
            v = deref(c, s, v)
            okc, b = v.cond('Ok'), v.vs['Ok'][1]['0'].z
            c.prove('a field is satisfied only by its first path with an accepted value, or by being optional and absent', s, z3.Implies(z3.And(okc, b), yes))
            c.prove('a field fails only if no path gives an accepted value, and it is mandatory or has a value', s, z3.Implies(z3.And(okc, z3.Not(b)), no))
            c.prove('a field is an error only for a malformed path or filter that is reached', s, z3.Implies(v.cond('Err'), er))
        by_contract(c, FL, 'field_matched')

        def fspec(f, d):
            e, y = res_of('field_matched', [to_term(f), to_term(d)])
            return y, z3.And(z3.Not(e), z3.Not(y)), e
    me, cl = sym('self', C), sym('claims', CLAIMS)
    rs = c.run(P, [me, cl])
    no_panic(c, 'satisfied', rs)
    fs = force(force(me).f['fields'])
    doc = force(V.app('claims_json', [to_term(cl)], result(JV, ANY)))
    d = doc.vs['Ok'][1]['0']
    vec = fs.vs['Some'][1]['0']
    i = z3.Int('fi')
    for s, v in vals(rs):
        c.cover('satisfied', s)
        v = deref(c, s, v)
        okc = v.cond('Ok')
        b = v.vs['Ok'][1]['0'].z
        have = z3.And(fs.cond('Some'), doc.cond('Ok'))
        yes = lambda k: fspec(vec.get(k), d)[0]
        no = lambda k: fspec(vec.get(k), d)[1]
        er = lambda k: fspec(vec.get(k), d)[2]
        upto = lambda k: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), yes(j)))
        c.prove('no fields: satisfied', s, z3.Implies(fs.cond('None'), z3.And(okc, b)))
        c.prove('claims that do not serialise are an error', s, z3.Implies(z3.And(fs.cond('Some'), doc.cond('Err')), v.cond('Err')))
        k = z3.Int('k')
        c.prove('satisfied only if every field holds', s, z3.Implies(z3.And(have, okc, b, 0 <= k, k < vec.n), yes(k)))
        c.prove('not satisfied only if some field fails, and every field before it holds', s,
                z3.Implies(z3.And(have, okc, z3.Not(b)), z3.Exists([i], z3.And(0 <= i, i < vec.n, no(i), upto(i)))))
        c.prove('error only for a malformed path or filter, with every field before it holding', s,
                z3.Implies(z3.And(have, v.cond('Err')), z3.Exists([i], z3.And(0 <= i, i < vec.n, er(i), upto(i)))))
