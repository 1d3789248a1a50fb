"""Filters: const, pattern, format on one selected claim."""
from common import *
from dif import *

DRIVER = ('difexch',)
ASSUMPTIONS = ['regex and chrono date parsing are functions of their inputs',
               'the text form of JSON numbers and of non-text JSON values is serde_json\'s']


def contract(c):
    P = 'vercre_dif_exch::Constraints::satisfied'
    path, fv, cl = sym('path', STR), sym('filter', FV), sym('claims', CLAIMS)
    flt = VStruct(FILTER, {'type_': sym('type', STR), 'value': fv})
    f0 = force(sym('field', FIELD))
    fd = dict(f0.f.items())
    fd['path'] = VVec.of([path], STR)
    fd['filter'] = some(flt)
    fd['optional'] = none(BOOL)
    me = force(sym('self', C))
    cd = dict(me.f.items())
    cd['fields'] = some(VVec.of([VStruct(FIELD, fd)], FIELD))
    me = VStruct(C, cd)
    doc = force(V.app('claims_json', [to_term(cl)], result(JV, ANY)))
    jp = force(V.app('jsonpath', [path.z], result(opaque('JsonPath'), opaque('serde_json_path::ParseError'))))
    nodes = V.app('jp_nodes', [to_term(jp.vs['Ok'][1]['0']), to_term(doc.vs['Ok'][1]['0'])], ('vec', JV))
    st = State()
    st.add(doc.cond('Ok'), jp.cond('Ok'), nodes.n > 0)
    rs = c.run(P, [me, cl], st)
    no_panic(c, 'filter', rs)
    e, m = filter_spec(fv, nodes.get(0))
    f = force(fv)
    node = force(nodes.get(0))
    for s, v in vals(rs):
        v = deref(c, s, v)
        okc, b = v.cond('Ok'), v.vs['Ok'][1]['0'].z
        for var in ('Const', 'Pattern', 'Format'):
            for kind in ('Null', 'Bool', 'Number', 'String', 'Array', 'Object'):
                h = [f.cond(var), node.cond(kind)]
                c.cover(f'{var} filter on a {kind} claim', s.pc + h)
                c.prove(f'{var} filter on a {kind} claim: error exactly when the filter is malformed', s, v.cond('Err') == e, h)
                c.prove(f'{var} filter on a {kind} claim: matches exactly by the rule', s, z3.Implies(okc, b == m), h)
