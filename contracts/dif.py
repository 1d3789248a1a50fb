"""Specification of Presentation Exchange constraint evaluation (written from the property text, over the same
library symbols the models of serde_json_path, regex and chrono introduce)."""
from common import *

JV = ('adt', 'serde_json::Value', ())
C = adt('vercre_dif_exch::Constraints')
FIELD = adt('vercre_dif_exch::Field')
FILTER = adt('vercre_dif_exch::Filter')
FV = adt('vercre_dif_exch::FilterValue')
CLAIMS = ('param', 'Claims', ('vercre_dif_exch::Claims',))
ANY = opaque('anyhow::Error')


def text_of(node):
    """the text a pattern is matched against"""
    n = force(node)
    return z3.If(n.cond('String'), n.vs['String'][1]['0'].z, V.app('display<Value>', [to_term(node)], STR).z)


def filter_spec(fv, node):
    """-> (error, match) for a filter value and a claim"""
    f, n = force(fv), force(node)
    c = f.vs['Const'][1]['0'].z
    arr = n.vs['Array'][1]['0']
    i = z3.Int(f'e!{W.uid()}')
    el = force(arr.get(i))
    inarr = z3.Exists([i], z3.And(0 <= i, i < arr.n, el.cond('String'), el.vs['String'][1]['0'].z == c))
    num = V.app('display<serde_json::Number>', [to_term(n.vs['Number'][1]['0'])], STR).z
    b = n.vs['Bool'][1]['0'].z
    const = z3.Or(z3.And(n.cond('String'), n.vs['String'][1]['0'].z == c),
                  z3.And(n.cond('Number'), num == c),
                  z3.And(n.cond('Bool'), z3.If(b, W.lit('true'), W.lit('false')) == c),
                  z3.And(n.cond('Array'), inarr))
    re = force(V.app('regex', [f.vs['Pattern'][1]['0'].z], result(opaque('Regex'), opaque('regex::Error'))))
    pat = V.app('re_match', [to_term(re.vs['Ok'][1]['0']), text_of(node)], BOOL).z
    s = n.vs['String'][1]['0'].z
    fmt = f.vs['Format'][1]['0'].z
    date = z3.And(n.cond('String'), force(V.app('naivedate', [s, W.lit('%Y-%m-%d')], result(opaque('NaiveDate'), opaque('chrono::ParseError')))).cond('Ok'))
    dt = z3.And(n.cond('String'), force(V.app('rfc3339_parse', [s], result(('int', 'DateTime'), opaque('chrono::ParseError')))).cond('Ok'))
    isd, isdt = fmt == W.lit('date'), fmt == W.lit('date-time')
    error = z3.Or(z3.And(f.cond('Pattern'), re.cond('Err')), z3.And(f.cond('Format'), z3.Not(isd), z3.Not(isdt)))
    match = z3.Or(z3.And(f.cond('Const'), const), z3.And(f.cond('Pattern'), re.cond('Ok'), pat),
                  z3.And(f.cond('Format'), z3.Or(z3.And(isd, date), z3.And(isdt, dt))))
    return error, match


USE = {'filter': filter_spec, 'field': None}


def res_of(name, args):
    """(error, yes) of an uninterpreted Result<bool>: the contract of a callee proved elsewhere"""
    r = force(V.app(name, args, result(BOOL, ANY)))
    return r.cond('Err'), z3.And(r.cond('Ok'), r.vs['Ok'][1]['0'].z)


def by_contract(c, path, name):
    """calls of `path` return the uninterpreted result `name`(self, value); its own obligations are proved separately"""
    fn = c.prog.fns.get(path)
    if fn is None:
        return False

    def model(ex, st, fr, a, exp, ta):
        args = [to_term(ex.rv(st, x)) for x in a]
        return [(st, 'val', V.app(name, args, result(BOOL, ANY)))]
    c.ex.contracts[path] = model
    return True


def status(field, doc, i):
    """outcome of path i of a field: (malformed, selects nothing, filter error, matches)"""
    f = force(field)
    p = f.f['path'].get(i)
    jp = force(V.app('jsonpath', [p.z], result(opaque('JsonPath'), opaque('serde_json_path::ParseError'))))
    nodes = V.app('jp_nodes', [to_term(jp.vs['Ok'][1]['0']), to_term(doc)], ('vec', JV))
    flt = force(f.f['filter'])
    fv = force(flt.vs['Some'][1]['0']).f['value']
    e, m = USE['filter'](fv, nodes.get(0))
    bad = jp.cond('Err')
    empty = z3.And(z3.Not(bad), nodes.n <= 0)
    hit = z3.And(z3.Not(bad), nodes.n > 0)
    return bad, empty, z3.And(hit, flt.cond('Some'), e), z3.And(hit, z3.Or(flt.cond('None'), z3.And(z3.Not(e), m)))


def field_spec(field, doc):
    """-> (true, false, error) of one field"""
    f = force(field)
    n = f.f['path'].n
    i, j = z3.Int(f'i!{W.uid()}'), z3.Int(f'j!{W.uid()}')
    opt = force(f.f['optional'])
    optional = z3.And(opt.cond('Some'), opt.vs['Some'][1]['0'].z)

    def goes_on(k):
        bad, empty, fe, m = status(field, doc, k)
        return z3.And(z3.Not(bad), z3.Not(fe), z3.Not(m))

    def before(k): return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), goes_on(j)))
    bad, empty, fe, m = status(field, doc, i)
    first = lambda c: z3.Exists([i], z3.And(0 <= i, i < n, c, before(i)))
    allempty = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), empty))
    someval = z3.Exists([i], z3.And(0 <= i, i < n, z3.Not(bad), z3.Not(empty)))
    yes = z3.Or(first(m), z3.And(optional, allempty))
    no = z3.And(before(n), z3.Or(z3.Not(optional), someval))
    return yes, no, first(z3.Or(bad, fe))
