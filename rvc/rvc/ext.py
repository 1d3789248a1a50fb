"""Assumed contracts of third-party crates: serde_json_path, regex, chrono parsing, and the `Claims` trait."""
import z3
from .src import Unsupported
from .val import *
from . import val as V
from .std import R

JV = ('adt', 'serde_json::Value', ())
AE = ('opaque', 'anyhow::Error')


def install(ex):
    M, Fm = ex.m_models, ex.fn_models

    def m(heads, names):
        def d(f):
            for h in heads.split():
                for n in names.split():
                    M[(h, n)] = f
            return f
        return d

    def fn(names):
        def d(f):
            for n in names.split():
                Fm[n] = f
            return f
        return d

    @fn('Claims::to_json')
    def to_json(ex, st, fr, a, exp, ta):
        return R(st, app('claims_json', [to_term(ex.rv(st, a[0]))], result(JV, AE)))

    JP = ('opaque', 'JsonPath')

    @fn('urlencoding::decode')
    def urldecode(ex, st, fr, a, exp, ta):
        return R(st, app('urldecode', [ex.rv(st, a[0]).z], result(STR, ('opaque', 'std::string::FromUtf8Error'))))

    @fn('JsonPath::parse')
    def jp_parse(ex, st, fr, a, exp, ta):
        return R(st, app('jsonpath', [ex.rv(st, a[0]).z], result(JP, ('opaque', 'serde_json_path::ParseError'))))

    # a query gives the nodes it selects, in order
    @m('JsonPath', 'query')
    def jp_query(ex, st, fr, r, pl, a, exp, ta):
        return R(st, app('jp_nodes', [to_term(r), to_term(ex.rv(st, a[0]))], ('vec', JV)))

    @m('VVec', 'all')
    def all_(ex, st, fr, r, pl, a, exp, ta):
        if a:
            return M[('VIter', 'all')](ex, st, fr, ex.to_iter(st, r, fr), pl, a, exp, ta)
        return R(st, r)

    @m('VVec', 'exactly_one at_most_one')
    def exactly_one(ex, st, fr, r, pl, a, exp, ta):
        raise Unsupported('node list')

    def only(ex, st, fr, r, pl, a, exp, ta):
        t, e = r.ty[1], app('jp_error', [to_term(r)], ('opaque', 'serde_json_path::ExactlyOneError'))
        return R(st, VEnum(result(t, e.ty), {'Ok': (r.n == 1, {'0': r.get(z3.IntVal(0))}), 'Err': (r.n != 1, {'0': e})}))
    M[('VVec', 'exactly_one')] = only

    RX = ('opaque', 'Regex')

    @fn('Regex::new')
    def re_new(ex, st, fr, a, exp, ta):
        return R(st, app('regex', [ex.rv(st, a[0]).z], result(RX, ('opaque', 'regex::Error'))))

    def rematch(ex, st, r, a): return app('re_match', [to_term(r), ex.rv(st, a[0]).z], BOOL).z

    @m('Regex', 'is_match')
    def re_is(ex, st, fr, r, pl, a, exp, ta): return R(st, VBool(rematch(ex, st, r, a)))

    @m('Regex', 'captures find shortest_match')
    def re_cap(ex, st, fr, r, pl, a, exp, ta):
        c = rematch(ex, st, r, a)
        return R(st, opt_cond(c, app('re_caps', [to_term(r), ex.rv(st, a[0]).z], ('opaque', 'Captures'))))

    @fn('NaiveDate::parse_from_str')
    def nd_parse(ex, st, fr, a, exp, ta):
        return R(st, app('naivedate', [ex.rv(st, a[0]).z, ex.rv(st, a[1]).z], result(('opaque', 'NaiveDate'), ('opaque', 'chrono::ParseError'))))

    @fn('DateTime::parse_from_rfc3339')
    def dt_parse(ex, st, fr, a, exp, ta):
        return R(st, app('rfc3339_parse', [ex.rv(st, a[0]).z], result(('int', 'DateTime'), ('opaque', 'chrono::ParseError'))))
