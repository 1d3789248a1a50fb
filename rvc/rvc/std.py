"""Models (assumed contracts) of the standard library and of third-party crates.
Every entry used in a run is listed in the evidence as an assumption."""
import z3
from .src import Unsupported
from .val import *
from . import val as V
from .ex import T, F, Ex, Frame, has_quant, tdiv

SEC = 10**9


def R(st, v): return [(st, 'val', v)]


def panic(st, msg): return [(st, 'panic', msg)]


def uopt(ex, st, recv):
    return recv


def enum_split(ex, st, v, good):
    """fork on Option/Result -> [(st, is_good, payload)]"""
    out = []
    for s, b in ex.branch(st, v.cond(good)):
        if b:
            out.append((s, True, v.vs[good][1]['0']))
        else:
            bad = {'Some': None, 'Ok': 'Err'}[good]
            out.append((s, False, v.vs[bad][1]['0'] if bad and bad in v.vs else None))
    return out


def opt_get(v):
    return v.vs['Some'][1]['0'] if 'Some' in v.vs else None


def install(ex: Ex):
    M, Fm, X = ex.m_models, ex.fn_models, ex.macro_models

    def m(heads, names):
        def d(f):
            for h in heads.split():
                for n in names.split():
                    M[(h, n)] = f
            return f
        return d

    def fn(names):
        def d(f):
            for n in names.split():
                Fm[n] = f
            return f
        return d

    def mac(names):
        def d(f):
            for n in names.split():
                X[n] = f
            return f
        return d

    # ------------------------------------------------------------ identity-like
    @m('*', 'clone to_owned as_ref borrow to_vec as_slice into_boxed_slice as_deref_mut by_ref into_inner as_str as_deref as_mut_slice to_string_lossy')
    def ident(ex, st, fr, r, pl, a, exp, ta):
        return R(st, r)

    @m('*', 'into try_into')
    def into(ex, st, fr, r, pl, a, exp, ta):
        return R(st, conv(ex, st, r, exp))

    def conv(ex, st, r, t):
        r = ex.rv(st, r)
        if t is None or r.ty == t or t[0] in ('param',):
            return r
        if t[0] == 'str' and isinstance(r, VInt) and r.t == 'char':
            return chr2str(r)
        if t[0] == 'adt' and (t[1], 'From') in ex.p.trait_impls:
            for f in ex.p.methods[t[1]].get('from', []):
                pt = ex.ty(Frame(f, f.mod, t), f.ast['sig']['ins'][0]['t'])
                if pt == r.ty or (pt and r.ty and pt[0] == r.ty[0] == 'adt' and pt[1] == r.ty[1]) or (pt and pt[0] == 'vec' and r.ty and r.ty[0] == 'vec'):
                    return ex.pure_merge(st, ex.call_fn(st.fork(), f, [r], t, fr_none))
        if t[0] == 'adt' and t[1] == 'Option' and not (r.ty and r.ty[0] == 'adt' and r.ty[1] == 'Option'):
            return some(conv(ex, st, r, t[2][0]))
        if t[0] == 'int' and isinstance(r, VInt):
            return VInt(r.z, t[1])
        if t[0] == 'opaque' and 'Error' in t[1]:
            return app('into_error', [to_term(r)], t)
        if t[0] == 'set' and isinstance(r, VVec):
            return to_set(ex, st, VIter(r.n, r.get, None, r.ety))
        return r
    fr_none = None
    ex.conv = conv

    def chr2str(c):
        z = z3.simplify(c.z)
        if z3.is_int_value(z):
            return VStr(chr(z.as_long()))
        return app('chr2str', [c.z], STR)

    @m('*', 'to_string')
    def to_string(ex, st, fr, r, pl, a, exp, ta):
        if isinstance(r, VStr):
            return R(st, r)
        return R(st, display(ex, st, r, fr))

    def display(ex, st, r, fr):
        r = ex.rv(st, r)
        if isinstance(r, VStr):
            return r
        if isinstance(r, VInt):
            if r.t == 'char':
                return chr2str(r)
            z = z3.simplify(r.z)
            if z3.is_int_value(z):
                return VStr(str(z.as_long()))
            return app('int2str', [r.z], STR)
        if isinstance(r, VBool):
            return VStr([z3.If(r.z, W.lit('true'), W.lit('false'))])
        t = r.ty
        if t and t[0] == 'adt' and (t[1], 'Display') in ex.p.trait_impls:
            f = [f for f in ex.p.methods[t[1]]['fmt'] if f.trait == 'Display'][0]
            return ex.display_via(st, f, r)
        z = to_term(r)
        return app(f'display<{tname(t)}>', [z], STR)
    ex.display = lambda st, r, fr=None: display(ex, st, r, fr)

    def display_via(st, f, r):
        """run `impl Display::fmt` with a string-builder formatter"""
        s = st.fork()
        c = ex.new_cell(s, VOpaque('Formatter', ()))
        rs = ex.call_fn(s, f, [r, VRef(c)], None, None)
        out = None
        vals = [(s2, v) for s2, k, v in rs if k == 'val']
        if len(vals) == 1:
            o = ex.rv(vals[0][0], vals[0][0].cells[c])
            if isinstance(o, VOpaque):
                return VStr([p for x in o.data for p in x.parts])
        n0 = len(st.pc)
        for s2, v in reversed(vals):
            o = s2.cells[c]
            x = VStr([p for y in o.data for p in y.parts])
            out = x if out is None else ite(z3.And(s2.pc[n0:]) if len(s2.pc) > n0 else T, x, out)
        if out is None:
            raise Unsupported('Display impl')
        return out
    ex.display_via = display_via

    @m('Formatter', 'write_str')
    def fmt_write(ex, st, fr, r, pl, a, exp, ta):
        ex.store(st, pl[0], pl[1], VOpaque('Formatter', r.data + (ex.rv(st, a[0]),)))
        return R(st, ok(UNITV))

    @mac('write')
    def mwrite(ex, st, e, fr, exp):
        def f(s, vs):
            c, p = ex.norm(s, (vs[0].cell, vs[0].path)) if isinstance(vs[0], VRef) else (None, None)
            if c is None:
                raise Unsupported('write! target')
            cur = ex.load(s, c, p)
            txt = do_format(ex, s, e['args'][1:], vs[1:], fr)
            if isinstance(cur, VOpaque):
                ex.store(s, c, p, VOpaque('Formatter', cur.data + (txt,)))
            else:
                ex.store(s, c, p, VStr(cur.parts + txt.parts))
            return R(s, ok(UNITV))
        return ex.seq(ex.eval_list(st, [x[1] for x in e['args']], fr), f)

    # ------------------------------------------------------------ format!
    def do_format(ex, st, args, vals, fr):
        fmt = args[0][1]['l']['v']
        pos = [v for (n, _), v in zip(args[1:], vals[1:]) if n is None]
        named = {n: v for (n, _), v in zip(args[1:], vals[1:]) if n is not None}
        parts, i, buf, auto = [], 0, '', 0
        while i < len(fmt):
            c = fmt[i]
            if c in '{}' and fmt[i:i+2] == c * 2:
                buf += c
                i += 2
                continue
            if c == '{':
                j = fmt.index('}', i)
                spec = fmt[i+1:j]
                name, _, f = spec.partition(':')
                i = j + 1
                if name == '':
                    v = pos[auto]
                    auto += 1
                elif name.isdigit():
                    v = pos[int(name)]
                elif name in named:
                    v = named[name]
                elif name in fr.env:
                    v = st.cells[fr.env[name]]
                else:
                    v = ex.const_path(st, [name], fr, None)
                    if v is None:
                        raise Unsupported(f'format argument {name}')
                parts.append(buf)
                buf = ''
                try:
                    s = display(ex, st, v, fr) if f == '' else None
                except Unsupported:
                    s = None
                if s is None:
                    s = ex.fresh(STR, 'fmt')
                parts += s.parts
            else:
                buf += c
                i += 1
        parts.append(buf)
        return VStr(parts)
    ex.do_format = do_format

    @mac('format')
    def mformat(ex, st, e, fr, exp):
        return ex.seq(ex.eval_list(st, [x[1] for x in e['args']], fr), lambda s, vs: R(s, do_format(ex, s, e['args'], vs, fr)))

    ANY = ('opaque', 'anyhow::Error')

    def errval(ex, st, e, fr):
        return ex.seq(ex.eval_list(st, [x[1] for x in e['args']], fr),
                      lambda s, vs: R(s, app('anyhow', [do_format(ex, s, e['args'], vs, fr).z if e['args'][0][1]['k'] == 'lit' else to_term(ex.rv(s, vs[0]))], ANY)))

    @mac('anyhow')
    def manyhow(ex, st, e, fr, exp):
        return errval(ex, st, e, fr)

    @mac('bail')
    def mbail(ex, st, e, fr, exp):
        return ex.seq(errval(ex, st, e, fr), lambda s, v: [(s, 'ret', err(v))])

    @mac('ensure')
    def mensure(ex, st, e, fr, exp):
        out = []
        for s, k, v in ex.eval(st, e['args'][0][1], fr):
            if k != 'val':
                out.append((s, k, v))
                continue
            for s2, b in ex.branch(s, ex.rv(s, v).z):
                out.append((s2, 'val', UNITV) if b else (s2, 'ret', err(ex.fresh(ANY, 'err'))))
        return out

    @mac('debug info warn trace error println eprintln instrument')
    def mlog(ex, st, e, fr, exp):
        return R(st, UNITV)

    @mac('unimplemented todo panic unreachable')
    def mpanic(ex, st, e, fr, exp):
        return panic(st, f'{e["name"]}!:{e["line"]}')

    @mac('assert debug_assert')
    def massert(ex, st, e, fr, exp):
        out = []
        for s, k, v in ex.eval(st, e['args'][0][1], fr):
            if k != 'val':
                out.append((s, k, v))
                continue
            for s2, b in ex.branch(s, ex.rv(s, v).z):
                out.append((s2, 'val', UNITV) if b else (s2, 'panic', f'assert!:{e["line"]}'))
        return out

    @mac('vec')
    def mvec(ex, st, e, fr, exp):
        if 'rep' in e:
            return ex.e_repeat(st, {'e': e['rep'][0], 'n': e['rep'][1]}, fr, exp)
        return ex.e_array(st, {'es': [x[1] for x in e['args']]}, fr, exp)

    @mac('matches')
    def mmatches(ex, st, e, fr, exp):
        x = e['m']
        arms = [{'p': x['p'], 'g': x['g'], 'b': {'k': 'lit', 'l': {'k': 'bool', 'v': True}, 'line': 0}},
                {'p': {'k': 'wild'}, 'g': None, 'b': {'k': 'lit', 'l': {'k': 'bool', 'v': False}, 'line': 0}}]
        return ex.e_match(st, {'e': x['e'], 'arms': arms, 'line': e['line']}, fr, None)

    # ------------------------------------------------------------ Option / Result
    @m('Option', 'is_some')
    def o_is_some(ex, st, fr, r, pl, a, exp, ta): return R(st, VBool(r.cond('Some')))

    @m('Option', 'is_none')
    def o_is_none(ex, st, fr, r, pl, a, exp, ta): return R(st, VBool(r.cond('None')))

    @m('Result', 'is_ok')
    def r_is_ok(ex, st, fr, r, pl, a, exp, ta): return R(st, VBool(r.cond('Ok')))

    @m('Result', 'is_err')
    def r_is_err(ex, st, fr, r, pl, a, exp, ta): return R(st, VBool(r.cond('Err')))

    def good_of(r): return 'Some' if r.ty[1] == 'Option' else 'Ok'

    @m('Option', 'as_ref as_deref cloned copied as_mut take_ref iter_ref')
    def o_asref(ex, st, fr, r, pl, a, exp, ta): return R(st, r)

    @m('Result', 'as_ref cloned copied')
    def r_asref(ex, st, fr, r, pl, a, exp, ta): return R(st, r)

    @m('Option', 'as_mut')
    def o_asmut(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b in ex.branch(st, r.cond('Some')):
            out.append((s, 'val', some(VRef(pl[0], pl[1] + (('v', 'Some', '0'),))) if b else none()))
        return out

    @m('Option', 'take')
    def o_take(ex, st, fr, r, pl, a, exp, ta):
        ex.store(st, pl[0], pl[1], none(r.ty[2][0]))
        return R(st, r)

    @m('Option', 'insert replace get_or_insert')
    def o_insert(ex, st, fr, r, pl, a, exp, ta):
        ex.store(st, pl[0], pl[1], some(ex.deref(st, a[0])))
        return R(st, r)

    @m('Option Result', 'unwrap expect')
    def unwrap(ex, st, fr, r, pl, a, exp, ta):
        g = good_of(r)
        out = []
        for s, b, v in enum_split(ex, st, r, g):
            out.append((s, 'val', v) if b else (s, 'panic', 'unwrap on None/Err'))
        return out

    @m('Option Result', 'unwrap_or_default')
    def unwrap_def(ex, st, fr, r, pl, a, exp, ta):
        g = good_of(r)
        t = r.ty[2][0] or exp
        out = []
        for s, b, v in enum_split(ex, st, r, g):
            out.append((s, 'val', v if b else ex.default(s, t, fr)))
        return ex.merge(st, out)

    @m('Option Result', 'unwrap_or')
    def unwrap_or(ex, st, fr, r, pl, a, exp, ta):
        out = [(s, 'val', v if b else ex.deref(s, a[0])) for s, b, v in enum_split(ex, st, r, good_of(r))]
        return ex.merge(st, out)

    @m('Option Result', 'unwrap_or_else')
    def unwrap_or_else(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b, v in enum_split(ex, st, r, good_of(r)):
            if b:
                out.append((s, 'val', v))
            else:
                out.extend(ex.call_value(s, a[0], [] if good_of(r) == 'Some' else [v], exp or r.ty[2][0], fr))
        return ex.merge(st, out)

    @m('Option Result', 'map')
    def o_map(ex, st, fr, r, pl, a, exp, ta):
        g = good_of(r)
        out = []
        inner = exp[2][0] if exp and exp[0] == 'adt' and exp[1] == r.ty[1] else None
        for s, b, v in enum_split(ex, st, r, g):
            if b:
                out.extend(ex.seq(ex.call_value(s, a[0], [v], inner, fr), lambda s2, x: R(s2, some(ex.deref(s2, x)) if g == 'Some' else ok(ex.deref(s2, x), r.ty[2][1]))))
            else:
                out.append((s, 'val', none(inner) if g == 'Some' else err(v)))
        return ex.merge(st, out)

    @m('Result', 'map_err')
    def r_map_err(ex, st, fr, r, pl, a, exp, ta):
        out = []
        et = exp[2][1] if exp and exp[0] == 'adt' and exp[1] == 'Result' else None
        for s, b, v in enum_split(ex, st, r, 'Ok'):
            if b:
                out.append((s, 'val', ok(v)))
            else:
                out.extend(ex.seq(ex.call_value(s, a[0], [v], et, fr), lambda s2, x: R(s2, err(x, r.ty[2][0]))))
        return out

    @m('Result', 'or_else')
    def r_or_else(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b, v in enum_split(ex, st, r, 'Ok'):
            out.extend(R(s, ok(v)) if b else ex.call_value(s, a[0], [v], exp, fr))
        return out

    @m('Result', 'context with_context')
    def r_context(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b, v in enum_split(ex, st, r, 'Ok'):
            out.append((s, 'val', ok(v) if b else err(ex.fresh(ANY, 'ctxerr'))))
        return out

    @m('Result', 'ok')
    def r_ok(ex, st, fr, r, pl, a, exp, ta):
        vs = {}
        if 'Ok' in r.vs:
            vs['Some'] = r.vs['Ok']
        vs['None'] = (z3.Not(r.cond('Ok')), {})
        return R(st, VEnum(option(r.ty[2][0]), vs))

    @m('Result', 'err')
    def r_err(ex, st, fr, r, pl, a, exp, ta):
        vs = {}
        if 'Err' in r.vs:
            vs['Some'] = r.vs['Err']
        vs['None'] = (z3.Not(r.cond('Err')), {})
        return R(st, VEnum(option(r.ty[2][1]), vs))

    @m('Option', 'ok_or')
    def o_ok_or(ex, st, fr, r, pl, a, exp, ta):
        return [(s, 'val', ok(v) if b else err(ex.deref(s, a[0]))) for s, b, v in enum_split(ex, st, r, 'Some')]

    @m('Option', 'ok_or_else context with_context')
    def o_ok_or_else(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b, v in enum_split(ex, st, r, 'Some'):
            if b:
                out.append((s, 'val', ok(v)))
            elif isinstance(a[0], VFn):
                out.extend(ex.seq(ex.call_value(s, a[0], [], None, fr), lambda s2, x: R(s2, err(x, r.ty[2][0]))))
            else:
                out.append((s, 'val', err(ex.fresh(ANY, 'ctxerr'))))
        return out

    @m('Option Result', 'and_then')
    def o_and_then(ex, st, fr, r, pl, a, exp, ta):
        g = good_of(r)
        out = []
        for s, b, v in enum_split(ex, st, r, g):
            if b:
                out.extend(ex.call_value(s, a[0], [v], exp, fr))
            else:
                out.append((s, 'val', none() if g == 'Some' else err(v)))
        return ex.merge(st, out)

    @m('Option', 'or')
    def o_or(ex, st, fr, r, pl, a, exp, ta):
        return ex.merge(st, [(s, 'val', some(v) if b else ex.rv(s, a[0])) for s, b, v in enum_split(ex, st, r, 'Some')])

    @m('Option', 'or_else')
    def o_or_else(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b, v in enum_split(ex, st, r, 'Some'):
            out.extend(R(s, some(v)) if b else ex.call_value(s, a[0], [], exp, fr))
        return ex.merge(st, out)

    @m('Option', 'filter')
    def o_filter(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b, v in enum_split(ex, st, r, 'Some'):
            if not b:
                out.append((s, 'val', none(r.ty[2][0])))
                continue
            def f(s2, x):
                return R(s2, opt_cond(ex.rv(s2, x).z, v))
            out.extend(ex.seq(ex.call_value(s, a[0], [v], None, fr), f))
        return ex.merge(st, out)

    @m('Option Result', 'is_some_and is_ok_and')
    def o_is_some_and(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b, v in enum_split(ex, st, r, good_of(r)):
            out.extend(ex.call_value(s, a[0], [v], None, fr) if b else R(s, VBool(False)))
        return ex.merge(st, out)

    @m('Option', 'is_none_or')
    def o_is_none_or(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b, v in enum_split(ex, st, r, 'Some'):
            out.extend(ex.call_value(s, a[0], [v], None, fr) if b else R(s, VBool(True)))
        return ex.merge(st, out)

    @m('Option Result', 'map_or')
    def o_map_or(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b, v in enum_split(ex, st, r, good_of(r)):
            out.extend(ex.call_value(s, a[1], [v], exp, fr) if b else R(s, ex.deref(s, a[0])))
        return ex.merge(st, out)

    @m('Option Result', 'map_or_else')
    def o_map_or_else(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b, v in enum_split(ex, st, r, good_of(r)):
            out.extend(ex.call_value(s, a[1], [v], exp, fr) if b else ex.call_value(s, a[0], [] if good_of(r) == 'Some' else [v], exp, fr))
        return ex.merge(st, out)

    @m('Option', 'flatten')
    def o_flatten(ex, st, fr, r, pl, a, exp, ta):
        return ex.merge(st, [(s, 'val', v if b else none()) for s, b, v in enum_split(ex, st, r, 'Some')])

    @m('Option', 'zip')
    def o_zip(ex, st, fr, r, pl, a, exp, ta):
        o = ex.rv(st, a[0])
        c = z3.And(r.cond('Some'), o.cond('Some'))
        return R(st, opt_cond(c, VTuple([opt_get(r), opt_get(o)])))

    @m('Option', 'iter into_iter')
    def o_iter(ex, st, fr, r, pl, a, exp, ta): return R(st, ex.to_iter(st, r, fr))

    @m('VBool', 'then')
    def b_then(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b in ex.branch(st, r.z):
            if b:
                out.extend(ex.seq(ex.call_value(s, a[0], [], None, fr), lambda s2, x: R(s2, some(x))))
            else:
                out.append((s, 'val', none()))
        return ex.merge(st, out)

    @m('VBool', 'then_some')
    def b_then_some(ex, st, fr, r, pl, a, exp, ta): return R(st, opt_cond(r.z, ex.deref(st, a[0])))

    # ------------------------------------------------------------ strings
    @m('VStr', 'as_bytes into_bytes bytes')
    def s_bytes(ex, st, fr, r, pl, a, exp, ta): return R(st, r)

    @m('VStr', 'clone_from')
    def s_clone_from(ex, st, fr, r, pl, a, exp, ta):
        ex.store(st, pl[0], pl[1], ex.deref(st, a[0]))
        return R(st, UNITV)

    @m('*', 'clone_from')
    def any_clone_from(ex, st, fr, r, pl, a, exp, ta):
        ex.store(st, pl[0], pl[1], ex.deref(st, a[0]))
        return R(st, UNITV)

    @m('VStr', 'into_owned')
    def s_into_owned(ex, st, fr, r, pl, a, exp, ta): return R(st, r)

    @m('VStr', 'is_empty')
    def s_is_empty(ex, st, fr, r, pl, a, exp, ta):
        if any(isinstance(p, str) for p in r.parts):
            return R(st, VBool(False))
        if not r.parts:
            return R(st, VBool(True))
        return R(st, VBool(z3.And([p == W.lit('') for p in r.parts])))

    @m('VStr', 'len')
    def s_len(ex, st, fr, r, pl, a, exp, ta):
        c = r.const()
        if c is not None:
            return R(st, VInt(len(c.encode()), 'usize'))
        n = 0
        for p in r.parts:
            if isinstance(p, str):
                n = n + len(p.encode())
            else:
                x = app('str.len', [p], ('int', 'usize'))
                st.add((x.z == 0) == (p == W.lit('')))
                n = n + x.z
        return R(st, VInt(n, 'usize'))

    @m('VStr', 'push_str push')
    def s_push(ex, st, fr, r, pl, a, exp, ta):
        x = display(ex, st, a[0], fr)
        ex.store(st, pl[0], pl[1], VStr(r.parts + x.parts))
        return R(st, UNITV)

    # percent-encoding: sets of bytes are evaluated, encoding is a homomorphism over concatenation
    asc = set(range(128))
    ctl = set(range(32)) | {127}
    alnum = {b for b in asc if chr(b).isalnum()}
    ex.consts['percent_encoding::NON_ALPHANUMERIC'] = VOpaque('AsciiSet', frozenset(asc - alnum))
    ex.consts['percent_encoding::CONTROLS'] = VOpaque('AsciiSet', frozenset(ctl))

    @m('AsciiSet', 'add remove')
    def aset(ex, st, fr, r, pl, a, exp, ta): raise Unsupported('AsciiSet')

    def aset_op(f):
        def g(ex, st, fr, r, pl, a, exp, ta):
            z = z3.simplify(ex.rv(st, a[0]).z)
            if not z3.is_int_value(z): raise Unsupported('AsciiSet of a computed byte')
            return R(st, VOpaque('AsciiSet', f(r.data, z.as_long())))
        return g
    M[('AsciiSet', 'add')] = aset_op(lambda s, b: s | {b})
    M[('AsciiSet', 'remove')] = aset_op(lambda s, b: s - {b})

    def pct_name(bs):
        return 'pct[' + ''.join(chr(b) if 32 < b < 127 else f'<{b}>' for b in sorted(bs)) + ']'
    PCT = {}

    def pct_part(p, bs):
        """-> z3 Str"""
        if isinstance(p, str):
            return W.lit(''.join(chr(b) if b < 128 and b not in bs else f'%{b:02X}' for b in p.encode()))
        n = p.decl().name()
        if n.startswith('lit:'): return pct_part(n[4:], bs)
        if z3.is_app_of(p, z3.Z3_OP_ITE): return z3.If(p.arg(0), pct_part(p.arg(1), bs), pct_part(p.arg(2), bs))
        if n == 'cat': return cat_fn()(pct_part(p.arg(0), bs), pct_part(p.arg(1), bs))
        if n in PCT and ord('%') not in bs and not (alnum & bs):
            return pct_part(p.arg(0), frozenset(PCT[n] | bs))
        if n == 'int2str' and not (({ord(x) for x in '0123456789-'}) & bs): return p
        PCT[pct_name(bs)] = bs
        r = app(pct_name(bs), [p], STR)
        f = r.z.decl()
        if f.name() not in W.axioms:
            x = z3.Const('x!', Str)
            W.axiom(f, z3.ForAll([x], (f(x) == W.lit('')) == (x == W.lit('')), patterns=[f(x)]))
        return r.z

    @fn('utf8_percent_encode percent_encoding::utf8_percent_encode')
    def pct_enc(ex, st, fr, a, exp, ta):
        s, bs = ex.rv(st, a[0]), ex.rv(st, a[1])
        if not isinstance(bs, VOpaque): raise Unsupported('percent encoding with a computed set')
        return R(st, VStr([pct_part(p, bs.data) for p in s.parts]))
    ex.pct = lambda v, bs: VStr([pct_part(p, frozenset(bs)) for p in v.parts])

    @fn('percent_decode_str percent_encoding::percent_decode_str')
    def pct_dec(ex, st, fr, a, exp, ta):
        return R(st, VOpaque('PercentDecode', ex.rv(st, a[0])))

    @m('PercentDecode', 'decode_utf8_lossy')
    def pct_dec_lossy(ex, st, fr, r, pl, a, exp, ta): return R(st, app('pctdec', [r.data.z], STR))

    @m('PercentDecode', 'decode_utf8')
    def pct_dec_utf8(ex, st, fr, r, pl, a, exp, ta):
        return R(st, app('pctdec_utf8', [r.data.z], result(STR, ('opaque', 'Utf8Error'))))

    @m('VStr', 'extend')
    def s_extend(ex, st, fr, r, pl, a, exp, ta):
        x = ex.rv(st, a[0])
        if not isinstance(x, VStr): raise Unsupported('String::extend')
        ex.store(st, pl[0], pl[1], VStr(r.parts + x.parts))
        return R(st, UNITV)

    @m('VStr', 'ends_with starts_with contains eq_ignore_ascii_case')
    def s_ends(ex, st, fr, r, pl, a, exp, ta):
        raise Unsupported('string predicate')

    def strpred(name, pyf):
        def f(ex, st, fr, r, pl, a, exp, ta):
            x = display(ex, st, a[0], fr)
            c, d = r.const(), x.const()
            if c is not None and d is not None:
                return R(st, VBool(pyf(c, d)))
            if name == 'ends_with' and d is not None and len(d) == 1 and r.parts and isinstance(r.parts[-1], str):
                return R(st, VBool(r.parts[-1].endswith(d)))
            if name == 'starts_with' and d is not None and r.parts and isinstance(r.parts[0], str) and len(r.parts[0]) >= len(d):
                return R(st, VBool(r.parts[0].startswith(d)))
            if name == 'ends_with' and d is not None and len(d) == 1:
                z = F
                for p in r.parts:
                    z = ends1(p, d, z)
                return R(st, VBool(z))
            b = app('str.' + name, [r.z, x.z], BOOL)
            if d:
                # a text that starts with (ends with, contains) d is at least as long, and d ends at a character boundary
                n, k = app('str.len', [r.z], ('int', 'usize')).z, z3.IntVal(len(d.encode()))
                more = [z3.Or(n == k, app('char_boundary', [r.z, k], BOOL).z)] if name == 'starts_with' else \
                       [z3.Or(n == k, app('char_boundary', [r.z, n - k], BOOL).z)] if name == 'ends_with' else []
                st.add(z3.Implies(b.z, z3.And(n >= k, *more)))
            return R(st, b)
        return f

    def ends1(p, d, before):
        """does (text ending as `before`) ++ p end with the character d"""
        if isinstance(p, str):
            return z3.BoolVal(p.endswith(d)) if p else before
        if p.decl().name().startswith('lit:'):
            return ends1(p.decl().name()[4:], d, before)
        if z3.is_app_of(p, z3.Z3_OP_ITE):
            return z3.If(p.arg(0), ends1(p.arg(1), d, before), ends1(p.arg(2), d, before))
        if p.decl().name() == 'cat':
            return ends1(p.arg(1), d, ends1(p.arg(0), d, before))
        return z3.If(p == W.lit(''), before, app('str.ends_with', [p, W.lit(d)], BOOL).z)
    M[('VStr', 'ends_with')] = strpred('ends_with', lambda a, b: a.endswith(b))
    M[('VStr', 'starts_with')] = strpred('starts_with', lambda a, b: a.startswith(b))
    M[('VStr', 'contains')] = strpred('contains', lambda a, b: b in a)

    @m('VStr', 'split_whitespace split_ascii_whitespace')
    def s_split_ws(ex, st, fr, r, pl, a, exp, ta):
        v = app('split_ws', [r.z], ('vec', STR))
        return R(st, VIter(v.n, v.get, None, STR))

    @m('VStr', 'split')
    def s_split(ex, st, fr, r, pl, a, exp, ta):
        v = app('split', [r.z, display(ex, st, a[0], fr).z], ('vec', STR))
        st.add(v.n >= 1)
        return R(st, VIter(v.n, v.get, None, STR))

    @m('VStr', 'split_once')
    def s_split_once(ex, st, fr, r, pl, a, exp, ta):
        d = display(ex, st, a[0], fr)
        o = app('split_once', [r.z, d.z], option(('tuple', (STR, STR))))
        x, v = force(o), app('split', [r.z, d.z], ('vec', STR))
        st.add(v.n >= 1, v.get(z3.IntVal(0)).z == z3.If(x.cond('Some'), force(force(opt_get(x))).es[0].z, r.z))
        return R(st, o)

    @m('VStr', 'chars')
    def s_chars(ex, st, fr, r, pl, a, exp, ta):
        c = r.const()
        if c is not None:
            v = VVec.of([VInt(ord(x), 'char') for x in c], ('int', 'char'))
        else:
            v = app('chars', [r.z], ('vec', ('int', 'char')))
        it = VIter(v.n, v.get, None, ('int', 'char'))
        it.items = v.items
        return R(st, it)

    @m('VStr', 'replace trim trim_end_matches trim_start_matches trim_end trim_start to_lowercase to_uppercase to_ascii_lowercase')
    def s_fun(ex, st, fr, r, pl, a, exp, ta):
        raise Unsupported('string function')

    def strfun(name):
        def f(ex, st, fr, r, pl, a, exp, ta):
            return R(st, app('str.' + name, [r.z] + [display(ex, st, x, fr).z for x in a], STR))
        return f
    for n in 'replace trim trim_end_matches trim_start_matches trim_end trim_start to_lowercase to_uppercase to_ascii_lowercase'.split():
        M[('VStr', n)] = strfun(n)

    @m('VStr', 'strip_prefix')
    def s_strip_prefix(ex, st, fr, r, pl, a, exp, ta):
        d = display(ex, st, a[0], fr)
        if d.const() is not None and (r.const() is not None or (r.parts and isinstance(r.parts[0], str) and len(r.parts[0]) >= len(d.const()))):
            head, k = r.const() if r.const() is not None else r.parts[0], len(d.const())
            return R(st, some(VStr([head[k:]] + ([] if r.const() is not None else list(r.parts[1:])))) if head.startswith(d.const()) else none(STR))
        st.add(app('str.starts_with', [r.z, d.z], BOOL).z == force(app('str.strip_prefix', [r.z, d.z], option(STR))).cond('Some'))
        return R(st, app('str.strip_prefix', [r.z, d.z], option(STR)))

    @m('VStr', 'strip_suffix')
    def s_strip_suffix(ex, st, fr, r, pl, a, exp, ta):
        d = display(ex, st, a[0], fr)
        return R(st, app('str.strip_suffix', [r.z, d.z], option(STR)))

    def str_slice(ex, st, fr, base, iv, e):
        """&s[a..b]: panics unless both ends are character boundaries within s, in order"""
        if not isinstance(iv, VRange):
            raise Unsupported('text indexed by something else than a range')
        n = app('str.len', [base.z], ('int', 'usize')).z
        st.add((n == 0) == (base.z == W.lit('')))
        lo = ex.rv(st, iv.lo).z if iv.lo is not None else z3.IntVal(0)
        l0, head = z3.simplify(lo), base.parts[0] if base.parts else None
        if iv.hi is None and z3.is_int_value(l0) and isinstance(head, str) and head.isascii() and 0 <= l0.as_long() <= len(head):
            return R(st, VStr([head[l0.as_long():]] + list(base.parts[1:])))
        hi = (ex.rv(st, iv.hi).z + (1 if iv.incl else 0)) if iv.hi is not None else n
        at = lambda i: z3.Or(i == 0, i == n, z3.And(0 < i, i < n, app('char_boundary', [base.z, i], BOOL).z))
        out = []
        for s2, yes in ex.branch(st, z3.And(lo <= hi, at(lo), at(hi))):
            out.append((s2, 'val', app('substr', [base.z, lo, hi], STR)) if yes else (s2, 'panic', f'text slice:{e["line"]}'))
        return out
    M[('index', 'VStr')] = str_slice

    @m('VStr', 'parse')
    def s_parse(ex, st, fr, r, pl, a, exp, ta):
        t = ta[0] if ta else (exp[2][0] if exp and exp[0] == 'adt' and exp[1] == 'Result' else None)
        return R(st, app(f'parse<{tname(t)}>', [r.z], result(t, ('opaque', 'ParseError'))))

    @fn('String::new')
    def string_new(ex, st, fr, a, exp, ta): return R(st, VStr(''))

    @fn('String::from str::to_string String::with_capacity ToString::to_string str::to_owned ToOwned::to_owned')
    def string_from(ex, st, fr, a, exp, ta):
        x = ex.rv(st, a[0])
        if isinstance(x, VInt) and x.t != 'char':
            return R(st, VStr(''))
        return R(st, display(ex, st, x, fr))

    # ------------------------------------------------------------ integers / time
    @m('VInt', 'abs')
    def i_abs(ex, st, fr, r, pl, a, exp, ta):
        return ex.int_result(st, z3.If(r.z < 0, -r.z, r.z), r.t, 'abs', {'line': 0})

    @fn('i32::abs i64::abs')
    def i_abs2(ex, st, fr, a, exp, ta):
        r = ex.rv(st, a[0])
        return ex.int_result(st, z3.If(r.z < 0, -r.z, r.z), r.t, 'abs', {'line': 0})

    @m('VInt', 'min')
    def i_min(ex, st, fr, r, pl, a, exp, ta):
        b = ex.rv(st, a[0])
        return R(st, VInt(z3.If(r.z < b.z, r.z, b.z), r.t))

    @m('VInt', 'max')
    def i_max(ex, st, fr, r, pl, a, exp, ta):
        b = ex.rv(st, a[0])
        return R(st, VInt(z3.If(r.z > b.z, r.z, b.z), r.t))

    def checked(op):
        def f(ex, st, fr, r, pl, a, exp, ta):
            b = ex.rv(st, a[0])
            z = op(r.z, b.z)
            lo, hi = INT_RANGES[r.t] or (None, None)
            c = z3.And(z >= lo, z <= hi) if lo is not None else T
            return R(st, opt_cond(c, VInt(z, r.t)))
        return f
    M[('VInt', 'checked_add')] = checked(lambda a, b: a + b)
    M[('VInt', 'checked_sub')] = checked(lambda a, b: a - b)
    M[('VInt', 'checked_mul')] = checked(lambda a, b: a * b)

    def sat(op):
        def f(ex, st, fr, r, pl, a, exp, ta):
            b = ex.rv(st, a[0])
            z = op(r.z, b.z)
            lo, hi = INT_RANGES[r.t]
            return R(st, VInt(z3.If(z < lo, z3.IntVal(lo), z3.If(z > hi, z3.IntVal(hi), z)), r.t))
        return f
    M[('VInt', 'saturating_add')] = sat(lambda a, b: a + b)
    M[('VInt', 'saturating_sub')] = sat(lambda a, b: a - b)

    def wrp(op):
        def f(ex, st, fr, r, pl, a, exp, ta):
            b = ex.rv(st, a[0])
            lo, hi = INT_RANGES[r.t]
            w = hi - lo + 1
            return R(st, VInt(((op(r.z, b.z) - lo) % w) + lo, r.t))
        return f
    M[('VInt', 'wrapping_add')] = wrp(lambda a, b: a + b)
    M[('VInt', 'wrapping_sub')] = wrp(lambda a, b: a - b)

    for t in [k for k, v in INT_RANGES.items() if v]:
        def cvt(t=t):
            def f(ex, st, fr, a, exp, ta):
                r = ex.rv(st, a[0])
                return R(st, VInt(r.z if isinstance(r, VInt) else z3.If(r.z, 1, 0), t))
            return f
        Fm[f'{t}::from'] = cvt()

    @fn('Utc::now')
    def utc_now(ex, st, fr, a, exp, ta):
        """a non-decreasing clock"""
        v = ex.fresh(('int', 'DateTime'), 'now')
        prev = st.ghost.get('clock')
        if prev is not None:
            st.add(v.z >= prev)
        if len(ex.ctx) == ex.in_loops:
            st.ghost['clock'] = v.z
        st.add(v.z >= 0, v.z < 2**62 * 1000)
        return R(st, v)

    def td(mult, opt):
        def f(ex, st, fr, a, exp, ta):
            v = VInt(z3.simplify(ex.rv(st, a[0]).z * mult), 'TimeDelta')
            return R(st, some(v) if opt else v)
        return f
    for n, k in (('seconds', 1), ('minutes', 60), ('hours', 3600), ('days', 86400), ('weeks', 604800)):
        for o in ('TimeDelta', 'Duration'):
            Fm[f'{o}::{n}'] = td(k * SEC, False)
            Fm[f'{o}::try_{n}'] = td(k * SEC, True)
    for o in ('TimeDelta', 'Duration'):
        Fm[f'{o}::milliseconds'] = td(10**6, False)
        Fm[f'{o}::zero'] = lambda ex, st, fr, a, exp, ta: R(st, VInt(0, 'TimeDelta'))

    @m('DateTime', 'signed_duration_since')
    def dt_since(ex, st, fr, r, pl, a, exp, ta): return R(st, VInt(r.z - ex.rv(st, a[0]).z, 'TimeDelta'))

    @m('TimeDelta', 'num_seconds')
    def td_secs(ex, st, fr, r, pl, a, exp, ta): return R(st, VInt(tdiv(r.z, z3.IntVal(SEC)), 'i64'))

    @m('TimeDelta', 'num_minutes')
    def td_mins(ex, st, fr, r, pl, a, exp, ta): return R(st, VInt(tdiv(r.z, z3.IntVal(60 * SEC)), 'i64'))

    @m('TimeDelta', 'num_milliseconds')
    def td_ms(ex, st, fr, r, pl, a, exp, ta): return R(st, VInt(tdiv(r.z, z3.IntVal(10**6)), 'i64'))

    @m('DateTime', 'timestamp')
    def dt_ts(ex, st, fr, r, pl, a, exp, ta): return R(st, VInt(r.z / SEC, 'i64'))

    @m('DateTime', 'checked_add_signed')
    def dt_cas(ex, st, fr, r, pl, a, exp, ta): return R(st, some(VInt(r.z + ex.rv(st, a[0]).z, 'DateTime')))

    @m('DateTime', 'to_rfc3339_opts to_rfc3339 format')
    def dt_rfc(ex, st, fr, r, pl, a, exp, ta): return R(st, app('rfc3339', [r.z], STR))

    @fn('DateTime::from_timestamp')
    def dt_from_ts(ex, st, fr, a, exp, ta):
        z = ex.rv(st, a[0]).z
        return R(st, opt_cond(app('ts_in_range', [z], BOOL).z, VInt(z * SEC + ex.rv(st, a[1]).z, 'DateTime')))

    ex.consts['DateTime::UNIX_EPOCH'] = VInt(0, 'DateTime')
    ex.consts['DateTime::MAX_UTC'] = VInt(8210266876799 * 10**9 + 999999999, 'DateTime')

    # ------------------------------------------------------------ vectors and iterators
    @fn('Vec::new Vec::with_capacity VecDeque::new')
    def vec_new(ex, st, fr, a, exp, ta): return R(st, VVec.of([], exp[1] if exp and exp[0] == 'vec' else None))

    @fn('Vec::from Vec::from_iter')
    def vec_from(ex, st, fr, a, exp, ta): return R(st, ex.rv(st, a[0]))

    @m('VVec', 'push push_back')
    def v_push(ex, st, fr, r, pl, a, exp, ta):
        ex.store(st, pl[0], pl[1], r.push(ex.deref(st, a[0])))
        return R(st, UNITV)

    @m('VVec', 'len')
    def v_len(ex, st, fr, r, pl, a, exp, ta):
        if not z3.is_int_value(r.n):
            st.add(r.n >= 0)
        return R(st, VInt(r.n, 'usize'))

    @m('VVec', 'is_empty')
    def v_is_empty(ex, st, fr, r, pl, a, exp, ta):
        if not z3.is_int_value(r.n):
            st.add(r.n >= 0)
        return R(st, VBool(r.n == 0))

    @m('VVec', 'clear')
    def v_clear(ex, st, fr, r, pl, a, exp, ta):
        ex.store(st, pl[0], pl[1], VVec.of([], r.ety))
        return R(st, UNITV)

    def int_q(ex): return z3.Int(f'q!{W.uid()}')

    @m('VVec', 'contains')
    def v_contains(ex, st, fr, r, pl, a, exp, ta):
        x = ex.rv(st, a[0])
        if r.items is not None:
            return R(st, VBool(z3.Or([ex.equal(st, y, x, fr) for y in r.items]) if r.items else F))
        i = int_q(ex)
        return R(st, VBool(z3.Exists([i], z3.And(0 <= i, i < r.n, ex.equal(st, r.get(i), x, fr)))))

    @m('VVec', 'get')
    def v_get(ex, st, fr, r, pl, a, exp, ta):
        i = ex.rv(st, a[0])
        if not isinstance(i, VInt):
            raise Unsupported('slice get')
        if r.items is not None and z3.is_int_value(z3.simplify(i.z)):
            k = z3.simplify(i.z).as_long()
            return R(st, some(r.items[k]) if 0 <= k < len(r.items) else none(r.ety))
        if r.items == []:
            return R(st, none(r.ety))
        return R(st, opt_cond(z3.And(0 <= i.z, i.z < r.n), r.get(i.z)))

    @m('VVec', 'first')
    def v_first(ex, st, fr, r, pl, a, exp, ta):
        if r.items is not None:
            return R(st, some(r.items[0]) if r.items else none(r.ety))
        return R(st, opt_cond(r.n > 0, r.get(z3.IntVal(0))))

    @m('VVec', 'last')
    def v_last(ex, st, fr, r, pl, a, exp, ta):
        if r.items is not None:
            return R(st, some(r.items[-1]) if r.items else none(r.ety))
        return R(st, opt_cond(r.n > 0, r.get(r.n - 1)))

    @m('VVec', 'pop')
    def v_pop(ex, st, fr, r, pl, a, exp, ta):
        out = []
        for s, b in ex.branch(st, r.n > 0):
            if b:
                x = r.get(r.n - 1)
                ex.store(s, pl[0], pl[1], VVec.of(r.items[:-1], r.ety) if r.items is not None else VVec(r.n - 1, r.get, r.ety))
                out.append((s, 'val', some(x)))
            else:
                out.append((s, 'val', none(r.ety)))
        return out

    @m('VVec VMap VSet', 'iter into_iter')
    def v_iter(ex, st, fr, r, pl, a, exp, ta): return R(st, ex.to_iter(st, r, fr))

    @m('VVec', 'drain')
    def v_drain(ex, st, fr, r, pl, a, exp, ta):
        ex.store(st, pl[0], pl[1], VVec.of([], r.ety))
        return R(st, ex.to_iter(st, r, fr))

    @m('VVec', 'iter_mut')
    def v_iter_mut(ex, st, fr, r, pl, a, exp, ta): return R(st, ex.to_iter(st, VRef(*pl), fr))

    @m('VIter', 'iter into_iter copied cloned by_ref fuse peekable')
    def i_id(ex, st, fr, r, pl, a, exp, ta): return R(st, r)

    def iter_of(ex, st, v, fr): return ex.to_iter(st, v, fr)

    @m('VVec VRange VMap', 'map filter filter_map find find_map any all position for_each enumerate next count collect fold flat_map zip chain rev take skip take_while last max min sum cloned copied')
    def seq_as_iter(ex, st, fr, r, pl, a, exp, ta):
        raise Unsupported('iterator method on container')

    for n in 'map filter filter_map find find_map any all position for_each enumerate next count collect rev zip chain skip take'.split():
        def via(n=n):
            def f(ex, st, fr, r, pl, a, exp, ta):
                return M[('VIter', n)](ex, st, fr, ex.to_iter(st, r, fr), None, a, exp, ta)
            return f
        M[('VRange', n)] = via()

    @m('VIter', 'map')
    def i_map(ex, st, fr, r, pl, a, exp, ta):
        items = getattr(r, 'items', None)
        if items is not None and r.guard is None and len(items) <= 8:
            acc = [(st, 'val', [])]
            for x in items:
                acc = ex.seq(acc, lambda s, vs, x=x: ex.seq(ex.call_value(s, a[0], [x], None, fr), lambda s2, y: R(s2, vs + [ex.deref(s2, y)])))
            def fin(s, vs):
                v = VVec.of(vs)
                it = VIter(v.n, v.get, None, v.ety)
                it.items = v.items
                return R(s, it)
            return ex.seq(acc, fin)
        g, extra, k = ex.lam(st, r.n, r.guard, lambda s, k: ex.call_value(s, a[0], [r.get(k)], None, fr))
        if g is None:
            v = VVec.of([])
            it = VIter(v.n, v.get, None, None)
            it.items = []
            return R(st, it) + extra
        return R(st, VIter(r.n, g, r.guard, g(k).ty)) + extra

    def and_guard(g1, g2):
        return g2 if g1 is None else (lambda i: z3.And(g1(i), g2(i)))

    @m('VIter', 'filter')
    def i_filter(ex, st, fr, r, pl, a, exp, ta):
        g, extra, k = ex.lam(st, r.n, r.guard, lambda s, k: ex.call_value(s, a[0], [r.get(k)], None, fr))
        if g is None:
            return R(st, VIter(z3.IntVal(0), r.get, None, r.ety)) + extra
        return R(st, VIter(r.n, r.get, and_guard(r.guard, lambda i: g(i).z), r.ety)) + extra

    @m('VIter', 'filter_map')
    def i_filter_map(ex, st, fr, r, pl, a, exp, ta):
        g, extra, k = ex.lam(st, r.n, r.guard, lambda s, k: ex.call_value(s, a[0], [r.get(k)], None, fr))
        if g is None:
            return R(st, VIter(z3.IntVal(0), r.get, None, r.ety)) + extra
        def get(i):
            p = opt_get(force(g(i)))
            if p is None:
                raise Unsupported('filter_map never Some')
            return p
        o = force(g(k))
        return R(st, VIter(r.n, get, and_guard(r.guard, lambda i: force(g(i)).cond('Some')), o.ty[2][0])) + extra

    @m('VIter', 'flatten')
    def i_flatten(ex, st, fr, r, pl, a, exp, ta):
        x = force(r.get(z3.Int('i!')))
        if isinstance(x, VEnum) and x.ty[1] == 'Option':
            return R(st, VIter(r.n, lambda i: opt_get(force(r.get(i))), and_guard(r.guard, lambda i: force(r.get(i)).cond('Some')), x.ty[2][0]))
        raise Unsupported('flatten')

    @m('VIter', 'enumerate')
    def i_enum(ex, st, fr, r, pl, a, exp, ta):
        if r.guard is not None:
            r = compact(ex, st, r)
        it = VIter(r.n, lambda i: VTuple([VInt(i, 'usize'), r.get(i)]), None, None)
        its = getattr(r, 'items', None)
        if its is not None:
            it.items = [VTuple([VInt(i, 'usize'), x]) for i, x in enumerate(its)]
        return R(st, it)

    @m('VIter', 'rev')
    def i_rev(ex, st, fr, r, pl, a, exp, ta):
        return R(st, VIter(r.n, lambda i: r.get(r.n - 1 - i), None if r.guard is None else (lambda i: r.guard(r.n - 1 - i)), r.ety))

    @m('VIter', 'skip')
    def i_skip(ex, st, fr, r, pl, a, exp, ta):
        if r.guard is not None:
            r = compact(ex, st, r)
        k = ex.rv(st, a[0]).z
        return R(st, VIter(z3.If(r.n > k, r.n - k, z3.IntVal(0)), lambda i: r.get(i + k), None, r.ety))

    @m('VIter', 'take')
    def i_take(ex, st, fr, r, pl, a, exp, ta):
        if r.guard is not None:
            r = compact(ex, st, r)
        k = ex.rv(st, a[0]).z
        return R(st, VIter(z3.If(r.n > k, k, r.n), r.get, None, r.ety))

    @m('VIter', 'zip')
    def i_zip(ex, st, fr, r, pl, a, exp, ta):
        o = ex.to_iter(st, a[0], fr)
        if r.guard is not None:
            r = compact(ex, st, r)
        if o.guard is not None:
            o = compact(ex, st, o)
        return R(st, VIter(z3.If(r.n < o.n, r.n, o.n), lambda i: VTuple([r.get(i), o.get(i)]), None, None))

    def pred(ex, st, fr, r, f):
        g, extra, k = ex.lam(st, r.n, r.guard, lambda s, k: ex.call_value(s, f, [r.get(k)], None, fr))
        gd = r.guard or (lambda i: T)
        return (lambda i: z3.And(0 <= i, i < r.n, gd(i))), ((lambda i: g(i).z) if g else (lambda i: F)), extra

    @m('VIter', 'any')
    def i_any(ex, st, fr, r, pl, a, exp, ta):
        items = getattr(r, 'items', None)
        if items is not None and r.guard is None and len(items) <= 8:
            acc = [(st, 'val', VBool(False))]
            for x in items:
                acc = ex.seq(acc, lambda s, v, x=x: ex.seq(ex.call_value(s, a[0], [x], None, fr), lambda s2, y: R(s2, VBool(z3.Or(v.z, ex.rv(s2, y).z)))))
            return acc
        dom, p, extra = pred(ex, st, fr, r, a[0])
        i = int_q(ex)
        return R(st, VBool(z3.Exists([i], z3.And(dom(i), p(i))))) + extra

    @m('VIter', 'all')
    def i_all(ex, st, fr, r, pl, a, exp, ta):
        items = getattr(r, 'items', None)
        if items is not None and r.guard is None and len(items) <= 8:
            acc = [(st, 'val', VBool(True))]
            for x in items:
                acc = ex.seq(acc, lambda s, v, x=x: ex.seq(ex.call_value(s, a[0], [x], None, fr), lambda s2, y: R(s2, VBool(z3.And(v.z, ex.rv(s2, y).z)))))
            return acc
        dom, p, extra = pred(ex, st, fr, r, a[0])
        i = int_q(ex)
        return R(st, VBool(z3.ForAll([i], z3.Implies(dom(i), p(i))))) + extra

    def first_such(ex, st, dom, p, mk, t=None):
        """fork: first index satisfying p / none"""
        out = []
        w = ex.fresh_idx('w')
        i = int_q(ex)
        s = st.fork()
        s.add(dom(w), p(w), z3.ForAll([i], z3.Implies(z3.And(dom(i), i < w), z3.Not(p(i)))))
        out.append((s, 'val', some(mk(w))))
        s = st.fork()
        s.add(z3.ForAll([i], z3.Implies(dom(i), z3.Not(p(i)))))
        out.append((s, 'val', none(t)))
        return out

    @m('VIter', 'find')
    def i_find(ex, st, fr, r, pl, a, exp, ta):
        dom, p, extra = pred(ex, st, fr, r, a[0])
        return first_such(ex, st, dom, p, r.get, r.ety) + extra

    @m('VIter', 'position')
    def i_pos(ex, st, fr, r, pl, a, exp, ta):
        if r.guard is not None:
            r = compact(ex, st, r)
        dom, p, extra = pred(ex, st, fr, r, a[0])
        return first_such(ex, st, dom, p, lambda w: VInt(w, 'usize'), ('int', 'usize')) + extra

    @m('VIter', 'find_map')
    def i_find_map(ex, st, fr, r, pl, a, exp, ta):
        g, extra, k = ex.lam(st, r.n, r.guard, lambda s, k: ex.call_value(s, a[0], [r.get(k)], None, fr))
        gd = r.guard or (lambda i: T)
        dom = lambda i: z3.And(0 <= i, i < r.n, gd(i))
        if g is None:
            return R(st, none()) + extra
        return first_such(ex, st, dom, lambda i: force(g(i)).cond('Some'), lambda w: opt_get(force(g(w))), None) + extra

    @m('VIter', 'next')
    def i_next(ex, st, fr, r, pl, a, exp, ta):
        if r.guard is not None:
            r = compact(ex, st, r)
        if pl is not None:
            out = []
            for s, b in ex.branch(st, r.n > 0):
                if b:
                    ex.store(s, pl[0], pl[1], VIter(z3.simplify(r.n - 1), lambda i: r.get(i + 1), None, r.ety))
                    out.append((s, 'val', some(r.get(z3.IntVal(0)))))
                else:
                    out.append((s, 'val', none(r.ety)))
            return out
        items = getattr(r, 'items', None)
        if items is not None:
            return R(st, some(items[0]) if items else none(r.ety))
        return R(st, opt_cond(r.n > 0, r.get(z3.IntVal(0))))

    @m('VIter', 'last')
    def i_last(ex, st, fr, r, pl, a, exp, ta):
        if r.guard is not None:
            r = compact(ex, st, r)
        return R(st, opt_cond(r.n > 0, r.get(r.n - 1)))

    @m('VIter', 'nth')
    def i_nth(ex, st, fr, r, pl, a, exp, ta):
        if r.guard is not None:
            r = compact(ex, st, r)
        k = ex.rv(st, a[0]).z
        return R(st, opt_cond(z3.And(k >= 0, r.n > k), r.get(k)))

    @m('VIter', 'count len')
    def i_count(ex, st, fr, r, pl, a, exp, ta):
        if r.guard is not None:
            r = compact(ex, st, r)
        return R(st, VInt(r.n, 'usize'))

    @m('VIter', 'exactly_one')
    def i_one(ex, st, fr, r, pl, a, exp, ta):
        return R(st, VEnum(result(r.ety, ANY), {'Ok': (r.n == 1, {'0': r.get(z3.IntVal(0))}), 'Err': (r.n != 1, {'0': ex.fresh(ANY, 'e')})}))

    def compact(ex, st, r):
        """sequence of the guarded elements, in order"""
        u = W.uid()
        ctx = list(ex.ctx)
        cnt = app(f'fcnt{u}', ctx, ('int', 'int')).z
        sf = lambda i: app(f'fsrc{u}', ctx + [i], ('int', 'int')).z
        df = lambda i: app(f'fdst{u}', ctx + [i], ('int', 'int')).z
        i, j = z3.Int(f'i!{u}'), z3.Int(f'j!{u}')
        g = r.guard
        st.add(cnt >= 0, cnt <= r.n,
               z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt), z3.And(0 <= sf(i), sf(i) < r.n, g(sf(i)), df(sf(i)) == i)), patterns=[sf(i)]),
               z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < cnt), sf(i) < sf(j)), patterns=[z3.MultiPattern(sf(i), sf(j))]),
               z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.n, g(j)), z3.And(0 <= df(j), df(j) < cnt, sf(df(j)) == j))))
        return VIter(cnt, lambda i: r.get(sf(i if z3.is_expr(i) else z3.IntVal(i))), None, r.ety)
    ex.compact = compact

    @m('VIter', 'chain')
    def i_chain(ex, st, fr, r, pl, a, exp, ta):
        o = ex.to_iter(st, a[0], fr)
        if r.guard is not None:
            r = compact(ex, st, r)
        if o.guard is not None:
            o = compact(ex, st, o)
        ri, oi = getattr(r, 'items', None), getattr(o, 'items', None)
        it = VIter(r.n + o.n, lambda i: ite(i < r.n, r.get(i), o.get(i - r.n)), None, r.ety or o.ety)
        if ri is not None and oi is not None:
            it.items = ri + oi
        return R(st, it)

    @m('VIter', 'collect')
    def i_collect(ex, st, fr, r, pl, a, exp, ta):
        t = ta[0] if ta and ta[0] is not None else exp
        if ta and ta[0] is not None and exp is not None and ta[0][0] == exp[0] and ta[0][0] in ('vec',) and ta[0][1] is None:
            t = exp
        return collect(ex, st, fr, r, t)

    def collect(ex, st, fr, r, t):
        if t is not None and t[0] == 'adt' and t[1] in ('Result', 'Option'):
            good, bad = ('Ok', 'Err') if t[1] == 'Result' else ('Some', 'None')
            gd = r.guard or (lambda i: T)
            out = []
            isgood = lambda i: force(r.get(i)).cond(good)
            i = int_q(ex)
            dom = lambda i: z3.And(0 <= i, i < r.n, gd(i))
            s = st.fork()
            s.add(z3.ForAll([i], z3.Implies(dom(i), isgood(i))))
            inner = VIter(r.n, lambda i: force(r.get(i)).vs[good][1]['0'], r.guard, None)
            for s2, k2, v2 in collect(ex, s, fr, inner, t[2][0]):
                out.append((s2, k2, ok(v2) if good == 'Ok' else some(v2)))
            w = ex.fresh_idx('w')
            s = st.fork()
            probe = force(r.get(w))
            if bad in probe.vs:
                s.add(dom(w), z3.Not(isgood(w)), z3.ForAll([i], z3.Implies(z3.And(dom(i), i < w), isgood(i))))
                out.append((s, 'val', err(probe.vs[bad][1]['0']) if bad == 'Err' else none()))
            return out
        if t is not None and t[0] == 'str':
            return R(st, collect_str(ex, st, r))
        if t is not None and t[0] == 'set':
            return R(st, to_set(ex, st, r))
        if t is not None and t[0] == 'map':
            return R(st, to_map(ex, st, r, t))
        items = getattr(r, 'items', None)
        if items is not None and r.guard is None:
            return R(st, VVec.of(items, (t[1] if t and t[0] == 'vec' else None) or r.ety))
        if r.guard is not None:
            r = compact(ex, st, r)
        return R(st, VVec(r.n, r.get, (t[1] if t and t[0] == 'vec' else None) or r.ety))
    ex.collect = collect

    def collect_str(ex, st, r):
        if r.guard is not None:
            r = compact(ex, st, r)
        items = getattr(r, 'items', None)
        if items is not None:
            return VStr([p for x in items for p in display(ex, st, x, None).parts])
        s = ex.fresh(STR, 'strcollect')
        # the characters of the string are the elements
        cs = app('chars', [s.z], ('vec', ('int', 'char')))
        i = int_q(ex)
        x = r.get(i)
        if isinstance(x, VInt):
            st.add(cs.n == r.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.n), cs.get(i).z == x.z)))
        return s

    def to_set(ex, st, r):
        ety = r.ety
        x0 = r.get(z3.Int('i!'))
        ks = sort_of(x0.ty)
        gd = r.guard or (lambda i: T)
        u = W.uid()
        ctx = list(ex.ctx)
        wf0 = z3.Function(f'setw{u}', *[c.sort() for c in ctx], ks, I)
        wf = lambda q: wf0(*ctx, q)
        def has(q):
            return z3.And(0 <= wf(q), wf(q) < r.n, gd(wf(q)), to_term(r.get(wf(q))) == q)
        i = int_q(ex)
        st.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.n, gd(i)), has(to_term(r.get(i))))))
        return VSet(x0.ty, has)

    def to_map(ex, st, r, t):
        gd = r.guard or (lambda i: T)
        kv = r.get(z3.Int('i!'))
        kt = (lambda i: to_term(ex.rv(st, r.get(i).es[0])))
        ks = kt(z3.Int('i!')).sort()
        u = W.uid()
        ctx = list(ex.ctx)
        wf = z3.Function(f'mapw{u}', *[c.sort() for c in ctx], ks, I)
        w = lambda q: wf(*ctx, q)
        hit = lambda q: z3.And(0 <= w(q), w(q) < r.n, gd(w(q)), kt(w(q)) == q)
        i = int_q(ex)
        st.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.n, gd(i)), z3.And(hit(kt(i)), w(kt(i)) >= i))))
        x = VMap(t[1] or kv.es[0].ty, t[2] or kv.es[1].ty, hit, lambda q: r.get(w(q)).es[1])
        x.base = ex.empty_map(x.kty, x.vty)
        x.bulk = (r.n, gd, kt, lambda j: r.get(j).es[1])
        return x

    @m('VIter', 'join')
    @m('VVec', 'join')
    def i_join(ex, st, fr, r, pl, a, exp, ta):
        if isinstance(r, VVec) and r.items is not None:
            sep = display(ex, st, a[0], fr)
            ps = []
            for k, x in enumerate(r.items):
                if k:
                    ps += sep.parts
                ps += ex.rv(st, x).parts
            return R(st, VStr(ps))
        return R(st, ex.fresh(STR, 'join'))

    @m('VVec', 'extend extend_from_slice append')
    def v_extend(ex, st, fr, r, pl, a, exp, ta):
        o = ex.rv(st, a[0])
        it = ex.to_iter(st, o, fr)
        if it.guard is not None:
            it = compact(ex, st, it)
        items = getattr(it, 'items', None)
        if r.items is not None and items is not None:
            nv = VVec.of(r.items + items, r.ety)
        elif r.items == []:
            nv = VVec(it.n, it.get, r.ety or it.ety)
        else:
            nv = VVec(r.n + it.n, lambda i: ite(i < r.n, r.get(i), it.get(i - r.n)), r.ety or it.ety)
        ex.store(st, pl[0], pl[1], nv)
        return R(st, UNITV)

    @m('VVec', 'retain')
    def v_retain(ex, st, fr, r, pl, a, exp, ta):
        it = VIter(r.n, r.get, None, r.ety)
        out = []
        for s, k, v in M[('VIter', 'filter')](ex, st, fr, it, None, a, exp, ta):
            if k == 'val':
                c = compact(ex, s, v)
                ex.store(s, pl[0], pl[1], VVec(c.n, c.get, r.ety))
                out.append((s, 'val', UNITV))
            else:
                out.append((s, k, v))
        return out

    @m('VVec', 'remove')
    def v_remove(ex, st, fr, r, pl, a, exp, ta):
        i = ex.rv(st, a[0]).z
        out = []
        for s, b in ex.branch(st, z3.And(i >= 0, i < r.n)):
            if not b:
                out.append((s, 'panic', 'Vec::remove out of bounds'))
                continue
            ex.store(s, pl[0], pl[1], VVec(r.n - 1, lambda j: ite(j < i, r.get(j), r.get(j + 1)), r.ety))
            out.append((s, 'val', r.get(i)))
        return out

    @m('VIter', 'for_each')
    def i_for_each(ex, st, fr, r, pl, a, exp, ta):
        def body(s, k):
            return [(s2, k2, UNITV) if k2 == 'val' else (s2, k2, v2) for s2, k2, v2 in ex.call_value(s, a[0], [r.get(k)], None, fr)]
        items = getattr(r, 'items', None)
        if items is not None and r.guard is None and len(items) <= 8:
            return ex.unroll(st, [(lambda s, x=x: ex.call_value(s, a[0], [x], None, fr)) for x in items], None)
        return ex.loop(st, fr, r.n, r.guard, body, None, {'line': 0})

    # ------------------------------------------------------------ maps
    @fn('HashMap::new BTreeMap::new HashMap::with_capacity Map::new')
    def map_new(ex, st, fr, a, exp, ta):
        k, v = (exp[1], exp[2]) if exp and exp[0] == 'map' else (None, None)
        return R(st, ex.empty_map(k, v))

    @fn('HashSet::new BTreeSet::new')
    def set_new(ex, st, fr, a, exp, ta):
        return R(st, VSet(exp[1] if exp and exp[0] == 'set' else STR, lambda q: F))

    @fn('HashMap::from BTreeMap::from')
    def map_from(ex, st, fr, a, exp, ta):
        v = ex.rv(st, a[0])
        m_ = ex.empty_map(*(exp[1:] if exp and exp[0] == 'map' else (None, None)))
        if v.items is None:
            raise Unsupported('HashMap::from symbolic')
        for x in v.items:
            m_ = ex.map_insert(m_, ex.keyterm(st, x.es[0]), ex.deref(st, x.es[1]))
        return R(st, m_)

    @m('VMap', 'get')
    def m_get(ex, st, fr, r, pl, a, exp, ta):
        if r.items == []:
            return R(st, none(r.vty))
        k = ex.keyterm(st, a[0])
        return R(st, opt_cond(r.has(k), r.at(k)))

    @m('VMap', 'get_mut')
    def m_get_mut(ex, st, fr, r, pl, a, exp, ta):
        k = ex.keyterm(st, a[0])
        return [(s, 'val', some(VRef(pl[0], pl[1] + (('m', k),))) if b else none()) for s, b in ex.branch(st, r.has(k))]

    @m('VMap', 'contains_key')
    def m_has(ex, st, fr, r, pl, a, exp, ta): return R(st, VBool(r.has(ex.keyterm(st, a[0]))))

    @m('VMap', 'insert')
    def m_insert(ex, st, fr, r, pl, a, exp, ta):
        k = ex.keyterm(st, a[0])
        if r.kty is None:
            r.kty = ex.deref(st, a[0]).ty
        old = none(r.vty) if r.items == [] else opt_cond(r.has(k), r.at(k))
        ex.store(st, pl[0], pl[1], ex.map_insert(r, k, ex.deref(st, a[1])))
        return R(st, old)

    @m('VMap', 'remove')
    def m_remove(ex, st, fr, r, pl, a, exp, ta):
        k = ex.keyterm(st, a[0])
        old = none(r.vty) if r.items == [] else opt_cond(r.has(k), r.at(k))
        ex.store(st, pl[0], pl[1], VMap(r.kty, r.vty, lambda q: z3.And(q != k, r.has(q)), r.at, items=[] if r.items == [] else None))
        return R(st, old)

    @m('VMap', 'retain')
    def m_retain(ex, st, fr, r, pl, a, exp, ta):
        ks = sort_of(r.kty)
        k = app(f'rk{W.uid()}', list(ex.ctx), r.kty)
        kz = to_term(k)
        s = st.fork()
        s.add(r.has(kz))
        base = len(s.pc)
        cells = dict(s.cells)
        ex.ctx.append(kz)
        try:
            rs = ex.call_value(s, a[0], [k, r.at(kz)], None, fr)
        finally:
            ex.ctx.pop()
        pan = [x for x in rs if x[1] == 'panic']
        vals = [x for x in rs if x[1] == 'val']
        for s2, _, _ in vals:
            if any(not (s2.cells[c] is cells[c] or same(s2.cells[c], cells[c])) for c in cells):
                raise Unsupported('retain closure with effects')
        p = ex.rv(vals[-1][0], vals[-1][2]).z
        for s2, _, x in reversed(vals[:-1]):
            p = z3.If(z3.And(s2.pc[base:]), ex.rv(s2, x).z, p)
        keep = lambda q: z3.substitute(p, (kz, q))
        ex.store(st, pl[0], pl[1], VMap(r.kty, r.vty, lambda q: z3.And(r.has(q), keep(q)), r.at, items=[] if r.items == [] else None))
        return R(st, UNITV) + pan

    @m('VMap', 'len')
    def m_len(ex, st, fr, r, pl, a, exp, ta):
        st.add(*r.enum())
        return R(st, VInt(r.n, 'usize'))

    @m('VMap', 'is_empty')
    def m_is_empty(ex, st, fr, r, pl, a, exp, ta):
        q = z3.Const(f'q!{W.uid()}', sort_of(r.kty))
        return R(st, VBool(z3.Not(z3.Exists([q], r.has(q)))))

    @m('VMap', 'keys into_keys')
    def m_keys(ex, st, fr, r, pl, a, exp, ta):
        st.add(*r.enum())
        return R(st, VIter(r.n, lambda i: wrap(r.kty, r.key(i)), None, r.kty))

    @m('VMap', 'values into_values')
    def m_values(ex, st, fr, r, pl, a, exp, ta):
        st.add(*r.enum())
        return R(st, VIter(r.n, lambda i: r.at(r.key(i)), None, r.vty))

    @m('VMap', 'entry')
    def m_entry(ex, st, fr, r, pl, a, exp, ta):
        return R(st, VOpaque('Entry', (pl, ex.keyterm(st, a[0]), ex.deref(st, a[0]))))

    def entry_or(ex, st, fr, r, mk):
        pl, k, kv = r.data
        mp = ex.rv(st, ex.load(st, *pl))
        out = []
        for s, b in ex.branch(st, mp.has(k)):
            if not b:
                for s2, k2, v2 in mk(s):
                    if k2 != 'val':
                        out.append((s2, k2, v2))
                        continue
                    ex.store(s2, pl[0], pl[1], ex.map_insert(mp, k, ex.deref(s2, v2)))
                    out.append((s2, 'val', VRef(pl[0], pl[1] + (('m', k),))))
            else:
                out.append((s, 'val', VRef(pl[0], pl[1] + (('m', k),))))
        return out

    @m('Entry', 'or_default')
    def e_or_default(ex, st, fr, r, pl, a, exp, ta):
        mp = ex.rv(st, ex.load(st, *r.data[0]))
        return entry_or(ex, st, fr, r, lambda s: R(s, ex.default(s, mp.vty, fr)))

    @m('Entry', 'or_insert')
    def e_or_insert(ex, st, fr, r, pl, a, exp, ta):
        return entry_or(ex, st, fr, r, lambda s: R(s, a[0]))

    @m('Entry', 'or_insert_with')
    def e_or_insert_with(ex, st, fr, r, pl, a, exp, ta):
        return entry_or(ex, st, fr, r, lambda s: ex.call_value(s, a[0], [], None, fr))

    @m('VRange', 'contains')
    def rng_contains(ex, st, fr, r, pl, a, exp, ta):
        x = ex.rv(st, a[0]).z
        return R(st, VBool(z3.And(*([r.lo.z <= x] if r.lo is not None else []), *([x <= r.hi.z if r.incl else x < r.hi.z] if r.hi is not None else []), T)))

    @m('VMap', 'extend')
    def mp_extend(ex, st, fr, r, pl, a, exp, ta):
        o = ex.rv(st, a[0])
        if not isinstance(o, VMap):
            raise Unsupported('map extend')
        x = VMap(r.kty, r.vty or o.vty, lambda q: z3.Or(r.has(q), o.has(q)),
                 lambda q: o.at(q) if r.items == [] else (r.at(q) if o.items == [] else ite(o.has(q), o.at(q), r.at(q))))
        if r.base is None and getattr(o, 'bulk', None) and o.base.items == []:
            x.base, x.bulk = r, o.bulk
        ex.store(st, pl[0], pl[1], x)
        return R(st, UNITV)

    @m('VMap', 'clear')
    def mp_clear(ex, st, fr, r, pl, a, exp, ta):
        ex.store(st, pl[0], pl[1], ex.empty_map(r.kty, r.vty))
        return R(st, UNITV)

    @m('VSet', 'contains')
    def set_has(ex, st, fr, r, pl, a, exp, ta): return R(st, VBool(r.has(ex.keyterm(st, a[0]))))

    @m('VSet', 'insert')
    def set_insert(ex, st, fr, r, pl, a, exp, ta):
        k = ex.keyterm(st, a[0])
        ex.store(st, pl[0], pl[1], VSet(r.ety, lambda q: z3.Or(q == k, r.has(q))))
        return R(st, VBool(z3.Not(r.has(k))))

    @m('VSet', 'is_empty')
    def set_empty(ex, st, fr, r, pl, a, exp, ta):
        q = z3.Const(f'q!{W.uid()}', sort_of(r.ety))
        return R(st, VBool(z3.Not(z3.Exists([q], r.has(q)))))

    # ------------------------------------------------------------ defaults, boxes, misc
    @fn('Default::default')
    def def_def(ex, st, fr, a, exp, ta): return R(st, ex.default(st, exp, fr))

    for n, t in (('String', STR),):
        Fm[f'{n}::default'] = (lambda t: lambda ex, st, fr, a, exp, ta: R(st, ex.default(st, t, fr)))(t)

    @fn('Vec::default HashMap::default Option::default')
    def vdef(ex, st, fr, a, exp, ta):
        return R(st, ex.default(st, exp, fr))

    @fn('Box::new Arc::new Rc::new Some::new Into::into From::from Cow::Borrowed Cow::Owned std::convert::identity Clone::clone clone ok')
    def box(ex, st, fr, a, exp, ta): return R(st, conv(ex, st, a[0], exp))

    @fn('mem::take std::mem::take')
    def mem_take(ex, st, fr, a, exp, ta):
        c, p = ex.norm(st, (a[0].cell, a[0].path))
        v = ex.load(st, c, p)
        ex.store(st, c, p, ex.default(st, v.ty, fr))
        return R(st, v)

    @fn('mem::replace std::mem::replace')
    def mem_replace(ex, st, fr, a, exp, ta):
        c, p = ex.norm(st, (a[0].cell, a[0].path))
        v = ex.load(st, c, p)
        ex.store(st, c, p, ex.deref(st, a[1]))
        return R(st, v)

    @fn('drop mem::drop')
    def fdrop(ex, st, fr, a, exp, ta): return R(st, UNITV)

    # ------------------------------------------------------------ encodings, hashing, randomness, JSON
    @fn('Base64UrlUnpadded::encode_string')
    def b64u(ex, st, fr, a, exp, ta): return R(st, app('b64url', [bytes_term(ex, st, a[0])], STR))

    @fn('Base64::encode_string')
    def b64(ex, st, fr, a, exp, ta): return R(st, app('b64', [bytes_term(ex, st, a[0])], STR))

    def bytes_term(ex, st, v):
        v = ex.rv(st, v)
        t = to_term(v)
        if t.sort() == Str:
            return W.fn('bytes_of', [Str], U)(t)
        return t
    ex.bytes_term = bytes_term

    @fn('Base64UrlUnpadded::decode_vec')
    def b64u_dec(ex, st, fr, a, exp, ta):
        return R(st, app('b64url_decode', [to_term(ex.rv(st, a[0]))], result(('opaque', 'bytes'), ('opaque', 'base64ct::Error'))))

    @fn('Sha256::digest')
    def sha(ex, st, fr, a, exp, ta): return R(st, app('sha256', [bytes_term(ex, st, a[0])], ('opaque', 'digest')))

    @fn('fastrand::usize')
    def frand(ex, st, fr, a, exp, ta):
        r = ex.rv(st, a[0])
        v = ex.fresh(('int', 'usize'), 'rand')
        lo = r.lo.z if r.lo is not None else z3.IntVal(0)
        hi = None
        if r.hi is not None:
            hi = r.hi.z if r.incl else r.hi.z - 1
        out = []
        for s, b in ex.branch(st, lo <= hi if hi is not None else T):
            if not b:
                out.append((s, 'panic', 'fastrand: empty range'))
                continue
            s.add(v.z >= lo)
            if hi is not None:
                s.add(v.z <= hi)
            ex.draws.append((v.z.decl().name(), lo, hi, list(ex.ctx)))
            out.append((s, 'val', v))
        return out

    JV = ('adt', 'serde_json::Value', ())
    JE = ('opaque', 'serde_json::Error')

    @fn('serde_json::to_value')
    def to_value(ex, st, fr, a, exp, ta):
        x = ex.rv(st, a[0])
        if isinstance(x, VStr):
            return R(st, ok(VEnum(JV, {'String': (T, {'0': x})})))
        z = to_term(x)
        # (what was serialised, for the contracts)
        st.ghost['jsoned'] = st.ghost.get('jsoned', ()) + ((x, z),)
        return R(st, app(f'to_json<{tname(x.ty)}>', [z], result(JV, JE)))

    @fn('serde_json::from_value serde_json::from_str serde_json::from_slice')
    def from_json(ex, st, fr, a, exp, ta):
        t = ta[0] if ta else (exp[2][0] if exp and exp[0] == 'adt' and exp[1] == 'Result' else None)
        x = ex.rv(st, a[0])
        return R(st, app(f'from_json<{tname(t)}>', [to_term(x)], result(t, JE)))

    @fn('serde_json::to_string serde_json::to_vec')
    def to_json_str(ex, st, fr, a, exp, ta):
        x = ex.rv(st, a[0])
        if isinstance(x, VStr):
            return R(st, ok(app('json', [x.z], STR), JE))
        return R(st, app(f'to_json_str<{tname(x.ty)}>', [to_term(x)], result(STR, JE)))

    def jget(name, var):
        def f(ex, st, fr, r, pl, a, exp, ta):
            if var not in r.vs:
                return R(st, none())
            return R(st, opt_cond(r.vs[var][0], r.vs[var][1]['0']))
        M[('serde_json::Value', name)] = f
    jget('as_str', 'String')
    jget('as_bool', 'Bool')
    jget('as_array', 'Array')
    jget('as_object', 'Object')

    def jis(name, var):
        def f(ex, st, fr, r, pl, a, exp, ta):
            return R(st, VBool(r.cond(var)))
        M[('serde_json::Value', name)] = f
    for n, v in (('is_string', 'String'), ('is_null', 'Null'), ('is_array', 'Array'), ('is_object', 'Object'), ('is_boolean', 'Bool'), ('is_number', 'Number')):
        jis(n, v)

    @m('serde_json::Value', 'get')
    def j_get(ex, st, fr, r, pl, a, exp, ta):
        mp = r.vs['Object'][1]['0'] if 'Object' in r.vs else None
        if mp is None:
            return R(st, none(JV))
        k = ex.keyterm(st, a[0])
        return R(st, opt_cond(z3.And(r.vs['Object'][0], mp.has(k)), mp.at(k)))

    @fn('Uuid::new_v4')
    def uuid(ex, st, fr, a, exp, ta):
        u = ex.fresh(('opaque', 'Uuid'), 'uuid')
        st.ghost['uuids'] = st.ghost.get('uuids', ()) + (to_term(u),)
        return R(st, u)

    @fn('Ok Err')
    def okerr(ex, st, fr, a, exp, ta): raise Unsupported('Ok as path')

    # method paths used as function values: `String::is_empty`, `Vec::is_empty`, `Option::is_some` ...
