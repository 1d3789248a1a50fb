"""URL encoding of records: contracts on every method of the serializer, composed into the record theorem."""
from common import *

DRIVER = ('core',)
SER = 'vercre_core::urlencode::ser::Serializer'
FULL = frozenset(b for b in range(128) if not (chr(b).isalnum() or chr(b) in '-._~'))
ASSUMPTIONS = [
    'a Serialize implementation presents a value to the serializer through the serde data model protocol (start, members in order, end)',
    'percent_encoding encodes byte by byte, so it distributes over concatenation; its byte sets are evaluated from the source',
    'serde_json::to_string of a text is its JSON string literal',
    'floating point values and non-text map keys are outside the property',
    'the number of members is unbounded: start, step (arbitrary prefix) and end are separate obligations',
]
PT = ('param', 'T', ('Serialize',))


class Spec:
    def __init__(self, c):
        self.c, self.ex = c, c.ex
        self.dset = None
        d = adt_def(adt(SER))
        if d is None or sorted(n for n, _ in d[1]) != ['level', 'output']:
            raise Unsupported('the serializer state is not (output, level)')
        ex = c.ex

        def enc(v, lvl):
            return VStr([V.app('enc', [to_term(v), lvl], STR).z])
        self.enc = enc

        def ser_model(ex, st, fr, a, exp, ta):
            """assumed (induction hypothesis): appends enc(value, level) and restores the level"""
            v, r = ex.rv(st, a[0]), a[1]
            cell, path = ex.norm(st, (r.cell, r.path))
            cur = force(ex.load(st, cell, path))
            out = []
            okc = V.app(f'serok', [to_term(v)], BOOL).z
            for s, b in ex.branch(st, okc):
                if b:
                    f = dict(cur.f.items())
                    f['output'] = VStr(cur.f['output'].parts + enc(v, cur.f['level'].z).parts)
                    ex.store(s, cell, path, VStruct(cur.ty, f))
                    out.append((s, 'val', ok(UNITV)))
                else:
                    out.append((s, 'val', err(V.app('sererr', [to_term(v)], opaque('Error')))))
            return out
        ex.fn_models['Serialize::serialize'] = ser_model

        def prim(name):
            def f(ex, st, fr, r, pl, a, exp, ta):
                fn = c.prog.fns[f'<{SER} as Serializer>::' + (name(r))]
                return ex.call_fn(st, fn, [a[0], r], exp, fr, ta)
            return f
        ex.m_models[('VStr', 'serialize')] = prim(lambda r: 'serialize_str')
        ex.m_models[('VInt', 'serialize')] = prim(lambda r: 'serialize_' + (r.t if r.t != 'int' else 'u64'))
        ex.m_models[('VBool', 'serialize')] = prim(lambda r: 'serialize_bool')

    def new(self, st, out, lvl):
        return self.ex.new_cell(st, VStruct(adt(SER), {'output': out, 'level': VInt(lvl, 'usize')}))

    def call(self, st, tr, m, cell, *args):
        fn = f'<{SER} as {tr}>::{m}'
        return self.c.run(fn, [VRef(cell)] + list(args), st)

    def steps(self, name, st, cell, calls):
        """run a protocol; -> states in which every call succeeded"""
        cur = [st]
        for tr, m, *args in calls:
            nxt = []
            for s in cur:
                for s2, k, v in self.call(s, tr, m, cell, *args):
                    if k == 'panic':
                        self.c.prove(f'{name}: does not panic ({v})', s2, F)
                        continue
                    v = force(self.ex.deref(s2, v))
                    for s3, good in self.ex.branch(s2, v.cond('Ok')):
                        if good:
                            nxt.append(s3)
            cur = nxt
        return cur

    def check(self, name, st, cell, calls, want, lvl, nonbracket=False):
        ss = self.steps(name, st, cell, calls)
        if not ss:
            self.c.fail(name + ': never succeeds', 'no successful path')
        for s in ss:
            r = force(self.ex.deref(s, s.cells[cell]))
            self.c.cover(name, s)
            w = want(s) if callable(want) else want
            self.c.prove(f'{name}: appends exactly the expected text', s, eq(r.f['output'], w))
            self.c.prove(f'{name}: leaves the nesting level right', s, r.f['level'].z == lvl)


def cat(*xs):
    ps = []
    for x in xs:
        ps += [x] if isinstance(x, str) else x.parts if isinstance(x, VStr) else [x]
    return VStr(ps)


def contract(c):
    sp = Spec(c)
    ex = c.ex
    lit = lambda s: VStr(s)
    o, L = sym('out', STR), sym('lvl', ('int', 'usize')).z
    bound = [L < 2**62]
    nested, top = [L > 1], [L <= 1]
    s_, val = sym('text', STR), sym('value', PT)
    jtxt = lambda v: VStr([V.app('json', [v.z], STR).z])

    def raw(v, deep):
        """the encoded form of text after the final pass"""
        return ex.pct(jtxt(v) if deep else v, FULL)

    # the final pass of to_string, on an arbitrary output
    enc_out = {}

    def final(v):
        """what to_string makes of serializer output v (same byte set as the source uses)"""
        return ex.pct(v, enc_out['set'])

    # ---- to_string: the whole output is passed through the encoder once
    t = sym('value', PT)
    rs = c.run('vercre_core::urlencode::ser::to_string', [t])
    no_panic(c, 'to_string', rs)
    for s, v in vals(rs):
        v = force(c.ex.deref(s, v))
        for s2, good in ex.branch(s, v.cond('Ok')):
            if good:
                c.cover('to_string', s2)
                res = v.vs['Ok'][1]['0']
                e0 = sp.enc(t, z3.IntVal(0))
                if len(res.parts) == 1 and not isinstance(res.parts[0], str) and res.parts[0].decl().name().startswith('pct['):
                    nm = res.parts[0].decl().name()
                    c.prove('to_string: encodes the complete output of the value at level 0', s2, res.parts[0].arg(0) == e0.z)
                    enc_out['set'] = parse_set(nm)
                else:
                    raise Unsupported('to_string does not end in one percent-encoding pass')
                c.prove('to_string: succeeds only if the value serializes', s2, V.app('serok', [to_term(t)], BOOL).z)
            else:
                c.prove('to_string: fails only if the value does not serialize', s2, z3.Not(V.app('serok', [to_term(t)], BOOL).z))
    if 'set' not in enc_out:
        raise Unsupported('no percent-encoding pass found')

    # ---- text
    def text_at(v, deep):
        """serializer output for a text: read off the real method"""
        st = State(); st.add(L > 1 if deep else L <= 1)
        cell = sp.new(st, lit(''), L)
        ss = sp.steps('serialize_str', st, cell, [('Serializer', 'serialize_str', v)])
        if len(ss) != 1:
            raise Unsupported('serialize_str has several outcomes')
        return force(ss[0].cells[cell]).f['output']
    for deep in (False, True):
        w = text_at(s_, deep)
        where = 'nested' if deep else 'top level'
        c.prove(f'serialize_str ({where}): after the final pass every character outside the unreserved set is percent-encoded', State(), eq(final(w), raw(s_, deep)))
        st = State(); st.add(*(nested if deep else top))
        cell = sp.new(st, o, L)
        sp.check(f'serialize_str ({where})', st, cell, [('Serializer', 'serialize_str', s_)], cat(o, w), L)
        st = State(); st.add(*(nested if deep else top))
        cell = sp.new(st, o, L)
        sp.check(f'serialize_unit_variant ({where})', st, cell, [('Serializer', 'serialize_unit_variant', lit('E'), VInt(0, 'u32'), s_)], cat(o, w), L)
    tx = lambda v, deep: z3.substitute(text_at(s_, deep).z, (s_.z, v.z))
    def text(v, deep):
        return VStr([tx(v, deep)]) if not isinstance(v, str) else text_at(lit(v), deep)
    # ---- scalars
    for ty_ in ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'):
        n = sym('num_' + ty_, ('int', ty_))
        st = State(); cell = sp.new(st, o, L)
        sp.check('serialize_' + ty_, st, cell, [('Serializer', 'serialize_' + ty_, n)], cat(o, VStr([V.app('int2str', [n.z], STR).z])), L)
    b = sym('flag', BOOL)
    st = State(); cell = sp.new(st, o, L)
    sp.check('serialize_bool', st, cell, [('Serializer', 'serialize_bool', b)], cat(o, VStr([z3.If(b.z, W.lit('true'), W.lit('false'))])), L)
    for m, args in (('serialize_none', []), ('serialize_unit', []), ('serialize_unit_struct', [lit('N')])):
        st = State(); cell = sp.new(st, o, L)
        sp.check(m, st, cell, [('Serializer', m, *args)], cat(o, 'null'), L)
    for m, args in (('serialize_some', []), ('serialize_newtype_struct', [lit('N')])):
        st = State(); cell = sp.new(st, o, L)
        sp.check(m, st, cell, [('Serializer', m, *args, val)], cat(o, sp.enc(val, L)), L)
    # ---- syntax characters are encoded by the final pass exactly when nested
    for ch in '[]{},:':
        c.prove(f'to_string: {ch!r} is percent-encoded', State(), eq(final(lit(ch)), VStr(f'%{ord(ch):02X}')))
    for ch in '&=':
        c.prove(f'to_string: the separator {ch!r} is kept', State(), eq(final(lit(ch)), VStr(ch)))
    # ---- lists.  Text written at nested level never ends with an opening bracket (hypothesis for members)
    v1, v2 = sym('v1', PT), sym('v2', PT)
    M = L + 1
    inv = []
    for x in (v1, v2, val):
        for l in (L, M):
            e = sp.enc(x, l).z
            inv += [e != W.lit('')] + [z3.Not(V.app('str.ends_with', [e, W.lit(ch)], BOOL).z) for ch in '[{']
    for x in (s_, sym('k1', STR), sym('k2', STR)):
        w = text_at(x, True)
        inv += [z3.Not(V.app('str.ends_with', [w.z, W.lit(ch)], BOOL).z) for ch in '[{']
    seqs = [('serialize_seq', [none(('int', 'usize'))], 'SerializeSeq', 'serialize_element'),
            ('serialize_tuple', [VInt(2, 'usize')], 'SerializeTuple', 'serialize_element'),
            ('serialize_tuple_struct', [lit('N'), VInt(2, 'usize')], 'SerializeTupleStruct', 'serialize_field')]
    for start, args, tr, el in seqs:
        for items in ([], [v1], [v1, v2]):
            st = State(); st.add(L >= 1, *bound, *inv)
            cell = sp.new(st, o, L)
            want = [o, '[']
            for i, x in enumerate(items):
                want += ([','] if i else []) + [sp.enc(x, M)]
            sp.check(f'{start} with {len(items)} elements', st, cell, [('Serializer', start, *args)] + [(tr, el, x) for x in items] + [(tr, 'end')], cat(*want, ']'), L)
        st = State(); st.add(L >= 2, *bound, *inv)
        cell = sp.new(st, cat(o, sp.enc(v1, L)), L)
        sp.check(f'{tr}: step after any prefix', st, cell, [(tr, el, v2)], cat(o, sp.enc(v1, L), ',', sp.enc(v2, L)), L)
    # ---- objects nested in a parameter, and the top-level record
    k1, k2 = sym('k1', STR), sym('k2', STR)
    J1, J2 = text_at(k1, True), text_at(k2, True)
    T1, T2 = text_at(k1, False), text_at(k2, False)
    def members(tr, ks):
        out = []
        for k, v in ks:
            if tr == 'SerializeMap':
                out += [(tr, 'serialize_key', k), (tr, 'serialize_value', v)]
            else:
                out += [(tr, 'serialize_field', k, v)]
        return out
    objs = [('serialize_map', [none(('int', 'usize'))], 'SerializeMap'), ('serialize_struct', [lit('N'), VInt(2, 'usize')], 'SerializeStruct')]
    for start, args, tr in objs:
        for ks in ([], [(k1, v1)], [(k1, v1), (k2, v2)]):
            st = State(); st.add(L >= 1, *bound, *inv)
            cell = sp.new(st, o, L)
            want = [o, '{']
            for i, (k, v) in enumerate(ks):
                want += ([','] if i else []) + [text_at(k, True), ':', sp.enc(v, M)]
            sp.check(f'{start} nested with {len(ks)} members', st, cell, [('Serializer', start, *args)] + members(tr, ks) + [(tr, 'end')], cat(*want, '}'), L)
        st = State(); st.add(L >= 2, *bound, *inv)
        cell = sp.new(st, cat(o, sp.enc(v1, L)), L)
        sp.check(f'{tr}: nested step after any prefix', st, cell, members(tr, [(k2, v2)]), cat(o, sp.enc(v1, L), ',', J2, ':', sp.enc(v2, L)), L)
        # top level
        one = z3.IntVal(1)
        for ks in ([], [(k1, v1)], [(k1, v1), (k2, v2)]):
            st = State(); st.add(k1.z != W.lit(''), k2.z != W.lit(''))
            cell = sp.new(st, lit(''), z3.IntVal(0))
            want = []
            for i, (k, v) in enumerate(ks):
                want += (['&'] if i else []) + [text_at(k, False), '=', sp.enc(v, one)]
            ss = sp.steps(f'{start} at top level', st, cell, [('Serializer', start, *args)] + members(tr, ks) + [(tr, 'end')])
            for s in ss:
                c.cover(f'{start} at top level', s)
                c.prove(f'{start} at top level with {len(ks)} members: key=value pairs joined by &', s, eq(force(s.cells[cell]).f['output'], cat(*want)))
        st = State(); st.add(k2.z != W.lit(''))
        cell = sp.new(st, cat(o, '=', sp.enc(v1, one)), one)
        sp.check(f'{tr}: top-level step after any prefix', st, cell, members(tr, [(k2, v2)]), cat(o, '=', sp.enc(v1, one), '&', T2, '=', sp.enc(v2, one)), one)
    # ---- enum variants nested in a parameter
    E = [lit('E'), VInt(0, 'u32')]
    JV = text_at(s_, True)
    st = State(); st.add(L >= 1, *bound, *inv); cell = sp.new(st, o, L)
    sp.check('serialize_newtype_variant nested', st, cell, [('Serializer', 'serialize_newtype_variant', *E, s_, val)], cat(o, '{', JV, ':', sp.enc(val, M), '}'), L)
    for items in ([v1], [v1, v2]):
        st = State(); st.add(L >= 1, *bound, *inv); cell = sp.new(st, o, L)
        w = [o, '{', JV, ':[']
        for i, x in enumerate(items):
            w += ([','] if i else []) + [sp.enc(x, M)]
        sp.check(f'serialize_tuple_variant nested, {len(items)} fields', st, cell, [('Serializer', 'serialize_tuple_variant', *E, s_, VInt(2, 'usize'))] +
                 [('SerializeTupleVariant', 'serialize_field', x) for x in items] + [('SerializeTupleVariant', 'end')], cat(*w, ']}'), L)
        st = State(); st.add(L >= 1, *bound, *inv); cell = sp.new(st, o, L)
        w = [o, '{', JV, ':{']
        ks = [(k1, v1), (k2, v2)][:len(items)]
        for i, (k, v) in enumerate(ks):
            w += ([','] if i else []) + [text_at(k, True), ':', sp.enc(v, M)]
        sp.check(f'serialize_struct_variant nested, {len(items)} fields', st, cell, [('Serializer', 'serialize_struct_variant', *E, s_, VInt(2, 'usize'))] +
                 [('SerializeStructVariant', 'serialize_field', k, v) for k, v in ks] + [('SerializeStructVariant', 'end')], cat(*w, '}}'), L)


def parse_set(nm):
    body = nm[4:-1]
    out, i = set(), 0
    while i < len(body):
        if body[i] == '<' and '>' in body[i:] and body[i+1:body.index('>', i)].isdigit():
            j = body.index('>', i)
            out.add(int(body[i+1:j]))
            i = j + 1
        else:
            out.add(ord(body[i]))
            i += 1
    return frozenset(out)
