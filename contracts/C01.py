"""Quota/Kind: a Quota is a non-lossy sequence; add appends exactly one element."""
from common import *

DRIVER = ('core',)
Q = adt('vercre_core::Quota', opaque('T'))
K = adt('vercre_core::Kind', opaque('T'))
ASSUMPTIONS = ['Clone of an element yields an equal element',
               'serde(untagged) representation (element alone or array) is checked on the real code, bounded, not proved']


def view(q):
    """ghost view: (length, element function)"""
    q = force(q)
    one, many = q.cond('One'), q.cond('Many')
    x = q.vs['One'][1]['0'] if 'One' in q.vs else None
    v = q.vs['Many'][1]['0'] if 'Many' in q.vs else None
    if v is None:
        return one, z3.IntVal(1), lambda i: x
    if x is None:
        return one, v.n, lambda i: v.get(i)
    return one, z3.If(one, 1, v.n), lambda i: ite(one, x, v.get(i))


def contract(c):
    me = sym('self', Q)
    one0, n0, at0 = view(me)
    P = 'vercre_core::Quota::'
    st = State()
    cell = c.ex.new_cell(st, me)
    item = sym('item', opaque('T'))
    rs = c.run(P + 'add', [VRef(cell), item], st)
    no_panic(c, 'Quota::add', rs)
    for s, _ in vals(rs):
        c.cover('Quota::add', s)
        one1, n1, at1 = view(s.cells[cell])
        c.prove('Quota::add: length grows by exactly one', s, n1 == n0 + 1)
        c.prove('Quota::add: every earlier element is kept, in order', s, forall(n0, lambda i: eq(at1(i), at0(i))))
        c.prove('Quota::add: the added element is last', s, eq(at1(n0), item))
        c.prove('Quota::add: the result is a set', s, z3.Not(one1))
    for f, spec in (('len', lambda v: v.z == n0), ('is_empty', lambda v: v.z == (n0 == 0)),
                    ('is_one', lambda v: v.z == one0), ('is_many', lambda v: v.z == z3.Not(one0))):
        rs = c.run(P + f, [me])
        no_panic(c, 'Quota::' + f, rs)
        for s, v in vals(rs):
            c.cover('Quota::' + f, s)
            c.prove(f'Quota::{f}: agrees with the element sequence', s, spec(deref(c, s, v)))
    k = sym('kind', K)
    isstr = force(k).cond('String')
    for f, want in (('is_string', isstr), ('is_object', z3.Not(isstr))):
        rs = c.run('vercre_core::Kind::' + f, [k])
        no_panic(c, 'Kind::' + f, rs)
        for s, v in vals(rs):
            c.prove(f'Kind::{f}: agrees with the variant', s, deref(c, s, v).z == want)
