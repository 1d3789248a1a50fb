import z3
from rvc.src import Unsupported
from rvc.val import *
from rvc import val as V
from rvc.ex import State, Frame, T, F
from rvc.check import LIT_FACTS


def adt(path, *args): return ('adt', path, tuple(args))
def opaque(n): return ('opaque', n)
def sym(name, t): return V.app(name, [], t)


def deref(c, st, v): return force(c.ex.deref(st, v))


def forall(n, f, hint='i'):
    """for all 0 <= i < n: f(i)"""
    i = z3.Int(f'{hint}!{W.uid()}')
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f(i)))


def no_panic(c, name, rs):
    for s, k, v in rs:
        if k == 'panic':
            c.prove(f'{name}: does not panic ({v})', s, F)


def vals(rs): return [(s, v) for s, k, v in rs if k == 'val']


def chars(s): return V.app('chars', [s.z], ('vec', ('int', 'char')))
