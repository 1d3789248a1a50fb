"""Shared by the wallet properties."""
from iss import *

HI, HP = 'vercre_holder::issuance::', 'vercre_holder::presentation::'
ISS, PRES = adt(HI + 'Issuance'), adt(HP + 'Presentation')
CRED = adt('vercre_holder::credential::Credential')
ASSUMPTIONS = ['the state store returns what was put under a key until it is purged; puts and purges may fail at any call',
               'what an issuer, verifier or credential store answers is a function of what it is asked, within one call of an endpoint',
               'generated values (UUIDs) collide with nothing',
               'the clock does not run backwards']


def flow(key): return N(V.app('store0', [key], result(ISS, prov.AE)))
def pres(key): return N(V.app('store0', [key], result(PRES, prov.AE)))
def uuids(s): return [W.fn('display<Uuid>', [u.sort()], Str)(u) for u in s.ghost.get('uuids', ())]
def calls(s, name): return [(a, N(v)) for n, a, v in s.ghost.get('calls', ()) if n == name]


def same_but(a, b, *fields):
    """two records agree in all fields except those named"""
    return z3.And([N(a._f.f[f]).eq(N(b._f.f[f])) for f in a._f.f if f not in fields])


def answered(s): return z3.And([v.is_('Ok') for _, _, v in ()] + [N(v).is_('Ok') for _, _, v in s.ghost.get('calls', ())])


def forever(exp, now): return N(exp).z >= now


def start():
    import iss
    st, now0 = iss.start()
    st.add(now0 < 2**62 * 1000)
    return st, now0
