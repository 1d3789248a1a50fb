"""Shared by the verifier properties."""
from iss import *

OV = 'vercre_openid::verifier::'
VSTATE = adt('vercre_verifier::state::State')
W3 = 'vercre_w3c_vc::'
VC, VP = adt(W3 + 'model::vc::VerifiableCredential'), adt(W3 + 'model::vp::VerifiablePresentation')
PAY = adt(W3 + 'proof::Payload')
JV = adt('serde_json::Value')
ASSUMPTIONS = ['the state store returns what was put under a key until it is purged; puts and purges may fail at any call',
               'metadata look-ups are functions of their arguments within one request',
               'generated values (C02, UUIDs) collide with nothing',
               'the clock does not run backwards']


def vstored(key): return N(V.app('store0', [key], result(VSTATE, prov.AE)))
def verified(kind, term): return N(V.app('proof_verify', [kind, term], result(PAY, ANY)))
