"""Generates invocations of the request macros: well-formed ones with the request they must build, and malformed ones
that must be compile errors."""
import json, random

CONSTS = {'ISSUER': 'http://vercre.io', 'CLIENT': '96bfb9cb', 'USER': 'normal_user', 'EMPTY': ''}
WORDS = ['a', 'EmployeeID_JWT', 'Developer_JWT', 'x y', 'q"t', 'b\\s', '{}', 'http://localhost:3000/cb?a=1&b=2', '', 'ünï', 'given_name', '0']
PRE, AUTH = 'urn:ietf:params:oauth:grant-type:pre-authorized_code', 'authorization_code'


def lit(s):
    return json.dumps(s, ensure_ascii=False)


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def text(self):
        """(source, value) of a string-valued argument"""
        k = self.r.random()
        if k < .55:
            w = self.r.choice(WORDS)
            return lit(w), w
        if k < .75:
            c = self.r.choice(list(CONSTS))
            return self.r.choice(['', '&']) + c, CONSTS[c]
        w = self.r.choice(WORDS)
        return self.r.choice([f'String::from({lit(w)})', f'helper({lit(w)})', f'helper({lit(w)}).clone()']), w

    def strs(self, lo=1):
        n = self.r.choice([lo, 1, 2, 3, 4, 6])
        ws = [self.r.choice(WORDS) for _ in range(max(n, lo))]
        return '[' + self.join([lit(w) for w in ws]) + ']', ws

    def join(self, xs):
        return ', '.join(xs) + (',' if xs and self.r.random() < .3 else '')

    def obj(self, pairs, keep=False):
        pairs = list(pairs)
        if not keep:
            self.r.shuffle(pairs)
        return '{' + self.join([f'{lit(k)}: {v}' for k, v in pairs]) + '}'

    def claims(self, depth=0):
        keys = self.r.sample(['given_name', 'family_name', 'address', 'locality', 'x y', 'email'], self.r.choice([1, 1, 2, 3] if depth else [0, 1, 2, 3, 6]))
        src, val = [], {}
        for k in keys:
            if depth < 3 and self.r.random() < .35:
                s, v = self.claims(depth + 1)
            else:
                s, v = '{}', None
            src.append((k, s))
            val[k] = v
        return self.obj(src), val

    def definition(self, need_type, context=False):
        src, val = [], {'context': None, 'type': None, 'subject': None}
        if need_type or self.r.random() < .5:
            s, v = self.strs()
            src.append(('type', s)); val['type'] = v
        if self.r.random() < .7:
            s, v = self.claims()
            src.append(('credentialSubject', s)); val['subject'] = v
        return self.obj(src), val

    def detail(self):
        src = [('type', lit('openid_credential'))]
        if self.r.random() < .6:
            w = self.r.choice(WORDS)
            src.append(('credential_configuration_id', lit(w)))
            val = {'id': w, 'claims': None}
            if self.r.random() < .6:
                s, v = self.definition(False)
                src.append(('credential_definition', s)); val['claims'] = {'w3c': v}
        else:
            s, v = self.definition(True)
            src += [('format', lit('jwt_vc_json')), ('credential_definition', s)]
            val = {'format': {'jwt_vc_json': v}}
        return self.obj(src), {'type': 'OpenIdCredential', 'credential': val, 'locations': None}

    def details(self):
        n = self.r.choice([0, 1, 1, 2, 3, 5])
        ds = [self.detail() for _ in range(n)]
        return '[' + self.join([s for s, _ in ds]) + ']', [v for _, v in ds]

    def fields(self, spec):
        """spec: [(json key, field, required)] -> pairs, values"""
        src, val = [], {}
        for k, f, req in spec:
            if req or self.r.random() < .6:
                s, v = self.text()
                src.append((k, s)); val[f] = v
            else:
                val[f] = None
        return src, val

    def create_offer(self):
        src, val = self.fields([('credential_issuer', 'credential_issuer', True), ('subject_id', 'subject_id', False)])
        s, v = self.strs()
        src.append(('credential_configuration_ids', s)); val['credential_configuration_ids'] = v
        val.update(grant_types=None, tx_code_required=False, send_type='ByVal')
        if self.r.random() < .7:
            g = [self.r.choice([PRE, AUTH]) for _ in range(self.r.choice([0, 1, 2, 3, 5]))]
            src.append(('grant_types', '[' + self.join([lit(x) for x in g]) + ']'))
            val['grant_types'] = ['PreAuthorizedCode' if x == PRE else 'AuthorizationCode' for x in g]
        if self.r.random() < .6:
            b = self.r.random() < .5
            src.append(('tx_code_required', self.r.choice(['true' if b else 'false', 'YES' if b else 'NO']))); val['tx_code_required'] = b
        if self.r.random() < .6:
            t = self.r.choice(['ByVal', 'ByRef'])
            src.append(('send_type', f'vercre_issuer::SendType::{t}')); val['send_type'] = t
        return src, val

    def authorization(self):
        ks = ['credential_issuer', 'response_type', 'client_id', 'code_challenge', 'code_challenge_method', 'subject_id']
        os = ['redirect_uri', 'state', 'scope', 'resource', 'wallet_issuer', 'user_hint', 'issuer_state']
        src, val = self.fields([(k, k, True) for k in ks] + [(k, k, False) for k in os])
        src = [(k, {'response_type': '"code"', 'code_challenge_method': '"S256"'}.get(k, s)) for k, s in src]
        val.update(response_type='code', code_challenge_method='S256')
        val['authorization_details'] = None
        if self.r.random() < .8:
            s, v = self.details()
            src.append(('authorization_details', s)); val['authorization_details'] = v
        return src, val

    def token(self):
        src, val = self.fields([('credential_issuer', 'credential_issuer', True), ('client_id', 'client_id', False)])
        if self.r.random() < .5:
            a, v = self.fields([('pre-authorized_code', 'code', True), ('tx_code', 'tx_code', False)])
            src += [('grant_type', lit(PRE))] + a; val['grant_type'] = {'pre': v}
        else:
            a, v = self.fields([('code', 'code', True), ('redirect_uri', 'redirect_uri', False), ('code_verifier', 'code_verifier', True)])
            src += [('grant_type', lit(AUTH))] + a; val['grant_type'] = {'auth': v}
        val['authorization_details'], val['client_assertion'] = None, None
        if self.r.random() < .8:
            s, v = self.details()
            src.append(('authorization_details', s)); val['authorization_details'] = v
        return src, val

    def credential(self):
        src, val = self.fields([('credential_issuer', 'credential_issuer', True), ('access_token', 'access_token', True)])
        if self.r.random() < .4:
            s, v = self.text()
            src.append(('credential_identifier', s)); val['credential'] = {'id': v}
        else:
            s, v = self.definition(True)
            src += [('format', lit('jwt_vc_json')), ('credential_definition', s)]; val['credential'] = {'format': {'jwt_vc_json': v}}
        val['proof'], val['encryption'] = None, None
        if self.r.random() < .7:
            s, v = self.text()
            src.append(('proof', self.obj([('proof_type', lit('jwt')), ('jwt', s)]))); val['proof'] = v
        return src, val


MACROS = {'create_offer': 'create_offer_request', 'authorization': 'authorization_request', 'token': 'token_request', 'credential': 'credential_request'}
FIELDS = {'create_offer': ['credential_issuer', 'subject_id', 'credential_configuration_ids', 'grant_types', 'tx_code_required', 'send_type'],
          'authorization': ['credential_issuer', 'response_type', 'client_id', 'code_challenge', 'code_challenge_method', 'subject_id', 'redirect_uri', 'state', 'scope',
                            'resource', 'wallet_issuer', 'user_hint', 'issuer_state', 'authorization_details'],
          'token': ['credential_issuer', 'client_id', 'grant_type', 'pre-authorized_code', 'tx_code', 'code', 'redirect_uri', 'code_verifier', 'authorization_details'],
          'credential': ['credential_issuer', 'access_token', 'credential_identifier', 'format', 'credential_definition', 'proof', 'credential_response_encryption']}
REQUIRED = {'create_offer': ['credential_issuer', 'credential_configuration_ids'],
            'authorization': ['credential_issuer', 'response_type', 'client_id', 'code_challenge', 'code_challenge_method', 'subject_id'],
            'token': ['credential_issuer', 'grant_type', 'pre-authorized_code', 'code', 'code_verifier'],
            'credential': ['credential_issuer', 'access_token']}


def good(seed, n):
    g = G(seed)
    out = []
    for i in range(n):
        kind = list(MACROS)[i % 4]
        src, val = getattr(g, kind)()
        out.append((kind, g.obj(src), val))
    return out


def bad(seed, n):
    g = G(seed)
    out = []
    def put(kind, what, src):
        out.append((kind, what, g.obj(src)))
    def base(kind):
        src, _ = getattr(g, kind)()
        return dict(src)
    for rnd in range(n):
        for kind in MACROS:
            for k in REQUIRED[kind]:
                b = base(kind)
                if k in b:
                    b.pop(k); put(kind, f'`{k}` missing', b.items())
            unknown = ['extra', 'credential_issuers', '', 'Scope', 'client_assertion', 'format2', 'credential_issuer ', '_comment', 'type', '@context', 'nonce']
            unknown += sorted(set(k for o in MACROS for k in FIELDS[o]) - set(FIELDS[kind]))
            for u in unknown if rnd == 0 else g.r.sample(unknown, 3):
                b = base(kind); b[u] = '"1"'; put(kind, f'unknown field `{u}`', b.items())
        b = base('create_offer')
        for what, k, v in [('ids not a list', 'credential_configuration_ids', '"x"'), ('ids empty', 'credential_configuration_ids', '[]'),
                           ('unsupported grant type', 'grant_types', '["authorization_code", "implicit"]'), ('unsupported grant type', 'grant_types', '["password"]'), ('unsupported grant type', 'grant_types', '["Authorization_code"]'),
                           ('unsupported grant type', 'grant_types', '["authorization_code", "authorization_code "]'), ('unsupported grant type', 'grant_types', '["pre-authorized_code"]'), ('unsupported grant type', 'grant_types', '[""]'),
                           ('grant types not a list', 'grant_types', '"authorization_code"'), ('grant type not text', 'grant_types', '[1]'),
                           ('grant type not text', 'grant_types', '["authorization_code", true]')]:
            put('create_offer', what, {**b, k: v}.items())
        for kind in ('authorization', 'token'):
            b = base(kind)
            def d(what, det):
                ok = '{"type": "openid_credential", "credential_configuration_id": "c"}'
                put(kind, what, {**b, 'authorization_details': g.r.choice([f'[{det}]', f'[{ok}, {det}]', f'[{det}, {ok}]'])}.items())
            put(kind, 'details not a list', {**b, 'authorization_details': '{"type": "openid_credential", "credential_configuration_id": "c"}'}.items())
            put(kind, 'details not a list', {**b, 'authorization_details': '"x"'}.items())
            d('detail not an object', '"x"')
            d('detail without type', '{"credential_configuration_id": "c"}')
            d('detail of another type', '{"type": "openid", "credential_configuration_id": "c"}')
            d('detail of another type', '{"type": "", "format": "jwt_vc_json", "credential_definition": {"type": ["a"]}}')
            for t in ('openid_credentials', 'openid_credential ', 'OpenID_credential', 'openid', 'credential'):
                d('detail of another type', f'{{"type": {lit(t)}, "credential_configuration_id": "c"}}')
            for t in ('jwt_vc_json-ld', 'jwt_vc', 'JWT_VC_JSON', 'mso_mdoc', 'dc+sd-jwt'):
                d('unknown format', f'{{"type": "openid_credential", "format": {lit(t)}, "credential_definition": {{"type": ["a"]}}}}')
            d('neither id nor format', '{"type": "openid_credential"}')
            d('neither id nor format', '{"type": "openid_credential", "credential_definition": {"type": ["a"]}}')
            d('format without definition', '{"type": "openid_credential", "format": "jwt_vc_json"}')
            d('unknown format', '{"type": "openid_credential", "format": "ldp-vc", "credential_definition": {"type": ["a"]}}')
            d('unknown format', '{"type": "openid_credential", "format": "", "credential_definition": {"type": ["a"]}}')
            d('definition not an object', '{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": "x"}')
            d('definition not an object', '{"type": "openid_credential", "credential_configuration_id": "c", "credential_definition": ["x"]}')
            d('format definition without type', '{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"credentialSubject": {}}}')
            d('subject not an object', '{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": ["a"], "credentialSubject": ["x"]}}')
            d('subject not an object', '{"type": "openid_credential", "credential_configuration_id": "c", "credential_definition": {"credentialSubject": "x"}}')
        b = base('token')
        for k in ('pre-authorized_code', 'tx_code', 'code', 'redirect_uri', 'code_verifier'):
            b.pop(k, None)
        pre = {**b, 'grant_type': lit(PRE), 'pre-authorized_code': '"c"'}
        au = {**b, 'grant_type': lit(AUTH), 'code': '"c"', 'code_verifier': '"v"'}
        for t in ('implicit', '', 'urn:ietf:params:oauth:grant-type:pre-authorized', 'authorization', 'authorization_codes', 'Authorization_Code', 'pre-authorized_code', PRE + ' '):
            put('token', 'unknown grant type', {**g.r.choice([pre, au]), 'grant_type': lit(t)}.items())
        put('token', 'grant type not text', {**pre, 'grant_type': '1'}.items())
        put('token', 'field of the other grant', {**pre, 'code': '"c"'}.items())
        put('token', 'field of the other grant', {**pre, 'code_verifier': '"c"'}.items())
        put('token', 'field of the other grant', {**pre, 'redirect_uri': '"c"'}.items())
        put('token', 'field of the other grant', {**au, 'tx_code': '"c"'}.items())
        put('token', 'field of the other grant', {**au, 'pre-authorized_code': '"c"'}.items())
        for k in ('code', 'code_verifier'):
            x = dict(au); x.pop(k); put('token', f'`{k}` missing', x.items())
        x = dict(pre); x.pop('pre-authorized_code'); put('token', '`pre-authorized_code` missing', x.items())
        b = base('credential')
        for k in ('credential_identifier', 'format', 'credential_definition', 'proof'):
            b.pop(k, None)
        fm = {**b, 'format': '"jwt_vc_json"', 'credential_definition': '{"type": ["a"]}'}
        put('credential', 'neither identifier nor format', b.items())
        put('credential', 'identifier and format', {**fm, 'credential_identifier': '"i"'}.items())
        put('credential', 'identifier and definition', {**b, 'credential_identifier': '"i"', 'credential_definition': '{"type": ["a"]}'}.items())
        put('credential', 'identifier and format', {**b, 'credential_identifier': '"i"', 'format': '"jwt_vc_json"'}.items())
        for t in ('jwt_vc_json-ld', 'jwt_vc', 'JWT_VC_JSON', ''):
            put('credential', 'unsupported format', {**fm, 'format': lit(t)}.items())
        for t in ('JWT', 'jwt_vc', 'jw'):
            put('credential', 'proof of another type', {**fm, 'proof': f'{{"proof_type": {lit(t)}, "jwt": "x"}}'}.items())
        put('credential', 'unsupported format', {**fm, 'format': '"mso_mdoc"'}.items())
        put('credential', 'format without definition', {**b, 'format': '"jwt_vc_json"'}.items())
        put('credential', 'definition not an object', {**fm, 'credential_definition': '"x"'}.items())
        put('credential', 'definition without type', {**fm, 'credential_definition': '{"credentialSubject": {"a": {}}}'}.items())
        put('credential', 'subject not an object', {**fm, 'credential_definition': '{"type": ["a"], "credentialSubject": "x"}'}.items())
        i = g.r.choice([fm, {**b, 'credential_identifier': '"i"'}])
        put('credential', 'proof not an object', {**i, 'proof': '"x"'}.items())
        put('credential', 'proof without type', {**i, 'proof': '{"jwt": "x"}'}.items())
        put('credential', 'proof of another type', {**i, 'proof': '{"proof_type": "cwt", "jwt": "x"}'}.items())
        put('credential', 'proof of another type', {**i, 'proof': '{"proof_type": "", "jwt": "x"}'}.items())
        put('credential', 'proof without jwt', {**i, 'proof': '{"proof_type": "jwt"}'}.items())
    seen, uniq = set(), []
    for o in out:
        if o not in seen:
            seen.add(o); uniq.append(o)
    return uniq


HEAD = '#![allow(dead_code, unused)]\n' + ''.join(f'const {k}: &str = {lit(v)};\n' for k, v in CONSTS.items()) + \
    'const YES: bool = true;\nconst NO: bool = false;\nfn helper(s: &str) -> String { s.to_string() }\n'


def render(gs, bs):
    """-> (main.rs, line -> good index), (bad.rs, line -> bad index)"""
    lines, at = (HEAD + 'mod dump;\nfn main() {\nlet mut n = 0usize;\n').rstrip('\n').split('\n'), {}
    for i, (kind, src, val) in enumerate(gs):
        at[len(lines) + 1] = i
        lines.append(f'{{ let r = vercre_macros::{MACROS[kind]}!({src}); dump::check("{kind}", {lit(src)}, dump::{kind}(&r), {lit(json.dumps(val))}); n += 1; }}')
    lines.append('println!("STAT good {n}");\n}')
    bl, bt = HEAD.rstrip('\n').split('\n'), {}
    for i, (kind, what, src) in enumerate(bs):
        bt[len(bl) + 1] = i
        bl.append(f'fn f{i}() {{ let _ = vercre_macros::{MACROS[kind]}!({src}); }}')
    bl.append('fn main() {}')
    return ('\n'.join(lines) + '\n', at), ('\n'.join(bl) + '\n', bt)
