"""Loads the real sources of /repo through the syn front end and resolves names."""
import json, os, subprocess

STUBS = os.path.abspath(os.path.join(os.path.dirname(__file__), '../../stubs'))
CRATES = {
    'vercre_core': 'crates/core/src',
    'vercre_dif_exch': 'crates/dif-exch/src',
    'vercre_macros': 'crates/macros/src',
    'vercre_openid': 'crates/openid/src',
    'vercre_status': 'crates/status/src',
    'vercre_w3c_vc': 'crates/w3c-vc/src',
    'vercre_iso_mdl': 'crates/iso-mdl/src',
    'vercre_issuer': 'vercre-issuer/src',
    'vercre_holder': 'vercre-holder/src',
    'vercre_verifier': 'vercre-verifier/src',
    # crates of other repositories, as stand-ins: their types are used, their functions only by contract
    'vercre_infosec': os.path.join(STUBS, 'vercre-infosec/src'),
    'vercre_did': os.path.join(STUBS, 'vercre-did/src'),
}


class Unsupported(Exception):
    def __init__(self, what, line=None):
        super().__init__(what)
        self.what, self.line = what, line


class Fn:
    """A function of the real source."""
    __slots__ = ('path', 'mod', 'ast', 'impl', 'selfty', 'trait', 'file')

    def __init__(self, path, mod, ast, impl=None, selfty=None, trait=None, file=None):
        self.path, self.mod, self.ast = path, mod, ast
        self.impl, self.selfty, self.trait, self.file = impl, selfty, trait, file

    def __repr__(self):
        return f'<fn {self.path}>'


class Module:
    def __init__(self, path, file):
        self.path, self.file = path, file
        self.items, self.uses, self.globs = {}, {}, []
        self.macros = {}


class Program:
    def __init__(self, repo, front, crates=None):
        self.repo = repo
        self.mods = {}
        self.impls = []         # (module, impl ast)
        self.files = []
        self.front = front
        crates = crates or list(CRATES)
        files, todo = [], []
        for c in crates:
            root = os.path.join(repo, CRATES[c])
            for d, _, fs in os.walk(root):
                for f in sorted(fs):
                    if f.endswith('.rs'):
                        files.append(os.path.join(d, f))
        out = subprocess.run([front] + files, capture_output=True, text=True, check=True).stdout
        self.asts = json.loads(out)
        self.parse_errors = {f: a['error'] for f, a in self.asts.items() if 'error' in a}
        for c in crates:
            root = os.path.join(repo, CRATES[c])
            self._load((c,), os.path.join(root, 'lib.rs'), root)
        self.methods = {}      # type head -> name -> [Fn]
        self.trait_impls = {}  # (type head, trait name) -> impl
        self.fns = {}
        self._index()

    def _load(self, path, file, dirpath):
        ast = self.asts.get(file)
        if ast is None:
            return
        self.files.append(file)
        self._items(path, ast['items'], file, dirpath)

    def _items(self, path, items, file, dirpath):
        m = self.mods.setdefault(path, Module(path, file))
        for it in items:
            if not it:
                continue
            k = it['k']
            if k == 'mod':
                sub = path + (it['name'],)
                m.items.setdefault(it['name'], {'k': 'mod', 'path': sub})
                if it['items'] is not None:
                    self._items(sub, it['items'], file, os.path.join(dirpath, it['name']))
                else:
                    f1 = os.path.join(dirpath, it['name'] + '.rs')
                    f2 = os.path.join(dirpath, it['name'], 'mod.rs')
                    self._load(sub, f1 if f1 in self.asts else f2, os.path.join(dirpath, it['name']))
            elif k == 'use':
                for name, p in it['us']:
                    if name == '*':
                        m.globs.append(p)
                    elif name != '_':
                        m.uses[name] = p
            elif k == 'impl':
                self.impls.append((m, it))
            elif k == 'macrodef':
                m.macros[it['name']] = it
            elif 'name' in it:
                m.items[it['name']] = it
            elif k == 'fn':
                m.items[it['sig']['name']] = it

    # ---- name resolution -------------------------------------------------
    def resolve(self, mod, segs, depth=0):
        """-> ('item', path tuple, ast, Module) | ('ext', 'a::b')"""
        if depth > 25:
            return ('ext', '::'.join(segs))
        segs = list(segs)
        cur = None
        if segs[0] == 'crate':
            cur, segs = self.mods[mod.path[:1]], segs[1:]
        elif segs[0] == 'self':
            cur, segs = mod, segs[1:]
        elif segs[0] == 'super':
            p = mod.path
            while segs and segs[0] == 'super':
                p, segs = p[:-1], segs[1:]
            cur = self.mods[p]
        elif (segs[0],) in self.mods and segs[0] not in mod.items and segs[0] not in mod.uses:
            cur, segs = self.mods[(segs[0],)], segs[1:]
        if cur is not None:
            return self._in(cur, segs, depth)
        r = self._in(mod, segs, depth)
        return r

    def _in(self, mod, segs, depth):
        if not segs:
            return ('mod', mod.path, None, mod)
        h, rest = segs[0], segs[1:]
        it = mod.items.get(h)
        if it is not None:
            if it['k'] == 'mod':
                sub = self.mods.get(it['path'])
                if sub is None:
                    return ('ext', '::'.join(mod.path + tuple(segs)))
                return self._in(sub, rest, depth) if rest else ('mod', it['path'], it, sub)
            if not rest:
                return ('item', mod.path + (h,), it, mod)
            return ('assoc', mod.path + (h,), it, mod, rest)
        if h in mod.uses:
            p = list(mod.uses[h])
            if p == [h] and (h,) not in self.mods:
                return ('ext', '::'.join(p + rest))
            return self.resolve(mod, p + rest, depth + 1) if not (p[0] == h and len(p) > 1) \
                else self._abs(mod, p + rest, depth)
        for g in mod.globs:
            r = self.resolve(mod, list(g) + segs, depth + 1)
            if r[0] != 'ext':
                return r
        return ('ext', '::'.join(segs))

    def _abs(self, mod, segs, depth):
        if (segs[0],) in self.mods:
            return self._in(self.mods[(segs[0],)], segs[1:], depth + 1)
        if segs[0] in mod.items and mod.items[segs[0]]['k'] == 'mod':
            return self._in(mod, segs, depth + 1)
        return ('ext', '::'.join(segs))

    # ---- index of functions and impls -----------------------------------
    def _index(self):
        for p, m in self.mods.items():
            for n, it in m.items.items():
                if it['k'] == 'fn':
                    fp = '::'.join(p + (n,))
                    self.fns[fp] = Fn(fp, m, it, file=m.file)
        for m, im in self.impls:
            head = self.type_head(m, im['ty'])
            tr = im['trait']
            trn = tr['segs'][-1][0] if tr else None
            if trn:
                self.trait_impls.setdefault((head, trn), []).append((m, im))
            for it in im['items']:
                if it['k'] != 'fn':
                    continue
                n = it['sig']['name']
                fp = f"{head}::{n}" if not trn else f"<{head} as {trn}>::{n}"
                f = Fn(fp, m, it, impl=im, selfty=im['ty'], trait=trn, file=m.file)
                self.methods.setdefault(head, {}).setdefault(n, []).append(f)
                self.fns.setdefault(fp, f)
                if fp in self.fns and self.fns[fp] is not f and trn:
                    self.fns[fp + '#' + json.dumps(tr['segs'][-1][1], sort_keys=True)[:200]] = f

    def type_head(self, m, t):
        if t['k'] == 'ref':
            return self.type_head(m, t['t'])
        if t['k'] == 'path':
            segs = [s[0] for s in t['p']['segs']]
            r = self.resolve(m, segs)
            if r[0] == 'item':
                if r[2]['k'] == 'type':
                    return self.type_head(r[3], r[2]['t'])
                return '::'.join(r[1])
            return segs[-1]
        return t['k']
