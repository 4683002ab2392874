"""Loading of the extracted program (MIR facts) and name resolution helpers."""
import json, os, re, sys

sys.setrecursionlimit(20000)


def strip_generics(p):
    """drop every <...> group that follows '::' or an identifier (turbofish / type arguments)"""
    out, d, i = [], 0, 0
    while i < len(p):
        c = p[i]
        if c == '<' and (i > 0 and (p[i - 1].isalnum() or p[i - 1] in '_:')):
            d0 = 0
            j = i
            while j < len(p):
                if p[j] == '<':
                    d0 += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d0 -= 1
                    if d0 == 0:
                        break
                j += 1
            i = j + 1
            if out and out[-1] == ':' and len(out) > 1 and out[-2] == ':':
                out.pop(); out.pop()
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def last(p):
    """last path segment, generics removed"""
    p = strip_generics(p)
    # avoid cutting inside <...> qualified parts
    d = 0
    for i in range(len(p) - 1, 0, -1):
        if p[i] == '>':
            d += 1
        elif p[i] == '<':
            d -= 1
        elif p[i] == ':' and p[i - 1] == ':' and d == 0:
            return p[i + 1:]
    return p


def head(p):
    p = strip_generics(p)
    d = 0
    for i in range(len(p) - 1, 0, -1):
        if p[i] == '>':
            d += 1
        elif p[i] == '<':
            d -= 1
        elif p[i] == ':' and p[i - 1] == ':' and d == 0:
            return p[:i - 1]
    return ''


class FnRef:
    __slots__ = ('path', 'name', 'trait', 'res', 'args', 'crate', 'canon', 'local')

    def __init__(self, j, crate, prog):
        self.path = j['p']
        self.name = j['n']
        self.trait = j['t']
        self.res = j['r']
        self.args = j['a']
        self.local = j['l']
        self.crate = crate
        if self.trait:
            self.canon = last(self.trait) + '::' + self.name
        else:
            h = head(self.path)
            m = re.search(r'<impl (.*)>$', h)
            if m:
                t = m.group(1)
                t = t.split(' for ')[-1]
                if t.startswith('[') :
                    h2 = 'slice'
                else:
                    h2 = last(t) if '::' in t else t
            else:
                h2 = last(h) if h else ''
            self.canon = (h2 + '::' if h2 else '') + last(self.path)

    def targ(self, prog, i):
        """string of the i-th type/const argument"""
        if i >= len(self.args):
            return None
        a = self.args[i]
        return prog.tystr(self.crate, a) if isinstance(a, int) else a

    def __repr__(self):
        return 'FnRef(%s)' % (self.res or self.path)


class Body:
    __slots__ = ('path', 'name', 'kind', 'parent', 'file', 'line', 'args', 'locals', 'upvars', 'blocks', 'crate',
                 'gen', '_cfg')

    def __init__(self, j, crate):
        self.path = j['path']
        self.name = j['name']
        self.kind = j['kind']
        self.parent = j['parent']
        self.file, self.line = j['span']
        self.args = j['args']
        self.locals = j['locals']
        self.upvars = j['upvars']
        self.blocks = j['blocks']
        self.gen = j.get('gen', [])
        self.crate = crate
        self._cfg = None


class Prog:
    def __init__(self):
        self.bodies = {}
        self.tainted = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.consts = {}
        self.types = {}
        self.fnrefs = {}
        self.impl_by_trait_self = {}
        self.crates = []

    def load(self, path):
        crate = os.path.basename(path)[:-6]
        self.crates.append(crate)
        ended = False
        pend = []
        with open(path) as f:
            for l in f:
                j = json.loads(l)
                k = j['k']
                if k == 'body':
                    self.bodies[j['path']] = Body(j, crate)
                elif k == 'tainted':
                    self.tainted[j['path']] = j
                elif k == 'adt':
                    if j['path'] not in self.adts or j['local']:
                        self.adts[j['path']] = j
                elif k == 'impl':
                    j['crate'] = crate
                    pend.append(j)
                elif k == 'trait':
                    self.traits[j['path']] = j
                elif k == 'const':
                    self.consts[j['path']] = j
                elif k == 'types':
                    self.types[crate] = j['types']
                elif k == 'end':
                    ended = True
        if not ended:
            raise RuntimeError('fact file %s is truncated' % path)
        for j in pend:
            self.impls.append(j)
            t = self.types[crate][j['self']]
            j['self_str'] = t['s']
            j['self_adt'] = t['adt'] if isinstance(t['adt'], str) else None
            if j['trait']:
                key = (j['trait'], j['self_adt'] or t['s'])
                self.impl_by_trait_self.setdefault(key, []).append(j)

    def tystr(self, crate, i):
        return self.types[crate][i]['s']

    def ty(self, crate, i):
        return self.types[crate][i]

    def fnref(self, j, crate):
        key = (crate, json.dumps(j))
        r = self.fnrefs.get(key)
        if r is None:
            r = self.fnrefs[key] = FnRef(j, crate, self)
        return r

    def find(self, suffix, trait=None, selfty=None):
        """bodies whose path (generics stripped) ends with the given suffix"""
        out = []
        for p, b in self.bodies.items():
            sp = strip_generics(p)
            if sp == suffix or sp.endswith('::' + suffix):
                out.append(b)
        return out

    def methods_of(self, adt_suffix, name, trait=None):
        """all bodies implementing method `name` for the ADT whose path ends with adt_suffix"""
        out = []
        for im in self.impls:
            a = im['self_adt']
            if not a or not (a == adt_suffix or a.endswith('::' + adt_suffix)):
                continue
            if trait is not None:
                if trait == '':
                    if im['trait']:
                        continue
                elif not im['trait'] or last(im['trait']) != trait:
                    continue
            for n, p, _t in im['items']:
                if n == name:
                    out.append(p)
        return out

    def trait_impl_method(self, trait, self_adt, name):
        for im in self.impl_by_trait_self.get((trait, self_adt), []):
            for n, p, _t in im['items']:
                if n == name:
                    return p
        # default body
        t = self.traits.get(trait)
        if t:
            for n, p, has in t['items']:
                if n == name and p in self.bodies:
                    return p
        return None


def load(dirpath, crates=None):
    pr = Prog()
    for f in sorted(os.listdir(dirpath)):
        if f.endswith('.jsonl') and (crates is None or f[:-6] in crates):
            pr.load(os.path.join(dirpath, f))
    return pr
