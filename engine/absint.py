"""Interprocedural abstract interpretation of extracted MIR.

Values are provenance terms (terms.py).  Functions are analysed by a fixpoint over their control-flow
graph, calls are inlined (context = call string), loops are joined and widened, no path is
enumerated and no solver is used.  Besides values the state carries `known`: facts (term, value) that
hold on every path reaching the point; joins intersect them, and a value joined from several variants
remembers what each variant implies (`dv` terms).  After a loop that ran to exhaustion of its
iterator, facts established on every back edge hold for the generic element.
"""
from terms import *
import facts as F

OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'


def some(v):
    return mk('agg', OPT, 'Some', ('0',), v)


NONE = mk('agg', OPT, 'None', ())


def ok(v):
    return mk('agg', RES, 'Ok', ('0',), v)


def err(v):
    return mk('agg', RES, 'Err', ('0',), v)


def _pl_use(pl, out):
    out.add(pl[0])
    for e in pl[1:]:
        if isinstance(e, list) and e[0] == 'i':
            out.add(e[1])


def _op_use(o, out):
    if o and o[0] in ('cp', 'mv'):
        _pl_use(o[1], out)


def liveness(body, cfg):
    use, kill = {}, {}
    taken = {0}
    derefed = set()

    def rvuse(rv, out):
        k_ = rv[0]
        if k_ in ('ref', 'discr'):
            _pl_use(rv[1], out)
            if k_ == 'ref':
                if '*' not in rv[1][1:]:
                    taken.add(rv[1][0])
                else:
                    derefed.add(rv[1][0])
        elif k_ == 'agg':
            for o in rv[2]:
                _op_use(o, out)
        else:
            for o in rv[1:]:
                if isinstance(o, list) and o and o[0] in ('cp', 'mv'):
                    _op_use(o, out)
    for b in cfg.rpo:
        st, t, cl = body.blocks[b]
        u, d = set(), set()

        def add(xs):
            for x in xs:
                if x not in d:
                    u.add(x)
        for pl, rv, line in st:
            o = set()
            if rv[0] != 'setd':
                rvuse(rv, o)
            if len(pl) > 1 or rv[0] == 'setd':
                _pl_use(pl, o)
            add(o)
            if len(pl) == 1 and rv[0] != 'setd':
                d.add(pl[0])
        o = set()
        dest = None
        if t[0] == 'call':
            _op_use(t[1], o)
            if t[1][0] != 'fn':
                for z in t[1]:
                    if isinstance(z, list) and z and z[0] in ('cp', 'mv'):
                        _op_use(z, o)
            for a in t[2]:
                _op_use(a, o)
            if len(t[3]) > 1:
                _pl_use(t[3], o)
            else:
                dest = t[3][0]
        elif t[0] in ('sw', 'assert'):
            _op_use(t[1], o)
        elif t[0] == 'yield':
            for z in t[1:]:
                if isinstance(z, list) and z and isinstance(z[0], int):
                    _pl_use(z, o)
                elif isinstance(z, list):
                    _op_use(z, o)
        add(o)
        if dest is not None:
            d.add(dest)
        use[b], kill[b] = u, d
    live = {b: set(use[b]) for b in cfg.rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(cfg.rpo):
            x = live[b]
            n = len(x)
            for s in cfg.succ[b]:
                x |= live[s] - kill[b] if s in live else set()
            if len(x) != n:
                ch = True
    return live, taken, derefed


class CFG:
    def __init__(self, body):
        n = len(body.blocks)
        self.succ = [[] for _ in range(n)]
        for i, (st, t, cl) in enumerate(body.blocks):
            self.succ[i] = succs(t)
        self.rpo = []
        seen = set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        post = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = [[] for _ in range(n)]
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.idx[x] > self.idx[y]:
                            x = idom[x]
                        while self.idx[y] > self.idx[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dom(s, b):
                    body_ = self.loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        st.extend(self.pred[x])
        self._leaves = {}
        self.last_ = {}
        self.latches = {h: [p for p in self.pred[h] if p in bl] for h, bl in self.loops.items()}
        # the exit switch of each loop: first block with an edge out of the loop that dominates all latches
        self.exit_edges = {}
        for h, bl in self.loops.items():
            best = None
            for b in sorted(bl, key=lambda x: self.idx[x]):
                if any(s not in bl for s in self.succ[b]) and all(self.dom(b, l) for l in self.latches[h]) \
                        and body.blocks[b][1][0] == 'sw':
                    best = b
                    break
            if best is not None:
                for s in self.succ[best]:
                    if s not in bl:
                        self.exit_edges.setdefault((best, s), []).append(h)

        self._live = None
        self.body = body

    def dead(self, h):
        """locals whose value at entry of block h is never read (locals with their address taken are kept)"""
        if self._live is None:
            self._live = liveness(self.body, self)
        lv, taken, derefed = self._live
        return lv[h], taken, derefed

    def looplast(self, h):
        r = self.last_.get(h)
        if r is None:
            r = self.last_[h] = max(self.idx[x] for x in self.loops[h]) + 0.5
        return r

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            nb = self.idom.get(b)
            if nb is None or nb == b:
                return False
            b = nb

    def leaves(self, b, s):
        r = self._leaves.get((b, s))
        if r is None:
            r = [h for h, bl in self.loops.items() if b in bl and s not in bl]
            r.sort(key=lambda h: len(self.loops[h]))
            self._leaves[(b, s)] = r
        return r

    def in_loops(self, b):
        return [h for h, bl in self.loops.items() if b in bl]


def succs(t):
    k_ = t[0]
    if k_ == 'goto':
        return [t[1]]
    if k_ == 'sw':
        out = []
        for v, b in t[2]:
            if b not in out:
                out.append(b)
        if t[3] not in out:
            out.append(t[3])
        return out
    if k_ == 'call':
        return [t[4]] if t[4] >= 0 else []
    if k_ == 'assert':
        return [t[3]]
    if k_ == 'yield':
        return [t[2]]
    return []


class State:
    __slots__ = ('v', 'known')

    def __init__(self, v, known):
        self.v = v
        self.known = known

    def copy(self):
        return State(dict(self.v), self.known)


class Event:
    __slots__ = ('canon', 'path', 'args', 'ret', 'line', 'block', 'frame', 'fr', 'known', 'kind', 'raw', 'at')

    def __repr__(self):
        return '%s(%s)' % (self.canon, ', '.join(show(a) for a in self.args))


class Frame:
    def __init__(self, body, parent, site):
        self.body = body
        self.parent = parent
        self.site = site      # (block, tag)
        self.trace = {}       # block -> [items]
        self.bknown = {}      # block -> facts on entry
        self.branch = {}      # block -> (term, {succ: label})
        self.edges = {}       # (b,s) -> True (feasible)
        self.children = {}    # (block, tag, path) -> Frame
        self.ret = None
        self.args = None
        self.selfty = None    # concrete Self of a default trait method
        self.id = None
        self.exit_known = frozenset()
        self.aggs = []        # aggregate constructions (block, line, term)
        self.errblocks = set()

    def name(self):
        return self.body.path

    def chain(self):
        f = self
        out = []
        while f:
            out.append(f.body.name or F.last(f.body.path))
            f = f.parent
        return '<-'.join(out)


STATEFUL = ('ExpSerde::deserialize_from', 'Read::read_exact')


class Diverge(Exception):
    pass


class Budget(Exception):
    pass


def canon_bin(op, a, b):
    if op in ('Gt',):
        op, a, b = 'Lt', b, a
    elif op == 'Ge':
        op, a, b = 'Le', b, a
    x, y = kval(a), kval(b)
    if isinstance(x, bool) is False and isinstance(x, int) and isinstance(y, int) and not isinstance(y, bool):
        if op == 'Lt':
            return k(x < y)
        if op == 'Le':
            return k(x <= y)
        if op == 'Eq':
            return k(x == y)
        if op == 'Ne':
            return k(x != y)
        try:
            if op == 'Add':
                return k(x + y)
            if op == 'Mul':
                return k(x * y)
            if op == 'Sub' and x >= y:
                return k(x - y)
            if op == 'Shl' and y < 300:
                return k(x << y)
            if op == 'Shr':
                return k(x >> y)
            if op == 'BitAnd':
                return k(x & y)
            if op == 'BitOr':
                return k(x | y)
            if op == 'Div' and y:
                return k(x // y)
            if op == 'Rem' and y:
                return k(x % y)
        except Exception:
            pass
    if isinstance(x, bool) and isinstance(y, bool):
        if op == 'Eq':
            return k(x == y)
        if op == 'Ne':
            return k(x != y)
    if op == 'Ne':
        return neg(canon_bin('Eq', a, b))
    if op == 'Eq':
        if a is b and a.op in ('sym',):
            return TRUE
        if y is True:
            return a
        if x is True:
            return b
        if y is False:
            return neg(a)
        if x is False:
            return neg(b)
    if op in ('Eq', 'Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor'):
        if (is_k(a) and not is_k(b)) or (is_k(a) == is_k(b) and a.id > b.id):
            a, b = b, a
    return mk('bin', op, a, b)


def neg(t):
    if t is A_TRUE or t is A_FALSE:
        return A_FALSE if t is A_TRUE else A_TRUE
    if t.op == 'k' and t.a[0] == 'bool':
        return k(not t.a[1])
    if t.op == 'un' and t.a[0] == 'Not':
        return t.a[1]
    if t.op == 'dv':
        m = {'True': 'False', 'False': 'True'}
        return mk('dv', neg(t.a[0]), tuple(sorted((m.get(x, x), f) for x, f in t.a[1])), t.a[2])
    return mk('un', 'Not', t)


def tag_assumed(v):
    u = undv(v)
    if u is TRUE:
        return A_TRUE
    if u is FALSE:
        return A_FALSE
    if v.op == 'tup':
        return mk('tup', *[tag_assumed(x) for x in v.a])
    return v


def decompose(t, val, out):
    """facts implied by `t == val`"""
    if t.op == 'dv':
        for x, f in t.a[1]:
            if x == str(val):
                out |= f
                break
        decompose(t.a[0], val, out)
        return
    if t.op == 'phi':
        out.add((t, val))
        return
    if t.op == 'un' and t.a[0] == 'Not' and isinstance(val, bool):
        decompose(t.a[1], not val, out)
        return
    if t.op == 'bin' and t.a[0] == 'BitAnd' and val is True:
        decompose(t.a[1], True, out)
        decompose(t.a[2], True, out)
    if t.op == 'bin' and t.a[0] == 'BitOr' and val is False:
        decompose(t.a[1], False, out)
        decompose(t.a[2], False, out)
    if t.op == 'isv' and val is True:
        decompose(t.a[0], t.a[1], out)
    if t.op == 'isv' and val is False:
        o = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok'}.get(t.a[1])
        if o:
            decompose(t.a[0], o, out)
    if t.op == 'agg' or t.op == 'k':
        return
    out.add((t, val))


KCAP = 400


def variants_info(v, known):
    """(dict variant -> facts, default) ; default None when the listed variants are all"""
    if v is A_TRUE or v is A_FALSE:
        v = v.a[1]
    if v.op == 'k' and v.a[0] == 'bool':
        return {str(v.a[1]): known}, None
    if v.op == 'agg':
        return {v.a[1]: known}, None
    if v.op == 'dv':
        d = {x: f | known for x, f in v.a[1]}
        return d, (v.a[2] | known if v.a[2] is not None else None)
    if v.op == 'phi':
        d = {}
        for x in alts(v):
            r = variants_info(x, known)
            if r is None:
                return None
            dd, df = r
            if df is not None:
                return {}, known
            for y in dd:
                d[y] = known
        return d, None
    if v.op == 'bot':
        return {}, None
    return None


def join_val(v1, k1, v2, k2, boolish):
    if v1 is v2:
        return v1
    if v1.op == 'bot':
        return v2
    if v2.op == 'bot':
        return v1
    if v1.op == 'agg' and v2.op == 'agg' and v1.a[0] == v2.a[0] and v1.a[1] == v2.a[1] and v1.a[2] == v2.a[2] \
            and v1.a[0].split('::')[-1] == v1.a[1]:
        return mk('agg', v1.a[0], v1.a[1], v1.a[2],
                  *[join_val(x, k1, y, k2, False) for x, y in zip(v1.a[3:], v2.a[3:])])
    if v1.op == 'tup' and v2.op == 'tup' and len(v1.a) == len(v2.a):
        return mk('tup', *[join_val(x, k1, y, k2, False) for x, y in zip(v1.a, v2.a)])
    if v1.op == 'upd' and v2.op == 'upd' and v1.a[0] is v2.a[0]:
        d1, d2 = dict(v1.a[1]), dict(v2.a[1])
        ks = sorted(set(d1) | set(d2))
        return mk('upd', v1.a[0], tuple((n, join_val(d1.get(n) or fld(v1.a[0], n), k1, d2.get(n) or fld(v2.a[0], n), k2, False)) for n in ks))
    if v1.op == 'upd' and v1.a[0] is v2:
        return mk('upd', v2, tuple((n, join_val(x, k1, fld(v2, n), k2, False)) for n, x in v1.a[1]))
    if v2.op == 'upd' and v2.a[0] is v1:
        return mk('upd', v1, tuple((n, join_val(fld(v1, n), k1, x, k2, False)) for n, x in v2.a[1]))
    if v1.op == 'seq' or v2.op == 'seq':
        if v1.op in ('seq', 'arr', 'phi') and v2.op in ('seq', 'arr', 'phi') or True:
            p = phi(v1, v2)
            return norm_seq(p)
    i1 = variants_info(v1, k1)
    i2 = variants_info(v2, k2)
    if boolish or i1 is not None or i2 is not None:
        def expand(v, i, kn):
            if i is not None:
                return i
            if boolish:
                d = {}
                for b in (True, False):
                    o = set(kn)
                    decompose(v, b, o)
                    d[str(b)] = frozenset(o)
                return d, None
            return {}, kn
        if v1.op == 'agg' and v1.a[0] not in (OPT, RES, CF) and v2.op == 'agg' and not boolish \
                and v2.a[0] not in (OPT, RES, CF):
            return phi(v1, v2)
        i1 = expand(v1, i1, k1)
        i2 = expand(v2, i2, k2)
        d = {}
        for x in set(i1[0]) | set(i2[0]):
            f1 = i1[0].get(x, i1[1])
            f2 = i2[0].get(x, i2[1])
            if f1 is None:
                d[x] = f2
            elif f2 is None:
                d[x] = f1
            else:
                d[x] = f1 & f2
        if i1[1] is None:
            df = i2[1]
        elif i2[1] is None:
            df = i1[1]
        else:
            df = i1[1] & i2[1]
        base = phi(undv(v1), undv(v2))
        d = {x: (f if len(f) <= KCAP else frozenset()) for x, f in d.items()}
        return mk('dv', base, tuple(sorted(d.items(), key=lambda z: z[0])), df)
    return phi(v1, v2)


class Interp:
    def __init__(self, prog, inline=None, max_depth=14, opaque=(), budget=400000, keep_pure=()):
        self.p = prog
        self.inline_pred = inline
        self.opaque = opaque
        self.max_depth = max_depth
        self.frames = {}
        self.nframe = 0
        self.budget = budget
        self.steps = 0
        self.roots = {}
        self.curloop = 0
        self.bnds = {}
        self.force_read = None
        self.force_site = None
        self.assume = None       # term -> replacement term or None
        self.noind = set()
        self.exists = False      # the assumed condition concerns one element of the collections, not all of them
        self.ahits = 0
        self.mutout = None       # path -> bool: calls whose &mut arguments become 'mut' terms
        self.nonempty = None     # collection term -> bool: loops over it run at least once
        self.dirty = []
        self.cur = None
        import models
        self.models = models

    # ---- memory -------------------------------------------------------------
    def base(self, st, root):
        v = st.v.get(root)
        if v is None:
            if root[0] == 'M':
                return root[1]
            return BOT
        return v

    def read(self, st, loc):
        v = self.base(st, loc[0])
        for p in loc[1]:
            v = self.rproj(v, p)
        return v

    def rproj(self, v, p):
        if p[0] == 'f':
            return fld(v, p[1])
        if p[0] == 'e':
            return self.relem(v, p[1])
        if p[0] == 'x':
            return self.index(v, p[1])
        if p[0] == 'g':
            return self.mapget(v, p[1])
        if p[0] == 's':
            return self.subslice(v, p[1])
        return v

    def subslice(self, v, r):
        v = undv(v)
        if v.op == 'arr' and r.op == 'agg' and r.a[1] == 'RangeFull':
            return v
        if r.op == 'agg' and r.a[1] == 'RangeFull':
            return v
        return mk('sub', v, r)

    def relem(self, v, tags):
        v = undv(v)
        if v.op == 'sub':
            # iteration over a sub-slice: elements of the base, marked
            return self.mark(self.relem(v.a[0], ()), ('slice', v.a[1])) if tags == () else self.marks(self.relem(v, ()), tags)
        e = elem(norm_seq(v))
        return self.marks(e, tags)

    def marks(self, e, tags):
        for t in tags:
            e = self.mark(e, t)
        return e

    def mark(self, e, tag):
        """element e seen only under a partial traversal"""
        if e.op == 'ref':
            root, pr = e.a[0]
            if pr and pr[-1][0] == 'e':
                return mk('ref', (root, pr[:-1] + (('e', pr[-1][1] + (tag,)),)))
            # field of an element (map iteration)
            for i in range(len(pr) - 1, -1, -1):
                if pr[i][0] == 'e':
                    return mk('ref', (root, pr[:i] + (('e', pr[i][1] + (tag,)),) + pr[i + 1:]))
            return e
        if e.op == 'tup':
            return mk('tup', *[self.mark(x, tag) for x in e.a])
        if e.op == 'phi':
            return phi(*[self.mark(x, tag) for x in alts(e)])
        if e.op == 'dv':
            return self.mark(undv(e), tag)
        if e.op in ('k', 'bot', 'cdef'):
            return e
        return mk('part', e, tag)

    def index(self, v, i):
        v = undv(v)
        i = undv(i)
        if v.op == 'phi':
            return phi(*[self.index(x, i) for x in alts(v)])
        n = kval(i)
        if v.op == 'arr' and isinstance(n, int) and n < len(v.a):
            return v.a[n]
        if v.op == 'rep':
            return v.a[0]
        if v.op == 'seq':
            b = v.a[0]
            if b is None:
                if undv(v.a[1]) in (A_TRUE, A_FALSE) and n is not None:
                    return mk('call', 'mixed', v, i)
                return v.a[1] if v.a[1].op != 'bot' else mk('at', v, i)
            return phi(self.index(b, i), v.a[1])
        if v.op == 'sub':
            return mk('at', v, i)
        # elements selected by a full counting loop are the generic element
        if i.op == 'ridx' and is_k(i.a[0], 0) and i.a[2] == 'Range' and i.a[1].op == 'call' and i.a[1].a[0] == 'len' \
                and i.a[1].a[1] is v:
            return mk('elem', v)
        if i.op == 'eidx' and i.a[0].op == 'src' and i.a[0].a[0] is v:
            return mk('elem', v)
        return mk('at', v, i)

    def mapget(self, v, key):
        v = undv(v)
        if v.op == 'phi':
            return phi(*[self.mapget(x, key) for x in alts(v)])
        if v.op == 'seq':
            e = v.a[1]
            r = fld(e, '1') if e.op != 'bot' else BOT
            if v.a[0] is not None:
                r = phi(r, self.mapget(v.a[0], key))
            if r.op == 'bot':
                return mk('get', v, key)
            return r
        return mk('get', v, key)

    def write(self, st, loc, val, weak=False):
        root, pr = loc
        old = self.base(st, root)
        st.v[root] = self.upd(old, pr, val, weak)

    def upd(self, old, pr, val, weak):
        if not pr:
            return phi(old, val) if weak else val
        p = pr[0]
        if p[0] == 'f':
            n = p[1]
            o = undv(old)
            v, _, f = n.rpartition('.')
            if v and o.op == 'phi':
                return phi(*[self.upd(x, pr, val, weak) if (x.op != 'agg' or x.a[1] == v) else x for x in alts(o)])
            if v and o.op == 'agg':
                if o.a[1] != v:
                    return o
                return setfld(o, f, self.upd(fld(o, f), pr[1:], val, weak))
            return setfld(o, n, self.upd(fld(o, n), pr[1:], val, weak))
        if p[0] == 'x':
            o = undv(old)
            n = kval(p[1])
            if o.op == 'arr' and isinstance(n, int) and n < len(o.a):
                return mk('arr', *(o.a[:n] + (self.upd(o.a[n], pr[1:], val, weak),) + o.a[n + 1:]))
            if len(pr) == 1:
                return seq_add(norm_seq(o), val)
            cur = self.index(o, p[1])
            return seq_add(norm_seq(o), self.upd(cur, pr[1:], val, True))
        if p[0] == 'e':
            o = undv(old)
            if len(pr) == 1:
                if o.op in ('seq', 'arr', 'rep') :
                    return seq_add(norm_seq(o), val)
                return seq_add(o, val)
            cur = self.relem(o, p[1])
            nv = self.upd(cur, pr[1:], val, True)
            if nv is cur:
                return o
            return seq_add(norm_seq(o), nv)
        if p[0] == 'g':
            o = undv(old)
            cur = self.mapget(o, p[1]) if len(pr) > 1 else BOT
            return seq_add(norm_seq(o), mk('tup', p[1], self.upd(cur, pr[1:], val, weak)))
        if p[0] == 's':
            return seq_add(norm_seq(undv(old)), elem(val))
        return old

    def deref_locs(self, st, v):
        """locations a reference value may point to, or None if not a reference"""
        v = undv(v)
        if v.op == 'ref':
            return [v.a[0]]
        if v.op == 'phi' and any(undv(x).op == 'ref' for x in v.a[0]):
            return [undv(x).a[0] for x in alts(v) if undv(x).op == 'ref']
        return None

    def deref(self, st, v):
        """value behind a (possibly nested) reference"""
        n = 0
        while n < 6:
            v0 = v
            if v.op == 'ref':
                v = self.read(st, v.a[0])
            elif v.op == 'dv' and undv(v)._hasref:
                u = undv(v)
                if u.op == 'ref':
                    v = u
                elif u.op == 'phi' and any(x.op == 'ref' for x in u.a[0]):
                    v = u
                else:
                    return v
            elif v.op == 'phi' and any(x.op == 'ref' for x in v.a[0]):
                v = phi(*[self.read(st, x.a[0]) if x.op == 'ref' else x for x in alts(v)])
            else:
                return v
            if v is v0:
                return v
            n += 1
        return v

    def snap(self, st, t, d=0):
        """term with every reference replaced by the value it points to"""
        if not t._hasref:
            return t
        memo = {}

        def go(x, d):
            if not x._hasref:
                return x
            r = memo.get(x.id)
            if r is not None:
                return r
            if d > 12:
                return mk('deep')
            memo[x.id] = mk('rec')
            if x.op == 'ref':
                r = go(self.read(st, x.a[0]), d + 1)
            elif x.op == 'phi':
                r = phi(*[go(y, d + 1) for y in x.a[0]])
            else:
                r = mk(x.op, *[conv(y, d) for y in x.a])
            memo[x.id] = r
            return r

        def conv(y, d):
            if isinstance(y, T):
                return go(y, d + 1)
            if isinstance(y, tuple):
                return tuple(conv(z, d) for z in y)
            if isinstance(y, frozenset):
                return frozenset(conv(z, d) for z in y)
            return y

        return go(t, d)

    # ---- places -------------------------------------------------------------
    def place(self, fr, st, pl):
        """list of locations"""
        locs = [((fr.id, pl[0]), ())]
        var = None
        for e in pl[1:]:
            if e == '*':
                nl = []
                for loc in locs:
                    v = self.read(st, loc)
                    ls = self.deref_locs(st, v)
                    if ls is None:
                        nl.append(loc)
                    else:
                        nl.extend(ls)
                locs = nl[:16]
                var = None
            elif e == '?':
                pass
            elif e[0] == 'f':
                n = e[1] if var is None else var + '.' + e[1]
                locs = [(l[0], l[1] + (('f', n),)) for l in locs]
                var = None
            elif e[0] == 'v':
                var = e[1]
            elif e[0] == 'i':
                i = self.read(st, ((fr.id, e[1]), ()))
                locs = [(l[0], l[1] + (('x', i),)) for l in locs]
            elif e[0] == 'c':
                locs = [(l[0], l[1] + (('x', k(e[1]) if not e[2] else mk('fromend', k(e[1]))),)) for l in locs]
            elif e[0] == 's':
                r = mk('agg', 'core::ops::range::Range', 'Range', ('start', 'end'), k(e[1]),
                       mk('fromend', k(e[2])) if e[3] else k(e[2]))
                locs = [(l[0], l[1] + (('s', r),)) for l in locs]
        # normalise: collapse deref of refs stored in the middle is done above
        return locs

    def rplace(self, fr, st, pl):
        ls = self.place(fr, st, pl)
        if len(ls) == 1:
            return self.read(st, ls[0])
        return phi(*[undv(self.read(st, l)) for l in ls])

    def wplace(self, fr, st, pl, v):
        ls = self.place(fr, st, pl)
        for l in ls:
            if l[1] and self.cur is not None and any(p[0] in 'xge' for p in l[1]):
                self.cur.append(('st', tuple(self.snap(st, p[1]) for p in l[1] if p[0] in 'xg'), self.snap(st, v), st.known, self.placeterm(st, l)))
            self.write(st, l, v, weak=len(ls) > 1)

    def placeterm(self, st, l):
        """the written place as an access path"""
        root, pr = l
        t = undv(root[1]) if isinstance(root, tuple) and root and root[0] == 'M' and isinstance(root[1], T) else sym('local')
        for p in pr:
            if p[0] == 'x':
                t = mk('at', t, self.snap(st, p[1]))
            elif p[0] == 'g':
                t = mk('get', t, self.snap(st, p[1]))
            elif p[0] == 's':
                t = mk('sub', t, self.snap(st, p[1]))
            elif p[0] == 'e':
                t = mk('elem', t)
                for tag in p[1] if len(p) > 1 and isinstance(p[1], tuple) else ():
                    t = mk('part', t, tag)
            else:
                t = mk('fld', t, p[1] if len(p) > 1 else p[0])
        return t

    def operand(self, fr, st, o):
        if o[0] in ('cp', 'mv'):
            return self.rplace(fr, st, o[1])
        if o[0] == 'fn':
            f = self.p.fnref(o[1], fr.body.crate)
            return mk('fnv', f.res or f.path, f.canon, (fr.body.crate, self._js(o[1])))
        # constant
        val = o[2]
        t = None
        if isinstance(val, str):
            ty = self.p.tystr(fr.body.crate, o[1])
            if ty == 'char':
                t = k(val)
            else:
                t = k(int(val))
        elif isinstance(val, bool):
            t = k(val)
        elif isinstance(val, list):
            t = k(val[1])
        if o[3]:
            return mk('cdef', o[3], t)
        if t is None:
            if o[4]:
                return mk('cparam', o[4])
            ty = self.p.tystr(fr.body.crate, o[1])
            if ty == '()':
                return UNIT
            return mk('zst', ty)
        return t

    def _js(self, j):
        import json
        return json.dumps(j)

    # ---- rvalues ------------------------------------------------------------
    def rvalue(self, fr, st, rv, line, blk):
        k_ = rv[0]
        if k_ == 'use':
            return self.operand(fr, st, rv[1])
        if k_ == 'ref':
            ls = self.place(fr, st, rv[1])
            return phi(*[mk('ref', l) for l in ls])
        if k_ == 'cast':
            v = self.operand(fr, st, rv[1])
            return self.cast(v, self.p.tystr(fr.body.crate, rv[2]), fr, rv[1])
        if k_ == 'bin':
            a = undv(self.operand(fr, st, rv[2]))
            b_ = self.operand(fr, st, rv[3])
            op = rv[1]
            if op in ('BitAnd', 'BitOr') and self.is_bool_operand(fr, rv[2]):
                a = self.operand(fr, st, rv[2])
                return self.bool_op(op, a, b_, st)
            b = undv(b_)
            a, b = self.deref(st, a), self.deref(st, b)
            if op.endswith('WithOverflow'):
                return mk('tup', self.arith(op[:-12], a, b), FALSE)
            if op.endswith('Unchecked'):
                op = op[:-9]
            return self.arith(op, a, b)
        if k_ == 'un':
            v = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                return neg(v)
            if rv[1] == 'PtrMetadata':
                return mk('call', 'len', self.snap(st, self.deref(st, v)))
            return mk('un', rv[1], undv(v))
        if k_ == 'discr':
            v = self.rplace(fr, st, rv[1])
            v = self.deref(st, v)
            return mk('discr', v, tuple((str(a), b) for a, b in rv[2]))
        if k_ == 'agg':
            ops = [self.operand(fr, st, o) for o in rv[2]]
            kk = rv[1]
            if kk[0] == 'array':
                return mk('arr', *ops)
            if kk[0] == 'tuple':
                return mk('tup', *ops)
            if kk[0] == 'adt':
                t = mk('agg', kk[1], kk[2], tuple(kk[3]), *ops)
                return t
            if kk[0] == 'closure':
                return mk('clo', kk[1], *ops)
            return mk('other')
        if k_ == 'rep':
            return mk('rep', self.operand(fr, st, rv[1]), rv[2])
        if k_ == 'static':
            return mk('static', rv[1])
        return mk('other')

    def is_bool_operand(self, fr, o):
        if o[0] in ('cp', 'mv'):
            if len(o[1]) == 1:
                return self.p.tystr(fr.body.crate, fr.body.locals[o[1][0]][0]) == 'bool'
            return False
        if o[0] == 'k':
            return self.p.tystr(fr.body.crate, o[1]) == 'bool'
        return False

    def bool_op(self, op, a, b, st):
        # conjunction / disjunction keep their facts
        fa_t, fb_t, fa_f, fb_f = set(), set(), set(), set()
        decompose(a, True, fa_t)
        decompose(b, True, fb_t)
        decompose(a, False, fa_f)
        decompose(b, False, fb_f)
        ua, ub = undv(a), undv(b)
        if self.exists:
            for x, y in ((ua, ub), (ub, ua)):
                if y is (A_TRUE if op == 'BitAnd' else A_FALSE):
                    # neutral for the element at hand; the other elements are unconstrained
                    m = mk('call', 'mixed', x)
                    if op == 'BitAnd':
                        return mk('dv', m, (('False', frozenset()), ('True', frozenset(fa_t | fb_t | {(x, True)}))), None)
                    return mk('dv', m, (('False', frozenset(fa_f | fb_f | {(x, False)})), ('True', frozenset())), None)
        if op == 'BitAnd':
            if is_k(ua, False) or is_k(ub, False):
                return FALSE
            if is_k(ua, True):
                return b
            if is_k(ub, True):
                return a
            return mk('dv', canon_bin('BitAnd', ua, ub), (('False', frozenset(fa_f & fb_f)), ('True', frozenset(fa_t | fb_t))), None)
        if is_k(ua, True) or is_k(ub, True):
            return TRUE
        if is_k(ua, False):
            return b
        if is_k(ub, False):
            return a
        return mk('dv', canon_bin('BitOr', ua, ub), (('False', frozenset(fa_f | fb_f)), ('True', frozenset(fa_t & fb_t))), None)

    def arith(self, op, a, b):
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq'):
            self.note_bound(op, a, b)
        return canon_bin(op, a, b)

    WID = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64,
           'isize': 64, 'u128': 128, 'i128': 128, 'bool': 1, 'char': 32}

    def cast(self, v, ty, fr, o):
        src = None
        if o[0] in ('cp', 'mv') and len(o[1]) == 1:
            src = self.p.tystr(fr.body.crate, fr.body.locals[o[1][0]][0])
        elif o[0] == 'k':
            src = self.p.tystr(fr.body.crate, o[1])
        if ty in self.WID:
            n = kval(undv(v))
            if isinstance(n, bool):
                return k(int(n)) if ty != 'bool' else v
            if isinstance(n, int):
                return undv(v)
            if v.op == 'discr':
                return v
            if src in self.WID and self.WID[src] <= self.WID[ty]:
                return v
            return mk('cast', ty, undv(v))
        return v

    # ---- running ------------------------------------------------------------
    def arg_terms(self, body, args=None, names=None):
        """default argument terms: references point to symbolic memory"""
        out = []
        for i in range(body.args):
            if args and i in args:
                out.append(args[i])
                continue
            s = sym(names[i] if names and i < len(names) else 'a%d' % i)
            t = self.p.ty(body.crate, body.locals[i + 1][0])
            if t['refs'] > 0 or t['s'].startswith('&'):
                out.append(mk('ref', (('M', s), ())))
            else:
                out.append(s)
        return out

    def run(self, body, args=None, names=None, mem=None):
        """analyse body as a root; args: {index: term}; mem: {sym: value} initial memory behind references"""
        a = self.arg_terms(body, args, names)
        st = State({}, frozenset())
        if mem:
            for s, v in mem.items():
                st.v[('M', s)] = v
        fr = self.frame(body, None, ('root', ''))
        r = self.exec(fr, st, a)
        fr.final = r
        return fr

    def frame(self, body, parent, site):
        if parent is None:
            fr = Frame(body, None, site)
            fr.interp = self
            self.nframe += 1
            fr.id = self.nframe
            fr.depth = 0
            return fr
        key = (site, body.path)
        fr = parent.children.get(key)
        if fr is None:
            fr = Frame(body, parent, site)
            fr.interp = self
            self.nframe += 1
            fr.id = self.nframe
            fr.depth = parent.depth + 1
            parent.children[key] = fr
        return fr

    def cfg(self, body):
        if body._cfg is None:
            body._cfg = CFG(body)
        return body._cfg

    def exec(self, fr, st, args):
        """run frame; returns (State, ret term) or None when it never returns"""
        body = fr.body
        cfg = self.cfg(body)
        fr.args = args
        fr.trace = {}
        fr.branch = {}
        fr.edges = {}
        fr.nxtb = {}
        fr.backseen = set()
        fr.lio = {}
        st = st.copy()
        for i, a in enumerate(args):
            st.v[(fr.id, i + 1)] = a
        edge = {}            # (pred, blk) -> State
        hist = {}            # header -> visits
        lasthdr = {}         # header -> last in-state
        backk = {}           # header -> facts on back edges
        purged = {}
        hdrsym = {}          # (header, root) -> (entryval, entryknown)
        accs = {}            # (header, root) -> [mode, entry, back]
        fr.accs = accs
        pending = {0}
        instate = {0: st}
        entry_state = st
        exits = {}
        import heapq
        heap = [(0, 0)]
        inheap = {0}
        while heap:
            _, bi = heapq.heappop(heap)
            b = cfg.rpo[bi]
            inheap.discard(bi)
            self.steps += 1
            if self.steps > self.budget:
                raise Budget(fr.chain())
            stale = False
            # input state
            if b == 0:
                cur = self.join_list([entry_state] + [edge[(p, b)] for p in cfg.pred[b] if (p, b) in edge], fr)
            elif b in cfg.loops:
                lat = set(cfg.latches[b])
                ent = [edge[(p, b)] for p in cfg.pred[b] if (p, b) in edge and p not in lat]
                back = [edge[(p, b)] for p in cfg.pred[b] if (p, b) in edge and p in lat]
                if not ent:
                    continue
                lv, taken, derefed = cfg.dead(b)
                ent = [self.drop_dead(fr, x, lv, taken, derefed) for x in ent]
                back = [self.drop_dead(fr, x, lv, taken, derefed) for x in back]
                e = self.join_list(ent, fr)
                if back:
                    if b not in fr.backseen:
                        fr.backseen.add(b)
                        for x in fr.nxtb.get(b, ()):
                            instate.pop(x, None)
                            if cfg.idx[x] not in inheap:
                                inheap.add(cfg.idx[x])
                                heapq.heappush(heap, (cfg.idx[x], cfg.idx[x]))
                    hist[b] = hist.get(b, 0) + 1
                    bk = self.join_list(back, fr)
                    was = (backk.get(b), {kk: (x[0], x[2]) for kk, x in hdrsym.items() if kk[0] == b})
                    backk[b] = bk.known
                    cur = self.loop_join(fr, b, e, bk, lasthdr.get(b), hist[b], hdrsym, accs)
                    fr.lio[b] = (e, bk, cur)
                    if hist[b] < 24 and was != (backk[b], {kk: (x[0], x[2]) for kk, x in hdrsym.items() if kk[0] == b}):
                        # what leaves the loop depends on these
                        stale = True
                else:
                    cur = e
                lasthdr[b] = cur
            else:
                ins = [edge[(p, b)] for p in cfg.pred[b] if (p, b) in edge]
                if not ins:
                    continue
                cur = self.join_list(ins, fr)
            prev = instate.get(b)
            if prev is not None and b in fr.trace and not stale and self.same(prev, cur):
                continue
            if prev is not None and b in cfg.loops and len(cfg.loops[b]) > 1 and purged.get(b, 0) < 14:
                purged[b] = purged.get(b, 0) + 1
                # the loop is analysed anew from its new header state: nothing derived from the old one survives
                lp = cfg.loops[b]
                for x in lp:
                    for s in cfg.succ[x]:
                        if s in lp:
                            edge.pop((x, s), None)
                    if x != b:
                        instate.pop(x, None)
                        if x in cfg.loops:
                            hist.pop(x, None)
                            lasthdr.pop(x, None)
                            backk.pop(x, None)
                            fr.backseen.discard(x)
                for d_ in (hdrsym, accs):
                    for kk in [kk for kk in d_ if kk[0] != b and kk[0] in lp]:
                        del d_[kk]
            instate[b] = cur
            outs = self.block(fr, cur.copy(), b)
            for s in cfg.succ[b]:
                if s not in outs:
                    if (b, s) in edge:
                        # became infeasible: keep the earlier state (sound)
                        pass
                    continue
                ns = outs[s]
                if (b, s) in cfg.exit_edges:
                    for h in cfg.exit_edges[(b, s)]:
                        ns = self.loop_exit(fr, h, ns, backk.get(h), hdrsym, edge, cfg)
                for h in cfg.leaves(b, s):
                    ns = self.leave(fr, h, ns, accs)
                old = edge.get((b, s))
                if old is None or not self.same(old, ns):
                    edge[(b, s)] = ns
                    fr.edges[(b, s)] = True
                    si = cfg.idx[s]
                    if si not in inheap:
                        inheap.add(si)
                        # all ways round the loop first
                        heapq.heappush(heap, (cfg.looplast(s) if s in cfg.loops and b in cfg.latches[s] else si, si))
            while self.dirty:
                fid, h = self.dirty.pop()
                if fid == fr.id:
                    for x in [h] + [y for y in cfg.loops[h] if any(h in cfg.leaves(y, z) for z in cfg.succ[y])]:
                        if x in instate:
                            instate.pop(x)
                            if cfg.idx[x] not in inheap:
                                inheap.add(cfg.idx[x])
                                heapq.heappush(heap, (cfg.looplast(x) if x == h else cfg.idx[x], cfg.idx[x]))
            if body.blocks[b][1][0] == 'ret':
                exits[b] = outs.get('ret')
        fr.instate = instate
        rs = [s for s in exits.values() if s is not None]
        if not rs:
            fr.ret = None
            return None
        out = self.join_list(rs, fr)
        ret = out.v.get((fr.id, 0), UNIT)
        fr.ret = ret
        fr.exit_known = out.known
        fr.exit_state = out
        nv = {r: v for r, v in out.v.items() if r[0] != fr.id}
        return State(nv, out.known), ret

    def drop_dead(self, fr, st, lv, taken, derefed):
        i = fr.id
        na = fr.body.args
        v = {r: x for r, x in st.v.items() if r[0] != i or r[1] in lv or r[1] in taken or r[1] <= na or
             (r[1] in derefed and undv(x).op != 'ref')}
        return State(v, st.known) if len(v) != len(st.v) else st

    def same(self, a, b):
        if a is b:
            return True
        if a.known != b.known or len(a.v) != len(b.v):
            return False
        for r, v in a.v.items():
            if b.v.get(r) is not v:
                return False
        return True

    def join_list(self, sts, fr):
        r = sts[0]
        for s in sts[1:]:
            r = self.join2(r, s, fr)
        return r

    def boolish(self, fr, root):
        # only for locals of the current frame
        if root[0] == fr.id:
            return self.p.tystr(fr.body.crate, fr.body.locals[root[1]][0]) == 'bool'
        return False

    def join2(self, a, b, fr):
        if a is b:
            return a
        v = dict(a.v)
        for r, x in b.v.items():
            y = v.get(r)
            if y is None:
                if r[0] == 'M':
                    v[r] = join_val(r[1], a.known, x, b.known, False)
                else:
                    v[r] = x
            elif y is not x:
                v[r] = self.limit(join_val(y, a.known, x, b.known, self.boolish(fr, r)))
        for r in a.v:
            if r[0] == 'M' and r not in b.v:
                v[r] = join_val(a.v[r], a.known, r[1], b.known, False)
        return State(v, a.known & b.known)

    def limit(self, t):
        if t._depth > 70:
            return mk('mu', 'deep', frozenset(leaves(t)))
        if t.op == 'phi' and len(t.a[0]) > PHI_MAX:
            return mk('mu', 'wide', frozenset(leaves(t)))
        return t

    def loop_join(self, fr, h, e, bk, last, n, hdrsym, accs):
        v = dict(e.v)
        kn = e.known & bk.known
        for r, x in bk.v.items():
            y = v.get(r)
            if y is x:
                continue
            if y is None:
                if r[0] == 'M':
                    y = r[1]
                else:
                    v[r] = x
                    continue
            if self.boolish(fr, r):
                s = mk('hdr', fr.id, h, r)
                hdrsym[(h, r)] = (y, e.known, x, bk.known)
                v[r] = s
                continue
            a = self.try_acc(fr, h, r, y, x, accs)
            if a is not None:
                v[r] = a
                continue
            yu, xu = undv(y), undv(x)
            if yu.op == 'agg' and xu.op == 'agg' and yu.a[:3] == xu.a[:3] and yu.a[0] not in (OPT, RES, CF):
                fs = []
                for i, (p, q) in enumerate(zip(yu.a[3:], xu.a[3:])):
                    if p is q:
                        fs.append(p)
                        continue
                    z = self.try_acc(fr, h, (r, i), p, q, accs, ind=False)
                    if z is None:
                        z = self.limit(join_val(p, e.known, q, bk.known, False))
                        if last is not None and r in last.v and undv(last.v[r]).op == 'agg' and n > 3:
                            z = self.widen(undv(last.v[r]).a[3 + i], z, (fr.body.path, h, str(r[1]), i), n)
                    fs.append(z)
                v[r] = mk('agg', *(yu.a[:3] + tuple(fs)))
                continue
            j = self.limit(join_val(y, e.known, x, bk.known, False))
            if last is not None:
                o = last.v.get(r)
                if o is not None and o is not j and n > 3:
                    j = self.widen(o, j, (fr.body.path, h, r[1] if isinstance(r[1], int) else str(r[1])), n)
            v[r] = j
        for r, x in e.v.items():
            if r[0] == 'M' and r not in bk.v:
                v[r] = join_val(x, e.known, r[1], bk.known, False)
        return State(v, kn)

    # ---- accumulators --------------------------------------------------------
    def try_acc(self, fr, h, r, e, b, accs, ind=True):
        """header value for a scalar updated in the loop as acc = acc op t, or None"""
        ent = accs.get((h, r))
        if ent is not None and ent[0] == 'join':
            return None
        if not scalarish(e) or not scalarish(b):
            accs[(h, r)] = ['join', e, b, None]
            return None
        s = mk('acc', fr.id, h, r)
        if ent is None:
            accs[(h, r)] = ['new', e, None, None]
            return s
        if ent[0] == 'ind':
            s = mk('ridx', e, self.bnds.get((fr.id, h, r)) or mk('bnd', fr.id, h, r), 'Range')
            u = undv(b)
            if u.op == 'bin' and u.a[0] == 'Add' and is_k(u.a[1], 1) and u.a[2].op == 'ridx' and u.a[2].a[0] is ent[1]:
                accs[(h, r)] = ['ind', e, b, ent[3]]
                return s
            if (fr.id, h, r) in self.noind:
                accs[(h, r)] = ['join', e, b, None]
                return None
            # another way round the loop leaves it unchanged
            self.noind.add((fr.id, h, r))
            self.dirty.append((fr.id, h))
            accs[(h, r)] = ['new', e, None, None]
            return mk('acc', fr.id, h, r)
        # decompose the back value
        d = acc_decomp(undv(b), s)
        if d is None:
            accs[(h, r)] = ['join', e, b, None]
            return None
        op, t = d
        if ind and op == 'Add' and is_k(t, 1) and undv(b).op == 'bin' and (fr.id, h, r) not in self.noind:
            accs[(h, r)] = ['ind', e, b, None]
            self.dirty.append((fr.id, h))
            return mk('ridx', e, self.bnds.get((fr.id, h, r)) or mk('bnd', fr.id, h, r), 'Range')
        if ent[0] != 'acc' or ent[3] != (op, t) or ent[1] is not e:
            self.dirty.append((fr.id, h))
        accs[(h, r)] = ['acc', e, b, (op, t)]
        return s

    def note_bound(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == 'ridx' and x.a[1].op == 'bnd' and op in ('Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq'):
                key = x.a[1].a
                if key not in self.bnds and not any(z.op in ('acc', 'bnd') for z in subterms(y)):
                    # i < n  /  n > i  /  i != n
                    if op in ('Ne', 'Eq') or (op in ('Lt', 'Ge') and x is a) or (op in ('Gt', 'Le') and x is b):
                        self.bnds[key] = y
                        self.dirty.append((key[0], key[1]))

    def leave(self, fr, h, st, accs):
        todo = {}
        for (hh, r), (mode, e, b, d) in accs.items():
            if hh != h or mode not in ('acc', 'ind', 'new'):
                continue
            if mode == 'acc' or mode == 'new':
                s = mk('acc', fr.id, h, r)
                if mode == 'new':
                    todo[s] = undv(e)
                else:
                    todo[s] = mk('red', d[0], undv(e), d[1])
            else:
                bd = self.bnds.get((fr.id, h, r))
                if bd is not None:
                    todo[mk('ridx', e, bd, 'Range')] = ('cur', r, bd)
        if not todo:
            return st
        st = st.copy()
        sub = {x: y for x, y in todo.items() if isinstance(y, T)}
        for r, v in list(st.v.items()):
            cur = todo.get(v)
            if cur is None:
                if sub and v.op not in ('sym',):
                    nv = subst_acc(v, sub)
                    if nv is not v:
                        st.v[r] = nv
                continue
            if isinstance(cur, tuple):
                if cur[1] == r:
                    st.v[r] = cur[2]
            else:
                st.v[r] = cur
        return st

    def widen(self, o, j, key, n):
        if o is j:
            return j
        if o.op == 'agg' and j.op == 'agg' and o.a[:3] == j.a[:3]:
            return mk('agg', *(o.a[:3] + tuple(self.widen(x, y, key + (i,), n) for i, (x, y) in enumerate(zip(o.a[3:], j.a[3:])))))
        if o.op == 'tup' and j.op == 'tup' and len(o.a) == len(j.a):
            return mk('tup', *[self.widen(x, y, key + (i,), n) for i, (x, y) in enumerate(zip(o.a, j.a))])
        if o.op == 'upd' and j.op == 'upd' and o.a[0] is j.a[0]:
            d1 = dict(o.a[1])
            return mk('upd', j.a[0], tuple((m, self.widen(d1.get(m, x), x, key + (m,), n)) for m, x in j.a[1]))
        if j.op == 'seq':
            if o.op == 'seq' and o.a[0] is j.a[0]:
                if n <= 6:
                    return j
                return mk('seq', j.a[0], self.widen(o.a[1], j.a[1], key + ('e',), n))
            if n <= 6:
                return j
            return mk('seq', None, mk('mu', key, frozenset(leaves(j))))
        if n <= 5 and j.op in ('dv',) :
            return j
        if n <= 5 and j.op == 'phi' and all(x.op in ('agg', 'ref') for x in j.a[0]):
            return j
        return mk('mu', key, frozenset(x for x in leaves(j) | leaves(o)))

    def loop_exit(self, fr, h, st, bk, hdrsym, edge, cfg):
        st = st.copy()
        if bk is not None:
            # facts that held at the end of every completed iteration; the loop ran to exhaustion
            st.known = st.known | frozenset(f for f in bk if self.iterfact(f))
        for (hh, r), (ev, ek, bv, bkn) in hdrsym.items():
            if hh != h:
                continue
            s = mk('hdr', fr.id, h, r)
            cur = st.v.get(r)
            if cur is not s:
                continue
            if undv(bv) is A_TRUE or undv(bv) is A_FALSE:
                # the last element decides
                st.v[r] = mk('call', 'mixed', s)
                continue
            if isinstance(kval(undv(bv)), bool) and h in fr.nxtb:
                st.v[r] = undv(bv)
                continue
            tb = set(bkn)
            decompose(bv, True, tb)
            te = set(ek)
            decompose(ev, True, te)
            fb = set(bkn)
            decompose(bv, False, fb)
            fe = set(ek)
            decompose(ev, False, fe)
            if (s, True) in tb and is_k(undv(ev), False) or (s, False) in fb and is_k(undv(ev), True):
                # starts decided and never changes
                st.v[r] = undv(ev)
                continue
            if (s, True) in tb:
                t = (tb | te) - {(s, True)}
            elif is_k(undv(ev), False):
                t = tb
            else:
                t = tb & te
            if (s, False) in fb:
                f = (fb | fe) - {(s, False)}
            elif is_k(undv(ev), True):
                f = fb
            else:
                f = fb & fe
            t = frozenset(x for x in t if x[0] is not s)
            f = frozenset(x for x in f if x[0] is not s)
            st.v[r] = mk('dv', mk('flag', phi(undv(ev), rewrite_out(undv(bv), s))), (('False', f), ('True', t)), None)
        return st

    def iterfact(self, f):
        return True

    # ---- blocks -------------------------------------------------------------
    def block(self, fr, st, b):
        stmts, term, cl = fr.body.blocks[b]
        fr.trace[b] = self.cur = []
        fr.bknown[b] = st.known
        for pl, rv, line in stmts:
            if rv[0] == 'setd':
                continue
            v = self.rvalue(fr, st, rv, line, b)
            if self.assume is not None and rv[0] in ('bin', 'un'):
                v = self.assumed(st, v)
            if rv[0] == 'agg' and rv[1][0] == 'adt':
                fr.trace[b].append(('agg', b, line, self.snap(st, v), st.known))
            self.wplace(fr, st, pl, v)
        return self.term(fr, st, b, term)

    def term(self, fr, st, b, t):
        k_ = t[0]
        if k_ == 'goto':
            return {t[1]: st}
        if k_ == 'ret':
            return {'ret': st}
        if k_ == 'assert':
            c = self.operand(fr, st, t[1])
            if t[5] == 'bounds':
                o = set(st.known)
                decompose(self.snap(st, c), t[2], o)
                st.known = frozenset(o)
            return {t[3]: st}
        if k_ == 'sw':
            return self.switch(fr, st, b, t)
        if k_ == 'call':
            return self.call(fr, st, b, t)
        if k_ == 'yield':
            self.wplace(fr, st, t[3], mk('other'))
            return {t[2]: st}
        return {}

    def switch(self, fr, st, b, t):
        v = self.operand(fr, st, t[1])
        ty = self.p.tystr(fr.body.crate, t[5])
        outs = {}
        labels = {}
        targets = [(x, s) for x, s in t[2]]
        other = t[3]
        v = self.snap(st, v)
        if undv(v) is A_TRUE or undv(v) is A_FALSE:
            self.ahits += 1
        if self.assume is not None:
            if v.op == 'discr':
                v = mk('discr', self.assumed(st, v.a[0]), v.a[1])
            else:
                v = self.assumed(st, v)
        if v.op == 'discr':
            base, mp = v.a
            names = dict(mp)
            info = variants_info(base, frozenset())
            dead = self.excluded(info) if self.assume is not None and info is not None else ()
            used = set()
            for x, s in targets:
                n = names.get(x, x)
                used.add(n)
                if n in dead:
                    continue
                self.edge(st, outs, labels, s, base, n, info)
            rest = [n for n in names.values() if n not in used and n not in dead]
            if fr.body.blocks[other][1][0] != 'unr':
                if len(rest) == 1:
                    self.edge(st, outs, labels, other, base, rest[0], info)
                elif rest:
                    poss = [n for n in rest if info is None or n in info[0] or info[1] is not None]
                    if poss:
                        ns = st.copy()
                        if info is not None and info[1] is None and len(poss) == 1:
                            self.edge(st, outs, labels, other, base, poss[0], info)
                        else:
                            self.put(outs, other, ns)
                            labels.setdefault(other, []).append(('not', tuple(sorted(used))))
            fr.branch[b] = ('discr', base, labels)
            return outs
        if ty == 'bool':
            info = variants_info(v, frozenset())
            for x, s in targets:
                val = x != '0'
                self.edge(st, outs, labels, s, v, val, info)
            rest = [val for val in (True, False) if not any((x != '0') == val for x, s in targets)]
            if len(rest) == 1:
                self.edge(st, outs, labels, other, v, rest[0], info)
            fr.branch[b] = ('bool', v, labels)
            return outs
        u = undv(v)
        n = kval(u)
        cands = None
        if n is not None:
            cands = {n}
        elif u.op == 'phi' and all(kval(x) is not None for x in u.a[0]):
            cands = {kval(x) for x in u.a[0]}
        hit = set()
        if self.assume is not None and cands is None:
            for x, s in targets:
                q = kval(undv(self.assumed(st, canon_bin('Eq', u, k(int(x))))))
                if q is True:
                    cands = {int(x)}
                    break
                if q is False:
                    hit.add(int(x))
            if cands is None and hit:
                targets = [(x, s) for x, s in targets if int(x) not in hit]
        for x, s in targets:
            xv = int(x)
            if isinstance(n, str):
                pass
            if cands is not None and xv not in cands:
                continue
            hit.add(xv)
            ns = st.copy()
            ns.known = ns.known | {(u, xv)}
            self.put(outs, s, ns)
            labels.setdefault(s, []).append(xv)
        if cands is None or cands - {int(x) for x, s in targets}:
            if fr.body.blocks[other][1][0] != 'unr':
                ns = st.copy()
                self.put(outs, other, ns)
                labels.setdefault(other, []).append(('not', tuple(sorted(int(x) for x, s in targets))))
        fr.branch[b] = ('int', u, labels)
        return outs

    def excluded(self, info):
        """variants whose facts contradict the assumption"""
        out = set()
        for n, fx in info[0].items():
            for c, val in fx:
                if isinstance(val, bool) and isinstance(c, T) and c.op == 'call':
                    r = self.assume(c)
                    if r is not None and (r is TRUE or r is FALSE) and (r is TRUE) != val:
                        out.add(n)
        return out

    def assumed(self, st, v):
        r = self.assumed1(st, v)
        if self.exists and r is not v and (r is TRUE or r is FALSE):
            self.ahits += 1
            return A_TRUE if r is TRUE else A_FALSE
        return r

    def assumed1(self, st, v):
        if v.op in ('k', 'ref', 'agg', 'sym', 'bot'):
            return v
        u = undv(self.snap(st, v))
        if u.op in ('k', 'agg', 'bot'):
            return v
        r = self.assume(u)
        if r is not None:
            return r
        if self.nonempty is not None and u.op == 'bin' and u.a[0] in ('Lt', 'Le', 'Eq'):
            for z, (x, y) in enumerate(((u.a[1], u.a[2]), (u.a[2], u.a[1]))):
                if y.op == 'call' and y.a[0] == 'len' and isinstance(kval(x), int) and self.nonempty(undv(y.a[1])):
                    n = kval(x)
                    if u.a[0] == 'Eq' and n == 0:
                        return FALSE
                    if z == 0 and ((u.a[0] == 'Lt' and n <= 0) or (u.a[0] == 'Le' and n <= 1)):
                        return TRUE
                    if z == 1 and ((u.a[0] == 'Lt' and n <= 1) or (u.a[0] == 'Le' and n <= 0)):
                        return FALSE
        if u.op == 'un' and u.a[0] == 'Not':
            r = self.assumed(st, u.a[1])
            if r is not u.a[1]:
                return neg(r)
        elif u.op == 'bin' and u.a[0] in ('BitAnd', 'BitOr') and v.op != 'k':
            x, y = kval(self.assumed(st, u.a[1])), kval(self.assumed(st, u.a[2]))
            if u.a[0] == 'BitAnd' and (x is False or y is False):
                return FALSE
            if u.a[0] == 'BitOr' and (x is True or y is True):
                return TRUE
        return v

    def src_nonempty(self, s):
        if self.nonempty is None:
            return False
        s = undv(s)
        if s.op == 'src':
            c = undv(s.a[0])
            if c.op == 'agg' and c.a[1] == 'Range' and is_k(undv(c.a[3]), 0):
                n = undv(c.a[4])
                if n.op == 'call' and n.a[0] == 'len':
                    return bool(self.nonempty(undv(n.a[1])))
            return bool(self.nonempty(c))
        if s.op == 'rev':
            return self.src_nonempty(s.a[0])
        if s.op == 'cut' and kval(s.a[1].a[0]) == 'take':
            return self.src_nonempty(s.a[0]) and bool(self.nonempty(undv(s.a[1].a[1])))
        if s.op in ('zip', 'flat'):
            return self.src_nonempty(s.a[0]) and self.src_nonempty(s.a[1])
        if s.op == 'chain':
            return self.src_nonempty(s.a[0]) or self.src_nonempty(s.a[1])
        if s.op == 'phi':
            return all(self.src_nonempty(x) for x in alts(s))
        return False

    def must_iter(self, cs, src):
        """first arrival at a loop over a collection assumed to be non-empty"""
        if self.nonempty is None or src is None:
            return False
        if not self.src_nonempty(src):
            return False
        fr = cs.fr
        cfg = fr.body._cfg
        hs = sorted(cfg.in_loops(cs.b), key=lambda h: len(cfg.loops[h]))
        if not hs:
            return False
        fr.nxtb.setdefault(hs[0], set()).add(cs.b)
        return hs[0] not in fr.backseen

    def put(self, outs, s, ns):
        if s in outs:
            outs[s] = State({r: (x if outs[s].v.get(r) is x else phi(undv(x), undv(outs[s].v.get(r, x)))) for r, x in ns.v.items()}, outs[s].known & ns.known)
        else:
            outs[s] = ns

    def edge(self, st, outs, labels, s, base, val, info):
        key = str(val)
        extra = set()
        if info is not None:
            d, df = info
            f = d.get(key, df)
            if f is None:
                return
            extra |= f
        decompose(base, val, extra)
        if self.assume is not None:
            for t, tv in extra:
                if isinstance(tv, bool):
                    q = kval(undv(self.assumed(st, t)))
                    if isinstance(q, bool) and q != tv:
                        return
        ns = st.copy()
        if extra:
            ns.known = ns.known | frozenset(extra)
            if len(ns.known) > KCAP:
                ns.known = st.known
        self.put(outs, s, ns)
        labels.setdefault(s, []).append(val)

    # ---- calls --------------------------------------------------------------
    def call(self, fr, st, b, t):
        _, fo, aops, dest, target, line = t
        args = [self.operand(fr, st, a) for a in aops]
        fr.trace.setdefault(b, [])
        atys = []
        for a in aops:
            if a[0] in ('cp', 'mv') and len(a[1]) == 1:
                atys.append(self.p.tystr(fr.body.crate, fr.body.locals[a[1][0]][0]))
            elif a[0] == 'k':
                atys.append(self.p.tystr(fr.body.crate, a[1]))
            else:
                atys.append('')
        cs = CallSite(self, fr, b, line, atys)
        if fo[0] == 'fn':
            f = self.p.fnref(fo[1], fr.body.crate)
            r = self.call_fn(cs, st, f, args)
        else:
            fv = self.operand(fr, st, fo)
            r = self.call_value(cs, st, fv, args)
        if r is None:
            return {}
        st, ret = r
        if target < 0:
            return {}
        if self.assume is not None:
            ret = self.assumed(st, ret)
        self.wplace(fr, st, dest, self.limit(ret))
        return {target: st}

    def call_value(self, cs, st, fv, args):
        """call a closure / function value"""
        fv = self.deref(st, fv)
        u = undv(fv)
        if u.op == 'phi':
            res = None
            n = 0
            for x in alts(u):
                cs2 = cs.sub('alt%d' % n)
                n += 1
                r = self.call_value(cs2, st, x, args)
                if r is None:
                    continue
                if res is None:
                    res = r
                else:
                    res = (self.join2(res[0], r[0], cs.fr), phi(undv(res[1]), undv(r[1])))
            return res
        if u.op == 'fnv':
            import json
            f = self.p.fnref(json.loads(u.a[2][1]), u.a[2][0])
            return self.call_fn(cs, st, f, args)
        if u.op == 'clo':
            body = self.p.bodies.get(u.a[0])
            if body is not None and cs.fr.depth < self.max_depth and not self.recursive(cs.fr, body):
                selfty = self.p.tystr(body.crate, body.locals[1][0])
                env = u
                if selfty.startswith('&'):
                    root = (('C', cs.key(), u.id), 0)
                    st = st.copy()
                    st.v[root] = u
                    env = mk('ref', (root, ()))
                a = [env] + list(args)
                return self.inline(cs, st, body, a)
            return st, self.opaque_call(cs, st, 'closure', u.a[0], list(args), None)
        return st, self.opaque_call(cs, st, 'indirect', show(u), list(args), None)

    def recursive(self, fr, body):
        n = 0
        while fr:
            if fr.body is body:
                n += 1
                if n >= 1:
                    return True
            fr = fr.parent
        return False

    def inline(self, cs, st, body, args, f=None):
        child = self.frame(body, cs.fr, (cs.b, cs.tag))
        if f is not None and f.trait and f.args and isinstance(f.args[0], int) and F.head(body.path) == f.trait:
            ty = self.p.ty(f.crate, f.args[0])
            child.selfty = ty['adt'] if isinstance(ty['adt'], str) and ty['refs'] == 0 else cs.fr.selfty if ty['s'] == 'Self' else None
        cs.fr.trace[cs.b].append(('fr', child, cs.loop))
        n = self.ahits
        r = self.exec(child, st, args)
        if r is not None and self.exists and self.ahits != n:
            r = (r[0], tag_assumed(r[1]))
        return r

    def ctor(self, path):
        """tuple-struct / tuple-variant constructor"""
        h, n = F.head(path), F.last(path)
        for adt, var in ((h, n), (F.strip_generics(path), n)):
            a = self.p.adts.get(adt)
            if a:
                for v in a['variants']:
                    if v['name'] == var:
                        return adt, v
        return None

    def resolve(self, f, args, st, cs):
        """body path for a call, dispatching trait methods on known argument types"""
        if f.res and f.res in self.p.bodies and not (f.trait and F.head(f.res) == f.trait):
            return f.res
        if f.trait:
            cand = None
            if args:
                v = undv(self.deref(st, args[0]))
                if v.op == 'agg':
                    cand = self.p.trait_impl_method(f.trait, v.a[0], f.name)
                elif v.op == 'phi':
                    adts = {x.a[0] for x in alts(v) if x.op == 'agg'}
                    if len(adts) == 1 and all(x.op == 'agg' for x in alts(v)):
                        cand = self.p.trait_impl_method(f.trait, next(iter(adts)), f.name)
            if cand is None and f.args:
                # explicit self type
                t0 = f.args[0]
                if isinstance(t0, int):
                    ty = self.p.ty(f.crate, t0)
                    if isinstance(ty['adt'], str) and ty['refs'] == 0:
                        cand = self.p.trait_impl_method(f.trait, ty['adt'], f.name)
                    elif ty['s'] == 'Self' and cs.fr.selfty:
                        cand = self.p.trait_impl_method(f.trait, cs.fr.selfty, f.name)
            if cand:
                return cand
            if f.res and f.res in self.p.bodies:
                return f.res
            if f.path in self.p.bodies and not f.res:
                return None
            return None
        if f.path in self.p.bodies:
            return f.path
        return None

    def want_inline(self, body, f, cs):
        if cs.fr.depth >= self.max_depth or self.recursive(cs.fr, body):
            return False
        if body.path in self.opaque:
            return False
        if self.inline_pred is not None:
            return self.inline_pred(body, f, cs)
        return True

    def call_fn(self, cs, st, f, args):
        m = self.models.lookup(f)
        if m is not None:
            r = m(self, cs, st, f, args)
            if r is not NotImplemented:
                if r is None:
                    return None
                if isinstance(r, T):
                    return st, r
                return r
        bp = self.resolve(f, args, st, cs)
        if bp is not None:
            body = self.p.bodies[bp]
            if self.want_inline(body, f, cs):
                return self.inline(cs, st, body, args, f)
            r = self.opaque_call(cs, st, f.canon, bp, args, f)
            return None if r is None else (st, r)
        c = self.ctor(f.path)
        if c is not None and c[1]['fields'] and len(c[1]['fields']) == len(args):
            t = mk('agg', c[0], c[1]['name'], tuple(x[0] for x in c[1]['fields']), *args)
            cs.fr.trace[cs.b].append(('agg', cs.b, cs.line, self.snap(st, t), st.known))
            return st, t
        r = self.opaque_call(cs, st, f.canon, f.res or f.path, args, f)
        return None if r is None else (st, r)

    def opaque_call(self, cs, st, canon, path, args, f):
        sn = [self.snap(st, a) for a in args]
        mut = any(t.startswith('&mut') or t.startswith('&\'a mut') for t in cs.atys) or canon in STATEFUL
        if self.force_read is not None and canon in self.force_read[0]:
            if self.force_site is None:
                self.force_site = (cs.fr.id, cs.b, cs.tag)
            if self.force_site == (cs.fr.id, cs.b, cs.tag):
                e = Event()
                e.canon, e.path, e.args, e.ret, e.line, e.block, e.fr, e.known = canon, path, sn, self.force_read[1], cs.line, cs.b, cs.fr, st.known
                e.raw = f
                e.kind = cs.loop
                cs.fr.trace[cs.b].append(('ev', e))
                return self.force_read[1]
        if mut:
            ret = mk('call', canon, *sn, mk('site', cs.fr.id, cs.b, cs.tag))
        else:
            ret = mk('call', canon, *sn)
        e = Event()
        e.canon, e.path, e.args, e.ret, e.line, e.block, e.fr, e.known = canon, path, sn, ret, cs.line, cs.b, cs.fr, st.known
        e.raw = f
        e.kind = cs.loop
        e.at = [tuple(self.placeterm(st, l) for l in self.deref_locs(st, a) or ()) if 'ref' == undv(a).op else () for a in args] if self.mutout is not None else None
        cs.fr.trace[cs.b].append(('ev', e))
        mo = self.mutout(path) if mut and self.mutout is not None else None
        if mo:
            for i, (a, ty) in enumerate(zip(args, cs.atys)):
                if ty.startswith('&mut') or ty.startswith("&'a mut"):
                    for l in self.deref_locs(st, a) or []:
                        self.write(st, l, mo if isinstance(mo, T) else mk('mut', path, i, sn[i], *[x for j, x in enumerate(sn) if j != i]))
        elif mut:
            for a, ty in zip(args, cs.atys):
                if ty.startswith('&mut') or ty.startswith("&'a mut"):
                    ls = self.deref_locs(st, a)
                    for l in ls or []:
                        if l[0][0] == 'M':
                            continue
                        old = self.read(st, l)
                        if undv(old).op in ('sym', 'fld', 'call', 'mod', 'ref'):
                            continue
                        self.write(st, l, mk('mod', undv(old), canon, frozenset(x for s in sn for x in leaves(s))))
        return ret


STRUCT = ('agg', 'tup', 'arr', 'seq', 'ref', 'it', 'clo', 'fnv', 'rep', 'upd', 'uninit', 'bot', 'entry', 'sub')


def scalarish(t):
    t = undv(t)
    if t.op == 'phi':
        return all(scalarish(x) for x in t.a[0])
    return t.op not in STRUCT


def acc_decomp(b, s):
    """b = s op t  (or a join of s and s op t): (op, t)"""
    if b.op == 'phi':
        ops, ts, bare = set(), [], False
        for x in alts(b):
            if x is s:
                bare = True
                continue
            d = acc_decomp(x, s)
            if d is None:
                return None
            ops.add(d[0])
            ts.append(d[1])
        if len(ops) != 1:
            return None
        t = phi(*ts)
        return ops.pop(), (mk('maybe', t) if bare else t)
    if b.op == 'bin' and b.a[0] in ('Add', 'Mul', 'BitXor', 'BitAnd', 'BitOr'):
        x, y = b.a[1], b.a[2]
        if x is s and not has(y, s):
            return b.a[0], y
        if y is s and not has(x, s):
            return b.a[0], x
        for p, q in ((x, y), (y, x)):
            d = acc_decomp(p, s) if has(p, s) and not has(q, s) else None
            if d is not None and d[0] == b.a[0] and d[1].op != 'maybe':
                return b.a[0], canon_bin(b.a[0], d[1], q)
    if b.op == 'bin' and b.a[0] in ('Sub', 'Shr', 'Shl', 'Div') and b.a[1] is s and not has(b.a[2], s):
        return b.a[0], b.a[2]
    if b.op == 'red' and b.a[1] is s and not has(b.a[2], s):
        return b.a[0], mk('red', b.a[0], mk('unit', b.a[0]), b.a[2])
    if b.op == 'call' and b.a[0] in ('max', 'min') and len(b.a) == 3:
        if b.a[1] is s and not has(b.a[2], s):
            return b.a[0], b.a[2]
        if b.a[2] is s and not has(b.a[1], s):
            return b.a[0], b.a[1]
    return None


def has(t, s):
    return any(x is s for x in subterms(t))


def subst_acc(v, sub):
    ks = list(sub)
    if not any(x in sub for x in subterms(v)):
        return v
    return rewrite(v, lambda x: sub.get(x, x))


def rewrite_out(t, s):
    if t is s:
        return BOT
    if t.op == 'phi':
        return phi(*[x for x in alts(t) if x is not s])
    return t


class CallSite:
    __slots__ = ('I', 'fr', 'b', 'line', 'atys', 'tag', 'loop')

    def __init__(self, I, fr, b, line, atys, tag='', loop=None):
        self.I = I
        self.fr = fr
        self.b = b
        self.line = line
        self.atys = atys
        self.tag = tag
        self.loop = loop

    def sub(self, tag, loop=None):
        return CallSite(self.I, self.fr, self.b, self.line, self.atys, self.tag + '/' + tag, loop or self.loop)

    def key(self):
        return (self.fr.id, self.b, self.tag)
