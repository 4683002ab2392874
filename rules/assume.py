"""Counterfactual reachability: assume a condition is violated (for every element of the collections it quantifies over)
and decide whether a successful exit of the function is still reachable in the abstract interpretation."""
from rules.common import *


def linform(t):
    """t as (coefficients of non-constant terms, constant)"""
    d = {}
    c = 0

    def go(x, m):
        nonlocal c
        x = undv(x)
        v = kval(x)
        if isinstance(v, int) and not isinstance(v, bool):
            c += m * v
        elif x.op == 'bin' and x.a[0] == 'Add':
            go(x.a[1], m)
            go(x.a[2], m)
        elif x.op == 'bin' and x.a[0] == 'Sub':
            go(x.a[1], m)
            go(x.a[2], -m)
        else:
            d[x] = d.get(x, 0) + m
    go(t, 1)
    return {x: n for x, n in d.items() if n}, c


INF = float('inf')
IV = {'gt': (1, INF), 'ge': (0, INF), 'lt': (-INF, -1), 'le': (-INF, 0), 'eq': (0, 0), 'ne': None}


class Rel:
    """lhs op rhs holds; lhs/rhs are predicates on terms, rhs may be an integer"""

    def __init__(self, lhs, op, rhs, plus=0):
        # lhs op rhs + plus
        self.lhs, self.op, self.rhs, self.plus = lhs, op, rhs, plus
        self.hits = 0

    def diff(self, d, c):
        """(sign, const) with the difference d+c == sign*(lhs-rhs)+const, or None"""
        if isinstance(self.rhs, int):
            if len(d) == 1:
                (x, n), = d.items()
                if abs(n) == 1 and self.lhs(x):
                    return n, c + n * self.rhs
            return None
        ls = self.lhs if isinstance(self.lhs, (list, tuple)) else [self.lhs]
        rs = self.rhs if isinstance(self.rhs, (list, tuple)) else [self.rhs]
        if len(d) == len(ls) + len(rs) and all(abs(n) == 1 for n in d.values()):
            for s in (1, -1):
                left = list(d.items())
                good = True
                for ps, sg in ((ls, s), (rs, -s)):
                    for p in ps:
                        i = next((i for i, (x, n) in enumerate(left) if n == sg and p(x)), None)
                        if i is None:
                            good = False
                            break
                        left.pop(i)
                    if not good:
                        break
                if good:
                    return s, c + s * self.plus
        return None

    def decide(self, t):
        if t.op != 'bin' or t.a[0] not in ('Lt', 'Le', 'Eq'):
            return None
        d1, c1 = linform(t.a[1])
        d2, c2 = linform(t.a[2])
        d = dict(d1)
        for x, n in d2.items():
            d[x] = d.get(x, 0) - n
        d = {x: n for x, n in d.items() if n}
        r = self.diff(d, c1 - c2)
        if r is None:
            return None
        s, c = r
        self.hits += 1
        if self.op == 'ne':
            return k(False) if t.a[0] == 'Eq' and c == 0 else None
        lo, hi = IV[self.op]
        lo, hi = (s * lo + c, s * hi + c) if s > 0 else (s * hi + c, s * lo + c)
        if t.a[0] == 'Lt':
            return k(True) if hi < 0 else k(False) if lo >= 0 else None
        if t.a[0] == 'Le':
            return k(True) if hi <= 0 else k(False) if lo > 0 else None
        if lo > 0 or hi < 0:
            return k(False)
        if lo == hi == 0:
            return k(True)
        return None


def success(I, fr, names=('Ok', 'True')):
    """is a successful return feasible?"""
    if fr.ret is None:
        return False
    r = fr.ret
    info = A.variants_info(r, fr.exit_known)
    if info is None:
        return True
    if info[1] is not None:
        # open: some variants unknown
        return True
    return any(n in info[0] for n in names)


def counterfactual(ctx, body, rels=(), fn=None, nonempty=(), names=None, args=None, mem=None, opaque=(), inline=None, budget=200000, state=None, mutout=None):
    """run body under the assumption; returns (Interp, Frame)"""
    I = A.Interp(ctx.prog, inline=inline, opaque=opaque, budget=budget)

    def assume(t):
        if fn is not None:
            r = fn(t)
            if r is not None:
                return r
        for rel in rels:
            r = rel.decide(t)
            if r is not None:
                return r
        return None
    I.assume = assume
    I.exists = True
    ne = nonempty if callable(nonempty) else (lambda s: any(s is x for x in nonempty))
    I.nonempty = ne
    I.mutout = mutout
    fr = I.run(body, names=names, args=args, mem=mem)
    return I, fr


def is_path(*steps):
    """predicate: term is an access path ending with the given steps; '*' is an element, 'name' a field, ('call', f) the
    result of a call on the rest of the path"""
    def p(t):
        t = undv(t)
        for s in reversed(steps):
            t = undv(t)
            if s == '*':
                while t.op == 'part':
                    t = undv(t.a[0])
                if t.op not in ('elem', 'at'):
                    return False
                t = t.a[0]
            elif isinstance(s, tuple):
                if t.op != 'call' or not str(t.a[0]).endswith(s[1]):
                    return False
                t = t.a[1] if len(t.a) > 1 else t
            else:
                if t.op != 'fld' or t.a[1] != s:
                    return False
                t = t.a[0]
        return True
    return p


def prefixes(t):
    """collections along an access path"""
    out = set()
    t = undv(t)
    while True:
        if t.op == 'elem':
            out.add(undv(t.a[0]))
            t = undv(t.a[0])
        elif t.op == 'fld':
            t = undv(t.a[0])
        elif t.op == 'call' and len(t.a) > 1 and isinstance(t.a[1], T):
            t = undv(t.a[1])
        else:
            return out


def accmap(fr):
    """accumulator symbols of all frames -> the reduction they stand for"""
    m = {}
    for f in frames(fr):
        for (h, r), ent in getattr(f, 'accs', {}).items():
            if ent[0] == 'acc':
                m[mk('acc', f.id, h, r)] = mk('red', ent[3][0], undv(ent[1]), ent[3][1])
            elif ent[0] == 'new':
                m[mk('acc', f.id, h, r)] = undv(ent[1])
    return m
