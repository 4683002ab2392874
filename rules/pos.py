"""Symbolic positions: index terms as polynomials, loop counters as 'rho(length)' (a value running through 0..length)."""
from fractions import Fraction
from rules.common import *


def ck(x):
    if isinstance(x, T):
        return '#%d' % id(x)
    if isinstance(x, frozenset):
        return '{%s}' % ','.join(sorted(ck(y) for y in x))
    if isinstance(x, tuple):
        return '(%s)' % ','.join(ck(y) for y in x)
    return repr(x)


def padd(p, q, m=1):
    d = dict(p)
    for x, n in q.items():
        d[x] = d.get(x, 0) + m * n
    return {x: n for x, n in d.items() if n}


def pmul(p, q):
    d = {}
    for x, n in p.items():
        for y, m in q.items():
            z = tuple(sorted(x + y, key=ck))
            d[z] = d.get(z, 0) + n * m
    return {x: n for x, n in d.items() if n}


def pk(p):
    return frozenset(p.items())


def pc(n):
    return {(): n} if n else {}


def atom(x):
    return {(x,): 1}


def rho(p):
    return atom(('rho', pk(p)))


def pabs(d):
    if set(d) <= {()}:
        return pc(abs(d.get((), 0)))
    e = padd({}, d, -1)
    a, b = pk(d), pk(e)
    return atom(('abs', a if ck(a) < ck(b) else b))


def pmin(p, q, sg=-1):
    """min(p, q) = (p + q - |p - q|) / 2"""
    h = Fraction(1, 2)
    return padd(padd(padd({}, p, h), q, h), pabs(padd(p, q, -1)), sg * h)


def pdiv(p, q):
    return atom(('div', pk(p), pk(q)))


def prem(p, q):
    return atom(('rem', pk(p), pk(q)))


def poly(t):
    """polynomial normal form of an integer term"""
    t = undv(t)
    v = kval(t)
    if isinstance(v, int) and not isinstance(v, bool):
        return pc(v)
    if show(t).endswith('PACK_SIZE') and len(show(t)) < 60 and t.op not in ('bin',):
        return atom('P')
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub', 'Mul'):
        a, b = poly(t.a[1]), poly(t.a[2])
        return pmul(a, b) if t.a[0] == 'Mul' else padd(a, b, 1 if t.a[0] == 'Add' else -1)
    if t.op == 'bin' and t.a[0] in ('Div', 'Rem'):
        return (pdiv if t.a[0] == 'Div' else prem)(poly(t.a[1]), poly(t.a[2]))
    if t.op == 'ridx' and t.a[2] == 'Range':
        lo, hi = poly(t.a[0]), poly(t.a[1])
        return padd(lo, rho(padd(hi, lo, -1)))
    if t.op == 'eidx':
        s = t.a[0]
        return rho(seqlen(s.a[0] if s.op == 'src' else s))
    if t.op == 'call' and str(t.a[0]) == 'len' and isinstance(t.a[1], T):
        return seqlen(t.a[1])
    n = str(t.a[0]).rsplit('::', 1)[-1] if t.op in ('call', 'min', 'max') and t.a and not isinstance(t.a[0], T) else t.op
    if n == 'min' and len([x for x in t.a if isinstance(x, T)]) == 2:
        a, b = [x for x in t.a if isinstance(x, T)]
        return pmin(poly(a), poly(b), -1)
    if n == 'max' and len([x for x in t.a if isinstance(x, T)]) == 2:
        a, b = [x for x in t.a if isinstance(x, T)]
        return pmin(poly(a), poly(b), 1)
    if n == 'div_ceil' and len(t.a) == 3:
        a, b = poly(t.a[1]), poly(t.a[2])
        return pdiv(padd(padd(a, b), pc(-1)), b)
    return atom(t)


def seqlen(v):
    v = undv(v)
    if v.op == 'sub':
        b = bounds(v)
        if b and b[1] is not None:
            return padd(b[1], b[0], -1)
    return atom(mk('call', 'len', v))


def bounds(v):
    """(start, end) polynomials of a slice term"""
    r = undv(v.a[1])
    if r.op != 'agg':
        return None
    f = dict(zip(r.a[2], r.a[3:]))
    n = r.a[1]
    lo = poly(f['start']) if 'start' in f else {}
    hi = poly(f['end']) if 'end' in f else None
    if n == 'RangeInclusive' or n == 'RangeToInclusive':
        hi = padd(hi, pc(1)) if hi is not None else None
    return lo, hi


def pos(t):
    """(base collection, position polynomial) of an element term"""
    t = undv(t)
    if t.op == 'at':
        b, p = base(undv(t.a[0]))
        return b, padd(p, poly(t.a[1]))
    if t.op == 'elem':
        v = undv(t.a[0])
        b, p = base(v)
        return b, padd(p, rho(seqlen(v)))
    if t.op == 'part':
        tags = []
        while t.op == 'part':
            tags.append(t.a[1])
            t = undv(t.a[0])
        if t.op != 'elem':
            return None
        b, off = base(undv(t.a[0]))
        n = None
        for g in reversed(tags):
            if g.op == 'tup' and kval(g.a[0]) in ('skip', 'take'):
                q = poly(g.a[1])
                if kval(g.a[0]) == 'skip':
                    off = padd(off, q)
                    n = padd(n, q, -1) if n is not None else None
                else:
                    n = q if n is None else pmin(n, q)
            elif g.op == 'tup' and kval(g.a[0]) == 'slice':
                x = mk('sub', sym('?'), g.a[1])
                bb = bounds(x)
                if bb is None:
                    return None
                off = padd(off, bb[0])
                n = padd(bb[1], bb[0], -1) if bb[1] is not None else (padd(n, bb[0], -1) if n is not None else None)
            else:
                return None
        if n is None:
            n = padd(seqlen(undv(t.a[0])), off, -1)
        return b, padd(off, rho(n))
    return None


def base(v):
    off = {}
    v = undv(v)
    while v.op == 'sub':
        b = bounds(v)
        if b is None:
            break
        off = padd(off, b[0])
        v = undv(v.a[0])
    return v, off


def pshow(p):
    def m(x):
        if isinstance(x, tuple) and x and x[0] in ('rho', 'abs', 'div', 'rem'):
            if x[0] == 'rho':
                return 'each(%s)' % pshow(dict(x[1]))
            if x[0] == 'abs':
                return '|%s|' % pshow(dict(x[1]))
            return '(%s %s %s)' % (pshow(dict(x[1])), '/' if x[0] == 'div' else '%', pshow(dict(x[2])))
        return show(x)[:60] if isinstance(x, T) else str(x)
    if not p:
        return '0'
    return ' + '.join(sorted(('%s*' % n if n != 1 else '') + '*'.join(m(x) for x in k) if k else str(n) for k, n in p.items()))
