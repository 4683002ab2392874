"""Algebraic normal forms of gadget code: every value built from emulated-field operations is a polynomial over the base
field in the components of the operands, divisions and hint outputs being opaque atoms."""
import absint as A
from terms import *
from rules.common import *

PMOD = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
GF = 'circuit_std_rs::gnark::field::GField::<T>::'
RING = ('add', 'sub', 'mul', 'neg', 'mul_const', 'select', 'div', 'inverse', 'reduce', 'is_zero', 'new_hint', 'assert_is_equal', 'copy', 'get_element_sign', 'enforce_width_conditional',
        'enforce_width', 'pack_limbs', 'mul_mod', 'check_zero', 'hash_to_fp', 'check_mul')
STRIP = ('clone', 'into', 'borrow', 'as_ref', 'to_owned', 'deref')
COMP = {'GE2': ('a0', 'a1'), 'GE6': ('b0', 'b1', 'b2'), 'GE12': ('c0', 'c1')}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + s * c) % PMOD
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    if len(a) > len(b):
        a, b = b, a
    for m, c in a.items():
        for n, d in b.items():
            q = tuple(sorted(m + n))
            # selector bits are idempotent
            if any(x < 0 for x in q):
                q = tuple(x for i, x in enumerate(q) if x >= 0 or i == 0 or q[i - 1] != x)
            r[q] = r.get(q, 0) + c * d
    return {m: v % PMOD for m, v in r.items() if v % PMOD}


def const(n):
    n %= PMOD
    return {(): n} if n else {}


def cval(p):
    if not p:
        return 0
    return p[()] if set(p) == {()} else None


def normed(p, lead=None):
    """up to a nonzero scalar of the base field"""
    if not p:
        return ()
    m = min(p, key=lambda x: (len(x), x)) if lead is None else lead
    i = pow(p[m], -1, PMOD)
    return tuple(sorted((q, c * i % PMOD) for q, c in p.items()))


def cn(t):
    return str(t.a[0]).rsplit('::', 1)[-1] if t.op == 'call' else None


def nosite(t):
    return [x for x in t.a[1:] if not (isinstance(x, T) and x.op == 'site')]


class Alg:
    def __init__(self, consts=None):
        self.memo = {}
        self.ids = {}
        self.names = {}
        # constant fields of the gadget objects, by access path
        self.consts = consts or {}
        self.tails = {x.rsplit('.', 1)[-1] for x in self.consts}

    def atom(self, key, name=None, bit=False):
        i = self.ids.get(key)
        if i is None:
            i = len(self.ids) + 1
            if bit:
                i = -i
            self.ids[key] = i
            self.names[i] = name or (show(key)[:80] if isinstance(key, T) else str(key)[:80])
        return {(i,): 1}

    def show(self, p):
        if not p:
            return '0'
        out = []
        for m, c in sorted(p.items(), key=lambda x: (len(x[0]), x[0]))[:6]:
            v = c if c < PMOD // 2 else c - PMOD
            out.append('%s%s' % (v if abs(v) < 10 ** 6 else hex(v)[:10] + '…', ''.join('·' + self.names.get(x, '?') for x in m)))
        return ' + '.join(out) + (' + …' if len(p) > 6 else '')

    def ev(self, t):
        t = self.peel(t)
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev0(t)
        return r

    def peel(self, t):
        while True:
            t = undv(t)
            if t.op == 'call' and cn(t) in STRIP and len(nosite(t)) == 1:
                t = nosite(t)[0]
            elif t.op == 'call' and str(t.a[0]).endswith('element::copy'):
                t = nosite(t)[0]
            elif t.op == 'call' and cn(t) in ('reduce', 'copy') and 'GField' in str(t.a[0]):
                t = nosite(t)[2]
            elif t.op == 'agg' and str(t.a[0]).endswith('Element'):
                d = dict(zip(t.a[2], t.a[3:]))
                l = d.get('limbs')
                l = self.peel(l) if l is not None else None
                if l is not None and l.op == 'fld' and l.a[1] == 'limbs':
                    t = l.a[0]
                else:
                    return t
            else:
                return t

    def num(self, t):
        t = undv(t)
        while t.op == 'call' and len(nosite(t)) == 1 and cn(t) in STRIP + ('from', 'new', 'to_string', 'expect', 'unwrap', 'from_str', 'parse', 'to_bigint'):
            t = undv(nosite(t)[0])
        v = kval(t)
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return v
        if isinstance(v, str):
            try:
                return int(v.strip('"\''))
            except ValueError:
                return None
        if t.op == 'un' and t.a[0] == 'Neg':
            x = self.num(t.a[1])
            return -x if x is not None else None
        return None

    def ev0(self, t):
        if t.op == 'call':
            f = str(t.a[0])
            n = cn(t)
            a = nosite(t)
            if 'GField' in f:
                if n in ('add', 'sub') and len(a) == 4:
                    return padd(self.ev(a[2]), self.ev(a[3]), 1 if n == 'add' else -1)
                if n == 'mul' and len(a) == 4:
                    return pmul(self.ev(a[2]), self.ev(a[3]))
                if n == 'mul_mod' and len(a) >= 4:
                    return pmul(self.ev(a[2]), self.ev(a[3]))
                if n == 'neg' and len(a) == 3:
                    return padd({}, self.ev(a[2]), -1)
                if n == 'mul_const' and len(a) == 4:
                    v = self.num(a[3])
                    if v is not None:
                        return pmul(self.ev(a[2]), const(v))
                    return pmul(self.ev(a[2]), self.atom(('int', undv(a[3]))))
                if n == 'select' and len(a) == 5:
                    s = self.bit(a[2])
                    x, y = self.ev(a[3]), self.ev(a[4])
                    return padd(pmul(s, padd(x, y, -1)), y)
                if n in ('div', 'inverse') and len(a) == (4 if n == 'div' else 3):
                    num = self.ev(a[2]) if n == 'div' else const(1)
                    return self.quot((num,), (self.ev(a[-1]),))[0]
            if f.endswith('element::value_of') or f.endswith('element::new_const_element'):
                v = self.num(a[-1])
                if v is not None:
                    return const(v)
        if t.op == 'fld':
            if t.a[1] in ('a0', 'a1'):
                b = self.peel(t.a[0])
                if b is not t.a[0]:
                    return self.ev(A_fld(b, t.a[1]))
                if b.op == 'call' and 'Ext2' in str(b.a[0]) and cn(b) in ('div', 'inverse', 'inverse_div', 'copy'):
                    return self.comps(b, 'GE2')[('a0', 'a1').index(t.a[1])]
            if t.a[1] in ('a0', 'a1') or t.a[1] in self.tails:
                s = show(t)
                if s.startswith('self'):
                    for suf, v in self.consts.items():
                        if s == 'self.' + suf or s.endswith('.' + suf):
                            return v
            if t.a[1] == 'one_const':
                return const(1)
            if t.a[1] == 'zero_const':
                return {}
        return self.atom(t)

    def bit(self, t):
        t = undv(t)
        v = kval(t)
        if isinstance(v, (int, bool)):
            return const(int(v))
        return self.atom(('bit', self.norm(t)), show(t)[:60], bit=True)

    def norm(self, t):
        """native values: emulated arguments are compared as polynomials"""
        t = undv(t)
        if t.op == 'call' and 'GField' in str(t.a[0]) and cn(t) in ('is_zero', 'get_element_sign'):
            return (cn(t), self.fz(self.ev(nosite(t)[2])))
        if t.op == 'call' and cn(t) in ('and', 'or', 'xor') and len(nosite(t)) == 3:
            return (cn(t),) + tuple(sorted((self.norm(x) for x in nosite(t)[1:]), key=repr))
        if t.op == 'call' and cn(t) in STRIP and len(nosite(t)) == 1:
            return self.norm(nosite(t)[0])
        if t.op == 'call':
            return (str(t.a[0]),) + tuple(self.norm(x) if isinstance(x, T) else x for x in nosite(t))
        return t

    def fz(self, p):
        return tuple(sorted(p.items()))

    def quot(self, num, den):
        """atoms of num/den, canonical up to a common scalar"""
        p = next((x for x in den if x), None)
        if p is None:
            return tuple(self.atom(('div0', i)) for i in range(len(num)))
        m = min(p, key=lambda x: (len(x), x))
        i = pow(p[m], -1, PMOD)
        dd = tuple(self.fz(pmul(x, const(i))) for x in den)
        if len(den) == 1:
            if cval(den[0]) is not None:
                return (pmul(num[0], const(i)),)
            return (pmul(pmul(num[0], const(i)), self.atom(('inv', 0, dd), '1/(%s)' % self.show(den[0])[:60])),)
        v = tuple(self.atom(('inv', j, dd), '1/(%s,..)%d' % (self.show(den[0])[:60], j)) for j in range(2))
        return mul2(num, smul(v, const(i)))

    def comps(self, t, ty):
        """nested tuple of component polynomials of a value of an extension field type"""
        if ty == 'Fp':
            return self.ev(t)
        t = self.peel(t)
        if t.op == 'call' and ('Ext2' in str(t.a[0]) or 'Ext6' in str(t.a[0]) or 'Ext12' in str(t.a[0])):
            a = nosite(t)
            n = cn(t)
            if n == 'copy':
                return self.comps(a[2], ty)
            if n == 'div' and ty == 'GE2':
                return self.quot(self.comps(a[2], ty), self.comps(a[3], ty))
            if n in ('inverse', 'inverse_div') and ty == 'GE2':
                return self.quot((const(1), {}), self.comps(a[2], ty))
        if t.op == 'fld' and ty == 'GE2' or t.op == 'agg':
            pass
        sub = None if isinstance(ty, (tuple, list)) else {'GE2': 'Fp', 'GE6': 'GE2', 'GE12': 'GE6'}.get(ty)
        if sub:
            return tuple(self.comps(A_fld(t, f), sub) for f in COMP[ty])
        if isinstance(ty, (tuple, list)):
            return tuple(self.comps(A_fld(t, f), s) for f, s in ty)
        raise KeyError(ty)


def A_fld(t, f):
    t = undv(t)
    if t.op == 'agg':
        d = dict(zip(t.a[2], t.a[3:]))
        if f in d:
            return d[f]
    return fld(t, f)


# ---- reference tower arithmetic over polynomials -------------------------------------------------------------------
def lin(f):
    def g(x, *r):
        if isinstance(x, dict):
            return f(x, *r)
        return tuple(g(*z) for z in zip(x, *r))
    return g


add = lin(lambda x, y: padd(x, y))
sub = lin(lambda x, y: padd(x, y, -1))
neg = lin(lambda x: padd({}, x, -1))


def scale(x, c):
    return lin(lambda y: pmul(y, const(c)))(x)


def smul(x, p):
    return lin(lambda y: pmul(y, p))(x)


def mul2(x, y):
    return (padd(pmul(x[0], y[0]), pmul(x[1], y[1]), -1), padd(pmul(x[0], y[1]), pmul(x[1], y[0])))


def nr2(x):
    return (padd(x[0], x[1], -1), padd(x[0], x[1]))


def conj2(x):
    return (x[0], padd({}, x[1], -1))


Z2 = ({}, {})
ONE2 = (const(1), {})


def mul6(x, y):
    r = [Z2, Z2, Z2]
    for i in range(3):
        for j in range(3):
            v = mul2(x[i], y[j])
            if i + j >= 3:
                v = nr2(v)
            r[(i + j) % 3] = add(r[(i + j) % 3], v)
    return tuple(r)


def nr6(x):
    return (nr2(x[2]), x[0], x[1])


ONE6 = (ONE2, Z2, Z2)
Z6 = (Z2, Z2, Z2)


def mul12(x, y):
    return (add(mul6(x[0], y[0]), nr6(mul6(x[1], y[1]))), add(mul6(x[0], y[1]), mul6(x[1], y[0])))


ONE12 = (ONE6, Z6)
MUL = {'Fp': pmul, 'GE2': mul2, 'GE6': mul6, 'GE12': mul12}
ONE = {'Fp': const(1), 'GE2': ONE2, 'GE6': ONE6, 'GE12': ONE12}
ZERO = {'Fp': {}, 'GE2': Z2, 'GE6': Z6, 'GE12': (Z6, Z6)}


# ---- numeric Fp2 for the Frobenius constants -----------------------------------------------------------------------
def n2mul(x, y):
    return ((x[0] * y[0] - x[1] * y[1]) % PMOD, (x[0] * y[1] + x[1] * y[0]) % PMOD)


def n2pow(x, e):
    r = (1, 0)
    while e:
        if e & 1:
            r = n2mul(r, x)
        x = n2mul(x, x)
        e >>= 1
    return r


def gamma(power, kk):
    """(1+u)^(k(p^power-1)/6)"""
    return n2pow((1, 1), kk * (PMOD ** power - 1) // 6)


def leaves(x):
    if isinstance(x, dict):
        yield x
    else:
        for y in x:
            yield from leaves(y)


def opaques(prog, extra=(), keep=()):
    """the operations that stay symbolic"""
    out = []
    for p in prog.bodies:
        if not p.startswith('circuit_std_rs') or p in keep:
            continue
        if p.startswith(GF) and p[len(GF):] in RING:
            out.append(p)
        elif 'Clone>::clone' in p or p.endswith('element::value_of') or p.endswith('element::new_const_element') or p.endswith('element::copy'):
            out.append(p)
        elif any(p.endswith(x) for x in extra):
            out.append(p)
    return tuple(out)


def n2inv(x):
    i = pow(x[0] * x[0] + x[1] * x[1], -1, PMOD)
    return (x[0] * i % PMOD, -x[1] * i % PMOD)
