"""Emulated extension-field and curve gadgets compute their algebraic definition.  Every gadget of the BLS12-381 tower, of the two curve
groups and of the pairing is interpreted symbolically; the value it returns is brought to polynomial normal form over the base field
(divisions being canonical atoms) and compared with the textbook definition, point-multiplication chains with the integer they stand
for, isogenies with the curve equations they connect."""
from rules.assume import *
from rules.alg import *
from rules import alg
from rules.c09 import cname, unconditional, where

RULE = 'polynomial normal form of the returned value == reference definition over F_p[operands]'
E2 = 'circuit_std_rs::gnark::emulated::field_bls12381::e2::Ext2::'
E6 = 'circuit_std_rs::gnark::emulated::field_bls12381::e6::Ext6::'
E12 = 'circuit_std_rs::gnark::emulated::field_bls12381::e12::Ext12::'
S = 'circuit_std_rs::gnark::emulated::sw_bls12381::'
G1, G2, PR, CV = S + 'g1::G1::', S + 'g2::G2::', S + 'pairing::Pairing::', S + 'point::Curve::<Base, Scalars>::'
P1 = [('x', 'Fp'), ('y', 'Fp')]
P2 = [('x', 'GE2'), ('y', 'GE2')]
LN = [('r0', 'GE2'), ('r1', 'GE2')]
SEED = 0xd201000000010000
BLSX = -SEED

# conj(x)·u·PSI_U is the x-coordinate of psi
PSI_U = alg.n2inv(alg.gamma(1, 2))[1]

DIVS = tuple(E2 + n for n in ('div', 'inverse', 'inverse_div', 'copy'))


def consts():
    w1 = alg.gamma(2, 4)[0]
    c = {}
    for pw in (1, 2):
        for i in range(1, 6):
            g = alg.gamma(pw, i)
            c['non_residues{%d}{%d}.a0' % (pw, i)] = const(g[0])
            c['non_residues{%d}{%d}.a1' % (pw, i)] = const(g[1])
    g3 = alg.n2inv(alg.gamma(1, 3))
    # endomorphism constants of the two groups
    c['w'] = const(w1)
    c['u1'] = const(PSI_U)
    c['v.a0'], c['v.a1'] = const(g3[0]), const(g3[1])
    c['btwist.a0'] = c['btwist.a1'] = const(4)
    return c


class Run:
    def __init__(self, ctx, path, args, extra=(), consts=None, keep=(), fn=None, mem=None, at=None):
        self.ctx = ctx
        self.path = path
        self.body = ctx.body(path)
        self.fr = None
        if self.body is None:
            return
        n = ['self'] + ([] if args is None else list(args))
        self.ops = alg.opaques(ctx.prog, keep=(path,) + tuple(keep)) + tuple(x for x in DIVS if x != path) + tuple(x for x in extra if x != path)
        self.I, self.fr = counterfactual(ctx, self.body, names=n, opaque=self.ops, nonempty=lambda s: True, fn=fn, mem=mem, args=at)
        self.al = Alg(consts)

    def arg(self, name):
        return sym(name)

    @property
    def ret(self):
        return self.I.snap(self.fr.exit_state, self.fr.ret) if self.fr.ret is not None else None

    def equalities(self):
        """polynomials asserted to be zero on every path"""
        out = []
        for e in events(self.fr):
            if e.path.startswith(GF) and e.path.rsplit('::', 1)[-1] == 'assert_is_equal' and len(e.args) >= 4:
                out.append((e, padd(self.al.ev(e.args[2]), self.al.ev(e.args[3]), -1)))
        return out


def spec(ctx, C):
    """(path, [(arg, type)], return type, reference)"""
    t2 = ('x', 'GE2'), ('y', 'GE2')
    o = []

    def d(path, args, ty, f):
        o.append((path, args, ty, f))
    for base, ty in ((E2, 'GE2'), (E6, 'GE6'), (E12, 'GE12')):
        xy = [('x', ty), ('y', ty)]
        d(base + 'add', xy, ty, lambda a, x, y: add(x, y))
        d(base + 'sub', xy, ty, lambda a, x, y: sub(x, y))
        d(base + 'mul', xy, ty, lambda a, x, y, m=MUL[ty]: m(x, y))
        d(base + 'square', xy[:1], ty, lambda a, x, m=MUL[ty]: m(x, x))
        d(base + 'one', None, ty, lambda a, o=ONE[ty]: o)
        d(base + 'zero', None, ty, lambda a, o=ZERO[ty]: o)
        d(base + 'select', [('s', 'bit'), ('x', ty), ('y', ty)], ty, lambda a, s, x, y: add(smul(sub(x, y), s), y))
        if ty != 'GE12':
            d(base + 'double', xy[:1], ty, lambda a, x: scale(x, 2))
            d(base + 'neg', xy[:1], ty, lambda a, x: neg(x))
    d(E2 + 'mul_by_element', [('x', 'GE2'), ('y', 'Fp')], 'GE2', lambda a, x, y: smul(x, y))
    d(E2 + 'mul_by_const_element', [('x', 'GE2'), ('c', 'int')], 'GE2', lambda a, x, c: smul(x, c))
    d(E2 + 'mul_by_non_residue', [('x', 'GE2')], 'GE2', lambda a, x: nr2(x))
    d(E2 + 'non_residue', [], 'GE2', lambda a: (const(1), const(1)))
    d(E2 + 'conjugate', [('x', 'GE2')], 'GE2', lambda a, x: conj2(x))
    for pw in (1, 2):
        for i in range(1, 6):
            g = alg.gamma(pw, i)
            d(E2 + 'mul_by_non_residue%d_power%d' % (pw, i), [('x', 'GE2')], 'GE2', lambda a, x, g=g: mul2(x, (const(g[0]), const(g[1]))))
    z = [('z', 'GE6'), ('c0', 'GE2'), ('c1', 'GE2')]
    d(E6 + 'mul_by_e2', [('x', 'GE6'), ('y', 'GE2')], 'GE6', lambda a, x, y: tuple(mul2(v, y) for v in x))
    d(E6 + 'mul_by_0', z[:2], 'GE6', lambda a, z, c0: mul6(z, (c0, Z2, Z2)))
    d(E6 + 'mul_by_01', z, 'GE6', lambda a, z, c0, c1: mul6(z, (c0, c1, Z2)))
    d(E6 + 'mul_by_12', z, 'GE6', lambda a, z, c0, c1: mul6(z, (Z2, c0, c1)))
    d(E6 + 'mul_by_non_residue', [('x', 'GE6')], 'GE6', lambda a, x: nr6(x))
    d(E6 + 'mul_karatsuba_over_karatsuba', [('x', 'GE6'), ('y', 'GE6')], 'GE6', lambda a, x, y: mul6(x, y))
    d(E12 + 'conjugate', [('x', 'GE12')], 'GE12', lambda a, x: (x[0], neg(x[1])))
    d(E12 + 'mul_by_014', [('z', 'GE12'), ('c0', 'GE2'), ('c1', 'GE2')], 'GE12', lambda a, z, c0, c1: mul12(z, ((c0, c1, Z2), (Z2, ONE2, Z2))))
    d(E12 + 'mul_014_by_014', [('d0', 'GE2'), ('d1', 'GE2'), ('c0', 'GE2'), ('c1', 'GE2')], ['GE2'] * 5, line014)
    d(E12 + 'cyclotomic_square', [('x', 'GE12')], 'GE12', granger_scott)
    d(E12 + 'frobenius', [('x', 'GE12')], 'GE12', lambda a, x: frob(x, 1))
    d(E12 + 'frobenius_square', [('x', 'GE12')], 'GE12', lambda a, x: frob(x, 2))
    for base, pt, F in ((G1, P1, 'Fp'), (G2, P2, 'GE2')):
        d(base + 'add', [('p', pt), ('q', pt)], pt, lambda a, p, q, F=F: chord(a, F, p, q)[0])
        d(base + 'double', [('p', pt)], pt, lambda a, p, F=F: tangent(a, F, p)[0])
        d(base + 'double_and_add', [('p', pt), ('q', pt)], pt, lambda a, p, q, F=F: dbladd(a, F, p, q)[0])
    d(G2 + 'triple', [('p', P2)], P2, lambda a, p: triple(a, 'GE2', p)[0])
    d(G2 + 'neg', [('p', P2)], P2, lambda a, p: (p[0], neg(p[1])))
    d(CV + 'neg', [('p', P1)], P1, lambda a, p: (p[0], neg(p[1])))
    d(G1 + 'phi', [('q', P1)], P1, lambda a, q: (pmul(q[0], const(alg.gamma(2, 4)[0])), q[1]))
    d(G2 + 'psi', [('q', P2)], P2, psi)
    ops = [('', P2), ('0', LN)]
    d(PR + 'double_step', [('p', P2)], ['pt', 'ln'], lambda a, p: tangent(a, 'GE2', p))
    d(PR + 'double_and_add_step', [('p', P2), ('q', P2)], ['pt', 'ln', 'ln'], lambda a, p, q: dbladd(a, 'GE2', p, q))
    d(PR + 'triple_step', [('p', P2)], ['pt', 'ln', 'ln'], lambda a, p: triple(a, 'GE2', p))
    d(PR + 'tangent_compute', [('p', P2)], 'ln', lambda a, p: tangent(a, 'GE2', p)[1])
    return o


def frob(x, pw):
    r = []
    for i in range(2):
        row = []
        for j in range(3):
            c = x[i][j] if pw == 2 else conj2(x[i][j])
            g = alg.gamma(pw, 2 * j + i)
            row.append(mul2(c, (const(g[0]), const(g[1]))))
        r.append(tuple(row))
    return tuple(r)


def granger_scott(a, x):
    """3·conj-weighted squares: the square of an element of the cyclotomic subgroup"""
    (g0, g1, g2), (h0, h1, h2) = x
    sq = lambda v: mul2(v, v)
    A = add(nr2(sq(h1)), sq(g0))
    B = add(nr2(sq(g2)), sq(h0))
    Cc = add(nr2(sq(h2)), sq(g1))
    two = lambda v: scale(v, 2)
    three = lambda v: scale(v, 3)
    z0 = (sub(three(A), two(g0)), sub(three(B), two(g1)), sub(three(Cc), two(g2)))
    m = lambda u, v: scale(mul2(u, v), 2)
    z1 = (add(three(nr2(m(h2, g1))), two(h0)), add(three(m(h1, g0)), two(h1)), add(three(m(g2, h0)), two(h2)))
    return (z0, z1)


def line014(a, d0, d1, c0, c1):
    p = mul12(((d0, d1, Z2), (Z2, ONE2, Z2)), ((c0, c1, Z2), (Z2, ONE2, Z2)))
    return (p[0][0], p[0][1], p[0][2], p[1][1], p[1][2])


def q_(a, F, n, d):
    if F == 'Fp':
        return a.quot((n,), (d,))[0]
    return a.quot(n, d)


def chord(a, F, p, q):
    m = MUL[F]
    l = q_(a, F, sub(q[1], p[1]), sub(q[0], p[0]))
    xr = sub(m(l, l), add(p[0], q[0]))
    return (xr, sub(m(l, sub(p[0], xr)), p[1])), (l, sub(m(l, p[0]), p[1]))


def tangent(a, F, p):
    m = MUL[F]
    l = q_(a, F, scale(m(p[0], p[0]), 3), scale(p[1], 2))
    xr = sub(m(l, l), scale(p[0], 2))
    return (xr, sub(m(l, sub(p[0], xr)), p[1])), (l, sub(m(l, p[0]), p[1]))


def dbladd(a, F, p, q):
    m = MUL[F]
    l1 = q_(a, F, sub(q[1], p[1]), sub(q[0], p[0]))
    x2 = sub(m(l1, l1), add(p[0], q[0]))
    l2 = neg(add(l1, q_(a, F, scale(p[1], 2), sub(x2, p[0]))))
    x3 = sub(m(l2, l2), add(p[0], x2))
    pt = (x3, sub(m(l2, sub(p[0], x3)), p[1]))
    return pt, (l1, sub(m(l1, p[0]), p[1])), (l2, sub(m(l2, p[0]), p[1]))


def triple(a, F, p):
    m = MUL[F]
    l1 = q_(a, F, scale(m(p[0], p[0]), 3), scale(p[1], 2))
    x2 = sub(m(l1, l1), scale(p[0], 2))
    l2 = sub(q_(a, F, scale(p[1], 2), sub(p[0], x2)), l1)
    xr = sub(m(l2, l2), add(p[0], x2))
    pt = (xr, sub(m(l2, sub(p[0], xr)), p[1]))
    return pt, (l1, sub(m(l1, p[0]), p[1])), (l2, sub(m(l2, p[0]), p[1]))


def psi(a, q):
    """untwist, Frobenius, twist"""
    g2, g3 = alg.n2inv(alg.gamma(1, 2)), alg.n2inv(alg.gamma(1, 3))
    c = lambda g: (const(g[0]), const(g[1]))
    return (mul2(conj2(q[0]), c(g2)), mul2(conj2(q[1]), c(g3)))


def unpack(r, t, ty):
    """components of a returned value"""
    if isinstance(ty, list) and ty and isinstance(ty[0], str):
        if t.op == 'arr':
            return tuple(unpack(r, x, y) for x, y in zip(t.a, ty)) if len(t.a) == len(ty) else None
        if t.op == 'tup':
            return tuple(unpack(r, x, y) for x, y in zip(t.a, ty)) if len(t.a) == len(ty) else None
        if t.op == 'agg' and len(t.a) == 3 + len(ty):
            return tuple(unpack(r, x, y) for x, y in zip(t.a[3:], ty))
        return None
    if ty == 'pt':
        return r.al.comps(t, P2)
    if ty == 'ln':
        t = undv(t)
        while t.op == 'agg' and t.a[1] == 'Some':
            t = undv(t.a[3])
        while t.op == 'call' and len(nosite(t)) == 1:
            t = undv(nosite(t)[0])
        return r.al.comps(t, LN)
    return r.al.comps(t, ty)


def operand(r, t, ty):
    if ty == 'bit':
        return r.al.bit(t)
    if ty == 'int':
        return r.al.atom(('int', undv(t)))
    return r.al.comps(t, ty)


def same(x, y):
    if isinstance(x, dict) or isinstance(y, dict):
        return x == y
    return isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))


def diff(r, x, y, pre=''):
    if isinstance(x, dict):
        if x != y:
            return '%s: %s instead of %s' % (pre or 'value', r.al.show(x), r.al.show(y))
        return None
    for i, (a, b) in enumerate(zip(x, y)):
        m = diff(r, a, b, '%s[%d]' % (pre, i))
        if m:
            return m
    return None


def main(ctx):
    C = consts()
    for path, args, ty, f in spec(ctx, C):
        key = '%s computes its definition' % path.split('::', 4)[-1]
        names = None if args is None else ['native'] + [a for a, _ in args]
        r = Run(ctx, path, names, consts=C)
        if r.fr is None:
            continue
        if r.fr.ret is None:
            ctx.ob(key, False, 'never returns', where(r.body))
            continue
        try:
            got = unpack(r, undv(r.ret), ty)
        except (KeyError, IndexError) as e:
            got = None
        ref = f(r.al, *[operand(r, sym(a), t) for a, t in (args or [])])
        ctx.ob(key, got is not None and same(got, ref), (diff(r, got, ref) if got is not None else 'returned value has an unexpected shape: %s' % show(r.ret)[:200]) or '', where(r.body))




# ---- loops ---------------------------------------------------------------------------------------------------------
def loops(fr):
    """(frame, header, mu term, initial value, value after one iteration)"""
    out = []
    for f in frames(fr):
        for h, (e, b, c) in getattr(f, 'lio', {}).items():
            for root, v in c.v.items():
                v = undv(v)
                if v.op == 'mu':
                    out.append((f, h, root, v, undv(e.v.get(root, v)), undv(b.v.get(root, v))))
    return out


def trips(fr, h, f):
    """the iterator driving the loop with header h"""
    r = []
    for g, b, it in items(fr, 'nxt'):
        if g is f and b in f.nxtb.get(h, ()):
            r.append(undv(it[2]))
    return r


def isop(t, *owners):
    return t.op == 'call' and str(t.a[0]).rsplit('::', 1)[0].split('<')[0].rstrip(':').rsplit('::', 1)[-1] in owners


def strip_any(t):
    t = undv(t)
    while t.op == 'call' and (cn(t) in STRIP or cn(t) in ('copy_g1', 'copy_g2_aff_p') or cn(t) == 'copy' and isop(t, 'Ext2', 'Ext6', 'Ext12')):
        a = nosite(t)
        t = undv(a[-1])
    return t


# ---- group chains --------------------------------------------------------------------------------------------------
GOPS = ('double', 'add', 'double_and_add', 'triple', 'neg', 'double_n', 'mul_windowed', 'psi', 'phi', 'scalar_mul_by_seed', 'scalar_mul_by_seed_square', 'copy_g1', 'copy_g2_aff_p')


class Chain:
    """the integer combination of the operand (and its images under the endomorphisms) a point expression stands for"""

    def __init__(self, r, ty, leafs):
        self.r = r
        self.ty = ty
        self.leafs = dict(leafs)

    def lc(self, *ks):
        d = {}
        for c, v in ks:
            for k, x in v.items():
                d[k] = d.get(k, 0) + c * x
        return {k: x for k, x in d.items() if x}

    def val(self, t):
        t = strip_any(t)
        if t in self.leafs:
            return self.leafs[t]
        if t.op == 'call' and isop(t, 'G1', 'G2', 'Curve'):
            n, a = cn(t), nosite(t)[2:]
            v = self.val(a[0])
            if n == 'double':
                return self.lc((2, v))
            if n == 'triple':
                return self.lc((3, v))
            if n == 'neg':
                return self.lc((-1, v))
            if n == 'add':
                return self.lc((1, v), (1, self.val(a[1])))
            if n == 'double_and_add':
                return self.lc((2, v), (1, self.val(a[1])))
            if n == 'double_n':
                k = kval(a[1])
                return self.lc((1 << k, v))
            if n == 'mul_windowed':
                return self.lc((num(self.r, a[1]), v))
            if n == 'scalar_mul_by_seed':
                return self.lc((BLSX, v))
            if n == 'scalar_mul_by_seed_square':
                return self.lc((SEED ** 2, v))
            if n in ('psi', 'phi'):
                return {(n,) + k: x for k, x in v.items()}
        if t.op == 'agg':
            return self.endo(t)
        raise KeyError(show(t)[:80])

    def endo(self, t):
        """(c·X, ±Y) of another point"""
        al = self.r.al
        c = al.comps(t, self.ty)
        for d in subterms(t):
            if d in self.leafs or d.op == 'call' and isop(d, 'G1', 'G2'):
                b = al.comps(d, self.ty)
                for s in (1, -1):
                    if not same(c[1], scale(b[1], s)):
                        continue
                    # on the twist psi² maps (X, Y) to (w·X, -Y)
                    for k, lab, u in ((1, (), 1), (alg.gamma(2, 4)[0],) + ((('psi', 'psi'), -1) if self.ty is P2 else (('phi',), 1))):
                        if same(c[0], scale(b[0], k)):
                            return {lab + x: s * u * v for x, v in self.val(d).items()}
        raise KeyError(show(t)[:80])


def num(r, t):
    t = undv(t)
    while t.op in ('fld', 'agg', 'call') and r.al.num(t) is None:
        if t.op == 'fld':
            t = undv(t.a[0])
        elif t.op == 'agg' and len(t.a) == 4:
            t = undv(t.a[3])
        elif t.op == 'call' and len(nosite(t)) == 1:
            t = undv(nosite(t)[0])
        else:
            break
    v = r.al.num(t)
    if v is None:
        raise KeyError('not a constant: %s' % show(t)[:60])
    return v


def subterms(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, (tuple, frozenset)):
                st.extend(z for z in y if isinstance(z, T))
    return out


def group_run(ctx, base, name, args, more=()):
    path = base + name
    extra = tuple(b + n for b in (G1, G2) for n in GOPS if b + n != path) + (CV + 'neg',) + tuple(more)
    return Run(ctx, path, ['native'] + list(args), extra=extra, consts=consts())


def guarded(ctx, key, r, f):
    """f() -> (good, message); a shape the analysis does not understand is not a proof"""
    if r.fr is None:
        return
    try:
        good, msg = f()
    except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
        good, msg = False, 'not recognised: %s' % e
    ctx.ob(key, good, msg, where(r.body))


def lcshow(d):
    return ' + '.join('%s%s' % (hex(v), '·' + '·'.join(k) if k else '') for k, v in sorted(d.items())) or '0'


def chains(ctx):
    x = BLSX
    for base, name, ty, want in ((G1, 'scalar_mul_by_seed_square', P1, {(): SEED ** 2}), (G2, 'scalar_mul_by_seed', P2, {(): BLSX}), (G1, 'clear_cofactor', P1, {(): 1 - x}),
                                 (G2, 'clear_cofactor', P2, {(): x * x - x - 1, ('psi',): x - 1, ('psi', 'psi'): 2})):
        r = group_run(ctx, base, name, ['p'])

        def f():
            got = Chain(r, ty, {sym('p'): {(): 1}}).val(r.ret)
            return got == want, 'multiplies by %s instead of %s' % (lcshow(got), lcshow(want))
        guarded(ctx, '%s%s is the documented multiple of its argument' % (base[-4:], name), r, f)
    for base, ty in ((G1, P1), (G2, P2)):
        r = group_run(ctx, base, 'double_n', ['p', 'n'])

        def f():
            t = undv(r.ret)
            if t.op == 'phi':
                t = next(y for y in t.a[0] if y.op == 'mu')
            for fr, h, root, mu, e, b in loops(r.fr):
                if mu == t:
                    ch = Chain(r, ty, {sym('p'): {(): 1}, mu: {('m',): 1}})
                    if ch.val(e) != {(): 1}:
                        return False, 'starts from %s' % lcshow(ch.val(e))
                    if ch.val(b) != {('m',): 2}:
                        return False, 'one iteration maps m to %s' % lcshow(ch.val(b))
                    return once_per(r, fr, h, sym('n'))
            return False, 'result is not the value carried by the loop: %s' % show(t)[:100]
        guarded(ctx, '%sdouble_n doubles n times' % base[-4:], r, f)
        r = group_run(ctx, base, 'mul_windowed', ['q', 's'])
        guarded(ctx, '%smul_windowed multiplies by the seed' % base[-4:], r, lambda: windowed(r, ty))
    for name, last in (('n_square_gs', 0), ('n_square_gs_with_hint', 1)):
        r = Run(ctx, E12 + name, ['native', 'z', 'n'], extra=(E12 + 'cyclotomic_square', E12 + 'copy', E12 + 'mul', E12 + 'square'))

        def f():
            t = strip_any(r.ret)
            for fr, h, root, mu, e, b in loops(r.fr):
                ex = Exps({sym('z'): {'z': 1}, mu: {'m': 1}})
                got = ex.val(t)
                if got != {'m': 2 ** last}:
                    return False, 'returns %s of the loop value' % got
                if ex.val(e) != {'z': 1} or ex.val(b) != {'m': 2}:
                    return False, 'loop: starts %s, one iteration %s' % (ex.val(e), ex.val(b))
                return once_per(r, fr, h, sym('n'), last)
            return False, 'no loop'
        guarded(ctx, 'E12::%s squares n times' % name, r, f)
    r = Run(ctx, E12 + 'expt', ['native', 'x'], extra=tuple(E12 + n for n in ('cyclotomic_square', 'copy', 'mul', 'square', 'n_square_gs_with_hint', 'n_square_gs', 'conjugate')))

    def f():
        got = Exps({sym('x'): {'x': 1}}).val(r.ret)
        return got == {'x': SEED}, 'raises to %s instead of the seed' % got
    guarded(ctx, 'E12::expt raises to the curve seed', r, f)


class Exps:
    """exponents in the cyclotomic subgroup"""

    def __init__(self, leafs):
        self.leafs = leafs

    def val(self, t):
        t = strip_any(t)
        if t in self.leafs:
            return self.leafs[t]
        if isop(t, 'Ext12'):
            n, a = cn(t), nosite(t)[2:]
            v = self.val(a[0])
            if n in ('cyclotomic_square', 'square'):
                return {k: 2 * x for k, x in v.items()}
            if n in ('n_square_gs', 'n_square_gs_with_hint'):
                return {k: x << kval(a[1]) for k, x in v.items()}
            if n == 'conjugate':
                return {k: -x for k, x in v.items()}
            if n == 'mul':
                w = self.val(a[1])
                return {k: v.get(k, 0) + w.get(k, 0) for k in set(v) | set(w)}
        raise KeyError(show(t)[:80])


def once_per(r, fr, h, n, less=0):
    """the loop makes n - less iterations"""
    want = n if not less else None

    def cnt(lo, hi, inc):
        # hi - lo (+1) as (coefficient of n, constant)
        def lin_(t):
            t = undv(t)
            if t == n:
                return (1, 0)
            v = kval(t)
            if isinstance(v, int) and not isinstance(v, bool):
                return (0, v)
            if t.op == 'bin' and t.a[0] in ('Sub', 'Add', 'SubUnchecked'):
                x, y = lin_(t.a[1]), lin_(t.a[2])
                s = 1 if t.a[0] == 'Add' else -1
                return (x[0] + s * y[0], x[1] + s * y[1])
            raise KeyError('loop bound %s' % show(t)[:60])
        x, y = lin_(hi), lin_(lo)
        return (x[0] - y[0], x[1] - y[1] + inc)
    for it in trips(r.fr, h, fr):
        for t in subterms(it):
            if t.op == 'ridx':
                c = cnt(t.a[0], t.a[1], 1 if 'Inclusive' in str(t.a[2]) else 0)
                return c == (1, -less), 'iterates %s·n%+d times' % c
    # counter loops
    e, b, c = fr.lio[h]
    for root, v in c.v.items():
        v = undv(v)
        if v.op != 'acc':
            continue
        step = undv(b.v.get(root, v))
        if step.op == 'bin' and step.a[0].startswith('Add') and step.a[1] == v and kval(step.a[2]) == 1:
            for ev in events(r.fr):
                for cond, val in ev.known:
                    if cond.op == 'bin' and undv(cond.a[2]) == v:
                        cond = mk('bin', {'Gt': 'Lt', 'Ge': 'Le'}.get(cond.a[0], cond.a[0]), cond.a[2], cond.a[1])
                    if cond.op == 'bin' and cond.a[0] in ('Lt', 'Ne') and undv(cond.a[1]) == v and val is True:
                        c2 = cnt(undv(e.v[root]), cond.a[2], 0)
                        return c2 == (1, -less), 'iterates %s·n%+d times' % c2
        if step.op == 'bin' and step.a[0].startswith('Sub') and step.a[1] == v and kval(step.a[2]) == 1:
            for ev in events(r.fr):
                for cond, val in ev.known:
                    if cond.op == 'bin' and undv(cond.a[2]) == v:
                        cond = mk('bin', {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(cond.a[0], cond.a[0]), cond.a[2], cond.a[1])
                    if cond.op == 'bin' and undv(cond.a[1]) == v and kval(cond.a[2]) == 0 and (cond.a[0] in ('Gt', 'Ne') and val is True or cond.a[0] == 'Eq' and val is False):
                        c2 = cnt(cond.a[2], undv(e.v[root]), 0)
                        return c2 == (1, -less), 'iterates %s·n%+d times' % c2
    return False, 'number of iterations not recognised'


def windowed(r, ty):
    """the first byte is folded into the value the loops start from; each later byte contributes four 2-bit windows, most significant first"""
    ls = loops(r.fr)
    inner = outer = None
    for fr, h, root, mu, e, b in ls:
        if any(x.op == 'call' and cn(x) == 'double' and strip_any(nosite(x)[2]) == mu for y in alts(b) for x in subterms(y)):
            inner = (fr, h, root, mu, e, b)
    if inner is None:
        return False, 'no doubling loop'
    fr, h, root, mu, e, b = inner
    ch = Chain(r, ty, {sym('q'): {(): 1}, mu: {('m',): 1}})
    start = [x for x in alts(e) if x != mu and not (x.op == 'mu')]
    if [ch.val(x) for x in start] != [{(): SEED >> 56}]:
        return False, 'loop starts from %s instead of the first byte of the seed' % [lcshow(ch.val(x)) for x in start]
    # digit selection
    got = {}
    for x in alts(b):
        x = strip_any(x)
        if x.op == 'call' and cn(x) == 'add':
            a = nosite(x)[2:]
            tab = None
            for y, z in ((a[0], a[1]), (a[1], a[0])):
                try:
                    if ch.val(y) == {('m',): 4}:
                        tab = undv(z)
                except KeyError:
                    pass
            if tab is None:
                return False, 'window step is not 4·acc + table entry: %s' % show(x)[:100]
            got['add'] = (x, tab)
        elif ch.val(x) == {('m',): 4}:
            got['plain'] = x
        else:
            return False, 'one window maps m to %s' % lcshow(ch.val(x))
    if set(got) != {'add', 'plain'}:
        return False, 'window step always or never adds'
    x, tab = got['add']
    cond = None
    for ev in events(r.fr):
        if ev.path.endswith('::add') and undv(ev.ret) == x or undv(ev.ret) == x:
            for c, v in ev.known:
                if c.op == 'bin' and c.a[0] == 'Lt' and kval(c.a[1]) == 0:
                    c = mk('bin', 'Gt', c.a[2], c.a[1])
                if c.op == 'bin' and c.a[0] in ('Eq', 'Ne') and kval(c.a[1]) == 0:
                    c = mk('bin', c.a[0], c.a[2], c.a[1])
                if c.op == 'bin' and c.a[0] in ('Eq', 'Ne', 'Gt') and kval(c.a[2]) == 0 and 'to_bytes' in show(c):
                    cond = (c, v)
    if cond is None:
        return False, 'the addition is not guarded by the digit'
    accs = {}
    e0, b0, c0 = fr.lio[h]
    for rt, v in c0.v.items():
        v = undv(v)
        if v.op == 'acc':
            accs[v] = (undv(e0.v.get(rt, v)), undv(b0.v.get(rt, v)))
    for w in range(256):
        env = {k: evalnum(i, {}) for k, (i, _) in accs.items()}
        for j in range(4):
            e1 = dict(env)
            e1['byte'], e1['j'] = w, j
            d = evalnum(cond[0].a[1], e1)
            digit = (w >> (6 - 2 * j)) & 3
            if d != digit:
                return False, 'window %d of byte %d is taken as %s instead of %d' % (j, w, d, digit)
            if (CMP[cond[0].a[0]](d, 0) is cond[1]) != (digit != 0):
                return False, 'the addition happens for digit %d' % digit
            env = {k: evalnum(s, e1) for k, (_, s) in accs.items()}
    # the table entry selected is digit·q: entries in order and index digit - 1
    if not table_ok(r, ch, tab, cond[0].a[1]):
        return False, 'the entry added is not digit·q'
    for it in trips(r.fr, h, fr):
        rr = [t for t in subterms(it) if t.op == 'ridx']
        if not any((kval(t.a[0]), kval(t.a[1])) == (0, 4) and 'Inclusive' not in str(t.a[2]) for t in rr):
            return False, 'not four windows per byte'
        if any(t.op == 'rev' for t in subterms(it)):
            return False, 'windows in reverse'
    src = [show(undv(it[2])) for f, bb, it in items(r.fr, 'nxt') if 'to_bytes' in show(undv(it[2]))]
    if len(src) != 1 or 'to_bytes_be(s)' not in src[0] or 'RangeFrom{start: 1}' not in src[0] or 'rev(' in src[0]:
        return False, 'the bytes are not those of the scalar after the first, most significant first: %s' % src
    return True, ''


CMP = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Gt': lambda a, b: a > b}


def table_ok(r, ch, tab, digit):
    """tab is ops[digit-1] with ops = [q, 2q, 3q]"""
    want = [{(): 1}, {(): 2}, {(): 3}]
    for f, b, it in items(r.fr, 'index'):
        base, i = undv(it[3]), undv(it[4])
        if base.op == 'arr' and [ch.val(x) for x in base.a] == want and i.op == 'bin' and i.a[0].startswith('Sub') and kval(i.a[2]) == 1 and unc(i.a[1]) == unc(digit):
            return True
    for t in subterms(tab):
        if t.op in ('elem', 'idx', 'at') and len(t.a) >= 2 and isinstance(t.a[0], T) and isinstance(t.a[1], T):
            base, i = undv(t.a[0]), undv(t.a[1])
            i = unc(i)
            if base.op == 'arr' and [ch.val(x) for x in base.a] == want and i.op == 'bin' and i.a[0].startswith('Sub') and kval(i.a[2]) == 1 and unc(i.a[1]) == unc(digit):
                return True
    return False


def unc(t):
    t = undv(t)
    while t.op == 'cast' or t.op == 'call' and cn(t) in STRIP + ('from',) and len(nosite(t)) == 1:
        t = undv(next(z for z in t.a if isinstance(z, T)) if t.op == 'cast' else nosite(t)[0])
    return t


def evalnum(t, env):
    t = undv(t)
    if t in env:
        return env[t]
    v = kval(t)
    if isinstance(v, int):
        return int(v)
    if t.op == 'bin':
        x, y = evalnum(t.a[1], env), evalnum(t.a[2], env)
        o = t.a[0].replace('WithOverflow', '').replace('Unchecked', '')
        return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'BitAnd': lambda: x & y, 'Shr': lambda: x >> y, 'Shl': lambda: (x << y), 'BitOr': lambda: x | y, 'Div': lambda: x // y, 'Rem': lambda: x % y}[o]()
    if t.op == 'ridx':
        return env['j']
    if t.op == 'cast':
        return evalnum(t.a[0] if isinstance(t.a[0], T) else t.a[1], env)
    if 'to_bytes' in show(t) and t.op in ('part', 'elem', 'idx', 'at'):
        return env['byte']
    raise KeyError('digit expression %s' % show(t)[:80])


# ---- constants -----------------------------------------------------------------------------------------------------
def ctor(ctx, path, extra=()):
    r = Run(ctx, path, [], extra=extra)
    r2 = None
    if r.fr is None or r.fr.ret is None:
        return None, None
    t = undv(r.ret)
    return r, dict(zip(t.a[2], t.a[3:])) if t.op == 'agg' else None


def constants(ctx):
    NEW = ('GField::<T>::new', E2 + 'new', E6 + 'new', E12 + 'new', CV + 'new', G1 + 'new', G2 + 'new')

    def field(base, name, ty, want, label):
        b = ctx.body(base + 'new')
        if b is None:
            return
        I, fr = counterfactual(ctx, b, names=['native'], opaque=alg.opaques(ctx.prog, extra=tuple(x for x in NEW if x != base + 'new')), nonempty=lambda s: True)
        al = Alg()
        t = undv(fr.ret)
        d = dict(zip(t.a[2], t.a[3:])) if t.op == 'agg' else {}
        if name not in d:
            return
        got = al.comps(d[name], ty)
        ctx.ob('%snew: %s' % (base[-5:].lstrip(':'), label), same(got, want), diff(argparse_(al), got, want) or '', where(b))
    k = lambda g: (const(g[0]), const(g[1]))
    field(G1, 'w', 'Fp', const(alg.gamma(2, 4)[0]), 'w is the cube root of unity of the endomorphism')
    field(G2, 'u1', 'Fp', const(PSI_U), 'u1 is the x-coefficient of psi')
    field(G2, 'v', 'GE2', k(alg.n2inv(alg.gamma(1, 3))), 'v is the y-coefficient of psi')
    field(PR, 'btwist', 'GE2', (const(4), const(4)), 'the twist coefficient is 4(1+u)')
    b = ctx.body(E2 + 'new')
    if b is not None:
        I, fr = counterfactual(ctx, b, names=['native'], opaque=alg.opaques(ctx.prog, extra=('GField::<T>::new',)), nonempty=lambda s: True)
        t = undv(fr.ret)
        d = dict(zip(t.a[2], t.a[3:])) if t.op == 'agg' else {}
        if 'non_residues' in d:
            al, got = Alg(), {}

            def walk(x, key):
                x = undv(x)
                if x.op == 'phi':
                    for y in alts(x):
                        walk(y, key)
                elif x.op == 'seq':
                    for y in x.a[:2]:
                        if isinstance(y, T):
                            walk(y, key)
                elif x.op == 'tup':
                    walk(x.a[1], key + (kval(x.a[0]),))
                elif x.op == 'agg':
                    got.setdefault(key, set()).add(tuple(cval(y) for y in al.comps(x, 'GE2')))
            walk(d['non_residues'], ())
            for pw in (1, 2):
                for i in range(1, 6):
                    g = got.get((pw, i), set())
                    # an update of the second table may or may not land in the first
                    ctx.ob('Ext2::new: non-residue power %d of Frobenius %d' % (i, pw), alg.gamma(pw, i) in g and g <= {alg.gamma(q, i) for q in range(1, pw + 1)},
                           'table holds %s instead of (1+u)^(%d(p^%d-1)/6)' % (sorted(hex(c[0])[:14] if c[0] is not None else '?' for c in g), i, pw), where(b))
    b = ctx.body(S + 'pairing::LOOP_COUNTER')
    if b is not None:
        I, fr = counterfactual(ctx, b, names=[], opaque=())
        t = undv(fr.ret)
        v = [kval(x) for x in t.a] if t.op == 'arr' else []
        good = len(v) == 64 and all(isinstance(x, int) for x in v) and sum(x << i for i, x in enumerate(v)) == SEED and set(v) <= {0, 1}
        ctx.ob('LOOP_COUNTER is the binary expansion of the curve seed', good, 'it is the expansion of %s' % hex(sum(x << i for i, x in enumerate(v) if isinstance(x, int))), where(b))


class argparse_:
    def __init__(self, al):
        self.al = al


# ---- polynomials, isogenies ----------------------------------------------------------------------------------------
def horner(ctx):
    for path, F in ((G1 + 'g1_eval_polynomial', 'Fp'), (G2 + 'eval_polynomial', 'GE2')):
        r = Run(ctx, path, ['native', 'monic', 'co', 'x'], consts=consts())

        def f():
            al = r.al
            x = al.comps(sym('x'), F)
            t = undv(r.ret)
            for fr, h, root, mu, e, b in loops(r.fr):
                if not (mu == t or t.op == 'phi' and mu in t.a[0]):
                    continue
                m = al.comps(mu, F)
                # start: last coefficient, plus x for a monic polynomial
                last = None
                for y in alts(e):
                    for z in subterms(y):
                        if z.op in ('idx', 'elem', 'at') and 'Sub 1' in show(z) or z.op == 'call' and cn(z) == 'last':
                            last = z
                if last is None:
                    return False, 'does not start from the last coefficient: %s' % show(e)[:100]
                base = [v for v in (al.comps(y, F) for y in alts(e))]
                lastv = None
                ok = []
                for y in alts(e):
                    v = al.comps(y, F)
                    ok.append(v)
                plain = [v for v in ok if any(same(sub(w, v), x) for w in ok)]
                if len(ok) != 2 or len(plain) != 1:
                    return False, 'start value is not the last coefficient or its sum with x'
                for ev in events(r.fr):
                    if ev.path.startswith(GF) and ev.path.endswith('::add') and all(v is False for c, v in ev.known if undv(c) == sym('monic')) and any(undv(c) == sym('monic') for c, v in ev.known):
                        return False, 'x is added when the polynomial is not monic'
                # step: m·x + coefficient
                cf = sub(al.comps(b, F), MUL[F](m, x))
                i = [z for z in subterms(b) if z.op == 'ridx']
                if len(set(i)) != 1:
                    return False, 'step does not use one coefficient per iteration'
                ci = [z for z in subterms(b) if z.op in ('idx', 'elem', 'at') and len(z.a) == 2 and z.a[0] == sym('co') and undv(z.a[1]) == i[0]]
                if not ci or not same(cf, al.comps(ci[0], F)):
                    return False, 'step is not acc·x + coefficient'
                if kval(i[0].a[0]) != 0 or show(i[0].a[1]) != '(len(co) Sub 1)' or 'Inclusive' in str(i[0].a[2]):
                    return False, 'coefficients %s .. %s' % (show(i[0].a[0]), show(i[0].a[1]))
                it = trips(r.fr, h, fr)
                if not it or not any(z.op == 'rev' for z in subterms(it[0])):
                    return False, 'coefficients are not taken from the highest down'
                return True, ''
            return False, 'no loop value is returned'
        guarded(ctx, '%s evaluates by Horner' % path.rsplit('::', 2)[-2] + '::' + path.rsplit('::', 1)[-1], r, f)


def isogenies(ctx):
    """(x, y) -> (Xn/Xd, y·Yn/Yd) maps the auxiliary curve y² = x³ + a'x + b' to y² = x³ + b"""
    A1 = 0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d
    B1 = 0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0
    for base, pre, F, a1, b1, bb, ev in ((G1, 'g1_isogeny', 'Fp', A1, B1, 4, 'g1_eval_polynomial'), (G2, 'isogeny', 'GE2', (0, 240), (1012, 1012), (4, 4), 'eval_polynomial')):
        deg = {}
        pol = {}
        bad = False
        body = None
        for part in ('x_numerator', 'x_denominator', 'y_numerator', 'y_denominator'):
            args = ['native', 'x', 'y'] if part == 'y_numerator' else ['native', 'x']
            r = Run(ctx, base + pre + '_' + part, args, extra=(base + ev,))
            if r.fr is None:
                bad = True
                continue
            body = r.body
            es = [e for e in events(r.fr) if e.path == base + ev]
            try:
                e = es[0]
                co = undv(e.args[3])
                mon = kval(e.args[2])
                cs = []
                for c in coeffs(co):
                    v = tuple(cval(p) for p in leaves(r.al.comps(c, F)))
                    cs.append(v if F == 'GE2' else v[0])
                if mon:
                    cs.append((1, 0) if F == 'GE2' else 1)
                if len(es) != 1 or undv(e.args[4]) != sym('x') or any(c is None or isinstance(c, tuple) and None in c for c in cs) or mon is None:
                    raise KeyError
                m = MUL[F]
                want = r.al.comps(e.ret, F)
                if part == 'y_numerator':
                    want = m(want, r.al.comps(sym('y'), F))
                if not same(r.al.comps(r.ret, F), want):
                    raise KeyError
                pol[part] = cs
            except (KeyError, IndexError):
                bad = True
                ctx.ob('%s%s_%s is a constant polynomial of x%s' % (base[-4:], pre, part, ' times y' if part == 'y_numerator' else ''), False, 'not a polynomial with constant coefficients', where(r.body))
        if bad:
            continue
        M = n2 if F == 'GE2' else n1
        f = M.add(M.add(M.poly([(0, 3)]), M.poly([(1, 1)], a1)), M.poly([(0, 0)], b1)) if False else [M.c(b1), M.c(a1), M.c(0), M.c(1)]
        xn, xd, yn, yd = (pol[x] for x in ('x_numerator', 'x_denominator', 'y_numerator', 'y_denominator'))
        l = M.mul(M.mul(f, M.mul(yn, yn)), M.mul(xd, M.mul(xd, xd)))
        rr = M.mul(M.mul(yd, yd), M.add(M.mul(xn, M.mul(xn, xn)), [M.m(M.c(bb), x) for x in M.mul(xd, M.mul(xd, xd))]))
        ctx.ob('%s%s maps the auxiliary curve to the target curve' % (base[-4:], pre), M.trim(l) == M.trim(rr) and len(M.trim(l)) > 4, 'f(x)·Yn²·Xd³ differs from Yd²·(Xn³ + b·Xd³)', where(body))
        r = Run(ctx, base + pre, ['native', 'p'], extra=tuple(base + pre + '_' + x for x in ('x_numerator', 'x_denominator', 'y_numerator', 'y_denominator')), consts=consts())

        def g():
            al = r.al
            c = {}
            px, py = fld(sym('p'), 'x'), fld(sym('p'), 'y')
            for e in events(r.fr):
                n = e.path.rsplit('_', 2)
                if e.path.startswith(base + pre + '_'):
                    a = [undv(z) for z in e.args[2:]]
                    if strip_any(a[0]) != px or len(a) > 1 and strip_any(a[1]) != py:
                        return False, '%s is applied to %s' % (e.path.rsplit('::', 1)[-1], [show(z)[:40] for z in a])
                    c[e.path[len(base + pre) + 1:]] = al.comps(e.ret, F)
            inv = lambda v: al.quot((const(1),), (v,))[0] if F == 'Fp' else al.quot(ONE2, v)
            want = (MUL[F](c['x_numerator'], inv(c['x_denominator'])), MUL[F](c['y_numerator'], inv(c['y_denominator'])))
            got = al.comps(r.ret, [('x', F), ('y', F)])
            return same(got, want), diff(r, got, want) or ''
        guarded(ctx, '%s%s is (Xn/Xd, y·Yn/Yd)' % (base[-4:], pre), r, g)


def coeffs(t):
    t = undv(t)
    while t.op == 'call' and len(nosite(t)) == 1:
        t = undv(nosite(t)[0])
    if t.op == 'arr':
        return list(t.a)
    raise KeyError(t.op)


class n1:
    @staticmethod
    def c(v):
        return v % PMOD

    @staticmethod
    def m(a, b):
        return a * b % PMOD

    @staticmethod
    def s(a, b):
        return (a + b) % PMOD
    zero = 0

    @classmethod
    def mul(k, x, y):
        r = [k.zero] * (len(x) + len(y) - 1)
        for i, a in enumerate(x):
            for j, b in enumerate(y):
                r[i + j] = k.s(r[i + j], k.m(a, b))
        return r

    @classmethod
    def add(k, x, y):
        n = max(len(x), len(y))
        return [k.s(x[i] if i < len(x) else k.zero, y[i] if i < len(y) else k.zero) for i in range(n)]

    @classmethod
    def trim(k, x):
        x = list(x)
        while x and x[-1] == k.zero:
            x.pop()
        return x


class n2(n1):
    zero = (0, 0)

    @staticmethod
    def c(v):
        return v if isinstance(v, tuple) else (v % PMOD, 0)

    @staticmethod
    def m(a, b):
        return alg.n2mul(a, b)

    @staticmethod
    def s(a, b):
        return ((a[0] + b[0]) % PMOD, (a[1] + b[1]) % PMOD)


# ---- assertions ----------------------------------------------------------------------------------------------------
def assertions(ctx):
    """what the assert_* gadgets constrain to zero, unconditionally"""
    def eqs(r):
        out = []
        for e, p in r.equalities():
            if unconditional([(c, v) for c, v in e.known if c not in (A.A_TRUE, A.A_FALSE)]):
                out.append(p)
        return out

    def both(p):
        return (p, padd({}, p, -1))
    for base, name, ty in ((G1, 'assert_is_equal', P1), (G2, 'assert_is_equal', P2), (E2, 'assert_isequal', 'GE2'), (E6, 'assert_isequal', 'GE6'), (E12, 'assert_isequal', 'GE12'), (E6, 'assert_is_equal', 'GE6'), (E12, 'assert_is_equal', 'GE12'), (E2, 'assert_is_equal', 'GE2')):
        if base + name not in ctx.prog.bodies:
            continue
        r = Run(ctx, base + name, ['native', 'x', 'y'])

        def f():
            want = [padd(a, b, -1) for a, b in zip(leaves(r.al.comps(sym('x'), ty)), leaves(r.al.comps(sym('y'), ty)))]
            got = eqs(r)
            miss = [i for i, w in enumerate(want) if not any(z in got for z in both(w))]
            return not miss, 'component %s is not compared' % miss
        guarded(ctx, '%s%s compares every component' % (base[-6:].lstrip(':'), name), r, f)
    for name, ty in (('copy_g1', P1), ):
        pass
    for flag in (False, True):
        adt = S + 'point::Curve'
        me = agg_of(ctx.prog, adt, 'Curve', base=sym('self')) if adt in ctx.prog.adts else None
        if me is None or 'add_a' not in me.a[2]:
            ctx.ob('Curve::assert_is_on_curve constrains y² = x³ + ax + b', False, 'Curve has no add_a')
            break
        me = mk('agg', *[(A.A_TRUE if flag else A.A_FALSE) if i == 3 + me.a[2].index('add_a') else v for i, v in enumerate(me.a)])
        r = Run(ctx, CV + 'assert_is_on_curve', ['native', 'p'], mem={sym('self'): me})

        def f():
            al = r.al
            x, y = al.comps(sym('p'), P1)
            a, bc = al.ev(fld(sym('self'), 'a')), al.ev(fld(sym('self'), 'b'))
            and0 = ('and',) + tuple(sorted((('is_zero', al.fz(x)), ('is_zero', al.fz(y))), key=repr))
            sels = [e.ret for e in events(r.fr) if (e.canon.endswith('::and') or e.path.endswith('::and')) and al.norm(e.ret) == and0]
            if not sels:
                return False, 'the point at infinity is not recognised as x = y = 0'
            s = al.bit(sels[0])
            w = padd(padd(pmul(y, y), pmul(x, pmul(x, x)), -1), padd(bc, pmul(s, bc), -1), -1)
            if flag:
                w = padd(w, pmul(a, x), -1)
            got = eqs(r)
            return any(p in both(w) for p in got), 'with add_a = %s asserts %s' % (flag, '; '.join(al.show(p) for p in got))
        guarded(ctx, 'Curve::assert_is_on_curve constrains y² = x³ + ax + b (%s the linear term)' % ('with' if flag else 'without'), r, f)
    r = Run(ctx, PR + 'assert_is_on_curve', ['native', 'p'], extra=(CV + 'assert_is_on_curve',))

    def f():
        for e in events(r.fr):
            if e.path == CV + 'assert_is_on_curve' and unconditional(e.known):
                return same(r.al.comps(e.args[2], P1), r.al.comps(sym('p'), P1)), 'another point is checked'
        return False, 'the curve equation is not asserted'
    guarded(ctx, 'Pairing::assert_is_on_curve checks its argument', r, f)
    for name, base, ty, want in (('assert_is_on_g1', G1, P1, {('phi',): -SEED ** 2, (): -1}), ('assert_is_on_g2', G2, P2, {('psi',): 1, (): SEED})):
        p = PR + name
        r = group_run(ctx, PR, name, ['p'], more=(CV + 'assert_is_on_curve', PR + 'assert_is_on_twist'))
        if r.fr is None:
            continue

        def f():
            al = r.al
            ch = Chain(r, ty, {sym('p'): {(): 1}})
            seen = {}
            for e in events(r.fr):
                if e.path.startswith(GF) and e.path.endswith('::assert_is_equal') and unconditional(e.known):
                    l, rr = point_of(e.args[2]), point_of(e.args[3])
                    if l[1] != rr[1]:
                        return False, 'different coordinates are compared'
                    d = ch.lc((1, ch.val(l[0])), (-1, ch.val(rr[0])))
                    seen.setdefault(tuple(sorted(d.items())), set()).add(l[1])
            need = {'Fp': {('x',), ('y',)}, 'GE2': {('x', 'a0'), ('x', 'a1'), ('y', 'a0'), ('y', 'a1')}}[ty[0][1]]
            for d, cs in seen.items():
                if dict(d) in (want, {k: -v for k, v in want.items()}) and cs >= need:
                    on = [e for e in events(r.fr) if e.path.rsplit('::', 1)[-1] in ('assert_is_on_curve', 'assert_is_on_twist') and unconditional(e.known) and same(al.comps(e.args[2], ty), al.comps(sym('p'), ty))]
                    return bool(on), 'the curve equation is not asserted'
            return False, 'asserts %s' % '; '.join('%s = 0 on %s' % (lcshow(dict(d)), sorted(c)) for d, c in seen.items())
        guarded(ctx, 'Pairing::%s constrains membership in the subgroup' % name, r, f)
    r = Run(ctx, PR + 'assert_is_on_twist', ['native', 'p'], consts=consts())

    def f():
        al = r.al
        x, y = al.comps(sym('p'), P2)
        got = eqs(r)
        bits = [(e, al.bit(e.ret)) for e in events(r.fr) if (e.canon.endswith('::and') or e.path.endswith('::and'))]
        for e, s in bits:
            z = mul2(y, y), mul2(x, mul2(x, x)), smul((const(4), const(4)), padd(const(1), s, -1))
            d = sub(sub(z[0], z[1]), z[2])
            if all(any(q in got for q in both(p)) for p in d):
                zs = al.norm(e.ret)
                want = {al.fz(p) for p in x + y}
                have = set()

                def leafset(n):
                    if isinstance(n, tuple) and n and n[0] == 'is_zero':
                        have.add(n[1])
                    elif isinstance(n, tuple):
                        for m in n:
                            leafset(m)
                leafset(zs)
                return have == want, 'infinity is recognised from other coordinates'
        return False, 'asserts %s' % '; '.join(al.show(p) for p in got)
    guarded(ctx, 'Pairing::assert_is_on_twist constrains y² = x³ + 4(1+u)', r, f)


def point_of(t):
    """(point, coordinate path)"""
    p = ()
    t = undv(t)
    while True:
        if t.op == 'fld':
            p = (t.a[1],) + p
            t = undv(t.a[0])
        elif t.op == 'call' and cn(t) in STRIP and len(nosite(t)) == 1:
            t = undv(nosite(t)[0])
        else:
            break
    return t, p


# ---- pairing -------------------------------------------------------------------------------------------------------
def pairing(ctx):
    deep = tuple(x for x in ctx.prog.bodies if x.startswith(E12) or x.startswith(E6) or x.startswith(E2))
    r = Run(ctx, PR + 'pairing_check', ['native', 'p', 'q'], extra=deep + (PR + 'miller_loop',))

    def f():
        es = [e for e in events(r.fr) if e.path == E12 + 'assert_final_exponentiation_is_one']
        if len(es) != 1:
            return False, 'the final exponentiation is not asserted once'
        ev = TowerTerm()
        m = [e for e in events(r.fr) if e.path == PR + 'miller_loop']
        if len(m) != 1 or [undv(a) for a in m[0].args[2:4]] != [sym('p'), sym('q')]:
            return False, 'the Miller loop is not run on the given points'
        bad = [c for c, v in es[0].known if v not in ('Ok', 'Some', False) and not unconditional([(c, v)])]
        got = ev.val(es[0].args[2])
        # f^((p^6 - 1)(p^2 + 1)), exponents as polynomials in p
        want = {8: 1, 6: 1, 2: -1, 0: -1}
        return got == want, 'asserts a power %s of the Miller value' % got
    guarded(ctx, 'pairing_check asserts the easy part of the final exponentiation', r, f)
    deep2 = deep + tuple(PR + n for n in ('triple_step', 'double_step', 'double_and_add_step', 'tangent_compute', 'copy_g2_aff_p', 'line_compute'))
    r = Run(ctx, PR + 'compute_lines_with_hint', ['native', 'q'], extra=deep2 + tuple(G2 + n for n in GOPS))
    guarded(ctx, 'compute_lines_with_hint stores the line of every step of the seed', r, lambda: lines(r))
    r = Run(ctx, PR + 'miller_loop_lines_with_hint', ['native', 'p', 'lines'], extra=deep2)
    guarded(ctx, 'miller_loop_lines_with_hint multiplies in every line at its step', r, lambda: miller(r))
    r = Run(ctx, PR + 'miller_loop', ['native', 'p', 'q'], extra=deep2 + (PR + 'compute_lines_with_hint', PR + 'miller_loop_lines_with_hint'))

    def f():
        m = [e for e in events(r.fr) if e.path == PR + 'miller_loop_lines_with_hint']
        c = [e for e in events(r.fr) if e.path == PR + 'compute_lines_with_hint']
        if len(m) != 1 or undv(m[0].args[2]) != sym('p') or len(c) < 1:
            return False, 'lines are not computed and used'
        src = undv(c[0].args[2])
        if not (src.op == 'fld' and src.a[1] == 'p'):
            return False, 'lines are computed for %s' % show(src)[:60]
        if not any(x == undv(r.ret) or True for x in (1,)) or 'miller_loop_lines_with_hint' not in show(r.ret):
            return False, 'returns something else'
        return True, ''
    guarded(ctx, 'miller_loop computes the missing lines and evaluates them at p', r, f)


class TowerTerm:
    """exponent of the Miller value, as a polynomial in p"""

    def val(self, t):
        t = strip_any(t)
        if t.op == 'fld' or t.op == 'call' and cn(t) == 'miller_loop':
            return {0: 1}
        n, a = cn(t), nosite(t)[2:]
        v = self.val(a[0])
        if n == 'conjugate':
            return {k + 6: x for k, x in v.items()}
        if n == 'frobenius':
            return {k + 1: x for k, x in v.items()}
        if n == 'frobenius_square':
            return {k + 2: x for k, x in v.items()}
        if n == 'inverse':
            return {k: -x for k, x in v.items()}
        if n in ('mul', 'div'):
            w = self.val(a[1])
            s = 1 if n == 'mul' else -1
            d = {k: v.get(k, 0) + s * w.get(k, 0) for k in set(v) | set(w)}
            return {k: x for k, x in d.items() if x}
        raise KeyError(show(t)[:60])


def lcfact(known):
    """value of (seed bit == 0) known on the path"""
    for c, v in known:
        if c.op == 'bin' and 'LOOP_COUNTER[' in show(c.a[1]) and isinstance(v, bool):
            k = kval(c.a[2])
            if c.a[0] == 'Eq' and k in (0, 1) or c.a[0] == 'Ne' and k in (0, 1) or c.a[0] == 'Gt' and k == 0:
                z = (c.a[0] == 'Eq') == (k == 0) if c.a[0] != 'Gt' else False
                return z == v
    return None


def idxnum(t):
    """index with the length of the seed expansion substituted"""
    t = undv(t)
    if show(t) == 'len(LOOP_COUNTER)':
        return 64
    v = kval(t)
    if isinstance(v, int):
        return v
    if unc(t) is not t:
        return idxnum(unc(t))
    if t.op == 'bin':
        x, y = idxnum(t.a[1]), idxnum(t.a[2])
        o = t.a[0].replace('WithOverflow', '').replace('Unchecked', '')
        if isinstance(x, int) and isinstance(y, int):
            return {'Sub': x - y, 'Add': x + y, 'Mul': x * y}[o]
    if t.op == 'ridx':
        return ('i', idxnum(t.a[0]), idxnum(t.a[1]) + (0 if 'Inclusive' in str(t.a[2]) else -1))
    raise KeyError('index %s' % show(t)[:60])


def lines(r):
    q = sym('q')
    st = {}
    mus = {mu: (e, b, fr, h) for fr, h, root, mu, e, b in loops(r.fr)}
    acc = None
    for fr, b, it in items(r.fr, 'st', 'sinsert'):
        if it[0] != 'st' or not isinstance(it[1], tuple) or len(it[1]) != 2:
            continue
        j, i = idxnum(it[1][0]), idxnum(it[1][1])
        v = undv(it[2])
        if v.op == 'fld':
            n, which = undv(v.a[0]), v.a[1]
        else:
            n, which = v, None
        st.setdefault((j, i), []).append((cn(n), which, [strip_any(x) for x in nosite(n)[2:]], lcfact(it[3])))
    start = [m for m, (e, b, fr, h) in mus.items() if isop(strip_fld(e), 'Pairing') and cn(strip_fld(e)) == 'triple_step']
    if len(start) != 1:
        return False, 'the accumulator does not start from 3q'
    mu = start[0]
    e, b, fr, h = mus[mu]
    if strip_any(nosite(strip_fld(e))[2]) != q or fldof(e) != 0:
        return False, 'the first step is not the triple of q'
    step = set()
    for x in alts(b):
        x = strip_any(x)
        c = strip_fld(x)
        step.add((cn(c), fldof(x), tuple(strip_any(y) for y in nosite(c)[2:])))
    if step != {('double_step', 0, (mu,)), ('double_and_add_step', 0, (mu, q))}:
        return False, 'the accumulator becomes %s' % sorted(str(s[:2]) for s in step)
    rng = ('i', 1, 61)
    want = {(0, 62): [('triple_step', 1, [q], None)], (1, 62): [('triple_step', 2, [q], None)], (0, 0): [('tangent_compute', None, [mu], None)],
            (0, rng): [('double_step', 1, [mu], True), ('double_and_add_step', 1, [mu, q], False)], (1, rng): [('double_and_add_step', 2, [mu, q], False)]}
    for k, w in want.items():
        g = [(x[0], int(x[1]) if x[1] is not None else None, x[2], x[3]) for x in st.get(k, [])]
        g = [(x[0], x[1], x[2], None if k[1] in (62, 0) else x[3]) for x in g]
        if sorted(map(str, g)) != sorted(map(str, w)):
            return False, 'line %s is %s' % (k, [x[:2] + (x[3],) for x in g])
    if set(st) - set(want):
        return False, 'extra line %s' % sorted(map(str, set(st) - set(want)))
    its = trips(r.fr, h, fr)
    if not its or not any(x.op == 'rev' for x in subterms(its[0])):
        return False, 'steps are not taken from the high bit down'
    return True, ''


def strip_fld(t):
    t = strip_any(t)
    while t.op == 'fld':
        t = strip_any(t.a[0])
    return t


def fldof(t):
    t = strip_any(t)
    try:
        return int(t.a[1]) if t.op == 'fld' else None
    except ValueError:
        return None


def miller(r):
    """lines used: (k, j, i) with the right evaluation; squarings; bit guards"""
    def line(a, b):
        """(k, j, i) of the line whose evaluation the two coefficients are"""
        out = []
        for x, rr in ((a, 'r1'), (b, 'r0')):
            x = strip_any(x)
            if cn(x) != 'mul_by_element':
                raise KeyError('line coefficient %s' % show(x)[:60])
            l, s = nosite(x)[2:4]
            l = strip_any(l)
            if not (l.op == 'fld' and l.a[1] == rr):
                raise KeyError('coefficient %s instead of %s' % (l.a[1] if l.op == 'fld' else '?', rr))
            s = show(undv(s))
            pt = r.al.ev(nosite(x)[3])
            py = [z for z in subterms(nosite(x)[3]) if z.op == 'fld' and z.a[1] == 'y' and 'p[' in show(z)]
            if len(set(py)) != 1:
                raise KeyError('line evaluated at %s' % s[:60])
            y = r.al.ev(py[0])
            x0 = r.al.ev(fld(py[0].a[0], 'x'))
            inv = r.al.quot((const(1),), (y,))[0]
            want = inv if rr == 'r1' else padd({}, pmul(x0, inv), -1)
            if pt != want:
                raise KeyError('line evaluated with %s' % r.al.show(pt))
            t = l.a[0]
            ix = []
            while t.op != 'sym':
                t = undv(t)
                if t.op in ('idx', 'elem', 'at') and len(t.a) >= 2:
                    ix.append(undv(t.a[1]))
                    t = t.a[0]
                elif t.op in ('fld', 'dv', 'vf') or t.op == 'call':
                    t = t.a[0] if t.op != 'call' else nosite(t)[0]
                else:
                    raise KeyError('line %s' % show(l)[:60])
            if len(ix) != 3:
                raise KeyError('line %s' % show(l)[:60])
            out.append((ix[2], idxnum(ix[1]), idxnum(ix[0])))
        if out[0] != out[1]:
            raise KeyError('coefficients of different lines %s' % (out,))
        return out[0]
    use = {}
    calls = {}
    for e in events(r.fr):
        n = e.path.rsplit('::', 1)[-1]
        if e.path == E12 + 'mul_by_014':
            k, j, i = line(e.args[3], e.args[4])
            kk = kclass(k)
            use.setdefault((kk, j, i), []).append(lcfact(e.known))
            calls[undv(e.ret)] = (kk, j, i, strip_any(e.args[2]))
        elif e.path == E12 + 'mul_014_by_014':
            for a, b in ((e.args[2], e.args[3]), (e.args[4], e.args[5])):
                k, j, i = line(a, b)
                use.setdefault((kclass(k), j, i), []).append(None)
    R = ('i', 0, 61)
    want = {(0, 0, 62): 1, (0, 1, 62): 1, ('1..n', 0, 62): 1, ('1..n', 1, 62): 1, ('0..n', 0, R): None, ('0..n', 1, R): None}
    for k in want:
        if k not in use:
            return False, 'line %s is never used (used: %s)' % (k, sorted(map(str, use)))
    if set(use) - set(want):
        return False, 'line %s is used' % sorted(map(str, set(use) - set(want)))
    if set(use[('0..n', 1, R)]) != {False} or not set(use[('0..n', 0, R)]) in ({True, False}, {None}):
        return False, 'the second line is used for bits %s, the first for %s' % (use[('0..n', 1, R)], use[('0..n', 0, R)])
    # loop products
    ls = loops(r.fr)

    def prod(t, mu):
        o = []
        t = strip_any(t)
        while t in calls:
            o.append(calls[t][:3])
            t = calls[t][3]
        return (frozenset(o), len(o), t == mu)
    first = inner = None
    for fr, h, root, mu, e, b in ls:
        ps = {prod(x, mu) for x in alts(b)}
        if ps == {(frozenset({('1..n', 0, 62), ('1..n', 1, 62)}), 2, True)}:
            first = mu
        if ps == {(frozenset({('0..n', 0, R)}), 1, True), (frozenset({('0..n', 0, R), ('0..n', 1, R)}), 2, True)}:
            inner = (mu, e)
    if first is None or inner is None:
        return False, 'the accumulator is not multiplied by both lines of a step'
    starts = [strip_any(x) for x in alts(inner[1])]
    starts = [x for x in starts if cn(x) != 'square' or True]
    if not starts or any(cn(x) not in ('square', 'cyclotomic_square') or cn(x) == 'cyclotomic_square' for x in starts):
        return False, 'the accumulator is not squared once before the lines of a step: %s' % [show(x)[:60] for x in starts]
    for x in starts:
        for y in alts(nosite(x)[2]):
            if strip_any(y) not in (first, inner[0]) and not strip_any(y).op == 'mu':
                return False, 'squares %s' % show(y)[:60]
    # iteration: all points, all bits from 61 down
    its = [undv(it[2]) for f, b, it in items(r.fr, 'nxt')]
    bit = [t for t in its if any(x.op == 'ridx' and okidx(x) == R for x in subterms(t))]
    if len(bit) != 1 or not any(x.op == 'rev' for x in subterms(bit[0])):
        return False, 'bits are not taken from 61 down to 0'
    # result
    ok = [undv(x) for x in (r.ret.a[0] if False else alts(undv(r.ret)))]
    ok = [x for x in subterms(r.ret) if x.op == 'agg' and x.a[1] == 'Ok']
    if len(ok) != 1 or cn(strip_any(ok[0].a[3])) != 'conjugate':
        return False, 'the result is not conjugated for the negative seed'
    # the inverse and quotient used for point k are those of point k
    for f, b, it in items(r.fr, 'index'):
        if it[3].op == 'seq' or undv(it[3]).op == 'seq':
            act = active(it[5])
            i = undv(it[4])
            if act and i not in act or not act and kval(i) != 0:
                return False, 'point %s is used while processing point %s' % (show(i), [show(x) for x in act] or 0)
    return True, ''


def active(known):
    pos, neg_ = set(), set()
    for c, v in known:
        for x in subterms(c):
            if x.op == 'ridx' and 'len(' in show(x) and 'LOOP' not in show(x):
                (pos if v == 'Some' else neg_ if v == 'None' else set()).add(x)
    return pos - neg_


def okidx(t):
    try:
        return idxnum(t)
    except (KeyError, TypeError):
        return None


def kclass(k):
    k = undv(k)
    v = kval(k)
    if isinstance(v, int):
        return v
    if k.op == 'ridx' and 'Inclusive' not in str(k.a[2]) and show(k.a[1]) in ('len(p)', 'len(lines)'):
        return '%s..n' % kval(k.a[0])
    raise KeyError('point index %s' % show(k)[:50])


def check(ctx):
    main(ctx)
    chains(ctx)
    constants(ctx)
    horner(ctx)
    isogenies(ctx)
    assertions(ctx)
    pairing(ctx)
    return RULE
