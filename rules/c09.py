"""An operation has the same value in every evaluator.  Each evaluator (IR instruction evaluation, unconstrained operations, builtin hints,
scalar and SIMD witness solving, layered circuit evaluation) is abstractly interpreted once per enum variant and per case of its
operands (zero / non-zero / equal); the value it yields is reduced to a normal form over the operands and compared with one
table of meanings."""
from rules.assume import *
from rules.c13 import padd, walk, fieldmap, boolval, fshow

RULE = 'normal form of the evaluated value per variant and operand case against the operation table'
SRC = EC + 'circuit::ir::source::'
HB = EC + 'hints::builtin::'
IRS = ('source', 'hint_normalized', 'hint_less', 'dest')


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = tuple(sorted(m + n, key=repr))
            r[q] = r.get(q, 0) + c * d
    return {m: c for m, c in r.items() if c}


def where(b):
    return '%s:%s' % (b.file, b.line)


def cname(t):
    return str(t.a[0]).rsplit('::', 1)[-1] if t.op == 'call' else None


WRAP = ('from_u256', 'from', 'into', 'try_from', 'clone', 'new')


def strip(t):
    """value-preserving wrappers around an integer/field value"""
    while True:
        t = undv(t)
        if t.op == 'call' and len(t.a) == 2 and cname(t) in ('from_u256', 'from', 'into', 'to_u256', 'clone') and isinstance(t.a[1], T):
            t = t.a[1]
        elif t.op == 'agg' and t.a[1] == 'Some':
            t = t.a[3]
        elif t.op == 'cast':
            t = next(z for z in t.a if isinstance(z, T))
        elif t.op == 'cdef' and isinstance(t.a[1], T):
            t = t.a[1]
        else:
            return t


def zeroc(t):
    t = strip(t)
    return is_k(t, 0) or is_k(t, False) or t.op == 'call' and len(t.a) == 1 and cname(t) == 'zero' or t.op == 'cdef' and str(t.a[0]).endswith('ZERO') or t.op == 'cparam' and str(t.a[0]).endswith('ZERO')


def onec(t):
    t = strip(t)
    return is_k(t, 1) or is_k(t, True) or t.op == 'call' and len(t.a) == 1 and cname(t) == 'one' or t.op in ('cdef', 'cparam') and str(t.a[0]).endswith('ONE')


def N(t, atoms):
    """normal form: polynomial over atoms; atoms are given operand terms or structured operations"""
    t = strip(t)
    if t in atoms:
        return {(atoms[t],): 1}
    v = kval(t)
    if isinstance(v, (bool, int)):
        return {(): int(v)} if int(v) else {}
    if zeroc(t):
        return {}
    if onec(t):
        return {(): 1}
    if t.op == 'bin':
        o, a, b = t.a[0], N(t.a[1], atoms), N(t.a[2], atoms)
        if o == 'Add':
            return padd(a, b)
        if o == 'Sub':
            return padd(a, b, -1)
        if o == 'Mul':
            return pmul(a, b)
        fa, fb = fz(a), fz(b)
        if o in ('Eq', 'BitOr', 'BitAnd', 'BitXor'):
            return {((o,) + tuple(sorted((fa, fb), key=repr)),): 1}
        return {((o, fa, fb),): 1}
    if t.op == 'un':
        a = N(t.a[1], atoms)
        if t.a[0] == 'Neg':
            return padd({}, a, -1)
        if t.a[0] == 'Not':
            return padd({(): 1}, a, -1)
    if t.op == 'call' or t.op == 'fld' and t.a[1] == 'Some.0':
        c = undv(t.a[0]) if t.op == 'fld' else t
        n = cname(c) if c.op == 'call' else None
        if n == 'inv':
            return {(('inv', fz(N(c.a[1], atoms))),): 1}
        if n == 'double' and len(c.a) == 2:
            return padd(N(c.a[1], atoms), N(c.a[1], atoms))
        if n == 'square' and len(c.a) == 2:
            return pmul(N(c.a[1], atoms), N(c.a[1], atoms))
        if n == 'is_zero':
            return {(('is_zero', fz(N(c.a[1], atoms))),): 1}
        if n == 'scale':
            return pmul(N(c.a[1], atoms), N(c.a[2], atoms))
        if c.op == 'call' and n in ('circom_shift_l_impl', 'circom_shift_r_impl'):
            return {((n, fz(N(c.a[1], atoms)), fz(N(c.a[2], atoms))),): 1}
    if t.op == 'red':
        return {(('red', t.a[0], fz(N(t.a[1], atoms)), fz(N(t.a[2], atoms))),): 1}
    return {(show(t),): 1}


def fz(p):
    """compare e.g. not(a<b) with b<=a"""
    return tuple(sorted(p.items(), key=repr))


def canon(p):
    """x <= y is 1 - (y < x)"""
    out = {}
    for m, c in p.items():
        if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'Le':
            out = padd(out, {(): c})
            out = padd(out, {(('Lt', m[0][2], m[0][1]),): -c})
        else:
            out = padd(out, {m: c})
    return out


def cases(A, B, xz, yz, eq):
    """assumption deciding zero tests and equality of the two operands"""
    z = {A: xz, B: yz}

    def f(t):
        if t.op == 'call' and cname(t) == 'is_zero' and len(t.a) == 2:
            a = strip(t.a[1])
            if a in z:
                return k(z[a])
        if t.op == 'call' and cname(t) == 'inv' and len(t.a) >= 2 and strip(t.a[1]) in z:
            a = strip(t.a[1])
            if z[a]:
                return mk('agg', 'core::option::Option', 'None', ())
            return mk('agg', 'core::option::Option', 'Some', ('0',), mk('call', 'INV::inv', a))
        if t.op == 'bin' and t.a[0] == 'Eq':
            a, b = strip(t.a[1]), strip(t.a[2])
            if {a, b} == {A, B} and A is not B:
                return k(eq)
            for p, q in ((a, t.a[2]), (b, t.a[1])):
                if p in z and zeroc(q):
                    return k(z[p])
        if t.op == 'bin' and t.a[0] in ('Lt', 'Le') and kval(strip(t.a[1])) is not None or t.op == 'bin' and t.a[0] in ('Lt', 'Le') and zeroc(t.a[1]):
            # 0 < y
            b = strip(t.a[2])
            if zeroc(t.a[1]) and b in z and t.a[0] == 'Lt':
                return k(not z[b])
    return f


CASES = [(xz, yz, eq) for xz in (False, True) for yz in (False, True) for eq in ((True,) if xz and yz else (False,) if xz != yz else (False, True))]
X, Y = {('x',): 1}, {('y',): 1}
ERR = 'error'
fx, fy = fz(X), fz(Y)


def lt(a, b):
    return {(('Lt', a, b),): 1}


def meaning(op, xz, yz, eq, hint):
    """value of a binary operation on operands in the given case"""
    sym2 = lambda o: {((o,) + tuple(sorted((fx, fy), key=repr)),): 1}
    B = lambda v: {(): 1} if v else {}
    one = {(): 1}
    if op == 'Div':
        if yz:
            return {} if hint else ERR
        return {('x', ('inv', fy)): 1}
    if op in ('IntDiv', 'Mod'):
        if yz:
            return {} if hint else ERR
        return {(('Div' if op == 'IntDiv' else 'Rem', fx, fy),): 1}
    if op == 'Eq':
        return B(eq)
    if op == 'NotEq':
        return B(not eq)
    if op == 'BoolOr':
        return B(not xz or not yz)
    if op == 'BoolAnd':
        return B(not xz and not yz)
    if op in ('BitOr', 'BitAnd', 'BitXor'):
        return sym2(op)
    if op == 'Lesser':
        return lt(fx, fy)
    if op == 'Greater':
        return lt(fy, fx)
    if op == 'LesserEq':
        return padd(one, lt(fy, fx), -1)
    if op == 'GreaterEq':
        return padd(one, lt(fx, fy), -1)
    if op in ('ShiftL', 'ShiftR'):
        return {(('circom_shift_l_impl' if op == 'ShiftL' else 'circom_shift_r_impl', fx, fy),): 1}
    return None


def reduce0(p, xz, yz):
    """drop monomials with an operand that is zero"""
    def dead(m):
        return xz and 'x' in m or yz and 'y' in m
    return {m: c for m, c in p.items() if not dead(m)}


def srt(p):
    return {tuple(sorted(m, key=repr)): c for m, c in p.items()}


def equalv(p, q, xz, yz):
    return srt(reduce0(canon(p), xz, yz)) == srt(reduce0(canon(q), xz, yz))


OPS = ('Div', 'IntDiv', 'Mod', 'ShiftL', 'ShiftR', 'LesserEq', 'GreaterEq', 'Lesser', 'Greater', 'Eq', 'NotEq', 'BoolOr', 'BoolAnd', 'BitOr', 'BitAnd', 'BitXor')
SHIFT = ('circom_shift_l_impl', 'circom_shift_r_impl')


def opaques(ctx, *names):
    return tuple(p for p in ctx.prog.bodies if any(p.endswith(n) for n in names))


def outcomes(t):
    """alternatives of a Result/EvalResult value"""
    return [undv(x) for x in alts(undv(t))] if t is not None else []


def check_ops(ctx):
    P = ctx.prog
    n = 0
    opq = opaques(ctx, *SHIFT)
    b = ctx.body(SRC + 'UnconstrainedBinOpType::eval')
    adt = SRC + 'UnconstrainedBinOpType'
    A, B = sym('x'), sym('y')
    atoms = {A: 'x', B: 'y'}
    if b is not None:
        have = {v['name'] for v in variants(P, adt)}
        ctx.need(have == set(OPS) | {'Pow'}, 'UnconstrainedBinOpType', 'the operations of UnconstrainedBinOpType changed: %s' % sorted(have ^ (set(OPS) | {'Pow'})))
        for op in OPS:
            for xz, yz, eq in CASES:
                n += 1
                I, fr = counterfactual(ctx, b, fn=cases(A, B, xz, yz, eq), names=['self', 'x', 'y'], mem={sym('self'): agg_of(P, adt, op, base=sym('self'))}, opaque=opq)
                want = meaning(op, xz, yz, eq, False)
                out = outcomes(ret(I, fr)) if fr.ret is not None else []
                if want is ERR:
                    good = bool(out) and all(o.op == 'agg' and o.a[1] == 'Err' for o in out)
                else:
                    good = bool(out) and all(o.op == 'agg' and o.a[1] == 'Ok' and all(equalv(N(z, atoms), want, xz, yz) for z in alts(undv(o.a[3]))) for o in out)
                ctx.ob('unconstrained:%s:%d%d%d' % (op, xz, yz, eq), good, 'unconstrained %s (x%s0, y%s0%s) evaluates to %s' % (op, '=' if xz else '!=', '=' if yz else '!=', ', x=y' if eq else '', fshow(out)), where(b))
    b = ctx.body(HB + 'impl_builtin_hint')
    adt = HB + 'BuiltinHintIds'
    if b is not None:
        have = {v['name'] for v in variants(P, adt)}
        known = set(OPS) | {'Pow', 'Identity', 'Select', 'ToBinary'}
        ctx.need(have == known, 'BuiltinHintIds', 'the builtin hints changed: %s' % sorted(have ^ known))
        ins = sym('ins')
        A, B, C = (mk('at', ins, k(i)) for i in range(3))
        atoms = {A: 'x', B: 'y', C: 'z'}
        for op in OPS:
            for xz, yz, eq in CASES:
                n += 1
                I, fr = counterfactual(ctx, b, fn=cases(A, B, xz, yz, eq), names=['h', 'ins', 'num'], args={0: agg_of(P, adt, op)}, opaque=opq)
                want = meaning(op, xz, yz, eq, True)
                r = undv(ret(I, fr)) if fr.ret is not None else None
                es = elems(r) if r is not None else set()
                vals = [z for e in es for z in alts(undv(e))]
                good = bool(vals) and all(equalv(N(z, atoms), want, xz, yz) for z in vals) and single(r)
                ctx.ob('hint:%s:%d%d%d' % (op, xz, yz, eq), good, 'the builtin hint %s (x%s0, y%s0%s) yields %s' % (op, '=' if xz else '!=', '=' if yz else '!=', ', x=y' if eq else '', show(r)[:200] if r is not None else 'a panic'), where(b))
        for xz in (False, True):
            n += 1
            I, fr = counterfactual(ctx, b, fn=cases(A, B, xz, False, False), names=['h', 'ins', 'num'], args={0: agg_of(P, adt, 'Select')}, opaque=opq)
            r = undv(ret(I, fr)) if fr.ret is not None else None
            es = elems(r) if r is not None else set()
            ctx.ob('hint:Select:%d' % xz, es == {C if xz else B} and single(r), 'the builtin hint Select with a %s condition yields %s' % ('zero' if xz else 'non-zero', fshow(es)), where(b))
        I, fr = counterfactual(ctx, b, names=['h', 'ins', 'num'], args={0: agg_of(P, adt, 'Identity')}, opaque=opq)
        es = elems(ret(I, fr)) if fr.ret is not None else set()
        good = bool(es) and all(is_take(e, ins) for e in es)
        ctx.ob('hint:Identity', good, 'the identity hint yields %s' % fshow(es), where(b))
        I, fr = counterfactual(ctx, b, names=['h', 'ins', 'num'], args={0: agg_of(P, adt, 'ToBinary')}, opaque=opaques(ctx, 'builtin::to_binary'))
        r = undv(ret(I, fr)) if fr.ret is not None else None
        c = [z for z in walk(r) if cname(z) == 'to_binary'] if r is not None else []
        ctx.ob('hint:ToBinary', len(c) == 1 and undv(c[0].a[1]) is A and undv(c[0].a[2]) is sym('num'), 'the to-binary hint yields %s' % (show(r)[:200] if r is not None else None), where(b))
        n += 2
    # ids
    b = ctx.body(HB + 'BuiltinHintIds::from_usize')
    if b is not None:
        for v in variants(P, adt):
            n += 1
            I, fr = counterfactual(ctx, b, args={0: k(int(v['discr']))}, names=['id'])
            out = outcomes(ret(I, fr)) if fr.ret is not None else []
            good = bool(out) and all(o.op == 'agg' and o.a[1] == 'Some' and undv(o.a[3]).op == 'agg' and undv(o.a[3]).a[1] == v['name'] for o in out)
            ctx.ob('hint-id:%s' % v['name'], good, 'the hint id of %s is decoded as %s' % (v['name'], fshow(out)), where(b))
        last = max(int(v['discr']) for v in variants(P, adt))
        first = min(int(v['discr']) for v in variants(P, adt))
        for x in (first - 1, last + 1, 0, 12345, 2 ** 62 + 1):
            I, fr = counterfactual(ctx, b, args={0: k(x)}, names=['id'])
            out = outcomes(ret(I, fr)) if fr.ret is not None else []
            ctx.ob('hint-id:%d' % x, bool(out) and all(o.op == 'agg' and o.a[1] == 'None' for o in out), 'the custom hint id %d is decoded as %s' % (x, fshow(out)), where(b))
    return n


def single(r):
    """exactly one element"""
    r = undv(r)
    if r.op == 'arr':
        return len(r.a) == 1
    if r.op == 'phi':
        return all(single(x) for x in alts(r))
    return r.op == 'seq' and (r.a[0] is None or undv(r.a[0]).op == 'arr' and not undv(r.a[0]).a)


def is_take(e, ins):
    e = undv(e)
    while e.op == 'part' and undv(e.a[1]).op == 'tup' and is_k(undv(undv(e.a[1]).a[0]), 'take'):
        e = undv(e.a[0])
    if e.op == 'at' and undv(e.a[1]).op == 'ridx':
        e = elem(e.a[0])
    return e is elem(ins)


# ---------------------------------------------------------------- shifts and bit decomposition
def check_shift(ctx):
    P = ctx.prog
    n = 0
    x, kk = sym('x'), sym('k')
    for nm, other, shop in (('circom_shift_l_impl', 'circom_shift_r_impl', 'Shl'), ('circom_shift_r_impl', 'circom_shift_l_impl', 'Shr')):
        b = ctx.body(HB + nm)
        if b is None:
            continue
        ismod = lambda t: 'MODULUS' in show(t) and strip(t).op in ('cdef', 'cparam', 'call', 'sym') or show(strip(t)) == 'MODULUS'

        def fn(lo, small, big):
            def f(t):
                if t.op == 'bin' and t.a[0] in ('Lt', 'Le'):
                    a, c = strip(t.a[1]), strip(t.a[2])
                    if a is kk and 'MODULUS' in show(c) and 'leading_zeros' not in show(c):
                        return k(lo)
                    if c is kk and 'MODULUS' in show(a) and 'leading_zeros' not in show(a):
                        return k(not lo)
                    # shift amount against 256
                    for p, q, d in ((a, c, 1), (c, a, -1)):
                        if kval(p) == 256 and t.a[0] == 'Le' and d == 1 or kval(q) == 256 and t.a[0] == 'Lt' and d == 1 and kval(p) is None:
                            pass
                    if kval(a) == 256:
                        return k(big)
                    if kval(c) == 256:
                        return k(not big)
                    if kval(a) == 255:
                        return k(big)
                if t.op == 'bin' and t.a[0] == 'Eq' and any(zeroc(z) for z in t.a[1:]) and any(strip(z).op == 'bin' and strip(z).a[0] == 'Shr' and strip(strip(z).a[1]) is kk for z in t.a[1:]):
                    return k(small)
            return f
        opq = (HB + other,)
        # within half of the field: shift by k
        I, fr = counterfactual(ctx, b, fn=fn(True, True, False), names=['x', 'k'], opaque=opq)
        r = [undv(z) for z in alts(undv(ret(I, fr)))] if fr.ret is not None else []
        good = bool(r)
        for z in r:
            s = [w for w in walk(z) if w.op == 'bin' and w.a[0] == shop and strip(w.a[1]) is x]
            good &= len(s) == 1 and as_u64(s[0].a[2], kk)
            if shop == 'Shl':
                # masked to the bit length of the modulus
                good &= z.op == 'bin' and z.a[0] == 'BitAnd' and any(mask(w) for w in z.a[1:])
            else:
                good &= z.op == 'bin' and z.a[0] == 'Shr'
        ctx.ob('%s:near' % nm, good, 'shifting by k <= p/2 gives %s' % fshow(r), where(b))
        # beyond: shift the other way by p - k
        I, fr = counterfactual(ctx, b, fn=fn(False, True, False), names=['x', 'k'], opaque=opq)
        r = [undv(z) for z in alts(undv(ret(I, fr)))] if fr.ret is not None else []
        good = bool(r) and all(z.op == 'call' and cname(z) == other and strip(z.a[1]) is x and submod(z.a[2], kk) for z in r)
        ctx.ob('%s:far' % nm, good, 'shifting by k > p/2 gives %s' % fshow(r), where(b))
        I, fr = counterfactual(ctx, b, fn=fn(True, True, True), names=['x', 'k'], opaque=opq)
        r = [undv(z) for z in alts(undv(ret(I, fr)))] if fr.ret is not None else []
        ctx.ob('%s:overflow' % nm, bool(r) and all(zeroc(z) for z in r), 'shifting by 256 or more gives %s' % fshow(r), where(b))
        n += 3
    b = ctx.body(HB + 'to_binary')
    if b is not None:
        x = sym('x')

        def rest(z):
            def f(t):
                if t.op == 'bin' and t.a[0] == 'Eq' and any(zeroc(w) for w in t.a[1:]) and any('to_u256' in show(w) for w in t.a[1:]):
                    return k(z)
            return f
        I, fr = counterfactual(ctx, b, fn=rest(False), names=['x', 'num'])
        ctx.ob('to_binary:too-large', not success(I, fr), 'to_binary of a value with more bits than outputs succeeds', where(b))
        I, fr = counterfactual(ctx, b, fn=rest(True), names=['x', 'num'])
        r = undv(ret(I, fr)) if fr.ret is not None else None
        es = set()
        for o in outcomes(r):
            if o.op == 'agg' and o.a[1] == 'Ok':
                es |= {undv(z) for e in elems(o.a[3]) for z in alts(e)}
        good = bool(es)
        for e in es:
            e = strip(e)
            ok_ = e.op == 'bin' and e.a[0] == 'BitAnd' and any(onec(w) for w in e.a[1:])
            if ok_:
                v = next(w for w in e.a[1:] if not onec(w))
                ok_ = all(bits(w, x) for w in alts(undv(v)))
            good &= ok_
        ctx.ob('to_binary:bits', good, 'to_binary yields %s' % fshow(es), where(b))
        ctx.ob('to_binary:fits', success(I, fr), 'to_binary of a value that fits fails', where(b))
        n += 3
    return n


def bits(w, x):
    w = strip(w)
    if w is x:
        return True
    if w.op == 'red' and w.a[0] == 'Shr':
        return strip(w.a[1]) is x and onec(w.a[2])
    if w.op == 'bin' and w.a[0] == 'Shr':
        return strip(w.a[1]) is x
    return False


def as_u64(t, kk):
    """the shift amount is k itself"""
    t = strip(t)
    while t.op == 'call' and len(t.a) == 2 and cname(t) in ('as_u64', 'as_usize', 'as_u128', 'as_u32', 'try_into', 'unwrap'):
        t = strip(t.a[1])
    return t is kk


def mask(t):
    """2^bits(p) - 1"""
    t = strip(t)
    if t.op != 'bin' or t.a[0] != 'Sub' or not onec(t.a[2]):
        return False
    u = strip(t.a[1])
    return u.op == 'bin' and u.a[0] == 'Shl' and onec(u.a[1]) and 'MODULUS' in show(u.a[2]) and 'leading_zeros' in show(u.a[2])


def submod(t, kk):
    t = strip(t)
    return t.op == 'bin' and t.a[0] == 'Sub' and show(strip(t.a[1])).endswith('MODULUS') and strip(t.a[2]) is kk


# ---------------------------------------------------------------- instructions
def ev_value(out):
    """(kind, payload) alternatives of an EvalResult"""
    r = []
    for o in out:
        if o.op == 'agg':
            r.append((o.a[1], [undv(z) for z in o.a[3:]]))
        else:
            r.append(('?', [o]))
    return r


def check_insns(ctx):
    P = ctx.prog
    n = 0
    V = sym('values')
    S = sym('self')
    opq = opaques(ctx, *SHIFT) + opaques(ctx, 'UnconstrainedBinOpType::eval', 'builtin::to_binary', 'hints::stub_impl', 'builtin::stub_impl', 'Coef::<C>::get_value_unsafe', 'hints::safe_impl')
    evs = [(ir, EC + '<circuit::ir::%s::Instruction<C> as circuit::ir::common::Instruction<C>>::eval_unsafe' % ir) for ir in IRS]
    evs.append(('hint_normalized', EC + 'circuit::ir::hint_normalized::Instruction::<C>::eval_safe'))
    at = lambda f: mk('at', V, fld(S, f))
    for ir, path in evs:
        b = ctx.body(path)
        if b is None:
            continue
        safe = path.endswith('eval_safe')
        adt = EC + 'circuit::ir::%s::Instruction' % ir
        for v in variants(P, adt):
            nm = v['name']
            fs = [f[0] for f in v['fields']]
            tag = '%s:%s:%s' % (ir, 'safe' if safe else 'unsafe', nm)
            mem = {S: agg_of(P, adt, nm, base=S)}

            def go(fn=None, mem=mem):
                I, fr = counterfactual(ctx, b, fn=fn, names=['self', 'values', 'pub', 'hc'], mem=mem, opaque=opq)
                return I, fr, ev_value(outcomes(ret(I, fr))) if fr.ret is not None else None
            n += 1
            ob = lambda key, good, what: ctx.ob('%s%s' % (tag, key), good, '%s %s: %s' % (ir, nm, what), where(b))
            sh = lambda r: str([(q, [show(z)[:150] for z in a]) for q, a in r])[:400] if r is not None else 'panics'
            if nm == 'LinComb':
                I, fr, r = go()
                lc = fld(S, 'LinComb.0')
                tm = elem(fld(lc, 'terms'))
                good = r is not None and len(r) == 1 and r[0][0] == 'Value' and lincomb(r[0][1][0], fld(lc, 'constant'), mk('at', V, fld(tm, 'var')), fld(tm, 'coef'))
                ob('', good, 'a linear combination evaluates to %s' % sh(r))
            elif nm == 'Mul':
                I, fr, r = go()
                good = r is not None and len(r) == 1 and r[0][0] == 'Value' and product(r[0][1][0], mk('at', V, elem(fld(S, 'Mul.0'))), fld(S, 'Mul.0'), V)
                ob('', good, 'a product evaluates to %s' % sh(r))
            elif nm == 'Div':
                A, B = at('Div.x'), at('Div.y')
                for xz, yz, eq in CASES:
                    for chk in (False, True):
                        f0 = cases(A, B, xz, yz, eq)
                        I, fr, r = go(lambda t: k(chk) if undv(t) is fld(S, 'Div.checked') else f0(t))
                        if yz and (chk or not xz):
                            good = r is not None and all(q == 'Error' for q, a in r)
                        else:
                            w = {} if yz else {('x', ('inv', fy)): 1}
                            good = bool(r) and all(q == 'Value' and equalv(N(a[0], {A: 'x', B: 'y'}), w, xz, yz) for q, a in r)
                        ob(':%d%d%d%d' % (xz, yz, eq, chk), good, 'division (x%s0, y%s0, %s) evaluates to %s' % ('=' if xz else '!=', '=' if yz else '!=', 'checked' if chk else 'unchecked', sh(r)))
            elif nm == 'BoolBinOp':
                A, B = at('BoolBinOp.x'), at('BoolBinOp.y')
                bad = {}
                for op, val in (('Xor', {('x',): 1, ('y',): 1, ('x', 'y'): -2}), ('Or', {('x',): 1, ('y',): 1, ('x', 'y'): -1}), ('And', {('x', 'y'): 1})):
                    m = {S: mk('agg', adt, nm, tuple(fs), *[agg_of(P, SRC + 'BoolBinOpType', op) if f == 'op' else fld(S, 'BoolBinOp.' + f) for f in fs])}
                    for a_ in (0, 1, 2):
                        for b_ in (0, 1, 2):
                            def fb(t):
                                for o, q in ((A, a_), (B, b_)):
                                    if t.op == 'call' and cname(t) == 'is_zero' and strip(t.a[1]) is o:
                                        return k(q == 0)
                                    if t.op == 'bin' and t.a[0] == 'Eq':
                                        for u, w in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                                            if strip(u) is o and onec(w):
                                                return k(q == 1)
                                            if strip(u) is o and zeroc(w):
                                                return k(q == 0)
                                if t.op == 'bin' and t.a[0] == 'Eq' and {strip(t.a[1]), strip(t.a[2])} == {A, B} and 2 not in (a_, b_):
                                    return k(a_ == b_)
                            I, fr, r = go(fb, m)
                            if 2 in (a_, b_):
                                good = r is not None and all(q == 'Error' for q, a in r)
                            else:
                                want = {'Xor': a_ ^ b_, 'Or': a_ | b_, 'And': a_ & b_}[op]
                                good = bool(r) and all(q == 'Value' and numeval(N(a[0], {A: 'x', B: 'y'}), a_, b_) == want for q, a in r)
                            ob(':%s:%d%d' % (op, a_, b_), good, '%s of %s and %s evaluates to %s' % (op, *['a non-boolean' if q == 2 else q for q in (a_, b_)], sh(r)))
            elif nm == 'IsZero':
                A = at('IsZero.0')
                for z in (False, True):
                    I, fr, r = go(cases(A, sym('none'), z, False, False))
                    good = bool(r) and all(q == 'Value' and N(a[0], {A: 'x'}) == ({(): 1} if z else {}) for q, a in r)
                    ob(':%d' % z, good, 'is-zero evaluates to %s' % sh(r))
            elif nm == 'UnconstrainedBinOp':
                I, fr, r = go()
                c = [z for z in walk(ret(I, fr)) if cname(z) == 'eval'] if r is not None else []
                good = bool(c) and all(undv(z.a[1]) is fld(S, 'UnconstrainedBinOp.op') and undv(z.a[2]) is at('UnconstrainedBinOp.x') and undv(z.a[3]) is at('UnconstrainedBinOp.y') for z in c)
                good = good and {q for q, a in r} == {'Value', 'Error'} and all(undv(a[0]).op == 'fld' and undv(a[0]).a[1] == ('Ok.0' if q == 'Value' else 'Err.0') for q, a in r)
                ob('', good, 'evaluates to %s' % sh(r))
            elif nm == 'UnconstrainedSelect':
                A = at('UnconstrainedSelect.cond')
                for z in (False, True):
                    I, fr, r = go(cases(A, sym('none'), z, False, False))
                    good = bool(r) and all(q == 'Value' and a[0] is at('UnconstrainedSelect.' + ('if_false' if z else 'if_true')) for q, a in r)
                    ob(':%d' % z, good, 'select with a %s condition evaluates to %s' % ('zero' if z else 'non-zero', sh(r)))
            elif nm == 'SubCircuitCall':
                I, fr, r = go()
                good = r is not None and len(r) == 1 and r[0][0] == 'SubCircuitCall' and r[0][1] == [fld(S, nm + '.sub_circuit_id'), fld(S, nm + '.inputs')]
                ob('', good, 'evaluates to %s' % sh(r))
            elif nm == 'ToBinary':
                I, fr, r = go()
                c = [z for z in walk(ret(I, fr)) if cname(z) == 'to_binary'] if r is not None else []
                good = bool(c) and all(undv(z.a[1]) is at('ToBinary.x') and undv(z.a[2]) is fld(S, 'ToBinary.num_bits') for z in c)
                good = good and {q for q, a in r} == {'Values', 'Error'} and all(undv(a[0]).op == 'fld' and undv(a[0]).a[1] == ('Ok.0' if q == 'Values' else 'Err.0') for q, a in r)
                ob('', good, 'evaluates to %s' % sh(r))
            elif nm in ('Hint', 'CustomGate'):
                I, fr, r = go()
                if nm == 'CustomGate' and safe:
                    ob('', r is not None and all(q == 'Error' for q, a in r), 'a custom gate in the witness solver evaluates to %s' % sh(r))
                    continue
                idf = fld(S, nm + '.' + ('hint_id' if nm == 'Hint' else 'gate_type'))
                cnt = fld(S, 'Hint.num_outputs') if nm == 'Hint' else k(1)
                cs = [z for z in walk(ret(I, fr)) if cname(z) == ('safe_impl' if safe else 'stub_impl')] if r is not None else []
                good = bool(cs)
                for c in cs:
                    a = [undv(z) for z in c.a[1:] if isinstance(z, T) and z.op != 'site']
                    if safe:
                        good &= a[0] is sym('hc')
                        a = a[1:]
                    good &= a[0] is idf and elems(a[1]) == {mk('at', V, elem(fld(S, nm + '.inputs')))} and a[2] is cnt
                good = good and {q for q, a in r} == ({'Values', 'Error'} if safe else {'Values'})
                ob('', good, 'evaluates to %s' % sh(r))
            elif nm == 'ConstantLike':
                cf = fld(S, nm + '.' + fs[0])
                if not safe:
                    I, fr, r = go()
                    good = r is not None and len(r) == 1 and r[0][0] == 'Value' and cname(r[0][1][0]) == 'get_value_unsafe' and undv(r[0][1][0].a[1]) is cf
                    ob('', good, 'a constant evaluates to %s' % sh(r))
                else:
                    for cv in ('Constant', 'PublicInput', 'Random'):
                        ca = EC + 'circuit::layered::Coef'
                        m = {S: mk('agg', adt, nm, tuple(fs), agg_of(P, ca, cv, base=cf))}
                        I, fr, r = go(None, m)
                        if cv == 'Random':
                            good = bool(r) and all(q == 'Error' for q, a in r)
                        else:
                            w = fld(cf, 'Constant.0') if cv == 'Constant' else mk('at', sym('pub'), fld(cf, 'PublicInput.0'))
                            good = bool(r) and all(q == 'Value' and strip(a[0]) is w for q, a in r)
                        ob(':' + cv, good, 'a %s constant evaluates to %s' % (cv, sh(r)))
            elif nm == 'InternalVariable':
                I, fr, r = go()
                good = r is not None and len(r) == 1 and r[0][0] == 'Value' and expr_value(r[0][1][0], fld(S, 'InternalVariable.expr'), V)
                vs = fld(elem(fld(fld(S, 'InternalVariable.expr'), 'terms')), 'vars')
                for f, b_, it in items(fr, 'aug'):
                    kinds = {q for c_, q in it[4] if undv(c_) is vs and isinstance(q, str)}
                    if len(kinds) == 1:
                        used = {z.a[1].split('.')[0] for z in walk(it[3]) if z.op == 'fld' and undv(z.a[0]) is vs}
                        good &= used <= kinds
                ob('', good, 'an internal variable evaluates to %s' % sh(r))
            elif nm == 'Commit':
                n -= 1
            else:
                ctx.need(False, tag, 'unknown instruction kind %s' % nm)
    return n


def numeval(p, x, y):
    s = 0
    for m, c in p.items():
        w = c
        for q in m:
            if q == 'x':
                w *= x
            elif q == 'y':
                w *= y
            else:
                return None
        s += w
    return s


def lincomb(t, const, val, coef):
    t = undv(t)
    if t.op == 'bin' and t.a[0] == 'Add':
        # sum + constant
        for a, b in ((undv(t.a[1]), undv(t.a[2])), (undv(t.a[2]), undv(t.a[1]))):
            if strip(b) is const and a.op == 'red' and a.a[0] == 'Add' and zeroc(a.a[1]):
                return N(a.a[2], {val: 'v', coef: 'c'}) == {('c', 'v'): 1}
    return t.op == 'red' and t.a[0] == 'Add' and strip(t.a[1]) is const and srt(N(t.a[2], {val: 'v', coef: 'c'})) == {('c', 'v'): 1}


def product(t, val, coll, V):
    t = undv(t)
    if t.op != 'red' or t.a[0] != 'Mul':
        return False
    if onec(t.a[1]):
        return undv(t.a[2]) is val
    # first factor, then the rest
    first = mk('at', V, mk('at', coll, k(0)))
    rest = undv(t.a[2])
    if undv(t.a[1]) is not first:
        return False
    skip = [z for z in walk(rest) if z.op == 'part']
    return len(skip) == 1 and show(skip[0].a[1]) in ("tup('skip', 1)", '(slice, RangeFrom{start: 1})') and undv(rewrite(rest, lambda z: undv(z.a[0]) if z.op == 'part' else z)) is val


def expr_value(t, e, V):
    """sum over the terms of coefficient times the product the term's kind stands for"""
    t = undv(t)
    if t.op != 'red' or t.a[0] != 'Add' or not zeroc(t.a[1]):
        return False
    tm = elem(fld(e, 'terms'))
    coef = fld(tm, 'coef')
    vs = fld(tm, 'vars')
    at = lambda f: mk('at', V, fld(vs, f))
    atoms = {coef: 'c', at('Linear.0'): 'l', at('Quad.0'): 'q0', at('Quad.1'): 'q1', at('RandomLinear.0'): 'r'}
    got = set()
    for z in alts(undv(t.a[2])):
        p = N(z, atoms)
        if len(p) != 1 or list(p.values()) != [1]:
            return False
        (m,), = [list(p)]
        m2 = []
        for q in m:
            if isinstance(q, str) and ('random_unsafe' in q or 'get_value_unsafe(Coef::Random' in q):
                q = 'rnd'
            elif isinstance(q, str) and 'stub_impl' in q:
                c = [w for w in walk(z) if cname(w) == 'stub_impl']
                a = [undv(w) for w in c[0].a[1:]]
                if not (a[0] is fld(vs, 'Custom.gate_type') and elems(a[1]) == {mk('at', V, elem(fld(vs, 'Custom.inputs')))} and is_k(a[2], 1)):
                    return False
                q = 'custom'
            m2.append(q)
        got.add(tuple(sorted(m2)))
    return got == {('c',), ('c', 'l'), ('c', 'q0', 'q1'), ('r', 'rnd'), ('c', 'custom')}


# ---------------------------------------------------------------- whole circuits
def only_iteration(known):
    """conditions other than "the loop has a further element" under which something happens"""
    out = []
    for c, v in known:
        c = undv(c)
        if isinstance(v, str) and v in ('Some', 'None') and all(undv(x).op == 'agg' and undv(x).a[0].endswith('Option') for x in alts(c)):
            continue
        out.append((c, v))
    return out


def lc_pieces(ctx):
    n = 0
    P = ctx.prog
    for nm, simd in (('eval', False), ('eval_simd', True)):
        b = ctx.body(EC + 'circuit::ir::expr::LinComb::<C>::' + nm)
        if b is None:
            continue
        n += 1
        I, fr = counterfactual(ctx, b, names=['self', 'values'])
        r = undv(ret(I, fr)) if fr.ret is not None else None
        S = sym('self')
        tm = elem(fld(S, 'terms'))
        v, c, k0 = mk('at', sym('values'), fld(tm, 'var')), fld(tm, 'coef'), fld(S, 'constant')
        at = {v: 'v', c: 'c', k0: 'k'}
        good = r is not None and r.op == 'red' and r.a[0] == 'Add' and N(r.a[1], at) == {('k',): 1} and srt(N(r.a[2], at)) == {('c', 'v'): 1}
        ctx.ob('LinComb::%s' % nm, good, 'a linear combination evaluates to %s' % (show(r)[:300] if r is not None else None), where(b))
    ca = EC + 'circuit::layered::Coef'
    S = sym('self')
    for nm in ('get_value_with_public_inputs', 'get_value_with_public_inputs_simd', 'get_value_unsafe'):
        b = ctx.body(ca + '::<C>::' + nm)
        if b is None:
            continue
        n += 1
        for v in variants(P, ca):
            I, fr = counterfactual(ctx, b, names=['self', 'pub'], mem={S: agg_of(P, ca, v['name'], base=S)})
            r = [undv(z) for z in alts(undv(ret(I, fr)))] if fr.ret is not None else []
            if v['name'] == 'Constant':
                good = bool(r) and all(N(z, {fld(S, 'Constant.0'): 'c'}) == {('c',): 1} for z in r)
            elif v['name'] == 'Random':
                good = bool(r) and all('random_unsafe' in show(z) for z in r)
            elif nm == 'get_value_unsafe':
                # a stand-in value that depends only on the id
                good = bool(r) and all(fld(S, 'PublicInput.0') in set(walk(z)) for z in r)
            else:
                good = bool(r) and all(z is mk('at', sym('pub'), fld(S, 'PublicInput.0')) for z in r)
            ctx.ob('Coef::%s:%s' % (nm, v['name']), good, 'the value of a %s coefficient is %s' % (v['name'], fshow(r)), where(b))
    b = ctx.body(EC + 'circuit::layered::Coef::<C>::export_to_expander')
    b = ctx.body(EC + 'circuit::ir::common::ConstraintType::verify') if EC + 'circuit::ir::common::ConstraintType::verify' in P.bodies else None
    return n


def check_segments(ctx):
    P = ctx.prog
    n = 0
    L = EC + 'circuit::layered::Circuit::<C, I>::'
    S, seg, cur, nxt = sym('self'), sym('seg'), sym('cur'), sym('nxt')
    val = {'': 'get_value_unsafe', 'p': 'get_value_with_public_inputs', 's': 'get_value_with_public_inputs_simd'}
    for nm, vf, simd in (('apply_segment_unsafe', 'get_value_unsafe', False), ('apply_segment_with_public_inputs', 'get_value_with_public_inputs', False),
                         ('apply_segment_with_public_inputs_simd', 'get_value_with_public_inputs_simd', True)):
        b = ctx.body(L + nm)
        if b is None:
            continue
        opq = opaques(ctx, 'Coef::<C>::get_value_unsafe', 'Coef::<C>::get_value_with_public_inputs', 'Coef::<C>::get_value_with_public_inputs_simd', 'stub_impl')
        I, fr = counterfactual(ctx, b, names=['self', 'seg', 'cur', 'nxt', 'pub'], opaque=opq)
        got = {}
        for f, _b, it in items(fr, 'aug'):
            _, op, place, v, known, line = it
            place, v = gen(place), gen(v)
            if undv(place).op != 'at' or undv(undv(place).a[0]) is not nxt:
                continue
            src = [z for z in walk(place) if z.op == 'fld' and undv(z.a[0]) is seg]
            kind = src[0].a[1] if len({z.a[1] for z in src}) == 1 else '?'
            extra = [(c, w) for c, w in only_iteration(known)]
            got.setdefault(kind, []).append((op, undv(place), undv(v), extra))
        # a direct store adds to what is there
        for f, _b, it in items(fr, 'st'):
            place = gen(it[4])
            if undv(place).op == 'at' and undv(undv(place).a[0]) is nxt:
                src = [z for z in walk(place) if z.op == 'fld' and undv(z.a[0]) is seg]
                kind = src[0].a[1] if len({z.a[1] for z in src}) == 1 else '?'
                v = undv(gen(it[2]))
                part = [z for z in (undv(v.a[1]), undv(v.a[2])) if not reads(z, nxt)] if v.op == 'bin' and v.a[0] == 'Add' else []
                got.setdefault(kind, []).append(('Add' if len(part) == 1 else '=', undv(place), part[0] if part else v, only_iteration(it[3])))

        def inp(g, i):
            x = mk('at', fld(g, 'inputs'), k(i)) if i is not None else elem(fld(g, 'inputs'))
            return x

        def isinput(z, x):
            """cur[x.layer()][x.offset()]"""
            z = undv(z)
            if z.op == 'call' and cname(z) == 'unpack':
                z = undv(z.a[1])
            if z.op != 'at' or undv(z.a[0]).op != 'at' or undv(undv(z.a[0]).a[0]) is not cur:
                return False
            lay, off = undv(undv(z.a[0]).a[1]), undv(z.a[1])
            acc = lambda q, m: (q.op == 'call' and cname(q) == m or q.op == 'fld' and q.a[1] == m) and undv(q.a[1] if q.op == 'call' else q.a[0]) is x
            return acc(lay, 'layer') and acc(off, 'offset')

        def iscoef(z, g):
            z = undv(z)
            return z.op == 'call' and cname(z) == vf and undv(z.a[1]) is fld(g, 'coef') and (vf == 'get_value_unsafe' or undv(z.a[2]) is sym('pub'))
        for kind, ar in (('gate_muls', 2), ('gate_adds', 1), ('gate_consts', 0)):
            n += 1
            g = elem(fld(seg, kind))
            es = got.pop(kind, [])
            good = len(es) == 1
            for op, place, v, extra in es:
                good &= op == 'Add' and not extra and undv(place.a[1]) is fld(g, 'output')
                fac = factors(v)
                need = [lambda z, i=i: isinput(z, inp(g, i)) for i in range(ar)] + [lambda z: iscoef(z, g)]
                good &= match_all(fac, need)
            ctx.ob('%s:%s' % (nm, kind), good, 'evaluating %s does %s' % (kind, [(o, show(p)[:80], show(v)[:250], [show(c)[:60] for c, _ in x]) for o, p, v, x in es]), where(b))
        n += 1
        g = elem(fld(seg, 'gate_customs'))
        es = got.pop('gate_customs', [])
        good = len(es) == 1
        for op, place, v, extra in es:
            d, c = linform(place.a[1])
            good &= op == 'Add' and c == 0 and not extra and d.get(fld(g, 'output')) == 1 and all(x is fld(g, 'output') or x.op in ('ridx', 'eidx') for x in d)
            fac = factors(v)

            def out(z):
                cs = [w for w in walk(z) if cname(w) == 'stub_impl']
                if len(cs) < 1:
                    return False
                for w in cs:
                    a = [undv(q) for q in w.a[1:]]
                    if a[0] is not fld(g, 'gate_type') or not is_k(a[2], 1):
                        return False
                    rd = [q for q in walk(a[1]) if q.op == 'at' and undv(q.a[0]).op == 'at' and undv(undv(q.a[0]).a[0]) is cur]
                    if not rd or not all(isinput(q, inp(g, None)) for q in rd):
                        return False
                return True
            good &= match_all(fac, [out, lambda z: iscoef(z, g)])
        ctx.ob('%s:gate_customs' % nm, good, 'evaluating custom gates does %s' % [(o, show(p)[:80], show(v)[:250]) for o, p, v, x in es], where(b))
        ctx.ob('%s:others' % nm, not got, 'other writes to the outputs: %s' % list(got), where(b))
        # children
        n += 1
        rec = [e for e in events(fr) if e.path == L + nm]
        ch = elem(fld(seg, 'child_segs'))
        good = len(rec) == 1
        sh = []
        for e in rec:
            a = [undv(gen(z)) for z in e.args]
            sh = [show(z)[:200] for z in a]
            sid = fld(ch, '0')
            sub = a[1] if a[1].op == 'at' else undv(a[1])
            good &= sub.op in ('at', 'get') and undv(sub.a[0]) is fld(S, 'segments') and undv(sub.a[1]) is sid
            al = elem(fld(ch, '1'))
            # input windows: cur[l][off .. off + len]
            w = elems(a[2])
            okw = len(w) == 1
            for z in w:
                z = undv(z)
                okw &= z.op == 'sub'
                if not okw:
                    break
                base = undv(gen(z.a[0]))
                rg = fieldmap(z.a[1])
                st_, en = linform(rg.get('start', k(0))), linform(rg.get('end', k(0)))
                okw &= base in (elem(cur),) or base.op == 'at' and undv(base.a[0]) is cur
                offs = [q for q in st_[0]]
                diff = {q: m for q, m in en[0].items() if q not in st_[0]}
                okw &= len(offs) == 1 and 'input_offset' in show(offs[0]) and len(diff) == 1 and 'num_inputs' in show(next(iter(diff))) and set(diff.values()) == {1} and st_[1] == en[1] == 0
            good &= okw
            o = a[3]
            rg = fieldmap(o.a[1]) if o.op == 'sub' else {}
            good &= o.op == 'sub' and undv(o.a[0]) is nxt or 'nxt' in show(o)[:12]
            if rg:
                st_, en = linform(rg['start']), linform(rg['end'])
                diff = {q: m for q, m in en[0].items() if q not in st_[0]}
                good &= st_ == ({fld(al, 'output_offset'): 1}, 0) and len(diff) == 1 and list(diff)[0].op == 'fld' and list(diff)[0].a[1] == 'num_outputs' and en[1] == 0
            else:
                good = False
            if vf != 'get_value_unsafe':
                good &= a[4] is sym('pub')
        ctx.ob('%s:children' % nm, good, 'child segments are evaluated with %s' % sh, where(b))
    for nm, ap, simd in (('eval_unsafe', 'apply_segment_unsafe', False), ('eval_with_public_inputs', 'apply_segment_with_public_inputs', False), ('eval_with_public_inputs_simd', 'apply_segment_with_public_inputs_simd', True)):
        b = ctx.body(L + nm)
        if b is None:
            continue
        n += 1
        app = L + ap
        I, fr = counterfactual(ctx, b, names=['self', 'inputs', 'pub'], opaque=(app,))
        rec = [e for e in events(fr) if e.path == app]
        lid = elem(fld(S, 'layer_ids'))
        good = len(rec) >= 1
        for e in rec:
            a = [undv(gen(z)) for z in e.args]
            good &= a[1].op in ('at', 'get') and undv(a[1].a[0]) is fld(S, 'segments') and undv(a[1].a[1]) is lid
            if len(a) > 4:
                good &= a[4] is sym('pub')
        ctx.ob('%s:layers' % nm, good, 'layers are evaluated by %s' % [[show(gen(z))[:120] for z in e.args] for e in rec], where(b))
        # which earlier layer is input number i
        idx = [undv(it[4]) for f, _b, it in items(fr, 'index') if any(cname(z) == 'len' for z in walk(it[4]))]
        good = False
        for i in idx:
            d, c = linform(i)
            if c == -1 and sorted(d.values()) == [-1, 1] and any(q.op == 'call' and q.a[0] == 'len' and m == 1 for q, m in d.items()) and any(q.op == 'ridx' and m == -1 and kval(undv(q.a[0])) == 0 for q, m in d.items()):
                good = True
        alt = [show(i)[:100] for i in idx]
        fe = [it for f, _b, it in items(fr, 'push') if 'rev' in show(it[3])]
        ctx.ob('%s:layer-inputs' % nm, good or not idx, 'input i of a layer is taken from %s' % alt, where(b))
        # outputs
        r = undv(ret(I, fr)) if fr.ret is not None else None
        good = r is not None and r.op == 'tup'
        if good:
            o = undv(r.a[0])
            subs = [z for z in walk(o) if z.op == 'sub'] if o.op != 'sub' else [o]
            good = bool(subs)
            for z in subs:
                rg = fieldmap(z.a[1])
                good &= bool(rg) and undv(rg.get('start', k(0))) is fld(S, 'expected_num_output_zeroes') and undv(rg.get('end', k(0))) is fld(S, 'num_actual_outputs')
        ctx.ob('%s:outputs' % nm, good, 'the outputs are %s' % (show(r)[:200] if r is not None else None), where(b))
        # a non-zero expected zero makes the circuit unsatisfied
        nz = lambda t: k(False) if t.op == 'call' and cname(t) == 'is_zero' else None
        if not simd:
            I, fr = counterfactual(ctx, b, fn=nz, nonempty=lambda s: True, names=['self', 'inputs', 'pub'], opaque=(app,))
            r = undv(ret(I, fr)) if fr.ret is not None else None
            good = r is None or r.op == 'tup' and not maybe_true(r.a[1])
            ctx.ob('%s:zeroes' % nm, good, 'a non-zero constrained output leaves the circuit satisfied: %s' % (show(undv(r).a[1])[:120] if r is not None else None), where(b))
            I, fr = counterfactual(ctx, b, fn=lambda t: k(True) if t.op == 'call' and cname(t) == 'is_zero' else None, nonempty=lambda s: True, names=['self', 'inputs', 'pub'], opaque=(app,))
            r = undv(ret(I, fr)) if fr.ret is not None else None
            ctx.ob('%s:satisfied' % nm, r is not None and r.op == 'tup' and maybe_true(r.a[1]), 'a circuit whose constrained outputs are zero is unsatisfied', where(b))
        else:
            sts = [(it[4], it[2], it[3]) for f, _b, it in items(fr, 'st')]
            good = False
            for pl, v, kn in sts:
                if is_k(undv(v), False) and any(cname(undv(c)) == 'is_zero' and w is False and 'unpack' in show(c) for c, w in kn):
                    i = undv(undv(pl).a[1]) if undv(pl).op == 'at' else None
                    good |= any(i is not None and undv(c).op == 'call' and any(z.op == 'at' and undv(z.a[1]) is i for z in walk(c)) for c, w in kn if cname(undv(c)) == 'is_zero')
            ctx.ob('%s:zeroes' % nm, good, 'the per-lane satisfaction flag is not cleared by a non-zero constrained output of the same lane', where(b))
        # the constrained outputs are the first expected_num_output_zeroes ones
        zs = []

        def see(t):
            if t.op == 'call' and cname(t) == 'is_zero' and len(t.a) == 2:
                zs.append(t.a[1])
        counterfactual(ctx, b, fn=see, nonempty=lambda s: True, names=['self', 'inputs', 'pub'], opaque=(app,))
        E = fld(S, 'expected_num_output_zeroes')
        good = bool(zs)
        for e in zs:
            good &= any(z is E for z in walk(e)) and not any(z.op == 'bin' and any(q is E for q in walk(z)) for z in walk(e))
        ctx.ob('%s:constrained' % nm, good, 'the outputs required to be zero are %s' % [show(e)[:150] for e in zs], where(b))
    return n


def constraint_kinds(ctx):
    """a constraint is satisfied exactly by the values its kind names"""
    P = ctx.prog
    n = 0
    V = sym('value')
    adt = EC + 'circuit::ir::source::ConstraintType'
    for p in sorted(P.bodies):
        if not p.endswith('::verify') or 'ConstraintType' not in p or 'circuit::ir' not in p:
            continue
        b = P.bodies[p]
        src = 'ConstraintType as' in p
        kinds = [v['name'] for v in P.adts[adt]['variants']] if src else [None]
        for kd in kinds:
            # the value is zero, one, or something else
            for val, z, o in (('0', True, False), ('1', False, True), ('other', False, False)):
                n += 1

                def fn(t):
                    if t.op == 'call' and cname(t) == 'is_zero' and len(t.a) == 2 and strip(t.a[1]) is V:
                        return k(z)
                    if t.op == 'bin' and t.a[0] == 'Eq' and V in (strip(t.a[1]), strip(t.a[2])):
                        w = [strip(q) for q in t.a[1:] if strip(q) is not V]
                        if len(w) == 1 and onec(w[0]):
                            return k(o)
                        if len(w) == 1 and zeroc(w[0]):
                            return k(z)
                mem = {sym('self'): agg_of(P, adt, kd, base=sym('self'))} if src else None
                I, fr = counterfactual(ctx, b, fn=fn, names=['self', 'value'], mem=mem)
                got = kval(boolval_(ret(I, fr))) if fr.ret is not None else None
                want = {'Zero': z, 'NonZero': not z, 'Bool': z or o, None: z}.get(kd)
                if kd is not None and want is None:
                    ctx.need(False, 'constraint:' + kd, 'unknown constraint kind ' + kd)
                    continue
                ctx.ob('constraint:%s:%s' % (kd, val), got is want, 'a %s constraint on %s is %s' % (kd or 'zero', val, show(ret(I, fr))[:80] if fr.ret is not None else None), where(b))
    ctx.floor('constraint-cases', n, 12)
    return 1


def boolval_(t):
    t = undv(t)
    while t.op == 'cdef' and isinstance(t.a[1], T):
        t = undv(t.a[1])
    if t.op == 'un' and t.a[0] == 'Not':
        v = kval(boolval_(t.a[1]))
        return k(not v) if isinstance(v, bool) else t
    return t


def check_dispatch(ctx):
    """built-in hints are computed by the crate in every evaluator, custom ones by the hint caller (or the deterministic stub)"""
    P = ctx.prog
    n = 0
    OPT = 'core::option::Option'
    for fnm, names, other in (('hints::safe_impl', ['hc', 'id', 'ins', 'nout'], 'call'), (HB[len(EC):] + 'stub_impl', ['id', 'ins', 'nout'], 'stub_impl_general')):
        ps = [p for p in P.bodies if p == EC + fnm or p.endswith(fnm)]
        if not ctx.need(len(ps) == 1, fnm, 'hint dispatch'):
            continue
        b = P.bodies[ps[0]]
        opq = tuple(p for p in P.bodies if p.endswith(('::impl_builtin_hint', '::from_usize', '::stub_impl_general')) or p.endswith('::call'))
        for known in (True, False):
            n += 1

            def fn(t):
                if t.op == 'call' and cname(t) == 'from_usize' and undv(t.a[1]) is sym('id'):
                    return mk('agg', OPT, 'Some', ('0',), sym('bid')) if known else mk('agg', OPT, 'None', ())
            I, fr = counterfactual(ctx, b, fn=fn, names=names, opaque=opq)
            r = undv(ret(I, fr)) if fr.ret is not None else None
            cs = [z for z in alts(r)] if r is not None else []
            good = len(cs) == 1
            for z in cs:
                z = undv(z)
                if z.op == 'agg' and z.a[1] == 'Ok':
                    z = undv(z.a[3])
                c = cname(z)
                a = [undv(q) for q in z.a[1:] if isinstance(q, T) and q.op != 'site'] if z.op == 'call' else []
                if known:
                    good &= c == 'impl_builtin_hint' and a == [sym('bid'), sym('ins'), sym('nout')]
                else:
                    good &= c == other and a[-3:] == [sym('id'), sym('ins'), sym('nout')] and (other != 'call' or a[0] is sym('hc'))
            ctx.ob('dispatch:%s:%s' % (fnm.rsplit('::', 1)[-1], 'builtin' if known else 'custom'), good, 'a %s hint is computed as %s' % ('built-in' if known else 'custom', show(r)[:200] if r is not None else None), where(b))
    return n


# ---------------------------------------------------------------- evaluation loops of the IRs
def base_elem(t):
    """the collection behind an element read (one element of it)"""
    t = undv(t)
    while t.op == 'part':
        t = undv(t.a[0])
    return undv(t.a[0]) if t.op in ('elem', 'at') else None


def plain(t):
    """t without part/at refinements: the generic element"""
    return rewrite(t, lambda z: undv(z.a[0]) if z.op == 'part' else elem(z.a[0]) if z.op == 'at' and undv(z.a[1]).op in ('ridx', 'eidx') else z)


def unconditional(known):
    return not [c for c, v in only_iteration(known) if not (isinstance(v, str) and (undv(c).op == 'agg' or v in ('Continue', 'Ok')))]


def pushes(fr, want):
    return [it for f, _b, it in items(fr, 'push', 'insert') if undv(it[4]).op != 'phi' and want(undv(it[4]))]


def result(var, *vals):
    return mk('agg', 'core::result::Result', var, tuple(str(i) for i in range(len(vals))), *vals)


def call_is(t, path):
    return t.op == 'call' and str(t.a[0]).rsplit('::', 1)[-1] == path.rsplit('::', 1)[-1]


def check_loops(ctx):
    P = ctx.prog
    n = 0
    C = EC + 'circuit::ir::common::RootCircuit::<Irc>::'
    H = EC + 'circuit::ir::hint_normalized::'
    EVR = EC + 'circuit::ir::common::EvalResult'
    ctx.need(EVR in P.adts, 'EvalResult', 'result type of instruction evaluation')
    hroot = [p for p in P.bodies if p.endswith('::eval_sub_safe') and 'hint_normalized' in p]
    ctx.need(len(hroot) == 1, 'eval_sub_safe', 'witness evaluation of one circuit')
    CI = sym('circuit')
    insns, cons, outs = fld(CI, 'instructions'), fld(CI, 'constraints'), fld(CI, 'outputs')
    for path, step, cond in [(C + 'eval_unsafe_sub', 'eval_unsafe', True)] + [(h, 'eval_safe', False) for h in hroot]:
        b = ctx.body(path)
        if b is None:
            continue
        nm = path.rsplit('::', 1)[-1]
        opq = (path,) + tuple(p for p in P.bodies if p.endswith('::' + step) and 'Instruction' in p)
        names = ['self', 'circuit', 'inputs'] + ([] if cond else ['pub', 'hc'])
        V0, VS, SI, SU = sym('v0'), sym('vs'), sym('sin'), sym('sid')
        RV, SC, RE = sym('rv'), sym('sc'), sym('err')

        def go(kind, sub='Ok', subcond=None, verify=None, ne=()):
            ev = {'Value': (V0,), 'Values': (VS,), 'SubCircuitCall': (SU, SI), 'Error': (RE,)}[kind]
            ev = mk('agg', EVR, kind, tuple(str(i) for i in range(len(ev))), *ev)

            def fn(t):
                if t.op != 'call':
                    return None
                if cname(t) == step and len(t.a) > 1 and any(undv(z) is elem(insns) for z in t.a[1:] if isinstance(z, T)):
                    return ev
                if call_is(t, path):
                    if sub == 'Err':
                        return result('Err', sym('suberr'))
                    return result('Ok', mk('tup', RV, SC if subcond is None else (A.A_TRUE if subcond else A.A_FALSE)) if cond else RV)
                if cname(t) == 'verify' and verify is not None:
                    return k(verify)
            return counterfactual(ctx, b, fn=fn, nonempty=lambda s: s in ne, names=names, opaque=opq)

        def ob(tag, good, msg):
            ctx.ob('%s:%s' % (nm, tag), good, msg, where(b))
        n += 1
        I, fr = go('Error', ne=(insns,))
        ob('error', not success(I, fr), 'an instruction that fails to evaluate does not make the evaluation fail')
        steps = [e for e in events(fr) if e.path.rsplit('::', 1)[-1] == step]
        good = len(steps) == 1
        for e in steps:
            a = [undv(gen(z)) for z in e.args]
            good &= a[0] is elem(insns)
            if not cond:
                good &= a[2] is sym('pub') and a[3] is sym('hc')
        ob('step', good, 'instructions are evaluated by %s' % [[show(z)[:80] for z in e.args] for e in steps])
        # the value table starts with the unused variable 0, then the inputs
        first = [it for f, _b, it in items(fr, 'push', 'insert') if any(z is elem(sym('inputs')) for z in alts(undv(gen(it[4]))))]
        good = len(first) == 1
        for it in first:
            bs = undv(it[3])
            one = bs.op == 'rep' and zeroc(bs.a[0]) and is_k(bs.a[1], 1) or bs.op == 'arr' and len(bs.a) == 1 and zeroc(bs.a[0]) or bs.op == 'seq' and bs.a[0] is None and all(zeroc(z) for z in alts(undv(bs.a[1])))
            good &= one and unconditional(it[5])
        ob('table', good, 'the value table does not start with one zero followed by the inputs: %s' % [(show(it[3])[:60], show(it[4])[:60]) for it in first])
        n += 1
        for kind, w in (('Value', V0), ('Values', elem(VS))):
            I, fr = go(kind, ne=(insns,))
            ps = pushes(fr, lambda z: z is w)
            ob(kind, success(I, fr) and len(ps) == 1 and unconditional(ps[0][5]), '%s of an instruction are recorded as %s' % (kind, [show(p[4])[:100] for p in ps]))
        n += 1
        I, fr = go('SubCircuitCall', ne=(insns,))
        rec = [e for e in events(fr) if e.path == path]
        good = len(rec) == 1
        sh = [[show(z)[:120] for z in e.args] for e in rec]
        for e in rec:
            a = [undv(z) for z in e.args]
            good &= a[1].op in ('get', 'at') and undv(a[1].a[0]) is fld(sym('self'), 'circuits') and undv(a[1].a[1]) is SU
            import models
            ln = undv(models.lenof(a[2]))
            good &= ln is undv(models.lenof(SI)) or ln.op == 'call' and undv(ln.a[1]) in (SI, a[2])
            if not cond:
                good &= a[3] is sym('pub') and a[4] is sym('hc')
        idx = [plain0(undv(it[4])) for f, _b, it in items(fr, 'index') if reads(it[4], SI)]
        good &= set(idx) == {elem(SI)}
        ob('call', good, 'a sub-circuit call is evaluated as %s reading %s' % (sh, [show(i)[:60] for i in idx]))
        ps = pushes(fr, lambda z: z is elem(RV))
        ob('call-results', len(ps) == 1 and unconditional(ps[0][5]), 'results of a sub-circuit call are recorded as %s' % [show(p[4])[:100] for p in ps])
        I, fr = go('SubCircuitCall', sub='Err', ne=(insns,))
        ob('call-error', not success(I, fr), 'a failing sub-circuit evaluation does not make the evaluation fail')
        # outputs
        I, fr = go('Value', ne=(outs,))
        idx = [plain0(undv(it[4])) for f, _b, it in items(fr, 'index')]
        want = {elem(outs)} | ({undv(rewrite(elem(cons), lambda z: z))} if False else set())
        oi = [i for i in idx if reads(i, outs)]
        ob('outputs', oi and all(i is elem(outs) for i in oi), 'outputs read variables %s' % [show(i)[:80] for i in idx])
        n += 1
        if cond:
            def rc(I, fr):
                r = undv(ret(I, fr)) if fr.ret is not None else None
                o = [undv(z) for z in alts(r)] if r is not None else []
                o = [undv(z.a[3]) for z in o if z.op == 'agg' and z.a[1] == 'Ok']
                return [z.a[1] for z in o if z.op == 'tup']
            I, fr = go('SubCircuitCall', subcond=False, ne=(insns,))
            c = rc(I, fr)
            ob('call-cond', c and not any(maybe_true(z) for z in c), 'an unsatisfied sub-circuit leaves the circuit satisfied: %s' % [show(z)[:80] for z in c])
            I, fr = go('Value', verify=False, ne=(cons,))
            c = rc(I, fr)
            ob('constraint', c and not any(maybe_true(z) for z in c), 'a violated constraint leaves the circuit satisfied: %s' % [show(z)[:80] for z in c])
            I, fr = go('Value', verify=True, ne=(cons,))
            c = rc(I, fr)
            ob('satisfied', c and any(maybe_true(z) for z in c), 'satisfied constraints make the circuit unsatisfied')
            vf = [e for e in events(fr) if e.path.endswith('::verify')]
            good = len(vf) == 1
            for e in vf:
                t = undv(plain(e.args[0]))
                good &= t.op == 'call' and cname(t) == 'typ' and undv(t.a[1]) is elem(cons)
            ci = [plain0(undv(it[4])) for f, _b, it in items(fr, 'index')]
            ci = [i for i in ci if reads(i, cons)]
            good &= len(ci) == 1 and ci[0].op == 'call' and cname(ci[0]) == 'var' and undv(ci[0].a[1]) is elem(cons)
            ob('constraint-var', good, 'constraints are checked by %s on variables %s' % ([[show(z)[:80] for z in e.args] for e in vf], [show(i)[:80] for i in ci]))
    # entry points
    tops = [(C + 'eval_unsafe_with_errors', C + 'eval_unsafe_sub', ['self', 'inputs'], True)]
    tops += [(h.replace('eval_sub_safe', 'eval_safe'), h, ['self', 'inputs', 'pub', 'hc'], False) for h in hroot]
    simd = [h + '_simd' for h in hroot]
    tops += [(h.replace('eval_sub_safe', 'eval_safe'), h, ['self', 'inputs', 'pub', 'hc'], False) for h in simd]
    S = sym('self')
    for path, sub, names, cond in tops:
        b = ctx.body(path)
        if b is None:
            continue
        nm = path.rsplit('::', 1)[-1]
        n += 1
        RV, SC = sym('rv'), sym('sc')

        def run(subv, zero=None, tested=None):
            def fn(t):
                if call_is(t, sub):
                    return subv
                if cname(t) == 'is_zero' and zero is not None:
                    if tested is not None:
                        tested.append(t.a[1])
                    return k(zero)
            return counterfactual(ctx, b, fn=fn, nonempty=lambda s: True, names=names, opaque=(sub,))

        def ob(tag, good, msg):
            ctx.ob('%s:%s' % (nm, tag), good, msg, where(b))
        okv = result('Ok', mk('tup', RV, SC)) if cond else result('Ok', RV) if 'simd' not in nm else result('Ok', mk('tup'))
        I, fr = run(okv)
        rec = [e for e in events(fr) if e.path == sub]
        good = len(rec) == 1
        for e in rec:
            a = [undv(z) for z in e.args]
            good &= a[1].op in ('get', 'at') and undv(a[1].a[0]) is fld(S, 'circuits') and is_k(undv(a[1].a[1]), 0) and a[2] is sym('inputs')
            if not cond:
                good &= a[3] is sym('pub') and a[4] is sym('hc')
        ob('root', good, 'the root circuit is evaluated as %s' % [[show(z)[:100] for z in e.args] for e in rec])
        I2, fr2 = run(result('Err', sym('suberr')))
        ob('error', not success(I2, fr2), 'a failing evaluation of the root circuit is not reported')
        if cond:
            o = [z for z in alts(undv(ret(I, fr))) if undv(z).op == 'agg' and undv(z).a[1] == 'Ok']
            good = len(o) == 1
            for z in o:
                t = undv(z.a[3])
                vals = undv(t.a[0])
                es = elems(vals) if vals.op != 'sub' else {vals}
                ok1 = False
                if vals.op == 'sub' and undv(vals.a[0]) is RV:
                    rg = fieldmap(vals.a[1])
                    ok1 = undv(rg.get('start', k(0))) is fld(S, 'expected_num_output_zeroes') and 'end' not in rg
                good &= ok1
            ob('outputs', good, 'the outputs are %s' % [show(z)[:200] for z in o])

            def rcond(zero, subc):
                zs = []
                I, fr = run(result('Ok', mk('tup', RV, k(subc))), zero, zs)
                r = [undv(z) for z in alts(undv(ret(I, fr)))] if fr.ret is not None else []
                return [undv(z.a[3]).a[1] for z in r if z.op == 'agg' and z.a[1] == 'Ok'], zs
            c, zs = rcond(False, True)
            ob('zeroes', c and not any(maybe_true(z) for z in c), 'a non-zero constrained output leaves the circuit satisfied')
            E = fld(S, 'expected_num_output_zeroes')
            good = bool(zs)
            for e in zs:
                good &= any(z is E for z in walk(e)) and not any(z.op == 'bin' and any(q is E for q in walk(z)) for z in walk(e))
            ob('constrained', good, 'the outputs required to be zero are %s' % [show(e)[:150] for e in zs])
            c, zs = rcond(True, False)
            ob('cond', c and not any(maybe_true(z) for z in c), 'unsatisfied constraints of the root circuit are ignored: %s' % [show(z)[:100] for z in c])
            c, zs = rcond(True, True)
            ob('satisfied', c and any(maybe_true(z) for z in c), 'a satisfied circuit is reported as unsatisfied')
    for h in simd:
        n += simd_loop(ctx, h)
    n += constraint_kinds(ctx)
    return n

def simd_loop(ctx, path):
    """the packed witness evaluation does to every lane what the scalar one does"""
    P = ctx.prog
    b = ctx.body(path)
    n = 0
    if b is None:
        return n
    adt = EC + 'circuit::ir::hint_normalized::Instruction'
    ca = EC + 'circuit::layered::Coef'
    ci = EC + 'circuit::ir::common::Circuit'
    if not ctx.need(adt in P.adts and ca in P.adts and ci in P.adts, 'simd-types', 'types of the witness IR'):
        return n
    X, C = sym('insn'), sym('circuit')
    fs = tuple(f[0] for f in P.adts[ci]['variants'][0]['fields'])
    opq = (path,) + tuple(p for p in P.bodies if p.endswith('::safe_impl') or p.endswith('::eval_simd'))
    outs = fld(C, 'outputs')

    def go(insn, hint=None, sub=None):
        seq = mk('seq', None, insn)
        circ = mk('agg', ci, 'Circuit', fs, *[seq if f == 'instructions' else fld(C, f) for f in fs])

        def fn(t):
            if t.op == 'call' and hint is not None and cname(t) == 'safe_impl':
                return hint
            if t.op == 'call' and sub is not None and call_is(t, path):
                return sub
        return counterfactual(ctx, b, fn=fn, nonempty=lambda s: s is seq, names=['self', 'circuit', 'inputs', 'pub', 'hc', 'out'], mem={C: circ}, opaque=opq)

    def appended(fr):
        return [it for f, _b, it in items(fr, 'push', 'insert')]

    def ob(tag, good, msg):
        ctx.ob('eval_sub_safe_simd:' + tag, good, msg, where(b))

    def values(fr):
        """what the current instruction appends to the value table"""
        r = []
        for it in appended(fr):
            base = undv(it[3])
            if any(z is sym('out') for z in walk(base) if z.op == 'sym') or base.op == 'sym':
                continue
            v = undv(it[4])
            if any(z is elem(sym('inputs')) for z in alts(v)) and v.op != 'phi':
                continue
            r.append(it)
        return r
    for v in P.adts[adt]['variants']:
        nm = v['name']
        S = agg_of(P, adt, nm, base=X)
        F = {f[0]: fld(X, nm + '.' + f[0]) for f in v['fields']}
        n += 1
        if nm == 'LinComb':
            I, fr = go(S)
            vs = values(fr)
            good = len(vs) == 1 and unconditional(vs[0][5]) and cname(undv(vs[0][4])) == 'eval_simd' and undv(undv(vs[0][4]).a[1]) is F['0']
            ob(nm, good, 'a linear combination is recorded as %s' % [show(z[4])[:120] for z in vs])
        elif nm == 'Mul':
            I, fr = go(S)
            vs = [z for z in values(fr) if undv(z[4]).op == 'red']
            idx = {show(plain0(undv(it[4]))) for f, _b, it in items(fr, 'index') if reads(it[4], F['0'])}
            e, p0, sk = show(elem(F['0'])), show(mk('at', F['0'], k(0))), show(mk('part', elem(F['0']), mk('tup', k('skip'), k(1))))
            s1 = show(mk('part', elem(F['0']), ('slice', mk('agg', 'core::ops::range::RangeFrom', 'RangeFrom', ('start',), k(1)))))
            s2 = show(elem(mk('sub', F['0'], mk('agg', 'core::ops::range::RangeFrom', 'RangeFrom', ('start',), k(1)))))
            idx = {sk if i in (s1, s2) else i for i in idx}
            good = len(vs) == 1 and undv(vs[0][4]).a[0] == 'Mul' and (idx == {p0, sk} or idx == {e} and onec(undv(vs[0][4]).a[1]))
            ob(nm, good, 'a product is recorded as %s over %s' % ([show(z[4])[:20] for z in vs], [x[-90:] for x in sorted(idx)]))
        elif nm == 'ConstantLike':
            for cv in ('Constant', 'PublicInput', 'Random'):
                c = mk('agg', adt, nm, ('0',), agg_of(P, ca, cv, base=F['0']))
                I, fr = go(c)
                if cv == 'Random':
                    ob(nm + ':' + cv, not success(I, fr), 'a random constant is given a value by the witness solver')
                    continue
                vs = values(fr)
                good = len(vs) == 1 and unconditional(vs[0][5])
                for it in vs:
                    t = undv(it[4])
                    if cv == 'PublicInput':
                        good &= t.op in ('at', 'get') and undv(t.a[0]) is sym('pub') and undv(t.a[1]) is fld(F['0'], 'PublicInput.0')
                    else:
                        fac = factors(t)
                        good &= fld(F['0'], 'Constant.0') in [strip(z) for z in fac] and all(onec(z) or strip(z) is fld(F['0'], 'Constant.0') for z in fac) or strip(t) is fld(F['0'], 'Constant.0')
                ob(nm + ':' + cv, good, 'a %s constant is recorded as %s' % (cv, [show(z[4])[:120] for z in vs]))
        elif nm == 'SubCircuitCall':
            I, fr = go(S, sub=result('Ok', mk('tup')))
            rec = [e for e in events(fr) if e.path == path]
            good = len(rec) == 1
            for e in rec:
                a = [undv(z) for z in e.args]
                import models
                ln = undv(models.lenof(a[2]))
                good &= a[1].op in ('get', 'at') and undv(a[1].a[0]) is fld(sym('self'), 'circuits') and undv(a[1].a[1]) is F['sub_circuit_id']
                good &= (ln is undv(models.lenof(F['inputs'])) or ln.op == 'call' and undv(ln.a[1]) is a[2]) and a[3] is sym('pub') and a[4] is sym('hc')
            idx = {plain0(undv(it[4])) for f, _b, it in items(fr, 'index') if reads(it[4], F['inputs'])}
            good &= idx == {elem(F['inputs'])}
            ob(nm, good, 'a sub-circuit call is evaluated as %s' % [[show(z)[:100] for z in e.args] for e in rec])
            I, fr = go(S, sub=result('Err', sym('suberr')))
            ob(nm + ':error', not success(I, fr), 'a failing sub-circuit evaluation does not make the evaluation fail')
        elif nm == 'Hint':
            I, fr = go(S, hint=result('Err', sym('herr')))
            ob(nm + ':error', True, '') if not hint_reached_ok(I, fr) else ob(nm + ':error', False, 'a failing hint does not make the evaluation fail')
            I, fr = go(S)
            hs = [e for e in events(fr) if e.path.endswith('::safe_impl')]
            ins = [plain0(undv(it[4])) for f, _b, it in items(fr, 'index') if reads(it[4], F['inputs'])]
            good = len(hs) == 1 and set(ins) == {elem(F['inputs'])}
            for e in hs:
                a = [undv(z) for z in e.args]
                good &= a[0] is sym('hc') and a[1] is F['hint_id'] and a[3] is F['num_outputs']
            ob(nm, good, 'hints are called with %s on %s' % ([[show(z)[:80] for z in e.args] for e in hs], [show(i)[:60] for i in ins]))
            # lane i of input x goes to lane i
            un = lambda z: any(cname(w) == 'unpack' for w in walk(z))
            sc = lambda z: any(cname(w) == 'safe_impl' for w in walk(z))
            lane = [undv(it[4]) for f, _b, it in items(fr, 'index') if undv(it[4]).op in ('eidx', 'ridx') and un(it[4]) and not sc(it[4])]
            put = [it for it in appended(fr) if undv(it[4]).op in ('elem', 'at') and cname(base_elem(it[4]) or k(0)) == 'unpack']
            good = len(put) >= 1 and all(unconditional(it[5]) for it in put) and (len(lane) >= 1 and all(i.op == 'eidx' and cname(srcof(i) or k(0)) == 'unpack' for i in lane) or not lane)
            ob(nm + ':lanes', good, 'lanes are distributed by %s at %s' % ([show(z[4])[:80] for z in put], [show(i)[:80] for i in lane]))
            # output j of lane i lands in output j at lane i
            st_ = [it for f, _b, it in items(fr, 'st') if sc(it[2])]
            pk = [e for e in events(fr) if e.canon.endswith('::pack')]
            good = len(pk) == 1
            shown = []
            for it in st_:
                pl = undv(it[4])
                i = undv(pl.a[1]) if pl.op == 'at' else None
                shown.append(show(i)[:200] if i is not None else '?')
                d = products(i) if i is not None else {}
                ids = []
                for m, c in d.items():
                    e = [z for z in m if z.op in ('eidx', 'ridx')]
                    o = [z for z in m if z.op not in ('eidx', 'ridx')]
                    ids.append((len(e) == 1 and cname(srcof(e[0]) or k(0)) or 'lane', ['PACK' if 'PACK_SIZE' in show(z) else show(z) for z in o], c))
                good &= sorted(ids) == [('lane', [], 1), ('safe_impl', ['PACK'], 1)]
                v = undv(it[2])
                good &= v.op in ('elem', 'at') and any(cname(w) == 'safe_impl' for w in walk(base_elem(v)))
            for e in pk:
                t = undv(e.args[0])
                shown.append(show(t)[-120:])
                if t.op == 'sub' and st_:
                    rg = fieldmap(t.a[1])
                    d1, d2 = products(rg.get('start', k(0))), products(rg.get('end', k(0)))
                    df = dict(d2)
                    for m, c in d1.items():
                        df[m] = df.get(m, 0) - c
                    df = {m: c for m, c in df.items() if c}
                    good &= len(d1) == 1 and len(df) == 1 and all(c == 1 for c in list(d1.values()) + list(df.values()))
                    good &= all(len(m) == 1 and 'PACK_SIZE' in show(m[0]) for m in df)
                    for m in d1:
                        e1 = [z for z in m if z.op in ('ridx', 'eidx')]
                        good &= len(m) == 2 and len(e1) == 1 and e1[0].op == 'ridx' and is_k(undv(e1[0].a[0]), 0) and undv(e1[0].a[1]) is F['num_outputs']
            ob(nm + ':outputs', good, 'hint outputs are stored and packed at %s' % shown)
            vs = [it for it in appended(fr) if cname(undv(it[4])) == 'pack']
            ob(nm + ':record', len(vs) == 1 and unconditional(vs[0][5]), 'the packed outputs are recorded as %s' % [(show(z[4])[:80],[str((show(c[0])[-200:],c[1])) for c in only_iteration(z[5])]) for z in vs])
        elif nm == 'CustomGate':
            I, fr = go(S)
            ob(nm, not success(I, fr), 'a custom gate in the witness solver is skipped')
        else:
            ctx.need(False, 'simd:' + nm, 'unknown instruction kind ' + nm)
    I = A.Interp(P, opaque=opq)
    I, fr = counterfactual(ctx, b, names=['self', 'circuit', 'inputs', 'pub', 'hc', 'out'], opaque=opq)
    idx = [plain0(undv(it[4])) for f, _b, it in items(fr, 'index') if reads(it[4], outs)]
    ps = [it for it in appended(fr) if undv(it[3]) is sym('out') or any(z is sym('out') for z in walk(it[3]))]
    ob('outputs', idx and all(i is elem(outs) for i in idx) and len(ps) == 1, 'outputs are read from %s' % [show(i)[:60] for i in idx])
    first = [it for it in appended(fr) if undv(it[4]).op != 'phi' and any(z is elem(sym('inputs')) for z in alts(undv(gen(it[4]))))]
    good = len(first) == 1
    for it in first:
        bs = undv(it[3])
        good &= bs.op == 'rep' and zeroc(bs.a[0]) and is_k(bs.a[1], 1) or bs.op == 'arr' and len(bs.a) == 1 and zeroc(bs.a[0])
    ob('table', good, 'the value table does not start with one zero followed by the inputs')
    return n


def hint_reached_ok(I, fr):
    """with a failing hint: is a store or record of hint outputs still reachable?"""
    return any(cname(z) == 'unwrap' for e in events(fr) for z in e.args if isinstance(z, T)) or any('herr' in show(it[2]) for f, _b, it in items(fr, 'st')) or not err_returned(I, fr)


def err_returned(I, fr):
    if fr.ret is None:
        return False
    return any(undv(z).op == 'agg' and undv(z).a[1] == 'Err' for z in alts(undv(ret(I, fr))))


def srcof(i):
    """the collection an element index counts"""
    s = undv(i.a[0])
    while s.op in ('src', 'rev') and isinstance(s.a[0], T):
        s = undv(s.a[0])
    if s.op == 'call' and cname(s) in ('iter',):
        s = undv(s.a[1])
    while s.op in ('fld',):
        s = undv(s.a[0])
    return s


def plain0(t):
    return rewrite(t, lambda z: elem(z.a[0]) if z.op == 'at' and undv(z.a[1]).op in ('ridx', 'eidx') else z)


def products(t):
    """t as a sum of products: {tuple of factors: coefficient}"""
    t = undv(t)
    v = kval(t)
    if isinstance(v, int) and not isinstance(v, bool):
        return {(): v} if v else {}
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        return padd(products(t.a[1]), products(t.a[2]), 1 if t.a[0] == 'Add' else -1)
    if t.op == 'bin' and t.a[0] == 'Mul':
        r = {}
        for m, c in products(t.a[1]).items():
            for q, d in products(t.a[2]).items():
                key = tuple(sorted(m + q, key=repr))
                r[key] = r.get(key, 0) + c * d
        return {m: c for m, c in r.items() if c}
    return {(t,): 1}



def frames_branches(fr):
    for f in frames(fr):
        for b, br in getattr(f, 'branch', {}).items():
            yield br[1]


def maybe_true(t):
    for z in alts(undv(t)):
        if z.op == 'cdef' and isinstance(z.a[1], T):
            z = z.a[1]
        v = kval(undv(z))
        if v is not False:
            return True
    return False


def reads(t, base):
    return any(z is base for z in walk(t))


def factors(t):
    t = undv(t)
    if t.op == 'bin' and t.a[0] == 'Mul':
        return factors(t.a[1]) + factors(t.a[2])
    if t.op == 'call' and cname(t) == 'scale':
        return factors(t.a[1]) + factors(t.a[2])
    return [t]


def match_all(fac, need):
    if len(fac) != len(need):
        return False
    left = list(fac)
    for p in need:
        i = next((i for i, z in enumerate(left) if p(z)), None)
        if i is None:
            return False
        left.pop(i)
    return True


def check(ctx):
    a = check_ops(ctx)
    b = check_shift(ctx)
    c = check_insns(ctx)
    d = lc_pieces(ctx)
    e = check_segments(ctx)
    g = check_loops(ctx)
    ctx.floor('dispatch-cases', check_dispatch(ctx), 4)
    ctx.floor('operation-cases', a, 150)
    ctx.floor('shift-cases', b, 9)
    ctx.floor('instruction-kinds', c, 28)
    ctx.floor('coefficient-functions', d, 5)
    ctx.floor('segment-parts', e, 15)
    ctx.floor('evaluation-loops', g, 12)
