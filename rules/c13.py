"""Every frontend API method appends exactly the instruction or constraint its name says, over the operands it was given in that
order, and returns the variable that instruction defines; constants are folded with the same operation and constants that violate an
assertion abort; the debug builder computes the same operation on the recorded values; the root builder forwards to the current builder.
Each method is abstractly interpreted for non-constant operands, for constant operands (split by zero/equal) and for the
invalid variable 0."""
from rules.assume import *

RULE = 'value provenance of the pushed instruction / folded constant / pushed value against the method table'
FB = EC + 'frontend::'
VARADT = FB + 'builder::Variable'
SRC = EC + 'circuit::ir::source::'
UN = {'div': 'Div', 'pow': 'Pow', 'int_div': 'IntDiv', 'mod': 'Mod', 'shift_l': 'ShiftL', 'shift_r': 'ShiftR', 'lesser_eq': 'LesserEq',
      'greater_eq': 'GreaterEq', 'lesser': 'Lesser', 'greater': 'Greater', 'eq': 'Eq', 'not_eq': 'NotEq', 'bool_or': 'BoolOr',
      'bool_and': 'BoolAnd', 'bit_or': 'BitOr', 'bit_and': 'BitAnd', 'bit_xor': 'BitXor'}
BIN = ('add', 'sub', 'mul', 'xor', 'or', 'and', 'div')
UNA = ('neg', 'is_zero', 'to_binary')
ASSERT = {'assert_is_zero': 'Zero', 'assert_is_non_zero': 'NonZero', 'assert_is_bool': 'Bool'}


def bpath(ty, trait, m):
    g = {'Builder': 'builder::Builder<C>', 'RootBuilder': 'builder::RootBuilder<C>', 'DebugBuilder': 'debug::DebugBuilder<C, H>'}[ty]
    return EC + '<frontend::%s as frontend::api::%s<C>>::%s' % (g, trait, m)


def trait_of(m):
    return 'UnconstrainedAPI' if m.startswith('unconstrained') else 'BasicAPI'


def var(n):
    return mk('agg', VARADT, 'Variable', ('id',), n if isinstance(n, T) else sym(n))


X, Y = sym('x'), sym('y')


def konst_assume(xc, yc, extra=None):
    """xc/yc: is the operand a compile-time constant"""
    def f(t):
        if t.op == 'bin' and t.a[0] == 'Eq':
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                b = undv(b)
                if is_k(undv(a), 0) and b.op == 'at' and undv(b.a[0]).op == 'fld' and undv(b.a[0]).a[1] == 'var_const_id':
                    i = undv(b.a[1])
                    if i is X:
                        return k(not xc)
                    if i is Y:
                        return k(not yc)
                if is_k(undv(a), 0) and b in (X, Y):
                    return k(False)     # a valid variable
        if t.op == 'call' and str(t.a[0]).endswith('convert_to_variable_or_value') and len(t.a) == 2 and undv(t.a[1]) not in (X, Y):
            # an expression of the field is a value
            return mk('agg', FB + 'builder::VariableOrValue', 'Value', ('0',), t.a[1])
        if extra is not None:
            return extra(t)
    return f


def selfmem(I, fr):
    st = getattr(fr, 'exit_state', None)
    if st is None:
        return None
    for r, v in st.v.items():
        if isinstance(r, tuple) and r and r[0] == 'M' and undv(r[1]) is sym('self'):
            return I.snap(st, v)
    return sym('self')


def field_of(t, f):
    t = undv(t)
    for x in alts(t):
        x = undv(x)
        if x.op == 'upd':
            for n, v in x.a[1]:
                if n == f:
                    return v
        if x.op == 'agg' and f in x.a[2]:
            return x.a[3 + list(x.a[2]).index(f)]
    return None


def val_of_conv(t):
    """convert_to_variable_or_value(E).Value.0 -> E for E that is not a variable"""
    def f(x):
        if x.op == 'fld' and x.a[1] in ('Value.0',):
            c = undv(x.a[0])
            if c.op == 'call' and str(c.a[0]).endswith('convert_to_variable_or_value'):
                return c.a[1]
        return x
    return rewrite(t, f)


def appended(I, fr, f, base=None):
    """elements appended to self.f, as a set of terms; None if the collection is not an extension of the original"""
    t = selfmem(I, fr)
    if t is None:
        return None
    v = field_of(t, f)
    if v is None:
        return set()
    v = undv(v)
    out = set()
    base = base or fld(sym('self'), f)
    for x in alts(v):
        x = undv(x)
        if x is base:
            continue
        if x.op == 'seq' and x.a[0] is not None and undv(x.a[0]) is base:
            out |= {undv(y) for y in alts(undv(x.a[1]))}
        elif x.op == 'arr' or x.op == 'seq':
            return None
        else:
            return None
    return out


# ---- polynomial normal form over field terms
def poly(t, atoms=None):
    t = undv(t)
    v = kval(t)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return {(): v} if v else {}
    if t.op == 'call':
        n = str(t.a[0])
        if n.endswith('Field::one') or n.endswith('::one'):
            return {(): 1}
        if n.endswith('::zero'):
            return {}
        if n.endswith('::double') and len(t.a) == 2:
            return padd(poly(t.a[1]), poly(t.a[1]))
        if n.endswith('::square') and len(t.a) == 2:
            return pmul(poly(t.a[1]), poly(t.a[1]))
        if n.endswith('Field::from') or n.endswith('From::from') or n.endswith('::into'):
            return poly(t.a[1])
    if t.op == 'cdef':
        return poly(t.a[-1]) if isinstance(t.a[-1], T) else {((t,),): 1}
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub', 'Mul'):
        a, b = poly(t.a[1]), poly(t.a[2])
        if t.a[0] == 'Mul':
            return pmul(a, b)
        return padd(a, b, -1 if t.a[0] == 'Sub' else 1)
    if t.op == 'un' and t.a[0] == 'Neg':
        return padd({}, poly(t.a[1]), -1)
    return {(show(t),): 1}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = tuple(sorted(m + n))
            r[q] = r.get(q, 0) + c * d
    return {m: c for m, c in r.items() if c}


def insn_form(t):
    """normal form of a source instruction term"""
    t = undv(t)
    if t.op != 'agg' or not t.a[0].endswith('source::Instruction'):
        return ('?', show(t)[:200])
    v = t.a[1]
    fs = dict(zip(t.a[2], t.a[3:]))
    if v == 'LinComb':
        lc = undv(fs['0'])
        if lc.op != 'agg':
            return ('?', show(t)[:200])
        lf = dict(zip(lc.a[2], lc.a[3:]))
        ts = undv(lf['terms'])
        p = poly(lf['constant'])
        if ts.op != 'arr':
            return ('?', show(t)[:200])
        for e in ts.a:
            e = undv(e)
            if e.op != 'agg':
                return ('?', show(t)[:200])
            ef = dict(zip(e.a[2], e.a[3:]))
            p = padd(p, pmul(poly(ef['coef']), {(show(undv(ef['var'])),): 1}))
        return ('Poly', frozenset(p.items()))
    if v == 'Mul':
        fac = undv(fs['0'])
        if fac.op != 'arr':
            return ('?', show(t)[:200])
        p = {(): 1}
        for e in fac.a:
            p = pmul(p, {(show(undv(e)),): 1})
        return ('Poly', frozenset(p.items()))
    if v == 'BoolBinOp':
        return (v, variant(fs['op']), frozenset((show(undv(fs['x'])), show(undv(fs['y'])))))
    if v == 'UnconstrainedBinOp':
        op = variant(fs['op'])
        xs = (show(undv(fs['x'])), show(undv(fs['y'])))
        if op in ('Eq', 'NotEq', 'BoolOr', 'BoolAnd', 'BitOr', 'BitAnd', 'BitXor'):
            xs = tuple(sorted(xs))
        # a < b is b > a
        flip = {'Greater': 'Lesser', 'GreaterEq': 'LesserEq'}
        if op in flip:
            op, xs = flip[op], (xs[1], xs[0])
        return (v, op, xs)
    return (v,) + tuple((n, show(undv(val_of_conv(x)))) for n, x in fs.items())


def variant(t):
    t = undv(t)
    return t.a[1] if t.op == 'agg' else show(t)


def expected_insn(m):
    P = lambda *ms: ('Poly', frozenset(ms))
    return {
        'add': P((('x',), 1), (('y',), 1)), 'sub': P((('x',), 1), (('y',), -1)), 'neg': P((('x',), -1)), 'mul': P((('x', 'y'), 1)),
        'div': ('Div', ('x', 'x'), ('y', 'y'), ('checked', 'a3')),
        'xor': ('BoolBinOp', 'Xor', frozenset('xy')), 'or': ('BoolBinOp', 'Or', frozenset('xy')), 'and': ('BoolBinOp', 'And', frozenset('xy')),
        'is_zero': ('IsZero', ('0', 'x')), 'to_binary': ('ToBinary', ('x', 'x'), ('num_bits', 'nb')),
        'get_random_value': ('ConstantLike', ('0', 'Coef::Random{}')),
    }[m]


def returns_new(I, fr, many=False):
    """the returned variable is the one created by the method (id = number of variables before + ...)"""
    if fr.ret is None:
        return False
    r = undv(ret(I, fr))
    s = show(val_of_conv(r))
    return 'len(' in s and 'var_const_id' in s


def cx(n):
    v = sym(n)
    return mk('at', fld(sym('self'), 'const_values'), mk('at', fld(sym('self'), 'var_const_id'), v))


def consts_pushed(I, fr):
    a = appended(I, fr, 'instructions')
    if a is None:
        return None
    out = set()
    for t in a:
        t = undv(t)
        if t.op == 'agg' and t.a[1] == 'ConstantLike':
            c = undv(t.a[3])
            if c.op == 'agg' and c.a[1] == 'Constant':
                for z in alts(undv(val_of_conv(c.a[3]))):
                    out.add(undv(z))
                continue
        out.add(t)
    return out


def fshow(s):
    return '{' + ', '.join(sorted(show(x)[:120] if isinstance(x, T) else str(x)[:160] for x in s)) + '}'


class R:
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def go(self, body, x=True, y=True, extra=None, args=None, opaque=(), fn=None, xc=False, yc=False, mem=None):
        a = {1: var('x'), 2: var('y')} if args is None else args
        return counterfactual(self.ctx, body, fn=fn or konst_assume(xc, yc, extra), nonempty=lambda s: False, names=['self'], args=a, opaque=opaque, mem=mem)


def where(b):
    return '%s:%s' % (b.file, b.line)


def check_builder(ctx):
    r = R(ctx)
    n = 0
    gt = bpath('Builder', 'BasicAPI', 'gt')

    def ob(key, good, msg, b):
        ctx.ob('Builder:' + key, good, msg, where(b))
    # A. non-constant operands
    for m in BIN + UNA + ('get_random_value',):
        b = ctx.body(bpath('Builder', 'BasicAPI', m))
        if b is None:
            continue
        n += 1
        args = {1: var('x'), 2: var('y')}
        if m == 'to_binary':
            args[2] = sym('nb')
        if m == 'get_random_value':
            args = {}
        I, fr = r.go(b, args=args)
        got = appended(I, fr, 'instructions')
        forms = {insn_form(t) for t in got} if got is not None else {('?', 'the instruction list is replaced')}
        ob('%s:instruction' % m, forms == {expected_insn(m)}, '%s of variables x, y appends %s' % (m, fshow(forms)), b)
        ob('%s:constraints' % m, appended(I, fr, 'constraints') == set(), '%s adds constraints' % m, b)
        ob('%s:result' % m, returns_new(I, fr), '%s does not return the variable it defines: %s' % (m, show(ret(I, fr))[:200] if fr.ret is not None else 'diverges'), b)
    for m, tag in ASSERT.items():
        b = ctx.body(bpath('Builder', 'BasicAPI', m))
        if b is None:
            continue
        n += 1
        for c in (False, True):
            I, fr = r.go(b, xc=c)
            got = appended(I, fr, 'constraints')
            forms = {(t.a[1], variant(dict(zip(t.a[2], t.a[3:]))['typ']), show(undv(dict(zip(t.a[2], t.a[3:]))['var']))) if t.op == 'agg' and 'var' in t.a[2] else ('?', show(t)[:100]) for t in got} if got is not None else {('?',)}
            if c:
                # a satisfied constant may be left unconstrained
                ob('%s:const-constraint' % m, forms <= {('Constraint', tag, 'x')}, '%s of a constant adds %s' % (m, forms), b)
            else:
                ob('%s:constraint' % m, forms == {('Constraint', tag, 'x')}, '%s of x adds %s' % (m, forms), b)
                ob('%s:instructions' % m, appended(I, fr, 'instructions') == set(), '%s adds instructions' % m, b)
    # constants violating an assertion abort
    def zero_is(v, one=None):
        def f(t):
            if t.op == 'call' and str(t.a[0]).endswith('is_zero') and undv(t.a[1]) is cx('x'):
                return k(v)
            if t.op == 'bin' and t.a[0] == 'Eq':
                for a, bb in ((undv(t.a[1]), undv(t.a[2])), (undv(t.a[2]), undv(t.a[1]))):
                    if a is cx('x'):
                        if poly(bb) == {}:
                            return k(v)
                        if one is not None and poly(bb) == {(): 1}:
                            return k(one)
        return f
    for m, f in (('assert_is_zero', zero_is(False)), ('assert_is_non_zero', zero_is(True)), ('assert_is_bool', zero_is(False, False))):
        b = ctx.body(bpath('Builder', 'BasicAPI', m))
        if b is None:
            continue
        I, fr = r.go(b, xc=True, extra=f)
        ob('%s:const-violated' % m, fr.ret is None, '%s accepts a constant that violates it' % m, b)
    for m, f in (('assert_is_zero', zero_is(True)), ('assert_is_non_zero', zero_is(False)), ('assert_is_bool', zero_is(False, True)), ('assert_is_bool', zero_is(True, False))):
        b = ctx.body(bpath('Builder', 'BasicAPI', m))
        if b is not None:
            I, fr = r.go(b, xc=True, extra=f)
            ob('%s:const-satisfied' % m, fr.ret is not None, '%s rejects a constant that satisfies it' % m, b)
    # the constant table: index recorded for a constant is the position its value is stored at
    b = ctx.body(bpath('Builder', 'BasicAPI', 'constant'))
    if b is not None:
        n += 1
        E = sym('value')
        I, fr = counterfactual(ctx, b, fn=konst_assume(False, False), nonempty=lambda s: False, names=['self'], args={1: E})
        vals = appended(I, fr, 'const_values') or set()
        ids = appended(I, fr, 'var_const_id') or set()
        ins = consts_pushed(I, fr) or set()
        ob('constant:value', {undv(val_of_conv(v)) for v in vals} == {E} and ins == {E}, 'constant(v) stores %s and emits %s' % (fshow(vals), fshow(ins)), b)
        good = bool(ids)
        for t in ids:
            d, c = linform(t)
            good &= len(d) == 1 and next(iter(d)).op == 'call' and next(iter(d)).a[0] == 'len'
            if good:
                v = undv(next(iter(d)).a[1])
                pushed = v.op == 'seq' and v.a[0] is not None
                base = undv(v.a[0]) if pushed else v
                good &= base is fld(sym('self'), 'const_values') and c == (-1 if pushed else 0)
        ob('constant:index', good, 'the index recorded for a constant is %s' % fshow(ids), b)
        ob('constant:result', returns_new(I, fr) and is_new_id(*[z.a[3] for z in (undv(z) for z in alts(undv(ret(I, fr)))) if z.op == 'agg']), 'constant(v) returns %s' % (show(ret(I, fr))[:200]), b)
    # B. constant operands are folded with the same operation
    xs, ys = show(cx('x')), show(cx('y'))
    for m, want in (('add', {(xs,): 1, (ys,): 1}), ('sub', {(xs,): 1, (ys,): -1}), ('mul', {tuple(sorted((xs, ys))): 1}), ('neg', {(xs,): -1})):
        b = ctx.body(bpath('Builder', 'BasicAPI', m))
        if b is None:
            continue
        n += 1
        I, fr = r.go(b, xc=True, yc=True)
        got = consts_pushed(I, fr) or set()
        # folding is optional; a folded constant must be the right one
        bad = [t for t in got if t.op != 'agg' and poly(t) != want] + [t for t in got if t.op == 'agg' and insn_form(t) != expected_insn(m)]
        ob('%s:fold' % m, got and not bad, '%s of two constants folds to %s' % (m, fshow(got)), b)

    def bools(xz, yz, eq=None, chk=None):
        def f(t):
            t0 = t
            if t.op == 'call' and str(t.a[0]).endswith('is_zero'):
                if undv(t.a[1]) is cx('x'):
                    return k(xz)
                if undv(t.a[1]) is cx('y'):
                    return k(yz)
            if t.op == 'bin' and t.a[0] == 'Eq':
                a, bb = undv(t.a[1]), undv(t.a[2])
                if {a, bb} == {cx('x'), cx('y')}:
                    return k(xz == yz) if eq is None else k(eq)
                for p, q, z in ((a, bb, xz), (bb, a, xz)):
                    if p is cx('x'):
                        if poly(q) == {}:
                            return k(xz)
                        if poly(q) == {(): 1}:
                            return k(not xz)
                    if p is cx('y'):
                        if poly(q) == {}:
                            return k(yz)
                        if poly(q) == {(): 1}:
                            return k(not yz)
            if chk is not None and undv(t) is sym('checked'):
                return k(chk)
        return f
    for m, op in (('xor', lambda a, c: a != c), ('or', lambda a, c: a or c), ('and', lambda a, c: a and c)):
        b = ctx.body(bpath('Builder', 'BasicAPI', m))
        if b is None:
            continue
        for a in (False, True):
            for c in (False, True):
                I, fr = r.go(b, xc=True, yc=True, extra=bools(not a, not c))
                got = consts_pushed(I, fr)
                want = op(a, c)
                vals = set()
                for t in got or ():
                    if t in (cx('x'), cx('y')):
                        continue        # pushed by assert_is_bool of the operand
                    p = boolval(t)
                    vals.add(p)
                good = vals == {want} or (got and all(insn_form(t) == expected_insn(m) for t in got))
                # an operand may itself be the result (x xor 0)
                ob('%s:fold-%d%d' % (m, a, c), good and fr.ret is not None, '%s(%d, %d) of constants folds to %s' % (m, a, c, fshow(got or set())), b)
        for which in ('x', 'y'):
            # an operand that is neither 0 nor 1
            def nb(t, w=which):
                if t.op == 'call' and str(t.a[0]).endswith('is_zero') and undv(t.a[1]) is cx(w):
                    return k(False)
                if t.op == 'bin' and t.a[0] == 'Eq':
                    for p, q in ((undv(t.a[1]), undv(t.a[2])), (undv(t.a[2]), undv(t.a[1]))):
                        if p is cx(w) and poly(q) in ({}, {(): 1}):
                            return k(False)
            I, fr = r.go(b, xc=True, yc=True, extra=nb)
            ob('%s:fold-nonbool-%s' % (m, which), fr.ret is None or not foldonly(I, fr), '%s of a constant that is not boolean is folded' % m, b)
    b = ctx.body(bpath('Builder', 'BasicAPI', 'is_zero'))
    if b is not None:
        for z in (False, True):
            I, fr = r.go(b, xc=True, extra=bools(z, False))
            got = consts_pushed(I, fr) or set()
            good = {boolval(t) for t in got} == {z} or (got and all(insn_form(t) == expected_insn('is_zero') for t in got))
            ob('is_zero:fold-%d' % z, good, 'is_zero of a constant folds to %s' % fshow(got), b)
    b = ctx.body(bpath('Builder', 'BasicAPI', 'div'))
    if b is not None:
        for xz in (False, True):
            for yz in (False, True):
                for chk in (False, True):
                    I, fr = r.go(b, args={1: var('x'), 2: var('y'), 3: k(chk)}, xc=True, yc=True, extra=bools(xz, yz, eq=(False if xz != yz else None)))
                    got = consts_pushed(I, fr) or set()
                    key = 'div:fold-%d%d%d' % (xz, yz, chk)
                    if yz and (chk or not xz):
                        ob(key, fr.ret is None or not foldonly(I, fr), 'division of constants by zero (%s) is folded to %s' % ('checked' if chk else 'nonzero dividend', fshow(got)), b)
                    elif yz:
                        ob(key, got and all(poly(t) == {} or t.op == 'agg' for t in got), 'unchecked 0/0 of constants folds to %s' % fshow(got), b)
                    else:
                        good = got and all(isquot(t) or (xz and poly(t) == {}) or t.op == 'agg' and insn_form(t)[0] == 'Div' for t in got)
                        ob(key, good, 'x/y of constants folds to %s' % fshow(got), b)
    b = ctx.body(bpath('Builder', 'BasicAPI', 'constant_value'))
    if b is not None:
        for c in (False, True):
            I, fr = r.go(b, xc=c)
            t = ret(I, fr)
            al = {undv(z) for z in alts(undv(t))} if t is not None else set()
            good = al and all(z.op == 'agg' and (z.a[1] == 'Some' and undv(z.a[3]) is cx('x') if c else z.a[1] == 'None') for z in al)
            ob('constant_value:%s' % ('const' if c else 'var'), good, 'constant_value returns %s' % (show(t)[:200] if t is not None else None), b)
    # unconstrained operations
    for m, v in UN.items():
        b = ctx.body(bpath('Builder', 'UnconstrainedAPI', 'unconstrained_' + m))
        if b is None:
            continue
        n += 1
        I, fr = r.go(b)
        got = appended(I, fr, 'instructions')
        forms = {insn_form(t) for t in got} if got is not None else {('?',)}
        want = {insn_form(mk('agg', SRC + 'Instruction', 'UnconstrainedBinOp', ('x', 'y', 'op'), X, Y, mk('agg', SRC + 'UnconstrainedBinOpType', v, ())))}
        ob('unconstrained_%s:instruction' % m, forms == want, 'unconstrained_%s appends %s' % (m, fshow(forms)), b)
        ob('unconstrained_%s:result' % m, returns_new(I, fr) and appended(I, fr, 'constraints') == set(), 'unconstrained_%s does not return its result (or adds constraints)' % m, b)
    ident = hint_discr(ctx, 'Identity')
    for m, inner in (('identity', None), ('add', 'add'), ('mul', 'mul')):
        b = ctx.body(bpath('Builder', 'UnconstrainedAPI', 'unconstrained_' + m))
        if b is None:
            continue
        n += 1
        I, fr = r.go(b)
        got = appended(I, fr, 'instructions')
        forms = {insn_form(t) for t in got} if got is not None else {('?',)}
        hints = {f for f in forms if f[0] == 'Hint'}
        rest = forms - hints
        h = next(iter(hints)) if len(hints) == 1 else None
        good = h is not None and dict(h[1:])['hint_id'] == str(ident) and dict(h[1:])['num_outputs'] == '1'
        ob('unconstrained_%s:hint' % m, good, 'unconstrained_%s does not pass its result through the identity hint: %s' % (m, fshow(forms)), b)
        ob('unconstrained_%s:operation' % m, rest == ({expected_insn(inner)} if inner else set()), 'unconstrained_%s computes %s' % (m, fshow(rest)), b)
        ob('unconstrained_%s:result' % m, returns_new(I, fr), 'unconstrained_%s returns something else' % m, b)
        if inner is None and h is not None:
            ob('unconstrained_identity:input', dict(h[1:])['inputs'] == 'arr(x)', 'the identity hint reads %s' % dict(h[1:])['inputs'], b)
    # hints
    b = ctx.body(bpath('Builder', 'BasicAPI', 'new_hint'))
    if b is not None:
        n += 1
        hk = EC + 'hints::registry::hint_key_to_id'
        ctx.need(hk in ctx.prog.bodies, 'hint_key_to_id', hk)
        I, fr = counterfactual(ctx, b, nonempty=lambda s: False, names=['self', 'key', 'ins', 'no'], opaque=(hk,))
        got = appended(I, fr, 'instructions') or set()
        good = len(got) == 1
        for t in got:
            fs = dict(zip(t.a[2], t.a[3:])) if t.op == 'agg' and t.a[1] == 'Hint' else {}
            if not fs:
                good = False
                continue
            hid = undv(fs['hint_id'])
            good &= hid.op == 'call' and str(hid.a[0]).endswith('hint_key_to_id') and undv(hid.a[1]) is sym('key')
            good &= elems(fs['inputs']) == {fld(elem(sym('ins')), 'id')} and undv(fs['num_outputs']) is sym('no')
        ob('new_hint:instruction', good, 'new_hint appends %s' % fshow(got), b)
        ob('new_hint:result', returns_new(I, fr), 'new_hint returns something else', b)
        I, fr = counterfactual(ctx, b, fn=lambda t: k(True) if t.op == 'bin' and t.a[0] == 'Eq' and any(is_k(undv(z), 0) for z in t.a[1:]) and any(is_path('*', 'id')(undv(z)) for z in t.a[1:]) else None,
                               nonempty=lambda s: undv(s) is sym('ins'), names=['self', 'key', 'ins', 'no'], opaque=(hk,))
        ob('new_hint:invalid-variable', fr.ret is None, 'new_hint accepts the invalid variable 0', b)
    b = ctx.body(bpath('Builder', 'BasicAPI', 'geq'))
    if b is not None:
        n += 1
        sib = {q: bpath('Builder', 'BasicAPI', q) for q in BIN + UNA + ('constant', 'gt')}
        I, fr = counterfactual(ctx, b, fn=konst_assume(False, False), nonempty=lambda s: False, names=['self'], args={1: var('x'), 2: var('y')}, opaque=tuple(sib.values()))

        def sem(t):
            t = undv(t)
            if t.op == 'call' and t.a[0].rsplit('::', 1)[-1] in sib:
                m, a = t.a[0].rsplit('::', 1)[-1], [z for z in t.a[2:] if isinstance(z, T) and z.op != 'site']
                if m == 'constant':
                    return poly(a[0])
                if m == 'gt':
                    return {(('gt',) + tuple(show(undv(z)) for z in a[:2]),): 1}
                if m in ('sub', 'add', 'neg'):
                    return padd(sem(a[0]) if m != 'neg' else {}, sem(a[-1]), 1 if m == 'add' else -1)
                if m == 'is_zero':
                    return padd({(): 1}, sem(a[0]), -1)
                if m == 'xor':
                    u, v = sem(a[0]), sem(a[1])
                    return padd(padd(u, v), pmul({(): -2}, pmul(u, v)))
            return poly(t)
        got = sem(ret(I, fr)) if fr.ret is not None else None
        want = {(): 1, (('gt', show(var('y')), show(var('x'))),): -1}
        ob('geq:result', got == want, 'geq(x, y) is %s, not 1 - gt(y, x)' % got, b)
    # invalid variable 0 aborts every method
    for ty in ('Builder', 'DebugBuilder'):
        for m in BIN + UNA + tuple(ASSERT) + ('constant', 'constant_value') + tuple('unconstrained_' + u for u in UN) + ('unconstrained_identity', 'unconstrained_add', 'unconstrained_mul'):
            b = ctx.body(bpath(ty, trait_of(m), m))
            if b is None:
                continue
            for pos in ((1, 2) if (m in BIN or m.startswith('unconstrained') and not m.endswith('identity')) else (1,)):
                args = {1: var('x'), 2: var('y')}
                if m == 'to_binary':
                    args[2] = sym('nb')
                args[pos] = var(k(0))
                I, fr = counterfactual(ctx, b, fn=None, nonempty=lambda s: False, names=['self'], args=args)
                ctx.ob('%s:%s:invalid-variable-%d' % (ty, m, pos), fr.ret is None, '%s accepts the invalid variable 0 as operand %d' % (m, pos), where(b))
                n += 1
    return n


def appended_any(I, fr, f):
    t = selfmem(I, fr)
    v = field_of(t, f) if t is not None else None
    return elems(v) if v is not None else set()


def foldonly(I, fr):
    """the method succeeded by folding: no operation instruction over the operands was emitted"""
    got = consts_pushed(I, fr)
    if got is None:
        return False
    return not any(t.op == 'agg' and t.a[1] not in ('ConstantLike',) for t in got)


def boolval(t):
    p = poly(t)
    if p == {}:
        return False
    if p == {(): 1}:
        return True
    al = {undv(z) for z in alts(t)}
    vs = set()
    for z in al:
        v = kval(z)
        if v is None:
            return show(t)[:100]
        vs.add(bool(v))
    return vs.pop() if len(vs) == 1 else show(t)[:100]


def isquot(t):
    t = undv(t)
    if t.op != 'bin' or t.a[0] != 'Mul':
        return False
    for a, b in ((undv(t.a[1]), undv(t.a[2])), (undv(t.a[2]), undv(t.a[1]))):
        s = b
        while s.op in ('fld', 'dv'):
            s = undv(s.a[0])
        if a is cx('x') and s.op == 'call' and str(s.a[0]).endswith('::inv') and undv(s.a[1]) is cx('y'):
            return True
    return False


def hint_discr(ctx, name):
    a = ctx.prog.adts.get(EC + 'hints::builtin::BuiltinHintIds')
    if not ctx.need(a is not None, 'BuiltinHintIds', 'enum BuiltinHintIds'):
        return None
    for v in a['variants']:
        if v['name'] == name:
            return v.get('discr')
    ctx.need(False, 'BuiltinHintIds::' + name, 'variant %s' % name)


def check_debug(ctx):
    n = 0
    ev = EC + '<circuit::ir::source::Instruction<C> as circuit::ir::common::Instruction<C>>::eval_unsafe'
    ctx.need(ev in ctx.prog.bodies, 'eval_unsafe', ev)
    S = sym('self')
    vx, vy = mk('at', fld(S, 'values'), X), mk('at', fld(S, 'values'), Y)
    sx, sy = show(vx), show(vy)

    def ob(key, good, msg, b):
        ctx.ob('DebugBuilder:' + key, good, msg, where(b))
    polys = {'add': {(sx,): 1, (sy,): 1}, 'sub': {(sx,): 1, (sy,): -1}, 'mul': {tuple(sorted((sx, sy))): 1}, 'neg': {(sx,): -1},
             'unconstrained_add': {(sx,): 1, (sy,): 1}, 'unconstrained_mul': {tuple(sorted((sx, sy))): 1}, 'unconstrained_identity': {(sx,): 1}, 'constant': {(sx,): 1}}
    insn = {'xor': expected_insn('xor'), 'or': expected_insn('or'), 'and': expected_insn('and'), 'is_zero': expected_insn('is_zero'), 'div': expected_insn('div')}
    for m, v in UN.items():
        insn['unconstrained_' + m] = insn_form(mk('agg', SRC + 'Instruction', 'UnconstrainedBinOp', ('x', 'y', 'op'), X, Y, mk('agg', SRC + 'UnconstrainedBinOpType', v, ())))
    nz = lambda t: k(False) if t.op == 'bin' and t.a[0] == 'Eq' and any(is_k(undv(z), 0) for z in t.a[1:]) and any(undv(z) in (X, Y) for z in t.a[1:]) else None
    for m in list(polys) + list(insn) + ['gt', 'geq']:
        b = ctx.body(bpath('DebugBuilder', trait_of(m), m))
        if b is None:
            continue
        n += 1
        I, fr = counterfactual(ctx, b, fn=nz, nonempty=lambda s: False, names=['self'], args={1: var('x'), 2: var('y')}, opaque=(ev,))
        got = appended(I, fr, 'values')
        if got is None:
            got = set()
        if m in polys:
            alt = []
            good = got and all(poly(t) == polys[m] for t in got)
            ob('%s:value' % m, good, '%s of values x, y records %s' % (m, fshow(got)), b)
        elif m in insn:
            good = bool(got)
            shown = set()
            for t in got:
                s = t
                while s.op in ('fld', 'dv'):
                    s = undv(s.a[0])
                if s.op == 'call' and str(s.a[0]).endswith('eval_unsafe'):
                    f = insn_form(s.a[1])
                    shown.add(f)
                    good &= f == insn[m] and undv(s.a[2]) is fld(S, 'values')
                elif m == 'is_zero':
                    shown.add(show(t)[:100])
                    good &= t.op == 'call' and str(t.a[0]).endswith('is_zero') and undv(t.a[1]) is vx
                elif m in ('xor', 'or', 'and'):
                    want = {'xor': {(sx,): 1, (sy,): 1, tuple(sorted((sx, sy))): -2}, 'or': {(sx,): 1, (sy,): 1, tuple(sorted((sx, sy))): -1}, 'and': {tuple(sorted((sx, sy))): 1}}[m]
                    shown.add(show(t)[:100])
                    good &= poly(t) == want
                else:
                    shown.add(show(t)[:100])
                    good = False
            ob('%s:value' % m, good, '%s records %s' % (m, fshow(shown)), b)
        else:
            good = bool(got)
            for t in got:
                t = undv(t)
                op = 'Lt' if m == 'gt' else 'Le'
                c = cmpform(t)
                good &= c == (op, vy, vx)
            ob('%s:value' % m, good, '%s(x, y) records %s' % (m, fshow(got)), b)
        r = undv(ret(I, fr)) if fr.ret is not None else None
        good = r is not None and all(z.op == 'agg' and undv(z.a[3]).op == 'call' and undv(z.a[3]).a[0] == 'len' for z in (undv(z) for z in alts(r)))
        ob('%s:result' % m, good, '%s returns %s' % (m, show(r)[:150] if r is not None else None), b)
    for m, zs in (('assert_is_zero', [(False, None)]), ('assert_is_non_zero', [(True, None)]), ('assert_is_bool', [(False, False)])):
        b = ctx.body(bpath('DebugBuilder', 'BasicAPI', m))
        if b is None:
            continue
        n += 1
        good_cases = {'assert_is_zero': [(True, None)], 'assert_is_non_zero': [(False, None)], 'assert_is_bool': [(True, False), (False, True)]}[m]
        for cases, exp in ((zs, False), (good_cases, True)):
            for z, one in cases:
                def f(t, z=z, one=one):
                    if t.op == 'call' and str(t.a[0]).endswith('is_zero') and undv(t.a[1]) is vx:
                        return k(z)
                    if t.op == 'bin' and t.a[0] == 'Eq':
                        for p, q in ((undv(t.a[1]), undv(t.a[2])), (undv(t.a[2]), undv(t.a[1]))):
                            if p is vx and poly(q) == {}:
                                return k(z)
                            if p is vx and poly(q) == {(): 1} and one is not None:
                                return k(one)
                    return nz(t)
                I, fr = counterfactual(ctx, b, fn=f, nonempty=lambda s: False, names=['self'], args={1: var('x')})
                ob('%s:%s' % (m, 'accepts' if exp else 'rejects'), (fr.ret is not None) == exp, '%s %s' % (m, 'rejects a value that satisfies it' if exp else 'accepts a value that violates it'), b)
    return n


def cmpform(t):
    t = undv(t)
    if t.op == 'call' and (str(t.a[0]).endswith('from') or str(t.a[0]).endswith('into')):
        return cmpform(t.a[1])
    if t.op == 'cdef' or t.op == 'cast':
        return cmpform(next(z for z in t.a if isinstance(z, T)))
    if t.op == 'bin' and t.a[0] in ('Lt', 'Le'):
        return (t.a[0], undv(t.a[1]), undv(t.a[2]))
    if t.op == 'un' and t.a[0] == 'Not':
        c = cmpform(t.a[1])
        if c:
            return ('Le' if c[0] == 'Lt' else 'Lt', c[2], c[1])
    if t.op == 'call' and len(t.a) == 3:
        m = str(t.a[0]).rsplit('::', 1)[-1]
        if m in ('lt', 'le'):
            return ('Lt' if m == 'lt' else 'Le', undv(t.a[1]), undv(t.a[2]))
        if m in ('gt', 'ge'):
            return ('Lt' if m == 'gt' else 'Le', undv(t.a[2]), undv(t.a[1]))
    return None


def check_root(ctx):
    n = 0
    P = ctx.prog
    methods = [(m, 'BasicAPI') for m in BIN + UNA + tuple(ASSERT) + ('get_random_value', 'new_hint', 'constant', 'constant_value', 'gt', 'geq')]
    methods += [('unconstrained_' + u, 'UnconstrainedAPI') for u in list(UN) + ['identity', 'add', 'mul']]
    opq = tuple(bpath('Builder', t, m) for m, t in methods)
    S = sym('self')
    for m, t in methods:
        b = ctx.body(bpath('RootBuilder', t, m))
        if b is None:
            continue
        n += 1
        I, fr = counterfactual(ctx, b, nonempty=lambda s: False, names=['self', 'p1', 'p2', 'p3'], opaque=opq)
        r = undv(ret(I, fr)) if fr.ret is not None else None
        calls = []
        for e in events(fr):
            if e.path in opq:
                calls.append((e.path, [z for z in e.args]))
        want = bpath('Builder', t, m)
        key = 'RootBuilder:%s' % m
        good = len(calls) == 1 and calls[0][0] == want
        why = [short(c[0])[-60:] for c in calls]
        if good:
            ps = [undv(z) for z in calls[0][1]]
            pos = [p for p in ps if p in (sym('p1'), sym('p2'), sym('p3'))]
            good = pos == [sym('p1'), sym('p2'), sym('p3')][:len(pos)] and len(pos) == len(ps) - 1
            why = [show(z)[:80] for z in ps]
        ctx.ob(key, good, '%s of the root builder does not forward to %s of the current builder with the same operands: %s' % (m, m, why), where(b))
    return n


def idrange(t):
    """ids of a vector of variables counted by a range -> (first, last) as linear forms"""
    es = elems(t)
    if len(es) != 1:
        return None
    e = undv(next(iter(es)))
    if e.op == 'agg' and e.a[2] == ('id',):
        e = undv(e.a[3])
    d, c = linform(e)
    if len(d) != 1:
        return None
    (r, n), = d.items()
    if n != 1 or r.op != 'ridx':
        return None
    lo, hi = linform(r.a[0]), linform(r.a[1])
    hi = (hi[0], hi[1] + (0 if 'Inclusive' in str(r.a[2]) else -1))
    return (lo[0], lo[1] + c), (hi[0], hi[1] + c)


def fieldmap(t):
    t = undv(t) if t is not None else None
    return dict(zip(t.a[2], t.a[3:])) if t is not None and t.op == 'agg' else {}


def check_structure(ctx):
    """construction, finishing and sub-circuit calls of the builders"""
    P = ctx.prog
    n = 0
    S = sym('self')
    bn = FB + 'builder::Builder::<C>::new'

    def ob(key, good, msg, b):
        ctx.ob(key, good, msg, where(b))

    def go(path, names, opaque=(), **kw):
        nonlocal n
        b = ctx.body(path)
        if b is None:
            return None
        n += 1
        I, fr = counterfactual(ctx, b, nonempty=kw.pop('nonempty', lambda s: False), names=names, opaque=opaque, **kw)
        return b, I, fr

    def tupof(t, i):
        t = undv(t)
        return undv(t.a[i]) if t is not None and t.op == 'tup' and len(t.a) > i else None
    # Builder::new
    g = go(bn, ['num'])
    if g:
        b, I, fr = g
        r = ret(I, fr)
        f = fieldmap(tupof(r, 0))
        num = sym('num')
        ob('Builder::new:num_inputs', f.get('num_inputs') is not None and undv(f['num_inputs']) is num, 'a new builder records num_inputs = %s' % (show(f['num_inputs']) if f.get('num_inputs') is not None else None), b)
        ids = idrange(tupof(r, 1)) if tupof(r, 1) is not None else None
        ob('Builder::new:inputs', ids == (({}, 1), ({num: 1}, 0)), 'the input variables of a new builder are %s, not 1..=num' % (ids,), b)
        v = undv(f['var_const_id']) if 'var_const_id' in f else None
        good = v is not None and v.op == 'rep' and is_k(undv(v.a[0]), 0) and linform(v.a[1]) == ({num: 1}, 1)
        ob('Builder::new:variables', good, 'a new builder starts with variable table %s' % (show(v) if v is not None else None), b)
        c = undv(f['const_values']) if 'const_values' in f else None
        ob('Builder::new:constants', c is not None and c.op == 'arr' and len(c.a) == 1, 'a new builder starts with constants %s: index 0 must mean "not constant"' % (show(c) if c is not None else None), b)
        ob('Builder::new:empty', elems(f['instructions']) | elems(f['constraints']) == set() if f else False, 'a new builder has instructions or constraints', b)

    def circuit_of(t, bld):
        f = fieldmap(t)
        bad = []
        for q in ('instructions', 'constraints', 'num_inputs'):
            if q not in f or undv(f[q]) is not fld(bld, q):
                bad.append('%s = %s' % (q, show(f[q])[:120] if q in f else None))
        return f, bad
    g = go(FB + 'builder::Builder::<C>::build', ['self', 'outs'])
    if g:
        b, I, fr = g
        f, bad = circuit_of(ret(I, fr), S)
        ob('Builder::build:fields', not bad, 'the built circuit has %s' % bad, b)
        o = undv(f['outputs']) if f else None
        ob('Builder::build:outputs', o is not None and o.op == 'seq' and o.a[0] is None and elems(o) == {fld(elem(sym('outs')), 'id')}, 'the outputs of the built circuit are %s' % (show(o) if o is not None else None), b)
    g = go(FB + 'builder::RootBuilder::<C>::new', ['num', 'pub'], opaque=(bn,))
    if g:
        b, I, fr = g
        r = ret(I, fr)
        f = fieldmap(tupof(r, 0))
        pub = sym('pub')
        ob('RootBuilder::new:num_public_inputs', 'num_public_inputs' in f and undv(f['num_public_inputs']) is pub, 'num_public_inputs is %s' % show(f['num_public_inputs']) if f else 'not built', b)
        good = False
        sh = None
        if f:
            cb = undv(f['current_builders'])
            sh = show(cb)[:400]
            if cb.op == 'arr' and len(cb.a) == 1:
                p = undv(cb.a[0])
                root, bl = tupof(p, 0), tupof(p, 1)
                ins = field_of(bl, 'instructions') if bl is not None else None
                es = elems(ins) if ins is not None else set()
                pis = [undv(e) for e in es if undv(e).op == 'agg']
                good = root is not None and is_k(root, 0) and len(pis) == 1
                for e in pis:
                    c = undv(e.a[3]) if e.a[1] == 'ConstantLike' else None
                    i = undv(c.a[3]) if c is not None and c.op == 'agg' and c.a[1] == 'PublicInput' else None
                    rr = idrange(mk('seq', None, i)) if i is not None else None
                    good &= rr == (({}, 0), ({pub: 1}, -1))
        ob('RootBuilder::new:public-inputs', good, 'the root builder does not start with one public-input constant per public input, in order: %s' % sh, b)
        r1 = tupof(r, 1)
        src = r1
        while src is not None and src.op in ('fld', 'dv'):
            src = undv(src.a[0])
        ob('RootBuilder::new:inputs', src is not None and src.op == 'call' and str(src.a[0]).endswith('::new') and undv(src.a[1]) is sym('num') and r1.a[1] == '1', 'the input variables returned are %s' % (show(r1) if r1 is not None else None), b)
        r2 = tupof(r, 2)
        good = r2 is not None and elems(r2) and all(undv(z).op == 'agg' and 'var_const_id' in show(z) for z in eflat(r2)) and is_new_id(*[undv(z).a[3] for z in eflat(r2)])
        ob('RootBuilder::new:public-variables', good, 'the public-input variables returned are %s' % (show(r2)[:300] if r2 is not None else None), b)
    g = go(FB + 'builder::RootBuilder::<C>::build', ['self'])
    if g:
        b, I, fr = g
        f = fieldmap(ret(I, fr))
        ob('RootBuilder::build:num_public_inputs', 'num_public_inputs' in f and undv(f['num_public_inputs']) is fld(S, 'num_public_inputs'), 'num_public_inputs is %s' % (show(f['num_public_inputs']) if f else None), b)
        ob('RootBuilder::build:zeroes', 'expected_num_output_zeroes' in f and is_k(undv(f['expected_num_output_zeroes']), 0), 'a source circuit declares zero outputs', b)
        es = elems(f['circuits']) if f else set()
        subs = [e for e in es if e is elem(fld(S, 'sub_circuits'))]
        rest = [e for e in es if e not in subs]
        ob('RootBuilder::build:sub-circuits', len(subs) == 1, 'the sub-circuits are not part of the built circuit: %s' % fshow(es), b)
        good = len(rest) == 1
        for e in rest:
            e = undv(e)
            bl = elem(fld(S, 'current_builders'))
            if e.op != 'tup' or not any(gen(undv(e.a[0])) is z for z in (fld(bl, '0'), k(0))):
                good = False
                continue
            f2, bad = circuit_of(gen(e.a[1]), fld(bl, '1'))
            good &= not bad and elems(f2['outputs']) == {fld(elem(fld(S, 'outputs')), 'id')}
        ob('RootBuilder::build:root', good, 'the root circuit is %s' % fshow(rest), b)
        I, fr = counterfactual(ctx, b, rels=[Rel(is_path(('call', 'len'), 'current_builders') if False else (lambda t: undv(t).op == 'call' and undv(t).a[0] == 'len' and is_path('current_builders')(undv(t).a[1])), 'ge', 2)], nonempty=lambda s: False, names=['self'])
        ob('RootBuilder::build:unfinished', fr.ret is None, 'a root builder with an unfinished sub-circuit is built', b)
    # sub-circuit calls
    act = FB + 'builder::RootBuilder::<C>::actually_call_sub_circuit'
    RA = EC + '<frontend::builder::RootBuilder<C> as frontend::api::RootAPI<C>>::'
    g = go(act, ['self', 'cid', 'n', 'f'], opaque=(bn,)) if act in P.bodies else None
    if g:
        b, I, fr = g
        ap = appended(I, fr, 'sub_circuits')
        good = ap is not None and len(ap) == 1
        for e in ap or ():
            if e.op != 'tup' or undv(e.a[0]) is not sym('cid'):
                good = False
                continue
            f = fieldmap(e.a[1])
            good &= bool(f) and all(q in show(f[q]) for q in ('instructions', 'constraints', 'num_inputs')) and 'indirect(' in show(f['outputs']) and show(f['outputs']).endswith('[*].id)')
        ob('sub-circuit:registered', good, 'a new sub-circuit is registered as %s' % fshow(ap or set()), b)
        for f, nm in (('current_builders', 'builder stack'),):
            good = False
            t = selfmem(I, fr)
            v = undv(field_of(t, f)) if t is not None and field_of(t, f) is not None else None
            ob('sub-circuit:stack', v is not None, 'the builder stack is not used for the sub-circuit', b)
    g = go(RA + 'call_sub_circuit', ['self', 'cid', 'ins', 'f'], opaque=(bn, act))
    if g:
        b, I, fr = g
        calls = set()
        t = selfmem(I, fr)
        for z in walk(t) if t is not None else ():
            if z.op == 'agg' and z.a[1] == 'SubCircuitCall' and z.a[0].endswith('source::Instruction') or z.op == 'agg' and z.a[1] == 'SubCircuitCall':
                calls.add(z)
        good = len(calls) == 1
        rn = eflat(ret(I, fr)) if fr.ret is not None else set()
        for c in calls:
            f = fieldmap(c)
            good &= undv(f['sub_circuit_id']) is sym('cid') and elems(f['inputs']) == {fld(elem(sym('ins')), 'id')} and out_count(f['num_outputs'], rn)
        ob('call_sub_circuit:instruction', good, 'calling a sub-circuit emits %s' % fshow(calls), b)
        ob('call_sub_circuit:result', bool(rn) and all(e.op == 'agg' for e in rn) and is_new_id(*[e.a[3] for e in rn]), 'calling a sub-circuit returns %s' % fshow(rn), b)
        # every call builds the circuit at most once, and only if it is not registered yet
        for known in (False, True):
            I, fr = counterfactual(ctx, b, fn=lambda t, kn=known: k(kn) if t.op == 'call' and str(t.a[0]).rsplit('::', 1)[-1] in ('contains_key', 'contains') and is_path('sub_circuits')(undv(t.a[1])) else None,
                                   nonempty=lambda s: False, names=['self', 'cid', 'ins', 'f'], opaque=(bn, act))
            built = [e for e in events(fr) if e.path == act] if act in P.bodies else []
            if act in P.bodies:
                ob('call_sub_circuit:build-%s' % ('known' if known else 'new'), (len(built) > 0) != known, 'a sub-circuit that is %s is %sbuilt' % ('already registered' if known else 'not registered', '' if known else 'not '), b)
    for ty, pre in (('RootBuilder', RA), ('DebugBuilder', EC + '<frontend::debug::DebugBuilder<C, H> as frontend::api::RootAPI<C>>::')):
        g = go(pre + 'hash_to_sub_circuit_id', ['self', 'hash'])
        if g:
            b, I, fr = g
            r = ret(I, fr)
            ob('%s:hash_to_sub_circuit_id:id' % ty, r is not None and any(z is sym('hash') for z in walk(r)), 'the sub-circuit id does not come from the hash', b)

            def differs(t):
                if t.op == 'call' and t.a[0] == 'contains_key' and is_path('full_hash_id')(undv(t.a[1])):
                    return k(True)
                if t.op == 'bin' and t.a[0] == 'Eq':
                    u, v = undv(t.a[1]), undv(t.a[2])
                    if any(p is sym('hash') and q.op == 'get' and is_path('full_hash_id')(undv(q.a[0])) for p, q in ((u, v), (v, u))):
                        return k(False)
            I, fr = counterfactual(ctx, b, fn=differs, nonempty=lambda s: False, names=['self', 'hash'])
            ob('%s:hash_to_sub_circuit_id:collision' % ty, fr.ret is None, 'two different hashes that share a sub-circuit id are not told apart', b)
            ap = appended(*[z for z in counterfactual(ctx, b, nonempty=lambda s: False, names=['self', 'hash'])], 'full_hash_id')
            good = ap is not None and len(ap) == 1 and all(e.op == 'tup' and undv(e.a[1]) is sym('hash') for e in ap)
            ob('%s:hash_to_sub_circuit_id:recorded' % ty, good, 'the full hash recorded for an id is %s' % fshow(ap or set()), b)
        b = P.bodies.get(pre + 'register_sub_circuit_output_structure')
        if b is not None:
            n += 1
            I, fr = counterfactual(ctx, b, nonempty=lambda s: False, names=['self', 'cid', 'structure'])
            v = appended(I, fr, 'sub_circuit_output_structure')
            good = v is not None and any(e.op == 'tup' and undv(e.a[0]) is sym('cid') and undv(e.a[1]) is sym('structure') for e in v)
            ob('%s:output_structure' % ty, good, 'the output structure registered is %s' % fshow(v or set()), b)
    # memorized calls hash the function and the shape of its input
    gf = EC + 'utils::function_id::get_function_id'
    csc = RA + 'call_sub_circuit'
    g = go(RA + 'memorized_simple_call', ['self', 'f', 'ins'], opaque=(bn, act, gf, csc))
    if g:
        b, I, fr = g
        I2, fr2 = counterfactual(ctx, b, fn=zero_elem, nonempty=lambda s: undv(s) is sym('ins'), names=['self', 'f', 'ins'], opaque=(bn, act, gf, csc))
        ob('memorized_simple_call:invalid-variable', fr2.ret is None, 'a memorized call accepts the invalid variable 0 as input', b)
        cs = [e for e in events(fr) if e.path == csc]
        good = len(cs) == 1 and any(undv(z) is sym('ins') for z in cs[0].args) and any(undv(z) is sym('f') for z in cs[0].args)
        ob('memorized_simple_call:call', good, 'a memorized call calls %s' % [[show(z)[:60] for z in c.args] for c in cs], b)
        ids = set()
        shown = []
        for e in events(fr):
            if e.path.rsplit('::', 1)[-1] in ('update', 'hash') and 'Hash' in e.path or e.path.rsplit('::', 1)[-1] == 'update':
                s = ' '.join(show(z) for z in e.args)
                shown.append(s[:120])
                for z in e.args[1:]:
                    z = injarg(z)
                    if z.op == 'call' and str(z.a[0]).endswith('get_function_id'):
                        ids.add('function')
                    d, c = linform(z)
                    if len(d) == 1 and abs(next(iter(d.values()))) == 1:
                        u = next(iter(d))
                        if u.op == 'call' and u.a[0] == 'len' and undv(u.a[1]) is sym('ins'):
                            ids.add('len')
        ob('memorized_simple_call:hash', ids >= {'len', 'function'}, 'the id of a memorized call is derived from %s; it must depend on the function and the number of inputs' % shown, b)
    # api defaults
    api = FB + 'api::BasicAPI::'
    sib = lambda q: [p for p in (FB + 'api::BasicAPI::' + q,)]
    for m, want in (('inverse', ('div', 1, 'v', True)), ('assert_is_equal', ('sub+assert_is_zero',)), ('assert_is_different', ('sub+assert_is_non_zero',))):
        g = go(api + m, ['self', 'v', 'w'])
        if not g:
            continue
        b, I, fr = g
        evs = [e for e in events(fr) if '::BasicAPI' in e.path or 'api::BasicAPI' in str(e.canon)]
        seq = [(e.path.rsplit('::', 1)[-1], [undv(z) for z in e.args if isinstance(z, T)]) for e in evs]
        if m == 'inverse':
            good = len(seq) == 1 and seq[0][0] == 'div' and poly(seq[0][1][1]) == {(): 1} and seq[0][1][2] is sym('v') and is_k(seq[0][1][3], True)
        else:
            good = len(seq) == 2 and seq[0][0] == 'sub' and {z for z in seq[0][1][1:3]} == {sym('v'), sym('w')} and seq[1][0] == want[0].split('+')[1]
            if good:
                d = seq[1][1][1]
                good = any(z.op == 'call' and str(z.a[0]).endswith('::sub') for z in walk(d))
        ob('BasicAPI:%s' % m, good, '%s calls %s' % (m, [(q, [show(z)[:60] for z in a]) for q, a in seq]), b)
    return n


def injarg(t):
    """strip injective encodings"""
    t = undv(t)
    while True:
        if t.op == 'cast' or t.op == 'cdef':
            n = next((z for z in t.a if isinstance(z, T)), None)
        elif t.op == 'call' and str(t.a[0]).rsplit('::', 1)[-1] in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes', 'to_string', 'from', 'into', 'as_slice', 'as_ref', 'as_bytes', 'clone') and len(t.a) > 1:
            n = t.a[1]
        else:
            return t
        if n is None:
            return t
        t = undv(n)


def eflat(t):
    return {undv(z) for e in elems(t) for z in alts(undv(e))}


def zero_elem(t):
    if t.op == 'bin' and t.a[0] == 'Eq' and any(is_k(undv(z), 0) for z in t.a[1:]) and any(is_path('*', 'id')(undv(z)) for z in t.a[1:]):
        return k(True)


def out_count(t, rn):
    """t is the number of outputs of the sub-circuit (or of the variables made for them)"""
    t = undv(t)
    if t.op != 'call' or t.a[0] != 'len':
        return False
    c = undv(t.a[1])
    return is_path('outputs')(c) or elems(c) == rn and bool(rn)


def is_new_id(*ts):
    """number of variables after the push minus one, or before the push"""
    one, zero = [], []
    for t in ts:
        d, c = linform(t)
        if len(d) != 1:
            return False
        (x, n), = d.items()
        if n != 1 or x.op != 'call' or x.a[0] != 'len' or c not in (0, -1):
            return False
        for z in alts(undv(x.a[1])):
            (zero if c == 0 else one).append(undv(z))
    pushed = lambda z: z.op == 'seq' and z.a[0] is not None
    return (not one or any(pushed(z) for z in one)) and (not zero or any(not pushed(z) for z in zero)) and bool(one or zero)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from walk(x, seen)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                if isinstance(y, T):
                    yield from walk(y, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield from walk(z, seen)


def check(ctx):
    a = check_builder(ctx)
    c = check_debug(ctx)
    d = check_root(ctx)
    e = check_structure(ctx)
    ctx.floor('builder-methods', a, 60)
    ctx.floor('debug-methods', c, 30)
    ctx.floor('root-methods', d, 35)
    ctx.floor('structural-functions', e, 12)
