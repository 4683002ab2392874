"""Lowering a source circuit keeps the meaning of every instruction and constraint.  Each instruction the lowering emits is read as a
polynomial in the operands, and the asserted and marked expressions are compared with the definition of the source instruction; the
generic builder core and the builder of the final circuit carry every instruction, constraint and output through unchanged."""
import itertools
from rules.common import *
from rules.assume import *
from rules import alg, c14
from rules.alg import padd, pmul, const, normed, cn, nosite
from rules.c09 import unconditional, where, only_iteration
import absint as A

SRC = EC + 'circuit::ir::source::'
HN = EC + 'circuit::ir::hint_normalized::Instruction'
BB = EC + "builder::basic::Builder::<'a, C, IrcIn, IrcOut>::"
PRE = 'builder::hint_normalize'
RULE = 'lowering: polynomial normal form of the emitted instructions and constraints'
PUSH = ('push_insn', 'push_insn_multi_out', 'push_insn_with_root')


class Sem:
    """meaning of variables of the circuit being built: polynomials over the operands"""
    def __init__(self, mus=None):
        self.memo = {}
        self.ids = {}
        self.names = {}
        self.mus = mus or {}

    atom = alg.Alg.atom
    show = alg.Alg.show

    def coef(self, t):
        t = undv(t)
        if t.op == 'call':
            n, a = cn(t), nosite(t)
            if n == 'one' and not a:
                return const(1)
            if n == 'zero' and not a:
                return {}
            if n == 'double' and len(a) == 1:
                return pmul(const(2), self.coef(a[0]))
            if n in ('clone', 'into', 'to_owned', 'borrow') and len(a) == 1:
                return self.coef(a[0])
            if n == 'neg' and len(a) == 1:
                return padd({}, self.coef(a[0]), -1)
            if n in ('add', 'sub', 'mul') and len(a) == 2:
                x, y = self.coef(a[0]), self.coef(a[1])
                return pmul(x, y) if n == 'mul' else padd(x, y, 1 if n == 'add' else -1)
            if n in ('inv', 'optimistic_inv') and len(a) == 1:
                return self.atom(('inv', undv(a[0])))
            if n in ('from', 'new') and len(a) == 1 and isinstance(kval(undv(a[0])), int):
                return const(kval(undv(a[0])))
        if t.op == 'fld' and t.a[1] in ('Some.0', 'Ok.0'):
            b = undv(t.a[0])
            if b.op == 'call' and cn(b) in ('inv', 'optimistic_inv'):
                return self.coef(b)
        if t.op == 'un' and t.a[0] == 'Neg':
            return padd({}, self.coef(t.a[1]), -1)
        if t.op == 'bin' and t.a[0] in ('Add', 'Sub', 'Mul'):
            x, y = self.coef(t.a[1]), self.coef(t.a[2])
            return pmul(x, y) if t.a[0] == 'Mul' else padd(x, y, 1 if t.a[0] == 'Add' else -1)
        v = kval(t)
        if isinstance(v, int) and not isinstance(v, bool):
            return const(v)
        return self.atom(('c', t))

    def ev(self, t):
        t = undv(t)
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev0(t)
        return r

    def ev0(self, t):
        b = t
        if b.op == 'fld' and b.a[1] in ('Some.0',):
            b = undv(b.a[0])
            if b.op == 'call' and cn(b) in PUSH and len(nosite(b)) >= 2:
                r = self.ins(nosite(b)[1], self.site(b))
                if r is not None:
                    return r
        if b.op in ('at',):
            c = undv(b.a[0])
            if c.op == 'call' and cn(c) == 'push_insn_multi_out' and kval(undv(b.a[1])) == 0:
                r = self.ins(nosite(c)[1], self.site(c))
                if r is not None:
                    return r
        if b.op == 'elem':
            c = undv(b.a[0])
            if c.op == 'call' and cn(c) == 'push_insn_multi_out':
                return self.atom(('bits', c))
        if b.op == 'call' and cn(b) in ('clone', 'borrow') and len(nosite(b)) == 1:
            return self.ev(nosite(b)[0])
        return self.atom(t)

    def site(self, t):
        return next((x for x in t.a[1:] if isinstance(x, T) and x.op == 'site'), None)

    def ins(self, i, site=None):
        """meaning of an instruction with one output"""
        i = undv(i)
        if i.op != 'agg':
            return None
        v = i.a[1]
        f = dict(zip(i.a[2], i.a[3:]))
        if v == 'LinComb':
            lc = undv(f['0'])
            if lc.op == 'agg':
                g = dict(zip(lc.a[2], lc.a[3:]))
                ts = seqof(g['terms'])
                if ts is not None:
                    r = self.coef(g['constant'])
                    for x in ts:
                        x = undv(x)
                        if x.op != 'agg':
                            return None
                        h = dict(zip(x.a[2], x.a[3:]))
                        r = padd(r, pmul(self.coef(h['coef']), self.ev(h['var'])))
                    return r
            return self.atom(('LinComb', lc))
        if v == 'Mul':
            vs = seqof(f['0'])
            if vs is not None:
                r = const(1)
                for x in vs:
                    r = pmul(r, self.ev(x))
                return r
            return self.atom(('Mul', undv(f['0'])))
        if v == 'ConstantLike':
            c = undv(f['0'])
            if c.op == 'agg' and c.a[1] == 'Constant':
                return self.coef(c.a[3])
            if c.op == 'agg' and c.a[1] == 'Random':
                return self.atom(('random', site))
            return self.atom(('const', c))
        if v == 'Hint':
            xs = seqof(f['inputs'])
            if xs is None:
                return self.atom(('hint', i))
            return self.atom(('hint', hid(f['hint_id']), tuple(tuple(sorted(self.ev(x).items())) for x in xs), kval(undv(f['num_outputs']))),
                             'hint%s' % hid(f['hint_id']))
        return self.atom(('insn', i))


def hid(t):
    t = undv(t)
    while t.op == 'cast':
        t = undv(t.a[0] if isinstance(t.a[0], T) else t.a[1])
    if t.op == 'discr' and undv(t.a[0]).op == 'agg':
        v = dict((n, v) for v, n in t.a[1]).get(undv(t.a[0]).a[1])
        return int(v) if v is not None else None
    return kval(t)


def seqof(t):
    t = undv(t)
    if t.op == 'arr':
        return list(t.a)
    if t.op == 'call' and cn(t) in ('to_vec', 'clone', 'into_vec', 'into_iter', 'collect', 'vec') and len(nosite(t)) == 1:
        return seqof(nosite(t)[0])
    return None


def reduce(p, basis):
    """remainder of p modulo the basis (degree-lexicographic leading monomials)"""
    key = lambda m: (len(m), m)
    bs = [(max(b, key=key), b) for b in basis if b]
    r = {}
    p = dict(p)
    for _ in range(400):
        if not p:
            return r
        m = max(p, key=key)
        for lm, b in bs:
            q = list(m)
            try:
                for x in lm:
                    q.remove(x)
            except ValueError:
                continue
            c = p[m] * pow(b[lm], -1, alg.PMOD) % alg.PMOD
            p = padd(p, pmul({tuple(q): c}, b), -1)
            break
        else:
            r[m] = p.pop(m)
    return {(): 1}


def impl(ctx, fn, frm):
    return next((p for p in ctx.prog.bodies if p.endswith('::' + fn) and frm in p and '{' not in p), None)


def some(x):
    return mk('agg', 'core::option::Option', 'Some', ('0',), x)


NONE = mk('agg', 'core::option::Option', 'None', ())


class Low:
    """one source instruction lowered under fixed assumptions"""
    def __init__(self, ctx, body, arg, consts=(), fn=None, opaque=()):
        cm = dict(consts)

        def f(t):
            if t.op == 'call' and cn(t) == 'constant_value' and len(nosite(t)) == 2:
                k_ = undv(nosite(t)[1])
                if k_ in cm:
                    return cm[k_]
            if t.op == 'call' and cn(t) in PUSH and False:
                return None
            return fn(t) if fn else None
        self.body = body
        self.I, self.fr = counterfactual(ctx, body, names=['self', 'insn'], args={1: arg}, fn=f, nonempty=lambda s: True,
                                         opaque=tuple(p for p in ctx.prog.bodies if p.startswith(BB) and p[len(BB):] in PUSH + ('assert', 'mark', 'constant_value', 'new')) + tuple(opaque))
        self.s = Sem()
        self.arg = arg

    @property
    def ret(self):
        return undv(self.I.snap(self.fr.exit_state, self.fr.ret)) if self.fr.ret is not None else None

    def outs(self):
        return [undv(x) for x in alts(self.ret)] if self.ret is not None else []

    def free(self, e):
        ex = self.fr.exit_state.known if self.fr.exit_state is not None else ()
        kn = [c for c in e.known if c not in ex and c[0] not in (A.A_TRUE, A.A_FALSE) and not (c[1] == 'Some' and undv(c[0]).op == 'call' and cn(undv(c[0])) in PUSH)]
        return unconditional(kn)

    def evs(self, name):
        return [e for e in events(self.fr) if e.path.startswith(BB) and e.path[len(BB):] == name]

    def values(self):
        """per output of the instruction, its polynomial; None if not of one form"""
        r = set()
        for o in self.outs():
            if o.op != 'agg':
                return None
            if o.a[1] == 'Insn':
                for i in alts(undv(o.a[3])):
                    p = self.s.ins(i)
                    r.add((fz(p),) if p is not None else None)
            elif o.a[1] == 'Vars':
                for v in alts(undv(o.a[3])):
                    xs = seqof(v)
                    r.add(tuple(fz(self.s.ev(x)) for x in xs) if xs is not None else None)
            else:
                r.add('Err')
        return r


def fz(p):
    return tuple(sorted(p.items()))


def discr(prog, adt):
    d = {}
    for i, v in enumerate(prog.adts[adt]['variants'] if adt else ()):
        d[v['name']] = v.get('discr', i)
    return d


def instructions(ctx):
    prog = ctx.prog
    p = impl(ctx, 'transform_in_to_out', PRE)
    if not ctx.need(p is not None, 'hint_normalize transform', 'transform_in_to_out of the hint normalising builder'):
        return
    body = ctx.body(p)
    BH = discr(prog, next((a for a in prog.adts if a.endswith('hints::builtin::BuiltinHintIds') or a.endswith('::BuiltinHintIds')), None))
    adt = SRC + 'Instruction'
    b = sym('insn')
    w = where(body)
    seen = set()

    def arg(v, **over):
        a = agg_of(prog, adt, v, base=b)
        if a is None:
            ctx.fail('anchor:source instruction ' + v, 'variant not found')
            return None
        seen.add(v)
        return mk('agg', a.a[0], a.a[1], a.a[2], *[over.get(n, x) for n, x in zip(a.a[2], a.a[3:])])

    def F(v, n):
        return fld(b, v + '.' + n)

    def verdict(key, low, want, asserts=(), note=''):
        got = low.values()
        ctx.ob('value:' + key, got is not None and want is not None and got == {tuple(fz(x) for x in want)},
               '%s: %s becomes %s instead of %s%s' % (RULE, key, shows(low, got), ', '.join(low.s.show(x) for x in want or ()), note), w)
        cons(key, low, asserts)

    def shows(low, got):
        if got is None:
            return '?'
        return ' | '.join('error' if g == 'Err' else '?' if g is None else ', '.join(low.s.show(dict(p)) for p in g) for g in got) or 'nothing'

    def cons(key, low, asserts):
        have = {}
        for e in low.evs('assert'):
            for p_ in each_literal(low, e.args[2], e.known):
                have[normed(p_)] = have.get(normed(p_), False) or low.free(e)
        want = {normed(x) for x in asserts}
        miss = [x for x in asserts if not have.get(normed(x))]
        ctx.ob('asserts:' + key, not miss, '%s: lowering %s does not assert %s = 0 on every path' % (RULE, key, '; '.join(low.s.show(x) for x in miss)), w)
        extra = [x for x in have if x not in want and x != ()]
        ctx.ob('no other assertion:' + key, not extra, '%s: lowering %s asserts %s = 0, which the instruction does not demand' % (RULE, key, '; '.join(low.s.show(dict(x)) for x in extra)), w)
        basis = [x for x in asserts]
        bad = []
        for e in low.evs('mark'):
            for p_ in each_literal(low, e.args[2], e.known):
                if reduce(p_, basis):
                    bad.append(low.s.show(p_))
        ctx.ob('marks:' + key, not bad, '%s: lowering %s takes %s = 0 for granted, which does not follow from what it asserts' % (RULE, key, '; '.join(bad)), w)

    def copied(v):
        a = arg(v)
        if a is None:
            return
        low = Low(ctx, body, a)
        outs = low.outs()
        why = []
        good = bool(outs)
        n = 0
        for o in outs:
            for i in (alts(undv(o.a[3])) if o.op == 'agg' and o.a[1] == 'Insn' else [None]):
                i = undv(i) if i is not None else None
                if i is None or i.op != 'agg' or i.a[1] != v:
                    good = False
                    continue
                n += 1
                for fn, fv in zip(i.a[2], i.a[3:]):
                    if not same_as(prog, fv, F(v, fn), why):
                        good = False
                        why.append('%s is %s' % (fn, show(fv)[:80]))
        ctx.ob('copied:' + v, good and n, '%s: %s is not lowered to itself: %s' % (RULE, v, '; '.join(why)[:300] or show(low.ret)[:200] if low.ret is not None else 'no result'), w)
        cons(v, low, ())

    for v in ('LinComb', 'Mul', 'Hint', 'ConstantLike', 'SubCircuitCall', 'CustomGate'):
        copied(v)

    def hint(low, name, ins, n=1):
        return low.s.atom(('hint', BH.get(name), tuple(fz(x) for x in ins), n))

    # division
    x, y = F('Div', 'x'), F('Div', 'y')
    cv = sym('cv')
    for chk in (True, False):
        a = arg('Div', checked=A.A_TRUE if chk else A.A_FALSE)
        for zero in (True, False):
            low = Low(ctx, body, a, {y: some(cv)}, fn=lambda t, z=zero: k(z) if t.op == 'call' and cn(t) == 'is_zero' and undv(nosite(t)[0]) is cv else None)
            if zero:
                ctx.ob('value:Div by the constant zero:%s' % chk, low.values() in ({'Err'}, set()), '%s: dividing by the constant zero is not an error: %s' % (RULE, shows(low, low.values())), w)
            else:
                verdict('Div by a constant:%s' % chk, low, [pmul(low.s.ev(x), low.s.coef(mk('call', 'inv', cv)))])
        low = Low(ctx, body, a, {y: NONE})
        X, Y = low.s.ev(x), low.s.ev(y)
        if chk:
            h = hint(low, 'Div', [const(1), Y])
            verdict('checked Div', low, [pmul(X, h)], [padd(pmul(Y, h), const(1), -1)])
        else:
            h = hint(low, 'Div', [X, Y])
            verdict('unchecked Div', low, [h], [padd(pmul(Y, h), X, -1)])
    # boolean operations
    x, y = F('BoolBinOp', 'x'), F('BoolBinOp', 'y')
    want = {'And': lambda X, Y: pmul(X, Y), 'Or': lambda X, Y: padd(padd(X, Y), pmul(X, Y), -1),
            'Xor': lambda X, Y: padd(padd(X, Y), pmul(const(2), pmul(X, Y)), -1)}
    ops = [v['name'] for v in prog.adts[SRC + 'BoolBinOpType']['variants']]
    ctx.ob('boolean operations known', set(ops) == set(want), 'boolean operations %s' % ops)
    for op in ops:
        if op not in want:
            continue
        low = Low(ctx, body, arg('BoolBinOp', op=agg_of(prog, SRC + 'BoolBinOpType', op)))
        X, Y = low.s.ev(x), low.s.ev(y)
        verdict('BoolBinOp ' + op, low, [want[op](X, Y)], [padd(pmul(X, X), X, -1), padd(pmul(Y, Y), Y, -1)])
    # zero test
    x = F('IsZero', '0')
    a = arg('IsZero')
    for zero in (True, False):
        low = Low(ctx, body, a, {x: some(cv)}, fn=lambda t, z=zero: k(z) if t.op == 'call' and cn(t) == 'is_zero' and undv(nosite(t)[0]) is cv else None)
        verdict('IsZero of a constant:%s' % zero, low, [const(1) if zero else {}])
    low = Low(ctx, body, a, {x: NONE})
    X = low.s.ev(x)
    m = padd(const(1), pmul(X, hint(low, 'Div', [const(1), X])), -1)
    verdict('IsZero', low, [m], [pmul(X, m)])
    # randomness
    low = Low(ctx, body, arg('Commit'))
    o = low.outs()
    ctx.ob('value:Commit', bool(o) and all(x_.op == 'agg' and x_.a[1] == 'Insn' and undv(x_.a[3]).op == 'agg' and undv(x_.a[3]).a[1] == 'ConstantLike' and
                                           all(c.op == 'agg' and c.a[1] == 'Random' for c in map(undv, alts(undv(undv(x_.a[3]).a[3])))) for x_ in o),
           '%s: Commit does not become a fresh random value: %s' % (RULE, show(low.ret)[:200] if low.ret is not None else None), w)
    cons('Commit', low, ())
    # unconstrained operations
    x, y = F('UnconstrainedBinOp', 'x'), F('UnconstrainedBinOp', 'y')
    ut = SRC + 'UnconstrainedBinOpType'
    ev = next((q for q in prog.bodies if q.startswith(ut) and q.endswith('::eval')), None)
    ctx.need(ev is not None, 'UnconstrainedBinOpType::eval', 'constant folding of unconstrained operations')
    cx, cy = sym('cx'), sym('cy')
    ops = [v['name'] for v in prog.adts[ut]['variants']]
    for op in ops:
        o = agg_of(prog, ut, op)
        a = arg('UnconstrainedBinOp', op=o)
        for kx, ky in ((NONE, NONE), (some(cx), NONE), (NONE, some(cy))):
            low = Low(ctx, body, a, {x: kx, y: ky}, opaque=(ev,) if ev else ())
            verdict('UnconstrainedBinOp %s:%s%s' % (op, 'c' if kx is not NONE else 'v', 'c' if ky is not NONE else 'v'), low, [hint(low, op, [low.s.ev(x), low.s.ev(y)])])
        low = Low(ctx, body, a, {x: some(cx), y: some(cy)}, opaque=(ev,) if ev else ())
        good = bool(low.outs())
        for r in low.outs():
            if r.op == 'agg' and r.a[1] == 'Err':
                e = undv(r.a[3])
                good &= e.op == 'fld' and e.a[1] == 'Err.0' and evalcall(e.a[0], op, cx, cy)
                continue
            i = undv(r.a[3]) if r.op == 'agg' and r.a[1] == 'Insn' else None
            c = undv(i.a[3]) if i is not None and i.op == 'agg' and i.a[1] == 'ConstantLike' else None
            v = undv(c.a[3]) if c is not None and c.op == 'agg' and c.a[1] == 'Constant' else None
            good &= v is not None and v.op == 'fld' and v.a[1] == 'Ok.0' and evalcall(v.a[0], op, cx, cy)
        ctx.ob('value:UnconstrainedBinOp %s:cc' % op, good, '%s: %s of two constants is not folded to its value: %s' % (RULE, op, show(low.ret)[:200] if low.ret is not None else None), w)
        cons('UnconstrainedBinOp %s:cc' % op, low, ())
    # selection
    c_, t_, f_ = (F('UnconstrainedSelect', n) for n in ('cond', 'if_true', 'if_false'))
    a = arg('UnconstrainedSelect')
    for zero in (True, False):
        low = Low(ctx, body, a, {c_: some(cv)}, fn=lambda t, z=zero: k(z) if t.op == 'call' and cn(t) == 'is_zero' and undv(nosite(t)[0]) is cv else None)
        verdict('UnconstrainedSelect by a constant:%s' % zero, low, [low.s.ev(f_ if zero else t_)])
    low = Low(ctx, body, a, {c_: NONE})
    verdict('UnconstrainedSelect', low, [hint(low, 'Select', [low.s.ev(z) for z in (c_, t_, f_)])])
    # binary decomposition
    low = Low(ctx, body, arg('ToBinary'))
    tobinary(ctx, low, BH, F('ToBinary', 'x'), F('ToBinary', 'num_bits'), w)
    names = {v['name'] for v in prog.adts[adt]['variants']}
    ctx.ob('every source instruction considered', seen == names, 'source instructions %s' % sorted(names ^ seen), w)


def each_literal(low, t, known=()):
    """the polynomials a term stands for, one per element of the literal array it iterates over"""
    over = set()
    for c, v in known:
        if v == 'Some' and undv(c).op == 'phi':
            for y in alts(undv(c)):
                y = undv(y)
                if y.op == 'agg' and y.a[1] == 'Some' and len(y.a) == 4:
                    over.add(undv(y.a[3]))
    for x in subterms(t):
        if x.op == 'phi' and x in over:
            return [p for y in alts(x) for p in each_literal(low, rewrite(t, lambda z, x=x, y=y: undv(y) if z is x else z), known)]
        if x.op == 'elem':
            xs = seqof(x.a[0])
            if xs is not None:
                return [p for y in xs for p in each_literal(low, rewrite(t, lambda z, x=x, y=y: undv(y) if z is x else z), known)]
    return [low.s.ev(t)]


def evalcall(t, op, cx, cy):
    t = undv(t)
    if not (t.op == 'call' and cn(t) == 'eval'):
        return False
    a = [undv(x) for x in nosite(t)]
    return len(a) == 3 and a[0].op == 'agg' and a[0].a[1] == op and a[1] is cx and a[2] is cy


def tobinary(ctx, low, BH, x, nb, w):
    s = low.s
    key = 'ToBinary'
    outs = low.outs()
    bits = undv(outs[0].a[3]) if len(outs) == 1 and outs[0].op == 'agg' and outs[0].a[1] == 'Vars' else None
    while bits is not None and bits.op == 'call' and cn(bits) in ('to_vec', 'clone'):
        bits = undv(nosite(bits)[0])
    i = undv(nosite(bits)[1]) if bits is not None and bits.op == 'call' and cn(bits) == 'push_insn_multi_out' else None
    f = dict(zip(i.a[2], i.a[3:])) if i is not None and i.op == 'agg' and i.a[1] == 'Hint' else {}
    ins = seqof(f['inputs']) if f else None
    ctx.ob('value:' + key, bool(f) and hid(f['hint_id']) == BH.get('ToBinary') and ins is not None and [undv(z) for z in ins] == [x] and undv(f['num_outputs']) is nb,
           '%s: the bits of ToBinary are not the %s outputs of the ToBinary hint of the operand: %s' % (RULE, show(nb), show(low.ret)[:200] if low.ret is not None else None), w)
    if bits is None:
        return
    bit = elem(bits)
    B = s.ev(bit)
    # every bit is boolean
    allb = False
    for e in low.evs('assert'):
        if normed(s.ev(e.args[2])) == normed(padd(pmul(B, B), B, -1)) and eachof(low, e, bits):
            allb = True
    ctx.ob('asserts:%s:bits' % key, allb, '%s: not every bit of ToBinary is asserted to be boolean' % RULE, w)
    # their weighted sum is the operand
    acc = {}
    for fr_, h, r, mu, init, step in c14.loops(low.fr):
        acc[undv(mu)] = (undv(init), undv(step))
    good = False
    others = []
    for e in low.evs('assert'):
        p = s.ev(e.args[2])
        if normed(p) == normed(padd(pmul(B, B), B, -1)):
            continue
        others.append(p)
        if not low.free(e):
            continue
        for mu, (init, step) in acc.items():
            M = s.ev(mu)
            if normed(p) != normed(padd(s.ev(x), M, -1)) or s.ev(init) != {}:
                continue
            d = padd(s.ev(step), M, -1)
            # M' = M + k*bit with k doubling from one
            for nu, (i2, s2) in acc.items():
                if nu is mu:
                    continue
                K = s.coef(nu)
                if d == pmul(K, B) and s.coef(i2) == const(1) and s.coef(s2) == pmul(const(2), K):
                    good = True
    ctx.ob('asserts:%s:sum' % key, good, '%s: the operand of ToBinary is not asserted to be the sum of its bits weighted by the powers of two' % RULE, w)
    ctx.ob('no other assertion:' + key, len(others) == 1, '%s: lowering ToBinary asserts %s' % (RULE, '; '.join(s.show(p) for p in others)), w)
    ctx.ob('marks:' + key, not low.evs('mark'), '%s: lowering ToBinary takes constraints for granted' % RULE, w)


def eachof(low, e, coll):
    """the event happens for every element of the collection"""
    ex = low.fr.exit_state.known if low.fr.exit_state is not None else ()
    n = 0
    for c, v in e.known:
        u = undv(c)
        if v == 'Some' and is_next(u, coll):
            n += 1
            continue
        if (c, v) in ex or c in (A.A_TRUE, A.A_FALSE) or v == 'Some' and u.op == 'call' and cn(u) in PUSH:
            continue
        if not unconditional([(c, v)]):
            return False
    return n > 0


def is_next(u, coll):
    """the option a plain iteration over the collection yields"""
    for x in alts(u):
        x = undv(x)
        if x.op == 'agg' and x.a[1] == 'Some':
            if undv(x.a[3]) is not elem(coll) and undv(x.a[3]) is not undv(elem(coll)):
                return False
        elif not (x.op == 'agg' and x.a[1] == 'None'):
            return False
    return True


def check(ctx):
    instructions(ctx)
    constraints(ctx)
    core(ctx)
    exprs(ctx)
    algebra(ctx)
    executing(ctx)
    final(ctx)
    ctx.floor('obligations', ctx.obligations, 480)


def constraints(ctx):
    prog = ctx.prog
    p = impl(ctx, 'transform_in_con_to_out', PRE)
    if not ctx.need(p is not None, 'hint_normalize constraints', 'transform_in_con_to_out of the hint normalising builder'):
        return
    body = ctx.body(p)
    BH = discr(prog, next((a for a in prog.adts if a.endswith('hints::builtin::BuiltinHintIds') or a.endswith('::BuiltinHintIds')), None))
    w = where(body)
    ct = SRC + 'ConstraintType'
    c = agg_of(prog, SRC + 'Constraint', 'Constraint', base=sym('insn'))
    if not ctx.need(c is not None, 'source constraint', 'struct Constraint'):
        return
    var = fld(sym('insn'), 'var')
    kinds = [v['name'] for v in prog.adts[ct]['variants']]
    ctx.ob('constraint kinds known', set(kinds) == {'Zero', 'NonZero', 'Bool'}, 'constraint kinds %s' % kinds)
    for kd in kinds:
        a = mk('agg', c.a[0], c.a[1], c.a[2], *[agg_of(prog, ct, kd) if n == 'typ' else x for n, x in zip(c.a[2], c.a[3:])])
        low = Low(ctx, body, a)
        V = low.s.ev(var)
        h = low.s.atom(('hint', BH.get('Div'), (fz(const(1)), fz(V)), 1))
        want = {'Zero': V, 'Bool': padd(pmul(V, V), V, -1), 'NonZero': padd(pmul(V, h), const(1), -1)}.get(kd)
        got = [low.s.ev(o.a[3]) if o.op == 'agg' and o.a[1] == 'Ok' else None for o in low.outs()]
        ctx.ob('constraint:' + kd, want is not None and bool(got) and all(g is not None and normed(g) == normed(want) for g in got),
               '%s: a %s constraint becomes %s = 0 instead of %s = 0' % (RULE, kd, ' | '.join('?' if g is None else low.s.show(g) for g in got), low.s.show(want) if want else '?'), w)
        ctx.ob('constraint marks:' + kd, not low.evs('mark') and not low.evs('assert'), '%s: lowering a %s constraint asserts or marks something else' % (RULE, kd), w)


# ---- the generic builder -------------------------------------------------------------------------------------------
BASIC = EC + 'builder::basic::'
ROOT = 'processing: every instruction, constraint and output is carried through'


def opq_of(prog, path, mods=('builder::basic', 'circuit::ir::expr', 'utils::pool', 'utils::misc::topo_order', 'builder::final_build'), keep=()):
    return tuple(p for p in prog.bodies if any(m in p for m in mods) and p != path and '{' not in p and p not in keep) + \
        tuple(p for p in prog.bodies if p.endswith('::topo_order'))


class Run:
    def __init__(self, ctx, path, names, args=None, fn=None, keep=(), nonempty=lambda s: True, mem=None):
        self.body = ctx.body(path)
        self.path = path
        self.names = list(names)
        self.fr = None
        if self.body is None:
            return
        self.I, self.fr = counterfactual(ctx, self.body, names=list(names), args=args, fn=fn, nonempty=nonempty, mem=mem, opaque=opq_of(ctx.prog, path, keep=keep))
        self.w = where(self.body)

    @property
    def ret(self):
        return undv(self.I.snap(self.fr.exit_state, self.fr.ret)) if self.fr.ret is not None else None

    def plain(self, known, but=()):
        ex = self.fr.exit_state.known if self.fr.exit_state is not None else ()
        return unconditional([c for c in known if c not in ex and c[0] not in (A.A_TRUE, A.A_FALSE) and show(c[0]) != 'assumed' and not any(b(c) for b in but)])

    def calls(self, *names):
        return [e for e in events(self.fr) if e.path.rsplit('::', 1)[-1] in names or e.canon.rsplit('::', 1)[-1] in names]

    def pushes(self, kinds=('push', 'insert', 'sinsert')):
        return [it for _f, _b, it in items(self.fr, *kinds)]

    def ok(self):
        """payloads of the successful results"""
        out = []
        for x in alts(self.ret) if self.ret is not None else []:
            x = undv(x)
            if x.op == 'agg' and x.a[1] == 'Ok':
                out += [undv(y) for y in alts(undv(x.a[3]))]
        return out

    def success(self):
        return success(self.I, self.fr)


def F_(t, *ns):
    for n in ns:
        t = fld(t, n)
    return t


def clov(ctx, clo, *args):
    """the value of a closure on the given arguments"""
    clo = undv(clo)
    if clo.op != 'clo':
        return None
    p = clo.a[0]
    b = ctx.prog.bodies.get(p if isinstance(p, str) else getattr(p, 'path', None))
    if b is None:
        return None
    I = A.Interp(ctx.prog, opaque=(), budget=50000)
    x = sym('clo_arg')
    fr = I.run(b, args=dict([(0, clo)] + list(enumerate(args, 1))))
    return undv(I.snap(fr.exit_state, fr.ret)) if fr.ret is not None else None


def stripsort(t):
    return rewrite(t, lambda x: undv(x.a[0]) if x.op == 'part' and kval(x.a[1]) == 'sorted' else x)


def erragg(val=None):
    return mk('agg', 'core::result::Result', 'Err', ('0',), val or sym('err'))


def core(ctx):
    prog = ctx.prog
    S, X = sym('self'), sym('x')
    it_ = lambda t, s: undv(t) is s

    # one instruction
    r = Run(ctx, BB + 'process_insn', ['self', 'x', 'root'])
    if r.fr is not None:
        tr = r.calls('transform_in_to_out')
        rv = undv(tr[0].args[1]) if len(tr) == 1 else None
        good = rv is not None and rv.op == 'call' and cn(rv) == 'replace_vars' and undv(nosite(rv)[0]) is X and r.plain(tr[0].known)
        cl = clov(ctx, nosite(rv)[1], sym('v')) if good else None
        ctx.ob('insn:operands', good and cl is not None and cl is mk('at', F_(S, 'in_to_out'), sym('v')),
               '%s: an instruction is not lowered with its operands replaced by their images: %s' % (ROOT, show(cl) if cl is not None else show(rv)[:200] if rv is not None else None), r.w)
        if len(tr) == 1:
            T0 = undv(tr[0].ret)

            def only(v):
                return Run(ctx, BB + 'process_insn', ['self', 'x', 'root'],
                           fn=lambda t: agg_of(prog, BASIC + 'InsnTransformResult', v, base=sym('res')) if t.op == 'call' and cn(t) == 'transform_in_to_out' else None)
            e = only('Err')
            ctx.ob('insn:error', not e.success() and not [p for p in e.pushes() if root_field(p[3]) == 'in_to_out'], '%s: an error while lowering an instruction is not returned' % ROOT, r.w)
            i = only('Insn')
            pi = i.calls('push_insn_with_root')
            R = fld(sym('res'), 'Insn.0')
            ctx.ob('insn:emitted', len(pi) == 1 and undv(pi[0].args[1]) is R and i.plain(pi[0].known) and undv(pi[0].args[0]) is S,
                   '%s: the lowered instruction is not added to the circuit exactly once' % ROOT, r.w)
            ps = [p for p in i.pushes() if root_field(p[3]) == 'in_to_out']
            n0 = mk('call', 'len', F_(S, 'out_var_exprs'))
            ctx.ob('insn:outputs', len(ps) == 1 and i.plain(ps[0][5]) and matches(ps[0][4], [(n0, nout(v)) for v in (X, R)]),
                   '%s: the outputs of a lowered instruction are not mapped to the new variables in order: %s' % (ROOT, [show(p[4])[:120] for p in ps]), r.w)
            v_ = only('Vars')
            ps = [p for p in v_.pushes() if root_field(p[3]) == 'in_to_out']
            V = fld(sym('res'), 'Vars.0')
            ctx.ob('insn:copies', len(ps) == 1 and v_.plain(ps[0][5]) and undv(ps[0][4]) in (V, elem(V)), '%s: the variables an instruction is replaced by are not taken over: %s' % (ROOT, [show(p[4])[:120] for p in ps]), r.w)
    # one constraint
    r = Run(ctx, BB + 'process_con', ['self', 'x'])
    if r.fr is not None:
        tr = r.calls('transform_in_con_to_out')
        rv = undv(tr[0].args[1]) if len(tr) == 1 else None
        good = rv is not None and rv.op == 'call' and cn(rv) == 'replace_var' and undv(nosite(rv)[0]) is X and r.plain(tr[0].known)
        cl = clov(ctx, nosite(rv)[1], sym('v')) if good else None
        ctx.ob('con:operand', good and cl is not None and cl is mk('at', F_(S, 'in_to_out'), sym('v')), '%s: a constraint is not lowered on the image of its variable' % ROOT, r.w)
        a = r.calls('assert')
        a = [e for e in a if e.path == BB + 'assert']
        C = fld(undv(tr[0].ret), 'Ok.0') if tr else None
        good = len(a) == 1 and C is not None and r.plain(a[0].known)
        good = good and [undv(z) for z in a[0].args[1:3]] == [undv(x) for x in (mk('call', undv(a[0].args[1]).a[0], C), mk('call', undv(a[0].args[2]).a[0], C))] and \
            [cn(undv(z)) for z in a[0].args[1:3]] == ['typ', 'var']
        ctx.ob('con:asserted', good, '%s: a lowered constraint is not asserted on every path with its kind and variable' % ROOT, r.w)
        e = Run(ctx, BB + 'process_con', ['self', 'x'], fn=lambda t: erragg() if t.op == 'call' and cn(t) == 'transform_in_con_to_out' else None)
        ctx.ob('con:error', not e.success(), '%s: an error while lowering a constraint is not returned' % ROOT, r.w)
    # asserting and marking
    for nm, want in (('assert', 'Asserted'), ('mark', 'Marked')):
        r = Run(ctx, BB + nm, ['self', 'typ', 'var'])
        if r.fr is None:
            continue
        key = mk('at', F_(S, 'out_var_exprs'), sym('var'))
        ins = [p for p in r.pushes(('insert',)) if undv(p[4]).op == 'tup' and status(undv(p[4]).a[1])]
        other = [p for p in r.pushes(('st',)) if status(p[2])]
        right = [p for p in ins if status(undv(p[4]).a[1]) == {want} and undv(undv(p[4]).a[0]) is key and under(p[3], F_(S, 'constraints'), sym('typ'))]
        ctx.ob('%s:recorded' % nm, bool(right) and any(r.plain(p[5], but=(absent,)) for p in right), '%s: %s does not record the constraint under its kind and expression' % (ROOT, nm), r.w)
        ctx.ob('%s:nothing else' % nm, len(right) == len(ins), '%s: %s records another constraint' % (ROOT, nm), r.w)
        # a constraint that has been asserted stays asserted
        weak = [p for p in ins if 'Marked' in status(undv(p[4]).a[1]) and not (len(p) > 8 and p[8] == 'vacant') and not any(absent(c) for c in p[5])]
        weak += [p for p in other if 'Marked' in status(p[2])]
        ctx.ob('%s:keeps assertions' % nm, not weak, '%s: %s can turn a constraint that has been asserted into one taken for granted' % (ROOT, nm), r.w)
    # one circuit
    cc = Run(ctx, BASIC + 'process_circuit', ['root', 'id', 'c'])
    if cc.fr is not None:
        C = sym('c')
        ok = cc.ok()
        B = None
        good = bool(ok)
        why = ''
        for o in ok:
            if o.op != 'tup' or len(o.a) != 2:
                good = False
                continue
            B = undv(o.a[1])
            f = dict(zip(undv(o.a[0]).a[2], undv(o.a[0]).a[3:])) if undv(o.a[0]).op == 'agg' else {}
            good &= bool(f) and undv(f['instructions']) is F_(B, 'out_insns') and undv(f['num_inputs']) is F_(C, 'num_inputs')
            good &= bool(f) and elems(f['outputs']) == {mk('at', F_(B, 'in_to_out'), elem(F_(C, 'outputs')))}
        ctx.ob('circuit:result', good, '%s: the processed circuit does not consist of the emitted instructions, the images of the outputs and the same number of inputs' % ROOT, cc.w)
        for nm, fldn in (('process_insn', 'instructions'), ('process_con', 'constraints')):
            es = cc.calls(nm)
            ctx.ob('circuit:every %s' % fldn, len(es) == 1 and undv(es[0].args[1]) is elem(F_(C, fldn)) and B is not None and undv(es[0].args[0]) is B and each(cc, es[0].known, F_(C, fldn)),
                   '%s: not every one of the %s of a circuit is processed' % (ROOT, fldn), cc.w)
            e = Run(ctx, BASIC + 'process_circuit', ['root', 'id', 'c'], fn=lambda t, n=nm: erragg() if t.op == 'call' and cn(t) == n else None)
            ctx.ob('circuit:error of %s' % nm, not e.success(), '%s: an error of %s is not returned' % (ROOT, nm), cc.w)
            late = [p for p in e.pushes() if undv(p[4]).op == 'call' and cn(undv(p[4])) == 'new']
            ctx.ob('circuit:%s before the constraints are collected' % nm, not late, '%s: constraints are collected before all %s are processed' % (ROOT, fldn), cc.w)
        ai = cc.calls('add_input')
        ctx.ob('circuit:inputs', len(ai) == 1 and B is not None and undv(ai[0].args[0]) is B and cc.plain(ai[0].known), '%s: the inputs of the circuit are not added' % ROOT, cc.w)
        e = Run(ctx, BASIC + 'process_circuit', ['root', 'id', 'c'], fn=lambda t: erragg() if t.op == 'call' and cn(t) == 'process_insn' else None)
        ctx.ob('circuit:inputs first', len(e.calls('add_input')) == 1 and e.fr.exit_state is not None, '%s: the inputs are not added before the instructions' % ROOT, cc.w)
        if B is not None:
            con = F_(B, 'constraints')
            ps = []
            for p in cc.pushes(('push',)):
                v = undv(p[4])
                if v.op == 'call' and cn(v) == 'new' and len(nosite(v)) == 2:
                    ps.append((p, stripsort(nosite(v)[0]), undv(nosite(v)[1])))
            typ, kx = fld(elem(con), '0'), fld(elem(fld(elem(con), '1')), '0')
            good = False
            for p, var, ty in ps:
                vv = undv(var)
                okv = vv.op in ('at', 'get', 'lookup') and undv(vv.a[0]) is F_(B, 'mid_expr_to_out') and undv(vv.a[1]) is undv(kx) and ty is undv(typ)
                good |= okv and cc.plain(p[5], but=(lambda c: c[1] == 'Asserted' or c[1] is False and 'Marked' in str(c[0]), own_key))
            ctx.ob('circuit:every assertion', good, '%s: not every asserted constraint is written to the processed circuit under its kind and the variable holding its expression' % ROOT, cc.w)
    # the root circuit
    rc = Run(ctx, BASIC + 'process_root_circuit', ['rc'])
    if rc.fr is not None:
        roots(ctx, rc, lambda **kw: Run(ctx, BASIC + 'process_root_circuit', ['rc'], **kw), BASIC, None)


def nout(v):
    return mk('call', 'num_outputs', v)


def A_plus(a, b):
    return mk('bin', 'Add', a, b)


def matches(t, forms):
    """base + index of a range of the given length"""
    t = undv(t)
    if t.op == 'bin' and t.a[0] == 'Add':
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            x, y = undv(x), undv(y)
            if y.op == 'ridx' and kval(undv(y.a[0])) == 0:
                for b, n in forms:
                    h = undv(y.a[1])
                    if x is b and h.op == 'call' and cn(h) == 'num_outputs' and undv(nosite(h)[0]) is undv(n.a[1]):
                        return True
    return False


def root_field(t):
    t = undv(t)
    while t.op in ('seq', 'mod', 'upd') and isinstance(t.a[0], T):
        t = undv(t.a[0])
    return t.a[1] if t.op == 'fld' else None


def status(t):
    s = set()
    for x in alts(undv(t)):
        x = undv(x)
        if x.op == 'agg' and x.a[0].endswith('ConstraintStatus'):
            s.add(x.a[1])
    return s


def absent(c):
    """no constraint has been recorded under this key, or it is one taken for granted"""
    t, v = c
    t = undv(t)
    return v == 'None' and t.op in ('get', 'lookup', 'call', 'phi', 'at') or v == 'Vacant' or v == 'Marked' or v is False and t.op == 'call' and cn(t) == 'contains_key'


def own_key(c):
    """the key was taken from the map itself"""
    t = undv(c[0])
    return c[1] is True and t.op == 'call' and cn(t) == 'contains_key' and stripsort(undv(nosite(t)[1])) is fld(elem(undv(nosite(t)[0])), '0')


def under(base, coll, key):
    """the map stored in coll under key"""
    good = False
    for x in alts(undv(base)):
        x = undv(x)
        while x.op in ('seq', 'mod', 'upd') and isinstance(x.a[0], T):
            x = undv(x.a[0])
        if len(x.a) == 2 and isinstance(x.a[0], T) and undv(x.a[0]) is coll:
            if undv(x.a[1]) is not key:
                return False
            good = True
    return good


def each(r, known, coll):
    """holds for every element of the collection"""
    n = 0
    ex = r.fr.exit_state.known if r.fr.exit_state is not None else ()
    for c, v in known:
        if v == 'Some' and is_next(undv(c), coll):
            n += 1
            continue
        if (c, v) in ex or c in (A.A_TRUE, A.A_FALSE):
            continue
        if not unconditional([(c, v)]):
            return False
    return n > 0


def roots(ctx, rc, again, mod, export):
    key = short(rc.path).replace('builder::', '')
    R = sym('rc')
    ok = rc.ok()
    f = dict(zip(ok[0].a[2], ok[0].a[3:])) if len(ok) == 1 and ok[0].op == 'agg' else {}
    ctx.ob('%s:header' % key, bool(f) and undv(f['num_public_inputs']) is F_(R, 'num_public_inputs') and undv(f['expected_num_output_zeroes']) is F_(R, 'expected_num_output_zeroes'),
           '%s: the number of public inputs or of expected zero outputs changes' % ROOT, rc.w)
    es = rc.calls('process_circuit')
    topo = [e for e in events(rc.fr) if e.path.endswith('::topo_order')]
    good = len(es) == 1 and len(topo) == 1
    if not ctx.ob('%s:every circuit' % key, good, '%s: the circuits are not processed by one loop over the topological order' % ROOT, rc.w):
        return
    e = es[0]
    n = len(e.args)
    ident = [stripsort(x) for x in e.args[1:]]
    order = undv(topo[0].ret)
    circ = ident[-1]
    cid = undv(circ.a[1]) if circ.op in ('at', 'get', 'lookup') and undv(circ.a[0]) is F_(R, 'circuits') else None
    ctx.ob('%s:circuit of its id' % key, cid is not None and base_of(cid) is order and (n < 3 or base_of(ident[0]) is order), '%s: the circuit processed is not the one of the id: %s' % (ROOT, show(circ)[:160]), rc.w)
    ctx.ob('%s:unconditionally' % key, rc.plain(only_iteration(e.known)), '%s: not every circuit is processed' % ROOT, rc.w)
    res = fld(undv(e.ret), 'Ok.0')
    ins = rc.pushes(('insert',))
    got = [p for p in ins if undv(p[4]).op == 'tup' and base_of(undv(p[4]).a[0]) is order]
    for i, what in ((0, 'the processed circuit'), (1, 'its builder')):
        good = any(undv(undv(p[4]).a[1]) is undv(fld(res, str(i))) and rc.plain(p[5]) for p in got)
        ctx.ob('%s:%s is kept' % (key, what), good, '%s: %s is not stored under the id of the circuit' % (ROOT, what), rc.w)
    x = again(fn=lambda t: erragg() if t.op == 'call' and cn(t) == 'process_circuit' else None)
    ctx.ob('%s:error' % key, not x.success(), '%s: an error while processing a circuit is not returned' % ROOT, rc.w)


def base_of(t):
    t = undv(t)
    while t.op in ('elem', 'part', 'at', 'rev') or t.op == 'fld' and t.a[1] in ('Some.0',):
        t = undv(t.a[0])
    return t


# ---- expressions of the variables being built -----------------------------------------------------------------------
EXPR = EC + 'circuit::ir::expr::'
LOW = 'builder: the expression recorded for a variable is what its instruction computes'


SEM = Sem()


def cf(t):
    return fz(SEM.coef(t))


def pick(t, want):
    """the alternative of a loop-carried term that was there before the loop"""
    def one(x):
        if x.op == 'phi':
            c = [y for y in alts(x) if any(want(z) for z in subterms(y))]
            if len(c) == 1:
                return c[0]
        return x
    return rewrite(t, one)


def newlin(t):
    """(coefficient, variable) of a linear term or expression"""
    t = undv(t)
    if t.op == 'call' and cn(t) == 'new_linear':
        return [undv(x) for x in nosite(t)]
    return None


def bounds_(c):
    """an index is in range"""
    t = undv(c[0])
    return t.op == 'bin' and t.a[0] in ('Lt', 'Le') and c[1] is True and any(undv(y).op == 'call' and cn(undv(y)) == 'len' for y in t.a[1:])


def rest_from(t, coll, n):
    """every element of (an ordering of) the collection after the first n"""
    t = undv(t)
    if t.op == 'part':
        d = undv(t.a[1])
        return d.op == 'tup' and [kval(undv(y)) for y in d.a] == ['skip', n] and ispart(t.a[0], coll)
    if t.op == 'at':
        b, i = undv(t.a[0]), undv(t.a[1])
        lens = [y for y in subterms(i.a[1]) if y.op == 'call' and cn(y) == 'len'] if i.op == 'ridx' else []
        own = b is coll or any(ispart(x, coll) for x in elems(b))
        return own and i.op == 'ridx' and kval(undv(i.a[0])) == n and i.a[2] == 'Range' and len(lens) == 1 and undv(i.a[1]) is lens[0]
    if t.op == 'phi':
        xs = [undv(x) for x in alts(t)]
        return bool(xs) and all(rest_from(x, coll, n) for x in xs)
    return False


def ispart(t, coll):
    """an element of (a part of) the collection"""
    t = undv(t)
    while t.op == 'part':
        t = undv(t.a[0])
    return t is elem(coll)


def exprs(ctx):
    prog = ctx.prog
    S, X, N = sym('self'), sym('x'), sym('n')
    ONE = const(1)
    ove, mids = F_(S, 'out_var_exprs'), F_(S, 'mid_vars')
    one_ = lambda t: cf(t) == fz(ONE)

    def ob(key, good, msg, r):
        return ctx.ob(key, bool(good), '%s: %s' % (LOW, msg), r.w)

    def pushed(r, field):
        return [p for p in r.pushes(('push', 'insert')) if root_field(p[3]) == field]

    def fixed(r, n):
        es = r.calls('fix_mid_to_out')
        return len(es) == 1 and r.plain(es[0].known) and undv(es[0].args[1]) is n

    # the empty builder
    r = Run(ctx, BB + 'new', ['id', 'c'])
    if r.fr is not None:
        f = dict(zip(undv(r.ret).a[2], undv(r.ret).a[3:])) if undv(r.ret).op == 'agg' else {}
        ob('new:the invalid variable', f and [kval(undv(x)) for x in seqof(f['in_to_out']) or ()] == [0] and len(seqof(f['out_var_exprs']) or ()) == 1, 'a new builder does not start with the invalid variable only', r)
        a = r.calls('add')
        p = [it for it in r.pushes(('push',)) if undv(it[4]).op == 'agg' and undv(it[4]).a[1] == 'None' and r.plain(it[5])]
        ob('new:reserved', len(a) == 1 and len(p) == 1, 'number 0 is not reserved for the invalid variable', r)
    # inputs
    r = Run(ctx, BB + 'add_input', ['self'])
    if r.fr is not None:
        n = F_(S, 'in_circuit', 'num_inputs')
        e = r.calls('add_out_vars')
        p = pushed(r, 'in_to_out')
        ob('inputs', len(e) == 1 and undv(e[0].args[1]) is n and r.plain(e[0].known) and len(p) == 1 and undv(p[0][4]) is mk('ridx', k(1), n, 'RangeInclusive'),
           'input i of the circuit is not variable i of the built circuit', r)
    # fresh variables
    r = Run(ctx, BB + 'new_var', ['self'])
    if r.fr is not None:
        e = r.calls('add')
        v = newlin(e[0].args[1]) if len(e) == 1 else None
        n = undv(r.ret)
        ob('fresh variable', v and one_(v[0]) and v[1] is n and n.op == 'call' and cn(n) == 'len' and undv(nosite(n)[0]) is mids and r.plain(e[0].known), 'a fresh variable is not the next number of the pool with coefficient one', r)
    r = Run(ctx, BB + 'add_out_vars', ['self', 'n'])
    if r.fr is not None:
        p = pushed(r, 'out_var_exprs')
        v = newlin(p[0][4]) if len(p) == 1 else None
        i = mk('ridx', k(0), N, 'Range')
        st = undv(v[1]) if v else None
        ln = next((undv(y) for y in st.a[1:] if undv(y) is not i), None) if st is not None and st.op == 'bin' and st.a[0] == 'Add' and any(undv(y) is i for y in st.a[1:]) else None
        good = ln is not None and ln.op == 'call' and cn(ln) == 'len' and undv(nosite(ln)[0]) is mids
        e = r.calls('new_var')
        ob('outputs are fresh variables', good and one_(v[0]) and r.plain(p[0][5]) and len(e) == 1 and r.plain(e[0].known), 'output i of an opaque instruction is not fresh variable start + i', r)
        ob('outputs are registered', fixed(r, N), 'the fresh output variables are not entered into the table of variables', r)
        m = r.calls('len')
        first = [x for x in m if undv(x.args[0]) is mids]
        ob('outputs:start', len(first) == 1 and not [c for c in first[0].known if c[1] == 'Some'], 'the first fresh variable is not taken before the variables are created', r)
    # linear combinations
    r = Run(ctx, BB + 'add_lin_comb', ['self', 'x'])
    if r.fr is not None:
        e = r.calls('lin_comb_inner')
        es = elems(e[0].args[0]) if len(e) == 1 else set()
        want = mk('at', ove, fld(elem(F_(X, 'terms')), 'var'))
        cst = [y for y in es if undv(y).op == 'call' and cn(undv(y)) == 'new_const' and undv(nosite(undv(y))[0]) is F_(X, 'constant')]
        ob('lincomb:terms', want in es and len(es) == 2 and len(cst) == 1, 'a linear combination is not formed from the expressions of its variables and its constant', r)
        cs = [it for it in r.pushes(('push',)) if undv(it[4]) in [undv(y) for y in cst]]
        ob('lincomb:constant', len(cs) == 1 and [(cn(undv(c)), v, undv(nosite(undv(c))[0]) is F_(X, 'constant')) for c, v in cs[0][5] if undv(c).op == 'call'] == [('is_zero', False, True)] and len(only_iteration(cs[0][5])) == 1,
           'the constant of a linear combination is dropped although it is not zero', r)
        if len(e) == 1:
            clo = undv(e[0].args[1])
            body = ctx.prog.bodies.get(clo.a[0] if isinstance(clo.a[0], str) else getattr(clo.a[0], 'path', None)) if clo.op == 'clo' else None
            vals = {}
            if body is not None:
                for inside in (True, False):
                    i_ = sym('i')
                    I, fr = counterfactual(ctx, body, names=['clo', 'i'], args={0: clo}, fn=lambda t, b=inside: (A.A_TRUE if b else A.A_FALSE) if t.op == 'bin' and t.a[0] == 'Lt' and undv(t.a[1]) is i_ and undv(t.a[2]) is mk('call', 'len', F_(X, 'terms')) else None, opaque=())
                    vals[inside] = undv(I.snap(fr.exit_state, fr.ret)) if fr.ret is not None else None
            ob('lincomb:coefficients', vals.get(True) is fld(mk('at', F_(X, 'terms'), sym('i')), 'coef') and vals.get(False) is not None and one_(vals[False]),
               'the coefficients of a linear combination are not those of its terms, and one for the constant', r)
            p = pushed(r, 'out_var_exprs')
            ob('lincomb:recorded', len(p) == 1 and undv(p[0][4]) is undv(e[0].ret) and r.plain(p[0][5]) and fixed(r, k(1)), 'the expression of a linear combination is not recorded', r)
    # products
    r = Run(ctx, BB + 'add_mul_vec', ['self', 'x'])
    if r.fr is not None:
        es = r.calls('mul_two_expr')
        at = [x for x in es if not [c for c in x.known if c[1] == 'Some']]
        lp = [x for x in es if x not in at]
        isop = lambda t: undv(t).op == 'at' and undv(undv(t).a[0]) is ove and ispart(undv(t).a[1], X)
        ix = sorted(kval(undv(it[4])) for _f, _b, it in items(r.fr, 'index') if undv(it[3]).op == 'seq' and isinstance(kval(undv(it[4])), int))
        ob('product:first two', len(at) == 1 and all(isop(y) for y in at[0].args[:2]) and ix == [0, 1], 'a product does not start from its first two operands', r)
        sk = undv(undv(lp[0].args[1]).a[1]) if len(lp) == 1 and undv(lp[0].args[1]).op == 'at' and undv(undv(lp[0].args[1]).a[0]) is ove else None
        some_ = {c for c in lp[0].known if c[1] == 'Some'} if len(lp) == 1 else set()
        byix = [undv(it[4]) for _f, _b, it in items(r.fr, 'index') if undv(it[3]).op == 'seq' and undv(it[4]).op == 'ridx' and some_ & set(it[5])]
        if sk is not None and sk.op == 'part' and byix and all(ispart(y, X) for x in [undv(it[3]) for _f, _b, it in items(r.fr, 'index') if undv(it[4]) in byix] for y in elems(x)):
            # the ordered operands are read by index
            sk = mk('at', [undv(it[3]) for _f, _b, it in items(r.fr, 'index') if undv(it[4]) in byix][0], byix[0])
        ob('product:the others', sk is not None and rest_from(sk, X, 2) and r.plain(lp[0].known, but=(bounds_,)), 'a product does not multiply in every further operand', r)
        p = pushed(r, 'out_var_exprs')
        good = len(p) == 1 and r.plain(p[0][5]) and fixed(r, k(1))
        mus = [x for x in subterms(p[0][4]) if x.op == 'mu'] if good else []
        same = bool(mus) and len(lp) == 1 and undv(lp[0].args[0]) is undv(p[0][4])
        ob('product:accumulated', good and same, 'the accumulated product is not what is recorded', r)
    r = Run(ctx, BB + 'add_const', ['self', 'x'])
    if r.fr is not None:
        p = pushed(r, 'out_var_exprs')
        v = undv(p[0][4]) if len(p) == 1 else None
        ob('constant', v is not None and v.op == 'call' and cn(v) == 'new_const' and undv(nosite(v)[0]) is X and fixed(r, k(1)) and r.plain(p[0][5]), 'the expression of a constant is not that constant', r)
    r = Run(ctx, BB + 'sub_circuit_call', ['self', 'id', 'x', 'n', 'root'])
    if r.fr is not None:
        e = r.calls('to_really_single')
        o = r.calls('add_out_vars')
        ob('call', len(e) == 1 and undv(e[0].args[1]) is mk('at', ove, elem(X)) and r.plain(e[0].known) and len(o) == 1 and undv(o[0].args[1]) is N and r.plain(o[0].known),
           'a sub-circuit call does not get one fresh variable per output', r)
    # emitting
    for nm in ('push_insn_with_root', 'push_insn_multi_out'):
        r = Run(ctx, BB + nm, ['self', 'x'] + (['root'] if nm.endswith('root') else []))
        if r.fr is None:
            continue
        p = pushed(r, 'out_insns')
        e = r.calls('execute_out')
        ob('%s:emitted' % nm, len(p) == 1 and undv(p[0][4]) is X and r.plain(p[0][5]) and len(e) == 1 and undv(e[0].args[1]) is X and r.plain(e[0].known),
           'an instruction is not emitted and executed exactly once', r)
        before = undv(e[0].args[0]) if e else None
        ob('%s:before executing' % nm, before is not None and any(undv(x) is X for x in elems(dict(before.a[1]).get('out_insns', S) if before.op == 'upd' else S)), 'an instruction is executed before it is emitted', r)
        no = mk('call', 'len', ove)
        if nm.endswith('root'):
            vs = [undv(y) for y in alts(r.ret)]
            vs = [undv(y.a[3]) for y in vs if y.op == 'agg' and y.a[1] == 'Some']
            g = len(vs) == 1 and cf(vs[0]) == cf(mk('bin', 'Sub', no, k(1)))
            one = Run(ctx, BB + nm, ['self', 'x', 'root'], fn=lambda t: k(1) if t.op == 'call' and cn(t) == 'num_outputs' else None)
            g &= one.fr is not None and all(undv(y).op == 'agg' and undv(y).a[1] == 'Some' for y in alts(one.ret))
            ob('%s:variable' % nm, g, 'the variable returned is not the output of the instruction', r)
        else:
            es = elems(r.ret)
            m = next((x for x in subterms(r.ret) if x.op == 'call' and cn(x) == 'num_outputs'), None)
            ob('%s:variables' % nm, m is not None and len(es) == 1 and lastn(next(iter(es)), no, m), 'the variables returned are not the outputs of the instruction in order', r)
    # normal forms
    for mod, zero in (('builder::basic::', {}), ('builder::final_build_opt::', const(1))):
        r = Run(ctx, EC + mod + 'strip_constants', ['x'])
        if r.fr is None:
            continue
        t = elem(mk('call', 'deref', X))
        key = mod.split('::')[1] + ':strip'
        isel = lambda y: undv(y).op == 'elem' and X in list(subterms(y))
        ret = undv(r.ret)
        lead = [x for x in r.calls('inv', 'optimistic_inv')]
        ip = [x for x in lead if undv(x.args[0]).op == 'fld' and undv(x.args[0]).a[1] == 'coef' and isel(undv(x.args[0]).a[0])]
        au = [it for _f, _b, it in items(r.fr, 'aug')]
        ob(key + ':every term is scaled', not [y for it in au for c, v in it[4] if v == 'Some' for y in subterms(c) if y.op == 'part'], 'a term of an expression is not divided by the leading coefficient', r)
        ob(key + ':scaled', len(ip) == 1 == len(lead) and len(au) == 1 and au[0][1] == 'Mul' and undv(au[0][3]) is fld(undv(ip[0].ret), 'Some.0') and r.plain(au[0][4]), 'the terms of an expression are not divided by the leading coefficient', r)
        ps = [it for it in r.pushes(('push',)) if isel(it[4])]
        isc = lambda c: c[1] is False and 'Const' in show(c[0]) or c[1] not in (True, False, 'Const', 'None')
        ob(key + ':every term', len(ps) == 1 and all(isc(c) for c in only_iteration(ps[0][5])), 'a term other than the constant is dropped', r)
        full = Run(ctx, EC + mod + 'strip_constants', ['x'], nonempty=lambda s: True)
        if ret.op == 'tup' and len(ret.a) == 3:
            c1, c2 = [undv(y) for y in alts(undv(ret.a[1]))], [undv(y) for y in alts(undv(ret.a[2]))]
            ob(key + ':factor', any(undv(y) is undv(ip[0].args[0]) for y in c1) if ip else False, 'the factor returned is not the leading coefficient', r)
            ob(key + ':constant', any(y.op == 'fld' and y.a[1] == 'coef' and isel(y.a[0]) for y in c2), 'the constant returned is not the constant term', r)
        else:
            ob(key + ':factor', False, 'shape of the result', r)
    r = Run(ctx, BASIC + 'to_single_stripped', ['m', 'x'])
    stripped = lambda t, i: undv(t).op == 'fld' and undv(t).a[1] == str(i) and undv(undv(t).a[0]).op == 'call' and cn(undv(undv(t).a[0])) == 'strip_constants' and undv(nosite(undv(undv(t).a[0]))[0]) is X

    def deg0(known, want):
        return [(c, v) for c, v in only_iteration(known)] and all(undv(c).op == 'bin' and undv(c).a[0] == 'Eq' and v is want and any(undv(y).op == 'call' and cn(undv(y)) == 'degree' for y in undv(c).a[1:]) for c, v in only_iteration(known))
    if r.fr is not None:
        t = undv(r.ret)
        e = r.calls('add')
        good = t.op == 'tup' and len(t.a) == 3 and stripped(t.a[1], 1) and stripped(t.a[2], 2)
        good = good and len(e) == 1 and stripped(e[0].args[1], 0) and deg0(e[0].known, False)
        good = good and {undv(y) for y in alts(undv(t.a[0]))} == {k(0), undv(e[0].ret)}
        ob('table:stripped', good, 'an expression is not looked up by its normal form together with its factor and constant', r)
    r = Run(ctx, BASIC + 'to_single', ['m', 'x'])
    if r.fr is not None:
        e = r.calls('add')
        u = r.calls('unstrip_constants_single')
        good = len(e) == 1 and stripped(e[0].args[1], 0) and len(u) == 1 and undv(u[0].args[0]) is undv(e[0].ret) and stripped(u[0].args[1], 1) and stripped(u[0].args[2], 2)
        ob('table:single', good and {undv(y) for y in alts(r.ret)} == {X, undv(u[0].ret)}, 'a compound expression is not replaced by factor times table entry plus constant', r)
    r = Run(ctx, BASIC + 'unstrip_constants_single', ['id', 'coef', 'cst'])
    if r.fr is not None:
        unstripped(ctx, ob, r, 'table', sym('id'), cf(sym('coef')), cf(sym('cst')))
    r = Run(ctx, BASIC + 'to_really_single', ['m', 'x'])
    if r.fr is not None:
        e = r.calls('add')
        vs = [newlin(y) for y in subterms(r.ret) if newlin(y)]
        ob('table:really single', len(e) == 1 and undv(e[0].args[1]) is X and len(vs) == 1 and one_(vs[0][0]) and vs[0][1] is undv(e[0].ret) and X in [undv(y) for y in alts(r.ret)], 'an expression is not replaced by its table entry', r)
        bare(ctx, ob, r, 'table', BASIC + 'to_really_single')
    # the table of variables
    r = Run(ctx, BB + 'fix_mid_to_out', ['self', 'n'])
    if r.fr is not None:
        nm = mk('ridx', k(1), N, 'RangeInclusive')
        idt = mk('bin', 'Sub', mk('call', 'len', ove), nm)
        key = mk('at', ove, idt)
        m2o = F_(S, 'mid_to_out')
        p = [it for it in r.pushes(('insert',)) if root_field(it[3]) == 'mid_expr_to_out']
        ob('fix:by expression', len(p) == 1 and [undv(y) for y in undv(p[0][4]).a[:2]] == [key, undv(idt)] and r.plain(p[0][5]), 'a variable is not entered under its expression', r)
        ts = r.calls('to_single_stripped')
        T0 = undv(ts[0].ret) if len(ts) == 1 and undv(ts[0].args[1]) is key else None
        if ob('fix:normal form', T0 is not None, 'the normal form of the expression of a variable is not used', r):
            coef, cst, eid = cf(fld(T0, '1')), cf(fld(T0, '2')), fld(T0, '0')
            kx = r.calls('from_kx_plus_b')
            zero = [e for e in kx if kval(undv(e.args[0])) == 0]
            ob('fix:constant', len(zero) == 1 and cf(zero[0].args[1]) == fz({}) and cf(zero[0].args[2]) == cst and
               any(v is True and undv(c).op == 'bin' and undv(c).a[0] == 'Eq' and {undv(y) for y in undv(c).a[1:]} == {undv(eid), k(0)} for c, v in zero[0].known), 'a constant variable is not replaced by its constant', r)
            rest = [e for e in kx if e not in zero]
            O = mk('at', m2o, eid)
            old = lambda t: pick(t, lambda z: undv(z) is undv(O))
            O = fld(O, 'Some.0')
            good = len(rest) == 1 and undv(old(rest[0].args[0])) is F_(O, 'x') and cf(old(rest[0].args[1])) == fz(pmul(SEM.coef(F_(O, 'k')), SEM.coef(fld(T0, '1')))) and \
                cf(old(rest[0].args[2])) == fz(padd(pmul(SEM.coef(F_(O, 'b')), SEM.coef(fld(T0, '1'))), SEM.coef(fld(T0, '2'))))
            ob('fix:reused', good, 'a variable whose normal form is known is not replaced by k * x + b with the right k and b: %s' % ([show(old(y))[:160] for y in rest[0].args] if rest else None), r)
            st = [it for it in r.pushes(('st',)) if undv(it[2]).op == 'call' and cn(undv(it[2])) == 'from_kx_plus_b']
            ob('fix:replaced', len(st) == len(kx) == 2 and all(lastof(it) for it in st) and all(root_field(undv(it[4]).a[0]) == 'out_insns' for it in st), 'the last instruction is not the one replaced', r)
            iv = r.calls('inv', 'optimistic_inv')
            new = [it for it in r.pushes(('st',)) if undv(it[2]).op == 'agg' and undv(it[2]).a[1] == 'Some']
            good = False
            if len(iv) == 1 and undv(iv[0].args[0]) is undv(fld(T0, '1')) and len(new) == 1:
                o = undv(undv(new[0][2]).a[3])
                f = dict(zip(o.a[2], o.a[3:])) if o.op == 'agg' else {}
                inv = fld(undv(iv[0].ret), 'Some.0')
                good = bool(f) and undv(f['x']) is undv(idt) and cf(f['k']) == cf(inv) and cf(f['b']) == fz(padd({}, pmul(SEM.coef(inv), SEM.coef(fld(T0, '2'))), -1)) and undv(new[0][1][0]) is undv(eid)
            ob('fix:inverse', good, 'a new normal form is not entered as (variable - constant) / factor', r)
    sums(ctx, ob)


def lastn(t, no, m):
    """the last m numbers below no, in order"""
    t = undv(t)
    if t.op == 'ridx':
        return cf(t.a[0]) == cf(mk('bin', 'Sub', no, m)) and cf(t.a[1]) == cf(no) and t.a[2] == 'Range'
    return cf(t) == cf(mk('bin', 'Add', mk('bin', 'Sub', no, m), mk('ridx', k(0), m, 'Range')))


def lastof(it):
    """the store goes to the last element"""
    i = undv(it[1][0])
    if show(i) == 'fromend(1)':
        return True
    return i.op == 'bin' and i.a[0] == 'Sub' and kval(undv(i.a[2])) == 1 and undv(i.a[1]).op == 'call' and cn(undv(i.a[1])) == 'len' and root_field(nosite(undv(i.a[1]))[0]) == root_field(undv(it[4]).a[0])


def unstripped(ctx, ob, r, key, vid, coef, cst):
    """coef * vid + cst as an expression"""
    ft = r.calls('from_terms', 'from_terms_sorted')
    es = [undv(y) for y in elems(ft[0].args[0])] if len(ft) == 1 else []
    lin = [newlin(y) for y in es if newlin(y)]
    cs = [y for y in es if y.op == 'call' and cn(y) == 'new_const']
    good = len(es) == 2 and len(lin) == 1 and len(cs) == 1 and undv(lin[0][1]) is vid and cf(lin[0][0]) == coef and cf(nosite(cs[0])[0]) == cst and undv(r.ret) is undv(ft[0].ret)
    ob(key + ':unstrip', good, 'an expression replaced by a variable is not %s: %s' % ('coef * variable + constant', [show(y)[:150] for y in es]), r)
    p = [it for it in r.pushes(('push',)) if undv(it[4]) in cs]
    ok = len(p) == 1
    for c, v in only_iteration(p[0][5]) if ok else ():
        c = undv(c)
        if c.op == 'bin' and undv(vid) in [undv(y) for y in c.a[1:]]:
            continue
        ok &= c.op == 'call' and cn(c) == 'is_zero' and v is False and cf(nosite(c)[0]) == cst
    ob(key + ':unstrip constant', ok, 'the constant is dropped although it is not zero', r)


def bare(ctx, ob, r, key, path, ret=lambda r: r.ret):
    """an expression counts as a variable only with one term, degree one and coefficient one"""
    X = sym('x')
    need = {'len': lambda t: t.op == 'bin' and t.a[0] == 'Eq' and any(undv(y).op == 'call' and cn(undv(y)) == 'len' for y in t.a[1:]) and k(1) in [undv(y) for y in t.a[1:]],
            'degree': lambda t: t.op == 'bin' and t.a[0] == 'Eq' and any(undv(y).op == 'call' and cn(undv(y)) == 'degree' for y in t.a[1:]) and k(1) in [undv(y) for y in t.a[1:]],
            'coefficient': lambda t: t.op == 'bin' and t.a[0] == 'Eq' and any(undv(y).op == 'fld' and undv(y).a[1] == 'coef' for y in t.a[1:]) and any(cf(y) == fz(const(1)) for y in t.a[1:])}
    for what, f in need.items():
        q = Run(ctx, path, r.names, fn=lambda t, f=f: A.A_FALSE if f(t) else None)
        ob('%s:bare %s' % (key, what), q.fr is not None and q.ret is not None and X not in [undv(y) for y in alts(ret(q))] and not [y for y in alts(ret(q)) if undv(y).op == 'fld' and undv(y).a[1].startswith('Linear')],
           'an expression whose %s is not one counts as a variable' % what, r)


def sums(ctx, ob):
    """lin_comb_inner, mul_two_expr"""
    V, COEF = sym('vars'), sym('coef')
    for path, selfarg in ((BASIC + 'lin_comb_inner', False), (EC + 'builder::final_build_opt::Builder::<C>::lin_comb_inner', True)):
        r = Run(ctx, path, ['self', 'vars', 'coef'] if selfarg else ['vars', 'coef', 'mids'])
        key = path.split('::')[2]
        if r.fr is None:
            continue
        nv = mk('call', 'len', V)
        ind = lambda t: undv(t).op in ('call', 'indirect') and show(t).startswith('indirect(')
        iz = lambda known: [(undv(nosite(undv(c))[0]), v) for c, v in known if undv(c).op == 'call' and cn(undv(c)) == 'is_zero']
        hp = [it for it in r.pushes(('push',)) if undv(it[4]).op == 'agg' and undv(it[4]).a[0].endswith('LinMeta')]
        good = bool(hp)
        for it in hp:
            f = dict(zip(undv(it[4]).a[2], undv(it[4]).a[3:]))
            z = iz(it[5])
            good &= kval(undv(f['t_id'])) == 0 and len(z) == 1 and ind(z[0][0]) and z[0][1] is False
            i = [y for y in subterms(f['l_id']) if y.op in ('ridx', 'eidx')]
            good &= len(i) == 1 and i[0] in list(subterms(z[0][0])) if z else False
            fl = undv(f['vars'])
            good &= fl.op == 'fld' and fl.a[1] == 'vars' and undv(fl.a[0]).op == 'at' and kval(undv(undv(fl.a[0]).a[1])) == 0
        ob('%s:merge:starts with every expression' % key, good, 'a summand whose coefficient is not zero is left out of a sum', r)
        ts = r.calls('to_single')
        if ts:
            # a long summand stands for itself: its variable is found where its position says
            good = bool(hp)
            for it in hp:
                f = dict(zip(undv(it[4]).a[2], undv(it[4]).a[3:]))
                i = [y for y in subterms(f['l_id']) if y.op in ('ridx', 'eidx')]
                src = undv(undv(undv(f['vars']).a[0]).a[0]) if undv(f['vars']).op == 'fld' and undv(undv(f['vars']).a[0]).op == 'at' else None
                while src is not None and src.op == 'call' and cn(src) == 'deref':
                    src = undv(nosite(src)[0])
                mine = lambda t: undv(t) is elem(V) or undv(t).op == 'at' and undv(undv(t).a[0]) is V and undv(undv(t).a[1]) in i
                if src is None or len(i) != 1:
                    good = False
                elif mine(src):
                    good &= cf(f['l_id']) == cf(i[0])
                elif src.op == 'call' and cn(src) == 'to_single' and mine(nosite(src)[1]):
                    good &= cf(f['l_id']) == cf(mk('bin', 'Add', i[0], nv))
                    at_ = [y for y in r.pushes(('st',)) if undv(y[2]).op == 'agg' and undv(y[2]).a[1] == 'Some' and undv(undv(y[2]).a[3]) is src and [undv(z) for z in y[1]] == i]
                    good &= len(at_) == 1
                else:
                    good = False
            ob('%s:merge:long summands' % key, good and all(undv(e.args[-1]) is elem(V) or undv(e.args[-1]).op == 'at' and undv(undv(e.args[-1]).a[0]) is V for e in ts), 'a long summand is not replaced by the variable holding it, under its own position', r)
        au = [it for _f, _b, it in items(r.fr, 'aug') if it[1] == 'Add']
        tm = [(undv(it[4]), None, it) for it in r.pushes(('push',)) if undv(it[4]).op == 'at' and 't_id' in show(undv(it[4]).a[1])]
        for it in r.pushes(('push',)):
            t = undv(it[4])
            if t.op == 'agg' and t.a[0].endswith('::Term'):
                f = dict(zip(t.a[2], t.a[3:]))
                x = undv(f['vars'])
                if x.op == 'fld' and x.a[1] == 'vars' and undv(x.a[0]).op == 'at' and 't_id' in show(undv(x.a[0]).a[1]):
                    tm.append((undv(x.a[0]), undv(f['coef']), it))
        st = [it for it in r.pushes(('st',)) if 'coef' in show(it[4])[-8:]]
        good = len(au) == 1 and len(tm) == 1 and len(st) == (0 if tm[0][1] is not None else 1)
        why = (len(au), len(tm), len(st))
        if good:
            nc = undv(au[0][3])
            good = nc is (tm[0][1] if tm[0][1] is not None else undv(st[0][2])) and nc.op == 'bin' and nc.a[0] == 'Mul'
            if good:
                parts = [undv(y) for y in nc.a[1:]]
                co = [y for y in parts if y.op == 'fld' and y.a[1] == 'coef' and undv(y.a[0]) is tm[0][0]]
                vc = [y for y in parts if ind(y) and 'l_id' in show(y)]
                good = len(co) == 1 and len(vc) == 1
                why = [show(y)[:200] for y in parts]
            for kn in (au[0][4], tm[0][2][5]):
                z = [(c, v) for c, v in iz(kn) if c is nc]
                good &= z == [(nc, False)]
        ob('%s:merge:coefficients' % key, good, 'a term is not added with its coefficient times the coefficient of its summand: %s' % (why,), r)
        if good:
            same = [(undv(c), v) for c, v in au[0][4] if undv(c).op == 'bin' and undv(c).a[0] == 'Eq' and any(undv(y) is fld(tm[0][0], 'vars') for y in undv(c).a[1:])]
            ob('%s:merge:same term' % key, len(same) == 1 and same[0][1] is True and any(undv(y).op == 'fld' and undv(y).a[1] == 'vars' and undv(y) is not fld(tm[0][0], 'vars') for y in same[0][0].a[1:]), 'a term is merged into one with other variables', r)
        ft = [e for e in r.calls('from_terms', 'from_terms_sorted', 'layered_add')]
        ob('%s:merge:result' % key, any('mul_constant' not in show(e.args[-1]) for e in ft), 'the merged terms are not the result', r)
        mc = r.calls('mul_constant')
        good = len(mc) == 1 and undv(mc[0].args[0]).op in ('at', 'elem', 'call') and ind(mc[0].args[1]) and kval(undv(undv(mc[0].args[1]).a[-1])) == 0
        ob('%s:merge:single' % key, good or len(mc) == 1 and '(0)' in show(mc[0].args[1]), 'a sum of one expression is not that expression times its coefficient', r)
    A_, B_ = sym('a'), sym('b')
    r = Run(ctx, BASIC + 'mul_two_expr', ['a', 'b', 'mids'])
    if r.fr is not None:
        got = set()
        for e in r.calls('mul_constant'):
            c = undv(e.args[1])
            cv = [y for y in subterms(c) if y.op == 'call' and cn(y) == 'constant_value']
            got.add((undv(e.args[0]), undv(nosite(cv[0])[0]) if len(cv) == 1 else None))
        ob('product:by a constant', got == {(A_, B_), (B_, A_)}, 'the product with a constant is not the other factor times that constant', r)
        tm = r.calls('mul')
        tm = [e for e in tm if e.path.endswith('Term::<C>::mul')]
        lc = r.calls('lin_comb_inner')
        good = len(tm) == 1 and len(lc) == 1

        def srcs(t):
            s, todo, seen = set(), [undv(t)], set()
            while todo:
                x = undv(todo.pop())
                if x in seen:
                    continue
                seen.add(x)
                if x in (A_, B_):
                    s.add(x)
                elif x.op == 'phi':
                    todo += list(alts(x))
                elif x.op in ('elem', 'dv'):
                    todo.append(x.a[0])
                elif x.op == 'call' and cn(x) == 'deref':
                    todo.append(nosite(x)[0])
                elif x.op == 'call' and cn(x) == 'to_single':
                    todo.append(nosite(x)[1])
                else:
                    s.add(x)
            return s
        if good:
            for da, db in ((1, 1), (2, 1), (1, 2), (2, 2)):
                for swap in (True, False):
                    q = Run(ctx, BASIC + 'mul_two_expr', ['a', 'b', 'mids'],
                            fn=lambda t: k(da) if t.op == 'call' and cn(t) == 'degree' and undv(nosite(t)[0]) is A_ else k(db) if t.op == 'call' and cn(t) == 'degree' and undv(nosite(t)[0]) is B_
                            else (A.A_TRUE if swap else A.A_FALSE) if t.op == 'bin' and t.a[0] in ('Lt', 'Gt') and all(undv(y).op == 'call' and cn(undv(y)) == 'len' for y in t.a[1:]) else None)
                    es = [e for e in q.calls('mul') if e.path.endswith('Term::<C>::mul')]
                    ss = [srcs(y) for y in es[0].args[:2]] if len(es) == 1 else []
                    ok = sorted(map(sorted_, ss)) == sorted([sorted_({A_}), sorted_({B_})])
                    if ok:
                        # a factor of degree two is always replaced by a single variable first
                        for x, s in zip(es[0].args[:2], ss):
                            d = da if s == {A_} else db
                            if d == 2:
                                ok &= not any(undv(undv(y)) in (A_, B_) for y in flat(x))
                    good &= ok
        ob('product:every pair of terms', good, 'a product of two expressions does not multiply every term of one with every term of the other', r)
        clo = [e for e in lc]
        cl = clov(ctx, clo[0].args[1], sym('i')) if len(clo) == 1 else None
        ob('product:sum of the pairs', cl is not None and cf(cl) == fz(const(1)) and r.ret is not None and undv(lc[0].ret) in [undv(y) for y in alts(r.ret)], 'the products of the terms are not added up with coefficient one', r)


def sorted_(s):
    return sorted(show(x) for x in s)


def flat(t):
    """the expressions a term may be taken from without going through the table"""
    out, todo, seen = [], [undv(t)], set()
    while todo:
        x = undv(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            todo += list(alts(x))
        elif x.op in ('elem', 'dv'):
            todo.append(x.a[0])
        elif x.op == 'call' and cn(x) == 'deref':
            todo.append(nosite(x)[0])
        else:
            out.append(x)
    return out


# ---- arithmetic of expressions --------------------------------------------------------------------------------------
def algebra(ctx):
    prog = ctx.prog
    X, Y, V = sym('x'), sym('y'), sym('v')

    def ob(key, good, msg, r):
        return ctx.ob(key, bool(good), '%s: %s' % (LOW, msg), r.w)
    r = Run(ctx, EXPR + 'Term::<C>::mul', ['x', 'y'])
    if r.fr is not None:
        t = undv(r.ret)
        f = dict(zip(t.a[2], t.a[3:])) if t.op == 'agg' else {}
        m = undv(f['vars']) if f else None
        ob('term:product', f and cf(f['coef']) == fz(pmul(SEM.coef(fld(X, 'coef')), SEM.coef(fld(Y, 'coef')))) and m.op == 'call' and cn(m) == 'mul' and {undv(z) for z in nosite(m)} == {fld(X, 'vars'), fld(Y, 'vars')},
           'the product of two terms is not the product of their coefficients and variables', r)
    VS = EXPR + 'VarSpec'
    if VS in prog.adts:
        names = [v['name'] for v in prog.adts[VS]['variants']]
        ok = {}
        last = None
        for a in names:
            for b in names:
                A1, B1 = agg_of(prog, VS, a, base=sym('x')), agg_of(prog, VS, b, base=sym('y'))
                r = Run(ctx, VS + '::mul', ['x', 'y'], args={0: A1, 1: B1})
                if r.fr is None:
                    return
                last = r
                vals = [undv(z) for z in alts(r.ret)] if r.ret is not None else []
                if a == 'Const' and b != 'RandomLinear':
                    want = [B1]
                elif b == 'Const' and a != 'RandomLinear':
                    want = [A1]
                elif a == b == 'Linear':
                    p, q = A1.a[3], B1.a[3]
                    want = [mk('agg', VS, 'Quad', ('0', '1'), p, q), mk('agg', VS, 'Quad', ('0', '1'), q, p)]
                else:
                    want = []
                ctx.ob('term:%s*%s' % (a, b), (len(vals) == 1 and vals[0] in [undv(w) for w in want]) if want else not vals,
                       '%s: the product of the variables of a %s and a %s term is %s' % (LOW, a, b, [show(z) for z in vals]), r.w)
        # the degree decides what may be multiplied and what counts as a constant
        deg = {'Const': 0, 'Linear': 1, 'Quad': 2, 'Custom': 2}
        for a, d in sorted(deg.items()):
            e = mk('agg', EXPR + 'Expression', 'Expression', ('terms',), mk('arr', mk('agg', EXPR + 'Term', 'Term', ('coef', 'vars'), sym('c'), agg_of(prog, VS, a, base=sym('y')))))
            r = Run(ctx, EXPR + 'Expression::<C>::degree', ['x'], args={0: e}, keep=tuple(p for p in prog.bodies if p.endswith('::deref') and 'ir::expr' in p))
            if r.fr is not None:
                vs = {kval(undv(z)) for z in alts(r.ret)} if r.ret is not None else set()
                ctx.ob('degree:' + a, d in vs and vs <= {d, 0} if a != 'Const' else vs == {0}, '%s: a %s term has degree %s' % (LOW, a, sorted(map(str, vs))), r.w)
            r = Run(ctx, EXPR + 'Expression::<C>::constant_value', ['x'], args={0: e}, fn=lambda t, a=a: (A.A_TRUE if a == 'Const' else A.A_FALSE) if t.op == 'bin' and t.a[0] == 'Eq' and any(undv(z).op == 'agg' and undv(z).a[0] == VS for z in t.a[1:]) else None)
            if r.fr is not None:
                vs = [undv(z) for z in alts(r.ret)] if r.ret is not None else []
                some = [undv(z.a[3]) for z in vs if z.op == 'agg' and z.a[1] == 'Some']
                ctx.ob('constant value:' + a, (sym('c') in some if a == 'Const' else not some), '%s: the constant value of a %s term' % (LOW, a), r.w)
    r = Run(ctx, EXPR + 'Expression::<C>::constant_value', ['x'], fn=lambda t: A.A_FALSE if t.op == 'bin' and t.a[0] == 'Eq' and any(undv(z).op == 'call' and cn(undv(z)) == 'len' for z in t.a[1:]) else None)
    if r.fr is not None:
        ob('constant value:several terms', all(undv(z).op == 'agg' and undv(z).a[1] == 'None' for z in alts(r.ret)), 'an expression with several terms counts as a constant', r)
    r = Run(ctx, EXPR + 'Expression::<C>::mul_constant', ['x', 'v'], fn=lambda t: A.A_FALSE if t.op == 'call' and cn(t) == 'is_zero' and undv(nosite(t)[0]) is V else None)
    if r.fr is not None:
        t = undv(r.ret)
        es = [undv(z) for z in elems(nosite(t)[0])] if t.op == 'call' and cn(t).startswith('from_terms') else []
        good = len(es) == 1 and es[0].op == 'agg'
        if good:
            f = dict(zip(es[0].a[2], es[0].a[3:]))
            e = undv(undv(f['vars']).a[0]) if undv(f['vars']).op == 'fld' and undv(f['vars']).a[1] == 'vars' else None
            good = e is not None and e.op == 'elem' and X in list(subterms(e)) and cf(f['coef']) == fz(pmul(SEM.coef(fld(e, 'coef')), SEM.coef(V)))
        ob('expression:times a constant', good, 'not every coefficient of an expression is multiplied by the constant', r)
    r = Run(ctx, EXPR + 'Expression::<C>::mul_constant', ['x', 'v'], fn=lambda t: A.A_TRUE if t.op == 'call' and cn(t) == 'is_zero' and undv(nosite(t)[0]) is V else None)
    if r.fr is not None:
        vs = [undv(z) for z in alts(r.ret)] if r.ret is not None else []
        good = bool(vs)
        for t in vs:
            es = [undv(z) for z in elems(nosite(t)[0])] if t.op == 'call' and cn(t).startswith('from_terms') else []
            z0 = t.op == 'call' and cn(t) == 'new_const' and cf(nosite(t)[0]) == ()
            good &= t.op == 'call' and cn(t) == 'default' or z0 or bool(es) and all(z.op == 'agg' and V in list(subterms(z)) for z in es)
        ob('expression:times zero', good, 'an expression times zero is not zero', r)
    # constructors
    for nm, ar, var in (('new_const', ['v'], 'Const'), ('new_linear', ['v', 'i'], 'Linear'), ('new_custom', ['v', 'i', 'j'], 'Custom'), ('new_quad', ['v', 'i', 'j'], 'Quad')):
        for own in ('Term', 'Expression'):
            p_ = EXPR + own + '::<C>::' + nm
            if p_ not in prog.bodies:
                continue
            q = Run(ctx, p_, ar, keep=tuple(x for x in prog.bodies if x == EXPR + 'Term::<C>::' + nm))
            if q.fr is None or q.ret is None:
                continue
            ts = [undv(z) for z in alts(q.ret)]
            if own == 'Expression':
                ts = [undv(w) for z in ts for w in elems(dict(zip(z.a[2], z.a[3:])).get('terms', sym('?')) if z.op == 'agg' else sym('?'))]
            good = bool(ts)
            for t in ts:
                f = dict(zip(t.a[2], t.a[3:])) if t.op == 'agg' else {}
                good &= bool(f) and undv(f['coef']) is sym('v')
                for m in map(undv, alts(f['vars'])) if f else ():
                    good &= m.op == 'agg' and m.a[1] == var and sorted(show(z) for z in m.a[3:]) == sorted(ar[1:])
            ob('%s:%s' % (own.lower(), nm), good, 'a %s term is not made of its coefficient and variables' % var, q)
    # the normal form of variables keeps them
    if VS in prog.adts:
        for v in [x['name'] for x in prog.adts[VS]['variants']]:
            a = agg_of(prog, VS, v, base=sym('x'))
            for lt in (True, False):
                q = Run(ctx, VS + '::normalize', ['self'], mem={sym('self'): a}, fn=lambda t, lt=lt: (A.A_TRUE if lt else A.A_FALSE) if t.op == 'bin' and t.a[0] in ('Lt', 'Gt', 'Le', 'Ge') else None)
                if q.fr is None or q.fr.exit_state is None:
                    continue
                m = q.fr.exit_state.v.get(('M', sym('self')))
                for z in map(undv, alts(undv(m)) if m is not None else ()):
                    if z.op == 'agg' and a.op == 'agg':
                        good = z.a[1] == v and (z is a or sorted(map(show, z.a[3:])) == sorted(map(show, a.a[3:])))
                        ob('normal form:%s:%s' % (v, lt), good, 'the normal form of the variables of a term has other variables: %s' % show(z)[:120], q)
    r = Run(ctx, EXPR + 'Expression::<C>::from_terms_sorted', ['x'])
    if r.fr is not None:
        t = undv(r.ret)
        d = [z for z in alts(undv(t.a[3]))] if t.op == 'agg' else []
        ob('expression:of sorted terms', bool(d) and all(undv(z) is X or X in [undv(w) for w in (undv(z).a if undv(z).op == 'seq' else ()) if isinstance(w, T)] for z in d), 'the terms of an expression are not those given', r)
    r = Run(ctx, EXPR + 'Expression::<C>::from_terms', ['x'])
    if r.fr is not None:
        c = r.calls('compress_identical_terms')
        so = [e for e in events(r.fr) if e.path.rsplit('::', 1)[-1].startswith('sort')]
        ob('expression:terms are sorted before they are merged', len(c) == 1 and r.plain(c[0].known) and all(undv(z).op == 'part' and kval(undv(z).a[1]) == 'sorted' for z in elems(c[0].args[0])), 'terms are merged before they are sorted', r)
        n = r.calls('normalize')
        ob('expression:terms are normalised', len(n) == 1 and r.plain(n[0].known), 'terms are not brought to normal form before they are merged', r)
    r = Run(ctx, EXPR + 'VarSpec::normalize', ['self'])
    r = Run(ctx, EXPR + 'compress_identical_terms', ['x'])
    if r.fr is not None:
        rt = [it for _f, _b, it in items(r.fr, 'retain')]
        isv = lambda c: undv(c[0]).op == 'bin' and undv(c[0]).a[0] == 'Eq' and all('vars' in show(z) for z in undv(c[0]).a[1:])
        iscoef = lambda t: all(undv(z).op == 'fld' and undv(z).a[1] == 'coef' for z in alts(undv(t)))
        add = [(it[4], iscoef(it[3])) for _f, _b, it in items(r.fr, 'aug') if it[1] == 'Add']
        keep = []
        for it in r.pushes(('st', 'push')):
            v, kn = (it[2], it[3]) if it[0] == 'st' else (it[4], it[5])
            v = undv(v)
            if v.op == 'bin' and v.a[0] == 'Add' and all('coef' in show(z) for z in v.a[1:]):
                add.append((kn, iscoef(v.a[1]) and iscoef(v.a[2])))
            elif not (v.op == 'call' and cn(v) == 'default'):
                keep.append(kn)
        ka = [c for c in only_iteration(add[0][0]) if isv(c) or not (c[1] in ('Some', 'None') or bounds_(c))] if len(add) == 1 else []
        ks = [c for c in only_iteration(keep[0]) if isv(c) or not (c[1] in ('Some', 'None') or bounds_(c))] if len(keep) == 1 else []
        ob('expression:equal terms are added', len(ka) == 1 and isv(ka[0]) and ka[0][1] is True and add[0][1], 'the coefficients of terms with equal variables are not added', r)
        ob('expression:other terms are kept', len(keep) == 1 and (not ks or len(ks) == 1 and isv(ks[0]) and ks[0][1] is False and ka and ks[0][0] is ka[0][0]), 'a term with other variables is not kept', r)
        tr = [undv(it[4]) for _f, _b, it in items(r.fr, 'trunc')]
        ob('expression:all terms kept are used', all(t.op == 'bin' and t.a[0] == 'Add' and kval(undv(t.a[2])) == 1 and undv(t.a[1]).op in ('red', 'mu', 'acc') for t in tr) and len(tr) <= 1, 'terms are cut off or left over after merging', r)
        c = undv(rt[0][4]) if len(rt) == 1 else None
        ob('expression:zero terms only are dropped', c is not None and c.op == 'un' and c.a[0] == 'Not' and undv(c.a[1]).op == 'call' and cn(undv(c.a[1])) == 'is_zero' and 'coef' in show(undv(c.a[1])), 'a term with a nonzero coefficient is dropped', r)


# ---- executing the instructions emitted by the lowering -----------------------------------------------------------------
def executing(ctx):
    prog = ctx.prog
    body = [p for p in prog.bodies if p.endswith('::execute_out') and 'builder::hint_normalize' in p]
    ctx.need(len(body) == 1, 'hint_normalize execute_out', 'bookkeeping of emitted instructions')
    S, R = sym('self'), sym('root')
    INS = HN
    CO = EC + 'circuit::layered::Coef'
    calls = ('add_lin_comb', 'add_mul_vec', 'add_out_vars', 'add_const', 'sub_circuit_call')
    n = 0
    for v in [x['name'] for x in prog.adts[INS]['variants']]:
        base = agg_of(prog, INS, v, base=sym('insn'))
        f = dict(zip(base.a[2], base.a[3:]))
        cases = [(v, base)]
        if v == 'ConstantLike':
            fn_ = base.a[2][0]
            cases = [(v + ' ' + c['name'], mk('agg', INS, v, (fn_,), agg_of(prog, CO, c['name'], base=sym('cst')))) for c in prog.adts[CO]['variants']]
        for nm, a in cases:
            r = Run(ctx, body[0], ['self', 'insn', 'root'], args={1: a})
            if r.fr is None:
                continue
            n += 1
            f = dict(zip(a.a[2], a.a[3:]))
            es = [e for e in events(r.fr) if e.path.startswith(BB) and e.path[len(BB):] in calls]
            one = len(es) == 1 and r.plain(es[0].known) and undv(es[0].args[0]) is S
            nm_ = es[0].path[len(BB):] if one else None
            ar = [undv(x) for x in es[0].args[1:]] if one else []
            if v == 'LinComb':
                good = nm_ == 'add_lin_comb' and ar == [undv(f['0'])]
            elif v == 'Mul':
                good = nm_ == 'add_mul_vec' and len(ar) == 1 and (ar[0] is undv(f['0']) or cn(ar[0]) == 'clone')
            elif v == 'Hint':
                good = nm_ == 'add_out_vars' and ar == [undv(f['num_outputs'])]
            elif v == 'SubCircuitCall':
                good = nm_ == 'sub_circuit_call' and ar[:3] == [undv(f[z]) for z in ('sub_circuit_id', 'inputs', 'num_outputs')]
            elif nm == 'ConstantLike Constant':
                good = nm_ == 'add_const' and ar == [undv(undv(a.a[3]).a[3])]
            else:
                good = nm_ == 'add_out_vars' and ar == [k(1)]
            ctx.ob('execute:' + nm, good, '%s: the outputs of an emitted %s instruction are recorded as %s(%s)' % (LOW, nm, nm_, ', '.join(show(x)[:60] for x in ar)), r.w)
    ctx.floor('emitted instruction kinds', n, 8)


# ---- building the final circuit -----------------------------------------------------------------------------------------
FB = EC + 'builder::final_build_opt::'
FBB = FB + 'Builder::<C>::'
FIN = 'final build: every variable keeps its value'


def ivar(t):
    """the variable whose expression is looked up"""
    t = undv(t)
    if t.op == 'call' and cn(t) in ('clone', 'to_owned') and len(nosite(t)) == 1:
        t = undv(nosite(t)[0])
    if t.op in ('at', 'get', 'lookup') and root_field(t.a[0]) == 'in_var_exprs':
        return undv(t.a[1])
    s = set()
    if t.op == 'phi':
        s = {ivar(x) for x in alts(t)}
    return s.pop() if len(s) == 1 else None


def singles(t, want):
    """really-single versions of the expressions of the variables"""
    n = 0
    for x in elems(t):
        x = undv(x)
        for y in alts(x):
            y = undv(y)
            if y.op == 'call' and cn(y) == 'make_really_single' and ivar(nosite(y)[1]) is want:
                n += 1
            else:
                return False
    return n > 0


def final(ctx):
    prog = ctx.prog
    S, X, N = sym('self'), sym('x'), sym('n')
    one_ = lambda t: cf(t) == fz(const(1))
    zero_ = lambda t: cf(t) == fz({})

    def ob(key, good, msg, r):
        return ctx.ob(key, bool(good), '%s: %s' % (FIN, msg), r.w)

    def pushed(r, field):
        return [p for p in r.pushes(('push', 'insert')) if root_field(p[3]) == field]
    smv, mvc = F_(S, 'stripped_mid_vars'), F_(S, 'mid_var_coefs')

    def key_of(t):
        t = undv(t)
        return dict(zip(t.a[2], t.a[3:])) if t.op == 'agg' and t.a[0].endswith('MidVarKey') else None

    def coefs(t):
        t = undv(t)
        return dict(zip(t.a[2], t.a[3:])) if t.op == 'agg' and t.a[0].endswith('MidVarCoef') else None
    # mid variable = k * expr + b, with kinv the inverse of k
    df = [p for p in prog.bodies if p.endswith('::default') and 'MidVarCoef' in p]
    ctx.need(len(df) == 1, 'MidVarCoef::default', 'coefficients of a plain variable')
    r = Run(ctx, df[0], [])
    if r.fr is not None:
        f = coefs(r.ret)
        ob('plain variable', f and one_(f['k']) and one_(f['kinv']) and zero_(f['b']), 'a plain variable is not one times itself', r)
    r = Run(ctx, FBB + 'new_var', ['self', 'n'])
    if r.fr is not None:
        e = r.calls('add')
        f = key_of(e[0].args[1]) if len(e) == 1 else None
        v = newlin(f['expr']) if f else None
        p = pushed(r, 'mid_var_coefs')
        ob('fresh variable of the final circuit', v and one_(v[0]) and v[1] is undv(r.ret) and v[1].op == 'call' and cn(v[1]) == 'len' and undv(nosite(v[1])[0]) is smv and
           len(p) == 1 and r.plain(p[0][5], but=(lambda c: undv(c[0]).op == 'bin',)) and undv(p[0][4]).op == 'call' and cn(undv(p[0][4])) == 'default', 'a fresh variable is not the next number of the pool', r)
    r = Run(ctx, FBB + 'add_in_vars', ['self', 'n', 'layer'])
    if r.fr is not None:
        p = pushed(r, 'in_var_exprs')
        v = newlin(p[0][4]) if len(p) == 1 else None
        i = mk('ridx', k(0), N, 'Range')
        e = r.calls('new_var')
        ln = [y for y in subterms(v[1]) if y.op == 'call' and cn(y) == 'len' and undv(nosite(y)[0]) is smv] if v else []
        ob('outputs of the final circuit are fresh variables', v and one_(v[0]) and ln and cf(v[1]) == cf(mk('bin', 'Add', ln[0], i)) and r.plain(p[0][5]) and len(e) == 1 and r.plain(e[0].known), 'output i is not fresh variable start + i', r)
    r = Run(ctx, FBB + 'add_const', ['self', 'x'])
    if r.fr is not None:
        p = pushed(r, 'in_var_exprs')
        ob('constant of the final circuit', len(p) == 1 and r.plain(p[0][5]) and undv(p[0][4]).op == 'call' and cn(undv(p[0][4])) == 'new_const' and undv(nosite(undv(p[0][4]))[0]) is X, 'a constant does not keep its value', r)
    r = Run(ctx, FB + 'unstrip_constants_single', ['id', 'coef', 'cst', 'm'])
    if r.fr is not None:
        c = pmul(SEM.coef(sym('coef')), SEM.coef(F_(sym('m'), 'kinv')))
        unstripped(ctx, ob, r, 'final', sym('id'), fz(c), fz(padd(SEM.coef(sym('cst')), pmul(c, SEM.coef(F_(sym('m'), 'b'))), -1)))
    stripped = lambda t, i: undv(t).op == 'fld' and undv(t).a[1] == str(i) and undv(undv(t).a[0]).op == 'call' and cn(undv(undv(t).a[0])) == 'strip_constants' and undv(nosite(undv(undv(t).a[0]))[0]) is X

    def registers(r, nm, force):
        """the pushes of coefficients belong to the table entry added, and only to a new one"""
        for p in pushed(r, 'mid_var_coefs'):
            f = coefs(p[4])
            eqs = [c for c, v in only_iteration(p[5]) if v is True and undv(c).op == 'bin' and undv(c).a[0] == 'Eq' and any(undv(z).op == 'call' and cn(undv(z)) == 'len' for z in undv(c).a[1:])]
            adds = [undv(z) for c in eqs for z in undv(c).a[1:] if undv(z).op == 'call' and cn(undv(z)) == 'add']
            kf = key_of(nosite(adds[0])[1]) if len(adds) == 1 else None
            good = bool(f) and bool(kf)
            if good and stripped(kf['expr'], 0):
                inv = undv(f['kinv'])
                iv = undv(inv.a[0]) if inv.op == 'fld' else inv
                good = stripped(f['k'], 1) and stripped(f['b'], 2) and iv.op == 'call' and cn(iv) in ('inv', 'optimistic_inv') and stripped(nosite(iv)[0], 1) and kval(undv(kf['expr'])) is None and show(undv(kf['is_force_single'])) in ('False', '0')
            elif good:
                good = force and one_(f['k']) and one_(f['kinv']) and zero_(f['b'])
                v = undv(kf['expr'])
                good = good and v.op == 'call' and cn(v) in ('make_single', 'clone')
            ob('%s:coefficients' % nm, good, 'a new table entry is not recorded as factor * normal form + constant with the inverse of the factor', r)
    r = Run(ctx, FBB + 'make_single', ['self', 'x'])
    if r.fr is not None:
        registers(r, 'make_single', False)
        e = r.calls('add')
        u = r.calls('unstrip_constants_single')
        idx = undv(e[0].ret) if len(e) == 1 else None
        good = idx is not None and len(u) == 1 and undv(u[0].args[0]) is idx and stripped(u[0].args[1], 1) and stripped(u[0].args[2], 2) and undv(u[0].args[3]).op in ('at', 'get') and root_field(undv(u[0].args[3]).a[0]) == 'mid_var_coefs' and undv(undv(u[0].args[3]).a[1]) is idx
        vs = [undv(z) for z in alts(r.ret)]
        lin = [newlin(z) for z in vs if newlin(z)]
        good = good and len(vs) == 3 and X in vs and undv(u[0].ret) in vs and len(lin) == 1 and one_(lin[0][0]) and lin[0][1] is idx
        ob('make_single', good, 'a compound expression is not replaced by the variable holding it', r)
        # a fresh entry is the variable itself, a known one is rescaled
        fresh = Run(ctx, FBB + 'make_single', ['self', 'x'], fn=lambda t: A.A_FALSE if t.op == 'bin' and t.a[0] == 'Eq' and any(undv(z).op == 'call' and cn(undv(z)) == 'add' for z in t.a[1:]) else None)
        ob('make_single:known entries are rescaled', fresh.fr is not None and not [z for z in alts(fresh.ret) if newlin(z)], 'a known entry is taken for the expression although its factor and constant may differ', r)
        ps = pushed(r, 'mid_var_layer')
        ob('make_single:layer', len(ps) == 1 and len(pushed(r, 'mid_var_coefs')) == 1, 'the tables of variables get out of step', r)
    r = Run(ctx, FBB + 'try_make_single', ['self', 'x'])
    if r.fr is not None:
        e = r.calls('try_get_idx')
        u = r.calls('unstrip_constants_single')
        f = key_of(e[0].args[1]) if len(e) == 1 else None
        idx = fld(undv(e[0].ret), 'Some.0') if f else None
        good = f and stripped(f['expr'], 0) and show(undv(f['is_force_single'])) in ('False', '0') and len(u) == 1 and undv(u[0].args[0]) is undv(idx) and stripped(u[0].args[1], 1) and stripped(u[0].args[2], 2) and \
            undv(u[0].args[3]).op in ('at', 'get') and root_field(undv(u[0].args[3]).a[0]) == 'mid_var_coefs' and undv(undv(u[0].args[3]).a[1]) is undv(idx)
        ob('try_make_single', good and {undv(z) for z in alts(r.ret)} == {X, undv(u[0].ret)}, 'an expression is replaced by a variable that does not hold it', r)
    r = Run(ctx, FBB + 'make_really_single', ['self', 'x'])
    if r.fr is not None:
        registers(r, 'make_really_single', True)
        bare(ctx, ob, r, 'make_really_single', FBB + 'make_really_single')
        adds = r.calls('add')
        good = len(adds) == 2
        plain_, forced = None, None
        for e in adds:
            f = key_of(e.args[1])
            if f and stripped(f['expr'], 0) and show(undv(f['is_force_single'])) in ('False', '0'):
                plain_ = undv(e.ret)
            elif f and show(undv(f['is_force_single'])) in ('True', '1'):
                v = undv(f['expr'])
                if v.op == 'call' and cn(v) == 'make_single' and undv(nosite(v)[1]) is X:
                    forced = undv(e.ret)
        vs = [undv(z) for z in alts(r.ret)]
        ob('make_really_single:result', good and plain_ is not None and forced is not None and len(vs) == 3 and plain_ in vs and forced in vs, 'the variable returned does not hold the expression', r)
        if plain_ is not None:
            iseq = lambda t, i: t.op == 'bin' and t.a[0] == 'Eq' and any(stripped(z, i) for z in t.a[1:]) and any(root_field(undv(undv(z).a[0]).a[0]) == 'mid_var_coefs' for z in t.a[1:] if undv(z).op == 'fld' and undv(undv(z).a[0]).op in ('at', 'get'))
            for what, f in (('factor', lambda t: iseq(t, 1)), ('constant', lambda t: iseq(t, 2))):
                q = Run(ctx, FBB + 'make_really_single', ['self', 'x'], fn=lambda t, f=f: A.A_FALSE if f(t) or t.op == 'bin' and t.a[0] == 'Eq' and any(undv(z) is plain_ for z in t.a[1:]) else None)
                ob('make_really_single:same ' + what, q.fr is not None and plain_ not in [undv(z) for z in alts(q.ret)], 'a known entry with another %s is taken for the expression' % what, r)
    # sums
    r = Run(ctx, FBB + 'lin_comb', ['self', 'x'])
    if r.fr is not None:
        e = r.calls('lin_comb_inner')
        es = elems(e[0].args[1]) if len(e) == 1 else set()
        cst = [z for z in es if undv(z).op == 'call' and cn(undv(z)) == 'new_const' and undv(nosite(undv(z))[0]) is F_(X, 'constant')]
        ve = [z for z in es if ivar(z) is fld(elem(F_(X, 'terms')), 'var')]
        ob('lin_comb:terms', len(es) == 2 and len(cst) == 1 and len(ve) == 1 and undv(r.ret) is undv(e[0].ret), 'a linear combination is not formed from the expressions of its variables and its constant', r)
        cs = [it for it in r.pushes(('push',)) if undv(it[4]) in [undv(z) for z in cst]]
        kn = only_iteration(cs[0][5]) if len(cs) == 1 else []
        ob('lin_comb:constant', len(kn) == 1 and cn(undv(kn[0][0])) == 'is_zero' and kn[0][1] is False and undv(nosite(undv(kn[0][0]))[0]) is F_(X, 'constant'), 'the constant of a linear combination is dropped although it is not zero', r)
        clo = undv(e[0].args[2]) if len(e) == 1 else sym('?')
        body = prog.bodies.get(clo.a[0] if isinstance(clo.a[0], str) else getattr(clo.a[0], 'path', None)) if clo.op == 'clo' else None
        vals = {}
        for inside in (True, False) if body is not None else ():
            I, fr = counterfactual(ctx, body, names=['clo', 'i'], args={0: clo}, fn=lambda t, b=inside: (A.A_TRUE if b else A.A_FALSE) if t.op == 'bin' and t.a[0] == 'Lt' and undv(t.a[1]) is sym('i') and undv(t.a[2]) is mk('call', 'len', F_(X, 'terms')) else None, opaque=())
            vals[inside] = undv(I.snap(fr.exit_state, fr.ret)) if fr.ret is not None else None
        ob('lin_comb:coefficients', vals.get(True) is fld(mk('at', F_(X, 'terms'), sym('i')), 'coef') and vals.get(False) is not None and one_(vals[False]), 'the coefficients of a linear combination are not those of its terms, and one for the constant', r)
    r = Run(ctx, FBB + 'layered_add', ['self', 'x'])
    if r.fr is not None:
        ps = [it for it in r.pushes(('push',)) if ispart(it[4], X)]
        ob('layered sum:every term', len(ps) == 1 and r.plain(ps[0][5], but=(lambda c: undv(c[0]).op == 'bin' and undv(c[0]).a[0] in ('Le', 'Lt', 'Eq'),)) and not [c for c in only_iteration(ps[0][5]) if 'last' in show(c[0])], 'a term of a sum is left out', r)
        m = r.calls('make_single')
        ft = r.calls('from_terms')
        ob('layered sum:carried', len(m) == 1 and len(ft) == 2 and undv(m[0].args[1]) in [undv(e.ret) for e in ft], 'the partial sum of the lower layers is not carried on', r)
        kn = only_iteration(m[0].known) if m else []
        tt = r.calls('to_terms')
        ob('layered sum:partial sum', len(tt) == 1 and m and undv(tt[0].args[0]) is undv(m[0].ret), 'the partial sum is not continued from its variable', r)
    r = Run(ctx, FBB + 'add_and_check_if_should_make_single', ['self', 'x'])
    if r.fr is not None:
        ps = pushed(r, 'in_var_exprs')
        m = r.calls('make_single')
        vs = [undv(p[4]) for p in ps]
        good = len(m) == 1 and undv(m[0].args[1]) is X and sorted(map(show, vs)) == sorted(map(show, [X, undv(m[0].ret)]))
        mem = r.fr.exit_state.v.get(('M', S))
        ob('result is recorded', good, 'the expression of an instruction is not recorded', r)
        tot = undv(dict(mem.a[1]).get('in_var_exprs', S)) if mem is not None and mem.op == 'upd' else None
        ob('result is recorded once', tot is not None and tot.op == 'seq', 'the expression of an instruction is not recorded exactly once', r)
    product_(ctx, ob)
    circuit_(ctx, ob)
    rc = Run(ctx, FB + 'process', ['rc'])
    if rc.fr is not None:
        roots(ctx, rc, lambda **kw: Run(ctx, FB + 'process', ['rc'], **kw), FB, None)


def product_(ctx, ob):
    """Builder::mul_vec: two factors are always replaced by their product, or by themselves in another form"""
    prog = ctx.prog
    P = FBB + 'mul_vec'
    body = ctx.body(P)
    if body is None:
        return
    opq = opq_of(prog, P) + tuple(p for p in prog.bodies if 'utils::heap' in p)
    lens = lambda t: t.op == 'bin' and t.a[0] in ('Lt', 'Gt') and all(undv(y).op == 'call' and cn(undv(y)) == 'len' for y in t.a[1:])
    deg = lambda t: t.op == 'call' and cn(t) == 'degree'

    def run(fn):
        return counterfactual(ctx, body, names=['self', 'x'], opaque=opq, nonempty=lambda s: True, mutout=lambda p: 'heap' in p, fn=fn)
    I, fr = run(lambda t: None)

    class R:
        w = where(body)
    S, X = sym('self'), sym('x')
    def first(t):
        """try_make_single of the expression of a factor, factors in any order"""
        t = undv(t)
        if not (t.op == 'call' and cn(t) in ('try_make_single', 'index', 'clone')):
            return False
        y = undv(nosite(t)[-1])
        return any(z.op == 'at' and root_field(undv(z.a[0])) == 'in_var_exprs' and ispart(undv(z.a[1]), X) for z in subterms(y))
    seen_ = [y for x in subterms(I.snap(fr.exit_state, fr.ret)) for y in [x] if first(x)] if fr.ret is not None else []
    seen_ += [undv(e.ret) for e in events(fr) if first(e.ret)]
    ob('mul_vec:factors', bool(seen_), 'the factors of a product are not the expressions of its variables', R)
    n = 0
    for sw in (A.A_FALSE, A.A_TRUE):
        I, fr = run(lambda t: sw if lens(t) else None)
        ds = []
        for e in events(fr):
            if e.path.endswith('::degree') and undv(e.args[0]) not in ds:
                ds.append(undv(e.args[0]))
        if len(ds) != 2:
            continue
        for d0, d1 in itertools.product((0, 1, 2), repeat=2):
            d = {ds[0]: d0, ds[1]: d1}
            I, fr = run(lambda t: sw if lens(t) else k(d[undv(nosite(t)[0])]) if deg(t) and undv(nosite(t)[0]) in d else some(t_(t)) if t.op == 'call' and cn(t) == 'constant_value' else None)
            ps = []
            for _f, _b, it in items(fr, 'push'):
                v = undv(it[4])
                if v.op == 'call' and cn(v) in ('from_terms', 'mul') or v.op in ('ridx', 'eidx', 'const', 'acc', 'k'):
                    continue
                x = v
                if x.op == 'call' and cn(x) == 'make_single':
                    x = undv(nosite(x)[1])
                ps.append((v, x, frozenset((c, w) for c, w in it[5] if c not in (A.A_TRUE, A.A_FALSE)), it))
            ps = [p for p in ps if any(y in ds for y in subterms(p[0]))]
            for K in {p[2] for p in ps}:
                if any(K < q[2] for q in ps):
                    continue
                g = [p for p in ps if p[2] <= K]
                n += 1
                vs = [p[0] for p in g]
                if len(g) == 2:
                    good = {p[1] for p in g} == set(ds) and 0 not in (d0, d1)
                elif len(g) == 1 and vs[0].op == 'call' and cn(vs[0]) == 'mul_constant':
                    x, c = undv(nosite(vs[0])[0]), undv(nosite(vs[0])[1])
                    cs = [undv(nosite(y)[0]) for y in subterms(c) if y.op == 'call' and cn(y) == 'constant_value']
                    good = x in ds and len(cs) >= 1 and set(cs) == set(ds) - {x} and d[cs[0]] == 0
                elif len(g) == 1 and vs[0].op == 'call' and cn(vs[0]) == 'lin_comb_inner':
                    a = nosite(vs[0])
                    ms = [y for y in subterms(undv(a[1])) if y.op == 'call' and y.a[0].endswith('Term::mul')]
                    cl = clov(ctx, a[2], sym('i'))
                    def src(t):
                        t = undv(t)
                        while t.op in ('elem', 'dv') or t.op == 'call' and cn(t) in ('deref', 'iter'):
                            t = undv(t.a[0]) if t.op != 'call' else undv(nosite(t)[0])
                        return t
                    good = (d0, d1) == (1, 1) and len(set(ms)) == 1 and {src(y) for y in nosite(ms[0])[:2]} == set(ds) and cl is not None and cf(cl) == fz(const(1))
                    es = [undv(y) for y in elems(a[1])]
                    good = good and bool(es) and all(y.op == 'call' and cn(y) == 'from_terms' for y in es)
                else:
                    good = False
                ob('mul_vec:degrees %d and %d' % (d0, d1), good, 'two factors are replaced by something other than their product: %s' % [show(v)[:100] for v in vs], R)
            ob('mul_vec:degrees %d and %d:replaced' % (d0, d1), bool(ps), 'two factors disappear', R)
    ctx.floor('ways two factors are combined', n, 0)


def t_(t):
    return mk('value', t)


def circuit_(ctx, ob):
    prog = ctx.prog
    C = sym('c')
    P = FB + 'process_circuit'
    r = Run(ctx, P, ['root', 'c'])
    if r.fr is None:
        return
    I_ = elem(F_(C, 'instructions'))

    def only(known, *allowed):
        """beyond the loops, only the instruction's own kind decides"""
        ex = r.fr.exit_state.known
        for c, v in only_iteration(known):
            if (c, v) in ex or c in (A.A_TRUE, A.A_FALSE) or show(c) == 'assumed':
                continue
            if undv(c) is I_ or undv(c) is undv(F_(I_, 'ConstantLike.0')):
                if v not in allowed:
                    return False
                continue
            if isinstance(v, str) and (undv(c).op == 'agg' or v in ('Continue', 'Ok')):
                continue
            if undv(c).op == 'call' and cn(undv(c)) == 'contains_key' and v is True:
                continue
            return False
        return any(undv(c) is I_ for c, v in known)
    ac = r.calls('add_and_check_if_should_make_single')
    for v, fn, fl in (('LinComb', 'lin_comb', 'LinComb.0'), ('Mul', 'mul_vec', 'Mul.0')):
        es = r.calls(fn)
        good = len(es) == 1 and undv(es[0].args[1]) is F_(I_, fl) and only(es[0].known, v)
        good = good and any(undv(a.args[1]) is undv(es[0].ret) and only(a.known, v) for a in ac)
        ob('build:' + v, good, 'a %s instruction is not built from its operands' % v, r)
    es = [e for e in r.calls('add_const')]
    ob('build:Constant', len(es) == 1 and undv(es[0].args[1]) is F_(I_, 'ConstantLike.0', 'Constant.0') and only(es[0].known, 'ConstantLike', 'Constant'), 'a constant does not keep its value', r)
    ps = [p for p in r.pushes(('push',)) if undv(p[4]).op == 'tup' and len(undv(p[4]).a) == 2 and undv(undv(p[4]).a[1]).op == 'agg']
    av = r.calls('add_in_vars')
    for v in ('Random', 'PublicInput'):
        got = []
        for p in ps:
            o = undv(undv(p[4]).a[1])
            if o.a[1] == 'ConstantLike':
                x = undv(o.a[3])
                if x.op == 'agg' and x.a[1] == v and (v == 'Random' or undv(x.a[3]) is F_(I_, 'ConstantLike.0', 'PublicInput.0')) and only(p[5], 'ConstantLike', v):
                    got.append(p)
        vs = [e for e in av if kval(undv(e.args[1])) == 1 and only(e.known, 'ConstantLike', v)]
        ob('build:' + v, len(got) == 1 and len(vs) == 1, 'a %s value is not copied with one fresh variable' % v, r)
    got = []
    for p in ps:
        o = undv(undv(p[4]).a[1])
        if o.a[1] == 'SubCircuitCall':
            f = dict(zip(o.a[2], o.a[3:]))
            if undv(f['sub_circuit_id']) is F_(I_, 'SubCircuitCall.sub_circuit_id') and undv(f['num_outputs']) is F_(I_, 'SubCircuitCall.num_outputs') and singles(f['inputs'], elem(F_(I_, 'SubCircuitCall.inputs'))) and only(p[5], 'SubCircuitCall'):
                got.append(p)
    vs = [e for e in av if undv(e.args[1]) is F_(I_, 'SubCircuitCall.num_outputs') and only(e.known, 'SubCircuitCall')]
    ob('build:SubCircuitCall', len(got) == 1 and len(vs) == 1, 'a sub-circuit call is not copied with its callee, operands and number of outputs', r)
    cg = r.calls('new_custom')
    good = len(cg) == 1 and cf(cg[0].args[0]) == fz(const(1)) and undv(cg[0].args[1]) is F_(I_, 'CustomGate.gate_type') and singles(cg[0].args[2], elem(F_(I_, 'CustomGate.inputs')))
    ob('build:CustomGate', good and any(undv(a.args[1]) is undv(cg[0].ret) and only(a.known, 'CustomGate') for a in ac), 'a custom gate does not keep its type and operands', r)
    ob('build:inputs', any(undv(e.args[1]) is F_(C, 'num_inputs') and not [c for c in e.known if undv(c[0]) is I_] for e in av), 'the inputs of the circuit are not its first variables', r)
    # constraints
    con = F_(C, 'constraints')
    outs = [o for o in r.ok() if o.op == 'tup']
    f = dict(zip(undv(outs[0].a[0]).a[2], undv(outs[0].a[0]).a[3:])) if len(outs) == 1 and undv(outs[0].a[0]).op == 'agg' else {}
    if not ob('build:result', f, 'shape of the result', r):
        return
    ob('build:number of inputs', undv(f['num_inputs']) is F_(C, 'num_inputs'), 'the number of inputs changes', r)
    ob('build:outputs', singles(f['outputs'], elem(F_(C, 'outputs'))), 'an output is not the variable holding its expression', r)
    isc = lambda t: ispart(t, con)
    pc = []
    for p in r.pushes(('push',)):
        v = undv(p[4])
        for y in alts(v):
            y = undv(y)
            if y.op == 'call' and cn(y) == 'make_really_single':
                pc.append(p)
                break
            if y.op == 'mu' and 'make_really_single' in show(p[4]):
                pc.append(p)
                break
    cv = [e for e in r.calls('constant_value')]
    good = len(pc) == 1 and len(cv) == 1 and all(isc(y) for y in elems(f['constraints']) if False)
    src = undv(cv[0].args[0]) if len(cv) == 1 else None
    okid = src is not None and (ivar(src) is not None and isc(ivar(src)) or any(z.op in ('part', 'elem') and isc(z) for z in subterms(src)))
    ob('build:constraint operand', okid, 'the expression checked for a constraint is not the one of its variable', r)
    if good:
        kn = [(c, v) for c, v in only_iteration(pc[0][5]) if (c, v) not in r.fr.exit_state.known]
        bad = [(c, v) for c, v in kn if not (v == 'None' and undv(c).op == 'call' and cn(undv(c)) == 'constant_value') and not (isinstance(v, str) and (undv(c).op == 'agg' or v in ('Continue', 'Ok'))) and show(c) != 'assumed' and c not in (A.A_TRUE, A.A_FALSE)]
        good = not bad
    ob('build:every constraint', good, 'a constraint that is not a constant is left out', r)
    cval = lambda t: t.op == 'call' and cn(t) == 'constant_value'
    q = Run(ctx, P, ['root', 'c'], fn=lambda t: some(sym('cst')) if cval(t) else A.A_FALSE if t.op == 'call' and cn(t) == 'is_zero' and undv(nosite(t)[0]) is sym('cst') else None)
    ob('build:violated constant', q.fr is not None and not q.success(), 'a constraint on a nonzero constant is accepted', r)
    # every table entry becomes an instruction
    iv = [p for p in r.pushes(('push',)) if undv(p[4]).op == 'agg' and undv(p[4]).a[1] == 'InternalVariable']
    if not ob('build:internal variables', len(iv) == 1, 'internal variables are not emitted by one statement', r):
        return
    mid = [y for e in r.calls('get') for y in subterms(e.args[1]) if y.op == 'ridx']
    kn = [(c, v) for c, v in only_iteration(iv[0][5]) if (c, v) not in r.fr.exit_state.known and not (isinstance(v, str) and (undv(c).op == 'agg' or v in ('Continue', 'Ok'))) and show(c) != 'assumed' and c not in (A.A_TRUE, A.A_FALSE)]
    own = [(c, v) for c, v in kn if v is False and undv(c).op == 'bin' and undv(c).a[0] == 'Eq' and any(newlin(z) and cf(newlin(z)[0]) == fz(const(1)) and newlin(z)[1].op == 'ridx' for z in undv(c).a[1:])]
    rest = [(c, v) for c, v in kn if (c, v) not in own and not (undv(c).op == 'bin' and undv(c).a[0] in ('Lt', 'Le') and 'out_insns' in show(c)) and not (undv(c).op == 'bin' and undv(c).a[0] == 'Eq' and 'out_insns' in show(c))]
    ob('build:only plain variables are not emitted', len(own) == 1 and not rest, 'an internal variable is left out: %s' % [(show(c)[:100], v) for c, v in rest], r)
    mcs = r.calls('mul_constant')
    ex = undv(dict(zip(undv(iv[0][4]).a[2], undv(iv[0][4]).a[3:]))['expr'])
    good = len(mcs) == 1
    if good:
        e2 = undv(mcs[0].ret)
        kk = undv(mcs[0].args[1])
        kk = [undv(z) for z in alts(kk)]
        good = all(z.op == 'fld' and z.a[1] == 'k' and undv(z.a[0]).op in ('at', 'get') and root_field(undv(z.a[0]).a[0]) == 'mid_var_coefs' and undv(undv(z.a[0]).a[1]).op == 'ridx' for z in kk)
        gx = [undv(z) for z in alts(undv(mcs[0].args[0]))]
        good = good and all(z.op == 'fld' and z.a[1] == 'expr' and undv(z.a[0]).op == 'call' and cn(undv(z.a[0])) == 'get' and undv(nosite(undv(z.a[0]))[1]).op == 'ridx' for z in gx)
        vs = [undv(z) for z in alts(ex)]
        fts = [z for z in vs if z is not e2]
        good = good and len(fts) == 1
        fx = fts[0] if fts else None
        good = good and fx.op == 'call' and cn(fx) == 'from_terms'
        nc = r.calls('new_const')
        nc = [e for e in nc if 'mid_var_coefs' in show(e.args[0]) or "'b'" in str(e.args[0].a[-1:])]
        good = good and len(nc) >= 1 and all(undv(z).op == 'fld' and undv(z).a[1] == 'b' and undv(undv(undv(z).a[0]).a[1]).op == 'ridx' for e in nc for z in alts(undv(e.args[0])))
        pb = [p for p in r.pushes(('push',)) if nc and undv(p[4]) is undv(nc[0].ret)]
        good = good and len(pb) == 1
        if good:
            z = [(c, v) for c, v in pb[0][5] if undv(c).op == 'call' and cn(undv(c)) == 'is_zero']
            good = (len(vs) == 1 and not z or len(vs) == 2 and len([1 for c, v in z if v is False and undv(nosite(undv(c))[0]) is undv(nc[0].args[0])]) == 1) and 'to_terms' in show(pb[0][3])[:30]
    ob('build:value of an internal variable', good, 'an internal variable is not factor * expression + constant', r)
    lo = [y for e in r.calls('get') for y in subterms(e.args[1]) if y.op == 'ridx']
    ob('build:all internal variables', bool(lo) and all(cf(y.a[0]) == cf(mk('bin', 'Add', F_(C, 'num_inputs'), k(1))) and 'stripped_mid_vars' in show(y.a[1]) and y.a[2] == 'Range' for y in lo), 'the internal variables emitted do not start after the inputs and end with the last', r)
    def copy_(t):
        """(instructions, position) of a copied instruction"""
        t = undv(t)
        ps = set()
        for y in alts(t):
            y = undv(y)
            if y.op != 'fld' or y.a[1] != '1':
                return None
            x = undv(y.a[0])
            ps.add(undv(x.a[1]) if x.op == 'at' else None)
        return ps.pop() if len(ps) == 1 else None
    cp, tail = [], False
    for p in r.pushes(('push',)):
        i = copy_(p[4])
        if i is None:
            tail |= '.out_insns' in show(p[4])[-400:] and show(p[4]).endswith('.1')
            continue
        cp.append(p)
        pos = lambda t: undv(t).op in ('fld', 'phi') and all(undv(y).op == 'fld' and undv(y).a[1] == '0' and undv(undv(y).a[0]).op == 'at' and undv(undv(undv(y).a[0]).a[1]) is i for y in alts(undv(t)))
        cmp_ = [(undv(c), v) for c, v in only_iteration(p[5]) if undv(c).op == 'bin' and any(pos(y) for y in undv(c).a[1:])]
        if not cmp_:
            tail = True
            continue
        good = False
        for c, v in cmp_:
            op_, x, y = c.a[0], undv(c.a[1]), undv(c.a[2])
            good |= v is True and (op_ == 'Eq' and {True} == {pos(z) or z.op == 'ridx' for z in (x, y)} or op_ == 'Le' and pos(x) and y.op == 'ridx' or op_ == 'Lt' and pos(x) and y.op != 'ridx' and any(z.op == 'ridx' and cf(y) == cf(mk('bin', 'Add', z, k(1))) for z in subterms(y)))
            good |= v is False and op_ == 'Lt' and x.op == 'ridx' and pos(y)
        ob('build:copied instructions:in order', good, 'an instruction is emitted when the variable being emitted is not the first one after it', r)
    if cp:
        ob('build:copied instructions:the rest', tail, 'the instructions after the last internal variable are left out', r)
    else:
        ob('build:copied instructions', tail, 'an instruction that is not an internal variable is left out', r)
    cut = [it for _f, _b, it in items(r.fr, 'trunc', 'retain') if any(ispart(y, con) for y in elems(it[3]))]
    ob('build:every constraint:kept', not cut, 'constraints are dropped before they are looked at', r)
