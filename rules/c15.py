"""Values the prover supplies are pinned down by constraints.  Wherever a gadget takes the output of a hint (quotients, remainders, inverses,
square roots, range-proof chunks, lookup counts, copies) the defining relation of that value is asserted unconditionally, limbs are
range-checked, and the lookup argument the range checks rest on compares the two sums of fractions it claims to compare."""
from rules.c14 import *
from rules import alg, c14
from rules.alg import *
from rules.c09 import unconditional, where, only_iteration

LU = 'circuit_std_rs::logup::'
FD = 'circuit_std_rs::gnark::field::'
EL = 'circuit_std_rs::gnark::element::'
UT = 'circuit_std_rs::gnark::utils::'
NN = 'circuit_std_rs::non_native::'
LB = 'circuit_std_rs::gnark::limbs::'
RULE = 'advice values: asserted relation or range check on every path'

OPQ = tuple(GF + n for n in ('get_element_sign', 'add', 'sub', 'mul', 'neg', 'mul_const', 'select', 'div', 'inverse', 'reduce', 'is_zero', 'new_hint', 'assert_is_equal', 'copy', 'enforce_width_conditional', 'enforce_width',
                             'pack_limbs', 'mul_mod', 'check_zero', 'check_mul', 'mul_pre_cond', 'call_mul_hint', 'compute_inverse_hint', 'compute_division_hint', 'wrap_hint', 'max_overflow')) + \
    tuple(FD + n for n in ('eval_with_challenge', 'MulCheck::<T>::eval_round1', 'MulCheck::<T>::eval_round2', 'MulCheck::<T>::check', 'MulCheck::<T>::clean_evaluations')) + \
    tuple(LU + n for n in ('add_rational', 'assert_eq_rational', 'sum_rational_vec', 'concat_d1', 'get_column_randomness', 'combine_columns', 'logup_poly_val',
                           'LogUpSingleKeyTable::add_query', 'LogUpRangeProofTable::rangeproof', 'LogUpRangeProofTable::rangeproof_onechunk', 'LogUpRangeProofTable::query_range')) + \
    tuple(EL + n for n in ('new_internal_element', 'value_of', 'Element::<T>::is_empty')) + tuple(UT + n for n in ('nb_multiplication_res_limbs', 'sub_padding')) + ('circuit_std_rs::utils::simple_select',) + \
    tuple(NN + n for n in ('u120::add_u120', 'u120::mul_u120', 'u120::is_less_than_u120', 'u120::range_proof_u120', 'u2048::U2048Variable::mul_without_mod_reduction',
                           'u2048::U2048Variable::assert_is_less_than', 'util::unconstrained_byte_decomposition'))


def plain(known):
    return unconditional([(c, v) for c, v in known if c not in (A.A_TRUE, A.A_FALSE) and show(c) != 'assumed'])


def LEN(t):
    return mk('call', 'len', t)


def isdef(t):
    """the empty element"""
    t = strip_any(t)
    return t.op == 'call' and cn(t) == 'default' or t.op == 'agg' and 'limbs' in t.a[2] and not elems(A_fld(t, 'limbs'))


class Go:
    """one function with the rest of the vocabulary kept symbolic"""
    def __init__(self, ctx, path, names, args=None, mem=None, fn=None, keep=(), nonempty=lambda s: True, extra=()):
        self.path = path
        self.body = ctx.body(path)
        self.fr = None
        if self.body is None:
            return
        ops = tuple(p for p in OPQ if p != path and p in ctx.prog.bodies and p not in keep) + tuple(p for p in ctx.prog.bodies if p.startswith('circuit_std_rs') and 'Clone>::clone' in p)
        ops += tuple(extra)
        self.I, self.fr = counterfactual(ctx, self.body, names=list(names), opaque=ops, nonempty=nonempty, args=args, mem=mem, fn=fn)
        self.n = Nat()

    @property
    def ret(self):
        return undv(self.I.snap(self.fr.exit_state, self.fr.ret)) if self.fr.ret is not None else None

    def calls(self, name, always=True):
        return [e for e in events(self.fr) if (e.path.rsplit('::', 1)[-1] == name or e.canon.rsplit('::', 1)[-1] == name) and (not always or self.plain(e.known))]

    def field(self, t, f):
        return A_fld(undv(t), f)

    def plain(self, known):
        """nothing but what holds whenever the function returns"""
        x = self.fr.exit_state.known if self.fr.exit_state is not None else ()
        return plain([c for c in known if c not in x])


class Nat:
    """polynomials over the native field in builder calls"""
    def __init__(self):
        self.memo = {}
        self.ids = {}
        self.names = {}

    def atom(self, t):
        t = strip_any(t)
        i = self.ids.get(t)
        if i is None:
            i = self.ids[t] = len(self.ids) + 1
            self.names[i] = show(t)[:60]
        return {(i,): 1}

    def num(self, t):
        t = undv(t)
        for _ in range(12):
            if t.op == 'cast':
                t = undv(t.a[0] if isinstance(t.a[0], T) else t.a[1])
            elif t.op == 'call' and cn(t) in STRIP + ('from', 'new', 'from_u256', 'unwrap', 'to_u64', 'from_raw') and len(nosite(t)) == 1:
                t = undv(nosite(t)[0])
            else:
                break
        v = kval(t)
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return v
        if t.op == 'bin':
            x, y = self.num(t.a[1]), self.num(t.a[2])
            if x is not None and y is not None:
                o = t.a[0].replace('WithOverflow', '').replace('Unchecked', '')
                try:
                    return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y, 'Div': lambda: x // y, 'Rem': lambda: x % y}[o]()
                except (KeyError, ZeroDivisionError):
                    return None
        return None

    def ev(self, t):
        t = strip_any(t)
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev0(t)
        return r

    def ev0(self, t):
        if t.op == 'call':
            n, a = cn(t), nosite(t)
            if 'API' in str(t.a[0]):
                if n in ('add', 'sub') and len(a) == 3:
                    return padd(self.ev(a[1]), self.ev(a[2]), 1 if n == 'add' else -1)
                if n == 'mul' and len(a) == 3:
                    return pmul(self.ev(a[1]), self.ev(a[2]))
                if n == 'neg' and len(a) == 2:
                    return padd({}, self.ev(a[1]), -1)
                if n == 'constant' and len(a) == 2:
                    v = self.num(a[1])
                    return const(v) if v is not None else self.atom(a[1])
            if n == 'simple_select' and len(a) == 4:
                s, x, y = (self.ev(z) for z in a[1:])
                return padd(pmul(s, padd(x, y, -1)), y)
        v = self.num(t)
        if v is not None:
            return const(v)
        return self.atom(t)

    show = Alg.show


def zeros(g, always=True):
    """polynomials the function constrains to zero"""
    out = []
    for e in g.calls('assert_is_equal', always):
        if len(e.args) == 3:
            out.append(padd(g.n.ev(e.args[1]), g.n.ev(e.args[2]), -1))
    for e in g.calls('assert_is_zero', always):
        if len(e.args) == 2:
            out.append(g.n.ev(e.args[1]))
    return out


def has(zs, p):
    return any(z == p or z == padd({}, p, -1) for z in zs)


def ev_fraction(g, t):
    return g.n.ev(g.field(t, 'numerator')), g.n.ev(g.field(t, 'denominator'))


# ---- lookup argument -----------------------------------------------------------------------------------------------
def fractions(ctx):
    g = Go(ctx, LU + 'add_rational', ['builder', 'p', 'q'])

    def f():
        (n1, d1), (n2, d2) = ev_fraction(g, sym('p')), ev_fraction(g, sym('q'))
        n, d = ev_fraction(g, g.ret)
        want = padd(pmul(n1, d2), pmul(n2, d1))
        return bool(d) and pmul(n, pmul(d1, d2)) == pmul(want, d), 'returns (%s)/(%s)' % (g.n.show(n), g.n.show(d))
    guarded(ctx, 'logup::add_rational adds fractions', g, f)
    g2 = Go(ctx, LU + 'assert_eq_rational', ['builder', 'p', 'q'])

    def f():
        (n1, d1), (n2, d2) = ev_fraction(g2, sym('p')), ev_fraction(g2, sym('q'))
        z = zeros(g2)
        return has(z, padd(pmul(n1, d2), pmul(n2, d1), -1)), 'asserts %s' % '; '.join(g2.n.show(p) for p in z)
    guarded(ctx, 'logup::assert_eq_rational asserts n1·d2 = n2·d1', g2, f)
    g3 = Go(ctx, LU + 'logup_poly_val', ['builder', 'vals', 'counts', 'x'])

    def f():
        r = g3.ret
        if not (r.op == 'call' and cn(r) == 'sum_rational_vec'):
            return False, 'returns %s' % show(r)[:120]
        es = elems(nosite(r)[1])
        if len(es) != 1:
            return False, '%d kinds of terms' % len(es)
        n, d = ev_fraction(g3, next(iter(es)))
        w = padd(g3.n.ev(sym('x')), g3.n.ev(elem(sym('vals'))), -1)
        cut = [s for s in subterms(nosite(r)[1]) if s.op in ('cut', 'sub')]
        return n == g3.n.ev(elem(sym('counts'))) and d in (w, padd({}, w, -1)) and not cut, 'the terms are (%s)/(%s)' % (g3.n.show(n), g3.n.show(d))
    guarded(ctx, 'logup::logup_poly_val sums count/(x - value) over all values', g3, f)
    whole_sum(ctx)


def ints(t, env):
    t = unc(t)
    if t in env:
        return env[t]
    v = kval(t)
    if isinstance(v, int) and not isinstance(v, bool):
        return v
    if t.op == 'bin':
        x, y = ints(t.a[1], env), ints(t.a[2], env)
        o = t.a[0].replace('WithOverflow', '').replace('Unchecked', '')
        return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x // y, 'Rem': lambda: x % y, 'BitAnd': lambda: x & y, 'Shr': lambda: x >> y, 'Shl': lambda: x << y,
                'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y}[o]()
    if t.op == 'un' and t.a[0] == 'Not':
        return not ints(t.a[1], env)
    if t.op == 'call' and cn(t) == 'div_ceil':
        x, y = (ints(z, env) for z in nosite(t))
        return -(-x // y)
    if t.op == 'call' and cn(t) in ('max', 'min'):
        return (max if cn(t) == 'max' else min)(*(ints(z, env) for z in nosite(t)))
    if t.op in ('max', 'min'):
        return (max if t.op == 'max' else min)(ints(t.a[0], env), ints(t.a[1], env))
    raise KeyError('integer %s' % show(t)[:80])


def whole_sum(ctx):
    """every fraction enters the sum exactly once, whatever the number of terms: evaluated on the extracted index arithmetic"""
    g = Go(ctx, LU + 'sum_rational_vec', ['builder', 'vs'])

    def f():
        fr = g.fr
        n0 = LEN(sym('vs'))
        adds = [e for e in events(fr) if e.path.endswith('::add_rational')]
        if not adds:
            return False, 'nothing is added'
        # plain accumulation
        mus = {mu: (ff, h, e, b) for ff, h, root, mu, e, b in loops(fr)}
        r = g.ret
        for x in alts(r):
            x = undv(x)
            if x in mus:
                ff, h, e, b = mus[x]
                it = trips(fr, h, ff)
                if b.op == 'call' and cn(b) == 'add_rational' and len(it) == 1:
                    ops = [strip_any(z) for z in nosite(b)[1:]]
                    oth = [z for z in ops if z is not x]
                    full = len(ops) == 2 and len(oth) == 1 and oth[0] in (elem(sym('vs')), gen(elem(sym('vs')))) or oth and undv(gen(oth[0])) is elem(sym('vs'))
                    n, d = ev_fraction(g, e)
                    if full and n == {} and cval(d) not in (0, None) and not [s for s in subterms(it[0]) if s.op == 'cut']:
                        return True, ''
        # halving: the number of live terms is the outer state
        outer = [(ff, h, mu, e, b) for ff, h, root, mu, e, b in loops(fr) if e is n0]
        if len(outer) != 1:
            return False, 'the number of remaining terms is not tracked'
        ff, h, mu, e, b = outer[0]
        known = [(c, v) for a in adds for c, v in a.known if mu in subterms(c)]
        cond = [(c, v) for c, v in known if c.op == 'bin' and isinstance(v, bool) and c.a[0] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne')]
        stores = []
        for f2, blk, it in items(fr, 'st', 'sinsert'):
            if it[0] == 'st' and isinstance(it[1], tuple) and len(it[1]) == 1:
                stores.append((blk, undv(it[1][0]), undv(it[2]), it[3], f2))
        reads = {}
        for f2, blk, it in items(fr, 'index'):
            reads.setdefault(blk, []).append(undv(it[4]))
        order = sorted(stores, key=lambda s: s[0])
        ri = lambda t: [s for s in subterms(t) if s.op == 'ridx']

        def idxs(t):
            """indices read to build a stored value"""
            out = []
            for x in alts(t):
                x = undv(x)
                if x.op == 'at':
                    out.append(undv(x.a[1]))
            return out
        for n in range(1, 130):
            env = {mu: n, n0: n}
            live = {i: {i: 1} for i in range(n)}

            def holds(known):
                for c, v in known:
                    if isinstance(v, bool) and c.op in ('bin', 'un') and not ri(c):
                        try:
                            if bool(ints(c, env)) != v:
                                return False
                        except KeyError:
                            pass
                return True
            if n == 1:
                continue
            for blk, idx, val, kn, f2 in order:
                if val.op == 'call' and cn(val) == 'add_rational':
                    rng = {s for s in ri(idx)}
                    srcs = [idxs(z) for z in nosite(val)[1:]]
                    if any(len(s) != 1 for s in srcs):
                        return False, 'operands are not indexed terms'
                    rng |= {s for q in srcs for s in ri(q[0])}
                    if len(rng) != 1:
                        return False, 'several loop variables'
                    rv = rng.pop()
                    lo, hi = ints(rv.a[0], env), ints(rv.a[1], env) + (1 if 'Inclusive' in str(rv.a[2]) else 0)
                    for i in range(lo, hi):
                        e2 = dict(env)
                        e2[rv] = i
                        x, y = (ints(s[0], e2) for s in srcs)
                        if x == y:
                            return False, 'with %d terms the term %d is added to itself' % (n, x)
                        acc = dict(live[x])
                        for q, m in live[y].items():
                            acc[q] = acc.get(q, 0) + m
                        live[ints(idx, e2)] = acc
                else:
                    if not holds(kn):
                        continue
                    s = idxs(val)
                    if len(s) != 1:
                        return False, 'a stored value is not an indexed term'
                    live[ints(idx, env)] = dict(live[ints(s[0], env)])
            n2 = ints(b, env)
            if not 1 <= n2 < n:
                return False, '%d terms are followed by %d' % (n, n2)
            tot = {}
            for i in range(n2):
                for q, m in live[i].items():
                    tot[q] = tot.get(q, 0) + m
            if tot != {i: 1 for i in range(n)}:
                bad = [i for i in range(n) if tot.get(i, 0) != 1]
                return False, 'with %d terms left the terms %s are not counted exactly once' % (n, bad[:6])
        first = [x for x in alts(r) if undv(x).op == 'at']
        if any(kval(undv(x).a[1]) not in (0,) and not (mu in subterms(x)) for x in first) and len(first) > 2:
            return False, 'another term than the first is returned'
        stop = [(c, v) for c, v in cond if c.a[0] in ('Lt', 'Gt', 'Le', 'Ge', 'Ne')]
        ok = bool(stop)
        for n in range(1, 40):
            go = all(bool(ints(c, {mu: n, n0: n})) == v for c, v in stop if not ri(c))
            if go != (n > 1):
                return False, 'the summation %s with %d terms left' % ('goes on' if go else 'stops', n)
        z = [it for f2, blk, it in items(fr, 'index') if kval(undv(it[4])) == 0]
        return ok and bool(z), 'the loop guard is not recognised'
    guarded(ctx, 'logup::sum_rational_vec adds every fraction exactly once', g, f)


def columns(ctx):
    g = Go(ctx, LU + 'get_column_randomness', ['builder', 'n'])

    def f():
        r = g.ret
        rnd = [x for x in elems(r) if cn(x) == 'get_random_value']
        rest = [x for x in elems(r) if cn(x) != 'get_random_value']
        if not rnd or any(g.n.ev(x) != const(1) for x in rest):
            return False, 'the coefficients are %s' % show(r)[:120]
        ps = [it for _f, _b, it in items(g.fr, 'push', 'insert')]
        once = [it for it in ps if cn(undv(it[4])) != 'get_random_value']
        many = [it for it in ps if cn(undv(it[4])) == 'get_random_value']
        if len(rest) != 1 or len(many) != 1 or len(once) > 1:
            return False, 'pushes are not recognised'
        drawn = [e for e in events(g.fr) if undv(e.ret) is undv(many[0][4])]
        if len(drawn) != 1 or not [z for z in drawn[0].known if z[1] == 'Some']:
            return False, 'several columns share one coefficient'
        its = [undv(it[2]) for _f, _b, it in items(g.fr, 'nxt')]
        rg = [s for t in its for s in subterms(t) if s.op == 'ridx']
        return bool(rg) and all([ints(s.a[1], {sym('n'): n}) - ints(s.a[0], {sym('n'): n}) + ('Inclusive' in str(s.a[2])) for n in (3, 5)] == [2, 4] for s in rg), 'a coefficient is missing or extra'
    guarded(ctx, 'logup::get_column_randomness draws one coefficient per column', g, f)
    g2 = Go(ctx, LU + 'combine_columns', ['builder', 'rows', 'rnd'])

    def f():
        el = [undv(x) for x in elems(g2.ret)]
        row = elem(elem(sym('rows')))
        prod = pmul(g2.n.ev(row), g2.n.ev(elem(sym('rnd'))))
        mus = {mu: (ee, bb) for ff, h, root, mu, ee, bb in loops(g2.fr)}
        seen = {}

        def ok(t):
            """partial sums of coefficient·column"""
            t = strip_any(t)
            if t in seen:
                return seen[t]
            seen[t] = True
            if t.op == 'phi':
                r = all(ok(x) for x in alts(t))
            elif t in mus:
                r = ok(mus[t][0]) and ok(mus[t][1])
            elif t.op == 'call' and cn(t) == 'add':
                a, b = nosite(t)[1:]
                r = g2.n.ev(a) == prod and ok(b) or g2.n.ev(b) == prod and ok(a)
            else:
                r = g2.n.ev(t) in ({}, prod)
            seen[t] = r
            return r
        src = [s for x in el for s in subterms(x) if s.op in ('cut', 'sub')]
        some = any(g2.n.ev(x) == prod for e in g2.calls('add') for x in e.args[1:])
        return bool(el) and some and not src and all(ok(x) for x in el), 'a row is not combined as Σ coefficient·column'
    guarded(ctx, 'logup::combine_columns takes the random combination of every column', g2, f)
    if LU + 'concat_d1' in ctx.prog.bodies:
        g3 = Go(ctx, LU + 'concat_d1', ['a', 'b'])

        def f():
            s = show(g3.ret)
            t = set(subterms(g3.ret))
            return elem(elem(sym('a'))) in t or elem(sym('a')) in t and elem(sym('b')) in t, 'returns %s' % s[:120]
        guarded(ctx, 'logup::concat_d1 joins both halves of a row', g3, f)


def sums(ctx):
    S1 = LU + 'LogUpSingleKeyTable::'
    S2 = LU + 'LogUpRangeProofTable::'
    dfn = [p for p in ctx.prog.bodies if p.startswith('circuit_std_rs::<logup::') and p.endswith('::define')]
    ctx.need(bool(dfn), 'LogUpCircuit::define', 'the lookup circuit')
    todo = [(S1 + 'final_check', 'single', None), (S1 + 'final_check_with_query_count', 'single', 'count'), (S2 + 'final_check', 'range', None), (S2 + 'final_check_with_query_count', 'range', 'count')] + \
        [(p, 'circuit', 'self.query_count') for p in dfn]
    for path, kind, cnt in todo:
        g = Go(ctx, path, ['self', 'builder', 'count'])

        def f():
            me = sym('self')
            es = g.calls('assert_eq_rational')
            if not es:
                return False, 'the two sums are not compared'
            for e in es:
                l, r = undv(e.args[1]), undv(e.args[2])
                if not all(x.op == 'call' and cn(x) == 'logup_poly_val' for x in (l, r)):
                    continue
                for x, y in ((l, r), (r, l)):
                    tv, tc, ta = (undv(z) for z in nosite(x)[1:])
                    qv, qc, qa = (undv(z) for z in nosite(y)[1:])
                    one = qc.op == 'rep' and g.n.ev(qc.a[0]) == const(1) and undv(qc.a[1]) is LEN(qv) or qc.op != 'rep' and {z for z in map(lambda z: tuple(g.n.ev(z).items()), elems(qc))} == {(((), 1),)}
                    if not one:
                        continue
                    if strip_any(ta) is not strip_any(qa) or cn(strip_any(ta)) != 'get_random_value':
                        return False, 'the sums are not evaluated at one random point'
                    if kind == 'range':
                        vals = tv is fld(me, 'table_keys') and qv is fld(me, 'query_keys')
                        tl = fld(me, 'table_keys')
                    else:
                        if not all(z.op == 'call' and cn(z) == 'combine_columns' for z in (tv, qv)):
                            return False, 'rows are not combined'
                        (t0, t1), (q0, q1) = ([undv(w) for w in nosite(z)[1:]] for z in (tv, qv))
                        if t1 is not q1 or cn(t1) != 'get_column_randomness':
                            return False, 'table and queries are combined with different coefficients'
                        w = undv(nosite(t1)[1])
                        if kind == 'single':
                            tl = fld(me, 'table')
                            vals = strip_any(t0) is tl and strip_any(q0) is fld(me, 'query_results') and show(w).startswith('len(self.table[')
                        else:
                            tl = fld(me, 'table_keys')

                            def pair(t):
                                return [undv(z) for z in nosite(t)] if t.op == 'call' and cn(t) == 'concat_d1' else None
                            vals = pair(t0) == [fld(me, 'table_keys'), fld(me, 'table_values')] and pair(q0) == [fld(me, 'query_keys'), fld(me, 'query_results')]
                            vals = vals and w.op == 'bin' and w.a[0].startswith('Add') and {show(w.a[1])[:22], show(w.a[2])[:22]} == {'len(self.table_keys[0]', 'len(self.table_values['[:22]}
                    if not vals:
                        return False, 'other rows are summed: %s / %s' % (show(tv)[:80], show(qv)[:80])
                    if cnt is None:
                        h = strip_any(tc)
                        n = undv(nosite(h)[-1]) if h.op == 'call' and cn(h) == 'new_hint' else None
                        return n is LEN(tl), 'the counts are not one hint output per table row'
                    return (strip_any(tc) is sym('count') or show(tc) == cnt), 'the counts are %s' % show(tc)[:80]
            return False, 'no comparison of the table sum with the query sum'
        guarded(ctx, '%s compares Σ count/(x-row) with Σ 1/(x-query)' % path.replace('circuit_std_rs::', '').split(' as ')[0].lstrip('<'), g, f)
    # rows and queries are recorded whole
    for name, names, what in (('new_table', ['self', 'key', 'value'], 'table'), ('add_table_row', ['self', 'key', 'value'], 'table'), ('add_query', ['self', 'key', 'value'], 'query_results')):
        g = Go(ctx, S1 + name, names, nonempty=())

        def f():
            me = undv(g.I.snap(g.fr.exit_state, g.fr.exit_state.v.get(('M', sym('self')), sym('self'))))
            got = undv(A_fld(me, what)) if me.op == 'agg' else undv(mem_field(me, what))
            new = [x for x in elems(got) if x is not elem(fld(sym('self'), what))]
            key, val = sym('key'), sym('value')
            if name == 'new_table':
                key, val = elem(key), elem(val)
            okr = []
            for x in new:
                e = {undv(gen(y)) for y in elems(x)} if x.op in ('seq', 'arr') else set()
                okr.append(e == {undv(gen(key)), elem(undv(gen(val)))})
            # the key comes first
            firsts = [undv(it[4]) for _f, _b, it in items(g.fr, 'push', 'insert')]
            return len(new) == 1 and all(okr), 'records %s' % '; '.join(show(x)[:100] for x in new)
        guarded(ctx, 'LogUpSingleKeyTable::%s records the key with its values' % name, g, f)
    g = Go(ctx, S1 + 'batch_query', ['self', 'keys', 'values'])

    def f():
        es = g.calls('add_query')
        return any(undv(gen(e.args[1])) is elem(sym('keys')) and strip_any(gen(e.args[2])) is elem(sym('values')) and same_index(e) for e in es) and fullrange(g, sym('keys')), 'not every key is queried with its own value'
    guarded(ctx, 'LogUpSingleKeyTable::batch_query queries every key with its value', g, f)
    g = Go(ctx, S1 + 'query', ['self', 'key', 'value'])

    def f():
        return any(undv(e.args[1]) is sym('key') and undv(e.args[2]) is sym('value') for e in g.calls('add_query')), 'the query is not recorded'
    guarded(ctx, 'LogUpSingleKeyTable::query records its arguments', g, f)
    for name, fl in (('query_range', 'query_keys'), ('add_table_row', 'table_keys'), ('add_query', 'query_keys')):
        if S2 + name not in ctx.prog.bodies:
            continue
        g = Go(ctx, S2 + name, ['self', 'key'])

        def f():
            ps = [it for _f, _b, it in items(g.fr, 'push', 'insert') if g.plain(it[5])]
            return any(undv(it[4]) is sym('key') and undv(it[3]) is fld(sym('self'), fl) for it in ps), 'the value is not recorded in %s' % fl
        guarded(ctx, 'LogUpRangeProofTable::%s records its argument' % name, g, f)
    g = Go(ctx, S2 + 'initial', ['self', 'builder'], keep=(S2 + 'add_table_row',))

    def f():
        ps = [it for _f, _b, it in items(g.fr, 'push', 'insert') if g.plain(it[5]) and undv(it[3]) is fld(sym('self'), 'table_keys') or it[0] == 'push']
        for it in ps:
            v = undv(it[4])
            if v.op == 'call' and cn(v) == 'constant':
                x = unc(nosite(v)[1])
                if x.op == 'ridx' and kval(x.a[0]) == 0 and 'Inclusive' not in str(x.a[2]):
                    e = undv(x.a[1])
                    return e.op == 'bin' and e.a[0].startswith('Shl') and kval(e.a[1]) == 1 and unc(e.a[2]) is fld(sym('self'), 'rangeproof_bits'), 'the table has other rows'
        return False, 'the table is not filled with 0, 1, 2, …'
    guarded(ctx, 'LogUpRangeProofTable::initial fills the table with 0..2^bits', g, f)


def mem_field(me, name):
    """field of a symbolic memory value with updates"""
    if me.op == 'upd':
        for p, v in me.a[1]:
            if p == name or p == (name,):
                return v
        return fld(me.a[0], name)
    return fld(me, name)


def same_index(e):
    x = [s for a in e.args[1:] for s in subterms(a) if s.op in ('ridx', 'eidx')]
    return len(set(x)) <= 1


def fullrange(g, coll):
    its = [undv(it[2]) for _f, _b, it in items(g.fr, 'nxt')]
    if any(s.op == 'cut' for t in its for s in subterms(t)):
        return False
    rg = [s for t in its for s in subterms(t) if s.op == 'ridx']
    return all(kval(s.a[0]) == 0 and undv(s.a[1]) is LEN(coll) and 'Inclusive' not in str(s.a[2]) for s in rg)


# ---- range proofs --------------------------------------------------------------------------------------------------
def with_field(ctx, adt, var, base, **kw):
    me = agg_of(ctx.prog, adt, var, base=base)
    return mk('agg', *[kw[me.a[2][i - 3]] if i >= 3 and me.a[2][i - 3] in kw else v for i, v in enumerate(me.a)])


def chunks(t, W, count):
    """indices of the hint outputs a value stands for"""
    t = strip_any(t)
    if t is elem(W):
        return range(count)
    if t.op == 'part' and len(t.a) == 2 and undv(t.a[0]) is elem(W):
        c = undv(t.a[1])
        if c.op == 'tup' and len(c.a) == 2 and kval(c.a[0]) in ('take', 'skip'):
            n = Nat().num(c.a[1])
            return range(0, min(n, count)) if kval(c.a[0]) == 'take' else range(n, count)
    if t.op == 'at' and undv(t.a[0]) is W:
        i = Nat().num(t.a[1])
        if i is not None:
            return range(i, i + 1)
        x = unc(t.a[1])
        if x.op == 'ridx':
            return range(ints(x.a[0], {}), ints(x.a[1], {}) + (1 if 'Inclusive' in str(x.a[2]) else 0))
    return None


def indexed(t, W, i):
    """value of a numeric term in the iteration that handles output i"""
    def f(x):
        if x.op == 'eidx' and [s for s in x.a if isinstance(s, T) and s.op == 'src' and undv(s.a[0]) is W] or x.op == 'ridx':
            return k(i)
        return x
    def g(x):
        if x.op == 'part' and kval(undv(x.a[0])) is not None:
            return x.a[0]
        return x
    return Nat().num(rewrite(rewrite(t, f), g))


def weights(g, t, W, count, mus, out, c=1):
    t = strip_any(t)
    if t in mus:
        e, b = mus[t]
        weights(g, e, W, count, mus, out, c)
        b = undv(b)
        if not (b.op == 'call' and cn(b) == 'add'):
            raise KeyError('accumulation step %s' % show(b)[:60])
        x, y = (strip_any(z) for z in nosite(b)[1:])
        if y is t:
            x, y = y, x
        if x is not t:
            raise KeyError('accumulation step %s' % show(b)[:60])
        x, fac = y, None
        if y.op == 'call' and cn(y) == 'mul':
            x, fac = nosite(y)[1:]
            if chunks(x, W, count) is None:
                x, fac = fac, x
        ch = chunks(x, W, count)
        if ch is None:
            raise KeyError('summand %s' % show(y)[:60])
        for i in ch:
            if fac is None:
                v = 1
            else:
                f2 = strip_any(fac)
                v = indexed(nosite(f2)[1] if f2.op == 'call' and cn(f2) == 'constant' else f2, W, i)
            if v is None:
                raise KeyError('factor %s' % show(fac)[:60])
            out[i] = out.get(i, 0) + v * c
        return
    if t.op == 'call' and cn(t) == 'add':
        for z in nosite(t)[1:]:
            weights(g, z, W, count, mus, out, c)
        return
    p = g.n.ev(t)
    if p == {}:
        return
    x, fac = t, 1
    if t.op == 'call' and cn(t) == 'mul':
        x, f2 = nosite(t)[1:]
        if chunks(x, W, count) is None:
            x, f2 = f2, x
        fac = cval(g.n.ev(f2))
    ch = chunks(x, W, count)
    if ch is None or len(ch) != 1 or fac is None:
        raise KeyError('summand %s' % show(t)[:60])
    out[ch[0]] = out.get(ch[0], 0) + fac * c


def ranges(ctx):
    S2 = LU + 'LogUpRangeProofTable::'

    def bounds(cs, B):
        """values v with 0 <= v + c < 2^B for every recorded c"""
        return (max(-c for c in cs), min(2 ** B - 1 - c for c in cs)) if cs else (None, None)
    for B, top in ((8, 128), (5, 23)):
        bad = []
        me = with_field(ctx, LU + 'LogUpRangeProofTable', 'LogUpRangeProofTable', sym('self'), rangeproof_bits=k(B))
        for n in range(1, top + 1):
            g = Go(ctx, S2 + 'rangeproof', ['self', 'builder', 'a', 'n'], args={3: k(n)}, mem={sym('self'): me}, keep=(S2 + 'rangeproof_onechunk', S2 + 'query_range'))
            if g.fr is None:
                return
            try:
                if g.fr.ret is None:
                    raise KeyError('never returns')
                count = -(-n // B)
                hs = g.calls('new_hint')
                W = undv(hs[0].ret) if len(hs) == 1 else None
                seen = {}
                for _f, _b, it in items(g.fr, 'push', 'insert'):
                    if 'query_keys' not in show(it[3]) or not g.plain(it[5]):
                        continue
                    p = dict(g.n.ev(it[4]))
                    c = p.pop((), 0)
                    if len(p) != 1 or list(p.values()) != [1] or len(next(iter(p))) != 1:
                        raise KeyError('query of %s' % show(it[4])[:60])
                    at = next(t for t, i in g.n.ids.items() if (i,) in p)
                    if at is sym('a'):
                        seen.setdefault('a', []).append(c if c < PMOD // 2 else c - PMOD)
                    else:
                        ch = chunks(at, W, count) if W is not None else None
                        if ch is None:
                            raise KeyError('query of %s' % show(at)[:60])
                        for i in ch:
                            seen.setdefault(i, []).append(c if c < PMOD // 2 else c - PMOD)
                if bounds(seen.get('a'), B) == (0, 2 ** n - 1):
                    continue
                if W is None:
                    raise KeyError('a value of up to %s is accepted' % (bounds(seen.get('a'), B),))
                if Nat().num(hs[0].args[-1]) != count:
                    raise KeyError('%s chunks are requested' % show(hs[0].args[-1]))
                mus = {mu: (e, b) for ff, h, root, mu, e, b in loops(g.fr)}
                bind = False
                for e in g.calls('assert_is_equal'):
                    for x, y in ((e.args[1], e.args[2]), (e.args[2], e.args[1])):
                        if strip_any(y) is sym('a'):
                            w = {}
                            weights(g, x, W, count, mus, w)
                            bind = w == {i: 2 ** (B * i) for i in range(count)}
                            if not bind:
                                raise KeyError('the chunks are weighted %s' % sorted(w.items())[:4])
                if not bind:
                    raise KeyError('the chunks are not tied to the value')
                for i in range(count):
                    want = (0, 2 ** (B if i < count - 1 else n - B * (count - 1)) - 1)
                    if bounds(seen.get(i), B) != want:
                        raise KeyError('chunk %d may lie in %s instead of %s' % (i, bounds(seen.get(i), B), want))
            except (KeyError, IndexError, TypeError, ValueError, AttributeError, StopIteration) as e:
                bad.append((n, str(e)))
        ctx.ob('LogUpRangeProofTable::rangeproof accepts exactly [0, 2^n) (%d-bit table)' % B, not bad, 'n = %s: %s' % bad[0] if bad else '', where(g.body))


# ---- emulated field ------------------------------------------------------------------------------------------------
def equiv(t, x, mod=True):
    """t is x itself or a reduction of it"""
    return all(eq1(a, x) for a in alts(undv(t)))


def eq1(t, x):
    t = strip_any(t)
    if t is x:
        return True
    if t.op == 'phi':
        return equiv(t, x)
    if t.op == 'call' and cn(t) == 'reduce' and 'GField' in str(t.a[0]):
        return equiv(nosite(t)[2], x)
    return False


def F(ctx, name, names, **kw):
    return Go(ctx, GF + name, ['self', 'native'] + names, **kw)


def bound_args(ctx):
    """operands whose limbs get range-checked by each method (least fixed point over the calls they are handed to)"""
    sig = {'add': 2, 'sub': 2, 'mul': 2, 'mul_mod': 2, 'div': 2, 'inverse': 1, 'assert_is_equal': 2, 'check_zero': 1, 'reduce': 1, 'neg': 1, 'copy': 1}
    runs, handed = {}, {}
    for m, n in list(sig.items()) + [('select', 3)]:
        g = runs[m] = F(ctx, m, ['x', 'y', 'z'] if m != 'select' else ['s', 'x', 'y'])
    done = set()
    if any(g.fr is None for g in runs.values()):
        return
    sig['select'] = 2
    syms = [sym('x'), sym('y')]
    while True:
        n0 = len(done)
        for m, g in runs.items():
            for i in range(sig[m]):
                for e in events(g.fr):
                    if not g.plain(e.known) or not e.path.startswith(GF):
                        continue
                    nm = e.path[len(GF):]
                    args = e.args[2:] if nm != 'select' else e.args[3:]
                    for j, a in enumerate(args):
                        if strip_any(a) is syms[i] and (nm == 'enforce_width_conditional' and j == 0 or (nm, j) in done):
                            done.add((m, i))
        if len(done) == n0:
            break
    for m, g in runs.items():
        miss = [('first', 'second')[i] for i in range(sig[m]) if (m, i) not in done]
        ctx.ob('GField::%s range-checks its operands' % m, not miss, 'the limbs of the %s operand are never range-checked' % ' and '.join(miss), where(g.body))


def pushed(g, adt='MulCheck'):
    out = []
    for _f, _b, it in items(g.fr, 'push', 'insert'):
        v = undv(it[4])
        if v.op == 'agg' and str(v.a[0]).endswith(adt) and g.plain(it[5]) and show(it[3]) == 'self.mul_checks':
            out.append({n: x for n, x in zip(v.a[2], v.a[3:])})
    return out


def part_of(t, base, i):
    t = strip_any(t)
    return t.op == 'fld' and str(t.a[1]) == str(i) and undv(t.a[0]) is base


def field(ctx):
    x, y = sym('x'), sym('y')
    me = sym('self')
    bound_args(ctx)
    # --- every product and every zero test is recorded for the polynomial identity check
    g = F(ctx, 'mul_mod', ['x', 'y', 'z', 'p'])

    def f():
        hs = g.calls('call_mul_hint')
        for h in hs:
            for m in pushed(g):
                a, b = strip_any(m['a']), strip_any(m['b'])
                H = undv(h.ret)
                if {a, b} == {x, y} and a is not b and [strip_any(z) for z in h.args[2:4]] == [a, b] and kval(h.args[4]) is True:
                    if part_of(m['k'], H, 0) and part_of(m['r'], H, 1) and part_of(m['c'], H, 2) and strip_any(m['p']) is sym('p'):
                        return part_of(g.ret, H, 1), 'returns %s instead of the remainder' % show(g.ret)[:80]
        return False, 'the product is not recorded with its own quotient, remainder and carries'
    guarded(ctx, 'GField::mul_mod records x·y = r + k·p + carries and returns r', g, f)
    g = F(ctx, 'check_zero', ['x', 'p'])

    def f():
        for h in g.calls('call_mul_hint'):
            for m in pushed(g):
                H = undv(h.ret)
                a, b = strip_any(m['a']), strip_any(m['b'])
                one = fld(me, 'short_one_const')
                if (a, b) == (x, one) and [strip_any(z) for z in h.args[2:4]] == [a, b] and kval(h.args[4]) is False:
                    ps = [strip_any(z) for z in alts(undv(m['p']))]
                    if part_of(m['k'], H, 0) and part_of(m['r'], H, 1) and part_of(m['c'], H, 2):
                        return all(isdef(z) or show(z).startswith('p.') or z is sym('p') for z in ps), 'another modulus is used'
        return False, 'x·1 = k·p is not recorded'
    guarded(ctx, 'GField::check_zero records x·1 = 0 + k·p + carries', g, f)
    g = F(ctx, 'assert_is_equal', ['x', 'y'])

    def f():
        for e in g.calls('check_zero'):
            d = strip_any(e.args[2])
            if d.op == 'call' and cn(d) == 'sub' and {strip_any(z) for z in nosite(d)[2:]} == {x, y}:
                p = undv(e.args[3])
                return p.op == 'agg' and p.a[1] == 'None', 'the difference is tested against another modulus'
        return False, 'the difference of the operands is not asserted to be zero'
    guarded(ctx, 'GField::assert_is_equal asserts that the difference is zero', g, f)
    g = F(ctx, 'copy', ['x'])

    def f():
        r = strip_any(g.ret)
        return any({strip_any(z) for z in e.args[2:4]} == {x, r} for e in g.calls('assert_is_equal')), 'the copy is not asserted to be equal to the original'
    guarded(ctx, 'GField::copy asserts the copy equal to the original', g, f)
    for name, names in (('div', ['x', 'y']), ('inverse', ['y'])):
        g = F(ctx, name, names)

        def f():
            r = strip_any(g.ret)
            strict = r.op == 'call' and cn(r) == 'pack_limbs' and kval(nosite(r)[3]) is True
            if not strict:
                return False, 'the result is not range-checked: %s' % show(r)[:80]
            for e in g.calls('assert_is_equal'):
                for p, q in ((e.args[2], e.args[3]), (e.args[3], e.args[2])):
                    p = strip_any(p)
                    if p.op == 'call' and cn(p) in ('mul', 'mul_mod'):
                        u, v = nosite(p)[2:4]
                        if strip_any(v) is r:
                            u, v = v, u
                        if strip_any(u) is r and equiv(v, y) and (equiv(q, x) if name == 'div' else strip_any(q) is fld(me, 'one_const')):
                            return True, ''
            return False, 'result·y is not asserted to be equal to %s' % ('x' if name == 'div' else '1')
        guarded(ctx, 'GField::%s asserts result·y = %s' % (name, 'x' if name == 'div' else '1'), g, f)
    g = F(ctx, 'mul', ['x', 'y'])

    def f():
        r = strip_any(g.ret)
        if not (r.op == 'call' and cn(r) == 'mul_mod'):
            return False, 'returns %s' % show(r)[:100]
        a, b, _, p = nosite(r)[2:6]
        return (equiv(a, x) and equiv(b, y) or equiv(a, y) and equiv(b, x)) and isdef(p), 'multiplies %s and %s' % (show(a)[:60], show(b)[:60])
    guarded(ctx, 'GField::mul multiplies its operands up to reduction', g, f)
    for strict in (True, False):
        for red in (True, False):
            for of in (0, 3):
                el = with_field(ctx, EL + 'Element', 'Element', x, mod_reduced=A.A_TRUE if red else A.A_FALSE, overflow=k(of))
                g = F(ctx, 'reduce', ['x', 'strict'], args={3: A.A_TRUE if strict else A.A_FALSE}, mem={x: el})
                may = red or not strict and of == 0

                def f():
                    for r in alts(undv(g.ret)):
                        r = strip_any(r)
                        if r is x or r.op == 'agg' and strip_any(A_fld(r, 'limbs')) in (fld(x, 'limbs'),):
                            if not may:
                                return False, 'an element is returned unreduced'
                        elif r.op == 'call' and cn(r) == 'mul_mod':
                            a, b, _, p = nosite(r)[2:6]
                            ok = strip_any(a) is x or strip_any(a).op == 'agg' and strip_any(A_fld(strip_any(a), 'limbs')) is fld(x, 'limbs')
                            if not ok or strip_any(b) is not fld(me, 'one_const') or not isdef(p):
                                return False, 'reduces %s·%s' % (show(a)[:40], show(b)[:40])
                        else:
                            return False, 'returns %s' % show(r)[:100]
                    return True, ''
                guarded(ctx, 'GField::reduce(strict=%s) of a%s element with overflow %d is the element or x·1' % (strict, ' reduced' if red else 'n unreduced', of), g, f)
    limbs(ctx)
    arith(ctx)
    hints(ctx)
    identity(ctx)


def limbs(ctx):
    """range checks on limbs"""
    x = sym('x')
    T_ = 'FieldParams'
    for strict in (True, False):
        g = F(ctx, 'enforce_width', ['x', 'strict'], args={3: A.A_TRUE if strict else A.A_FALSE})

        def f():
            es = [e for e in events(g.fr) if e.path.endswith('::rangeproof')]
            cov = set()
            for e in es:
                if show(e.args[0]) != 'self.table' or undv(gen(e.args[2])) is not elem(fld(x, 'limbs')):
                    return False, 'range-checks %s in %s' % (show(e.args[2])[:60], show(e.args[0])[:40])
                if not g.plain([z for z in e.known if not (z[0].op == 'bin' and [s for s in subterms(z[0]) if s.op in ('ridx', 'eidx')])]):
                    return False, 'the range check is conditional'
                w = {}
                for b in alts(undv(e.args[3])):
                    b = unc(b)
                    s = show(b)
                    if s == 'FieldParams::bits_per_limb()':
                        w['full'] = 1
                    else:
                        vals = [ints(rewrite(b, lambda z: k(381) if show(z) == 'BigInt::bits(FieldParams::modulus())' else k(bl) if show(z) == 'FieldParams::bits_per_limb()' else z), {}) == (380 % bl) + 1 for bl in (8, 60, 64, 7)]
                        if not all(vals):
                            return False, 'the top limb gets %s bits' % s[:100]
                        w['top'] = 1
                cov |= set(w)
                loop = [1 for _f, _b, it in items(g.fr, 'nxt') if [s for s in subterms(it[2]) if s.op == 'cut']]
                if loop or not fullrange(g, fld(x, 'limbs')):
                    return False, 'not every limb is visited'
            if strict:
                # the narrow bound applies to the top limb only
                for e in events(g.fr):
                    if e.path.endswith('BigInt::bits'):
                        c = [(t, v) for t, v in e.known if t.op == 'bin' and isinstance(v, bool)]
                        idx = [s_ for t, v in c for s_ in subterms(t) if s_.op in ('ridx', 'eidx')]
                        for n in (1, 4, 6):
                            for i in range(n):
                                env = {mk('call', 'len', fld(x, 'limbs')): n}
                                env.update({z: i for z in idx})
                                if c and idx and all(bool(ints(t, env)) == v for t, v in c) != (i == n - 1):
                                    return False, 'limb %d of %d gets the bound of the top limb, or not' % (i, n)
                return cov == {'full', 'top'}, 'the top limb is not bounded by the modulus'
            return bool(es) and 'full' in cov, 'limbs are not range-checked'
        guarded(ctx, 'GField::enforce_width(%s) range-checks every limb' % ('modulus width' if strict else 'limb width'), g, f)
    el = with_field(ctx, EL + 'Element', 'Element', x, internal=A.A_FALSE)
    g = F(ctx, 'enforce_width_conditional', ['x'], mem={x: el})

    def f():
        return any((strip_any(e.args[2]) is x or show(strip_any(A_fld(strip_any(e.args[2]), 'limbs'))) == 'x.limbs') and kval(e.args[3]) is True for e in g.calls('enforce_width')), 'the limbs of an outside element are not range-checked'
    guarded(ctx, 'GField::enforce_width_conditional checks every element that was not built inside', g, f)
    g = F(ctx, 'pack_limbs', ['l', 'strict'])

    def f():
        r = strip_any(g.ret)
        ok = r.op == 'call' and cn(r) == 'new_internal_element' and strip_any(nosite(r)[0]) is sym('l') and kval(nosite(r)[1]) == 0
        return ok and any(strip_any(e.args[2]) is r and undv(e.args[3]) is sym('strict') for e in g.calls('enforce_width')), 'the packed limbs are not range-checked'
    guarded(ctx, 'GField::pack_limbs range-checks what it packs', g, f)


def envof(t, x, y, ox, oy, nx=3, ny=3):
    """values of the overflows and lengths of the operands (or their reductions) in a term"""
    env = {}
    for z in subterms(t):
        if z.op == 'phi' or z.op in ('fld', 'call'):
            w = [undv(q) for q in alts(z)]
            for s_, o, n in ((x, ox, nx), (y, oy, ny)):
                if all(q.op == 'fld' and str(q.a[1]) == 'overflow' and equiv(q.a[0], s_) for q in w):
                    env[z] = o
                if z.op == 'call' and cn(z) == 'len':
                    if all(undv(q).op == 'fld' and str(undv(q).a[1]) == 'limbs' and equiv(undv(q).a[0], s_) for q in alts(undv(nosite(z)[0]))):
                        env[z] = n
    return env


def covers(t, x, y, want, extra=()):
    """the term is at least want(ox, oy) for all overflows"""
    for ox in range(5):
        for oy in range(5):
            env = envof(t, x, y, ox, oy)
            for q, v in extra:
                env.update({z: v for z in subterms(t) if show(z) == q})
            if ints(t, env) < want(ox, oy):
                return False
    return True


def limb_of(t, x):
    """the limbs of x (or its reduction) at one index: that index, or None"""
    idx = None
    for a in alts(undv(t)):
        a = undv(a)
        if a.op not in ('at', 'elem') or not all(undv(q).op == 'fld' and str(undv(q).a[1]) == 'limbs' and equiv(undv(q).a[0], x) for q in alts(undv(a.a[0]))):
            return None
        i = undv(a.a[1]) if a.op == 'at' else True
        if idx is not None and i is not idx:
            return None
        idx = i
    return idx


def arith(ctx):
    """limb-wise addition, subtraction and multiplication by constants, with their overflow bounds"""
    x, y = sym('x'), sym('y')
    for name in ('add', 'sub'):
        g = F(ctx, name, ['x', 'y'])

        def f():
            r = strip_any(g.ret)
            if r.op != 'call' or cn(r) != 'new_internal_element':
                return False, 'returns %s' % show(r)[:80]
            L_, of = nosite(r)
            got = {}
            for e in events(g.fr):
                if e.canon.split('::')[-1] in ('add', 'sub') and 'BasicAPI' in e.canon:
                    op = e.canon.split('::')[-1]
                    for j in (1, 2):
                        for nm, s_ in (('x', x), ('y', y)):
                            i = limb_of(e.args[j], s_)
                            if i is not None:
                                sign = '-' if op == 'sub' and j == 2 else '+'
                                got.setdefault(nm, set()).add(sign)
                                for t, v in e.known:
                                    if t.op == 'bin' and t.a[0] in ('Lt', 'Le', 'Eq', 'Ne', 'Gt', 'Ge') and i is not True and i in list(subterms(t)):
                                        for n in (2, 4):
                                            env = envof(t, x, y, 0, 0, n if nm == 'x' else 9, n if nm == 'y' else 9)
                                            for q in range(n):
                                                env[i] = q
                                                if bool(ints(t, env)) != v:
                                                    return False, 'limb %d of %d of %s is left out' % (q, n, nm)
            if got != {'x': {'+'}, 'y': {'+' if name == 'add' else '-'}}:
                return False, 'the limbs of the operands enter as %s' % {a: sorted(b) for a, b in got.items()}
            if not covers(of, x, y, (lambda a, b: max(a, b) + 1) if name == 'add' else (lambda a, b: max(a, b + 1) + 1)):
                return False, 'the overflow of the result is underestimated: %s' % show(of)[:160]
            ln = [z for z in subterms(L_) if z.op == 'rep'] + [undv(it[2]) for _f, _b, it in items(g.fr, 'nxt')]
            ends = [z.a[1] for z in ln if z.op in ('rep', 'ridx')]
            if not ends:
                return False, 'the number of limbs is not recognised'
            for z in ends:
                if not all(ints(z, envof(z, x, y, 0, 0, a, b)) >= max(a, b) for a in (2, 5) for b in (2, 5)):
                    return False, 'the result has fewer limbs than its operands'
            if name == 'sub':
                ps = [e for e in events(g.fr) if e.path.endswith('utils::sub_padding')]
                if len(ps) != 1 or not g.plain(ps[0].known):
                    return False, 'the difference is not padded'
                a = ps[0].args
                if 'FieldParams::modulus' not in show(a[0]) or show(undv(a[1])) != 'FieldParams::bits_per_limb()' or not covers(a[2], x, y, lambda p, q: q):
                    return False, 'the padding is too small: %s' % show(a[2])[:100]
                if not [1 for _f, _b, it in items(g.fr, 'st', 'push') if 'sub_padding' in show(it[2] if it[0] == 'st' else it[4])] and 'sub_padding' not in show(L_):
                    return False, 'the padding is not added'
            return True, ''
        guarded(ctx, 'GField::%s adds%s every limb within the declared overflow' % (name, ' padding, adds and subtracts' if name == 'sub' else ''), g, f)
    g = F(ctx, 'mul_const', ['x', 'c'], fn=lambda t: A.A_FALSE if cn(t) in ('is_negative', 'is_zero') else None)

    def f():
        r = strip_any(g.ret)
        if r.op != 'call' or cn(r) != 'new_internal_element':
            return False, 'returns %s' % show(r)[:80]
        L_, of = nosite(r)
        ms = [undv(z) for z in elems(L_) if cn(undv(z)) == 'mul']
        ok = ms and all(limb_of(nosite(m)[1], x) is not None and 'to_u64(c)' in show(nosite(m)[2]) or limb_of(nosite(m)[2], x) is not None and 'to_u64(c)' in show(nosite(m)[1]) for m in ms)
        if not ok:
            return False, 'the limbs are %s' % show(L_)[:100]
        if not covers(of, x, sym('-'), lambda p, q: p + 7, [('BigInt::bits(c)', 7)]):
            return False, 'the overflow of the result is underestimated: %s' % show(of)[:100]
        return True, ''
    guarded(ctx, 'GField::mul_const multiplies every limb within the declared overflow', g, f)
    g = F(ctx, 'mul_const', ['x', 'c'], fn=lambda t: A.A_TRUE if cn(t) == 'is_negative' else None)

    def f2():
        r = strip_any(g.ret)
        ok = r.op == 'call' and cn(r) == 'mul_const'
        if ok:
            u, v = nosite(r)[2:4]
            ok = cn(strip_any(u)) == 'neg' and equiv(nosite(strip_any(u))[2], x) and show(undv(v)) == 'un(Neg, c)'
        return ok, 'returns %s' % show(r)[:100]
    guarded(ctx, 'GField::mul_const by a negative constant multiplies the negation by its absolute value', g, f2)
    g = Go(ctx, GF + 'mul_pre_cond', ['self', 'x', 'y'])

    def f3():
        t = g.ret
        vals = []
        for a in alts_all(t):
            if 'log2' in show(a) or not [z for z in subterms(a) if z.op == 'call' and 'nb_multiplication' in show(z)]:
                vals.append(a)
        logs = [z for z in subterms(t) if z.op == 'call' and cn(z) == 'ceil']
        if logs and 'nb_multiplication_res_limbs(len(x.limbs), len(y.limbs))' not in show(logs[0]):
            return False, 'the number of limbs of the product is %s' % show(logs[0])[:80]
        if not logs:
            return False, 'the sum over the limbs of the product is not counted'
        for a in vals:
            if not covers(a, x, y, lambda p, q: 8 + p + q + (6 if 'log2' in show(a) else 1), [('FieldParams::bits_per_limb()', 8)] + [(show(z), 6) for z in logs] + [(show(unc(z)), 6) for z in logs]):
                return False, 'the overflow of a product is underestimated: %s' % show(a)[:120]
        return True, ''
    guarded(ctx, 'GField::mul_pre_cond bounds the limbs of a product', g, f3)
    padding(ctx)


def alts_all(t):
    """the term with every phi inside resolved to each alternative"""
    t = undv(t)
    if t.op == 'phi':
        return [b for a in alts(t) for b in alts_all(a)]
    if t.op == 'bin':
        return [mk('bin', t.a[0], p, q) for p in alts_all(t.a[1]) for q in alts_all(t.a[2])] if all(isinstance(q, T) for q in t.a[1:]) else [t]
    return [t]


def padding(ctx):
    g = Go(ctx, UT + 'sub_padding', ['p', 'bits', 'of', 'n'], extra=(LB + 'recompose', LB + 'decompose'), keep=(UT + 'sub_padding',))
    env = {sym('bits'): 9, sym('of'): 4, sym('n'): 5}

    def big(t):
        """the value of the limbs that dominate: 1 << (bits + overflow)"""
        w = [ints(a, env) for a in alts(undv(t)) if 'Default::default' not in show(a)]
        return w and min(w) >= 1 << 13

    def f():
        ds = [e for e in events(g.fr) if e.path == LB + 'decompose']
        rs = [e for e in events(g.fr) if e.path == LB + 'recompose']
        if len(ds) != 1 or len(rs) != 1:
            return False, 'the padding is not decomposed once'
        inner = [z for z in elems(rs[0].args[0]) if 'Default::default' not in show(z)]
        if not inner or not all(big(z) for z in inner) or undv(rs[0].args[1]) is not sym('bits'):
            return False, 'the pad limbs are %s' % [show(z)[:60] for z in inner]
        d = undv(ds[0].args[0])
        ok = d.op == 'bin' and d.a[0] == 'Sub' and show(undv(d.a[1])) == 'p' and undv(d.a[2]).op == 'bin' and undv(d.a[2]).a[0] == 'Rem' and undv(undv(d.a[2]).a[1]) is undv(rs[0].ret) and show(undv(undv(d.a[2]).a[2])) == 'p'
        if not ok or undv(ds[0].args[1]) is not sym('bits'):
            return False, 'decomposes %s' % show(d)[:100]
        ret = [z for z in elems(g.ret) if 'Default::default(ty' not in show(z)[:24]]
        for z in ret:
            z = undv(z)
            if z.op != 'bin' or z.a[0].replace('WithOverflow', '') != 'Add':
                return False, 'returns %s' % show(z)[:80]
            u, v = z.a[1:3]
            if 'decompose' in show(u):
                u, v = v, u
            if 'decompose' not in show(v) or 'decompose' in show(u) or not big(u):
                return False, 'returns %s' % show(z)[:80]
        return bool(ret), 'nothing is returned'
    guarded(ctx, 'sub_padding is a multiple of the modulus with limbs of at least 2^(bits + overflow)', g, f)
    g2 = Go(ctx, LB + 'recompose', ['l', 'bits'], keep=(LB + 'recompose',))

    def f2():
        r = undv(g2.ret)
        for ff, h, root, mu, e0, b in loops(g2.fr):
            if mu is r:
                b = undv(b)
                if kval(undv(e0)) != 0 or b.op != 'bin' or b.a[0] not in ('Add', 'BitOr'):
                    return False, 'the recurrence is %s' % show(b)[:80]
                u, v = map(undv, b.a[1:3])
                if u.op == 'bin' and u.a[0] == 'Shl' or u.op == 'bin' and u.a[0] == 'Mul':
                    u, v = v, u
                if not (v.op == 'bin' and v.a[0] == 'Shl' and undv(v.a[1]) is mu and undv(v.a[2]) is sym('bits')):
                    return False, 'the recurrence is %s' % show(b)[:80]
                if u.op == 'at' and u.a[0] is sym('l'):
                    ix = [z for z in subterms(u.a[1]) if z.op == 'ridx']
                    if len(ix) != 1:
                        return False, 'the limbs are taken in another order'
                    rev = [1 for _f, _b, it in items(g2.fr, 'nxt') if "'rev'" in show(it[2])]
                    for n in (1, 5):
                        env = {mk('call', 'len', sym('l')): n}
                        lo, hi = ints(ix[0].a[0], env), ints(ix[0].a[1], env) + ('Inclusive' in str(ix[0].a[2]))
                        order = [ints(u.a[1], {**env, ix[0]: i}) for i in range(lo, hi)]
                        if (order[::-1] if rev else order) != list(range(n))[::-1]:
                            return False, 'the limbs are taken in the order %s' % order
                    return True, ''
                return 'rev' in show(u) or any("rev" in show(it[2]) for _f, _b, it in items(g2.fr, 'nxt')), 'the limbs are taken in another order'
        return cn(r) in ('fold', 'rfold', 'red') or r.op == 'red', 'returns %s' % show(r)[:80]
    guarded(ctx, 'recompose is the sum of the limbs at their weights', g2, f2)
    g3 = Go(ctx, LB + 'decompose', ['v', 'bits', 'res'], keep=(LB + 'decompose',))

    def f3():
        sts = [it for _f, _b, it in items(g3.fr, 'st')]
        if not sts:
            return False, 'no limb is stored'
        for it in sts:
            z = undv(it[2])
            ok = z.op == 'bin' and z.a[0] == 'Rem' and ints(z.a[2], {sym('bits'): 6}) == 64 or z.op == 'bin' and z.a[0] == 'BitAnd' and ints(z.a[2], {sym('bits'): 6}) == 63
            if not ok:
                return False, 'a limb is %s' % show(z)[:80]
            acc = undv(z.a[1])
            m = accmap(g3.fr).get(acc)
            if m is not None and m.op == 'red':
                if 'Shr' not in str(m.a[0]) or undv(m.a[1]) is not sym('v') or undv(m.a[2]) is not sym('bits'):
                    return False, 'the value is advanced by %s' % show(m)[:60]
                continue
            sh = [(undv(e0), undv(b)) for ff, h, root, mu, e0, b in loops(g3.fr) if mu is acc]
            if not sh:
                return False, 'a limb is taken from %s' % show(acc)[:60]
            for e0, b in sh:
                if e0 is not sym('v') or not (b.op == 'bin' and b.a[0] == 'Shr' and undv(b.a[1]) is acc and undv(b.a[2]) is sym('bits')):
                    return False, 'the value is advanced to %s' % show(b)[:60]
        return True, ''
    guarded(ctx, 'decompose stores the digits of its argument', g3, f3)


def slice_of(t):
    """(collection, start, end) of a slice or copy of one; None for an open end"""
    t = strip_any(t)
    while t.op == 'call' and cn(t) in ('to_vec', 'to_owned', 'into_vec', 'collect', 'cloned') and len(nosite(t)) == 1:
        t = strip_any(nosite(t)[0])
    if t.op == 'sub':
        r = undv(t.a[1])
        if r.op == 'agg':
            d = dict(zip(r.a[2], r.a[3:]))
            return strip_any(t.a[0]), d.get('start'), d.get('end'), 'Inclusive' in str(r.a[0])
    return t, None, None, False


def linear(t):
    """integer polynomial of an index expression"""
    t = unc(t)
    v = kval(t)
    if isinstance(v, int) and not isinstance(v, bool):
        return const(v)
    if t.op == 'bin':
        o = t.a[0].replace('WithOverflow', '').replace('Unchecked', '')
        if o in ('Add', 'Sub', 'Mul'):
            p, q = linear(t.a[1]), linear(t.a[2])
            return pmul(p, q) if o == 'Mul' else padd(p, q, 1 if o == 'Add' else -1)
    LIN.setdefault(t, len(LIN) + 1)
    return {(LIN[t],): 1}


LIN = {}


def hints(ctx):
    g = F(ctx, 'new_hint', ['name', 'nb', 'inputs'])

    def f():
        hs = [e for e in events(g.fr) if e.canon.endswith('::new_hint') and not e.path.startswith(GF)]
        if len(hs) != 1 or not g.plain(hs[0].known):
            return False, 'the hint is not called once'
        h = hs[0]
        w = strip_any(h.args[2])
        if not (undv(h.args[1]) is sym('name') and w.op == 'call' and cn(w) == 'wrap_hint' and strip_any(nosite(w)[2]) is sym('inputs')):
            return False, 'hint %s of %s' % (show(h.args[1]), show(w)[:60])
        es = elems(g.ret)
        if len(es) != 1:
            return False, 'returns %s' % show(g.ret)[:100]
        r = strip_any(next(iter(es)))
        if not (r.op == 'call' and cn(r) == 'pack_limbs' and kval(nosite(r)[3]) is True):
            return False, 'the outputs are not range-checked to the modulus'
        c, lo, hi, inc = slice_of(nosite(r)[2])
        if c is not undv(h.ret) or lo is None or hi is None or inc:
            return False, 'an output is packed from %s' % show(nosite(r)[2])[:80]
        L = [s for s in list(subterms(lo)) + list(subterms(hi)) if s.op == 'call' and cn(s) == 'nb_limbs']
        nl = linear(L[0])
        i = [s for s in subterms(lo) if s.op == 'ridx']
        if len(set(i)) != 1 or kval(i[0].a[0]) != 0 or i[0].a[1] is not sym('nb') or 'Inclusive' in str(i[0].a[2]):
            return False, 'not every output is packed'
        ii = linear(i[0])
        ok = linear(lo) == pmul(ii, nl) and padd(linear(hi), linear(lo), -1) == nl and linear(h.args[3]) == pmul(nl, linear(sym('nb')))
        return ok, 'limbs of output i are taken from %s..%s' % (show(lo)[:60], show(hi)[:60])
    guarded(ctx, 'GField::new_hint range-checks every output and takes it from its own limbs', g, f)
    for flag in (True, False):
        g = F(ctx, 'call_mul_hint', ['x', 'y', 'mod'], args={4: A.A_TRUE if flag else A.A_FALSE})

        def f():
            hs = [e for e in events(g.fr) if e.canon.endswith('::new_hint')]
            if len(hs) != 1:
                return False, 'the hint is not called once'
            W = undv(hs[0].ret)
            r = undv(g.ret)
            quo, rem, car = (strip_any(A_fld(r, str(i))) if r.op == 'agg' else strip_any(r.a[i]) for i in range(3))
            if not (quo.op == 'call' and cn(quo) == 'pack_limbs' and kval(nosite(quo)[3]) is False):
                return False, 'the quotient is not range-checked'
            c, lo, q1, inc = slice_of(nosite(quo)[2])
            if c is not W or lo is not None and kval(lo) != 0 or inc:
                return False, 'the quotient is taken from elsewhere'
            tot = linear(hs[0].args[3])
            nl = [s for s in subterms(hs[0].args[3]) if s.op == 'call' and cn(s) == 'nb_limbs']
            r1 = padd(linear(q1), linear(nl[0]))
            if flag:
                if not (rem.op == 'call' and cn(rem) == 'pack_limbs' and kval(nosite(rem)[3]) is True):
                    return False, 'the remainder is not range-checked'
                c, lo, hi, inc = slice_of(nosite(rem)[2])
                if c is not W or linear(lo) != linear(q1) or linear(hi) != r1 or inc:
                    return False, 'the remainder is taken from other outputs'
            elif not isdef(rem):
                return False, 'a zero test leaves a remainder: %s' % show(rem)[:80]
            if not (car.op == 'call' and cn(car) in ('new_internal_element', 'pack_limbs')):
                return False, 'carries are %s' % show(car)[:80]
            c, lo, hi, inc = slice_of(nosite(car)[0 if cn(car) == 'new_internal_element' else 2])
            return c is W and linear(lo) == r1 and hi is None, 'the carries are taken from other outputs'
        guarded(ctx, 'GField::call_mul_hint(%s) splits quotient, remainder and carries without overlap' % ('product' if flag else 'zero test'), g, f)
        if flag:
            def f():
                r = undv(g.ret)
                car = strip_any(A_fld(r, '2') if r.op == 'agg' else r.a[2])
                ok = cn(car) == 'pack_limbs' or any(strip_any(e.args[2]) is car for e in g.calls('enforce_width')) or any(e.path.endswith('::rangeproof') and g.n.ev(e.args[2]) and [s for s in subterms(e.args[2]) if s in set(subterms(car)) and s.op == 'sub'] for e in events(g.fr))
                return ok, 'the carries of a multiplication are not range-checked: the limb identity only holds modulo the native field'
            guarded(ctx, 'GField::call_mul_hint range-checks the carries', g, f)


def identity(ctx):
    M = FD + 'MulCheck::<T>::'
    me = sym('self')
    ev = lambda n: fld(fld(me, n), 'evaluation')
    for empty in (True, False):
        def fn(t):
            if t.op == 'call' and cn(t) == 'is_empty':
                return A.A_TRUE if empty else A.A_FALSE
            return None
        g = Go(ctx, M + 'check', ['self', 'native', 'pval', 'ccoef'], fn=fn)

        def f():
            e = lambda n: g.n.ev(ev(n))
            P = g.n.ev(sym('pval')) if empty else e('p')
            w = padd(padd(padd(pmul(e('a'), e('b')), e('r'), -1), pmul(P, e('k')), -1), pmul(e('c'), g.n.ev(sym('ccoef'))), -1)
            z = zeros(g)
            return has(z, w), 'asserts %s' % '; '.join(g.n.show(p) for p in z)
        guarded(ctx, 'MulCheck::check asserts a·b = r + p·k + carries·(2^bits - x) with the %s modulus' % ('default' if empty else 'given'), g, f)
    for name, need in (('eval_round1', ('c', 'r', 'k', 'p')), ('eval_round2', ('a', 'b'))):
        g = Go(ctx, M + name, ['self', 'native', 'at'], fn=lambda t: A.A_FALSE if t.op == 'call' and cn(t) == 'is_empty' else None)

        def f():
            v = undv(g.I.snap(g.fr.exit_state, g.fr.exit_state.v[('M', me)]))
            for n in need:
                x = undv(mem_field(v, n) if v.op != 'agg' else A_fld(v, n))
                if not (x.op == 'call' and cn(x) == 'eval_with_challenge' and strip_any(nosite(x)[1]) is fld(me, n) and strip_any(nosite(x)[2]) is sym('at')):
                    return False, '%s is %s' % (n, show(x)[:80])
            return True, ''
        guarded(ctx, 'MulCheck::%s evaluates %s at the challenge' % (name, ', '.join(need)), g, f)
    g = Go(ctx, FD + 'eval_with_challenge', ['native', 'x', 'at'], mem={sym('x'): with_field(ctx, EL + 'Element', 'Element', sym('x'), is_evaluated=A.A_FALSE)},
           args={1: with_field(ctx, EL + 'Element', 'Element', sym('x'), is_evaluated=A.A_FALSE)})

    def f():
        l, at = fld(sym('x'), 'limbs'), sym('at')
        v = undv(A_fld(undv(g.ret), 'evaluation')) if undv(g.ret).op == 'agg' else undv(mem_field(undv(g.ret), 'evaluation'))
        mus = {mu: (e, b, ff, h) for ff, h, root, mu, e, b in loops(g.fr)}
        if v not in mus:
            return False, 'the value is %s' % show(v)[:100]
        e, b, ff, h = mus[v]
        inits = [g.n.ev(z) for z in alts(e)]
        first = g.n.ev(mk('at', l, k(0)))
        it = trips(g.fr, h, ff)
        rg = [s for t in it for s in subterms(t) if s.op == 'ridx']
        if len(rg) != 1 or undv(rg[0].a[1]) is not LEN(l) or 'Inclusive' in str(rg[0].a[2]):
            return False, 'not every limb is evaluated'
        lo = kval(rg[0].a[0])
        step = padd(g.n.ev(b), g.n.ev(v), -1)
        want = []
        for i in (rg[0],):
            for l_ in (mk('at', l, i), elem(l)):
                for j in [s for s in subterms(b) if s.op == 'at' and undv(s.a[0]) is at]:
                    if padd(linear(i), linear(j.a[1]), -1) == const(1):
                        want.append(pmul(g.n.ev(l_), g.n.ev(j)))
        return step in want and lo == 1 and any(z == first for z in inits) and all(z in ({}, first) for z in inits), 'limb i is not multiplied with the i-th power: %s' % g.n.show(step)
    guarded(ctx, 'eval_with_challenge is limb 0 + Σ limb i · power i', g, f)
    g = F(ctx, 'check_mul', [])

    def f():
        ch = g.calls('get_random_value')
        if len(ch) != 1:
            return False, 'the evaluation point is not one random value'
        c = undv(ch[0].ret)
        seq_ = ['eval_round1', 'eval_round2', 'check']
        mc = fld(me, 'mul_checks')
        done = {}
        for n in seq_:
            es = [e for e in events(g.fr) if e.path == M + n]
            if not es:
                return False, '%s is never called' % n
            for e in es:
                if not g.plain(e.known):
                    return False, '%s is conditional' % n
                s = show(gen(e.args[0]))
                if s not in ('self.mul_checks[*]',):
                    return False, '%s on %s' % (n, s[:60])
            done[n] = es
        if not fullrange_all(g, mc):
            return False, 'not every recorded product is checked'
        for n in seq_[:2]:
            at = undv(done[n][0].args[2])
            el = [z for z in elems(at)]
            b0 = [z for z in el if strip_any(z) is c]
            if not b0 or any(not power(g, z, c, at) for z in el if strip_any(z) is not c):
                return False, '%s gets %s' % (n, show(at)[:100])
        for e in done['check']:
            pv, cc = e.args[2], e.args[3]
            p = strip_any(pv)
            if not (p.op == 'fld' and p.a[1] == 'evaluation' and cn(undv(p.a[0])) == 'eval_with_challenge' and strip_any(nosite(undv(p.a[0]))[1]) is fld(me, 'n_const')):
                return False, 'the modulus is %s' % show(p)[:80]
            q = padd(g.n.ev(cc), g.n.ev(c))
            at = [t for t, i in g.n.ids.items() if (i,) in q]
            if len(q) != 1 or list(q.values()) != [1] or not at or 'Shl' not in show(at[0]) and 'shl' not in show(at[0]) or 'bits_per_limb' not in show(at[0]):
                return False, 'the carry coefficient is %s' % g.n.show(g.n.ev(cc))
        return True, ''
    guarded(ctx, 'GField::check_mul checks every recorded product at one random point', g, f)


def fullrange_all(g, coll):
    ok = []
    for _f, _b, it in items(g.fr, 'nxt'):
        for s in subterms(undv(it[2])):
            if s.op == 'ridx' and 'mul_checks' in show(s.a[1]) and not show(s.a[1]).startswith('mu'):
                ok.append(kval(s.a[0]) == 0 and undv(s.a[1]) is LEN(coll) and 'Inclusive' not in str(s.a[2]))
            if s.op == 'cut':
                ok.append(False)
    return all(ok)


def power(g, t, c, at):
    """product of an earlier power with the challenge"""
    t = strip_any(t)
    if t.op == 'phi':
        return all(power(g, z, c, at) or strip_any(z) is c for z in alts(t))
    return t.op == 'mu' or t.op == 'call' and cn(t) == 'mul' and any(strip_any(z) is c for z in nosite(t)[1:])


# ---- extension fields and curves --------------------------------------------------------------------------------------
def asserted(r):
    """polynomials that are zero whenever the gadget returns, unless a lookup or carry is forged"""
    out = []
    for e, p in r.equalities():
        if unconditional([(c, v) for c, v in e.known if c not in (A.A_TRUE, A.A_FALSE)]):
            out.append(p)
    return out


def zero_by(p, got):
    """p is zero or a non-zero multiple of an asserted polynomial"""
    if not p:
        return True
    m = min(p, key=lambda x: (len(x), x))
    for q in got:
        if q.get(m):
            if padd(q, pmul(p, const(q[m] * pow(p[m], -1, PMOD))), -1) == {}:
                return True
    return False


def components(v):
    return list(leaves(v))


def pins(ctx, key, path, args, rels, keep=(), consts=None, extra=()):
    r = Run(ctx, path, args, keep=keep, consts=consts, extra=extra)

    def f():
        got = asserted(r)
        for what, p in rels(r):
            if not zero_by(p, got):
                return False, '%s is not asserted: %s' % (what, r.al.show(p))
        return True, ''
    guarded(ctx, key, r, f)
    return r


def sameval(ctx, key, path, args, want):
    """a function that delegates"""
    r = Run(ctx, path, args, extra=(E2 + 'div', E2 + 'inverse', E6 + 'div', E6 + 'inverse', E12 + 'div', E12 + 'inverse'))

    def f():
        m = want(r)
        return m is None, m or ''
    guarded(ctx, key, r, f)


def towers(ctx):
    for base, ty in ((E2, 'GE2'), (E6, 'GE6'), (E12, 'GE12')):
        nm = base.rstrip(':').rsplit('::', 1)[-1]
        out = lambda r, ty=ty: r.al.comps(r.ret, ty)
        dd = lambda a, b: [('component %d' % i, padd(x, y, -1)) for i, (x, y) in enumerate(zip(leaves(a), leaves(b)))]
        if base + 'div' in ctx.prog.bodies:
            pins(ctx, '%s::div returns a quotient that multiplies back' % nm, base + 'div', ['native', 'x', 'y'],
                 lambda r, ty=ty, out=out, dd=dd: dd(MUL[ty](out(r), r.al.comps(sym('y'), ty)), r.al.comps(sym('x'), ty)))
        pins(ctx, '%s::inverse returns a value whose product with the argument is one' % nm, base + 'inverse', ['native', 'x'],
             lambda r, ty=ty, out=out, dd=dd: dd(MUL[ty](out(r), r.al.comps(sym('x'), ty)), ONE[ty]))
        if base + 'copy' in ctx.prog.bodies:
            pins(ctx, '%s::copy returns a value equal to its argument' % nm, base + 'copy', ['native', 'x'],
                 lambda r, ty=ty, out=out, dd=dd: dd(out(r), r.al.comps(sym('x'), ty)))
    pins(ctx, 'Ext6::div_e6_by_6 returns sixths', E6 + 'div_e6_by_6', ['native', 'x'],
         lambda r: [('component %d' % i, padd(pmul(r.al.ev(v), const(6)), named(r.al, 'x[%d]' % i), -1)) for i, v in enumerate(six(r))])
    if E2 + 'inverse_div' in ctx.prog.bodies:
        def f(r):
            al = r.al
            a, b = al.comps(r.ret, 'GE2'), al.quot((const(1), {}), al.comps(sym('x'), 'GE2'))
            return None if same(a, b) else 'returns something else than 1/x'
        sameval(ctx, 'Ext2::inverse_div is a division of one', E2 + 'inverse_div', ['native', 'x'], f)
    # the residue witness relation of the final exponentiation
    fe = E12 + 'assert_final_exponentiation_is_one'
    r = Run(ctx, fe, ['native', 'x'], extra=(E12 + 'frobenius', E12 + 'expt', E12 + 'mul'))

    def f():
        ms = {}
        for e in events(r.fr):
            if e.path == E12 + 'mul' and unconditional(e.known):
                ms[strip_any(e.ret)] = e.args
        al = r.al
        got = asserted(r)
        lf = rt = None
        for m, a in ms.items():
            x, y = strip_any(a[2]), strip_any(a[3])
            cs = {cn(x): x, cn(y): y}
            if set(cs) == {'frobenius', 'expt'}:
                fa, ea = [al.comps(nosite(cs[z])[2], 'GE12') for z in ('frobenius', 'expt')]
                if not same(fa, ea):
                    return False, 'the Frobenius image and the power are of different witnesses'
                lf = m
            else:
                cx, cy = al.comps(a[2], 'GE12'), al.comps(a[3], 'GE12')
                arg = al.comps(sym('x'), 'GE12')
                if same(cx, arg) or same(cy, arg):
                    o = cy if same(cx, arg) else cx
                    if not same(o[1], Z6):
                        return False, 'the scaling factor is not confined to the subfield'
                    rt = m
        if lf is None or rt is None:
            return False, 'the two sides of w^p · w^|x| = f · s are not computed'
        a, b = al.comps(lf, 'GE12'), al.comps(rt, 'GE12')
        for x, y in zip(leaves(a), leaves(b)):
            if not zero_by(padd(x, y, -1), got):
                return False, 'the two sides are not compared in full'
        return True, ''
    guarded(ctx, 'Ext12::assert_final_exponentiation_is_one asserts the residue-witness relation', r, f)


def named(al, s):
    for i, n in al.names.items():
        if n == s:
            return {(i,): 1}
    return {(0,): 1}


def six(r):
    t = undv(r.ret)
    if t.op != 'arr' or len(t.a) != 6:
        raise KeyError('returns %s' % show(t)[:80])
    return t.a


A1, B1 = (12190336318893619529228877361869031420615612348429846051986726275283378313155663745811710833465465981901188123677,
          2906670324641927570491258158026293881577086121416628140204402091718288198173574630967936031029026176254968826637280)


def swu(ctx):
    """simplified SWU: the returned point satisfies the curve equation for the abscissa that the map prescribes, with the sign of the argument"""
    for base, name, F, xi, a, b in ((G1, 'map_to_curve1', 'Fp', const(11), const(A1), const(B1)),
                                    (G2, 'map_to_curve2', 'GE2', (const(-2), const(-1)), ({}, const(240)), (const(1012), const(1012)))):
        r = Run(ctx, base + name, ['native', 'u'], extra=(E2 + 'get_e2_sign',))
        keyb = base.rstrip(':').rsplit('::', 1)[-1] + '::' + name

        def f():
            al = r.al
            mul = MUL[F]
            one = ONE[F]
            sc = lambda v, p: smul(v, p) if F != 'Fp' else pmul(v, p)
            minus = lambda v, w: tuple(padd(p, q, -1) for p, q in zip(v, w)) if F != 'Fp' else padd(v, w, -1)
            plus = lambda v, w: tuple(padd(p, q) for p, q in zip(v, w)) if F != 'Fp' else padd(v, w)
            u = al.comps(sym('u'), F)
            t1 = mul(xi, mul(u, u))
            t2 = plus(mul(t1, t1), t1)
            den = minus(ZERO[F], mul(a, t2))
            exc = None
            fl = None
            for e in events(r.fr):
                nm_ = e.path.rsplit('::', 1)[-1]
                if F == 'Fp' and nm_ == 'is_zero' and e.path.startswith(GF):
                    if al.norm(e.ret) == ('is_zero', al.fz(den)):
                        exc = al.bit(e.ret)
                elif F != 'Fp' and nm_ == 'and':
                    w = ('and',) + tuple(sorted((('is_zero', al.fz(z)) for z in den), key=repr))
                    if al.norm(e.ret) == w:
                        exc = al.bit(e.ret)
            if exc is None:
                return False, 'the exceptional case is not recognised from the denominator'
            d = plus(sc(minus(mul(xi, a), den), exc), den)
            num = mul(plus(t2, one), b)
            x0 = al.quot(num, d) if F != 'Fp' else al.quot((num,), (d,))[0]
            g0 = plus(plus(mul(x0, mul(x0, x0)), mul(a, x0)), b)
            g1_ = mul(mul(t1, mul(t1, t1)), g0)
            px, py = al.comps(A_fld(undv(r.ret), 'x'), F), al.comps(A_fld(undv(r.ret), 'y'), F)
            for e in events(r.fr):
                if e.path.startswith(GF) and e.path.rsplit('::', 1)[-1] == 'is_zero' and 'new_hint' in show(e.args[2])[:60]:
                    fb = al.bit(e.ret)
                    if same(plus(sc(minus(mul(t1, x0), x0), fb), x0), px):
                        fl = fb
            if fl is None:
                return False, 'the abscissa is not x0 or Z·u²·x0'
            y2 = mul(py, py)
            eq = minus(plus(sc(minus(g1_, g0), fl), g0), y2)
            got = asserted(r)
            for p in components(eq):
                if not zero_by(p, got):
                    return False, 'the ordinate is not asserted to be a root of the curve equation: %s' % al.show(p)
            sgn = False
            for e in events(r.fr):
                if (e.canon.endswith('::assert_is_equal') or e.path.endswith('::assert_is_equal')) and not e.path.startswith(GF) and len(e.args) == 3 and plain(e.known):
                    s = [sgn0(al, z, F) for z in e.args[1:]]
                    if None not in s and any(same(s[0], p_) and same(s[1], q_) for p_, q_ in ((u, py), (py, u))):
                        sgn = True
            return sgn, 'the sign of the ordinate is not tied to the sign of the argument'
        guarded(ctx, '%s returns a point of the isogenous curve with the abscissa and sign of the map' % keyb, r, f)


def sgn0(al, t, F):
    """the value whose sign a native variable holds"""
    t = strip_any(t)
    if F == 'Fp':
        return al.ev(nosite(t)[2]) if cn(t) == 'get_element_sign' else None
    if cn(t) != 'get_e2_sign':
        return None
    v = al.comps(nosite(t)[2], F)
    return v if al.norm(nosite(t)[3]) == ('is_zero', al.fz(v[0])) else None


def e2sign(ctx):
    g0 = Go(ctx, GF + 'get_element_sign', ['self', 'native', 'x'])

    def f0():
        t = strip_any(g0.ret)
        if t.op not in ('index', 'idx', 'get', 'cell', 'at') and not (t.a and isinstance(t.a[0], T)):
            return False, 'returns %s' % show(t)[:80]
        b, i = strip_any(t.a[0]), t.a[1]
        if cn(b) != 'to_binary' or kval(i) != 0:
            return False, 'returns %s' % show(t)[:80]
        return show(strip_any(nosite(b)[1])) == 'x.limbs[0]', 'of %s' % show(nosite(b)[1])[:80]
    guarded(ctx, 'GField::get_element_sign is the low bit of the representative', g0, f0)
    g = Go(ctx, E2 + 'get_e2_sign', ['self', 'native', 'x', 'f'])

    def f():
        s = {}
        al = Alg()
        for e in events(g.fr):
            if e.path.startswith(GF) and e.path.endswith('get_element_sign'):
                s[show(strip_any(e.args[2]))] = g.n.ev(e.ret)
        if set(s) != {'x.a0', 'x.a1'}:
            return False, 'the signs of %s are used' % sorted(s)
        b0, b1, z = s['x.a0'], s['x.a1'], g.n.ev(sym('f'))
        w = pmul(z, b1)
        return padd(g.n.ev(g.ret), padd(padd(b0, w), pmul(b0, w), -1), -1) == {}, 'computes %s' % g.n.show(g.n.ev(g.ret))
    guarded(ctx, 'Ext2::get_e2_sign is sgn0 of an extension element', g, f)


MU_ = ('circuit_std_rs::sha256::m31_utils::big_less_than', 'circuit_std_rs::sha256::m31_utils::from_binary', 'circuit_std_rs::utils::simple_select')


def decompress(ctx):
    """a decompressed point lies on the curve, and the ordinate is negated exactly when the flag bits ask for the other root"""
    for base, F, b in ((G1, 'Fp', const(4)), (G2, 'GE2', (const(4), const(4)))):
        r = Run(ctx, base + 'uncompressed', ['native', 'bytes'], extra=MU_)
        nm = base.rstrip(':').rsplit('::', 1)[-1]

        def f():
            al = r.al
            mul = MUL[F]
            x, y = al.comps(A_fld(undv(r.ret), 'x'), F), al.comps(A_fld(undv(r.ret), 'y'), F)
            got = asserted(r)
            nat = Nat()
            for e in events(r.fr):
                if not (e.path.rsplit('::', 1)[-1] == 'is_zero' and not e.path.startswith(GF) and plain(e.known)):
                    continue
                s = al.bit(e.ret)
                (m,) = s
                # y = y0 - 2·s·y0
                y0 = tuple(without(p, m[0]) for p in (leaves(y)))
                if not all(padd(p, padd(q, pmul(pmul(s, q), const(-2)))  , -1) == {} for p, q in zip(leaves(y), y0)):
                    continue
                v = y0 if F != 'Fp' else y0[0]
                rhs = mul(x, mul(x, x))
                rhs = padd(rhs, b) if F == 'Fp' else add(rhs, b)
                for p, q in zip(leaves(mul(v, v)), leaves(rhs)):
                    if not zero_by(padd(p, q, -1), got):
                        return False, 'the ordinate is not asserted to be a root of x³ + b'
                return flagged(r, al, nat, e, v)
            return False, 'the ordinate is not a root or its negative'
        guarded(ctx, '%s::uncompressed returns the root that the flag bits name' % nm, r, f)


def without(p, i):
    return {m: c for m, c in p.items() if i not in m}


def flagged(r, al, nat, e, v):
    d = strip_any(e.args[1])
    if cn(d) != 'sub':
        return False, 'the flag test is %s' % show(d)[:80]
    ab = [strip_any(z) for z in nosite(d)[1:]]
    sel = [z for z in ab if cn(z) == 'simple_select']
    msk = [z for z in ab if cn(z) == 'from_binary']
    if len(sel) != 1 or len(msk) != 1:
        return False, 'the flag test is %s' % show(d)[:80]
    # 5 zero bits, then the upper three bits of the first byte
    bits = nosite(msk[0])[1]
    ok = False
    for t in subterms(bits):
        if t.op == 'sub' and cn(strip_any(t.a[0])) == 'to_binary' and kval(nosite(strip_any(t.a[0]))[2]) == 8 and 'start: 5' in show(t.a[1]):
            ok = True
    pads = [t for t in subterms(bits) if t.op == 'rep' and kval(t.a[1]) == 5]
    if not ok or not pads:
        return False, 'the flag bits are %s' % show(bits)[:120]
    _n, large, small_, large_ = nosite(sel[0])
    lg = strip_any(large)
    if cn(lg) == 'sub' and nat.ev(nosite(lg)[1]) == const(1):
        # 1 - c selects the other way round
        large, small_, large_ = nosite(lg)[2], large_, small_
    if [nat.ev(small_), nat.ev(large_)] != [{(): 128}, {(): 160}]:
        return False, 'the flags are %s and %s' % (show(small_), show(large_))

    def half(t, w):
        t = strip_any(t)
        if cn(t) != 'big_less_than':
            return False
        a = nosite(t)
        if kval(a[1]) != 8 or kval(a[2]) != 48:
            return False
        h, q = strip_any(a[3]), strip_any(a[4])
        if not (h.op == 'fld' and q.op == 'fld'):
            return False
        hv = strip_any(h.a[0])
        c = nosite(hv)[-1] if cn(hv) in ('value_of', 'new_const_element') else None
        while c is not None and undv(c).op == 'call' and len(nosite(undv(c))) == 1:
            c = nosite(undv(c))[0]
        c = undv(c) if c is not None else None
        return c is not None and halfp(al, c) and same(al.ev(q.a[0]), w)
    if isinstance(v, dict):
        return half(large, v), 'the larger root is told apart by %s' % show(large)[:120]
    s = strip_any(large)
    if cn(s) != 'simple_select':
        return False, 'the larger root is told apart by %s' % show(s)[:120]
    _n, z, l0, l1 = nosite(s)
    good = al.norm(z) == ('is_zero', al.fz(v[1])) and half(l0, v[0]) and half(l1, v[1])
    return good, 'the larger root is told apart by %s' % show(s)[:120]


def halfp(al, c):
    v = al.num(c)
    if v is None and c.op == 'bin' and c.a[0] == 'Div':
        a, b = al.num(c.a[1]), al.num(c.a[2])
        if a is None:
            z = undv(c.a[1])
            while z.op in ('fld', 'dv') or z.op == 'call' and len(nosite(z)) == 1:
                z = undv(z.a[0] if z.op != 'call' else nosite(z)[0])
            a = al.num(z)
        v = a // b if a is not None and b else None
    return v == PMOD // 2


# ---- 2048-bit integers over the native field ---------------------------------------------------------------------------
UB = NN + 'u2048::U2048Variable::'


def rng(t):
    """integer range of an index"""
    v = idxc(t)
    return range(v, v + 1) if isinstance(v, int) else range(v[1], v[2] + 1)


def idxc(t):
    t = undv(t)
    v = kval(t)
    if isinstance(v, int):
        return int(v)
    if t.op in ('cdef', 'cparam') and str(t.a[0]).endswith('N_LIMBS'):
        return NLIMBS
    if unc(t) is not t:
        return idxc(unc(t))
    if t.op == 'bin':
        x, y = idxc(t.a[1]), idxc(t.a[2])
        o = t.a[0].replace('WithOverflow', '').replace('Unchecked', '')
        if isinstance(x, int) and isinstance(y, int):
            return {'Sub': x - y, 'Add': x + y, 'Mul': x * y}[o]
        if isinstance(y, int) and o in ('Add', 'Sub'):
            d = y if o == 'Add' else -y
            return ('i', x[1] + d, x[2] + d)
        if isinstance(x, int) and o == 'Add':
            return ('i', x + y[1], x + y[2])
    if t.op == 'ridx':
        return ('i', idxc(t.a[0]), idxc(t.a[1]) + (0 if 'Inclusive' in str(t.a[2]) else -1))
    raise KeyError('index %s' % show(t)[:60])


NLIMBS = 18


def lim(t):
    """(collection, index term) of a limb"""
    t = strip_any(t)
    if t.op in ('at', 'elem') and len(t.a) == 2:
        return strip_any(t.a[0]), t.a[1]
    return t, None


def biguint(ctx):
    names = ['x', 'y', 'r', 'c', 'm', 't', 'b']
    for fname in ('add_u120', 'mul_u120'):
        g = Go(ctx, NN + 'u120::' + fname, ['x', 'y', 'ci', 't', 'b'], keep=(NN + 'u120::' + fname,))

        def f():
            if not (g.ret.op == 'tup' and len(g.ret.a) == 2):
                return False, 'returns %s' % show(g.ret)[:80]
            lo, hi = (g.n.ev(z) for z in g.ret.a)
            x, y, ci, t = (g.n.ev(sym(z)) for z in ('x', 'y', 'ci', 't'))
            left = padd(padd(x, y) if fname == 'add_u120' else pmul(x, y), ci)
            d = padd(padd(lo, pmul(hi, t)), left, -1)
            if d and not any(zero_by(d, [padd(g.n.ev(e.args[1]), g.n.ev(e.args[2]), -1)]) for e in g.calls('assert_is_equal')):
                return False, 'result + carry·2^120 differs from the operation by %s' % g.n.show(d)
            if fname == 'add_u120' and not any(g.n.ev(e.args[1]) == hi for e in g.calls('assert_is_bool')):
                return False, 'the carry is not asserted to be a bit'
            return True, ''
        guarded(ctx, 'u120::%s returns result and carry of the operation' % fname, g, f)
    g2 = Go(ctx, NN + 'u120::accumulate_u120', ['x', 't', 'b'])

    def f():
        if not (g2.ret.op == 'tup' and len(g2.ret.a) == 2):
            return False, 'returns %s' % show(g2.ret)[:80]
        lo, hi = (g2.n.ev(z) for z in g2.ret.a)
        right = padd(lo, pmul(hi, g2.n.ev(sym('t'))))
        for e in g2.calls('assert_is_equal'):
            p, q = g2.n.ev(e.args[1]), g2.n.ev(e.args[2])
            for u, v, vt in ((p, q, e.args[2]), (q, p, e.args[1])):
                if u == right:
                    return accumulated(g2, vt), 'the sum is %s' % show(vt)[:120]
        return False, 'result + carry·2^120 is not asserted to be the sum'
    guarded(ctx, 'u120::accumulate_u120 asserts the sum of its arguments', g2, f)
    g3 = Go(ctx, UB + 'assert_mul', names, keep=())

    def f():
        e = g3.calls('mul_without_mod_reduction')
        prods = {strip_any(z.ret): tuple(show(strip_any(q)) for q in z.args[:2]) for z in e}
        left = [z for z, a in prods.items() if set(a) == {'x', 'y'}]
        right = [z for z, a in prods.items() if set(a) == {'c', 'm'}]
        if len(left) != 1 or len(right) != 1 or len(prods) != 2:
            return False, 'the products are %s' % sorted(prods.values())
        adds = [z for z in events(g3.fr) if z.path.endswith('u120::add_u120')]
        seen = {}
        for z in adds:
            if not g3.plain(only_iteration(z.known)):
                return False, 'an addition is conditional'
            if g3.n.ev(z.args[3]) != g3.n.ev(sym('t')):
                return False, 'the radix is %s' % show(z.args[3])[:60]
            side = [(w, lims(q)) for q in z.args[:2] for w in [q]]
            idx = None
            oper = None
            for q in z.args[:2]:
                for a in alts(q):
                    b, i = lim(a)
                    if b is right[0] and i is not None:
                        idx, oper = i, q
            if idx is None:
                return False, 'an addition does not involve the product of carry and modulus'
            other = [q for q in z.args[:2] if q is not oper][0]
            ob, oi = lim(other)
            if g3.n.ev(other) != {} and not (show(ob) == 'r.limbs' and undv(oi) is undv(idx)):
                return False, '%s is added to limb %s' % (show(other)[:60], show(idx)[:40])
            st = [it for _f, _b, it in items(g3.fr, 'st') if isinstance(it[1], tuple) and any(nosite(w)[0:1] and strip_any(w).op == 'fld' and strip_any(strip_any(w).a[0]) is strip_any(z.ret) for w in [it[2]] if w.op in ('fld', 'call', 'dv'))]
            for i in rng(idx):
                if i in seen:
                    return False, 'limb %d receives two additions' % i
                seen[i] = show(ob) == 'r.limbs'
            if not carried(g3, z):
                return False, 'the carry of a limb does not enter the next one'
        if set(i for i, w in seen.items() if w) != set(range(NLIMBS)) or set(seen) != set(range(2 * NLIMBS)):
            return False, 'limbs %s receive the result, %s a carry' % (sorted(i for i, w in seen.items() if w), sorted(seen))
        cmp = set()
        for z in g3.calls('assert_is_equal', always=False):
            if not g3.plain(only_iteration(z.known)):
                continue
            sides = [[lim(a) for a in alts(q)] for q in z.args[1:3]]
            for p, q in (sides, sides[::-1]):
                li = [i for b, i in p if b is left[0]]
                ri_ = [i for b, i in q if b is right[0]]
                if li and ri_ and undv(li[0]) is undv(ri_[0]) and len(p) == 1:
                    cmp |= set(rng(li[0]))
                # both products walked in step, from their first limb to their last
                el = [[strip_any(w.a[0]) for w in alts(z) if w.op == 'elem'] for z in (z.args[1], z.args[2])]
                el = el if p is sides[0] else el[::-1]
                if el[0] == [left[0]] and el[1] == [right[0]]:
                    cmp |= set(range(2 * NLIMBS))
        return cmp == set(range(2 * NLIMBS)), 'limbs %s are compared' % sorted(cmp)
    guarded(ctx, 'U2048::assert_mul asserts x·y = result + carry·modulus on every limb', g3, f)
    g4 = Go(ctx, UB + 'assert_add', names)

    def f():
        if not any(g4.n.ev(e.args[1]) == g4.n.ev(sym('c')) for e in g4.calls('assert_is_bool', always=False) if g4.plain(only_iteration(e.known))):
            return False, 'the carry is not asserted to be a bit'
        lt = [e for e in g4.calls('assert_is_less_than', always=False) if show(strip_any(e.args[0])) == 'r' and show(strip_any(e.args[1])) == 'm']
        eq = [e for e in g4.calls('assert_is_equal', always=False) if lt and any(strip_any(q) is strip_any(lt[0].ret) for q in e.args[1:3]) and {(): 1} in [g4.n.ev(q) for q in e.args[1:3]]]
        if not eq:
            return False, 'the result is not asserted to be below the modulus'
        sums = [e for e in events(g4.fr) if e.path.endswith('u120::add_u120')]
        kind = {}
        for e in sums:
            p = [lim(q) for q in e.args[:2]]
            nm_ = tuple(sorted(show(b) if i is not None else show(strip_any(q))[:60] for (b, i), q in zip(p, e.args)))
            if 'x.limbs' in nm_ and 'y.limbs' in nm_ and p[0][1] is p[1][1]:
                kind['sum'] = e, p[0][1]
            elif 'r.limbs' in nm_:
                q = [z for z, (b, i) in zip(e.args[:2], p) if show(b) != 'r.limbs'][0]
                i = [i for b, i in p if show(b) == 'r.limbs'][0]
                ps = [lim(z) for z in nosite(strip_any(q))[1:]] if cn(strip_any(q)) == 'mul' else []
                fs = [strip_any(z) for z in nosite(strip_any(q))[1:]] if ps else []
                if len(fs) == 2 and any(show(z) == 'c' for z in fs) and any(show(b) == 'm.limbs' and j is i for b, j in ps):
                    kind['right'] = e, i
            if not carried(g4, e):
                return False, 'the carry of a limb does not enter the next one'
        if set(kind) != {'sum', 'right'} or len(sums) != 2 or any(set(rng(i)) != set(range(NLIMBS)) for e, i in kind.values()):
            return False, 'the two sides are not computed over all limbs'
        for e in g4.calls('assert_is_equal', always=False):
            s = [show(q)[:400] for q in e.args[1:3]]
            a = [[fldof_(z) for z in alts(q)] for q in e.args[1:3]]
            for p, q in (a, a[::-1]):
                if any(z is strip_any(kind['right'][0].ret) for z in p) and any(same_call(z, kind['sum'][0]) for z in q) and g4.plain(only_iteration(e.known)):
                    last = [z for z in g4.calls('assert_is_zero', always=False) if g4.plain(only_iteration(z.known)) and from_carry(g4, z.args[1])]
                    return bool(last), 'the last carry is not asserted to be zero'
        return False, 'the two sides are not compared'
    guarded(ctx, 'U2048::assert_add asserts x + y = result + carry·modulus with a reduced result', g4, f)
    products(ctx)
    rsa(ctx)


def lims(q):
    return [lim(a) for a in alts(q)]


def fldof_(z):
    z = strip_any(z)
    return strip_any(z.a[0]) if z.op == 'fld' else z


def same_call(z, e):
    return z.op == 'call' and cn(z) == 'add_u120' and [show(q) for q in nosite(z)[:2]] == [show(strip_any(q)) for q in e.args[:2]]


def carried(g, e):
    """the carry operand is zero at first and then the carry of the previous step"""
    c = strip_any(e.args[2])
    for ff, h, root, mu, e0, b in loops(g.fr):
        if mu is c:
            back = strip_any(b)
            ok = back.op == 'fld' and str(back.a[1]) == '1' and strip_any(back.a[0]) is strip_any(e.ret)
            init = g.n.ev(e0) == {} or from_carry(g, e0)
            return ok and init
    return False


def from_carry(g, t):
    """the carry a finished loop leaves behind"""
    for x in alts(t):
        x = strip_any(x)
        if x.op == 'fld' and str(x.a[1]) == '1' and cn(strip_any(x.a[0])) == 'add_u120' or g.n.ev(x) == {}:
            continue
        if x.op == 'mu' and any(mu is x and strip_any(b).op == 'fld' and str(strip_any(b).a[1]) == '1' and cn(strip_any(strip_any(b).a[0])) == 'add_u120' for ff, h, root, mu, e0, b in loops(g.fr)):
            continue
        return False
    return True


def accumulated(g, t):
    """x0 + x1 + … over the whole slice"""
    for x in alts(t):
        x = strip_any(x)
        if x.op == 'mu':
            for ff, h, root, mu, e0, b in loops(g.fr):
                if mu is x:
                    bt = strip_any(b)
                    if cn(bt) != 'add':
                        return False
                    oth = [z for z in nosite(bt)[1:] if strip_any(z) is not mu]
                    if len(oth) != 1:
                        return False
                    o = strip_any(oth[0])
                    skipped = 0
                    if o.op == 'part' and o.a[1].op == 'tup' and show(o.a[1].a[0]).strip("'") == 'skip':
                        skipped = kval(o.a[1].a[1])
                        o = strip_any(o.a[0])
                    if o.op not in ('elem', 'at') or show(strip_any(o.a[0])) != 'x':
                        return False
                    e0 = strip_any(e0)
                    if o.op == 'at':
                        i_ = undv(o.a[1])
                        if i_.op != 'ridx' or 'Inclusive' in str(i_.a[2]) or show(undv(i_.a[1])) not in ('len(x)', 'x.len'):
                            return False
                        lo = kval(undv(i_.a[0]))
                        return show(e0) == 'x[0]' and lo == 1 or g.n.ev(e0) == {} and lo == 0
                    return show(e0) == 'x[0]' and skipped == 1 or g.n.ev(e0) == {} and skipped == 0
            return False
        return cn(x) in ('sum', 'fold')
    return False


def products(ctx):
    """schoolbook multiplication: low half to position i+j, high half to i+j+1, their carries one further, then one carry pass"""
    g = Go(ctx, UB + 'mul_without_mod_reduction', ['x', 'y', 't', 'b'])

    def f():
        ms = [e for e in events(g.fr) if e.path.endswith('u120::mul_u120')]
        if len(ms) != 1:
            return False, '%d products' % len(ms)
        m = ms[0]
        (xb, xi), (yb, yi) = lim(m.args[0]), lim(m.args[1])
        if {show(xb), show(yb)} != {'x.limbs', 'y.limbs'} or any(set(rng(i)) != set(range(NLIMBS)) for i in (xi, yi)) or not g.plain(only_iteration(m.known)):
            return False, 'the limbs multiplied are %s and %s' % (show(xb), show(yb))
        if g.n.ev(m.args[2]) != {} or g.n.ev(m.args[3]) != g.n.ev(sym('t')):
            return False, 'a product gets another carry or radix'
        place = {}
        for _f, blk, it in items(g.fr, 'st'):
            if not isinstance(it[1], tuple) or len(it[1]) != 1:
                continue
            place.setdefault(blk, []).append((undv(it[1][0]), undv(it[2])))
        adds = [e for e in events(g.fr) if e.path.endswith('u120::add_u120')]
        off = {}
        outs = {}
        final = None
        for e in adds:
            mr = strip_any(m.ret)
            half = None
            for q in e.args[:2]:
                z = strip_any(q)
                if z.op == 'fld' and strip_any(z.a[0]) is mr:
                    half = str(z.a[1])
            if half is None:
                final = e
                continue
            if g.n.ev(e.args[2]) != {}:
                return False, 'a partial sum gets a carry'
            off[half] = e
        if set(off) != {'0', '1'} or final is None or len(adds) != 3:
            return False, 'the halves %s of a product are added' % sorted(off)
        delta = {}
        carry = {}
        for b, l in place.items():
            for i, v in l:
                for h, e in off.items():
                    z = strip_any(v)
                    if z.op == 'fld' and strip_any(z.a[0]) is strip_any(e.ret) and str(z.a[1]) == '0':
                        delta.setdefault(h, set()).add(shift(i, xi, yi))
                    if cn(z) == 'add' and any(w.op == 'fld' and strip_any(w.a[0]) is strip_any(e.ret) and str(w.a[1]) == '1' for w in map(strip_any, nosite(z)[1:])):
                        carry.setdefault(h, set()).add(shift(i, xi, yi))
        if delta != {'0': {0}, '1': {1}}:
            return False, 'the halves of x[i]·y[j] go to positions i+j+%s' % {k_: sorted(map(str, v)) for k_, v in delta.items()}
        if carry != {'0': {1}, '1': {2}}:
            return False, 'the carries go to positions i+j+%s' % {k_: sorted(map(str, v)) for k_, v in carry.items()}
        if not carried(g, final):
            return False, 'the last pass does not propagate its carry'
        tg = [i for l in place.values() for i, v in l if strip_any(v).op == 'fld' and strip_any(strip_any(v).a[0]) is strip_any(final.ret) and str(strip_any(v).a[1]) == '0']
        if len(tg) != 1 or set(rng(tg[0])) != set(range(2 * NLIMBS)) or not g.plain(only_iteration(final.known)):
            return False, 'the last pass does not visit every limb'
        return True, ''
    guarded(ctx, 'U2048::mul_without_mod_reduction adds every partial product at its position', g, f)


def shift(i, xi, yi):
    """d with i = xi + yi + d"""
    n = 0
    vs = []

    def go(t, s):
        nonlocal n
        t = unc(undv(t))
        v = kval(t)
        if isinstance(v, int):
            n += s * v
        elif t.op == 'bin' and t.a[0].replace('WithOverflow', '').replace('Unchecked', '') in ('Add', 'Sub'):
            go(t.a[1], s)
            go(t.a[2], s if t.a[0].startswith('Add') else -s)
        else:
            vs.append((t, s))
    go(i, 1)
    if sorted(id(t) for t, s in vs) == sorted(id(unc(undv(z))) for z in (xi, yi)) and all(s == 1 for t, s in vs):
        return n
    return show(i)[:60]


def rsa(ctx):
    ps = [p for p in ctx.prog.bodies if p.startswith('rsa_circuit_bin::<RSACircuit<') and p.endswith('>::define')]
    ctx.floor('circuits of the RSA example', len(ps), 1)
    if not ps:
        return
    g = Go(ctx, ps[0], ['self', 'b'], extra=(UB + 'assert_mul', UB + 'from_raw'))

    def f():
        ms = [e for e in g.calls('assert_mul', always=False)]
        if any(not g.plain(only_iteration(e.known)) for e in ms):
            return False, 'a multiplication is asserted conditionally'
        idx = []
        for f2, blk, it in items(g.fr, 'index'):
            b = show(it[3])
            for nm_ in ('x_powers', 'mul_carries'):
                if nm_ in b:
                    idx.append((f2, blk, nm_, rng(it[4]), it[4]))
        seen = {'first': 0, 'sq': 0, 'last': 0}
        for e in ms:
            raw = [show(nosite(strip_any(a))[0]) if cn(strip_any(a)) == 'from_raw' else show(strip_any(a)) for a in e.args[:5]]
            if raw[4] != 'self.n' or 'BN_TWO_TO_120' not in show(e.args[5]):
                return False, 'the modulus is %s' % raw[4]
            if 'x_powers' not in raw[2] or 'mul_carries' not in raw[3]:
                return False, 'result and quotient are %s and %s' % (raw[2], raw[3])
            mine = {}
            for f2, blk, nm_, r_, t in idx:
                if f2.body.path == e.fr.body.path and f2.body._cfg.dom(blk, e.block) and not any(o is not e and o.block != blk and f2.body._cfg.dom(blk, o.block) and f2.body._cfg.dom(o.block, e.block) for o in ms):
                    mine.setdefault(nm_, set()).add((r_[0], r_[-1]))
            pw, cr = mine.get('x_powers', set()), mine.get('mul_carries', set())
            ops = sorted('x' if z == 'self.x' else 'p' if 'x_powers' in z else z for z in raw[:2])
            if ops == ['x', 'x'] and (0, 0) in pw and (0, 0) in cr:
                seen['first'] += 1
            elif ops == ['p', 'p'] and {(0, 14), (1, 15)} <= pw and (1, 15) in cr:
                seen['sq'] += 1
            elif ops == ['p', 'x'] and {(15, 15), (16, 16)} <= pw and (16, 16) in cr:
                seen['last'] += 1
            else:
                return False, 'a product of %s into %s with quotient %s' % (ops, sorted(pw), sorted(cr))
        if any(v != 1 for v in seen.values()):
            return False, 'the chain of squarings is incomplete: %s' % seen
        for e in g.calls('assert_is_equal', always=False):
            s = [show(strip_any(q)) for q in e.args[1:3]]
            if any('x_powers' in z for z in s) and any(z.startswith('self.result[') for z in s) and g.plain(only_iteration(e.known)):
                last = [r_ for f2, blk, nm_, r_, t in idx if nm_ == 'x_powers' and f2.body.path == e.fr.body.path and f2.body._cfg.dom(blk, e.block) and r_[0] == 16 == r_[-1] and not f2.body._cfg.dom(blk, ms[-1].block)]
                li = [lim(q)[1] for q in e.args[1:3]]
                el = sorted(show(strip_any(strip_any(q).a[0])) for q in e.args[1:3] if strip_any(q).op == 'elem')
                if last and len(el) == 2 and el[0] == 'self.result' or len(el) == 2 and el[1] == 'self.result' and last:
                    if 'x_powers' in el[0] + el[1] and (el[0] + el[1]).endswith(('.limbs', '.limbsself.result', 'self.result')):
                        return True, ''
                if last and li[0] is not None and li[0] is li[1] and set(rng(li[0])) == set(range(NLIMBS)):
                    return True, ''
        return False, 'the result is not asserted to be the last power'
    guarded(ctx, 'RSACircuit asserts result = x^65537 mod n along the chain of squarings', g, f)


def check(ctx):
    fractions(ctx)
    columns(ctx)
    sums(ctx)
    ranges(ctx)
    field(ctx)
    towers(ctx)
    swu(ctx)
    e2sign(ctx)
    decompress(ctx)
    biguint(ctx)
