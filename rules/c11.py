"""Batches of witnesses keep witness j at witness j.  Packing, unpacking, iterating, converting, solving and running batches are abstractly
interpreted; every element they store is brought to the form (collection, position) with the position a polynomial over
the sizes and 'each(n)' (a counter running through 0..n), and compared with the one layout of witness storage:
scalar: witness j holds inputs at j*(a+b)+i and public inputs at j*(a+b)+a+i; packed: block t the same at t, witness t*P+l in lane l."""
from rules.assume import *
from rules.pos import *
from rules.c13 import fieldmap
from rules.c09 import cname, result, where, only_iteration
import auto

RULE = 'position of every stored element (polynomial normal form) == the witness layout'
W = EC + 'circuit::layered::witness::'
A_, B_, P_ = None, None, atom('P')


def fn(ctx, name, suffix=None):
    P = ctx.prog
    ps = [p for p in P.bodies if (p.endswith(suffix) if suffix else p == name)]
    if not ctx.need(len(ps) == 1, name, '%s (%d found)' % (name, len(ps))):
        return None
    return P.bodies[ps[0]]


def leaves(t):
    return {undv(x) for x in elems(t)}


def same_pos(t, want_base, want):
    r = pos(t)
    return r is not None and r[0] is want_base and any(pk(r[1]) == pk(w) for w in (want if isinstance(want, list) else [want]))


def lshow(t):
    r = pos(t)
    return '%s at %s' % (show(r[0])[:60], pshow(r[1])[:150]) if r else show(t)[:120]


def iszero(t):
    t = undv(t)
    return is_k(t, 0) or t.op == 'call' and cname(t) == 'zero' or t.op in ('cdef', 'cparam') and str(t.a[0]).upper().endswith('ZERO')


def uncond(fr, allow=()):
    bad = []
    for f, _b, it in items(fr, 'push', 'insert'):
        bad += [show(c)[:80] for c, v in only_iteration(it[5]) if undv(c).op not in ('k', 'cdef', 'zst') and not (isinstance(v, str))]
    return bad


def order(fr, lab):
    """labels of stores in program order, as an automaton"""
    return auto.NFA(fr, lambda e, f: None, items=lab)


def check_pack(ctx):
    b = fn(ctx, W + 'pack_block')
    if b is None:
        return
    s, a, bb = sym('s'), sym('a'), sym('b')
    I, fr = counterfactual(ctx, b, nonempty=lambda x: True, names=['s', 'a', 'b'])
    r = undv(ret(I, fr)) if fr.ret is not None else None
    if not ctx.ob('pack_block', r is not None and r.op == 'tup' and len(r.a) == 2, 'packing yields %s' % show(r)[:100], where(b)):
        return
    a_, b_ = poly(a), poly(bb)
    w = padd(a_, b_)
    S = pmin(pdiv(poly(mk('call', 'len', s)), w), P_)
    lanes = [rho(S), pmin(rho(P_), padd(S, pc(-1)))]
    fills = [padd(S, pc(-1))]
    for i, (nm, start, n) in enumerate((('inputs', {}, a_), ('public inputs', a_, b_))):
        at0 = padd(start, rho(n))
        real = [padd(pmul(l, w), at0) for l in lanes]
        fill = [padd(pmul(l, w), at0) for l in fills]
        seqs = leaves(r.a[i])
        if not ctx.ob('pack_block:%d:packed' % i, seqs and all(x.op == 'call' and cname(x) == 'pack' for x in seqs), 'the packed %s are %s' % (nm, [show(x)[:80] for x in seqs]), where(b)):
            continue
        ls = set().union(*[leaves(x.a[1]) for x in seqs])
        got = [x for x in ls if same_pos(x, s, real)]
        odd = [lshow(x) for x in ls if not same_pos(x, s, real) and not same_pos(x, s, fill) and not iszero(x)]
        ctx.ob('pack_block:%d:lane' % i, len(got) == 1, 'no lane of the packed %s is the value of witness j at its position' % nm, where(b))
        ctx.ob('pack_block:%d:other' % i, not odd, 'a lane of the packed %s is filled with %s' % (nm, odd), where(b))
        R = set(got)
        nfa = order(fr, lambda it, f: None if it[0] != 'push' else 'R' if undv(it[4]) in R else 'F' if same_pos(it[4], s, fill) else 'P' if undv(it[4]) in seqs else None)
        d = {(0, 'R'): 0, (0, 'F'): 1, (1, 'F'): 1, (0, 'P'): 0, (1, 'P'): 0}
        cx = auto.within(nfa, d, 0, {0})
        ctx.ob('pack_block:%d:order' % i, cx is None, 'real lanes (R), padding (F) and packing (P) happen in the order %s' % (cx,), where(b))
    bad = uncond(fr)
    ctx.ob('pack_block:all', not bad, 'a value is only packed if %s' % bad, where(b))


def check_unpack(ctx):
    b = fn(ctx, W + 'unpack_block')
    if b is None:
        return
    s, a, bb = sym('s'), sym('a'), sym('b')
    I, fr = counterfactual(ctx, b, nonempty=lambda x: True, names=['s', 'a', 'b'])
    r = undv(ret(I, fr)) if fr.ret is not None else None
    if not ctx.ob('unpack_block', r is not None, 'unpacking diverges', where(b)):
        return
    a_, b_ = poly(a), poly(bb)
    want = {'0': rho(a_), '1': padd(a_, rho(b_))}
    seen = {'0': 0, '1': 0}
    for f, _b, it in items(fr, 'push'):
        v = undv(it[4])
        src = lane = None
        u = v
        if u.op in ('at', 'elem', 'part'):
            pp = pos(u)
            if pp and pp[0].op == 'call' and cname(pp[0]) == 'unpack':
                src, lane = pp[0].a[1], pp[1]
        if src is None:
            continue
        for pl in it[7]:
            pl = undv(pl)
            if pl.op == 'fld' and pl.a[1] in want:
                w = pl.a[1]
                seen[w] += 1
                ctx.ob('unpack_block:%s:source' % w, same_pos(src, s, want[w]), 'part %s of an unpacked witness takes %s' % (w, lshow(src)), where(b))
                q = pos(pl.a[0])
                good = q is not None and (pk(q[1]) == pk(lane) or pl.a[0].op == 'elem' and len(lane) == 1)
                ctx.ob('unpack_block:%s:lane' % w, good, 'lane %s goes to witness %s' % (pshow(lane), pshow(q[1]) if q else show(pl)[:80]), where(b))
                ctx.ob('unpack_block:%s:all' % w, pk(lane) == pk(rho(P_)) or pl.a[0].op == 'elem', 'lanes unpacked: %s' % pshow(lane), where(b))
    for w in want:
        if not seen[w]:
            # built as whole vectors
            vs = set()
            for x in leaves(r):
                if x.op == 'tup' and len(x.a) == 2:
                    vs |= leaves(x.a[int(w)])
            good = bool(vs)
            for v in vs:
                pp = pos(v)
                good &= pp is not None and pp[0].op == 'call' and cname(pp[0]) == 'unpack' and same_pos(pp[0].a[1], s, want[w])
            ctx.ob('unpack_block:%s:source' % w, good, 'part %s of an unpacked witness takes %s' % (w, [lshow(x) for x in vs]), where(b))
    bad = uncond(fr)
    ctx.ob('unpack_block:uncond', not bad, 'a value is only unpacked if %s' % bad, where(b))


def slice_of(t):
    """(collection, start, length) of a contiguous part"""
    t = undv(t)
    if t.op == 'seq' and t.a[0] is None:
        e = undv(t.a[1])
        if e.op in ('part', 'elem', 'at'):
            p = pos(e)
            if p is None:
                return None
            rs = [(m, n) for m, n in p[1].items() if any(isinstance(x, tuple) and x[0] == 'rho' for x in m)]
            if len(rs) == 1 and rs[0][1] == 1 and len(rs[0][0]) == 1:
                q = dict(p[1])
                q.pop(rs[0][0])
                return p[0], q, dict(rs[0][0][0][1])
        return None
    if t.op == 'sub':
        bd = bounds(t)
        if bd is None:
            return None
        b0, off = base(undv(t.a[0]))
        if bd[1] is None:
            up = slice_of(t.a[0])
            return b0, padd(off, bd[0]), padd(up[2], bd[0], -1) if up and up[2] is not None else None
        return b0, padd(off, bd[0]), padd(bd[1], bd[0], -1)
    return t, {}, None


def sshow(x):
    return '%s from %s, length %s' % (show(x[0])[:60], pshow(x[1])[:100], pshow(x[2])[:100] if x[2] is not None else 'rest') if x else None


def is_slice(t, b0, start, n):
    r = slice_of(t)
    return r is not None and r[0] is b0 and pk(r[1]) == pk(start) and (n is None or r[2] is not None and pk(r[2]) == pk(n))


def idx_after(I, fr, f='index'):
    s = sym('self')
    vs = [I.snap(fr.exit_state, x) for r, x in fr.exit_state.v.items() if isinstance(r, tuple) and r and r[0] == 'M' and r[1] is s]
    out = set()
    for t in vs:
        for x in alts(undv(t)):
            x = undv(x)
            d = {q if isinstance(q, str) else q[0]: y for q, y in x.a[1]} if x.op == 'upd' else fieldmap(x) if x.op == 'agg' else {}
            for y in (alts(undv(d[f])) if f in d else [fld(s, f)]):
                out.add(undv(y))
    return out


def wit(P, b0, val):
    """a witness stored at b0 with the given values"""
    adt = W + 'Witness'
    fs = tuple(f[0] for f in P.adts[adt]['variants'][0]['fields'])
    return mk('agg', adt, P.adts[adt]['variants'][0]['name'], fs, *[val if f == 'values' else fld(b0, f) for f in fs])


def itself(P, ty, s, w):
    adt = W + 'WitnessIterator' + ty
    fs = tuple(f[0] for f in P.adts[adt]['variants'][0]['fields'])
    return mk('agg', adt, P.adts[adt]['variants'][0]['name'], fs, *[mk('ref', (('M', w), ())) if f == 'witness' else fld(s, f) for f in fs])


def check_iter(ctx):
    P = ctx.prog
    s = sym('self')
    w = fld(s, 'witness')
    idx = fld(s, 'index')
    n = fld(w, 'num_witnesses')
    a_, b_ = poly(fld(w, 'num_inputs_per_witness')), poly(fld(w, 'num_public_inputs_per_witness'))
    ab = padd(a_, b_)
    i_ = poly(idx)
    for ty in ('Scalar', 'Simd'):
        b = fn(ctx, 'WitnessIterator%s::next' % ty, "WitnessIterator%s<'a, C> as core::iter::traits::iterator::Iterator>::next" % ty)
        if b is None:
            continue
        step = pc(1) if ty == 'Scalar' else P_

        def cmp(ended):
            def f(t):
                if t.op == 'bin' and t.a[0] in ('Lt', 'Le', 'Eq'):
                    d = padd(poly(t.a[1]), poly(t.a[2]), -1)
                    e = padd(pmul(i_, step), poly(n), -1)     # index*step - num  (>= 0 when ended)
                    for sg in (1, -1):
                        if pk(d) == pk(padd({}, e, sg)):
                            if t.a[0] == 'Eq':
                                return None if ended else k(False)
                            # d < 0 / d <= 0
                            if sg == 1:
                                return k(not ended) if t.a[0] == 'Lt' else None if ended else k(True)
                            return k(ended) if t.a[0] == 'Le' else k(False) if not ended else None
                return None
            return f
        for ended in (True, False):
            for vk in ('Scalar', 'Simd'):
                tag = '%s::next:%s:%s' % (ty, vk, 'end' if ended else 'some')
                val = agg_of(P, W + 'WitnessValues', vk, base=fld(w, 'values'))

                def go(extra=None):
                    def fnc(t):
                        r = cmp(ended)(t)
                        if r is None and extra is not None:
                            r = extra(t)
                        return r
                    return counterfactual(ctx, b, names=['self'], nonempty=lambda x: True, fn=fnc, mem={w: wit(P, w, val), s: itself(P, ty, s, w)}, opaque=[W + 'pack_block', W + 'unpack_block'])
                runs = [(tag, None)]
                if not ended and ty == 'Scalar' and vk == 'Simd':
                    rem = pk(prem(i_, P_))

                    def ex(v):
                        def g(t):
                            if t.op == 'bin' and t.a[0] == 'Eq' and {pk(poly(t.a[1])), pk(poly(t.a[2]))} == {rem, pk({})}:
                                return k(v)
                            if t.op == 'call' and cname(t) == 'is_multiple_of' and len(t.a) == 3 and pk(poly(t.a[1])) == pk(i_) and pk(poly(t.a[2])) == pk(P_):
                                return k(v)
                            return None
                        return g
                    runs = [(tag + ':first', ex(True)), (tag + ':later', ex(False))]
                for tg, extra in runs:
                    I, fr = go(extra)
                    vs = alts(undv(ret(I, fr))) if fr.ret is not None else []
                    somes = [x for x in vs if undv(x).op == 'agg' and undv(x).a[1] == 'Some']
                    nones = [x for x in vs if undv(x).op == 'agg' and undv(x).a[1] == 'None']
                    if ended:
                        ctx.ob(tg, not somes and nones, 'a witness is produced after the last one', where(b))
                        continue
                    if not ctx.ob(tg, somes and not nones, 'iteration ends before the last witness', where(b)):
                        continue
                    after = idx_after(I, fr)
                    ctx.ob(tg + ':step', all(pk(poly(x)) == pk(padd(i_, pc(1))) for x in after) and after, 'the next index is %s' % [pshow(poly(x)) for x in after], where(b))
                    vbase = undv(val.a[3])
                    for j, st_, ln in ((0, {}, a_), (1, a_, b_)):
                        parts = set()
                        for x in somes:
                            for y in alts(undv(undv(x).a[3])):
                                if undv(y).op == 'tup':
                                    parts |= {undv(z) for z in alts(undv(undv(y).a[j]))}
                                else:
                                    parts.add(mk('fld', undv(y), str(j)))
                        if ty == vk:
                            good = all(is_slice(x, vbase, padd(pmul(i_, ab), st_), ln) for x in parts)
                            d = [sshow(slice_of(x)) for x in parts]
                        elif ty == 'Simd':
                            # a packed block of the scalar values from index*P*(a+b)
                            good = True
                            d = [show(x)[:200] for x in parts]
                            for x in parts:
                                c = undv(x.a[0]) if x.op == 'fld' and x.a[1] == str(j) else None
                                good &= c is not None and c.op == 'call' and cname(c) == 'pack_block' and is_slice(c.a[1], vbase, pmul(pmul(i_, P_), ab), None) and pk(poly(c.a[2])) == pk(a_) and pk(poly(c.a[3])) == pk(b_)
                        else:
                            d = [show(x)[:250] for x in parts]
                            good = bool(parts)
                            for x in parts:
                                ok = x.op == 'fld' and x.a[1] == str(j)
                                q = pos(x.a[0]) if ok else None
                                ok = q is not None and pk(q[1]) == pk(prem(i_, P_))
                                if ok and tg.endswith('first'):
                                    c = undv(q[0])
                                    ok = c.op == 'call' and cname(c) == 'unpack_block' and is_slice(c.a[1], vbase, pmul(pdiv(i_, P_), ab), None) and pk(poly(c.a[2])) == pk(a_) and pk(poly(c.a[3])) == pk(b_)
                                elif ok:
                                    ok = q[0] is fld(s, 'buf_unpacked')
                                good &= ok
                        ctx.ob('%s:%s' % (tg, 'inputs' if j == 0 else 'public'), good and parts, 'the %s of a witness are %s' % ('inputs' if j == 0 else 'public inputs', d), where(b))
    for m, ty in (('iter_scalar', 'WitnessIteratorScalar'), ('iter_simd', 'WitnessIteratorSimd')):
        b = fn(ctx, W + 'Witness::<C>::' + m)
        if b is None:
            continue
        I, fr = counterfactual(ctx, b, names=['self'])
        r = undv(ret(I, fr)) if fr.ret is not None else None
        fm = fieldmap(r) if r is not None and r.op == 'agg' and r.a[0].endswith(ty) else {}
        ctx.ob(m, fm and undv(fm['index']) is k(0) and undv(fm['witness']) is sym('self'), 'iteration starts as %s' % show(r)[:100], where(b))


def ceil_ok(t, n, step):
    return pk(poly(t)) == pk(pdiv(padd(padd(n, step), pc(-1)), step))


def check_convert(ctx):
    P = ctx.prog
    b = fn(ctx, W + 'Witness::<C>::convert_to_simd')
    s = sym('self')
    vals = fld(s, 'values')
    n = poly(fld(s, 'num_witnesses'))
    a_, b_ = poly(fld(s, 'num_inputs_per_witness')), poly(fld(s, 'num_public_inputs_per_witness'))
    ab = padd(a_, b_)
    blk = rho(pdiv(padd(padd(n, P_), pc(-1)), P_))
    if b is not None:
        val = agg_of(P, W + 'WitnessValues', 'Scalar', base=vals)
        I, fr = counterfactual(ctx, b, names=['self'], nonempty=lambda x: True, mem={s: wit(P, s, val)}, opaque=[W + 'pack_block', W + 'unpack_block'])
        out = idx_after(I, fr, 'values') if fr.ret is not None else set()
        good = len(out) == 1
        x = next(iter(out)) if good else None
        good = good and x.op == 'agg' and x.a[1] == 'Simd'
        if ctx.ob('convert_to_simd', good, 'converted values are %s' % [show(y)[:100] for y in out], where(b)):
            srcs = set()
            for e in leaves(x.a[3]) | set():
                srcs.add(e)
            ps = [it for f, _b, it in items(fr, 'push')]
            calls = []
            for e in srcs:
                e = undv(e)
                while e.op in ('elem', 'part', 'at'):
                    e = undv(e.a[0])
                calls.append(e)
            parts = {e.a[1] if e.op == 'fld' else '?' for e in calls}
            cs = {undv(e.a[0]) for e in calls if e.op == 'fld'}
            good = bool(cs)
            for c in cs:
                ok = c.op == 'call' and cname(c) == 'pack_block' and is_slice(c.a[1], undv(val.a[3]), pmul(pmul(blk, P_), ab), None)
                if ok:
                    p, q = poly(c.a[2]), poly(c.a[3])
                    ok = pk(p) == pk(ab) and not q or pk(p) == pk(a_) and pk(q) == pk(b_) and {'0', '1'} <= parts
                good &= ok
            ctx.ob('convert_to_simd:block', good, 'blocks are packed from %s' % [show(c)[:250] for c in cs], where(b))
            if '1' in parts:
                nfa = order(fr, lambda it, f: None if it[0] != 'push' else {True: 'A', False: 'B'}.get('0' == tailf(it[4])))
                cx = auto.within(nfa, {(0, 'A'): 1, (1, 'B'): 0, (0, 'B'): 0}, 0, {0})
                ctx.ob('convert_to_simd:order', cx is None, 'inputs (A) and public inputs (B) of a block are stored in the order %s' % (cx,), where(b))
        val = agg_of(P, W + 'WitnessValues', 'Simd', base=vals)
        I, fr = counterfactual(ctx, b, names=['self'], nonempty=lambda x: True, mem={s: wit(P, s, val)}, opaque=[W + 'pack_block', W + 'unpack_block'])
        out = idx_after(I, fr, 'values') if fr.ret is not None else {sym('?')}
        good = all(x is vals or x is val for x in out)
        ctx.ob('convert_to_simd:packed', good, 'packed values are replaced by %s' % [show(x)[:100] for x in out], where(b))
    b = fn(ctx, W + 'Witness::<C>::to_simd')
    if b is not None:
        val = agg_of(P, W + 'WitnessValues', 'Scalar', base=vals)
        I, fr = counterfactual(ctx, b, names=['self'], nonempty=lambda x: True, mem={s: wit(P, s, val)}, opaque=[W + 'pack_block', W + 'unpack_block', W + 'Witness::<C>::iter_scalar'])
        cs = alts(undv(ret(I, fr))) if fr.ret is not None else []
        good = len(cs) > 0
        for c in cs:
            c = undv(c)
            good &= c.op == 'call' and cname(c) == 'pack_block' and is_slice(c.a[1], undv(val.a[3]), {}, None) and pk(poly(c.a[2])) == pk(a_) and pk(poly(c.a[3])) == pk(b_)
        ctx.ob('to_simd:scalar', good, 'scalar values are packed as %s' % [show(c)[:200] for c in cs], where(b))
        val = agg_of(P, W + 'WitnessValues', 'Simd', base=vals)
        for eq in (True, False):
            def ex(t):
                if t.op == 'bin' and t.a[0] == 'Eq' and 'TypeId' in show(t)[:200] or t.op == 'call' and 'TypeId' in str(t.a[0]) and cname(t) == 'eq':
                    return k(eq)
                return None
            I, fr = counterfactual(ctx, b, names=['self'], nonempty=lambda x: True, fn=ex, mem={s: wit(P, s, val)}, opaque=[W + 'pack_block', W + 'unpack_block', W + 'Witness::<C>::iter_scalar'])
            cs = alts(undv(ret(I, fr))) if fr.ret is not None else []
            cs = [undv(c) for c in cs]
            if eq:
                good = len(cs) > 0
                for c in cs:
                    t = c
                    while t.op in ('fld', 'call', 'deref') and not (t.op == 'tup'):
                        nx = [z for z in t.a if isinstance(z, T)]
                        if not nx:
                            break
                        t = undv(nx[0])
                    good &= t.op == 'tup' and len(t.a) == 2 and is_slice(t.a[0], undv(val.a[3]), {}, a_) and is_slice(t.a[1], undv(val.a[3]), a_, b_)
                ctx.ob('to_simd:same', good, 'values packed the same way are returned as %s' % [show(c)[:200] for c in cs], where(b))
            else:
                good = len(cs) > 0
                want = {}
                for c in cs:
                    ok = c.op == 'call' and cname(c) == 'pack_block' and pk(poly(c.a[2])) == pk(a_) and pk(poly(c.a[3])) == pk(b_)
                    if ok:
                        ls = leaves(c.a[1])
                        ok = bool(ls) and all(src_iter(x) for x in ls) and {src_iter(x) for x in ls} == {'0', '1'}
                    good &= ok
                ctx.ob('to_simd:repack', good, 'values packed differently are repacked as %s' % [show(c)[:300] for c in cs], where(b))
                nfa = order(fr, lambda it, f: None if it[0] != 'push' else {'0': 'A', '1': 'B'}.get(src_iter(it[4])))
                cx = auto.within(nfa, {(0, 'A'): 1, (1, 'B'): 0}, 0, {0})
                ctx.ob('to_simd:order', cx is None, 'inputs (A) and public inputs (B) of the witnesses are collected in the order %s' % (cx,), where(b))


def tailf(t):
    t = undv(t)
    while t.op in ('elem', 'part', 'at'):
        t = undv(t.a[0])
    return t.a[1] if t.op == 'fld' else None


def src_iter(x):
    """'0'/'1' if x is the generic element of that half of a witness of iter_scalar (first PACK_SIZE of them)"""
    x = undv(x)
    while x.op in ('elem', 'at'):
        x = undv(x.a[0])
    if x.op != 'fld':
        return None
    h = x.a[1]
    y = undv(x.a[0])
    tags = []
    while y.op == 'part':
        tags.append(y.a[1])
        y = undv(y.a[0])
    if y.op != 'elem' or not all(g.op == 'tup' and kval(g.a[0]) == 'take' and pk(poly(g.a[1])) == pk(P_) for g in tags):
        return None
    c = undv(y.a[0])
    return h if c.op == 'call' and cname(c) == 'iter_scalar' and (undv(c.a[1]) is sym('self') or undv(c.a[1]).op == 'agg' and undv(fieldmap(undv(c.a[1]))['num_witnesses']) is fld(sym('self'), 'num_witnesses')) else None


# ------------------------------------------------------------------ running and solving batches
def sub_leaves(t, f, d=0):
    out = set()
    for x in elems(t):
        out.add(undv(x))
    return out


def check_run(ctx):
    P = ctx.prog
    name = W + '<impl circuit::layered::Circuit<C, I>>::'
    b = fn(ctx, 'run_inner', '<impl circuit::layered::Circuit<C, I>>::run_inner')
    ops = [q for q in P.bodies if q.startswith(EC) and (q.endswith('::iter_scalar') or q.endswith('::iter_simd') or q.endswith('::eval_with_public_inputs') or q.endswith('::eval_with_public_inputs_simd')
                                                         or 'WitnessIterator' in q and q.endswith('::next'))]
    w = sym('witness')
    if b is not None:
        I, fr = counterfactual(ctx, b, names=['self', 'witness', 'need'], rels=[Rel(lambda x: x is fld(w, 'num_witnesses'), 'eq', 0)], opaque=ops)
        ctx.ob('run:none', fr.ret is None, 'running a batch without witnesses succeeds', where(b))
        for simd in (True, False):
            tag = 'run:%s' % ('simd' if simd else 'scalar')

            def ex(t):
                if t.op == 'call' and cname(t) == 'use_simd':
                    return k(simd)
                return None
            I, fr = counterfactual(ctx, b, names=['self', 'witness', 'need'], args={2: k(True)}, nonempty=lambda x: True, fn=ex, opaque=ops + [W + 'use_simd'])
            r = undv(ret(I, fr)) if fr.ret is not None else None
            if not ctx.ob(tag, r is not None and r.op == 'tup' and len(r.a) == 2, 'running a batch yields %s' % show(r)[:100] if r is not None else None, where(b)):
                continue
            evn, itn = ('eval_with_public_inputs_simd', 'iter_simd') if simd else ('eval_with_public_inputs', 'iter_scalar')

            def evcall(c, h):
                """c is (part h of) the evaluation of the generic witness"""
                c = undv(c)
                if h is not None:
                    if c.op != 'fld' or c.a[1] != h:
                        return False
                    c = undv(c.a[0])
                if c.op != 'call' or cname(c) != evn or undv(c.a[1]) is not sym('self'):
                    return False
                for x, q in ((c.a[2], '0'), (c.a[3], '1')):
                    x = undv(x)
                    if not (x.op == 'fld' and x.a[1] == q and undv(x.a[0]).op == 'elem'):
                        return False
                    s = undv(undv(x.a[0]).a[0])
                    if not (s.op == 'call' and cname(s) == itn and undv(s.a[1]) is w):
                        return False
                return True
            for h, nm in ((0, 'satisfied'), (1, 'outputs')):
                ls = {x for x in leaves(r.a[h])}
                if simd and h == 0:
                    good = bool(ls) and all(x.op == 'elem' and evcall(x.a[0], '1') for x in ls)
                elif simd:
                    inner = set()
                    for x in ls:
                        inner |= leaves(x) if x.op != 'bot' else set()
                    inner = {x for x in inner if x.op != 'bot'}
                    good = bool(inner)
                    for x in inner:
                        pp = pos(x) if x.op in ('elem', 'at') else None
                        good &= pp is not None and pp[0].op == 'call' and cname(pp[0]) == 'unpack' and undv(pp[0].a[1]).op == 'elem' and evcall(undv(pp[0].a[1]).a[0], '0')
                else:
                    good = bool(ls) and all(evcall(x, '1' if h == 0 else '0') for x in ls)
                ctx.ob('%s:%s' % (tag, nm), good, '%s of the batch are %s' % (nm, [show(x)[:200] for x in ls]), where(b))
            bad = [c for f, _b, it in items(fr, 'push') for c in [show(c)[:80] for c, v in only_iteration(it[5]) if undv(c).op not in ('k', 'cdef', 'zst') and not isinstance(v, str) and undv(c) is not sym('need') and fld(w, 'num_witnesses') not in sub_terms(c)]]
            ctx.ob(tag + ':all', not bad, 'a result is only recorded if %s' % bad, where(b))
            if simd:
                tr = [it for f, _b, it in items(fr, 'trunc')]
                ok = len([it for it in tr if undv(it[4]) is fld(w, 'num_witnesses')]) >= 2 and len(tr) == len([it for it in tr if undv(it[4]) is fld(w, 'num_witnesses')])
                tk = [any(g.op == 'part' and 'take' in show(g.a[1])[:30] for x in leaves(r.a[h]) for g in sub_terms(x)) for h in (0, 1)]
                ctx.ob(tag + ':padding', ok or all(tk), 'results of padding lanes are not removed from %s' % [show(it[4])[:60] for it in tr], where(b))
                # lane of an output goes to the result of the same witness
                for f, _b, it in items(fr, 'push'):
                    v = undv(it[4])
                    pp = pos(v) if v.op in ('elem', 'at') else None
                    if pp is None or pp[0].op != 'call' or cname(pp[0]) != 'unpack':
                        continue
                    for pl in it[7]:
                        pl = undv(pl)
                        if pl.op == 'at':
                            q = poly(pl.a[1])
                            rh = [m for m, n in q.items() if n == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'rho']
                            rest = padd(q, {m: 1 for m in rh}, -1)
                            good = len(rh) == 1 and rh[0] in pp[1] and all(len(m) == 1 and isinstance(m[0], T) and m[0].op == 'call' and cname(m[0]) == 'len' and n == 1 for m, n in rest.items()) and len(rest) == 1
                            ctx.ob(tag + ':lane', good, 'output lane %s goes to result %s' % (pshow(pp[1]), pshow(q)[:200]), where(b))
    for m in ('run', 'run_with_output'):
        b = fn(ctx, m, '<impl circuit::layered::Circuit<C, I>>::' + m)
        if b is None:
            continue
        I, fr = counterfactual(ctx, b, names=['self', 'witness'], opaque=[q for q in P.bodies if q.endswith('>::run_inner')])
        r = undv(ret(I, fr)) if fr.ret is not None else None
        if m == 'run':
            c = undv(r.a[0]) if r is not None and r.op == 'fld' and r.a[1] == '0' else None
            good = c is not None and c.op == 'call' and cname(c) == 'run_inner' and undv(c.a[1]) is sym('self') and undv(c.a[2]) is w
        else:
            c = r
            if r is not None and r.op == 'tup' and all(undv(x).op == 'fld' and undv(x).a[1] == str(i) for i, x in enumerate(r.a)) and len({undv(x).a[0] for x in r.a}) == 1:
                c = undv(undv(r.a[0]).a[0])
            good = c is not None and c.op == 'call' and cname(c) == 'run_inner' and undv(c.a[1]) is sym('self') and undv(c.a[2]) is w and is_k(undv(c.a[3]), True)
        ctx.ob(m, good, '%s yields %s' % (m, show(r)[:150]), where(b))


def sub_terms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset)):
            st += list(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st += list(x.a)
        u = undv(x)
        if u is not x:
            st.append(u)
    return seen


def check_solve(ctx):
    P = ctx.prog
    S = EC + 'circuit::ir::hint_normalized::witness_solver::WitnessSolver::<C>::'
    circ = fld(sym('self'), 'circuit')
    npub = fld(circ, 'num_public_inputs')
    ops = [q for q in P.bodies if q.startswith(EC) and (q.endswith('::eval_safe') or q.endswith('::eval_safe_simd') or q.endswith('::input_size'))]
    insize = [None]

    def is_insize(t):
        t = undv(t)
        return t.op == 'call' and cname(t) == 'input_size' and undv(t.a[1]) is circ
    b = fn(ctx, S + 'solve_witness_from_raw_inputs')
    if b is not None:
        names = ['self', 'vars', 'public_vars', 'hc']
        I, fr = counterfactual(ctx, b, names=names, nonempty=lambda x: True, opaque=ops)
        good = False
        r = ret(I, fr) if fr.ret is not None else None
        oks = [undv(x) for x in alts(undv(r)) if undv(x).op == 'agg' and undv(x).a[1] == 'Ok'] if r is not None else []
        fm = fieldmap(undv(oks[0].a[3])) if len(oks) == 1 and undv(oks[0].a[3]).op == 'agg' else None
        if ctx.ob('solve', fm is not None, 'solving yields %s' % show(r)[:150], where(b)):
            ev = mk('fld', sym('?'), 'Ok.0')
            v = undv(fm['values'])
            ok = v.op == 'agg' and v.a[1] == 'Scalar'
            es = [undv(x) for x in leaves(v.a[3])] if ok else []

            def kind(x):
                x = undv(x)
                if x.op == 'elem' and undv(x.a[0]) is sym('public_vars'):
                    return 'P'
                c = undv(x.a[0]) if x.op in ('elem',) else x
                if c.op == 'fld' and c.a[1] == 'Ok.0':
                    c = undv(c.a[0])
                    if c.op == 'call' and cname(c) == 'eval_safe' and undv(c.a[1]) is circ and undv(c.a[2]) is sym('vars') and undv(c.a[3]) is sym('public_vars'):
                        return 'E'
                return None
            pre = undv(v.a[3]).a[0] if ok and undv(v.a[3]).op == 'seq' else None
            ks = {kind(x) for x in es} | ({kind(mk('elem', undv(pre)))} if pre is not None else set())
            ctx.ob('solve:values', ok and ks == {'E', 'P'} and (pre is None or kind(mk('elem', undv(pre))) == 'E'), 'the stored witness is %s' % show(v)[:300], where(b))
            ctx.ob('solve:count', is_k(undv(fm['num_witnesses']), 1), 'number of witnesses is %s' % show(fm['num_witnesses']), where(b))
            ctx.ob('solve:npub', undv(fm['num_public_inputs_per_witness']) is npub or undv(fm['num_public_inputs_per_witness']) is mk('call', 'len', sym('public_vars')), 'number of public inputs is %s' % show(fm['num_public_inputs_per_witness'])[:100], where(b))
            n = undv(fm['num_inputs_per_witness'])
            c = undv(n.a[1]) if n.op == 'call' and cname(n) == 'len' else None
            ctx.ob('solve:ninp', c is not None and kind(mk('elem', c)) == 'E', 'number of inputs is %s' % show(n)[:150], where(b))
        for nm, l, rr in (('inputs', sym('vars'), is_insize), ('public inputs', sym('public_vars'), lambda x: undv(x) is npub)):
            L_ = mk('call', 'len', l)
            I, fr = counterfactual(ctx, b, names=names, opaque=ops, rels=[Rel(lambda x: x is L_, 'ne', rr)])
            ctx.ob('solve:len:' + nm.replace(' ', '-'), not success(I, fr, ('Ok',)), 'a wrong number of %s is accepted' % nm, where(b))
    b = fn(ctx, S + 'solve_witnesses_from_raw_inputs')
    if b is not None:
        names = ['self', 'n', 'f', 'hc']
        I, fr = counterfactual(ctx, b, names=names, nonempty=lambda x: True, opaque=ops)
        n = poly(sym('n'))
        blk = rho(pdiv(padd(padd(n, P_), pc(-1)), P_))
        lo = pmul(blk, P_)
        hi = pmin(n, padd(lo, P_))
        cnt = padd(hi, lo, -1)
        lane = rho(cnt)
        glob = padd(lo, lane)
        r = ret(I, fr) if fr.ret is not None else None
        oks = [undv(x) for x in alts(undv(r)) if undv(x).op == 'agg' and undv(x).a[1] == 'Ok'] if r is not None else []
        fm = fieldmap(undv(oks[0].a[3])) if len(oks) == 1 and undv(oks[0].a[3]).op == 'agg' else None
        if ctx.ob('batch', fm is not None, 'solving a batch yields %s' % show(r)[:150] if r is not None else None, where(b)):
            def given(x):
                """'0'/'1' if x is entry k of the (public) inputs given for witness lo + lane"""
                x = undv(x)
                pp = pos(x) if x.op in ('at', 'elem') else None
                if pp is None:
                    return None
                h = pp[0]
                if h.op != 'fld' or h.a[1] not in ('0', '1'):
                    return None
                c = undv(h.a[0])
                if c.op != 'call' or cname(c) != 'indirect' or len(c.a) < 2:
                    return None
                if pk(poly(c.a[1])) != pk(glob):
                    return None
                ns = [rho(poly(x.a[1].a[1]))] if x.op == 'at' and undv(x.a[1]).op == 'ridx' else []
                full = pp[1]
                if x.op == 'at':
                    i = undv(x.a[1])
                    if i.op == 'ridx':
                        good = is_k(i.a[0], 0) and (is_insize(i.a[1]) if h.a[1] == '0' else undv(i.a[1]) is npub)
                    else:
                        good = i.op == 'eidx'
                    if not good:
                        return None
                return h.a[1]
            evs = [e for e in events(fr) if cname2(e) == 'eval_safe_simd']
            ctx.ob('batch:eval', len({(undv(e.args[0]), e.line if hasattr(e, 'line') else 0) for e in evs}) == 1, '%d evaluations per block' % len(evs), where(b))
            last = evs[-1] if evs else None
            lanes = {}
            if last is not None:
                ctx.ob('batch:circuit', undv(last.args[0]) is circ, 'the circuit evaluated is %s' % show(last.args[0])[:100], where(b))
                for i, nm in ((1, '0'), (2, '1')):
                    packs = leaves(last.args[i])
                    kinds = set()
                    for x in packs:
                        if x.op == 'call' and cname(x) == 'pack':
                            for y in leaves(x.a[1]):
                                kinds.add(given(y) or ('zero' if iszero(y) else show(y)[:100]))
                        else:
                            kinds.add(show(x)[:100])
                    lanes[nm] = packs
                    # lanes of the other half may remain in a reused buffer: overwritten, see the stores
                    ctx.ob('batch:%s:lanes' % nm, nm in kinds and not (kinds - {'0', '1', 'zero'}), 'the packed %s hold %s' % ('inputs' if nm == '0' else 'public inputs', kinds), where(b))
            # stores into the lane buffer
            stores = {'0': 0, '1': 0}
            fills = 0

            def kind(it, f):
                if it[0] == 'st' and undv(it[4]).op in ('at', 'elem'):
                    g = given(it[2])
                    if g:
                        return 'R' + g
                    es = alts(undv(it[2]))
                    if len(es) >= 1 and all(iszero(x) or given(x) for x in es):
                        return 'F'
                    return None
                if it[0] == 'push':
                    v = undv(it[4])
                    if v.op == 'call' and cname(v) == 'pack':
                        ks = {given(y) for y in leaves(v.a[1])} - {None}
                        return 'P'
                    g = given(v)
                    if g:
                        return 'R' + g
                    es = [x for x in alts(v)]
                    if es and any(given(x) for x in es) and all(iszero(x) or given(x) for x in es):
                        return 'F'
                return None
            for f, _b, it in items(fr, 'st', 'push'):
                kd = kind(it, f)
                if kd in ('R0', 'R1'):
                    stores[kd[1]] += 1
                    if it[0] == 'st':
                        q = pos(it[4])
                        ctx.ob('batch:%s:lane' % kd[1], q is not None and pk(q[1]) == pk(lane), 'witness %s of a block goes to lane %s' % (pshow(lane)[:80], pshow(q[1])[:120] if q else None), where(b))
                elif kd == 'F':
                    fills += 1
                    if it[0] == 'st':
                        q = pos(it[4])
                        want = padd(cnt, rho(padd(P_, cnt, -1)))
                        ctx.ob('batch:fill', q is not None and pk(q[1]) == pk(want), 'padding lanes are %s' % (pshow(q[1])[:200] if q else None), where(b))
            ctx.ob('batch:stores', stores['0'] and stores['1'], 'lane stores found: %s' % stores, where(b))
            # entry i of the collected inputs is read for lane i
            for f, _b, it in items(fr, 'index'):
                bs = leaves(it[3])
                hs = {x.a[1] for x in bs if x.op == 'fld' and x.a[1] in ('0', '1') and undv(x.a[0]).op == 'call' and cname(undv(x.a[0])) == 'indirect'}
                if hs and it[3].op != 'fld' and undv(it[3]).op == 'seq':
                    q = poly(it[4])
                    ctx.ob('batch:read', pk(q) == pk(lane), 'the inputs of witness %s of a block are read for lane %s' % (pshow(q)[:100], pshow(lane)[:80]), where(b))
            nfa = order(fr, kind)
            d = {}
            for s0 in ('-', '0', '1'):
                for x in ('0', '1'):
                    d[(s0, 'R' + x)] = x
                d[(s0, 'F')] = s0 if s0 == '-' else s0 + 'f'
                d[(s0 + 'f', 'F')] = s0 + 'f'
                for y in ('', 'f'):
                    if s0 != '-':
                        d[(s0 + y, 'P')] = '-'
            d[('-', 'P')] = '-'
            cx = auto.within(nfa, d, '-', {'-', '0', '1', '0f', '1f'})
            for x in ('0', '1'):
                if not any(it[0] == 'st' and kind(it, f) == 'R' + x for f, _b, it in items(fr, 'st')):
                    continue
                # padding lanes are refilled for either kind of values: some path reaches the filling from its stores
                d1 = {q: r for q, r in d.items() if q != (x, 'F')}
                ctx.ob('batch:%s:filled' % x, auto.within(nfa, d1, '-', {'-', '0', '1', '0f', '1f'}) is not None, 'the padding lanes of the packed %s are not filled' % ('inputs' if x == '0' else 'public inputs'), where(b))
            ctx.ob('batch:order', cx is None, 'lane stores (R), padding (F) and packing (P) happen in the order %s' % (cx,), where(b))
            # the stored values: results of the block, then its public inputs
            v = undv(fm['values'])

            def is_e(x):
                x = undv(x)
                c = undv(x.a[0]) if x.op == 'elem' else x
                return c.op == 'fld' and c.a[1] == 'Ok.0' and undv(c.a[0]).op == 'call' and cname(undv(c.a[0])) == 'eval_safe_simd'

            def ext(it, f):
                if it[0] != 'push':
                    return None
                if is_e(it[4]):
                    return 'E'
                bs = undv(it[3])
                if undv(it[4]) in lanes.get('1', ()) and any(is_e(y) for u in alts(bs) if undv(u).op == 'seq' for y in list(leaves(u)) + ([undv(u).a[0]] if undv(u).a[0] is not None else [])):
                    return 'P'
                return None
            ctx.ob('batch:values', v.op == 'agg' and v.a[1] == 'Simd', 'the stored values are %s' % show(v)[:100], where(b))
            nfa = order(fr, ext)
            cx = auto.within(nfa, {(0, 'E'): 1, (1, 'P'): 0}, 0, {0})
            ctx.ob('batch:block', cx is None and any(ext(it, None) == 'P' for f, _b, it in items(fr, 'push')), 'results (E) and public inputs (P) of a block are stored in the order %s' % (cx,), where(b))
            ctx.ob('batch:count', undv(fm['num_witnesses']) is sym('n'), 'number of witnesses is %s' % show(fm['num_witnesses'])[:80], where(b))
            ctx.ob('batch:npub', undv(fm['num_public_inputs_per_witness']) is npub, 'number of public inputs is %s' % show(fm['num_public_inputs_per_witness'])[:100], where(b))
            ls = [undv(x) for x in alts(undv(fm['num_inputs_per_witness'])) if not is_k(undv(x), 0)]
            good = bool(ls)
            for x in ls:
                c = undv(x.a[1]) if x.op == 'call' and cname(x) == 'len' else None
                good &= c is not None and c.op == 'fld' and c.a[1] == 'Ok.0' and cname(undv(c.a[0])) == 'eval_safe_simd'
            ctx.ob('batch:ninp', good, 'number of inputs is %s' % [show(x)[:100] for x in ls], where(b))
        for nm, h, rr in (('inputs', '0', is_insize), ('public inputs', '1', lambda x: undv(x) is npub)):
            def is_len(x):
                x = undv(x)
                if x.op != 'call' or cname(x) != 'len':
                    return False
                y = undv(x.a[1])
                return y.op == 'fld' and y.a[1] == h and undv(y.a[0]).op == 'call' and cname(undv(y.a[0])) == 'indirect'
            I, fr = counterfactual(ctx, b, names=names, opaque=ops, nonempty=lambda x: True, rels=[Rel(is_len, 'ne', rr), Rel(lambda x: undv(x) is sym('n'), 'ge', 1)])
            ctx.ob('batch:len:' + nm.replace(' ', '-'), not success(I, fr, ('Ok',)), 'a wrong number of %s of a witness of the batch is accepted' % nm, where(b))


def cname2(e):
    return str(e.path or e.canon).rsplit('::', 1)[-1]


def check_front(ctx):
    P = ctx.prog
    F_ = [q for q in P.bodies if q.startswith(EC + 'frontend::witness::') and 'closure' not in q]
    def one(n):
        ps = [q for q in F_ if q.endswith('::' + n)]
        return P.bodies[ps[0]] if ctx.need(len(ps) == 1, 'frontend:' + n, 'witness solver method') else None
    ops = [q for q in P.bodies if q.startswith(EC) and q.rsplit('::', 1)[-1] in ('solve_witness_from_raw_inputs', 'solve_witnesses_from_raw_inputs', 'solve_witness_with_hints', 'solve_witnesses_with_hints')]
    mut = lambda p: True
    for n, via in (('solve_witness', 'solve_witness_with_hints'), ('solve_witnesses', 'solve_witnesses_with_hints')):
        b = one(n)
        if b is None:
            continue
        I, fr = counterfactual(ctx, b, names=['self', 'assignment'], opaque=ops, mutout=mut)
        c = undv(ret(I, fr)) if fr.ret is not None else None
        good = c is not None and c.op == 'call' and undv(c.a[1]) is sym('self')
        if good and cname(c) == via:
            good = undv(c.a[2]) is sym('assignment')
            ctx.ob('frontend:' + n, good, '%s yields %s' % (n, show(c)[:150]), where(b))
        elif good and cname(c) == via.replace('_with_hints', '_from_raw_inputs'):
            front(ctx, n, b, c)
        else:
            ctx.ob('frontend:' + n, False, '%s yields %s' % (n, show(c)[:150]), where(b))
    for n in ('solve_witness_with_hints', 'solve_witnesses_with_hints'):
        b = one(n)
        if b is None:
            continue
        I, fr = counterfactual(ctx, b, names=['self', 'assignment', 'hc'], opaque=ops, mutout=mut)
        c = undv(ret(I, fr)) if fr.ret is not None else None
        front(ctx, n, b, c)


def dumped(x, of, i):
    """x is what dump_into of the assignment wrote to its i-th output vector"""
    x = undv(x)
    return x.op == 'mut' and str(x.a[0]).endswith('dump_into') and x.a[1] in (i + 1, k(i + 1)) and any(undv(y) is of for y in x.a[3:])


def front(ctx, n, b, c):
    P = ctx.prog
    a = sym('assignment')
    if 'witnesses' not in n:
        good = c is not None and c.op == 'call' and cname(c) == 'solve_witness_from_raw_inputs' and undv(c.a[1]) is sym('self') and dumped(c.a[2], a, 0) and dumped(c.a[3], a, 1)
        ctx.ob('frontend:' + n, good, '%s yields %s' % (n, show(c)[:250] if c is not None else None), where(b))
        return
    good = c is not None and c.op == 'call' and cname(c) == 'solve_witnesses_from_raw_inputs' and undv(c.a[1]) is sym('self') and undv(c.a[2]) is mk('call', 'len', a)
    ctx.ob('frontend:' + n, good, '%s yields %s' % (n, show(c)[:250] if c is not None else None), where(b))
    cl = [q for q in P.bodies if q.startswith(b.path + '::{closure')]
    if ctx.need(len(cl) == 1, 'frontend:%s:closure' % n, 'function giving the inputs of witness i'):
        cb = P.bodies[cl[0]]
        I, fr = counterfactual(ctx, cb, names=['env', 'i'], mutout=lambda p: True)
        r = undv(ret(I, fr)) if fr.ret is not None else None
        good = r is not None and r.op == 'tup' and len(r.a) == 2
        if good:
            for j, x in enumerate(r.a):
                x = undv(x)
                good &= x.op == 'mut' and str(x.a[0]).endswith('dump_into') and x.a[1] in (j + 1, k(j + 1)) and any(isinstance(y, T) and undv(y).op == 'at' and undv(undv(y).a[1]) is sym('i') for y in x.a[3:])
        ctx.ob('frontend:%s:each' % n, good, 'witness i is solved for %s' % (show(r)[:250] if r is not None else None), where(cb))


def check(ctx):
    check_pack(ctx)
    check_unpack(ctx)
    check_iter(ctx)
    check_convert(ctx)
    check_run(ctx)
    check_solve(ctx)
    check_front(ctx)
    ctx.floor('obligations', ctx.obligations, 80)
