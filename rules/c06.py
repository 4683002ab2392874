"""Optimising a layered circuit changes its shape, never what it computes: merging duplicate gates adds their coefficients, inlining a
child segment moves every gate and grandchild by the offsets of the allocation, extracting common gates removes from each segment exactly
the gates its new child contains, and every segment, child, layer and count keeps referring to what it referred to.  The passes are
abstractly interpreted on a circuit with one symbolic segment, child and allocation; callees are replaced by symbolic results."""
from rules.assume import *
from rules.c13 import walk, fieldmap
from rules.c09 import cname, result, where, plain0, only_iteration, maybe_true
from rules.c10 import build, seq1, one, short, GATES, L
import auto
import models

RULE = 'provenance of every gate, child and header field of the optimised circuit; counterfactual reachability for merging and dropping'
O = L + 'opt::'
KIND = dict(gate_muls='Mul', gate_adds='Add', gate_consts='Const', gate_customs='Custom')


def seg(P, p):
    alloc = build(P, L + 'Allocation', input_offset=sym(p + 'in_off'), output_offset=sym(p + 'out_off'))
    return build(P, L + 'Segment', num_inputs=sym(p + 'n_in'), num_outputs=sym(p + 'n_out'), child_segs=seq1(mk('tup', sym(p + 'child'), seq1(alloc))),
                 **{g: seq1(sym(p + g)) for g in GATES})


def circ(P, p='s.', layers=None):
    return build(P, L + 'Circuit', num_public_inputs=sym('npi'), num_actual_outputs=sym('nout'), expected_num_output_zeroes=sym('nzero'), segments=seq1(seg(P, p)), layer_ids=sym('layer_ids'))


def opq(P, *names):
    return tuple(p for p in P.bodies if any(p.endswith('::' + n) for n in names) and 'layered::' in p)


def fns(ctx, name, part='opt', n=1):
    ps = [p for p in ctx.prog.bodies if p.endswith('::' + name) and part in p and 'layered::' in p]
    if not ctx.need(len(ps) == n, name, '%d function(s) %s in the layered optimiser, %d found' % (n, name, len(ps))):
        return []
    return [ctx.prog.bodies[p] for p in ps]


def conds(known):
    return [(c, v) for c, v in only_iteration(known) if undv(c).op not in ('k', 'cdef', 'zst') and not (isinstance(v, str) and undv(c).op == 'agg')]


def mem_of(I, fr, s):
    vs = [I.snap(fr.exit_state, x) for r, x in fr.exit_state.v.items() if isinstance(r, tuple) and r and r[0] == 'M' and r[1] is s]
    return undv(vs[0]) if len(vs) == 1 else None


def gate(P, c, v='Constant', p=''):
    kw = dict(inputs=seq1(sym(p + 'in')), output=sym(p + 'out'), coef=agg_of(P, L + 'Coef', v, base=sym(p + 'coef')))
    if c != 'Gate':
        kw['gate_type'] = sym(p + 'gt')
    return build(P, L + c, **kw)


def summands(t):
    t = undv(t)
    if t.op == 'bin' and t.a[0] == 'Add':
        return summands(t.a[1]) + summands(t.a[2])
    return [t]


def issum(t, *ws):
    ss = summands(t)
    for w in ws:
        i = next((i for i, x in enumerate(ss) if (w(x) if callable(w) else x is w)), None)
        if i is None:
            return False
        ss.pop(i)
    return not ss


def check_gateopt(ctx):
    P = ctx.prog
    n = 0
    for c in ('Gate', 'GateCustom'):
        for m, names in (('can_merge_with', ['self', 'other']), ('coef_add', ['self', 'coef']), ('get_coef', ['self']), ('add_offset', ['self', 'in_offset', 'out_offset'])):
            bs = [b for b in (P.bodies[p] for p in P.bodies if p.endswith('::' + m) and 'opt::GateOpt' in p and 'layered::%s<' % c in p)]
            if not ctx.need(len(bs) == 1, '%s::%s' % (c, m), 'GateOpt::%s of %s' % (m, c)):
                continue
            b = bs[0]
            tag = '%s:%s' % (c, m)
            n += 1
            if m == 'can_merge_with':
                for v1 in variants(P, L + 'Coef'):
                    for v2 in variants(P, L + 'Coef'):
                        ok = v1['name'] == v2['name'] == 'Constant'
                        if ok:
                            continue
                        I, fr = counterfactual(ctx, b, names=names, mem={sym('self'): gate(P, c, v1['name']), sym('other'): gate(P, c, v2['name'], 'o.')}, nonempty=lambda s: True)
                        ctx.ob('%s:%s:%s' % (tag, v1['name'], v2['name']), not success(I, fr, ('True',)), 'gates with coefficients %s and %s can be merged' % (v1['name'], v2['name']), where(b))
                for f in ('inputs', 'output') + (('gate_type',) if c != 'Gate' else ()):
                    w = {'inputs': 'in', 'output': 'out', 'gate_type': 'gt'}[f]

                    def differ(t, w=w):
                        if t.op in ('bin', 'call') and len(t.a) >= 3 and (t.a[0] == 'Eq' or str(t.a[0]).rsplit('::', 1)[-1] in ('eq', 'seq_eq', 'ne')):
                            x, y = [leaf(u) for u in t.a[-2:]]
                            if {x, y} == {sym(w), sym('o.' + w)}:
                                return k(str(t.a[0]).rsplit('::', 1)[-1] == 'ne')
                        return None
                    I, fr = counterfactual(ctx, b, names=names, fn=differ, mem={sym('self'): gate(P, c), sym('other'): gate(P, c, 'Constant', 'o.')}, nonempty=lambda s: True)
                    ctx.ob('%s:%s' % (tag, f), not success(I, fr, ('True',)), 'gates with different %s can be merged' % f, where(b))
                if c != 'Gate':
                    def shorter(t):
                        if t.op in ('bin', 'call') and len(t.a) >= 3 and (t.a[0] == 'Eq' or str(t.a[0]).rsplit('::', 1)[-1] in ('eq', 'seq_eq', 'ne')):
                            x, y = [undv(u) for u in t.a[-2:]]
                            whole = x.op == 'seq' and y.op == 'seq' or call_is(x, 'len') and call_is(y, 'len')
                            if whole and {leaf(u.a[1] if u.op == 'call' else u) for u in (x, y)} == {sym('in'), sym('o.in')}:
                                return k(str(t.a[0]).rsplit('::', 1)[-1] == 'ne')
                        return None
                    I, fr = counterfactual(ctx, b, names=names, fn=shorter, mem={sym('self'): gate(P, c), sym('other'): gate(P, c, 'Constant', 'o.')}, nonempty=lambda s: True)
                    ctx.ob('%s:arity' % tag, not success(I, fr, ('True',)), 'gates with different numbers of inputs can be merged', where(b))
            elif m == 'coef_add':
                for v1 in variants(P, L + 'Coef'):
                    for v2 in variants(P, L + 'Coef'):
                        I, fr = counterfactual(ctx, b, names=names, mem={sym('self'): gate(P, c, v1['name'])}, args={1: agg_of(P, L + 'Coef', v2['name'], base=sym('x'))}, nonempty=lambda s: True)
                        if not v1['name'] == v2['name'] == 'Constant':
                            ctx.ob('%s:%s:%s' % (tag, v1['name'], v2['name']), fr.ret is None, 'a %s is added to a %s coefficient' % (v2['name'], v1['name']), where(b))
                            continue
                        t = mem_of(I, fr, sym('self')) if fr.ret is not None else None
                        good = t is not None and t.op == 'agg' and intact(t, c, but='coef')
                        if good:
                            q = undv(fieldmap(t)['coef'])
                            good = q.op == 'agg' and q.a[1] == 'Constant' and issum(q.a[3], fld(sym('coef'), 'Constant.0'), fld(sym('x'), 'Constant.0'))
                        ctx.ob(tag, good, 'adding a coefficient gives %s' % (show(t)[:160] if t is not None else None), where(b))
            elif m == 'get_coef':
                for v in variants(P, L + 'Coef'):
                    I, fr = counterfactual(ctx, b, names=names, mem={sym('self'): gate(P, c, v['name'])})
                    r = undv(ret(I, fr)) if fr.ret is not None else None
                    ctx.ob('%s:%s' % (tag, v['name']), r is agg_of(P, L + 'Coef', v['name'], base=sym('coef')), 'the coefficient of a gate is %s' % (show(r)[:100] if r is not None else None), where(b))
            else:
                for v in variants(P, L + 'Coef'):
                    I, fr = counterfactual(ctx, b, names=names, mem={sym('self'): gate(P, c, v['name'])}, nonempty=lambda s: True, mutout=lambda p: True)
                    r = undv(ret(I, fr)) if fr.ret is not None else None
                    if not ctx.ob('%s:%s' % (tag, v['name']), r is not None and r.op == 'agg' and short(r.a[0]) == c, 'a moved gate is %s' % (show(r)[:120] if r is not None else None), where(b)):
                        continue
                    fm = fieldmap(r)
                    ctx.ob('%s:%s:coef' % (tag, v['name']), undv(fm['coef']) is agg_of(P, L + 'Coef', v['name'], base=sym('coef')), 'the coefficient of a moved gate is %s' % show(fm['coef'])[:100], where(b))
                    ctx.ob('%s:%s:output' % (tag, v['name']), issum(fm['output'], sym('out'), sym('out_offset')), 'the output of a moved gate is %s' % show(fm['output'])[:100], where(b))
                    if c != 'Gate':
                        ctx.ob('%s:%s:type' % (tag, v['name']), undv(fm['gate_type']) is sym('gt'), 'the type of a moved gate is %s' % show(fm['gate_type'])[:100], where(b))
                    ctx.ob('%s:%s:inputs' % (tag, v['name']), moved_inputs(I, fr, fm['inputs']), 'the inputs of a moved gate are %s' % show(fm['inputs'])[:160], where(b))
    return n


def leaf(t):
    t = undv(t)
    while t.op in ('seq', 'elem', 'ref') and t.a:
        t = undv(t.a[1]) if t.op == 'seq' and t.a[0] is None else undv(t.a[0]) if t.op == 'elem' else t
        if t.op == 'ref' or t.op == 'seq' and t.a[0] is not None:
            break
    return t


def call_is(t, name, nargs=None):
    t = undv(t)
    return t.op == 'call' and cname(t) == name and (nargs is None or len(t.a) == nargs + 1)


def moved_to(x, v):
    """v is the position of input x moved by the offset of the layer x reads"""
    def off(t):
        return call_is(t, 'offset') and undv(t.a[1]) is x

    def add(t):
        return call_is(t, 'get', 2) and undv(t.a[1]) is sym('in_offset') and call_is(t.a[2], 'layer') and undv(undv(t.a[2]).a[1]) is x
    return issum(v, off, add)


def moved_inputs(I, fr, t):
    """every input moved exactly once"""
    rebuilt = [e for e in elems(t)]
    if len(rebuilt) == 1 and call_is(rebuilt[0], 'new', 2):
        l, o = undv(rebuilt[0].a[1]), rebuilt[0].a[2]
        return call_is(l, 'layer') and undv(l.a[1]) is sym('in') and moved_to(sym('in'), o)
    sets = [e for e in events(fr) if (e.path or '').endswith('::set_offset')]
    if len(sets) != 1:
        return False
    e = sets[0]
    if any(x.op == 'part' for x in walk(e.args[0])):
        return False
    return not conds(e.known) and moved_to(undv(e.args[0]), e.args[1]) and all(is_el(x) for x in rebuilt)


def is_el(x):
    """a generic entry of the inputs being rewritten in place (no other base than the original inputs)"""
    x = undv(x)
    bases = {y for y in walk(x) if y.op == 'sym'}
    return bases <= {sym('in'), sym('in_offset')} or x.op == 'mu'


def intact(t, c, but=()):
    fm = fieldmap(t)
    w = dict(inputs='in', output='out', gate_type='gt')
    for f, v in fm.items():
        if f in ((but,) if isinstance(but, str) else but):
            continue
        if f == 'inputs':
            if {undv(x) for x in elems(v)} != {sym('in')}:
                return False
        elif undv(v) is not sym(w.get(f, f)):
            return False
    return True


def check(ctx):
    models.MARK_SORTED = False      # gates are a multiset
    P = ctx.prog
    if not ctx.need(all(L + a in P.adts for a in ('Circuit', 'Segment', 'Gate', 'GateCustom', 'Allocation', 'Coef')), 'layered', 'types of layered circuits'):
        return
    n = check_gateopt(ctx)
    n += check_generic_dedup(ctx)
    n += check_segment_dedup(ctx)
    n += check_uni(ctx)
    n += check_expand(ctx)
    n += check_small(ctx)
    n += check_common(ctx)
    ctx.floor('obligation groups', n, 20)


def check_generic_dedup(ctx):
    """merging adds coefficients of mergeable gates only, and nothing else is dropped except zero gates when asked to"""
    P = ctx.prog
    bs = fns(ctx, 'opt::dedup_gates', 'opt', 1)
    if not bs:
        return 0
    b = bs[0]
    ops = tuple(p for p in P.bodies if 'opt::GateOpt' in p or p.endswith('::get_constant') or p.endswith('::is_constant'))

    def go(merge=None, const=None, z=None, trim=None):
        def f(t):
            if t.op != 'call':
                return None
            n = cname(t)
            if n == 'can_merge_with' and merge is not None:
                return k(merge)
            if n == 'get_constant' and const is not None:
                return mk('agg', 'core::option::Option', 'Some', ('0',), sym('constant')) if const else mk('agg', 'core::option::Option', 'None', ())
            if n == 'is_constant' and const is not None:
                return k(const)
            if n == 'is_zero' and z is not None:
                return k(z)
            return None
        return counterfactual(ctx, b, names=['gates', 'trim'], fn=f, args={1: k(trim)} if trim is not None else None, opaque=ops, mutout=lambda p: True, nonempty=lambda s: True)
    # what is merged
    I, fr = go()
    adds = [e for e in events(fr) if (e.path or '').endswith('::coef_add')]
    ctx.ob('dedup:merges', len(adds) >= 1, 'coefficients of merged gates are not added', where(b))
    for e in adds:
        pairs = [{undv(x) for x in undv(c).a[1:3]} for c, v in e.known if v is True and call_is(c, 'can_merge_with')]
        r, x = undv(e.args[0]), undv(e.args[1])
        good = call_is(x, 'get_coef') and any({r, undv(x.a[1])} == p for p in pairs) and len({r, undv(x.a[1])}) == 2
        ctx.ob('dedup:merge-condition', good, 'the coefficient added is %s, to a gate it was not found mergeable with' % show(x)[:160], where(b))
    # a gate merged is not also kept, a gate not merged is kept
    I, fr = go(merge=True, trim=False)
    kept = stores_in(fr, after=None)
    ctx.ob('dedup:merged-once', not [x for x in kept if not self_store(x)], 'a merged gate is also kept', where(b))
    ctx.ob('dedup:merge-all', any(not conds(e.known) for e in events(fr) if (e.path or '').endswith('::coef_add')), 'merged gates are dropped without adding their coefficient', where(b))
    I0, fr0 = go()
    acc = accmap(fr0)
    ok, why = positions(fr0, acc)
    ctx.ob('dedup:positions', ok, why, where(b))
    I, frn = go(merge=False, trim=True)
    places_ = stored_at(frn)
    for tag, kw in (('distinct', dict(merge=False, trim=False)), ('nonzero', dict(merge=False, trim=True, const=True, z=False)), ('not-constant', dict(merge=False, trim=True, const=False))):
        I, fr = go(**kw)
        if fr.ret is None:
            ctx.ob('dedup:%s' % tag, False, 'does not return', where(b))
            continue
        bad = []
        for f, _b, it in items(fr, 'st', 'push', 'trunc'):
            if it[0] == 'st' and not gate_place(it[4]):
                continue
            cs = conds(it[3] if it[0] == 'st' else it[5])
            if cs:
                bad += ['%s %s' % (show(c)[:80], v) for c, v in cs]
        if kw['trim']:
            bad += ['it is not one of those dropped' for x in places_ - stored_at(fr)]
        t = mem_of(I, fr, sym('gates'))
        bad += ['an iterator filter' for x in (walk(t) if t is not None else ()) if x.op == 'part']
        ctx.ob('dedup:%s' % tag, not bad, 'a gate that is not merged%s is only kept if %s' % ('' if tag == 'distinct' else ' and not zero', bad[:3]), where(b))
    return 6


def stored_at(fr):
    return {(f.body.path, b, it[0]) for f, b, it in items(fr, 'st', 'push') if it[0] == 'push' or gate_place(it[4])}


def gate_place(p):
    return any(x is sym('gates') for x in walk(p)) or undv(p).op in ('at', 'elem')


def self_store(it):
    return undv(it[2]) is undv(it[4])


def stores_in(fr, after):
    return [it for f, b, it in items(fr, 'st') if gate_place(it[4])] + [it for f, b, it in items(fr, 'push')]


def acc_parts(t, acc):
    """(counter, start value, offset) of an index that is a counter plus a constant"""
    d, c = linform(t)
    if len(d) == 1:
        (x, n), = d.items()
        x = acc.get(x, x)
        if n == 1 and x.op == 'red' and x.a[0] == 'Add':
            one_ = undv(x.a[2])
            while one_.op in ('maybe', 'call') and one_.a and isinstance(one_.a[-1], T) and kval(one_) is None:
                one_ = undv(one_.a[-1])
            if kval(one_) == 1:
                return x, kval(undv(x.a[1])), c
    return None


def positions(fr, acc):
    """in-place compaction: kept gates are stored at consecutive positions, the first after those already kept, and the length kept covers them"""
    sts = []
    for f, _b, it in items(fr, 'st'):
        p = undv(it[4])
        if p.op != 'at' or not gate_place(p):
            continue
        a = acc_parts(p.a[1], acc)
        if a is None or a[1] is None:
            return False, 'a kept gate is stored at position %s' % show(p.a[1])[:80]
        src = [x for x in alts(undv(it[2]))]
        lows = {lo_of(undv(x).a[1]) for x in src if undv(x).op == 'at'}
        lows.discard(None)
        if lows and a[1] + a[2] not in lows:
            return False, 'the first gate examined is number %s, but is stored at position %s' % (sorted(lows), a[1] + a[2])
        sts.append(a)
    trs = []
    for f, _b, it in items(fr, 'trunc'):
        a = acc_parts(it[4], acc)
        if a is None:
            return False, 'the gates kept are the first %s' % show(it[4])[:80]
        trs.append(a)
    if not sts and not trs:
        return True, ''
    for a in trs:
        if not any(s[2] == a[2] for s in sts):
            return False, 'the number of gates kept is the counter plus %d, but gates are stored at %s' % (a[2], sorted('counter + %d' % s[2] for s in sts))
    return len(sts) == len(trs), 'gates are stored in %d places, cut to length in %d' % (len(sts), len(trs))


def lo_of(i):
    i = undv(i)
    if i.op == 'ridx':
        return kval(undv(i.a[0]))
    if i.op == 'eidx':
        return 0
    return None


def method_of(ctx, name, ty):
    bs = [x for x in (ctx.prog.bodies[p] for p in ctx.prog.bodies if p.endswith('::' + name) and 'layered::' in p) if ('layered::%s<' % ty) in x.path]
    return bs[0] if ctx.need(len(bs) == 1, '%s::%s' % (ty, name), '%s of %s' % (name, ty)) else None


def check_segment_dedup(ctx):
    """a segment loses no gate list, and an output all of whose gates vanished keeps a gate"""
    P = ctx.prog
    b = method_of(ctx, 'dedup_gates', 'Segment')
    if b is None:
        return 0
    I, fr = counterfactual(ctx, b, names=['self'], mem={sym('self'): seg(P, 's.')}, nonempty=lambda s: True, opaque=(O + 'dedup_gates',), mutout=lambda p: True)
    t = mem_of(I, fr, sym('self')) if fr.ret is not None else None
    if not ctx.ob('segment:dedup', t is not None and t.op == 'agg', 'the segment becomes %s' % (show(t)[:100] if t is not None else None), where(b)):
        return 1
    fm, want = fieldmap(t), fieldmap(seg(P, 's.'))
    for f in ('num_inputs', 'num_outputs', 'child_segs'):
        ctx.ob('segment:dedup:' + f, undv(fm[f]) is undv(want[f]), '%s of a deduplicated segment is %s' % (f, show(fm[f])[:120]), where(b))
    trims = set()
    for g in GATES:
        x = undv(fm[g])
        added = set()
        while x.op == 'seq' and x.a[0] is not None:
            added |= {undv(y) for y in alts(undv(x.a[1]))}
            x = undv(x.a[0])
        src = x.op == 'mut' and short(x.a[0]) == 'dedup_gates' and x.a[1] == 0 and undv(x.a[2]) is undv(want[g])
        if src and kval(undv(x.a[3])) is not False:
            trims.add(g)
        ctx.ob('segment:dedup:' + g, src or x is undv(want[g]), '%s of a deduplicated segment are %s' % (g, show(x)[:120]), where(b))
        for y in added:
            good = g == 'gate_consts' and y.op == 'agg' and zero_gate(y)
            ctx.ob('segment:added', good, 'a gate is added to %s: %s' % (g, show(y)[:160]), where(b))
    marks = set()
    for f, _b, it in items(fr, 'st'):
        v = undv(it[2])
        if v is k(True) and not conds(it[3]):
            i = undv(it[4]).a[1] if undv(it[4]).op == 'at' else None
            for g in GATES:
                if i is not None and undv(i) is fld(sym('s.' + g), 'output'):
                    marks.add(g)
    pushed = [it for f, _b, it in items(fr, 'push') if undv(it[4]).op == 'agg']
    if any(v is True or v is False for it in pushed for c, v in conds(it[5])):
        for g in sorted(trims):
            ctx.ob('segment:occurs:' + g, g in marks, 'an output whose %s all vanish is not kept' % g, where(b))
    else:
        ctx.ob('segment:occurs', bool(pushed) or not trims, 'an output whose gates all vanish is not kept', where(b))
    # the pass runs on every segment
    b2 = method_of(ctx, 'dedup_gates', 'Circuit')
    if b2 is not None:
        I, fr = counterfactual(ctx, b2, names=['self'], mem={sym('self'): circ(P)}, nonempty=lambda s: True, opaque=(b.path,), mutout=lambda p: sym('DEDUP'))
        evs = [e for e in events(fr) if e.path == b.path]
        ctx.ob('dedup:circuit:all', any({undv(x) for x in alts(undv(e.args[0]))} <= {seg(P, 's.'), sym('DEDUP')} and not conds(e.known) for e in evs), 'not every segment is deduplicated', where(b2))
        t = mem_of(I, fr, sym('self')) if fr.ret is not None else None
        good = t is not None and t.op == 'agg'
        if good:
            fm = fieldmap(t)
            es = elems(fm['segments'])
            ctx.ob('dedup:circuit', es <= {seg(P, 's.'), sym('DEDUP')} and sym('DEDUP') in es, 'the segments become %s' % [show(x)[:120] for x in es], where(b2))
            for f, w in HDR.items():
                ctx.ob('dedup:circuit:' + f, undv(fm[f]) is sym(w), '%s becomes %s' % (f, show(fm[f])[:100]), where(b2))
        else:
            ctx.ob('dedup:circuit', False, 'the circuit becomes %s' % (show(t)[:100] if t is not None else None), where(b2))
    return 3


HDR = {'num_public_inputs': 'npi', 'num_actual_outputs': 'nout', 'expected_num_output_zeroes': 'nzero', 'layer_ids': 'layer_ids'}


def zero_gate(y):
    fm = fieldmap(y)
    c = undv(fm['coef'])
    return not elems(fm['inputs']) and c.op == 'agg' and c.a[1] == 'Constant' and call_is(c.a[3], 'zero')


def check_uni(ctx):
    """sets of gates of all kinds: taking them from a segment, removing them from it, and making a segment of them"""
    P = ctx.prog
    n = 0
    b = method_of(ctx, 'all_gates', 'Segment')
    if b is not None:
        n += 1
        I, fr = counterfactual(ctx, b, names=['self'], mem={sym('self'): seg(P, 's.')}, nonempty=lambda s: True)
        got = elems(ret(I, fr)) if fr.ret is not None else set()
        want = {mk('agg', O + 'UniGate', KIND[g], ('0',), sym('s.' + g)) for g in GATES}
        ctx.ob('uni:all', got <= want, 'gates of a segment are taken to be %s' % [show(x)[:80] for x in got - want], where(b))
    b = method_of(ctx, 'sample_gates', 'Segment')
    b = method_of(ctx, 'remove_gates', 'Segment')
    if b is not None:
        n += 1

        def go(member):
            def f(t):
                if t.op == 'call' and cname(t) == 'contains' and undv(t.a[1]) is sym('gates'):
                    for g in GATES:
                        if undv(t.a[2]) is mk('agg', O + 'UniGate', KIND[g], ('0',), sym('s.' + g)):
                            return k(member)
                return None
            I, fr = counterfactual(ctx, b, names=['self', 'gates'], mem={sym('self'): seg(P, 's.')}, fn=f, nonempty=lambda s: True)
            return I, fr, (mem_of(I, fr, sym('self')) if fr.ret is not None else None)
        for member in (False, True):
            I, fr, t = go(member)
            if not ctx.ob('uni:remove:%s' % member, t is not None and t.op == 'agg', 'the segment becomes %s' % (show(t)[:100] if t is not None else None), where(b)):
                continue
            fm, want = fieldmap(t), fieldmap(seg(P, 's.'))
            for f in ('num_inputs', 'num_outputs', 'child_segs'):
                ctx.ob('uni:remove:' + f, undv(fm[f]) is undv(want[f]), '%s becomes %s' % (f, show(fm[f])[:120]), where(b))
            for g in GATES:
                es = {x for x in elems(fm[g]) if not (x.op == 'part' and any(kval(undv(y)) is False or undv(y) is A.A_FALSE for t in x.a[1:] if isinstance(t, T) and t.op == 'cond' for y in t.a))}
                if member:
                    ctx.ob('uni:remove:' + g, not es, '%s in the set of gates to remove remain: %s' % (g, [show(x)[:80] for x in es]), where(b))
                else:
                    cs = [c for f, _b, it in items(fr, 'push') if undv(it[4]) is sym('s.' + g) for c in conds(it[5])]
                    ctx.ob('uni:keep:' + g, es == {sym('s.' + g)} and not cs, '%s not in the set of gates to remove become %s%s' % (g, [show(x)[:80] for x in es], [show(c)[:80] for c, v in cs]), where(b))
    b = method_of(ctx, 'from_uni_gates', 'Segment')
    if b is not None:
        for g in GATES:
            n += 1
            x = mk('agg', O + 'UniGate', KIND[g], ('0',), sym('g'))
            I, fr = counterfactual(ctx, b, names=['gates'], mem={sym('gates'): seq1(x)}, nonempty=lambda s: True, opaque=tuple(p for p in P.bodies if p.endswith('::next_power_of_two')))
            r = undv(ret(I, fr)) if fr.ret is not None else None
            if not ctx.ob('uni:build:' + g, r is not None and r.op == 'agg' and short(r.a[0]) == 'Segment', 'a set of gates becomes %s' % (show(r)[:100] if r is not None else None), where(b)):
                continue
            fm = fieldmap(r)
            for h in GATES:
                es = {e for e in elems(fm[h]) if e.op != 'bot'}
                ctx.ob('uni:build:%s:%s' % (g, h), es == ({sym('g')} if g == h else set()), '%s of a segment made of %s are %s' % (h, g, [show(e)[:80] for e in es]), where(b))
            ctx.ob('uni:build:%s:children' % g, not {e for e in elems(fm['child_segs']) if e.op != 'bot'}, 'a segment made of gates has children', where(b))
            out = undv(fm['num_outputs'])
            good = out.op == 'call' and cname(out) == 'next_power_of_two'
            if good:
                d, c = linform(out.a[1])
                good = c >= 1 and len(d) == 1 and all(v == 1 for v in d.values()) and covers(fr, list(d)[0], fld(sym('g'), 'output'))
            ctx.ob('uni:build:%s:outputs' % g, good, 'the number of outputs of a segment made of %s is %s' % (g, show(out)[:160]), where(b))
            if g != 'gate_consts':
                es = elems(undv(fm['num_inputs']).a[1]) if call_is(fm['num_inputs'], 'from_vec') else set()
                good = len(es) == 1 and call_is(list(es)[0], 'next_power_of_two')
                if good:
                    q = undv(list(es)[0].a[1])
                    good = linform(q)[1] >= 1 or any(y.op == 'bin' and y.a[0] == 'Add' and is_k(undv(y.a[2]), 1) and call_is(y.a[1], 'offset') or y.op == 'bin' and y.a[0] == 'Add' and is_k(undv(y.a[1]), 1) and call_is(y.a[2], 'offset') for y in walk(q))
                inp = elem(fld(sym('g'), 'inputs'))
                # the size of each layer is raised to the position of every input
                st = [it for f, _b, it in items(fr, 'st') if undv(it[4]).op == 'at' and call_is(undv(it[4]).a[1], 'layer')]
                hit = [it for it in st if undv(undv(undv(it[4]).a[1]).a[1]) is inp and raised(it, inp)]
                ctx.ob('uni:build:%s:inputs' % g, bool(hit), 'the number of inputs of a segment made of %s does not cover their inputs' % g, where(b))
                ctx.ob('uni:build:%s:input-size' % g, good, 'the number of inputs of a segment made of %s is %s' % (g, show(fm['num_inputs'])[:160]), where(b))
    return n


def raised(it, inp):
    """a store that raises a maximum to the offset of inp: max(.., offset), or the offset itself if it is greater"""
    def off(t):
        t = undv(t)
        return call_is(t, 'offset') and undv(t.a[1]) is inp
    rest = []
    greater = False
    for c, v in conds(it[3]):
        c = undv(c)
        if c.op == 'bin' and c.a[0] in ('Lt', 'Le', 'Gt', 'Ge'):
            if any(undv(x).op == 'call' and cname(x) == 'len' or undv(x).op == 'len' for x in c.a[1:]):
                continue        # growing the vector
            lt = (c.a[0] in ('Lt', 'Le')) == (v is True)
            if off(c.a[2 if lt else 1]):
                greater = True
                continue
        rest.append(c)
    if rest:
        return False
    if any(off(y) for y in walk(it[2])) and has_max(it[2]):
        return True
    return greater and off(it[2])


def has_max(t):
    return any(x.op == 'max' or x.op == 'call' and cname(x) == 'max' for x in walk(t))


def sub_atoms(t):
    out = set()
    for x in walk(t):
        if x.op == 'mu':
            for y in x.a[1:]:
                if isinstance(y, frozenset):
                    out |= {undv(z) for z in y if isinstance(z, T)}
        out.add(x)
    return out


def covers(fr, t, want):
    """t is a maximum over values that include want"""
    t = undv(t)
    if t is want:
        return True
    if t.op == 'red' and t.a[0] == 'max':
        return covers(fr, t.a[1], want) or covers(fr, t.a[2], want)
    if t.op == 'max' or t.op == 'call' and cname(t) == 'max':
        return any(covers(fr, x, want) for x in t.a if isinstance(x, T))
    if t.op == 'phi':
        if any(covers(fr, x, want) for x in alts(t)):
            if all(covers(fr, x, want) or undv(x).op in ('k', 'bot') for x in alts(t)):
                return True
            # replaced where it is greater (the comparison itself is not examined)
            return all(undv(x) is want or undv(x).op in ('k', 'bot', 'acc', 'red') for x in alts(t)) and any(undv(x).op == 'acc' for x in alts(t))
    return False


def check_expand(ctx):
    """inlining a child: its gates and children appear once per allocation, moved by it; other children stay"""
    P = ctx.prog
    b = method_of(ctx, 'expand_segment', 'Circuit')
    if b is None:
        return 0
    ops = tuple(p for p in P.bodies if 'opt::GateOpt' in p)
    for do in (False, True):
        def f(t):
            if t.op == 'call' and cname(t) == 'indirect' and undv(t.a[-1]) is sym('s.child'):
                return k(do)
            return None
        I, fr = counterfactual(ctx, b, names=['self', 'id', 'prev', 'should'], mem={sym('self'): circ(P), sym('prev'): seq1(seg(P, 'p.'))}, fn=f, nonempty=lambda s: True, opaque=ops)
        tag = 'expand:%s' % ('inline' if do else 'keep')
        r = undv(ret(I, fr)) if fr.ret is not None else None
        if not ctx.ob(tag, r is not None and r.op == 'agg' and short(r.a[0]) == 'Segment', 'an expanded segment is %s' % (show(r)[:100] if r is not None else None), where(b)):
            continue
        fm = fieldmap(r)
        for f_, w in (('num_inputs', 's.n_in'), ('num_outputs', 's.n_out')):
            ctx.ob('%s:%s' % (tag, f_), undv(fm[f_]) is sym(w), '%s of an expanded segment is %s' % (f_, show(fm[f_])[:100]), where(b))
        for g in GATES:
            own, bad, moved = False, [], 0
            for x in {e for e in elems(fm[g]) if e.op != 'bot'}:
                if x is sym('s.' + g):
                    own = True
                elif do and call_is(x, 'add_offset', 3) and [undv(y) for y in x.a[1:4]] == [sym('p.' + g), sym('s.in_off'), sym('s.out_off')]:
                    moved += 1
                else:
                    bad.append(show(x)[:120])
            if do and undv(fm[g]).op == 'phi':
                for x in alts(undv(fm[g])):
                    if not any(call_is(e, 'add_offset') for e in elems(x)):
                        bad.append('without those of the child: ' + show(x)[:100])
            ctx.ob('%s:%s' % (tag, g), own and not bad and moved == int(do), '%s of an expanded segment: own %s, moved from the child %d, others %s' % (g, own, moved, bad), where(b))
        cs = [(show(c)[:100], v) for f_, _b, it in items(fr, 'push') if call_is(it[4], 'add_offset') for c, v in conds(it[5])]
        ctx.ob(tag + ':all-gates', not cs, 'gates of an inlined child are only kept if %s' % cs[:3], where(b))
        bad, n = [], 0
        es = {e for e in elems(fm['child_segs']) if e.op != 'bot'}
        for x in es:
            if x.op != 'tup':
                bad.append(show(x)[:100])
                continue
            if undv(x.a[0]) is not sym('p.child' if do else 's.child'):
                bad.append('child ' + show(x.a[0])[:100])
            for a in {e for y in alts(undv(x.a[1])) for e in elems(y) if e.op != 'bot'}:
                n += 1
                if a.op != 'agg' or not alloc_ok(fieldmap(a), do):
                    bad.append(show(a)[:200])
        ctx.ob(tag + ':children', n >= 1 and not bad, 'children of an expanded segment are %s' % (bad[:2] or [show(x)[:100] for x in es]), where(b))
        ap = [it for f_, _b, it in items(fr, 'push', 'insert') if any(y.op == 'agg' and short(y.a[0]) == 'Allocation' for y in [undv(z) for z in (alts(undv(it[4])) if undv(it[4]).op != 'tup' else [e for q in alts(undv(undv(it[4]).a[1])) for e in elems(q)])])]
        fresh = [it for f_, _b, it in items(fr, 'insert') if undv(it[4]).op == 'tup' and not [e for y in alts(undv(undv(it[4]).a[1])) for e in elems(y) if e.op != 'bot']]
        ctx.ob(tag + ':fresh', all(it[-1] == 'vacant' or absent(it[5]) for it in fresh), 'the allocations of a child collected so far are replaced by none', where(b))
        for f_, _b, it in items(fr, 'index'):
            base, i = elems(it[3]), undv(it[4])
            if base == {seg(P, 'p.')}:
                ctx.ob(tag + ':child', i is sym('s.child'), 'segment %s is inlined for child %s' % (show(i)[:80], 's.child'), where(b))
            elif base == {seg(P, 's.')}:
                ctx.ob(tag + ':self', i is sym('id'), 'segment %s is expanded' % show(i)[:80], where(b))
        cs = [[(c, v) for c, v in conds(it[5]) if not (call_is(c, 'contains_key') and (v is True or it[0] == 'insert'))] for it in ap]
        ctx.ob(tag + ':all-children', any(not c for c in cs), 'children are only kept if %s' % [(show(c)[:80], v) for x in cs for c, v in x][:3], where(b))
    return 2


def absent(known):
    for c, v in known:
        if call_is(c, 'contains_key') and v is False or v == 'None' and call_is(c, 'get') or v == 'Vacant':
            return True
    return False


def alloc_ok(fm, do):
    i, o = undv(fm['input_offset']), fm['output_offset']
    if not do:
        return i is sym('s.in_off') and undv(o) is sym('s.out_off')
    if not issum(o, sym('s.out_off'), sym('p.out_off')):
        return False
    if not call_is(i, 'from_vec'):
        return False
    es = elems(i.a[1])

    def ent(s):
        return lambda t: undv(t).op in ('elem', 'at', 'call') and {y for y in walk(t) if y.op == 'sym'} & {sym('p.in_off'), sym('s.in_off')} == {sym(s)}
    return len(es) == 1 and issum(list(es)[0], ent('p.in_off'), ent('s.in_off'))


def rebuilt(ctx, b, tag, t, srcs):
    """a segment copied from one of the sources, children aside"""
    t = undv(t)
    bad = []
    for t in alts(t):
        t = undv(t)
        if t.op != 'agg' or short(t.a[0]) != 'Segment':
            bad.append(show(t)[:100])
            continue
        fm = fieldmap(t)
        for f, w in [('num_inputs', 'n_in'), ('num_outputs', 'n_out')]:
            if not {undv(x) for x in alts(undv(fm[f]))} <= {sym(s + w) for s in srcs}:
                bad.append('%s is %s' % (f, show(fm[f])[:80]))
        for g in GATES:
            es = {e for x in alts(undv(fm[g])) for e in elems(x)}
            if not es or not es <= {sym(s + g) for s in srcs}:
                bad.append('%s are %s' % (g, show(fm[g])[:80]))
    ctx.ob(tag, not bad, 'a segment of the optimised circuit is not what it was: %s' % bad[:2], where(b))
    return not bad


def header(ctx, b, tag, r):
    fm = fieldmap(r)
    for f in ('num_public_inputs', 'num_actual_outputs', 'expected_num_output_zeroes'):
        ctx.ob('%s:%s' % (tag, f), {undv(x) for x in alts(undv(fm[f]))} == {sym(HDR[f])}, '%s of the optimised circuit is %s' % (f, show(fm[f])[:100]), where(b))
    return fm


def renumbered(ctx, b, tag, I, fr, r, seg_ok, child):
    """new ids: the position at which the new form of a segment was stored, recorded under its old id, and used for layers and children"""
    fm = fieldmap(r)
    ids = [undv(x) for x in elems(fm['layer_ids'])]
    parts = [x for t in ids for x in walk(t) if x.op == 'part']
    lay = [it for f, _b, it in items(fr, 'index') if undv(it[4]) is elem(sym('layer_ids')) and is_idmap(it[3])]
    ctx.ob(tag + ':layers', bool(lay) and (len(ids) == 0 or any(is_pos(x) or x.op == 'phi' for x in ids) or {elem(sym('layer_ids'))} == set(ids)) and not parts and all(is_id(x) or x is elem(sym('layer_ids')) for t in ids for x in [t]), 'layers of the optimised circuit are %s' % show(fm['layer_ids'])[:160], where(b))
    ch = [it for f, _b, it in items(fr, 'index') if is_idmap(it[3]) and {undv(x) for x in alts(undv(it[4]))} & child]
    ctx.ob(tag + ':children', bool(ch) and all({undv(x) for x in alts(undv(it[4]))} <= child for it in ch), 'children are not renumbered by their new ids', where(b))

    def lab(it, f):
        if it[0] == 'push' and seg_ok(it[4]):
            return 'P'
        if it[0] == 'st' and is_pos(it[2]) and any(call_is(y, 'len') for y in walk(it[2])) and plain_id(it):
            return 'M' if is_minus(it[2]) else 'L'
        return None
    nfa = auto.NFA(fr, lambda e, f: None, items=lab)
    d = {('-', 'P'): 'p', ('p', 'M'): '-', ('-', 'L'): 'l', ('l', 'P'): '-'}
    cx = auto.within(nfa, d, '-', {'-'})
    ctx.ob(tag + ':ids', cx is None, 'segments are stored (P) and their ids recorded (M: the last position, L: the next) in the order %s' % (cx,), where(b))


def is_pos(t):
    return any(call_is(x, 'len') for x in walk(t)) and undv(t).op in ('bin', 'call')


def is_minus(t):
    d, c = linform(t)
    return c == -1


def is_id(t):
    t = undv(t)
    if is_k(t, 0):
        return True     # the first id (the others are positions)
    return t.op == 'phi' and any(is_pos(x) for x in alts(t)) or is_pos(t) or t.op == 'un'


def is_idmap(t):
    """the array of new ids: positions in the new list of segments"""
    es = elems(t)
    return any(is_pos(x) and undv(x).op == 'bin' or call_is(x, 'len') for x in es)


def plain_id(it):
    i = undv(it[4])
    return i.op == 'at' and undv(i.a[1]).op in ('eidx', 'ridx')


def check_small(ctx):
    """inlining small or once-used segments"""
    P = ctx.prog
    b = method_of(ctx, 'expand_small_segments', 'Circuit')
    if b is None:
        return 0
    dd = sym('DEDUP')

    def f(t):
        if t.op == 'call' and cname(t) == 'expand_segment':
            return seg(P, 'e.')
        return None
    I, fr = counterfactual(ctx, b, names=['self'], mem={sym('self'): circ(P)}, nonempty=lambda s: True, opaque=opq(P, 'expand_segment', 'dedup_gates'), fn=f, mutout=lambda p: dd if p.endswith('::dedup_gates') else True)
    r = undv(ret(I, fr)) if fr.ret is not None else None
    if not ctx.ob('small', r is not None and r.op == 'agg' and short(r.a[0]) == 'Circuit', 'the optimised circuit is %s' % (show(r)[:100] if r is not None else None), where(b)):
        return 1
    fm = header(ctx, b, 'small', r)
    es = elems(fm['segments'])
    deduped = [e for e in events(fr) if (e.path or '').endswith('::dedup_gates')]
    ctx.ob('small:segments', all(x is dd or x is seg(P, 's.') or x is seg(P, 'e.') or rebuilt(ctx, b, 'small:copied', x, ('e.', 's.')) for x in es) and bool(es), 'segments of the optimised circuit are %s' % [show(x)[:80] for x in es], where(b))
    for e in deduped:
        rebuilt(ctx, b, 'small:copied', e.args[0], ('e.', 's.'))
        kids_ok(ctx, b, 'small:kids', e.args[0])
    ex = [e for e in events(fr) if (e.path or '').endswith('::expand_segment')]
    ctx.ob('small:expand', len(ex) >= 1, 'segments are not expanded', where(b))
    for e in ex:
        good = undv(e.args[0]) is undv(circ(P)) and undv(e.args[1]).op in ('eidx', 'ridx') and elems(e.args[2]) <= {seg(P, 'e.'), seg(P, 's.')} and seg(P, 'e.') in elems(e.args[2])
        ctx.ob('small:expand-args', good, 'a segment is expanded from %s' % [show(x)[:80] for x in e.args[1:3]], where(b))
        # the predicate given is membership in the set of segments that are left out
        clo = undv(e.args[3])
        left = [(undv(c), v) for f_, _b, it in items(fr, 'push') if undv(it[4]) is dd for c, v in conds(it[5]) if call_is(c, 'contains')]
        ctx.ob('small:left-out', all(v is False for c, v in left) and all(undv(c.a[1]) in sub_atoms(clo) for c, v in left), 'the segments left out are not those expanded into their parents', where(b))
        bods = [P.bodies[p] for p in P.bodies if isinstance(clo.a[0], str) and p == clo.a[0] or p == getattr(clo.a[0], 'path', None)] if clo.op == 'clo' else []
        ctx.ob('small:predicate', clo.op != 'clo' or not bods or member_predicate(ctx, bods[0]), 'the segments expanded are not the members of the set', where(b))
    renumbered(ctx, b, 'small', I, fr, r, lambda t: undv(t) is dd, {sym('e.child'), sym('s.child')})
    # a segment used as a layer is never left out
    ins = [it for f_, _b, it in items(fr, 'sinsert')]
    lays = [it for f_, _b, it in items(fr, 'st') if undv(it[4]).op == 'at' and undv(undv(it[4]).a[1]) is elem(sym('layer_ids')) and undv(it[2]) is k(True) and not conds(it[3])]
    for it in ins:
        cs = only_iteration(it[5])
        flag = any(isflag(c) and v is False for c, v in cs)
        good = flag or any(call_is(c, 'contains') and v is False and elem(sym('layer_ids')) in {undv(x) for x in elems(undv(c).a[1])} for c, v in cs)
        ctx.ob('small:layer-marked', bool(lays) or not flag, 'segments used as layers are not marked', where(b))
        ctx.ob('small:layer-kept', good, 'a segment used as a layer may be expanded into its parents and left out', where(b))
    for f_, _b, it in items(fr, 'push'):
        if undv(it[4]) is dd:
            extra = [c for c, v in conds(it[5]) if not (call_is(c, 'contains') and v is False or positive(c, v) or isflagvar(c))]
            ctx.ob('small:kept', not extra, 'a segment is only kept if %s' % [show(c)[:120] for c in extra[:2]], where(b))
    # use counts: layers and children of used segments
    up = [it for f_, _b, it in items(fr, 'st', 'aug') if it[0] == 'st' and undv(it[2]).op == 'bin' and undv(it[2]).a[0] == 'Add']
    up1 = [it for f_, _b, it in items(fr, 'st') if isinstance(kval(undv(it[2])), int) and kval(undv(it[2])) is not True and kval(undv(it[2])) >= 1 and undv(it[4]).op == 'at']
    lay = [it for it in up + up1 if undv(undv(it[4]).a[1]) is elem(sym('layer_ids')) and not conds(it[3])]
    kid = [it for it in up if undv(undv(it[4]).a[1]) is sym('s.child') and all(positive(c, v) for c, v in conds(it[3]))]
    kb = min([b_ for f_, b_, it in items(fr, 'st') if f_ is fr and any(it is x for x in kid)], default=0)
    outer = [it for f_, b_, it in items(fr, 'nxt') if f_ is fr and kid and undv(undv(it[2]).a[0]).op in ('ridx', 'tup', 'eidx') and b_ < kb]
    ctx.ob('small:used:order', not outer or any(x.op == 'rev' for x in walk(max(outer, key=lambda it: it[1])[2])), 'the uses of children are counted before those of their parents are known', where(b))
    ctx.ob('small:used:layers', bool(lay), 'segments used as layers are not counted as used', where(b))
    ctx.ob('small:used:children', bool(kid), 'children of used segments are not counted as used', where(b))
    return 4


def positive(c, v):
    """a count is not zero"""
    c = undv(c)
    if c.op != 'bin':
        return False
    o, x, y = c.a[0], undv(c.a[1]), undv(c.a[2])
    if o in ('Gt', 'Ge'):
        o, x, y = {'Gt': 'Lt', 'Ge': 'Le'}[o], y, x
    if o == 'Lt':
        return is_k(x, 0) and v is True or is_k(y, 1) and v is False
    if o == 'Le':
        return is_k(x, 1) and v is True or is_k(y, 0) and v is False
    return o == 'Eq' and (is_k(x, 0) or is_k(y, 0)) and v is False or o == 'Ne' and (is_k(x, 0) or is_k(y, 0)) and v is True


def isflagvar(c):
    """whether there is anything to do at all"""
    c = undv(c)
    return c.op == 'call' and c.a[0] == 'flag' or c.op == 'flag' or c.op == 'phi' and all(undv(x).op == 'hdr' or kval(undv(x)) in (True, False) for x in alts(c))


def isflag(c):
    es = [kval(x) for x in alts(undv(c))]
    return set(es) <= {True, False} and True in es or undv(c).op in ('at', 'elem')


def member_predicate(ctx, b):
    I, fr = run(ctx, b)
    t = undv(ret(I, fr)) if fr.ret is not None else None
    while t is not None and t.op == 'un':
        return False
    return t is not None and call_is(t, 'contains')


def kids_ok(ctx, b, tag, t, extra=()):
    bad, n = [], 0
    for t in alts(undv(t)):
        t = undv(t)
        if t.op != 'agg':
            continue
        for x in elems(fieldmap(t)['child_segs']):
            if x.op == 'bot':
                continue
            n += 1
            if x.op != 'tup':
                bad.append(show(x)[:100])
                continue
            als = {e for y in alts(undv(x.a[1])) for e in elems(y)}
            for a in als:
                fm = fieldmap(a) if a.op == 'agg' else {}
                o = [s for s in ('s.', 'e.', 'r.') if undv(fm.get('input_offset', k(0))) is sym(s + 'in_off') and undv(fm.get('output_offset', k(0))) is sym(s + 'out_off')]
                if not o and not any(p(a, x) for p in extra):
                    bad.append(show(a)[:160])
    ctx.ob(tag, n >= 1 and not bad, 'children of a segment of the optimised circuit are %s' % bad[:2], where(b))


def both_groups(t):
    """the gates two groups have in common"""
    es = [undv(x) for x in elems(t)]
    if len(es) != 1:
        return False
    x = es[0]
    if x.op == 'part':
        c = [undv(z) for y in x.a[1:] if isinstance(y, T) and y.op == 'cond' for z in y.a]
        return any(call_is(y, 'contains') for y in c) and not any(y.op == 'un' for y in c)
    while x.op == 'elem':
        x = undv(x.a[0])
    return call_is(x, 'intersection')


def check_common(ctx):
    """extracting common gates"""
    P = ctx.prog
    b = method_of(ctx, 'find_common_parts', 'Circuit')
    if b is None:
        return 0
    dd = sym('DEDUP')

    def f(t):
        if t.op == 'call' and cname(t) == 'from_uni_gates':
            return seg(P, 'c.')
        return None

    def mo(p):
        return dd if p.endswith('::dedup_gates') else seg(P, 'r.') if p.endswith('::remove_gates') else True
    ops = opq(P, 'sample_gates', 'all_gates', 'dedup_gates', 'from_uni_gates', 'remove_gates') + tuple(p for p in P.bodies if 'union_find::' in p)
    I, fr = counterfactual(ctx, b, names=['self'], mem={sym('self'): circ(P)}, nonempty=lambda s: True, opaque=ops, mutout=mo, fn=f)
    r = undv(ret(I, fr)) if fr.ret is not None else None
    if not ctx.ob('common', r is not None and r.op == 'agg' and short(r.a[0]) == 'Circuit', 'the optimised circuit is %s' % (show(r)[:100] if r is not None else None), where(b)):
        return 1
    fm = header(ctx, b, 'common', r)
    es = elems(fm['segments'])
    ctx.ob('common:segments', es == {dd, seg(P, 'c.')} or es <= {dd, seg(P, 'c.'), seg(P, 's.')} and dd in es, 'segments of the optimised circuit are %s' % [show(x)[:80] for x in es], where(b))

    def zero_alloc(a, x):
        fm = fieldmap(a) if a.op == 'agg' else {}
        if not fm or not is_k(undv(fm['output_offset']), 0):
            return False
        i = undv(fm['input_offset'])
        return call_is(i, 'from_vec') and all(is_k(undv(y), 0) for y in (elems(i.a[1]) if undv(i.a[1]).op != 'rep' else {undv(undv(i.a[1]).a[0])}))
    dev = [e for e in events(fr) if (e.path or '').endswith('::dedup_gates')]
    rm = [e for e in events(fr) if (e.path or '').endswith('::remove_gates')]
    bu = [e for e in events(fr) if (e.path or '').endswith('::from_uni_gates')]
    ctx.ob('common:steps', len(rm) == 1 and len(bu) == 1, 'common gates are removed in %d places, made a segment in %d' % (len(rm), len(bu)), where(b))
    for e in dev:
        rebuilt(ctx, b, 'common:copied', e.args[0], ('s.', 'r.'))
        kids_ok(ctx, b, 'common:kids', e.args[0], extra=(zero_alloc,))
    for e in rm:
        rebuilt(ctx, b, 'common:removed-from', e.args[0], ('s.',))
        kids_ok(ctx, b, 'common:removed-kids', e.args[0])
    renumbered(ctx, b, 'common', I, fr, r, lambda t: undv(t) is dd, {sym('s.child')})

    def is_common(it):
        t = undv(it[4])
        return it[0] == 'push' and t.op == 'tup' and len(t.a) == 2 and any(zero_alloc(a, t) for y in alts(undv(t.a[1])) for a in elems(y))
    nfa = auto.NFA(fr, lambda e, f_: 'R' if (e.path or '').endswith('::remove_gates') else 'D' if (e.path or '').endswith('::dedup_gates') else None, items=lambda it, f_: 'C' if is_common(it) else None)
    cx = auto.within(nfa, {('-', 'R'): 'r', ('-', 'C'): 'c', ('r', 'C'): '-', ('c', 'R'): '-', ('-', 'D'): '-'}, '-', {'-'})
    ctx.ob('common:replaced', cx is None, 'removing the common gates (R), adding the child that has them (C) and storing the segment (D) happen in the order %s' % (cx,), where(b))
    # the group whose gates are removed is the one whose segment is added
    if len(rm) == 1 and len(bu) == 1:
        g1, g2 = undv(rm[0].args[1]), undv(bu[0].args[0])
        ctx.ob('common:same-gates', g1 is g2, 'the gates removed are %s, those of the common segment %s' % (show(g1)[:80], show(g2)[:80]), where(b))
        ix = [it for f_, _b, it in items(fr, 'index') if g1 in elems(it[3]) or undv(it[3]) is g1]
        rep = [(c, v) for c, v in bu[0].known if undv(c).op == 'bin' and undv(c).a[0] == 'Eq' and v is True and any(call_is(x, 'find') for x in undv(c).a[1:])]
        ctx.ob('common:group', bool(rep), 'a common segment is made for a segment that does not stand for its group', where(b))
        pl = [undv(p) for p in (rm[0].at or [(), ()])[1]]
        use = pl and all(p.op == 'at' and call_is(p.a[1], 'find') and undv(undv(p.a[1]).a[2]).op in ('eidx', 'ridx') for p in pl)
        ctx.ob('common:group-of', bool(use), 'the gates removed from a segment are not those of its group', where(b))
        # ids of common segments: recorded under the group, read under the group of the segment
        opt = [it for f_, _b, it in items(fr, 'index') if any(undv(y).op == 'agg' and undv(y).a[1] == 'Some' for x in elems(it[3]) for y in alts(x))]
        ctx.ob('common:group-id', bool(opt) and all(call_is(it[4], 'find') or undv(it[4]).op in ('ridx', 'eidx') for it in opt) and any(call_is(it[4], 'find') for it in opt), 'the common segment of a group is not looked up under the group', where(b))
        stid = [it for f_, _b, it in items(fr, 'st') if undv(it[2]).op == 'agg' and undv(it[2]).a[1] == 'Some']

        def lab(it, f_):
            if it[0] == 'push' and undv(it[4]) is seg(P, 'c.'):
                return 'P'
            if it[0] == 'st' and undv(it[2]).op == 'agg' and undv(it[2]).a[1] == 'Some':
                return 'M' if is_minus(undv(it[2]).a[3]) else 'L'
            return None
        cx = auto.within(auto.NFA(fr, lambda e, f_: None, items=lab), {('-', 'P'): 'p', ('p', 'M'): '-', ('-', 'L'): 'l', ('l', 'P'): '-'}, '-', {'-'})
        ctx.ob('common:group-ids', bool(stid) and cx is None, 'common segments are stored (P) and their ids recorded (M: the last position, L: the next) in the order %s' % (cx,), where(b))
    # merging two groups keeps only the gates of both, recorded for the merged group
    un = [e for e in events(fr) if (e.path or '').endswith('UnionFind::union')]
    ctx.ob('common:union', len(un) >= 1, 'groups are not merged', where(b))
    sets = [it for f_, _b, it in items(fr, 'st') if undv(it[2]).op in ('seq', 'call', 'phi') and undv(it[4]).op == 'at' and call_is(undv(it[4]).a[1], 'find')and not (undv(it[2]).op == 'bin')]
    good = len(sets) == len(un) and all(both_groups(it[2]) for it in sets)
    ctx.ob('common:intersection', good, 'the gates of a merged group are %s' % [show(it[2])[:120] for it in sets], where(b))
    for it in sets:
        i = undv(undv(it[4]).a[1])
        ctx.ob('common:root', any(x.op == 'mut' and str(x.a[0]).endswith('::union') for x in walk(i.a[1])), 'the gates of a merged group are stored under the group it had before merging', where(b))
    return 3
