"""The circuit handed to the prover is the layered circuit: every gate of every kind, coefficient, segment size, child segment and
header field of the layered circuit arrives unchanged in the exported circuit.  The exporters are abstractly interpreted on a
symbolic circuit (one generic gate of each kind, the coefficient specialised to each of its variants) and the resulting aggregate
is compared field by field."""
from rules.assume import *
from rules.c13 import walk, fieldmap
from rules.c09 import cname, result, where, plain0, unconditional, only_iteration

RULE = 'field-wise provenance of the exported circuit == the layered circuit, per coefficient variant and gate kind'
L = EC + 'circuit::layered::'
GATES = ('gate_muls', 'gate_adds', 'gate_consts', 'gate_customs')
ARITY = {'gate_muls': 2, 'gate_adds': 1, 'gate_consts': 0}


def short(p):
    return p.rsplit('::', 1)[-1]


def build(P, adt, **kw):
    """a struct value with the given fields, others symbolic"""
    fs = tuple(f[0] for f in P.adts[adt]['variants'][0]['fields'])
    if any(x not in fs for x in kw):
        return None
    return mk('agg', adt, P.adts[adt]['variants'][0]['name'], fs, *[kw.get(f, sym(short(adt) + '.' + f)) for f in fs])


def seq1(x):
    return mk('seq', None, x)


def coef(P, var):
    return agg_of(P, L + 'Coef', var, base=sym('coef'))


def circuit(P, cross, var, layers=None, customs=True):
    usz = (lambda n: build(P, L + 'CrossLayerInputUsize', v=sym(n))) if cross else (lambda n: build(P, L + 'NormalInputUsize', v=sym(n)))
    inp = (lambda n: build(P, L + 'CrossLayerInput', layer=layers[n] if layers else k(0), offset=sym(n + '.offset'))) if cross else (lambda n: build(P, L + 'NormalInput', offset=sym(n + '.offset')))
    kw = {}
    for g in GATES[:3]:
        kw[g] = seq1(build(P, L + 'Gate', inputs=seq1(inp(g)), output=sym(g + '.output'), coef=coef(P, var)))
    kw['gate_customs'] = seq1(build(P, L + 'GateCustom', inputs=seq1(inp('gate_customs')), output=sym('gate_customs.output'), coef=coef(P, var), gate_type=sym('gate_customs.gate_type'))) if customs else mk('arr')
    alloc = build(P, L + 'Allocation', input_offset=usz('in_off'), output_offset=sym('out_off'))
    kw['child_segs'] = seq1(mk('tup', sym('child'), seq1(alloc)))
    seg = build(P, L + 'Segment', num_inputs=usz('n_in'), num_outputs=sym('n_out'), **kw)
    return build(P, L + 'Circuit', num_public_inputs=sym('npi'), num_actual_outputs=sym('nout'), expected_num_output_zeroes=sym('nzero'), segments=seq1(seg), layer_ids=sym('layer_ids'))


def one(t):
    """the generic element of a collection made of one"""
    es = [e for e in elems(t)]
    return undv(es[0]) if len(es) == 1 else None


def coef_ok(t, ty, var):
    t, ty = undv(t), undv(ty)
    if not (ty.op == 'agg' and short(ty.a[0]) == 'CoefType' and ty.a[1] == var):
        return False
    if var == 'Constant':
        return t is fld(sym('coef'), 'Constant.0')
    if var == 'PublicInput' and undv(ty.a[3]) is not fld(sym('coef'), 'PublicInput.0'):
        return False
    return t.op == 'call' and cname(t) == 'zero' or is_k(t, 0)


def strip(t):
    t = undv(t)
    while t.op == 'seq' and t.a[0] is None and undv(t.a[1]).op == 'elem':
        t = undv(undv(t.a[1]).a[0])
    return t


def vec_of(t, name):
    """a copy of the vector named"""
    t = undv(t)
    return t is sym(name) or t.op == 'seq' and t.a[0] is None and undv(t.a[1]) is elem(sym(name))


def check(ctx):
    P = ctx.prog
    if not ctx.need(all(L + a in P.adts for a in ('Circuit', 'Segment', 'Gate', 'GateCustom', 'Allocation', 'Coef', 'NormalInput', 'CrossLayerInput', 'NormalInputUsize', 'CrossLayerInputUsize')), 'layered', 'types of layered circuits'):
        return
    for a, n in (('Circuit', 5), ('Segment', 7), ('Gate', 3), ('GateCustom', 4), ('Allocation', 2), ('Coef', 3)):
        d = P.adts[L + a]
        ctx.need((len(d['variants'][0]['fields']) if a != 'Coef' else len(d['variants'])) == n, 'fields:' + a, 'fields of ' + a)
    n = 0
    n += check_coef(ctx)
    n += check_normal(ctx)
    n += check_cross(ctx)
    n += check_flatten(ctx)
    n += check_inputs(ctx)
    ctx.floor('obligation groups', n, 24)


def check_coef(ctx):
    P = ctx.prog
    n = 0
    b = ctx.body(L + 'Coef::<C>::export_to_expander')
    if b is None:
        return 0
    for v in variants(P, L + 'Coef'):
        n += 1
        I, fr = counterfactual(ctx, b, names=['self'], mem={sym('self'): agg_of(P, L + 'Coef', v['name'], base=sym('coef'))})
        r = undv(ret(I, fr)) if fr.ret is not None else None
        ctx.ob('coef:' + v['name'], r is not None and r.op == 'tup' and coef_ok(r.a[0], r.a[1], v['name']), 'a %s coefficient is exported as %s' % (v['name'], show(r)[:120] if r is not None else None), where(b))
    return n


def gate_ok(fm, g, var, arity=None, types=True):
    """None or what is wrong with an exported gate"""
    if not vec1(fm.get('i_ids'), sym(g + '.offset'), arity):
        return 'inputs are %s' % show(fm.get('i_ids'))[:100]
    if undv(fm['o_id']) is not sym(g + '.output'):
        return 'output is %s' % show(fm['o_id'])[:100]
    if not coef_ok(fm['coef'], fm['coef_type'], var):
        return 'coefficient is %s of type %s' % (show(fm['coef'])[:80], show(fm['coef_type'])[:80])
    return None


def value(t, N):
    """an expression over the number of inputs, at N inputs"""
    t = undv(t)
    if t.op == 'cparam' and short(str(t.a[0])) == 'INPUT_NUM' or t.op == 'len':
        return N
    if t.op == 'bin':
        a, b = value(t.a[1], N), value(t.a[2], N)
        if a is None or b is None:
            return None
        return {'Add': a + b, 'Sub': a - b, 'Mul': a * b}.get(t.a[0])
    return kval(t) if isinstance(kval(t), int) else None


def vec1(t, want, arity=None):
    """an array whose every entry is the offset of the input at that position"""
    if t is None:
        return False
    es = {e for e in elems(t) if e is not k(0)}
    return es == {want}


def circuit_ob(ctx, b, tag, cm, hdr):
    good = cm is not None
    for f, s in hdr.items():
        if not good:
            break
        v = undv(cm.get(f)) if cm.get(f) is not None else None
        ok = v is not None and (vec_of(v, s) if s == 'layer_ids' else v is sym(s))
        ctx.ob('%s:%s' % (tag, f), ok, '%s of the exported circuit is %s' % (f, show(v)[:100] if v is not None else None), where(b))


def returned(I, fr, name):
    r = undv(ret(I, fr)) if fr.ret is not None else None
    return fieldmap(r) if r is not None and r.op == 'agg' and short(r.a[0]) == name else None


def all_uncond(fr):
    """conditions other than iteration under which something is appended"""
    bad = []
    for f, _b, it in items(fr, 'push', 'insert'):
        bad += [show(c)[:100] for c, v in only_iteration(it[5]) if undv(c).op not in ('k', 'cdef', 'zst') and not (isinstance(v, str) and undv(c).op == 'agg')]
    return bad


def check_normal(ctx):
    P = ctx.prog
    ps = [p for p in P.bodies if p.endswith('NormalInputType>>::export_to_expander') and 'export::' in p]
    if not ctx.need(len(ps) == 1, 'export_to_expander', 'export of a layered circuit'):
        return 0
    b = P.bodies[ps[0]]
    n = 0
    for v in variants(P, L + 'Coef'):
        var = v['name']
        for _ in (0,):
            n += 1
            tag = 'normal:' + var
            I, fr = counterfactual(ctx, b, nonempty=lambda s: True, names=['self'], mem={sym('self'): circuit(P, False, var)})
            cm = returned(I, fr, 'RecursiveCircuit')
            if not ctx.ob(tag, cm is not None, 'export yields %s' % (show(ret(I, fr))[:100] if fr.ret is not None else None), where(b)):
                continue
            circuit_ob(ctx, b, tag, cm, {'num_public_inputs': 'npi', 'num_outputs': 'nout', 'expected_num_output_zeros': 'nzero', 'layers': 'layer_ids'})
            bad = all_uncond(fr)
            ctx.ob(tag + ':all', not bad, 'a gate or segment is only exported if %s' % bad, where(b))
            s = one(cm['segments'])
            if not ctx.ob(tag + ':segments', s is not None and s.op == 'agg', 'exported segments are %s' % show(cm['segments'])[:100], where(b)):
                continue
            sm = fieldmap(s)
            for f, w in (('i_var_num', 'n_in'), ('o_var_num', 'n_out')):
                t = undv(sm[f])
                while t.op == 'cast':
                    t = undv(t.a[0])
                good = t.op == 'call' and cname(t) in ('trailing_zeros', 'ilog2') and undv(t.a[1]) is sym(w)
                ctx.ob('%s:%s' % (tag, f), good, '%s is %s' % (f, show(t)[:100]), where(b))
            for g, x in zip(GATES, ('gate_muls', 'gate_adds', 'gate_consts', 'gate_uni')):
                e = one(sm[x])
                m = 'gates are %s' % show(sm[x])[:120] if e is None or e.op != 'agg' else gate_ok(fieldmap(e), g, var)
                if m is None:
                    gt = undv(fieldmap(e)['gate_type'])
                    if g == 'gate_customs':
                        m = None if gt is sym('gate_customs.gate_type') else 'gate type is %s' % show(gt)[:80]
                    else:
                        m = None if [value(gt, N) for N in (0, 1, 2)] == [2, 1, 0] else 'gate type is %s' % show(gt)[:80]
                ctx.ob('%s:%s' % (tag, g), m is None, 'exported %s: %s' % (g, m), where(b))
            c = one(sm['child_segs'])
            good = c is not None and c.op == 'tup' and undv(c.a[0]) is sym('child')
            if good:
                al = one(c.a[1])
                good = al is not None and al.op == 'agg' and undv(fieldmap(al)['i_offset']) is sym('in_off') and undv(fieldmap(al)['o_offset']) is sym('out_off')
            ctx.ob(tag + ':children', good, 'exported child segments are %s' % show(sm['child_segs'])[:200], where(b))
    return n


def check_cross(ctx):
    P = ctx.prog
    ps = [p for p in P.bodies if p.endswith('CrossLayerInputType>>::export_to_expander') and 'export::' in p]
    if not ctx.need(len(ps) == 1, 'export_to_expander:cross', 'export of a cross-layer circuit'):
        return 0
    b = P.bodies[ps[0]]
    n = 0
    lay = sym('layer')

    def go(var, layers=None, rel=None, customs=False):
        return counterfactual(ctx, b, rels=[Rel(lambda x: x is lay, rel, 0 if rel == 'eq' else 1)] if rel else [], nonempty=lambda s: True, names=['self'], mem={sym('self'): circuit(P, True, var, layers, customs)})
    Z = {g: k(0) for g in GATES}
    for v in variants(P, L + 'Coef'):
        var = v['name']
        for rel, relay in (('eq', False), ('ge', True)):
            n += 1
            tag = 'cross:%s:%s' % (var, 'relay' if relay else 'add')
            I, fr = go(var, dict(Z, gate_adds=lay), rel)
            if relay and var != 'Constant':
                ctx.ob(tag, fr.ret is None, 'a relay with a %s coefficient is exported' % var, where(b))
                continue
            cm = returned(I, fr, 'CrossLayerRecursiveCircuit')
            if not ctx.ob(tag, cm is not None, 'export yields %s' % (show(ret(I, fr))[:100] if fr.ret is not None else None), where(b)):
                continue
            circuit_ob(ctx, b, tag, cm, {'num_public_inputs': 'npi', 'num_outputs': 'nout', 'expected_num_output_zeros': 'nzero', 'layers': 'layer_ids'})
            bad = all_uncond(fr)
            ctx.ob(tag + ':all', not bad, 'a gate or segment is only exported if %s' % bad, where(b))
            s = one(cm['segments'])
            if not ctx.ob(tag + ':segments', s is not None and s.op == 'agg', 'exported segments are %s' % show(cm['segments'])[:100], where(b)):
                continue
            sm = fieldmap(s)
            ctx.ob(tag + ':sizes', vec_of(sm['input_size'], 'n_in') and undv(sm['output_size']) is sym('n_out'), 'sizes are %s and %s' % (show(sm['input_size'])[:80], show(sm['output_size'])[:80]), where(b))
            for g, x in zip(GATES, ('gate_muls', 'gate_adds', 'gate_csts')):
                if g == 'gate_adds' and relay:
                    m = None if not elems(sm[x]) else 'a relay is exported as an addition'
                else:
                    e = one(sm[x])
                    m = 'gates are %s' % show(sm[x])[:120] if e is None or e.op != 'agg' else gate_ok(fieldmap(e), g, var)
                ctx.ob('%s:%s' % (tag, g), m is None, 'exported %s: %s' % (g, m), where(b))
            if relay:
                e = one(sm['gate_relay'])
                good = e is not None and e.op == 'agg'
                if good:
                    fm = fieldmap(e)
                    good = undv(fm['i_id']) is sym('gate_adds.offset') and undv(fm['o_id']) is sym('gate_adds.output') and undv(fm['i_layer']) is lay and undv(fm['coef']) is fld(sym('coef'), 'Constant.0')
                ctx.ob(tag + ':relays', good, 'exported relays are %s' % show(sm['gate_relay'])[:200], where(b))
            else:
                ctx.ob(tag + ':relays', not elems(sm['gate_relay']), 'an addition from the previous layer is exported as a relay', where(b))
            c = one(sm['child_segs'])
            good = c is not None and c.op == 'tup' and undv(c.a[0]) is sym('child')
            if good:
                al = one(c.a[1])
                good = al is not None and al.op == 'agg' and vec_of(fieldmap(al)['i_offset'], 'in_off') and undv(fieldmap(al)['o_offset']) is sym('out_off')
            ctx.ob(tag + ':children', good, 'exported child segments are %s' % show(sm['child_segs'])[:200], where(b))
    # what the target format cannot express is refused
    ps = [p for p in P.bodies if p.endswith('::export_to_crosslayer_simple')]
    if ctx.need(len(ps) == 1, 'export_to_crosslayer_simple', 'export of a gate'):
        n += 1
        g = build(P, L + 'Gate', inputs=seq1(build(P, L + 'CrossLayerInput', layer=lay, offset=sym('o'))), output=sym('out'), coef=coef(P, 'Constant'))
        I, fr = counterfactual(ctx, P.bodies[ps[0]], names=['self'], mem={sym('self'): g}, nonempty=lambda s: True, rels=[Rel(lambda x: x is lay, 'ge', 1)])
        ctx.ob('cross:far', fr.ret is None, 'a gate reading from a layer further away is exported as if it read the previous layer', where(b))
    n += 1
    I, fr = go('Constant', Z, None, True)
    ctx.ob('cross:customs', fr.ret is None, 'custom gates are silently dropped', where(b))
    return n


def check_flatten(ctx):
    P = ctx.prog
    ps = [p for p in P.bodies if p.endswith('::export_to_expander_flatten')]
    if not ctx.need(len(ps) == 1, 'flatten', 'export and flatten'):
        return 0
    b = P.bodies[ps[0]]
    I, fr = counterfactual(ctx, b, names=['self'], opaque=tuple(p for p in P.bodies if p.endswith('::export_to_expander') or 'expander_circuit' in p), mutout=lambda p: True)
    t = undv(ret(I, fr)) if fr.ret is not None else None
    good = t is not None and t.op == 'mut' and short(t.a[0]) == 'pre_process_gkr' and t.a[1] == 0
    if good:
        t = undv(t.a[2])
        good = t.op == 'call' and cname(t) == 'flatten'
        t = undv(t.a[1]) if good else t
        good = good and t.op == 'call' and cname(t) == 'export_to_expander' and undv(t.a[1]) is sym('self')
    ctx.ob('flatten', good, 'the flattened circuit is %s' % (show(t)[:160] if t is not None else None), where(b))
    return 1


def check_inputs(ctx):
    """accessors of positions and sizes"""
    P = ctx.prog
    n = 0
    for ty, cross in (('NormalInput', False), ('CrossLayerInput', True)):
        v = build(P, L + ty, **({'layer': sym('l'), 'offset': sym('o')} if cross else {'offset': sym('o')}))
        for m, w in (('layer', sym('l') if cross else k(0)), ('offset', sym('o'))):
            ps = [p for p in P.methods_of(L + ty, m) if p in P.bodies]
            if not ctx.need(len(ps) == 1, '%s::%s' % (ty, m), 'accessor'):
                continue
            n += 1
            I, fr = counterfactual(ctx, P.bodies[ps[0]], names=['self'], mem={sym('self'): v})
            ctx.ob('%s::%s' % (ty, m), fr.ret is not None and undv(ret(I, fr)) is w, '%s of an input is %s' % (m, show(ret(I, fr))[:80] if fr.ret is not None else None), where(P.bodies[ps[0]]))
        ps = [p for p in P.methods_of(L + ty, 'new') if p in P.bodies]
        if ctx.need(len(ps) == 1, ty + '::new', 'constructor'):
            for rel in ('eq', 'ge'):
                n += 1
                I, fr = counterfactual(ctx, P.bodies[ps[0]], names=['layer', 'offset'], rels=[Rel(lambda x: x is sym('layer'), rel, 0 if rel == 'eq' else 1)])
                if rel == 'ge' and not cross:
                    good = fr.ret is None
                else:
                    r = undv(ret(I, fr)) if fr.ret is not None else None
                    good = r is not None and r.op == 'agg' and all(undv(x) is sym(f) for f, x in fieldmap(r).items())
                ctx.ob('%s::new:%s' % (ty, rel), good, 'an input at a layer offset of %s is built as %s' % (rel, show(ret(I, fr))[:80] if fr.ret is not None else None), where(P.bodies[ps[0]]))
        ps = [p for p in P.methods_of(L + ty, 'set_offset') if p in P.bodies]
        if ctx.need(len(ps) == 1, ty + '::set_offset', 'setter'):
            n += 1
            I, fr = counterfactual(ctx, P.bodies[ps[0]], names=['self', 'offset'])
            vs = [I.snap(fr.exit_state, x) for r, x in fr.exit_state.v.items() if isinstance(r, tuple) and r and r[0] == 'M' and r[1] is sym('self')]
            t = undv(vs[0]) if len(vs) == 1 else None
            good = t is not None and (t.op == 'upd' and [(q if isinstance(q, str) else q[0], undv(x)) for q, x in t.a[1]] == [('offset', sym('offset'))] or t.op == 'agg' and undv(fieldmap(t)['offset']) is sym('offset') and all(undv(x) is fld(sym('self'), f) for f, x in fieldmap(t).items() if f != 'offset'))
            ctx.ob(ty + '::set_offset', good, 'setting the offset gives %s' % (show(t)[:100] if t is not None else vs), where(P.bodies[ps[0]]))
    return n
