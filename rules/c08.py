"""Completeness of the circuit validators.  For every reference a circuit contains, the abstract interpretation of the
validator is run under the assumption that this reference is out of range (for all elements of the collection holding it,
the collection being non-empty, everything else unconstrained); the successful exit must then be unreachable.  In the
unconstrained run the bounds the references are compared with must be exactly the number of variables defined before them."""
from rules.assume import *

RULE = 'assume(reference invalid) => Ok unreachable, for every kind of reference of the IR circuits'


def check(ctx):
    ir(ctx)
    instructions(ctx)
    hints(ctx)
    layered(ctx)


def ir(ctx):
    P = ctx.prog
    body = ctx.body('expander_compiler::circuit::ir::common::RootCircuit::<Irc>::validate')
    if body is None:
        return
    where = '%s:%s' % (body.file, body.line)
    C = ('circuits', '*', '1')
    INS = C + ('instructions', '*')
    operand = is_path(*INS, ('call', 'Instruction::inputs'), '*')
    cvar = is_path(*C, 'constraints', '*', ('call', 'Constraint::var'))
    outv = is_path(*C, 'outputs', '*')
    subin = lambda t: undv(t).op == 'elem' and is_path(*INS, ('call', 'Instruction::as_sub_circuit_call'), 'Some.0', '1')(undv(t).a[0])
    root = sym('self')
    circ = fld(elem(fld(root, 'circuits')), '1')
    insn = elem(fld(circ, 'instructions'))
    opt = {}

    go = judge(ctx, body, 'ir')

    def bound(t):
        return any(x.op == 'fld' and x.a[1] == 'num_inputs' for x in subterms(t)) or t.op in ('acc', 'red', 'mu')
    ins_term = mk('call', 'Instruction::inputs', insn)
    # what an invalid reference is
    for nm, pred, term in (('operand', operand, elem(ins_term)), ('constraint', cvar, elem(fld(circ, 'constraints'))), ('output', outv, elem(fld(circ, 'outputs')))):
        go(nm + '-above-range', 'every %s refers to a variable that is not defined yet' % nm, [Rel(pred, 'gt', bound)], ne=[term])
        go(nm + '-zero', 'every %s refers to variable 0' % nm, [Rel(pred, 'eq', 0)], ne=[term])
    # per-instruction validation is consulted
    go('instruction-invalid', 'every instruction is invalid by itself',
       fn=lambda t: A.err(sym('e')) if t.op == 'call' and str(t.a[0]) == 'Instruction::validate' else None, ne=[insn])

    # duplicates where the representation forbids them
    def dup(pred, const):
        def f(t):
            if t.op == 'call' and t.a[0] in ('contains', 'contains_key') and pred(undv(t.a[2])):
                return TRUE
            if t.op in ('cdef', 'cparam', 'call') and str(t.a[0]).endswith(const):
                return FALSE
            return None
        return f
    so = mk('call', 'Instruction::as_sub_circuit_call', insn)
    some_sub = lambda f: (lambda t: (A.some(fld(t, 'Some.0')) if t.op == 'call' and str(t.a[0]) == 'Instruction::as_sub_circuit_call' else f(t)))
    go('duplicate-sub-circuit-input', 'a sub-circuit call repeats an input in a representation that forbids it',
       fn=some_sub(dup(lambda t: 'as_sub_circuit_call' in show(t), 'ALLOW_DUPLICATE_SUB_CIRCUIT_INPUTS')), ne=[elem(fld(fld(so, 'Some.0'), '1'))])
    go('duplicate-constraint', 'a constraint is repeated in a representation that forbids it',
       fn=dup(cvar, 'ALLOW_DUPLICATE_CONSTRAINTS'), ne=[elem(fld(circ, 'constraints'))])
    go('duplicate-output', 'an output is repeated in a representation that forbids it',
       fn=dup(outv, 'ALLOW_DUPLICATE_OUTPUTS'), ne=[elem(fld(circ, 'outputs'))])

    # sub-circuit calls
    subid = lambda t: 'as_sub_circuit_call' in show(undv(t)) and is_path('Some.0', '0')(t)

    def missing(t):
        if t.op == 'call' and t.a[0] in ('contains_key', 'contains') and subid(t.a[2]):
            return FALSE
        if t.op == 'call' and t.a[0] in ('HashMap::get', 'get') and len(t.a) > 2 and subid(t.a[2]):
            return A.NONE
        return None
    go('unknown-sub-circuit', 'a call refers to a sub-circuit that does not exist', fn=some_sub(missing), ne=[insn])
    go('sub-circuit-input-count', 'a call passes a wrong number of inputs', [
        Rel(lambda t: t.op == 'call' and t.a[0] == 'len' and is_path('Some.0', '1')(t.a[1]), 'ne', is_path('num_inputs'))], fn=some_sub(lambda t: None), ne=[insn])
    go('sub-circuit-output-count', 'a call declares a wrong number of outputs', [
        Rel(is_path('Some.0', '2'), 'ne', lambda t: t.op == 'call' and t.a[0] == 'len' and is_path('outputs')(t.a[1]))], fn=some_sub(lambda t: None), ne=[insn])

    def rootid(t):
        return t.op == 'call' and t.a[0] in ('contains_key', 'contains', 'HashMap::get', 'get') and is_k(undv(t.a[2]), 0)
    go('no-root', 'there is no root circuit', fn=lambda t: (FALSE if 'contains' in t.a[0] else A.NONE) if rootid(t) else None)
    # cycles
    go('cyclic', 'the sub-circuit calls form a cycle', fn=cyc)
    go('zero-outputs', 'more outputs are expected to be zero than the root circuit has', [
        Rel(is_path('expected_num_output_zeroes'), 'gt', lambda t: t.op == 'call' and t.a[0] == 'len' and is_path('outputs')(t.a[1]))])

    def empty(t):
        if t.op == 'bin' and t.a[0] == 'Eq':
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if is_k(y, 0) and x.op == 'call' and x.a[0] == 'len' and undv(x.a[1]).op == 'fld' and undv(x.a[1]).a[1] in ('outputs', 'constraints'):
                    return TRUE
        return None
    go('no-constraint-no-output', 'the circuit has neither constraints nor outputs', fn=empty)
    # every bound used in the unconstrained run is the number of variables defined so far
    I, fr = run(ctx, body, names=['self'])
    am = accmap(fr)
    want = mk('red', 'Add', fld(circ, 'num_inputs'), mk('call', 'Instruction::num_outputs', insn))
    nb = 0
    for f in frames(fr):
        for b, (kd, t, labs) in f.branch.items():
            for x in subterms(t):
                if x.op == 'bin' and x.a[0] in ('Lt', 'Le', 'Eq'):
                    for p, q in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                        if operand(p) or cvar(p) or outv(p):
                            if kval(undv(q)) is not None:
                                ctx.ob('ir:bound-constant:%s' % show(p), is_k(undv(q), 0) or kval(undv(q)) == 1, 'a reference is compared with the constant %s' % show(q), where)
                                continue
                            nb += 1
                            d, c = linform(q)
                            full = {am.get(z, z) for z in d}
                            ctx.ob('ir:bound:%s' % show(p)[:80], full == {want} and abs(c) <= 1, 'a reference is compared with %s instead of the number of variables defined before it (%s)' % (
                                [show(z)[:200] for z in full], show(want)), '%s:%s' % (f.body.file, f.body.line))
    ctx.floor('bound_comparisons', nb, 3)


def cyc(t):
    """the topological order does not contain every circuit"""
    if t.op == 'bin' and t.a[0] == 'Eq':
        x, y = t.a[1], t.a[2]
        if all(z.op == 'call' and z.a[0] == 'len' and 'circuits[*].0' in show(z) for z in (x, y)):
            return FALSE
    return None


def judge(ctx, body, tag, **kw):
    where = '%s:%s' % (body.file, body.line)

    def go(key, what, rels=(), fn=None, ne=(), why='validation succeeds although %s'):
        nes = set()
        fs = [x for x in ne if not isinstance(x, T)]
        for x in ne:
            if isinstance(x, T):
                nes |= prefixes(x)
        a = dict(names=['self'])
        a.update(kw)
        I, fr = counterfactual(ctx, body, rels=rels, fn=fn, nonempty=lambda s: undv(s) in nes or any(f(undv(s)) for f in fs), **a)
        ctx.ob('%s:%s' % (tag, key), not success(I, fr), why % what, where)
        ctx.ob('%s:%s:returns' % (tag, key), fr.ret is not None, 'validation panics instead of returning an error when %s' % what, where)
        return I, fr
    return go


IRS = ('source', 'hint_normalized', 'hint_less', 'dest')


def islen(pred):
    return lambda t: t.op == 'call' and t.a[0] == 'len' and pred(undv(t.a[1]))


NOT_OPERANDS = {'hint_id', 'num_outputs', 'sub_circuit_id', 'gate_type', 'num_bits'}


def operand_paths(prog, base, var, depth=0):
    """access paths of all variable references inside variant `var` of value `base`: (collection or scalar, is_collection)"""
    out = []

    def ty(t, path, d):
        t = t.strip()
        if d > 6:
            return
        if t == 'usize':
            out.append(path)
        elif t.startswith('alloc::vec::Vec<'):
            ty(t[len('alloc::vec::Vec<'):-1], elem(path), d + 1)
        else:
            p = t.split('<')[0]
            if p.endswith('::Coef') or p not in prog.adts:
                return
            ad = prog.adts[p]
            for v in ad['variants']:
                for f, ft in v['fields']:
                    if f in NOT_OPERANDS:
                        continue
                    ty(ft, fld(path, f if ad['kind'] == 'struct' else v['name'] + '.' + f), d + 1)
    for f, ft in var['fields']:
        if f not in NOT_OPERANDS:
            ty(ft, fld(base, var['name'] + '.' + f), depth)
    return out


def ir_method(ir_, m):
    return 'expander_compiler::<circuit::ir::%s::Instruction<C> as circuit::ir::common::Instruction<C>>::%s' % (ir_, m)


HINT_FIELDS = ('hint_id', 'inputs', 'num_outputs')


def instructions(ctx):
    """per-instruction validation of each IR; operand enumeration is complete"""
    P = ctx.prog
    n = 0
    for ir_ in IRS:
        base = EC + 'circuit::ir::%s::Instruction' % ir_
        adt = P.adts.get(base)
        val = ctx.body(ir_method(ir_, 'validate'))
        ib = ctx.body(ir_method(ir_, 'inputs'))
        if val is None or ib is None or not ctx.ob('%s:instruction-type' % ir_, adt is not None, 'instruction type not found'):
            continue
        for v in adt['variants']:
            var = v['name']
            me = agg_of(P, base, var, sym('self'))

            def go(key, what, rels=(), fn=None, opaque=(), names=('self', 'n_public')):
                I, fr = counterfactual(ctx, val, rels=rels, fn=fn, names=list(names), mem={sym('self'): me}, nonempty=lambda s: False, opaque=opaque)
                ctx.ob('%s:%s:%s' % (ir_, var, key), not success(I, fr), 'a %s instruction is accepted although %s' % (var, what), '%s:%s' % (val.file, val.line))
                return I, fr
            fs = [f[0] for f in v['fields']]
            if var == 'Mul':
                n += 1
                go('too-few-factors', 'it has fewer than two factors', [Rel(islen(is_path('Mul.0')), 'lt', 2)])
            if var == 'ConstantLike':
                n += 1
                coef = agg_of(P, EC + 'circuit::layered::Coef', 'PublicInput', fld(sym('self'), var + '.' + fs[0]))
                me = mk('agg', base, var, (fs[0],), coef)
                go('public-input-range', 'its public input index is out of range', [Rel(is_path('PublicInput.0'), 'ge', lambda t: t is sym('n_public'))])
            if var == 'Hint':
                n += 1
                asked = []

                def bad(t):
                    if t.op == 'call' and t.a[0].endswith('validate_hint'):
                        asked.append(t)
                        return A.err(sym('e'))
                go('arity', 'its hint id does not allow its number of inputs or outputs', fn=bad, opaque=(EC + 'hints::builtin::validate_hint',))
                s = sym('self')
                for t in asked:
                    want = (fld(s, 'Hint.hint_id'), mk('call', 'len', fld(s, 'Hint.inputs')), fld(s, 'Hint.num_outputs'))
                    ctx.ob('%s:Hint:arity-args' % ir_, tuple(undv(x) for x in t.a[1:4]) == want, 'the hint arity check is given %s' % show(t)[:300], '%s:%s' % (val.file, val.line))
            if var == 'Hint' or (var == 'CustomGate' and ir_ in ('source', 'hint_normalized')):
                n += 1
                go('no-inputs', 'it has no inputs', [Rel(islen(is_path(var + '.inputs')), 'eq', 0)])
            if var == 'ToBinary':
                n += 1
                go('no-bits', 'it produces no bits', [Rel(is_path('ToBinary.num_bits'), 'eq', 0)])
            # inputs() lists every operand
            I, fr = run(ctx, ib, names=['self'], mem={sym('self'): agg_of(P, base, var, sym('self'))})
            got = set()
            r = ret(I, fr)
            for e in elems(r) if r is not None else ():
                got.add(undv(e))
            for path in operand_paths(P, sym('self'), v):
                n += 1
                ctx.ob('%s:%s:inputs:%s' % (ir_, var, show(path)), path in got,
                       'operand %s is not reported by inputs(), so its range is never validated' % show(path), '%s:%s' % (ib.file, ib.line))
    ctx.floor('instruction_obligations', n, 44)
    dv_ = ctx.body('expander_compiler::circuit::ir::dest::<impl circuit::ir::common::RootCircuit<circuit::ir::dest::Irc<C>>>::validate_circuit_has_inputs')
    if dv_ is not None:
        circ = fld(elem(fld(sym('self'), 'circuits')), '1')
        judge(ctx, dv_, 'dest')('circuit-without-inputs', 'a circuit has no inputs', [Rel(is_path('num_inputs'), 'eq', 0)], ne=[circ])


ARITY = {'Identity': 'same', 'Select': (3, 1), 'ToBinary': (1, None)}


def hints(ctx):
    """the accepted numbers of inputs and outputs of each hint"""
    P = ctx.prog
    ids = P.adts.get(EC + 'hints::builtin::BuiltinHintIds')
    body = ctx.body(EC + 'hints::builtin::validate_hint')
    if body is None or not ctx.ob('hints:ids', ids is not None, 'BuiltinHintIds not found'):
        return
    where = '%s:%s' % (body.file, body.line)
    is_in, is_out = (lambda t: t is sym('n_in')), (lambda t: t is sym('n_out'))
    n = 0

    def go(hid, key, what, rels):
        nonlocal n
        n += 1
        I, fr = counterfactual(ctx, body, rels=rels, names=['id', 'n_in', 'n_out'], args={0: hid} if hid is not None else None,
                               fn=None if hid is not None else (lambda t: A.NONE if t.op == 'call' and t.a[0].endswith('from_usize') else None),
                               opaque=() if hid is not None else (EC + 'hints::builtin::BuiltinHintIds::from_usize',))
        return success(I, fr)
    for v in ids['variants']:
        hid = k(v['discr'])
        nm = v['name']
        ar = ARITY.get(nm, (2, 1))
        if ar == 'same':
            ctx.ob('hints:%s:in!=out' % nm, not go(hid, '', '', [Rel(is_in, 'ne', is_out)]), 'hint %s accepts different numbers of inputs and outputs' % nm, where)
            ctx.ob('hints:%s:none' % nm, not go(hid, '', '', [Rel(is_in, 'eq', 0)]), 'hint %s accepts no inputs' % nm, where)
            ctx.ob('hints:%s:usable' % nm, go(hid, '', '', [Rel(is_in, 'eq', is_out), Rel(is_in, 'gt', 0)]), 'hint %s is always rejected' % nm, where)
            continue
        i, o = ar
        ctx.ob('hints:%s:inputs' % nm, not go(hid, '', '', [Rel(is_in, 'ne', i)]), 'hint %s accepts a number of inputs other than %d' % (nm, i), where)
        if o is None:
            ctx.ob('hints:%s:outputs' % nm, not go(hid, '', '', [Rel(is_out, 'eq', 0)]), 'hint %s accepts no outputs' % nm, where)
        else:
            ctx.ob('hints:%s:outputs' % nm, not go(hid, '', '', [Rel(is_out, 'ne', o)]), 'hint %s accepts a number of outputs other than %d' % (nm, o), where)
        ctx.ob('hints:%s:usable' % nm, go(hid, '', '', [Rel(is_in, 'eq', i), Rel(is_out, 'eq', o) if o else Rel(is_out, 'gt', 0)]), 'hint %s rejects its own arity' % nm, where)
    ctx.ob('hints:custom:no-inputs', not go(None, '', '', [Rel(is_in, 'eq', 0)]), 'a custom hint without inputs is accepted', where)
    ctx.ob('hints:custom:no-outputs', not go(None, '', '', [Rel(is_out, 'eq', 0)]), 'a custom hint without outputs is accepted', where)
    ctx.floor('hint_arity_obligations', n, 60)


def layered(ctx):
    P = ctx.prog
    CM = 'expander_compiler::circuit::layered::Circuit::<C, I>::compute_masks'
    body = ctx.body('expander_compiler::circuit::layered::Circuit::<C, I>::validate')
    masks = ctx.body(CM)
    if body is None or masks is None:
        return
    root = sym('self')
    seg = elem(fld(root, 'segments'))
    go = judge(ctx, body, 'layered', opaque=(CM,))
    nout = lambda t: t.op == 'fld' and t.a[1] == 'num_outputs' and undv(t.a[0]) is seg
    nins = is_path('segments', '*', 'num_inputs')
    nin_len = lambda t: t.op == 'call' and t.a[0] in ('InputUsize::len', 'len') and undv(t.a[1]) is fld(seg, 'num_inputs')
    subseg = lambda t: undv(t).op in ('elem', 'at') and is_path('segments')(undv(undv(t).a[0])) and 'child_segs' in show(undv(t))

    def incall(nm, path):
        return lambda t: t.op == 'call' and t.a[0] == nm and is_path(*path)(undv(t.a[1]))
    kinds = [('gate_muls', 2), ('gate_adds', 1), ('gate_customs', None), ('gate_consts', 0)]
    for g, ni in kinds:
        gate = elem(fld(seg, g))
        go(g + ':output', 'the output of a gate in %s is out of range' % g, [Rel(is_path('segments', '*', g, '*', 'output'), 'ge', nout)], ne=[gate])
        for j in range(ni) if ni is not None else [None]:
            def inp(t, j=j):
                t = undv(t)
                base = fld(gate, 'inputs')
                if j is None:
                    return t is elem(base)
                if t is elem(base):
                    return True
                return t.op == 'at' and undv(t.a[0]) is base and (not isinstance(kval(undv(t.a[1])), int) or kval(undv(t.a[1])) == j)
            nm = '%s:input%s' % (g, '' if j is None else j)
            ne = [elem(fld(gate, 'inputs')) if j is None else gate, elem(fld(gate, 'inputs'))]
            go(nm + ':layer', 'the layer of input %s of a gate in %s is out of range' % (j, g), [
                Rel(lambda t: t.op == 'call' and t.a[0] == 'Input::layer' and inp(t.a[1]), 'ge', nin_len)], ne=ne)
            go(nm + ':offset', 'the offset of input %s of a gate in %s is out of range' % (j, g), [
                Rel(lambda t: t.op == 'call' and t.a[0] == 'Input::offset' and inp(t.a[1]), 'ge',
                    lambda t: t.op == 'call' and t.a[0] == 'InputUsize::get' and undv(t.a[1]) is fld(seg, 'num_inputs') and undv(t.a[2]).op == 'call' and undv(t.a[2]).a[0] == 'Input::layer' and inp(undv(t.a[2]).a[1]))], ne=ne)
    child = elem(fld(seg, 'child_segs'))
    alloc = elem(fld(child, '1'))
    subnin = lambda t: undv(t).op == 'fld' and undv(t).a[1] == 'num_inputs' and subseg(undv(t).a[0])
    subnout = lambda t: undv(t).op == 'fld' and undv(t).a[1] == 'num_outputs' and subseg(undv(t).a[0])
    lenof = lambda pr: (lambda t: t.op == 'call' and t.a[0] in ('InputUsize::len', 'len') and pr(undv(t.a[1])))

    def iterof(pr):
        def f(t):
            t = undv(t)
            while t.op == 'part':
                t = undv(t.a[0])
            if t.op == 'call' and t.a[0] == 'InputUsize::get':
                return pr(undv(t.a[1]))
            if t.op not in ('elem', 'at'):
                return False
            c = undv(t.a[0])
            return c.op == 'call' and c.a[0] in ('InputUsize::iter', 'InputUsize::to_vec') and pr(undv(c.a[1]))
        return f
    segidx = lambda t: t.op in ('eidx', 'ridx') and is_path('segments')(undv(t.a[0].a[0] if t.op == 'eidx' else t.a[1].a[1]))
    inoff = is_path('child_segs', '*', '1', '*', 'input_offset')
    outoff = is_path('child_segs', '*', '1', '*', 'output_offset')
    mine = lambda t: undv(t) is fld(seg, 'num_inputs')
    go('child:id', 'a child segment does not precede its parent', [Rel(is_path('child_segs', '*', '0'), 'ge', segidx)], ne=[child])
    go('child:layers', 'a child segment reads more layers than its parent', [Rel(lenof(subnin), 'gt', lenof(mine))], ne=[child])
    go('child:offset-count', 'an allocation has a wrong number of input offsets', [Rel(lenof(inoff), 'ne', lenof(subnin))], ne=[alloc])
    zipne = [alloc, elem(mk('call', 'InputUsize::iter', fld(alloc, 'input_offset'))), elem(mk('call', 'InputUsize::iter', fld(seg, 'num_inputs')))]

    def ne_iter(s):
        s = undv(s)
        return s.op == 'call' and s.a[0] == 'InputUsize::iter'
    go('child:input-range', 'an input allocation exceeds the parent inputs', [Rel([iterof(inoff), iterof(subnin)], 'gt', iterof(mine))], ne=zipne + [ne_iter])

    def rem(p, q):
        return lambda t: t.op == 'bin' and t.a[0] == 'Rem' and p(undv(t.a[1])) and q(undv(t.a[2]))
    go('child:input-align', 'an input allocation is not aligned', [Rel(rem(iterof(inoff), iterof(subnin)), 'ne', 0)], ne=zipne + [ne_iter])
    go('child:output-range', 'an output allocation exceeds the parent outputs', [Rel([outoff, subnout], 'gt', nout)], ne=[alloc])
    go('child:output-align', 'an output allocation is not aligned', [Rel(rem(outoff, subnout), 'ne', 0)], ne=[alloc])
    # sizes
    ne_in = [seg, ne_iter]
    pow2 = lambda p: (lambda t: FALSE if t.op == 'call' and t.a[0].endswith('is_power_of_two') and p(undv(t.a[1])) else None)
    go('inputs:zero', 'an input of a segment has length zero', [Rel(iterof(mine), 'eq', 0)], fn=pow2(iterof(mine)), ne=ne_in)
    go('outputs:zero', 'a segment has no outputs', [Rel(nout, 'eq', 0)], fn=pow2(nout), ne=[seg])
    go('inputs:none', 'a segment has no inputs', [Rel(lenof(mine), 'eq', 0)], ne=[seg])

    def notpow2(p):
        def f(t):
            if t.op == 'bin' and t.a[0] == 'Eq' and is_k(undv(t.a[2]), 0):
                x = undv(t.a[1])
                if x.op == 'bin' and x.a[0] == 'BitAnd' and any(p(undv(y)) for y in x.a[1:]):
                    return FALSE
            if t.op == 'call' and t.a[0].endswith('is_power_of_two') and p(undv(t.a[1])):
                return FALSE
            if t.op == 'bin' and t.a[0] == 'Eq' and any(undv(x).op == 'call' and undv(x).a[0].endswith('count_ones') and p(undv(undv(x).a[1])) for x in t.a[1:3]) and any(is_k(undv(x), 1) for x in t.a[1:3]):
                return FALSE
        return f
    go('inputs:power-of-two', 'an input length of a segment is not a power of two', fn=notpow2(iterof(mine)), ne=ne_in)
    go('outputs:power-of-two', 'the output length of a segment is not a power of two', fn=notpow2(nout), ne=[seg])
    # layers
    lid = elem(fld(root, 'layer_ids'))
    islid = is_path('layer_ids', '*')
    lseg = lambda t: undv(t).op in ('elem', 'at') and is_path('segments')(undv(undv(t).a[0])) and 'layer_ids' in show(undv(t)) and undv(t).op == 'at'
    lnin = lambda t: undv(t).op == 'fld' and undv(t).a[1] == 'num_inputs' and lseg(undv(t).a[0])
    go('layers:none', 'there are no layers', [Rel(islen(is_path('layer_ids')), 'eq', 0)])
    go('layers:id', 'a layer refers to a segment that does not exist', [Rel(islid, 'ge', islen(is_path('segments')))], ne=[lid])
    lidx = lambda t: t.op in ('eidx', 'ridx') and 'layer_ids' in show(t)[:60]
    go('layers:depth', 'a layer reads layers before the first one', [Rel(lenof(lnin), 'gt', lidx, 1)], ne=[lid])
    go('layers:size', 'the input length of a layer differs from the output length of the layer it reads', [Rel(iterof(lnin), 'ne', lambda t: 'num_outputs' in show(t))], ne=[lid, ne_iter])

    def uninit(t):
        x = t
        n = 0
        while x.op in ('at', 'elem'):
            x = undv(x.a[0])
            n += 1
        if x.op == 'fld' and undv(x.a[0]).op == 'call' and undv(x.a[0]).a[0].endswith('compute_masks') and n:
            return TRUE if x.a[1] == '0' else FALSE
        if t.op == 'bin' and t.a[0] == 'Eq' and any(undv(y).op == 'ridx' for y in t.a[1:]) and any(undv(y).op in ('eidx', 'ridx') for y in t.a[1:]) and t.a[1] is not t.a[2]:
            return FALSE
    I, fr = go('layers:initialised', 'a layer reads a position that no gate of the layer below writes', fn=uninit, ne=[lambda s: not (s.op == 'agg' and s.a[1].startswith('Range')) or (kval(undv(s.a[3])) in (0, 1))])
    masks_ok(ctx, masks, seg)


def masks_ok(ctx, body, seg):
    I, fr = run(ctx, body, names=['self'])
    where = '%s:%s' % (body.file, body.line)
    st = set()
    for f, b, it in items(fr, 'st'):
        v = it[2]
        if any(is_k(x, True) for x in alts(undv(v))):
            st.add(tuple(undv(x) for x in it[1]))
    plain = {s for s in st if not any('child_segs' in show(x) for x in s)}
    want = set()
    for g, ni in (('gate_muls', 2), ('gate_adds', 1), ('gate_customs', None), ('gate_consts', 0)):
        gate = elem(fld(seg, g))
        out = (fld(gate, 'output'),)
        want.add(out)
        ctx.ob('masks:%s:output' % g, out in plain, 'the output written by a gate in %s is not recorded as initialised' % g, where)
        for j in range(ni) if ni is not None else [None]:
            ins = fld(gate, 'inputs')
            xs = [elem(ins)] + ([mk('at', ins, k(j))] if j is not None else [])
            cand = [(mk('call', 'Input::layer', x), mk('call', 'Input::offset', x)) for x in xs]
            want.update(cand)
            ctx.ob('masks:%s:input%s' % (g, '' if j is None else j), any(c in plain for c in cand), 'the position read by input %s of a gate in %s is not recorded as read' % (j, g), where)
    for s in plain - want:
        ctx.ob('masks:extra:%s' % ','.join(show(x)[:60] for x in s), False, 'position %s is recorded although no gate uses it' % ','.join(show(x) for x in s), where)
    child = [s for s in st if s not in plain]
    ctx.ob('masks:child-inputs', any(len(s) == 2 and 'input_offset' in show(s[1]) and s[1].op == 'bin' and s[1].a[0] == 'Add' for s in child), 'positions read by child segments are not recorded', where)
    ctx.ob('masks:child-outputs', any(len(s) == 1 and 'output_offset' in show(s[0]) and s[0].op == 'bin' and s[0].a[0] == 'Add' for s in child), 'positions written by child segments are not recorded', where)
