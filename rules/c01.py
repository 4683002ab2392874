"""For every variant of every IR's instruction type (and linear combinations, quadratic expressions, expression terms and
constraints) the operand query, the substitution, the output count, the sub-circuit view and the evaluator are
abstractly interpreted with the variant as a symbolic value.  The set of operand access paths returned by the
query must equal the set of paths handed to the substitution callback, the substituted value must rebuild the
variant field by field, and the evaluator may read no value slot outside the reported operands."""
from rules.common import *

RULE = 'inputs(v) == substituted(v) == read by eval(v); replace_vars(v, id) == v; num_outputs/as_sub_circuit_call per declared fields'


def holes(t):
    """arguments of the substitution callback"""
    out = set()
    for x in subterms(t):
        if x.op == 'call' and x.a[0] == 'indirect':
            for y in x.a[1:]:
                if isinstance(y, T):
                    out.add(undv(y))
    return out


def fill(t):
    return rewrite(t, lambda x: x.a[1] if x.op == 'call' and x.a[0] == 'indirect' and len(x.a) == 2 else x)


def paths(ts):
    return sorted(show(x) for x in ts)


def partial(ts):
    return [x for x in ts if any(y.op == 'part' for y in subterms(x))]


def slots(fr, I, root):
    """index terms used to read the evaluator's value table"""
    out = set()
    ts = [ret(I, fr)] if fr.ret is not None else []
    for f in frames(fr):
        for b, (k_, t, lab) in f.branch.items():
            ts.append(t)
        for b in f.trace:
            for it in f.trace[b]:
                if it[0] == 'ev':
                    ts.extend(it[1].args)
                elif it[0] == 'index':
                    ts.append(mk('at', it[3], it[4]))
    for t in ts:
        for x in subterms(t):
            if x.op in ('at', 'get') and undv(x.a[0]) is root:
                out |= {undv(y) for y in alts(undv(x.a[1]))}
    return out


def check(ctx):
    P = ctx.prog
    n = 0
    ims = [im for im in impls_of(P, 'ir::common::Instruction')]
    ctx.floor('instruction_types', len(ims), 4)
    for im in sorted(ims, key=lambda x: x['path']):
        adt = im['self_adt']
        stage = adt.split('::')[-2]
        vs = variants(P, adt)
        b_in, b_rep, b_out = (ctx.body(method(im, m)) for m in ('inputs', 'replace_vars', 'num_outputs'))
        b_sub, b_ctor, b_ev = (ctx.body(method(im, m)) for m in ('as_sub_circuit_call', 'sub_circuit_call', 'eval_unsafe'))
        if None in (b_in, b_rep, b_out, b_sub, b_ctor, b_ev):
            continue
        for v in vs:
            n += 1
            s = sym('self')
            key = '%s::%s' % (stage, v['name'])
            val = agg_of(P, adt, v['name'], base=s)
            where = '%s:%s' % (b_in.file, b_in.line)

            def go(body, **kw):
                I = A.Interp(P)
                fr = I.run(body, names=['self', 'f' if body is b_rep else 'values'], mem={s: val}, **kw)
                return I, fr
            I, fr = go(b_in)
            r = ret(I, fr)
            if not ctx.ob(key + ':inputs-total', r is not None, 'inputs() never returns for this variant', where):
                continue
            ins = elems(r)
            ctx.ob(key + ':inputs-complete-traversal', not partial(ins), 'operands reported only in part: %s' % paths(partial(ins)), where)
            I, fr = go(b_rep)
            r = ret(I, fr)
            where2 = '%s:%s' % (b_rep.file, b_rep.line)
            if not ctx.ob(key + ':replace-total', r is not None, 'replace_vars() never returns for this variant', where2):
                continue
            hs = holes(r)
            hs2 = set()
            for h in hs:
                hs2 |= {undv(x) for x in alts(h)}
            ctx.ob(key + ':inputs==substituted', ins == hs2, 'inputs() reports %s, replace_vars() substitutes %s' % (paths(ins), paths(hs2)), where2)
            why = []
            ok_ = rebuild(P, fill(r), val, why)
            ctx.ob(key + ':replace-preserves', ok_, 'substituting the identity does not rebuild the instruction: %s' % '; '.join(why[:4]), where2)
            # outputs
            I, fr = go(b_out)
            r = ret(I, fr)
            fn = [f[0] for f in v['fields']]
            want = fld(s, v['name'] + '.num_outputs') if 'num_outputs' in fn else fld(s, v['name'] + '.num_bits') if 'num_bits' in fn else k(1)
            ctx.ob(key + ':num_outputs', r is not None and undv(r) is want, 'num_outputs() is %s, expected %s' % (r and show(r), show(want)), '%s:%s' % (b_out.file, b_out.line))
            # sub-circuit view
            I, fr = go(b_sub)
            r = undv(ret(I, fr))
            if v['name'] == 'SubCircuitCall':
                w = A.some(mk('tup', fld(s, 'SubCircuitCall.sub_circuit_id'), fld(s, 'SubCircuitCall.inputs'), fld(s, 'SubCircuitCall.num_outputs')))
            else:
                w = A.NONE
            ctx.ob(key + ':as_sub_circuit_call', r is w, 'as_sub_circuit_call() is %s' % show(r)[:200], '%s:%s' % (b_sub.file, b_sub.line))
            # evaluator
            I, fr = go(b_ev)
            rd = slots(fr, I, sym('values'))
            bad = {x for x in rd if strip(x) not in ins}
            ctx.ob(key + ':eval-reads-inputs', not bad, 'evaluation reads %s, operands are %s' % (paths(bad), paths(ins)), '%s:%s' % (b_ev.file, b_ev.line))
            if fr.ret is not None and v['name'] not in ('SubCircuitCall',):
                miss = {x for x in ins if x not in {strip(y) for y in rd}}
                # a product over an operand list, a hint call, ... must read all of them
                ctx.ob(key + ':eval-reads-all', not miss, 'evaluation never reads %s' % paths(miss), '%s:%s' % (b_ev.file, b_ev.line))
        # constructor is the inverse of the view
        I, fr = run(ctx, b_ctor, names=['id', 'ins', 'outs'])
        r = undv(ret(I, fr))
        w = (fld(r, 'SubCircuitCall.sub_circuit_id'), fld(r, 'SubCircuitCall.inputs'), fld(r, 'SubCircuitCall.num_outputs'))
        ctx.ob(stage + ':sub_circuit_call', w == (sym('id'), sym('ins'), sym('outs')) and r.op == 'agg', 'sub_circuit_call() builds %s' % show(r)[:200], '%s:%s' % (b_ctor.file, b_ctor.line))
        m = ctx.body(method(im, 'from_kx_plus_b'))
        if m:
            # canonicalisation of the term list (merging equal monomials) is left uninterpreted
            I, fr = run(ctx, m, names=['x', 'k', 'b'], opaque={p for p in P.bodies if F.last(p) == 'compress_identical_terms'})
            check_affine(ctx, P, stage, undv(ret(I, fr)), m)
    ctx.floor('instruction_variants', n, 24)

    # linear combinations, expressions, terms
    for adt, rep, get in (('LinComb', 'replace_vars', 'get_vars'), ('Expression', 'replace_vars', 'get_vars'), ('VarSpec', 'replace_vars', None)):
        full = EC + 'circuit::ir::expr::' + adt
        if not ctx.need(full in P.adts, adt, adt):
            continue
        mr = P.methods_of(full, rep, '')
        if not ctx.need(mr, adt + '::' + rep, rep):
            continue
        I, fr = run(ctx, P.bodies[mr[0]], names=['self', 'f'])
        r = ret(I, fr)
        why = []
        ctx.ob(adt + ':replace-preserves', same_as(P, fill(r), sym('self'), why), 'substituting the identity does not rebuild it: %s' % '; '.join(why[:4]), mr[0])
        hs = set()
        for h in holes(r):
            hs |= {undv(x) for x in alts(h)}
        if get:
            mg = P.methods_of(full, get, '')
            if ctx.need(mg, adt + '::' + get, get):
                I, fr = run(ctx, P.bodies[mg[0]], names=['self'])
                ins = elems(ret(I, fr))
                ctx.ob(adt + ':get_vars==substituted', ins == hs and not partial(ins), 'get_vars reports %s, replace_vars substitutes %s' % (paths(ins), paths(hs)), mg[0])
    # constraints
    cs = list(impls_of(P, 'ir::common::Constraint'))
    ctx.floor('constraint_types', len(cs), 2)
    for im in cs:
        nm = im['path'].split(' as ')[0].split('::', 1)[-1]
        mv, mr = ctx.body(method(im, 'var')), ctx.body(method(im, 'replace_var'))
        mt, mn = ctx.body(method(im, 'typ')), ctx.body(method(im, 'new'))
        if None in (mv, mr, mt, mn):
            continue
        cur = im['self_adt']
        isnum = not cur
        I, fr = run(ctx, mv, names=['self'])
        v = undv(ret(I, fr))
        I, fr = run(ctx, mr, names=['self', 'f'])
        r = ret(I, fr)
        hs = holes(r)
        ctx.ob(nm + ':var==substituted', hs == {v}, 'var() is %s, replace_var() substitutes %s' % (show(v), paths(hs)), mr.path)
        ctx.ob(nm + ':replace-preserves', same_as(P, fill(r), sym('self')), 'replace_var(id) is %s' % show(r)[:200], mr.path)
        I, fr = run(ctx, mn, names=['var', 'typ'])
        r = undv(ret(I, fr))
        if cur:
            g = [fld(r, f[0]) for f in variants(P, cur)[0]['fields']]
            ctx.ob(nm + ':new', set(g) == {sym('var'), sym('typ')} and fld(r, v.a[1]) is sym('var'), 'new() builds %s' % show(r)[:200], mn.path)
        else:
            ctx.ob(nm + ':new', r is sym('var'), 'new() builds %s' % show(r)[:200], mn.path)


def strip(x):
    while x.op == 'part':
        x = x.a[0]
    return x


def rebuild(P, t, val, why):
    t = undv(t)
    al = alts(t)
    if not al:
        return False
    good = True
    for x in al:
        if x.op != 'agg' or x.a[:3] != val.a[:3]:
            why.append('produces %s' % show(x)[:120])
            good = False
            continue
        for fn, fv, rv in zip(x.a[2], x.a[3:], val.a[3:]):
            if not same_as(P, fv, rv, why):
                why.append('%s is %s' % (fn, show(fv)[:160]))
                good = False
    return good


def check_affine(ctx, P, stage, r, m):
    """from_kx_plus_b(x, k, b) is k*x + b"""
    w = '%s:%s' % (m.file, m.line)
    r = rewrite(r, lambda x: x.a[0] if x.op == 'mod' or x.op == 'part' and kval(x.a[1]) == 'sorted' else x)
    if r.op == 'agg' and r.a[1] == 'LinComb':
        lc = undv(r.a[3])
        ts = [undv(x) for x in elems(fld(lc, 'terms'))]
        ok_ = len(ts) == 1 and fld(ts[0], 'var') is sym('x') and fld(ts[0], 'coef') is sym('k') and undv(fld(lc, 'constant')) is sym('b')
        ctx.ob(stage + ':from_kx_plus_b', ok_, 'from_kx_plus_b builds %s' % show(r)[:300], w)
    elif r.op == 'agg' and r.a[1] == 'InternalVariable':
        ts = [undv(x) for x in elems(fld(undv(r.a[3]), 'terms'))]
        lin = [x for x in ts if undv(fld(x, 'vars')).op == 'agg' and undv(fld(x, 'vars')).a[1] == 'Linear']
        cst = [x for x in ts if undv(fld(x, 'vars')).op == 'agg' and undv(fld(x, 'vars')).a[1] == 'Const']
        ok_ = len(ts) == 2 and len(lin) == 1 and len(cst) == 1 and fld(lin[0], 'coef') is sym('k') and \
            undv(fld(lin[0], 'vars')).a[3] is sym('x') and fld(cst[0], 'coef') is sym('b')
        ctx.ob(stage + ':from_kx_plus_b', ok_, 'from_kx_plus_b builds %s' % show(r)[:300], w)
    else:
        ctx.ob(stage + ':from_kx_plus_b', False, 'from_kx_plus_b builds %s' % show(r)[:300], w)
