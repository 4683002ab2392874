"""A verifier accepts only if every check it depends on accepts.  Each verifier is interpreted under the assumption that one
underlying check answers 'no' (every time it is asked, all proof parts non-empty); an accepting exit must be unreachable.
The arguments of the underlying checks must be the ones of the kernel, template, commitments and proof at hand."""
from rules.assume import *

PS = EC + 'zkcuda::proving_system::'
NP2 = EC + 'utils::misc::next_power_of_two'


def callsub(t, names):
    """first call on the access path of t"""
    x = undv(t)
    while x.op in ('fld', 'elem', 'at', 'dv'):
        x = undv(x.a[0])
    if x.op == 'call' and any(str(x.a[0]).endswith(n) for n in names):
        return x
    return None


def gkr_no(t):
    if t.op == 'fld' and t.a[1] == '0' and undv(t.a[0]).op == 'call' and undv(t.a[0]).a[0].endswith('gkr_verify'):
        return FALSE


def pcs_no(t):
    if t.op == 'call' and (t.a[0].endswith('ExpanderPCS::verify') or t.a[0].endswith('multi_points_batch_verify')):
        return FALSE


def claim_no(t):
    if t.op == 'bin' and t.a[0] == 'Eq':
        for x in t.a[1:]:
            c = undv(x)
            for y in alts(c):
                z = undv(y)
                while z.op in ('fld', 'elem', 'at') and undv(z.a[0]).op == 'fld':
                    z = undv(z.a[0])
                if z.op == 'fld' and z.a[1] in ('2', '3') and callsub(z, ['gkr_verify']) is not None:
                    return FALSE


def cond_no(t):
    # the per-lane conditions of the dummy system
    if t.op == 'elem' and undv(t.a[0]).op == 'fld' and callsub(t, ['eval_with_public_inputs_simd']) is not None:
        return FALSE


def recorded_no(t):
    if t.op == 'bin' and t.a[0] == 'Eq' and any(callsub(x, ['eval_with_public_inputs_simd']) is not None for x in t.a[1:]) and any(is_path('cond', '*')(undv(x)) for x in t.a[1:]):
        return FALSE


def count_no(t):
    """the number of kernel proofs differs from the number of kernel calls"""
    if t.op == 'bin' and t.a[0] in ('Eq',):
        a, b = undv(t.a[1]), undv(t.a[2])
        for x, y in ((a, b), (b, a)):
            if islen(x, 'proofs') and islen(y, 'proof_templates'):
                return FALSE


def islen(t, f):
    return t.op == 'call' and t.a[0] == 'len' and (undv(t.a[1]).op == 'fld' and undv(t.a[1]).a[1] == f or show(undv(t.a[1])).startswith('self_proof.' + f))


SYSTEMS = {
    'dummy::DummyProvingSystem': ('count', 'cond', 'recorded'),
    'expander::api_single_thread::Expander': ('count', 'gkr', 'pcs', 'claim'),
    'expander_parallelized::api_parallel::ParallelizedExpander': ('count', 'gkr', 'pcs', 'claim'),
    'expander_pcs_defered::api_pcs_defered::ExpanderPCSDefered': ('count', 'gkr', 'pcs', 'claim'),
    'expander_no_oversubscribe::api_no_oversubscribe::ExpanderNoOverSubscribe': ('count', 'gkr', 'pcs', 'claim'),
    'expander_local_deferred::api::ExpanderLocalDeferred': ('count', 'gkr', 'pcs', 'claim'),
}
ASSUME = {'count': (count_no, 'the number of kernel proofs differs from the number of kernel calls'),
          'gkr': (gkr_no, 'the GKR proof of every kernel call is rejected'),
          'pcs': (pcs_no, 'every commitment opening is rejected'),
          'claim': (claim_no, 'the values opened from the commitments do not match the claims of the GKR proof'),
          'cond': (cond_no, 'the constraints of the kernels do not hold'),
          'recorded': (recorded_no, 'the recorded conditions differ from the recomputed ones')}
# systems that take another path for kernels called with a single instance
SPLIT = ('ExpanderLocalDeferred',)


def is_pc(t):
    t = undv(t)
    if t.op == 'call' and t.a[0].endswith('next_power_of_two'):
        t = undv(t.a[1])
    return t.op == 'fld' and t.a[1] == 'parallel_count'


LE = EC + 'circuit::layered::Circuit::<C, I>::eval_with_public_inputs_simd'


def nonempty_all(s):
    # everything the proof and the graph contain; not the parts of a challenge point (the verifier draws them itself, and
    # there may be no MPI coordinate)
    s = undv(s)
    for x in alts(s):
        x = undv(x)
        while x.op in ('fld', 'elem', 'at', 'part'):
            if x.op == 'fld' and x.a[1] in ('r_mpi', 'rz', 'r_simd'):
                return False
            x = undv(x.a[0])
        if x.op == 'call' and any(x.a[0].endswith(n) for n in ('challenge_x', 'challenge_y')):
            return False
    return True


def export_opaque(prog):
    return [p for p in prog.bodies if p.endswith('export_to_expander_flatten')]


def inline_pred(ctx):
    bad = set(export_opaque(ctx.prog)) | {NP2, LE}

    def f(body, fn, cs):
        return body.path not in bad
    return f


def check(ctx):
    P = ctx.prog
    seen = set()
    n = 0
    opq = tuple(export_opaque(P)) + (NP2, LE)
    for im in impls_of(P, 'ProvingSystem'):
        p = method(im, 'verify')
        body = P.bodies.get(p)
        if body is None:
            ctx.ob('anchor:%s' % p, False, 'verify of a proving system has no body')
            continue
        nm = next((s for s in SYSTEMS if s in p), None)
        if nm is None:
            # a new proving system must at least be recognised
            ctx.ob('unknown-system:%s' % short(p), False, 'proving system %s is not covered' % p, '%s:%s' % (body.file, body.line))
            continue
        seen.add(nm)
        where = '%s:%s' % (body.file, body.line)
        sysn = nm.rsplit('::', 1)[1]
        for a in SYSTEMS[nm]:
            fn, what = ASSUME[a]
            cases = [('', (), '')]
            if sysn in SPLIT and a != 'count':
                cases = [(':single', [Rel(is_pc, 'eq', 1)], ' (kernels called with one instance)'), (':batched', [Rel(is_pc, 'gt', 1)], ' (kernels called with several instances)')]
            for sfx, rels, w2 in cases:
                I, fr = counterfactual(ctx, body, rels=rels, fn=fn, nonempty=nonempty_all, names=['vsetup', 'graph', 'proof'], opaque=opq)
                n += 1
                ctx.ob('%s:%s%s' % (sysn, a, sfx), not success(I, fr), '%s accepts a proof although %s%s' % (sysn, what, w2), where)
        I, fr = run(ctx, body, names=['vsetup', 'graph', 'proof'], opaque=opq)
        ctx.ob('%s:can-accept' % sysn, success(I, fr), '%s never accepts' % sysn, where)
        n += args(ctx, sysn, fr, where, nm)
    for s in SYSTEMS:
        ctx.ob('system:%s' % s, s in seen, 'verifier of %s not found' % s)
    ctx.floor('verifier_obligations', n, 60)


def args(ctx, sysn, fr, where, nm):
    g = sym('graph')
    pr = sym('proof')
    tpl = elem(fld(g, 'proof_templates'))
    kern = mk('at', fld(g, 'kernels'), fld(tpl, 'kernel_id'))
    com = mk('at', fld(pr, 'commitments'), elem(fld(tpl, 'commitment_indices')))
    pc = mk('call', 'misc::next_power_of_two', fld(tpl, 'parallel_count'))
    n = 0

    def ob(key, good, what):
        nonlocal n
        n += 1
        ctx.ob('%s:%s' % (sysn, key), good, '%s: %s' % (sysn, what), where)

    def exact(t, want, path_root):
        """every access path into path_root inside t is `want` or below it"""
        bad = []

        def below(x):
            y = undv(x)
            while True:
                if y is want:
                    return True
                if y.op in ('fld', 'elem', 'at', 'part'):
                    y = undv(y.a[0])
                else:
                    return False
        found = [x for x in subterms(t) if x is want]
        return bool(found)

    def proof_bytes(t):
        """bytes of the proof of this template; returns the index into data"""
        t = undv(t)
        if t.op != 'fld' or t.a[1] != 'bytes':
            return None
        t = undv(t.a[0])
        if t.op not in ('at', 'elem') or undv(t.a[0]).op != 'fld' or undv(t.a[0]).a[1] != 'data':
            return None
        i = undv(t.a[1]) if t.op == 'at' else None
        p = undv(undv(t.a[0]).a[0])
        x = p
        if x.op == 'elem' and undv(x.a[0]) is fld(pr, 'proofs'):
            return (i, x)
        if x.op == 'at' and undv(x.a[0]) is fld(pr, 'proofs') and undv(x.a[1]).op in ('eidx', 'ridx') and 'proof_templates' in show(undv(x.a[1])):
            return (i, x)
        return None
    gk = [e for e in events(fr) if e.canon.endswith('gkr_verify')]
    if 'dummy' in nm:
        ev = [e for e in events(fr) if e.canon.endswith('eval_with_public_inputs_simd')]
        ob('kernel-evaluated', bool(ev), 'the kernels are not evaluated')
        for e in ev:
            ob('kernel-circuit', undv(e.args[0]) is fld(kern, 'layered_circuit'), 'the circuit evaluated is %s instead of the one of the kernel called' % show(e.args[0])[:200])
            ob('kernel-inputs', fld(com, 'vals') in subterms(e.args[1]), 'the evaluated inputs do not come from the commitments of the kernel call')
        return n
    ob('gkr-present', bool(gk), 'gkr_verify is never called')
    for i, e in enumerate(gk):
        key = 'gkr%d' % i
        a = [x if j == 5 else gen(x) for j, x in enumerate(undv(x) for x in e.args)]
        one = is_k(a[0], 1)
        ob(key + ':instances', one or a[0] is pc, 'gkr_verify runs with %s instances' % show(a[0])[:100])
        ob(key + ':circuit', a[1].op == 'call' and undv(a[1].a[1]) is fld(kern, 'layered_circuit') or exact(a[1], fld(kern, 'layered_circuit'), g),
           'the circuit verified is not the one of the kernel called: %s' % show(a[1])[:200])
        ob(key + ':output', a[3].op in ('cdef', 'call', 'sym', 'cparam') and 'ZERO' in show(a[3]) or is_k(a[3], 0), 'the output of the kernel circuit is compared with %s instead of zero' % show(a[3])[:100])
        pb = proof_bytes(a[5])
        ob(key + ':proof', pb is not None, 'the proof bytes of another kernel call are verified: %s' % show(a[5])[:200])
        if pb is not None and one and 'api_single_thread' in nm:
            ok_ = pb[0] is not None and pb[0].op == 'ridx' and is_k(undv(pb[0].a[0]), 0) and undv(pb[0].a[1]) is pc
            ob(key + ':every-instance', ok_, 'not every parallel instance of a kernel call is verified (instance index %s)' % (show(pb[0])[:100] if pb[0] is not None else None))
    for i, e in enumerate([e for e in events(fr) if e.canon.endswith('ExpanderPCS::verify')]):
        key = 'pcs%d' % i
        a = [gen(undv(x)) for x in e.args]
        cm, vl = fld(com, 'commitment'), fld(com, 'vals_len')
        ob(key + ':commitment', a[2] is cm, 'an opening is verified against %s instead of the commitment of the kernel call' % show(a[2])[:160])
        ob(key + ':key', a[1].op in ('get', 'at') and undv(a[1].a[1]) is vl and is_path('v_keys')(a[1].a[0]), 'the verification key is %s' % show(a[1])[:160])
        ob(key + ':params', vl in subterms(a[0]), 'the commitment parameters are %s' % show(a[0])[:160])
        ob(key + ':claim', is_path('Ok.0')(a[4]) and callsub(a[4], ['deserialize_from']) is not None, 'the claim verified is %s instead of the one read from the proof' % show(a[4])[:160])
        ob(key + ':opening', is_path('Ok.0')(a[6]) and callsub(a[6], ['deserialize_from']) is not None and a[6] is not a[4], 'the opening verified is %s' % show(a[6])[:160])
        ob(key + ':challenge', any(x.op == 'call' and x.a[0].endswith('gkr_verify') for x in subterms(a[3])), 'the opening point does not come from the GKR proof')
        # the claim must be bound into the transcript and the aggregated value
        ap = [gen(undv(x.args[1])) for x in events(fr) if x.canon.endswith('append_field_element')]
        ob(key + ':claim-absorbed', a[4] in ap, 'the claimed value is not absorbed into the transcript')
    for e in [e for e in events(fr) if e.canon.endswith('multi_points_batch_verify')]:
        a = [gen(undv(x)) for x in e.args]
        ob('batch:commitments', fld(com, 'commitment') in {x for z in elems(a[2]) for x in [undv(z)]}, 'the batch opening is verified against %s' % show(a[2])[:200])
        ob('batch:points', any(x.op == 'call' and x.a[0].endswith('gkr_verify') for x in subterms(a[3])), 'the opening points do not come from the GKR proofs')
        ob('batch:vals', callsub(a[4], ['deserialize_from']) is not None, 'the opened values are %s' % show(a[4])[:160])
    # aggregation: the opened values are summed with the weight of their component
    am = accmap(fr)
    eqs = []
    for f in frames(fr):
        for b, (kd, t, labs) in f.branch.items():
            eqs.append(t)
        if f.ret is not None:
            eqs.append(f.ret)
    agg = 0
    for t in set(eqs):
        for x in subterms(t):
            if x.op == 'bin' and x.a[0] == 'Eq' and claim_no(x) is FALSE:
                other = [undv(y) for y in x.a[1:] if callsub(y, ['gkr_verify']) is None or undv(y).op in ('red', 'acc')]
                for y in other:
                    y = am.get(y, y)
                    if y.op != 'red':
                        continue
                    agg += 1
                    m = undv(y.a[2])
                    c = [z for z in subterms(m) if z.op == 'call' and z.a[0].endswith('deserialize_from')]
                    w = [z for z in subterms(m) if z.op == 'call' and z.a[0].endswith('ith_eq_vec_elem')]
                    ob('aggregate:%d' % agg, y.a[0] == 'Add' and m.op == 'bin' and m.a[0] == 'Mul' and bool(c) and bool(w), 'the claims are aggregated as %s' % show(y)[:200])
                    for z in w:
                        i = gen(undv(z.a[2]))
                        li = elem(fld(kern, 'layered_circuit_input'))
                        ob('aggregate:index:%d' % agg, i is mk('bin', 'Div', fld(li, 'offset'), fld(li, 'len')), 'the component of an input is %s' % show(i)[:160])
    return n
