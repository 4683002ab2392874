"""C20: zkcuda contexts record, lay out and evaluate exactly the kernel calls that were made.

The functions of zkcuda::context and zkcuda::kernel are evaluated symbolically, with shape arithmetic, the pool and the
compile steps left opaque (other properties decide those), and specialised to one kind of kernel argument at a time: an
input given in parallel, a broadcast input, or an output.  What each opaque callee is given, what is stored, and what is
recorded must be exactly the values named below."""
import absint as A
import auto
from terms import *
from .common import *
from .assume import *
from .c09 import only_iteration, where
from .c13 import walk
from .c16 import go, val, memof, evs, same, sitefree, sources, short_, ALL, chain

ZK = EC + 'zkcuda::'
CX = ZK + 'context::'
CC = CX + 'Context::<C, H>::'
KN = ZK + 'kernel::'
OPQ = ('zkcuda::shape::', 'context::make_device_mem', 'context::check_shape_compat', 'eval_safe_simd', 'ir_copy_from_device_memory', 'pool::Pool', 'kernel::compile_primitive',
       'context::pack_vec', 'context::unpack_vec', 'zkcuda::vec_shaped', 'propagate_and_get_shapes', 'get_current_device_memory_shapes', 'export_device_memories_impl')
KOPQ = ('RootBuilder', 'compile::compile_step', 'InputMapping::', 'frontend::', 'remove_and_export', 'layering::compile', 'compile::print_', '::validate', 'replace_vars', 'zkcuda::shape::', 'kernel::reorder_ir_inputs')
OPT = 'core::option::Option'
RES = 'core::result::Result'


def opaque(ctx, path, pats=OPQ, keep=()):
    return tuple(p for p in ctx.prog.bodies if p != path and any(x in p for x in pats) and not any(x in p for x in keep))


def lst(e):
    """a list with any number of elements like e"""
    return mk('seq', None, e)


def some(x):
    return mk('agg', OPT, 'Some', ('0',), x)


NONE = mk('agg', OPT, 'None', ())


def with_(prog, adt, name, **over):
    """symbolic struct with some of its fields fixed"""
    t = agg_of(prog, adt, adt.rsplit('::', 1)[-1], base=sym(name))
    if t is None or any(n not in t.a[2] for n in over):
        return None
    return mk('agg', t.a[0], t.a[1], t.a[2], *[over.get(n, v) for n, v in zip(t.a[2], t.a[3:])])


def state(prog, x):
    for v in prog.adts[CX + 'ContextState']['variants']:
        if v['name'] == x:
            return mk('agg', CX + 'ContextState', x, ())
    return None


def clean(t):
    """forget call sites, and what earlier iterations of an enclosing loop left where the first value is also possible"""
    def f(x):
        if x.op == 'dv':
            return undv(x)
        if x.op in ('part', 'sub', 'elem'):
            y = piece(x)
            if y is not None:
                return y
        if x.op == 'at':
            base, i = undv(x.a[0]), undv(x.a[1])
            if show(base) in PARALLEL:
                if each(i):
                    return mk('elem', base)
                if i.op == 'bin' and i.a[0] == 'Add' and show(i.a[2]) == '1' and each(undv(i.a[1])):
                    return mk('part', mk('elem', base), mk('tup', k('skip'), k(1)))
            elif base.op == 'seq' and each(i) and all(y.op == 'agg' and y.a[0] == OPT for z in seqvals(base) for y in map(undv, alts(z))):
                return phi(*[y for z in seqvals(base) for y in alts(z)])
        if x.op == 'fld' and x.a[1] == 'Some.0' and undv(x.a[0]).op == 'seq' and undv(x.a[0]).a[0] is None:
            return undv(undv(x.a[0]).a[1])
        if x.op == 'phi':
            xs = [y for y in x.a[0] if not has_mu(y)]
            if len(xs) == 1 and len(xs) < len(x.a[0]):
                return undv(xs[0])
        return x
    return rewrite(sitefree(undv(t)), f)


PARALLEL = tuple(x + y for x in ('kernel', 'prim') for y in ('.io_shapes', '.io_specs', '.ir_input_offsets', '.ir_output_offsets')) + ('ios', 'psi', 'pso', 'call.input_handles', 'call.output_handles', 'call.is_broadcast')


def piece(x):
    """the variables from one counter up to the next"""
    b = undv(x.a[0])
    if x.op == 'elem':
        return undv(b.a[1]) if b.op == 'seq' and b.a[0] is None and show(b.a[1]).startswith('NEW.1[(ridx(') else None
    r = x.a[1][1] if isinstance(x.a[1], tuple) and x.a[1][0] == 'slice' else x.a[1]
    if show(b) not in ('NEW.1', 'NEW.1[*]') or not isinstance(r, T) or undv(r).op != 'agg' or undv(r).a[2] != ('start', 'end'):
        return None
    lo, hi = undv(undv(r).a[3]), undv(undv(r).a[4])
    if hi.op != 'bin' or hi.a[0] != 'Add':
        return None
    n = [undv(z) for z in hi.a[1:] if not same(undv(z), lo)]
    if len(n) != 1:
        return None
    v = mk('at', sym('NEW.1'), mk('bin', 'Add', mk('ridx', k(0), n[0], 'Range'), lo))
    return v if x.op == 'part' else mk('seq', None, v)


def each(i):
    """the number of an argument, running over all of them"""
    return i.op == 'eidx' or i.op == 'ridx' and show(i.a[0]) == '0' and 'Inclusive' not in str(i.a[2]) and undv(i.a[1]).op == 'call' and undv(i.a[1]).a[0] == 'len'


def seqvals(t):
    return ([] if t.a[0] is None else seqvals(undv(t.a[0])) if undv(t.a[0]).op == 'seq' else [mk('call', '?')]) + [t.a[1]]


def has_mu(t):
    while isinstance(t, T) and t.op in ('fld', 'at', 'elem', 'dv', 'dc'):
        t = t.a[0]
    return isinstance(t, T) and t.op == 'mu'


def S(t):
    return show(clean(t)) if isinstance(t, T) else str(t)


def run(ctx, path, names, args=None, mem=None, fn=None, nonempty=ALL, mutout=None, pats=OPQ, keep=()):
    b = ctx.body(path)
    if b is None:
        return None
    I, fr = counterfactual(ctx, b, names=list(names), args=args, mem=mem, fn=fn, nonempty=nonempty, mutout=mutout, opaque=opaque(ctx, path, pats, keep))
    return b, I, fr


def fld_(t, name):
    """field of an aggregate or updated value"""
    t = undv(t)
    if t.op == 'agg' and name in t.a[2]:
        return undv(t.a[3 + t.a[2].index(name)])
    if t.op == 'upd':
        for n, v in t.a[1]:
            if n == name:
                return undv(v)
        return fld_(t.a[0], name)
    return mk('fld', t, name)


def evargs(e, skip=0):
    return [S(x) for x in e.args[skip:]]


def members(t):
    """what a list holds"""
    t = undv(t)
    if t.op == 'arr':
        return {S(x) for x in t.a}
    if t.op == 'seq' and (t.a[0] is None or undv(t.a[0]).op in ('arr', 'seq')):
        return (members(t.a[0]) if t.a[0] is not None else set()) | {S(x) for x in alts(undv(t.a[1]))}
    return None


def pushes(fr, pred=lambda s: True):
    return [it for _f, _b, it in items(fr, 'push') if pred(S(it[4]))]


# ---- order of operations ---------------------------------------------------------------------------------------------
STATES = ('ComputationGraphNotDone', 'ComputationGraphDone', 'WitnessDone')
STEPS = (('call_kernel', ('self', 'kernel', 'par', 'ios'), {'ComputationGraphNotDone': 'ComputationGraphNotDone'}),
         ('compile_computation_graph', ('self',), {'ComputationGraphNotDone': 'ComputationGraphDone'}),
         ('load_computation_graph', ('self', 'cg'), {'ComputationGraphNotDone': 'ComputationGraphDone'}),
         ('solve_witness', ('self',), {'ComputationGraphDone': 'WitnessDone'}),
         ('export_device_memories', ('self',), {'WitnessDone': 'WitnessDone'}))


def states(ctx):
    P = ctx.prog
    for f, names, allowed in STEPS:
        for s in STATES:
            st = state(P, s)
            if st is None:
                ctx.ob('state:%s:%s' % (f, s), False, 'no state ' + s)
                continue
            none = mk('arr')
            g = run(ctx, CC + f, names, mem={sym('self'): with_(P, CX + 'Context', 'self', state=st, kernel_calls=none, proof_templates=none)}, nonempty=lambda x: False)
            if not g:
                continue
            b, I, fr = g
            if s not in allowed:
                ctx.ob('state:%s:%s' % (f, s), fr.ret is None, '%s is accepted in state %s' % (f, s), where(b))
                continue
            got = fld_(memof(I, fr, 'self'), 'state') if fr.ret is not None else None
            ctx.ob('state:%s:%s' % (f, s), got is not None and got is state(P, allowed[s]), '%s in state %s leads to %s' % (f, s, S(got) if got is not None else 'a panic'), where(b))
    g = run(ctx, CC + 'new', ('hint_caller',))
    if g:
        b, I, fr = g
        r = val(I, fr)
        ok = r is not None and fld_(r, 'state') is state(P, 'ComputationGraphNotDone') and S(fld_(r, 'hint_caller')) == 'hint_caller' and all(is_none_left(fld_(r, n)) for n in ('device_memories', 'kernel_calls', 'proof_templates'))
        ctx.ob('state:new', ok, 'a new context is %s' % (S(r)[:300] if r is not None else None), where(b))


def is_none_left(t):
    t = undv(t)
    return t.op == 'arr' and not t.a or t.op == 'seq' and t.a[0] is None and undv(t.a[1]).op == 'bot'


# ---- shapes of kernel arguments ---------------------------------------------------------------------------------------
def compat(ctx):
    path = CX + 'check_shape_compat'
    b = ctx.body(path)
    if b is None:
        return
    for same_len in (0, 1):
        for equal in (0, 1):
            for longer in (0, 1):
                for tail in (0, 1):
                    for first in (0, 1):
                        if same_len and longer:
                            continue
                        unknown = []

                        def fn(t):
                            if t.op == 'bin' and t.a[0] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                                r = relation(t.a[1], t.a[2])
                            elif t.op == 'call' and t.a[0].rsplit('::', 1)[-1] in ('eq', 'ne'):
                                r = relation(t.a[1], t.a[2])
                            else:
                                return None
                            v = {'len': same_len, 'whole': equal and same_len, 'longer': longer, 'tail': tail and longer, 'first': first}.get(r)
                            if v is None or t.op == 'bin' and t.a[0] not in ('Eq', 'Ne'):
                                unknown.append(show(t)[:160])
                                return None
                            neg = t.op == 'bin' and t.a[0] == 'Ne' or t.op == 'call' and t.a[0].endswith('ne')
                            return A.A_TRUE if bool(v) != neg else A.A_FALSE
                        I, fr = counterfactual(ctx, b, names=['want', 'got', 'par'], fn=fn, nonempty=ALL)
                        r = val(I, fr)
                        if same_len and equal:
                            exp = 'Option::Some{0: True}'
                        elif longer and tail and first:
                            exp = 'Option::Some{0: False}'
                        else:
                            exp = 'Option::None{}'
                        got = sorted({S(x) for x in alts(r)}) if r is not None else None
                        ctx.ob('compat:%d%d%d%d%d' % (same_len, equal, longer, tail, first), got == [exp],
                               'for a shape of %s length, %s contents, %sone more dimension, %s trailing dimensions and first dimension %s the number of parallel instances: %s instead of %s%s'
                               % ('the same' if same_len else 'another', 'equal' if equal else 'different', '' if longer else 'not ', 'equal' if tail else 'different', 'equal to' if first else 'other than',
                                  got, exp, '; undecided: %s' % unknown[:2] if unknown else ''), where(b))


def relation(x, y):
    """which of the comparisons between the two shapes is this"""
    a, c = sorted((S(x), S(y)))
    L = {('len(got)', 'len(want)'): 'len', ('got', 'want'): 'whole', ('got[0]', 'par'): 'first'}
    if (a, c) in L:
        return L[(a, c)]
    if a + ' | ' + c in ('(1 Add len(want)) | len(got)', '(len(want) Add 1) | len(got)', '(len(got) Sub 1) | len(want)'):
        return 'longer'
    z = [t for t in (x, y) if any(w.op in ('cut', 'part', 'sub') for w in walk(t))]
    if len(z) == 1 and 'got' in S(z[0]) and 'want' not in S(z[0]):
        o = y if z[0] is x else x
        tail = S(z[0])
        if S(o).replace('src(', '').replace(')', '') in ('want', 'want[*]') and ("'skip', 1" in tail or 'RangeFrom{start: 1}' in tail or "skip, 1" in tail):
            return 'tail'
    return None


# ---- device memories --------------------------------------------------------------------------------------------------
def memories(ctx):
    P = ctx.prog
    for one in (0, 1):
        def fn(t):
            if t.op == 'bin' and t.a[0] in ('Eq', 'Ne') and 'shape_vec_len' in show(t):
                return A.A_TRUE if bool(one) == (t.a[0] == 'Eq') else A.A_FALSE
            return None
        g = run(ctx, CX + 'make_device_mem', ('mems', 'values', 'shape'), fn=fn)
        if not g:
            continue
        b, I, fr = g
        r = val(I, fr)
        m = memof(I, fr, 'mems')
        ps = [it for it in pushes(fr) if S(it[3]) == 'mems']
        elem = undv(ps[0][4]) if len(ps) == 1 else None
        prods = [{'1'}] if one else [{'1', 'shape::shape_vec_len(shape)'}]
        pr = undv(fld_(elem, 'required_shape_products')) if elem is not None else None
        ok = elem is not None and m.op == 'seq' and S(m.a[0]) == 'mems' and S(fld_(elem, 'values')) == 'values' and members(pr) in prods
        ctx.ob('memory:new:%s' % ('one' if one else 'many'), ok, 'a new device memory is %s' % (S(m)[:240]), where(b))
        h = undv(r.a[3]) if r is not None and r.op == 'agg' and r.a[1] == 'Some' else None
        hid = S(fld_(h, 'id')) if h is not None else None
        ctx.ob('memory:handle:%s' % ('one' if one else 'many'), hid in ('len(mems)', '(len(%s) Sub 1)' % S(m)) and S(fld_(h, 'shape_history')) == 'ShapeHistory::new(shape)',
               'the handle of a new memory is %s' % (S(h)[:240] if h is not None else r), where(b))
    F = 'vec_shaped::flatten_shaped'
    DEV = (('copy_to_device', ('self', 'host'), 'context::pack_vec(%s(host).0)' % F, '%s(host).1' % F),
           ('copy_to_device_and_pack_simd', ('self', 'host'), '%s_pack_simd(host).0' % F, '%s_pack_simd(host).1' % F),
           ('copy_simd_to_device', ('self', 'host'), '%s(host).0' % F, '%s(host).1' % F))
    for f, names, v, s in DEV:
        g = run(ctx, CC + f, names)
        if g:
            b, I, fr = g
            e = evs(fr, 'make_device_mem')
            r = val(I, fr)
            ctx.ob('memory:%s' % f, len(e) == 1 and evargs(e[0]) == ['self.device_memories', v, s] and not only_iteration(e[0].known) and r is not None and same(r, e[0].ret),
                   '%s stores %s and returns %s' % (f, [evargs(x) for x in e], S(r)[:160] if r is not None else None), where(b))
    g = run(ctx, CC + 'copy_flat_simd_to_device', ('self', 'flat', 'cols'), fn=lambda t: A.A_TRUE if t.op == 'bin' and t.a[0] == 'Lt' and S(t) == '(0 Lt cols)' else None)
    if g:
        b, I, fr = g
        e = evs(fr, 'make_device_mem')
        r = val(I, fr)
        ctx.ob('memory:copy_flat_simd_to_device', len(e) == 1 and evargs(e[0]) == ['self.device_memories', 'flat', 'arr((len(flat) Div cols), cols)'] and r is not None and same(r, e[0].ret),
               'copy_flat_simd_to_device stores %s' % [evargs(x) for x in e], where(b))
    H = 'handle.Some.0'
    PV = 'ShapeHistory::permute_vec(%s.shape_history, self.device_memories[%s.id].values)' % (H, H)
    for f, want in (('copy_to_host', 'vec_shaped::unflatten_shaped(context::unpack_vec(%s), ShapeHistory::shape(%s.shape_history))' % (PV, H)),
                    ('copy_to_host_and_unpack_simd', 'vec_shaped::unflatten_shaped_unpack_simd(%s, ShapeHistory::shape(%s.shape_history))' % (PV, H)),
                    ('copy_simd_to_host', 'vec_shaped::unflatten_shaped(%s, ShapeHistory::shape(%s.shape_history))' % (PV, H))):
        g = run(ctx, CC + f, ('self', 'handle'))
        if g:
            b, I, fr = g
            r = val(I, fr)
            ctx.ob('memory:%s' % f, r is not None and S(r) == want, '%s returns %s' % (f, S(r)[:300] if r is not None else None), where(b))
    hs = [(m, p) for p in P.bodies for m in ('reshape', 'transpose') if 'DeviceMemoryHandleRaw' in p and p.endswith('>::' + m)]
    for m, p in hs:
        g = run(ctx, p, ('self', 'how'))
        if g:
            b, I, fr = g
            r = val(I, fr)
            want = 'Option::Some{0: DeviceMemoryHandleRaw{id: self.Some.0.id, shape_history: %s}}'
            ctx.ob('memory:handle:%s' % m, r is not None and S(r) in [want % x for x in ('ShapeHistory::%s(self.Some.0.shape_history, how)' % m, 'Reshape::reshape(self.Some.0.shape_history, how)', 'Transpose::transpose(self.Some.0.shape_history, how)')],
                   '%s of a handle gives %s' % (m, S(r)[:200] if r is not None else None), where(b))
    ctx.floor('kinds of handle views', len(hs), 2)
    g = run(ctx, CX + 'pack_vec', ('v',))
    if g:
        b, I, fr = g
        r = val(I, fr)
        e = evs(fr, 'pack')
        lp = [s for s in sources(fr) if 'ridx' in S(s) or 'PACK' in S(s)]
        ok = r is not None and r.op == 'seq' and r.a[0] is None and len(e) == 1 and same(r.a[1], e[0].ret) and only_elem(e[0].args[0], 'v[*]') and not rev(fr)
        full = any('PACK_SIZE' in show(z) for z in lp) or 'PACK_SIZE' in show(e[0].args[0]) if e else False
        ctx.ob('memory:pack_vec', ok and full, 'packing gives %s from %s' % (S(r)[:200] if r is not None else None, [S(s) for s in lp]), where(b))
    g = run(ctx, CX + 'unpack_vec', ('v',))
    if g:
        b, I, fr = g
        r = val(I, fr)
        ctx.ob('memory:unpack_vec', r is not None and r.op == 'seq' and r.a[0] is None and S(r.a[1]) == 'SimdField::unpack(v[*])[0]' and not rev(fr), 'unpacking gives %s' % (S(r)[:200] if r is not None else None), where(b))
    for br in (0, 1):
        g = run(ctx, CC + 'ir_copy_from_device_memory', ('self', 'values', 'out', 'ib', 'i', 'chunk'), args={3: k(bool(br)), 5: NONE if br else some(sym('c'))})
        if g:
            b, I, fr = g
            m = memof(I, fr, 'out') if fr.ret is not None else None
            got = S(m.a[1]) if m is not None and m.op == 'seq' else None
            want = ('values[*]', 'values') if br else ('part(values[*], (slice, Range{start: (c Mul i), end: (c Mul (i Add 1))}))',)
            ctx.ob('memory:take:%s' % ('broadcast' if br else 'parallel'), got in want, 'instance i of a %s argument takes %s' % ('broadcast' if br else 'parallel', got), where(b))
    g = run(ctx, CC + 'export_device_memories_impl', ('self',))
    if g:
        b, I, fr = g
        r = val(I, fr)
        D = 'self.device_memories[*]'
        want = 'shape::multi_dimension_data_padding(shape::prefix_products_to_shape(%s.required_shape_products), %s.values)' % (D, D)
        ctx.ob('memory:export', r is not None and r.op == 'seq' and r.a[0] is None and S(r.a[1]) == want and not rev(fr) and not conds(fr), 'exported memories are %s' % (S(r)[:240] if r is not None else None), where(b))
    g = run(ctx, CC + 'get_current_device_memory_shapes', ('self',))
    if g:
        b, I, fr = g
        r = val(I, fr)
        ctx.ob('memory:shapes', r is not None and r.op == 'seq' and S(r.a[1]) == 'shape::prefix_products_to_shape(self.device_memories[*].required_shape_products)' and not rev(fr), 'the shapes of the memories are %s' % (S(r)[:200] if r is not None else None), where(b))


def conds(fr):
    return []


def only_elem(t, s):
    t = undv(t)
    return S(t) == 'rep(%s, PACK_SIZE)' % s or t.op == 'seq' and t.a[0] is None and {S(x) for x in alts(t.a[1])} == {s} or S(t).startswith('rep(%s, ' % s)


def rev(fr):
    """something runs over a list backwards, sorted or over a part other than 'all but the first'"""
    out = []
    def look(z):
        z = undv(z)
        if z.op in ('rev', 'part') or z.op == 'cut' and "'skip', 1" not in show(z):
            out.append(S(s)[:160])
        elif z.op in ('zip', 'cut', 'elem', 'mkit', 'enumerate'):
            for y in z.a:
                if isinstance(y, T):
                    look(y)
    for s in sources(fr):
        look(s)
    return out


# ---- calling a kernel -------------------------------------------------------------------------------------------------
IN, OUT, BOTH = (True, False), (False, True), (True, True)


def spec(P, io):
    return with_(P, KN + 'IOVecSpec', 'spec', is_input=k(io[0]), **({} if io[1] is None else {'is_output': k(io[1])}))


def kernel(P, io):
    return with_(P, KN + 'KernelPrimitive', 'kernel', io_specs=lst(spec(P, io)))


def call(ctx, io, ib=None, eq=False, ios=None, extra=None, nonempty=ALL):
    """call_kernel of a kernel all of whose arguments are of one kind; ib: what the shape check says"""
    P = ctx.prog
    sh = {None: None, 'bad': NONE, True: some(k(True)), False: some(k(False))}[ib]

    def fn(t):
        if t.op == 'call' and t.a[0].endswith('check_shape_compat') and sh is not None:
            return sh
        if t.op == 'bin' and t.a[0] in ('Eq', 'Ne') and any(is_call(undv(z), 'Pool::get') for z in t.a[1:]):
            return A.A_TRUE if eq == (t.a[0] == 'Eq') else A.A_FALSE
        return extra(t) if extra else None
    mem = {sym('kernel'): kernel(P, io)}
    if ios is not None:
        mem[sym('ios')] = lst(ios)
    return run(ctx, CC + 'call_kernel', ('self', 'kernel', 'par', 'ios'), mem=mem, fn=fn, nonempty=nonempty)


def is_call(t, name):
    return t.op == 'call' and t.a[0].endswith(name)


def calls(ctx):
    P = ctx.prog
    if ctx.body(CC + 'call_kernel') is None:
        return
    H = mk('agg', CX + 'DeviceMemoryHandleRaw', 'DeviceMemoryHandleRaw', ('id', 'shape_history'), sym('id'), sym('history'))

    def count(t):
        if t.op == 'bin' and t.a[0] in ('Eq', 'Ne') and {S(t.a[1]), S(t.a[2])} == {'len(kernel.io_shapes)', 'len(ios)'}:
            return A.A_FALSE if t.a[0] == 'Eq' else A.A_TRUE
        return None
    bad = (('count', dict(io=IN, ib=False, extra=count), 'another number of arguments than the kernel has'), ('missing', dict(io=IN, ib=False, ios=NONE), 'a missing input'),
           ('shape', dict(io=IN, ib='bad', ios=some(H)), 'an input of another shape'), ('broadcast', dict(io=BOTH, ib=True, ios=some(H)), 'a broadcast argument that is also an output'),
           ('shape-inout', dict(io=BOTH, ib='bad', ios=some(H)), 'an input and output of another shape'), ('missing-inout', dict(io=BOTH, ib=False, ios=NONE), 'a missing argument that is input and output'))
    for key, kw, msg in bad:
        b, I, fr = call(ctx, **kw)
        ctx.ob('call:refuse:%s' % key, fr.ret is None, 'call_kernel accepts %s' % msg, where(b))
    for io, ib in ((IN, False), (IN, True), (OUT, False), (BOTH, False)):
        key = {IN: 'in', OUT: 'out', BOTH: 'inout'}[io] + (':broadcast' if ib else '')
        b, I, fr = call(ctx, io, ib)
        w = where(b)
        if fr.ret is None:
            ctx.ob('call:%s:runs' % key, False, 'call_kernel never returns for this kind of argument', w)
            continue
        ctx.ob('call:%s:order' % key, not rev(fr), 'call_kernel runs over %s' % rev(fr)[:2], w)
        # the shape check
        e = evs(fr, 'check_shape_compat')
        ctx.ob('call:%s:check' % key, [evargs(x) for x in e] == ([['kernel.io_shapes[*]', 'ShapeHistory::shape(ios[*].Some.0.shape_history)', 'par']] if io[0] else []), 'shapes checked: %s' % [evargs(x) for x in e], w)
        # the record
        recs = [it for it in pushes(fr) if undv(it[4]).op == 'agg' and undv(it[4]).a[0] == CX + 'KernelCall']
        ctx.ob('call:%s:recorded' % key, len(recs) == 1 and S(recs[0][3]) == 'self.kernel_calls' and not recs[0][6] and once(recs[0][5]), 'a call is recorded %d times, in %s, under %s' % (len(recs), [S(r[3])[:60] for r in recs], [S(c)[:80] for r in recs for c, v in only_iteration(r[5]) if undv(c).op == 'bin'][:3]), w)
        if len(recs) != 1:
            continue
        r = undv(recs[0][4])
        add = [x for x in evs(fr, 'add') if 'Pool' in x.canon]
        ctx.ob('call:%s:kernel' % key, len(add) == 1 and S(add[0].args[0]) == 'self.kernel_primitives' and same(add[0].args[1], kernel(P, io)) and same(fld_(r, 'kernel_id'), add[0].ret),
               'the call is recorded with kernel %s' % S(fld_(r, 'kernel_id'))[:160], w)
        ctx.ob('call:%s:parallel' % key, S(fld_(r, 'num_parallel')) == 'par', 'the call is recorded with %s instances' % S(fld_(r, 'num_parallel')), w)
        ctx.ob('call:%s:inputs' % key, S(fld_(r, 'input_handles')) == 'ios', 'the call is recorded with inputs %s' % S(fld_(r, 'input_handles'))[:200], w)
        ctx.ob('call:%s:flags' % key, listof(fld_(r, 'is_broadcast'), k(bool(ib))), 'the call is recorded with broadcast flags %s' % S(fld_(r, 'is_broadcast'))[:200], w)
        # required shapes of the memories
        sts = [it for _f, _b, it in items(fr, 'st') if 'required_shape_products' in S(it[4])]
        isl = [evargs(x) for x in evs(fr, 'get_initial_split_list')]
        mg = evs(fr, 'merge_shape_products')
        want_isl = ([['ios[*].Some.0.shape_history', str(not ib)]] if io[0] else [])
        okm = True
        news = evs(fr, 'make_device_mem')
        if io[1]:
            hn = ['%s.Some.0.shape_history' % S(x.ret) for x in news]
            want_isl += [[h, 'True'] for h in hn]
        ctx.ob('call:%s:split' % key, sorted(isl) == sorted(want_isl), 'the memories are split by %s instead of %s' % (isl, want_isl), w)
        good = 0
        for m in mg:
            a = [undv(x) for x in m.args]
            sp = [x for x in a if is_call(clean(x), 'get_initial_split_list')]
            old = [x for x in a if x not in sp]
            tg = [it for it in sts if same(it[2], m.ret)]
            if len(sp) == 1 and len(old) == 1 and len(tg) == 1 and len(tg[0][1]) == 1:
                idx = S(tg[0][1][0])
                of = 'ios[*].Some.0.id' if S(clean(sp[0]).a[1]) == 'ios[*].Some.0.shape_history' else '%s.Some.0.id' % (S(news[0].ret) if len(news) == 1 else '?')
                o = alts(clean(old[0]))
                good += idx == of and all(S(x).endswith('required_shape_products') for x in o)
        ctx.ob('call:%s:required' % key, good == len(mg) == len(sts) == len(want_isl), 'the required shape of a memory becomes %s' % [(S(it[1][0])[:60] if it[1] else '', S(it[2])[:120]) for it in sts], w)
        # inputs of the circuit
        if io[0] and io[1]:
            inputs_(ctx, key, fr, w, ib)
        ev_(ctx, key, I, fr, io, w)
        m = memof(I, fr, 'ios')
        if io[1]:
            st = sorted({it[4] if isinstance(it[4], str) else S(it[4]) for _f, _b, it in items(fr, 'st') if len(news) == 1 and same(it[2], news[0].ret)})
            oh = undv(fld_(r, 'output_handles'))
            ok = len(st) == 2 and 'ios[*]' in st and oh.op == 'seq' and S(oh.a[0]).startswith('rep(Option::None{}, ')
            ctx.ob('call:%s:outputs' % key, ok, 'the handle of an output goes to %s and the record has %s' % (st, S(oh)[:160]), w)
            a = evargs(news[0], 1) if news else []
            ctx.ob('call:%s:new-memory' % key, len(a) == 2 and a[1] == 'shape::shape_prepend(kernel.io_shapes[*], par)', 'an output memory has shape %s' % a[1:], w)
        else:
            ctx.ob('call:%s:outputs' % key, not news and m.op == 'seq' and S(m.a[1]) == 'Option::None{}' and listof(fld_(r, 'output_handles'), NONE), 'the argument becomes %s, recorded as %s' % (S(m)[:160], S(fld_(r, 'output_handles'))[:160]), w)
    # a cached kernel counts only if it is the same
    b, I, fr = call(ctx, OUT, False, eq=True, ios=NONE)
    ins = [it for _f, _b, it in items(fr, 'insert') if 'kernel_ptr_cache' in S(it[3])]
    add = [x for x in evs(fr, 'add') if 'Pool' in x.canon]
    ok = all(undv(it[4]).op == 'tup' and len(add) == 1 and same(undv(it[4]).a[1], add[0].ret) for it in ins)
    ctx.ob('call:cache', ok and len(add) == 1, 'the kernel cache stores %s' % [S(it[4])[:160] for it in ins], where(b))
    permuted(ctx)
    # every call is recorded once
    for io in (IN, OUT, BOTH, (True, None)):
        b, I, fr = call(ctx, io, False)

        def it_(it, f):
            return 'call' if it[0] == 'push' and undv(it[4]).op == 'agg' and undv(it[4]).a[0] == CX + 'KernelCall' else None
        bad_ = auto.within(auto.NFA(fr, lambda ev, f: None, items=it_), {(0, 'call'): 1}, 0, {1})
        ctx.ob('call:once:%s' % '-'.join(map(str, io)), bad_ is None, 'the calls recorded are %s' % (bad_,), where(b))
    # an error of the evaluation is the result
    b, I, fr = call(ctx, BOTH, False)
    rec = [it for it in pushes(fr) if undv(it[4]).op == 'agg' and undv(it[4]).a[0] == CX + 'KernelCall' or 'ir_output_offsets' in S(it[4]) and any(undv(x).op == 'part' for x in alts(it[4]))]
    ctx.ob('call:error', len(rec) == 2 and all(ok_known(it[5]) for it in rec) and may_err(fr), 'the call goes on after a failing evaluation', where(b))


def permuted(ctx):
    """a view that permutes its memory is permuted before the circuit reads it"""
    for ib in (True, False):
        for ident in (True, False):
            key = ('broadcast' if ib else 'parallel') + (':identity' if ident else '')
            b, I, fr = call(ctx, (True, None), ib, extra=lambda t: (A.A_TRUE if ident else A.A_FALSE) if is_call(t, 'is_identity_permutation') else None)
            w = where(b)
            es = evs(fr, 'ir_copy_from_device_memory')
            ctx.ob('call:view:%s:take' % key, len(es) == 1, 'inputs are copied at %d places' % len(es), w)
            base = 'self.device_memories[ios[*].Some.0.id].values'
            pv = 'ShapeHistory::permute_vec(ios[*].Some.0.shape_history, %s)' % base
            for e in es:
                v = {S(x) for x in alts(undv(e.args[1])) if not has_mu(undv(x)) and not is_none_left(x)}
                ctx.ob('call:view:%s:from' % key, bool(v) and v <= ({base, pv} if ident else {pv}), 'the circuit reads %s' % sorted(v), w)
                ctx.ob('call:view:%s:flag' % key, S(e.args[3]) == str(ib) and S(e.args[4]) == 'ridx(0, par, Range)', 'an argument is taken as %s of instance %s' % (S(e.args[3]), S(e.args[4])), w)
                c = {S(y) for y in alts(undv(e.args[5])) if S(y) != 'Option::None{}'}
                ctx.ob('call:view:%s:chunk' % key, c <= {'Option::Some{0: (len(%s) Div par)}' % y for y in v} and (c or ib), 'the size of one instance is %s' % sorted(c), w)
                x = undv(e.args[2])
                ctx.ob('call:view:%s:to' % key, x.op == 'sub' and span(x.a[1], 'kernel.ir_input_offsets'), 'an input goes to %s' % S(x)[-240:], w)
            # every argument has its own entry in the lists
            one = [S(it[3])[:100] for _f, _b, it in items(fr, 'index') if undv(it[4]).op == 'k']
            ctx.ob('call:view:%s:own' % key, not one, 'one entry of a list is used for all arguments: %s' % one[:2], w)


def propagate(ctx):
    """memories used by one call get shapes that are split alike, until nothing changes"""
    P = ctx.prog
    path = CC + 'propagate_and_get_shapes'
    if ctx.body(path) is None:
        return
    pats = tuple(x for x in OPQ if 'propagate' not in x)
    cur = 'get_current_device_memory_shapes'

    def settled(t, v):
        return t.op == 'bin' and (t.a[0], v) in (('Eq', True), ('Ne', False)) and all(any(is_call(undv(y), cur) for y in alts(undv(x))) for x in t.a[1:])
    for io, ib in ((IN, False), (IN, True), (OUT, False), (BOTH, False)):
        key = {IN: 'in', OUT: 'out', BOTH: 'inout'}[io] + (':broadcast' if ib else '')
        pr = prims(P, io)
        mem = {sym('self'): context(P, io, ib, io[0], io[1])}
        b, I, fr = run(ctx, path, ('self',), mem=mem, pats=pats, fn=lambda t: pr(t))
        w = where(b)
        ctx.ob('shapes:%s:settled' % key, fr.ret is None or any(settled(undv(c), v) for c, v in fr.exit_state.known), 'the shapes are taken while they still change', w)
        ctx.ob('shapes:%s:returned' % key, fr.ret is not None and all(is_call(undv(x), cur) for x in alts(undv(fr.ret))), 'the shapes returned are %s' % (S(fr.ret)[:200] if fr.ret is not None else None), w)
        ctx.ob('shapes:%s:order' % key, not rev(fr), 'the calls are taken over %s' % rev(fr)[:2], w)
        tr = evs(fr, 'get_transposed_shape_and_bit_order')
        names = [] if ib else [n for n, x in (('in', io[0]), ('out', io[1])) if x]
        got = sorted(S(e.args[0]) for e in tr)
        ok = got == sorted(n + '_history' for n in names) and all(cur in x and x.endswith('[%s_id]' % S(e.args[0])[:-8]) for e in tr for x in expand(e.args[1]))
        ctx.ob('shapes:%s:views' % key, ok, 'the views looked at are %s' % [[x[-60:] for x in evargs(e)] for e in tr], w)
        pp = [evargs(e) for e in evs(fr, 'prefix_products')]
        ctx.ob('shapes:%s:parallel' % key, ['arr(call.num_parallel)'] in pp, 'the shapes start from %s' % [x[0][:100] for x in pp], w)
        kp = evs(fr, 'keep_shape_products_until')
        rs = [e for e in evs(fr, 'reshape')]
        sts = [it for _f, _b, it in items(fr, 'st') if 'required_shape_products' in str(it[4])]
        if ib:
            ctx.ob('shapes:%s:left' % key, all(S(e.args[0]) == 'bot()' for e in rs), 'a broadcast memory is split by %s' % [S(it[2])[:200] for it in sts], w)
            continue
        okk = len(kp) == 1 and S(kp[0].args[1]) == 'call.num_parallel' and all(x.startswith('shape::prefix_products(ShapeHistory::get_transposed_shape_and_bit_order(') and x.endswith('.0)') for x in expand(kp[0].args[0]))
        ctx.ob('shapes:%s:until' % key, okk, 'the dimensions shared are %s' % [expand(e.args[0])[:2] for e in kp], w)
        okr = len(rs) == 1 and {S(x) for x in alts(undv(rs[0].args[0]))} == {n + '_history' for n in names} and undv(rs[0].args[1]).op == 'arr' and len(undv(rs[0].args[1]).a) == 2
        if okr:
            x, y = (undv(z) for z in undv(rs[0].args[1]).a)
            okr = y.op == 'bin' and y.a[0] == 'Div' and same(undv(y.a[2]), x) and 'shape_vec_len(ShapeHistory::shape(' in S(y.a[1])
            for c_, v_ in only_iteration(rs[0].known):
                c_ = undv(c_)
                if c_.op != 'bin' or not any(same(undv(z), x) for z in c_.a[1:]):
                    continue
                o = [S(z) for z in c_.a[1:] if not same(undv(z), x)]
                okr = okr and (c_.a[0] == 'Eq' and v_ is False or c_.a[0] == 'Ne' and v_ is True) and o in (['1'], ['call.num_parallel'])
        ctx.ob('shapes:%s:split' % key, okr, 'a memory is split by %s, if %s' % ([x[:160] for e in rs for x in evargs(e)], [(S(c_)[-60:], v_) for e in rs for c_, v_ in only_iteration(e.known) if undv(c_).op == 'bin']), w)
        isl = evs(fr, 'get_initial_split_list')
        mg = [e for e in evs(fr, 'merge_shape_products') if any('get_initial_split_list' in S(x)[:60] for x in e.args)]
        okm = len(sts) == len(mg) == len(isl) == 1 and len(rs) == 1 and same(isl[0].args[0], rs[0].ret) and S(isl[0].args[1]) == 'True' and same(sts[0][2], mg[0].ret) \
            and any(S(x).endswith('required_shape_products') for y in mg[0].args for x in alts(clean(y))) and {S(x) for x in alts(undv(sts[0][1][0]))} == {n + '_id' for n in names}
        ctx.ob('shapes:%s:merged' % key, okm, 'the required shape becomes %s' % [S(it[2])[:200] for it in sts], w)
    g = run(ctx, CC + cur, ('self',), pats=tuple(x for x in OPQ if cur not in x))
    if g:
        b, I, fr = g
        v = val(I, fr)
        ctx.ob('shapes:current', v is not None and S(v) == 'seq( + shape::prefix_products_to_shape(self.device_memories[*].required_shape_products))' and not rev(fr), 'the shapes of the memories are %s' % (S(v)[:200] if v is not None else None), where(b))


def ok_known(known):
    """does this happen only after an evaluation was Ok"""
    return any(v in ('Ok', 'Continue') and any(is_call(z, 'eval_safe_simd') for z in walk(undv(c))) for c, v in known)


def may_err(fr):
    """can the error of the evaluation be the result"""
    return fr.ret is not None and any(z.op == 'agg' and z.a[1] == 'Err' and any(is_call(y, 'eval_safe_simd') for y in walk(z)) for x in alts(undv(fr.ret)) for z in [undv(x)])


def once(known):
    """under no condition other than the checks passing"""
    return not any(undv(c).op in ('bin',) and S(c) not in CHECKS for c, v in only_iteration(known))


CHECKS = ('(ContextState::ComputationGraphNotDone{} Eq self.state)', '(len(kernel.io_shapes) Eq len(ios))', '(len(ios) Eq len(kernel.io_shapes))')


def listof(t, e, over=None):
    """a list all of whose elements are e (over: what it was filled with before)"""
    t = undv(t)
    while t.op == 'seq' and t.a[0] is not None and over is not None and undv(t.a[0]).op == 'rep':
        if not same(undv(t.a[0]).a[0], over):
            return False
        return all(same(x, e) or same(x, over) for x in alts(t.a[1])) and any(same(x, e) for x in alts(t.a[1]))
    if t.op == 'rep':
        return same(t.a[0], e)
    if t.op == 'seq':
        return (t.a[0] is None or listof(t.a[0], e)) and all(same(x, e) for x in alts(t.a[1]))
    return False


def span(t, offs):
    """is t the range between an offset and the next one"""
    return S(t) == "Range{start: %s[*], end: part(%s[*], tup('skip', 1))}" % (offs, offs)


def inputs_(ctx, key, fr, w, ib):
    es = evs(fr, 'ir_copy_from_device_memory')
    ctx.ob('call:%s:take' % key, len(es) == 1, 'inputs are copied at %d places' % len(es), w)
    for e in es:
        a = e.args
        v = {S(x) for x in alts(undv(a[1])) if not has_mu(undv(x)) and not is_none_left(x)}
        base = 'self.device_memories[ios[*].Some.0.id].values'
        ctx.ob('call:%s:take:from' % key, v <= {base, 'ShapeHistory::permute_vec(ios[*].Some.0.shape_history, %s)' % base} and any('permute' in x for x in v), 'the circuit reads %s' % sorted(v), w)
        x = undv(a[2])
        ctx.ob('call:%s:take:to' % key, x.op == 'sub' and 'num_inputs' in S(x.a[0]) and span(x.a[1], 'kernel.ir_input_offsets'), 'an input goes to %s' % S(x)[-240:], w)
        ctx.ob('call:%s:take:flag' % key, S(a[3]) == str(bool(ib)), 'an argument is taken as broadcast: %s' % S(a[3]), w)
        ctx.ob('call:%s:take:instance' % key, S(a[4]) == 'ridx(0, par, Range)', 'the instance taken is %s' % S(a[4]), w)
        c = {S(y) for y in alts(undv(a[5])) if S(y) != 'Option::None{}'}
        want = {'Option::Some{0: (len(%s) Div par)}' % y for y in v}
        ctx.ob('call:%s:take:chunk' % key, c <= want and (c or ib), 'the size of one instance is %s' % sorted(c), w)


def ev_(ctx, key, I, fr, io, w):
    es = evs(fr, 'eval_safe_simd')
    if not io[1]:
        return
    ok = len(es) == 1 and S(es[0].args[0]) == 'kernel.ir_for_calling' and S(es[0].args[2]) == 'arr()' and S(es[0].args[3]) == 'self.hint_caller'
    ctx.ob('call:%s:eval' % key, ok, 'the outputs are computed by %s' % [evargs(e)[:1] + evargs(e)[2:] for e in es], w)
    if not ok:
        return
    x = S(es[0].args[1])
    ctx.ob('call:%s:eval:inputs' % key, 'Field::zero()' in x and 'kernel.ir_for_calling.circuits{0}.num_inputs' in x, 'the circuit runs on %s' % x[:200], w)
    news = evs(fr, 'make_device_mem')
    vals = [p for p in pushes(fr) if 'ir_output_offsets' in S(p[4]) and 'eval_safe_simd' in S(p[4]) and not is_call(clean(p[4]), 'eval_safe_simd')]
    ok = len(vals) == 1
    for x in alts(vals[0][4]) if ok else ():
        ok = ok and undv(x).op == 'part' and isinstance(undv(x).a[1], tuple) and undv(x).a[1][0] == 'slice' and span(undv(x).a[1][1], 'kernel.ir_output_offsets')
    ctx.ob('call:%s:eval:outputs' % key, ok, 'an output memory receives %s' % [S(p[4])[-200:] for p in vals], w)
    if news:
        src = S(news[0].args[1])
        ctx.ob('call:%s:eval:stored' % key, 'eval_safe_simd' in src and 'ir_output_offsets' in src or 'ir_output_offsets' in filled(news[0].args[1]), 'the new memory holds %s' % src[:200], w)


def filled(t):
    """what a loop fills a list with, if that depends on the list itself"""
    return ' '.join(show(y) for x in walk(undv(t)) if x.op == 'phi' for y in x.a[0] if has_mu(undv(y)))


# ---- the computation graph --------------------------------------------------------------------------------------------
def context(P, io, ib, hasin, hasout):
    H = lambda n: mk('agg', CX + 'DeviceMemoryHandleRaw', 'DeviceMemoryHandleRaw', ('id', 'shape_history'), sym(n + '_id'), sym(n + '_history'))
    kc = with_(P, CX + 'KernelCall', 'call', input_handles=lst(some(H('in')) if hasin else NONE), output_handles=lst(some(H('out')) if hasout else NONE), is_broadcast=lst(k(ib)))
    return with_(P, CX + 'Context', 'self', kernel_calls=lst(kc))


def graph(ctx):
    P = ctx.prog
    path = CC + 'compile_or_load_computation_graph'
    if ctx.body(path) is None:
        return
    for io, ib in ((IN, False), (IN, True), (OUT, False), (BOTH, False)):
        for hints in (False, True):
            if hints and (io, ib) != (OUT, False):
                continue
            graph1(ctx, P, path, io, ib, hints)
    loading(ctx, P, path)


def prims(P, io):
    return lambda t: with_(P, KN + 'KernelPrimitive', 'prim', io_specs=lst(spec(P, io))) if is_call(t, 'Pool::get') and S(t.a[1]) == 'self.kernel_primitives' and S(t.a[2]) == 'call.kernel_id' else None


def padded(n):
    return 'ShapeHistory::get_transposed_shape_and_bit_order(%s_history, SHAPES[%s_id])' % (n, n)


def graph1(ctx, P, path, io, ib, hints):
    pr = prims(P, io)

    def fn(t):
        r = pr(t)
        if r is not None:
            return r
        if is_call(t, 'propagate_and_get_shapes'):
            return sym('SHAPES')
        if is_call(t, 'kernel::compile_primitive'):
            return mk('agg', RES, 'Ok', ('0',), with_(P, KN + 'Kernel', 'compiled', hint_solver=some(sym('solver')) if hints else NONE))
        return None
    key = {IN: 'in', OUT: 'out', BOTH: 'inout'}[io] + (':broadcast' if ib else '') + (':hints' if hints else '')
    g = run(ctx, path, ('self', 'cg'), args={1: NONE}, mem={sym('self'): context(P, io, ib, io[0], io[1])}, fn=fn)
    b, I, fr = g
    w = where(b)
    if ib:
        # no instance count can be derived from broadcast inputs alone: only the compilation is judged
        pass
    ctx.ob('graph:%s:order' % key, not rev(fr), 'the calls are processed over %s' % rev(fr)[:2], w)
    gt = sorted(tuple(evargs(e)) for e in evs(fr, 'get_transposed_shape_and_bit_order'))
    want = sorted([('in_history', 'SHAPES[in_id]')] * io[0] + [('out_history', 'SHAPES[out_id]')] * io[1])
    ctx.ob('graph:%s:padded' % key, gt == want, 'padded shapes come from %s instead of %s' % (gt, want), w)
    cp = evs(fr, 'compile_primitive')
    ok = len(cp) == 1 and same(cp[0].args[0], pr(mk('call', 'pool::Pool::get', sym('self.kernel_primitives'), sym('call.kernel_id'))) or cp[0].args[0])
    ctx.ob('graph:%s:compile' % key, ok, 'kernels are compiled from %s' % [evargs(e)[0][:100] for e in cp], w)
    for e in cp:
        for i, n, has in ((1, 'in', io[0]), (2, 'out', io[1])):
            l = undv(e.args[i])
            if not has:
                ok = l.op == 'seq' and all(x == 'Option::None{}' or 'bot()' in x for x in expand(l.a[1]))
            else:
                s = '%s.0' % padded(n)
                if not (ib and n == 'in'):
                    s = 'shape::keep_shape_since(%s, call.num_parallel)' % s
                ok = l.op == 'seq' and set(expand(l.a[1])) - {'Option::None{}'} == {'Option::Some{0: %s}' % s}
            ctx.ob('graph:%s:compile:%s' % (key, n), ok, 'the kernel is compiled for shapes %s' % S(l)[:240], w)
    tm = [it for it in pushes(fr) if undv(it[4]).op == 'agg' and undv(it[4]).a[0] == CX + 'ProofTemplate']
    if ib:
        ctx.ob('graph:%s:template' % key, fr.ret is None or all(not success(I, fr, ('Ok',)) for _ in (0,)) or not tm, 'a call without a parallel argument gets a template', w)
        bc = [it for it in pushes(fr) if S(it[4]) == 'in_id']
        ctx.ob('graph:%s:index' % key, len(bc) == 1, 'the memory of a broadcast input is listed %d times' % len(bc), w)
        return
    ctx.ob('graph:%s:template' % key, len(tm) == 1 and 'self.proof_templates' in S(tm[0][3]), 'a call gets %d templates' % len(tm), w)
    if len(tm) != 1:
        return
    t = undv(tm[0][4])
    shape = {'shape::shape_vec_padded_len(shape::keep_shape_until(%s.0, call.num_parallel))' % padded(n) for n, has in (('in', io[0]), ('out', io[1])) if has}
    pc = {S(x) for x in alts(fld_(t, 'parallel_count'))}
    pc2 = S(fld_(t, 'parallel_count'))
    okpc = pc <= shape or all(x in shape for x in expand(fld_(t, 'parallel_count')))
    ctx.ob('graph:%s:count' % key, okpc, 'the template counts %s instances' % pc2[:240], w)
    want = ['in'] * io[0] + ['out'] * io[1]
    hint_n = ['hint'] * hints
    for f, of in (('commitment_indices', lambda n: n + '_id'), ('commitment_bit_orders', lambda n: padded(n) + '.1'), ('is_broadcast', lambda n: str(ib))):
        l = undv(fld_(t, f))
        got = {S(x) for x in alts(l.a[1])} if l.op == 'seq' and l.a[0] is None else None
        exp = {of(n) for n in want}
        hs = set() if got is None else got - exp
        if f == 'is_broadcast' or not hints:
            ok = got == exp
        else:
            ok = got is not None and exp <= got and len(hs) == 1
        if ok and hints and f == 'commitment_bit_orders':
            h = hs.pop()
            ok = h.startswith('seq( + ridx(0, num::trailing_zeros((') and 'compiled.layered_circuit_input' in h and 'Range)' in h
        ctx.ob('graph:%s:%s' % (key, f), ok, 'the template has %s = %s' % (f, S(l)[:240]), w)
    # inputs before outputs before hints: everything pushed for inputs is reachable before, never after
    kid = fld_(t, 'kernel_id')
    add = [e for e in evs(fr, 'add') if 'Pool' in e.canon]
    ctx.ob('graph:%s:kernel' % key, len(add) == 1 and S(add[0].args[0]) == 'self.kernels' and S(add[0].args[1]).startswith('Kernel{') and same(kid, add[0].ret), 'the template names kernel %s' % S(kid)[:160], w)
    # length of every memory
    r = val(I, fr)
    cgs = [x for x in walk(r) if x.op == 'agg' and x.a[0] == CX + 'ComputationGraph'] if r is not None else []
    ctx.ob('graph:%s:result' % key, len(cgs) == 1, 'compiling gives %s' % (S(r)[:160] if r is not None else None), w)
    if len(cgs) == 1:
        c = cgs[0]
        ctx.ob('graph:%s:result:kernels' % key, S(fld_(c, 'kernels')) == 'Pool::vec(self.kernels)', 'the graph has kernels %s' % S(fld_(c, 'kernels'))[:120], w)
        tp = undv(fld_(c, 'proof_templates'))
        ctx.ob('graph:%s:result:templates' % key, tp.op == 'seq' and S(tp.a[0]) == 'self.proof_templates' and all(undv(x).op == 'mu' or undv(x).op == 'agg' and undv(x).a[0] == CX + 'ProofTemplate' for x in alts(tp.a[1])), 'the graph has templates %s' % S(tp)[:160], w)
        ln = undv(fld_(c, 'commitments_lens'))
        parts = []
        while ln.op == 'seq':
            parts.append({S(x) for x in alts(ln.a[1])})
            if ln.a[0] is None:
                break
            ln = undv(ln.a[0])
        flat = set().union(*parts) if parts else set()
        base = 'shape::shape_vec_padded_len(SHAPES[*])'
        rest = flat - {base}
        if hints:
            h = rest.pop() if len(rest) == 1 else ''
            okl = base in flat and not rest and h.startswith('(') and ' Mul ' in h and 'compiled.layered_circuit_input' in h and '.len' in h and any(s in h for s in shape)
        else:
            okl = flat == {base}
        ctx.ob('graph:%s:result:lengths' % key, okl, 'the graph has commitment lengths %s' % sorted(flat)[:3], w)
    if hints:
        b, I, fr = run(ctx, path, ('self', 'cg'), args={1: NONE})
        ns = [acc_of(fr, it[4]) for it in pushes(fr) if undv(it[4]).op == 'acc']
        ctx.ob('graph:hint-index', ns == [('len(self.device_memories)', '1')], 'hint memories are numbered %s (from, by)' % ns, where(b))


def acc_of(fr, t):
    """where a counter starts and what it grows by"""
    m = {}
    for f in frames(fr):
        m.update(accmap(f))
    x = m.get(undv(t))
    seen = 0
    while x is not None and x.op == 'red' and undv(x.a[1]).op == 'acc' and seen < 4:
        y = m.get(undv(x.a[1]))
        x = mk('red', x.a[0], y.a[1], x.a[2]) if y is not None and y.op == 'red' else y
        seen += 1
    if x is None or x.op != 'red' or x.a[0] != 'Add':
        return None
    by = undv(x.a[2])
    while by.op == 'maybe':
        by = undv(by.a[0])
    return S(x.a[1]), S(by)


def expand(t):
    """the values a term can take, with the choices inside opaque calls pulled out"""
    t = clean(t)
    for z in walk(t):
        if z.op == 'phi':
            out = []
            for y in z.a[0]:
                if has_mu(y) or undv(y).op == 'mu':
                    continue
                out += expand(rewrite(t, lambda x: undv(y) if x is z else x))
            return out
    return [S(t)]


def loading(ctx, P, path):
    """a loaded graph is used only if it is the graph of the recorded calls"""
    pr = prims(P, OUT)
    seen = set()
    # every comparison the loading makes, refused one at a time
    CMP = (('lens', lambda s: 'cg.commitments_lens[*]' in s and 'shape_vec_padded_len(SHAPES[*])' in s, 'a memory of another length'),
           ('templates', lambda s: ('(cg.proof_templates ' in s or ' cg.proof_templates)' in s) and 'self.proof_templates' in s and 'len(cg.' not in s, 'another list of templates'),
           ('all-lens', lambda s: 'cg.commitments_lens' in s and 'cg.commitments_lens[*]' not in s and 'len(cg' not in s, 'other commitment lengths'),
           ('kernels', lambda s: 'Pool::add(self.kernels, cg.kernels[*])' in s, 'a kernel under another number'),
           ('enough', lambda s: 'len(cg.commitments_lens)' in s, 'fewer commitments than memories'))
    cg = some(with_(P, CX + 'ComputationGraph', 'cg'))
    for key, sel, msg in (('ok', None, ''),) + CMP:
        hit = []

        def fn(t):
            r = pr(t)
            if r is not None:
                return r
            if is_call(t, 'propagate_and_get_shapes'):
                return sym('SHAPES')
            if sel is not None and t.op in ('bin', 'call') and t.a[0] in ('Eq', 'Ne', 'Le', 'Lt', 'Ge', 'Gt'):
                s = S(t)
                if sel(s):
                    hit.append(s[:120])
                    if t.a[0] in ('Le', 'Ge', 'Lt', 'Gt'):
                        strict = t.a[0] in ('Lt', 'Gt')
                        big = S(t.a[2]) if t.a[0] in ('Le', 'Lt') else S(t.a[1])
                        have = 'len(cg.commitments_lens)' in big
                        return A.A_FALSE if have and not strict else A.A_TRUE if strict and not have else None
                    return A.A_FALSE if t.a[0] == 'Eq' else A.A_TRUE
            return None
        g = run(ctx, path, ('self', 'cg'), args={1: cg}, mem={sym('self'): context(P, OUT, False, False, True)}, fn=fn)
        b, I, fr = g
        w = where(b)
        if sel is not None:
            ctx.ob('graph:load:%s' % key, bool(hit) and fr.ret is None, 'a graph with %s is accepted%s' % (msg, '' if hit else ' (nothing compares it)'), w)
            continue
        ctx.ob('graph:load', fr.ret is not None and S(val(I, fr)) == 'Result::Ok{0: Option::None{}}' and not evs(fr, 'compile_primitive'), 'loading a graph gives %s' % (S(fr.ret)[:160] if fr.ret is not None else None), w)
        gk = [e for e in evs(fr, 'get') if 'Pool' in e.canon and S(e.args[0]).startswith('self.kernels')]
        ok = len(gk) == 1 and 'cg.proof_templates[len(' in S(gk[0].args[1]) and S(gk[0].args[1]).endswith('.kernel_id')
        ctx.ob('graph:load:kernel', ok, 'a loaded call uses kernel %s' % [S(e.args[1])[:160] for e in gk], w)


# ---- hints ------------------------------------------------------------------------------------------------------------
def witness(ctx):
    P = ctx.prog
    path = CC + 'solve_witness'
    if ctx.body(path) is None:
        return
    for io, ib, solver in ((IN, False, True), (IN, True, True), (OUT, False, True), (BOTH, False, True), (OUT, False, False)):
        pr = prims(P, io)

        def fn(t, err=False):
            r = pr(t)
            if r is not None:
                return r
            if is_call(t, 'Pool::get') and S(t.a[1]) == 'self.kernels' and S(t.a[2]) == 'template.kernel_id':
                return with_(P, KN + 'Kernel', 'kernel', hint_solver=some(sym('solver')) if solver else NONE)
            if err and is_call(t, 'eval_safe_simd'):
                return mk('agg', RES, 'Err', ('0',), sym('e'))
            return None
        c = context(P, io, ib, io[0], io[1])
        i = c.a[2].index('proof_templates')
        c = mk('agg', c.a[0], c.a[1], c.a[2], *[lst(with_(P, CX + 'ProofTemplate', 'template')) if j == i else state(P, 'ComputationGraphDone') if c.a[2][j] == 'state' else v for j, v in enumerate(c.a[3:])])
        key = {IN: 'in', OUT: 'out', BOTH: 'inout'}[io] + (':broadcast' if ib else '') + ('' if solver else ':none')
        b, I, fr = run(ctx, path, ('self',), mem={sym('self'): c}, fn=fn)
        w = where(b)
        ev = evs(fr, 'eval_safe_simd')
        mk_ = evs(fr, 'make_device_mem')
        ctx.ob('hints:%s:order' % key, not rev(fr), 'the calls are solved over %s' % rev(fr)[:2], w)
        if not solver:
            ctx.ob('hints:%s' % key, fr.ret is not None and not ev and not mk_, 'a kernel without hints gets a hint memory', w)
            continue
        ok = len(ev) == 1 and S(ev[0].args[0]) == 'solver' and S(ev[0].args[2]) == 'arr()' and S(ev[0].args[3]) == 'self.hint_caller'
        ctx.ob('hints:%s:solver' % key, ok, 'hints are computed by %s' % [evargs(e)[:1] + evargs(e)[2:] for e in ev], w)
        cps = evs(fr, 'ir_copy_from_device_memory')
        got = []
        for e in cps:
            a = e.args
            vs = sorted({S(x) for x in alts(undv(a[1])) if not has_mu(undv(x)) and not is_none_left(x)})
            to = undv(a[2])
            off = [o for o in ('ir_input_offsets', 'ir_output_offsets') if to.op == 'sub' and span(to.a[1], 'prim.' + o)]
            ch = sorted({S(x) for x in alts(undv(a[5]))})
            got.append((vs, off, sorted({S(x) for x in alts(undv(a[3]))}), S(a[4]), ch))
        want = []
        for n, has, off in (('in', io[0], 'ir_input_offsets'), ('out', io[1], 'ir_output_offsets')):
            if has:
                v = 'ShapeHistory::permute_vec(%s_history, self.device_memories[%s_id].values)' % (n, n)
                want.append((n, v, off, ib and n == 'in'))
        okc = len(got) == len(want)
        for (n, v, off, br), gt in zip(want, got):
            okc = okc and gt[0] == [v] and gt[1] == [off] and gt[3] == 'ridx(0, call.num_parallel, Range)'
            chunk = 'Option::Some{0: (len(%s) Div call.num_parallel)}' % v
            okc = okc and set(gt[4]) <= {chunk, 'Option::None{}'} and (br or chunk in gt[4]) and (not br or gt[4] == ['Option::None{}'])
        ctx.ob('hints:%s:inputs' % key, okc, 'the solver reads %s' % str(got)[:600], w)
        if ib:
            ctx.ob('hints:%s:shape' % key, not evs(fr, 'prefix_products') and not evs(fr, 'keep_shape_products_until'), 'the shape of a broadcast input is taken for the shape of the hints', w)
            continue
        ok = len(mk_) == 1 and S(mk_[0].args[0]).find('self.device_memories') >= 0 and 'eval_safe_simd' in S(mk_[0].args[1]) and S(mk_[0].args[2]).startswith('arr(len(') and same(undv(mk_[0].args[2]).a[0], mk('call', 'len', mk_[0].args[1]))
        ctx.ob('hints:%s:memory' % key, ok, 'hints are stored as %s' % [[x[:100] for x in evargs(e, 1)] for e in mk_], w)
        kp = evs(fr, 'keep_shape_products_until')
        sh = [x for e in kp for x in expand(e.args[0])]
        okk = len(kp) == 1 and S(kp[0].args[1]) == 'call.num_parallel' and set(sh) <= {'shape::prefix_products(%s.0)' % ('ShapeHistory::get_transposed_shape_and_bit_order(%s_history, Context::get_current_device_memory_shapes(self)[%s_id])' % (n, n)) for n, *_ in want} or \
            len(kp) == 1 and all('get_transposed_shape_and_bit_order' in x and x.endswith('_id]).0)') for x in sh)
        ctx.ob('hints:%s:shape' % key, okk, 'the hints are laid out by %s' % sh[:2], w)
        sts = [it for _f, _b, it in items(fr, 'st') if 'required_shape_products' in S(it[4])]
        mg = evs(fr, 'merge_shape_products')
        okr = len(sts) == len(mg) == 1 and len(mk_) == 1 and same(sts[0][2], mg[0].ret) and S(sts[0][1][0]) == '%s.Some.0.id' % S(mk_[0].ret) and any('keep_shape_products_until' in S(x) for x in mg[0].args)
        ctx.ob('hints:%s:required' % key, okr, 'the hint memory requires %s' % [S(it[2])[:160] for it in sts], w)
        ps = [it for it in pushes(fr) if 'keep_shape_products_until' in S(it[3])]
        hl = mk('call', 'len', mk_[0].args[1]) if len(mk_) == 1 else None
        okp = hl is not None and len(ps) == 1 and same(undv(ps[0][4]), hl)
        if okp:
            cs_ = [(undv(c), v) for c, v in only_iteration(ps[0][5]) if undv(c).op == 'bin' and any(same(undv(z), hl) for z in undv(c).a[1:])]
            okp = len(cs_) == 1 and (cs_[0][0].a[0], cs_[0][1]) in (('Eq', False), ('Ne', True)) and any(S(z) == 'call.num_parallel' for z in cs_[0][0].a[1:])
        ctx.ob('hints:%s:length' % key, okp, 'the shape of the hints ends with %s, if %s' % ([S(it[4])[:100] for it in ps], [(S(c)[:80], v) for it in ps for c, v in only_iteration(it[5]) if undv(c).op == 'bin']), w)
        one = [S(it[3])[:100] for _f, _b, it in items(fr, 'index') if undv(it[4]).op == 'k']
        ctx.ob('hints:%s:own' % key, not one, 'one entry of a list is used for all arguments: %s' % one[:2], w)
        ctx.ob('hints:%s:error' % key, may_err(fr) and all(ok_known(e.known) for e in mk_), 'a failing hint is not reported', w)


# ---- compiling kernels -----------------------------------------------------------------------------------------------
def okay(x):
    return mk('agg', RES, 'Ok', ('0',), x)


def err(x):
    return mk('agg', RES, 'Err', ('0',), sym(x))


STEP1 = {'RootBuilder::new': sym('NEW'), 'RootBuilder::build': sym('ROOT'), 'compile_step_1': okay(mk('tup', sym('R1'), sym('IM1'))), 'compile_step_4': okay(sym('R4')), 'new_identity': sym('ID')}
STEP2 = {'remove_and_export_hints': mk('tup', sym('HL'), sym('HE')), 'compile_step_4': okay(sym('HS')), 'new_identity': sym('ID'), 'compile_step_2': okay(mk('tup', sym('R2'), sym('IM2'))),
         'layering::compile': mk('tup', sym('LC'), sym('IM3')), 'compile_step_3': okay(sym('LC3')), 'RootCircuit::validate': okay(mk('tup')), 'reorder_ir_inputs': sym('RI')}


def kcall(ctx, f, names, mem, pairs, over={}):
    pr = dict(pairs)
    pr.update(over)

    def fn(t):
        for n, v in pr.items():
            if is_call(t, n):
                return v
    return run(ctx, KN + f, names, mem=mem, pats=KOPQ, nonempty=lambda z: not any(x in show(z) for x in ('ROOT', 'R1', 'R2')), fn=fn)


def values(t):
    """every value t can be"""
    return sorted({S(x) for x in alts(undv(t))})


def elems_(t):
    """every value an element of the list t can be"""
    t = undv(t)
    return sorted({x for y in (t.a[1:] if t.op == 'seq' else (t,)) for x in values(y)}) if t.op == 'seq' else [S(t)]


def one_to(got, n):
    """the numbers from one to n, in order"""
    return len(got) == 1 and got[0] in [x % n for x in ('ridx(1, %s, RangeInclusive)', 'ridx(1, (%s Add 1), Range)', 'ridx(1, (1 Add %s), Range)', '(ridx(0, %s, Range) Add 1)', '(1 Add ridx(0, %s, Range))')]


def set0(fr, field):
    """what is stored into a field of circuit 0"""
    return [undv(it[2]) for _f, _b, it in items(fr, 'st') if str(it[4]).endswith('circuits{0}.' + field)]


def stepped(fr, name):
    return [(S(e.args[0]), e) for e in evs(fr, name)]


RED = 'red(Add, 0, spec.len)'
TOTALS = {1: ('red(Add, 0, (spec.len Mul 1))', RED), 2: ('red(Add, 0, (spec.len Mul 2))', 'red(Add, %s, spec.len)' % RED, 'red(Add, 0, (spec.len Add spec.len))')}


def kernels(ctx):
    P = ctx.prog
    names = ('f', 'io_specs', 'shapes')
    for io in (IN, OUT, BOTH):
        key = {IN: 'in', OUT: 'out', BOTH: 'inout'}[io]
        g = kcall(ctx, 'compile_with_spec_and_shapes', names, {sym('io_specs'): lst(spec(P, io))}, STEP1)
        if not g:
            return
        b, I, fr = g
        w = where(b)
        nin = RED if io[0] else '0'
        e = [e for e in events(fr) if e.canon == 'RootBuilder::new']
        ctx.ob('kernel:%s:total' % key, len(e) == 1 and evargs(e[0])[1:] == ['0'] and evargs(e[0])[0] in TOTALS[sum(io)], 'a circuit is built with %s inputs' % [evargs(x) for x in e], w)
        # what each counter is
        ac = {}
        for t in [z for x in frames(fr) for z in accmap(x)]:
            ac[S(t)] = acc_of(fr, t)
        ps = [(S(it[4]), undv(it[4])) for _f, _b, it in items(fr, 'push')]
        idx = [s for s, t in ps if s.startswith('NEW.1[')]
        base = {}
        for s in idx:
            ok = False
            for a_, v in ac.items():
                if s in ('NEW.1[(ridx(0, spec.len, Range) Add %s)]' % a_, 'NEW.1[(%s Add ridx(0, spec.len, Range))]' % a_) and v and v[1] == 'spec.len':
                    base[v[0]] = base.get(v[0], 0) + 1
                    ok = True
            if not ok:
                base[s] = 1
        want = {IN: {'0': 1}, OUT: {'0': 1}, BOTH: {'0': 1, RED: 1}}[io]
        ctx.ob('kernel:%s:variables' % key, base == want, 'the variables of the arguments are %s, counted from %s' % (idx, ac), w)
        ind = evs(fr, 'indirect')
        ctx.ob('kernel:%s:called' % key, len(ind) == 1 and S(ind[0].args[0]) == 'NEW.0', 'the kernel is called as %s' % [evargs(x) for x in ind], w)
        if len(ind) == 1 and len(ind[0].args) > 1:
            t = undv(ind[0].args[1])
            inner = [S(z) for x in alts(t) for y in (undv(x).a[1:] if undv(x).op == 'seq' else (x,)) for z in alts(undv(y))]
            okk = t.op == 'seq' and all(z.startswith('seq( + ') and (('NEW.1[' in z and 'constant' not in z) if io[0] else z == 'seq( + BasicAPI::constant(NEW.0, 0))') for z in inner)
            ctx.ob('kernel:%s:arguments' % key, okk, 'the kernel is given %s' % inner, w)
        # asserted and returned
        eq = [e for e in events(fr) if e.canon == 'BasicAPI::assert_is_equal']
        if io[1]:
            first = [0, RED] if io == BOTH else []
            ok = len(eq) == 1 and S(eq[0].args[0]) == 'NEW.0'
            if ok:
                a_ = values(eq[0].args[1])
                e_ = values(eq[0].args[2])
                okv = all('NEW.1[' in x for x in e_) and all(('Add 0)' in x or 'Add %s)' % RED in x) for x in e_ if io == OUT)
                own = a_ == ['BasicAPI::constant(NEW.0, 0)'] if io == OUT else 'NEW.1[(ridx(0, spec.len, Range) Add 0)]' in a_ and not any('Add 0)' in x for x in e_)
                cnd = [(S(c)[:120], v) for c, v in only_iteration(eq[0].known) if undv(c).op == 'bin' and any(z.op in ('eidx', 'ridx') for z in walk(undv(c))) and 'IM' not in S(c)]
                ok = okv and own and not cnd
            ctx.ob('kernel:%s:asserted' % key, ok, 'outputs are asserted as %s' % [evargs(x) for x in eq], w)
            zs = [it for _f, _b, it in items(fr, 'zip')]
            ctx.ob('kernel:%s:whole' % key, all(z.op not in ('part', 'cut', 'rev') for it in zs for x in it[3:5] if isinstance(x, T) for z in walk(x)), 'only a part of an output is asserted', w)
        else:
            ctx.ob('kernel:%s:asserted' % key, not eq, 'an input is asserted to be an output', w)
        so = set0(fr, 'outputs')
        got = elems_(so[0]) if len(so) == 1 else so
        ids = [x for x in got if not one_to([x], nin)]
        okv = len(got) == len(ids) + 1 and (all(x.startswith('Variable::id(') for x in ids) and bool(ids) if io[1] else not ids)
        if io[1]:
            ie = [e for e in events(fr) if e.canon == 'Variable::id']
            okv = okv and len(ie) == 1 == len(eq) and same(ie[0].args[0], eq[0].args[1])
        ctx.ob('kernel:%s:outputs' % key, okv, 'the circuit has the outputs %s' % [S(x) if isinstance(x, T) else x for x in got], w)

        def sel(ev, f):
            n = ev.canon
            return 'call' if n == 'indirect' else 'eq' if n == 'BasicAPI::assert_is_equal' else 'id' if n == 'Variable::id' else 'build' if n == 'RootBuilder::build' else None

        def it_(it, f):
            if it[0] == 'push' and undv(it[4]).op == 'ridx' and 'Inclusive' in str(undv(it[4]).a[2]):
                return 'in'
            return None
        bad = auto.within(auto.NFA(fr, sel, items=it_), {(0, 'call'): 1, (0, 'in'): 0, (1, 'in'): 1, (1, 'eq'): 2, (1, 'id'): 2, (2, 'eq'): 2, (2, 'id'): 2, (1, 'build'): 3, (2, 'build'): 3}, 0, {3})
        ctx.ob('kernel:%s:order' % key, bad is None, 'the circuit is put together in the order %s' % (bad,), w)
        # compiled
        s1 = stepped(fr, 'compile_step_1')
        ctx.ob('kernel:%s:step1' % key, len(s1) == 1 and s1[0][0].startswith('upd(ROOT, ((circuits') and len(so) == 1 and s1[0][0].count('outputs') == 1, 'compiled is %s' % [x for x, _ in s1], w)
        c0 = set0(fr, 'constraints')
        s4 = stepped(fr, 'compile_step_4')
        ctx.ob('kernel:%s:calling' % key, len(s4) == 1 and s4[0][0].startswith('upd(R1, ((circuits') and s4[0][0].count('constraints') == 1 and [S(x) for x in c0] in (['seq( + bot())'], ['arr()']) and S(s4[0][1].args[1]) == 'ID',
               'called is %s' % [x for x, _ in s4], w)
        idn = evs(fr, 'new_identity')
        ctx.ob('kernel:%s:identity' % key, len(idn) == 1 and S(idn[0].args[0]) == 'R1.circuits{0}.num_inputs', 'inputs are counted as %s' % [evargs(x) for x in idn], w)
        r = undv(fr.ret)
        r = undv(r.a[3]) if r.op == 'agg' and r.a[1] == 'Ok' else r
        ok = r.op == 'agg' and r.a[0] == KN + 'KernelPrimitive'
        ctx.ob('kernel:%s:result' % key, ok and S(fld_(r, 'ir_for_later_compilation')) == 'R1' and S(fld_(r, 'ir_for_calling')) == 'R4' and S(fld_(r, 'io_shapes')) == 'shapes' and ('len: spec.len, is_input: %s, is_output: %s' % io) in S(fld_(r, 'io_specs')),
               'the kernel is %s' % S(r), w)
        if ok:
            a_, b_ = elems_(fld_(r, 'ir_input_offsets')), elems_(fld_(r, 'ir_output_offsets'))
            wi = ['0', RED] if io[0] else ['0']
            wo = {IN: [RED], OUT: ['0', RED], BOTH: [RED, 'red(Add, %s, spec.len)' % RED]}[io]
            ctx.ob('kernel:%s:offsets' % key, a_ == wi and b_ == wo, 'arguments are at %s and %s' % (a_, b_), w)
    # a failing step, or a step that moves an input, is no kernel
    for n, over in (('step1', {'compile_step_1': err('E1')}), ('step4', {'compile_step_4': err('E4')})):
        b, I, fr = kcall(ctx, 'compile_with_spec_and_shapes', names, {sym('io_specs'): lst(spec(P, BOTH))}, STEP1, over)
        ctx.ob('kernel:error:' + n, fr.ret is not None and all(z.op == 'agg' and z.a[1] == 'Err' for z in map(undv, alts(undv(fr.ret)))), 'a kernel whose %s fails is %s' % (n, S(fr.ret) if fr.ret is not None else 'a panic'), where(b))
    for io in (IN, OUT, BOTH):
        for hints in (True, False):
            primitive(ctx, io, hints)
    names = ('kernel', 'psi', 'pso')
    for n, over in (('step2', {'compile_step_2': err('E2')}), ('step3', {'compile_step_3': err('E3')}), ('step4', {'compile_step_4': err('E4')}), ('validate', {'RootCircuit::validate': err('EV')})):
        b, I, fr = kcall(ctx, 'compile_primitive', names, {sym('kernel'): kernel(P, BOTH)}, STEP2, over)
        ctx.ob('primitive:error:' + n, fr.ret is not None and all(z.op == 'agg' and z.a[1] == 'Err' for z in map(undv, alts(undv(fr.ret)))), 'a kernel whose %s fails is %s' % (n, S(fr.ret) if fr.ret is not None else 'a panic'), where(b))


NH = 'len(HS.circuits{0}.outputs)'


def primitive(ctx, io, hints):
    P = ctx.prog
    key = {IN: 'in', OUT: 'out', BOTH: 'inout'}[io] + (':hints' if hints else '')
    over = {}
    b0 = ctx.body(KN + 'compile_primitive')
    if b0 is None:
        return

    def fn(t):
        for n, v in STEP2.items():
            if is_call(t, n):
                return v
        if t.op == 'bin' and NH in S(t) and S(t.a[1]) + S(t.a[2]) in (NH + '0', '0' + NH):
            z = S(t.a[1]) == '0'
            return {'Eq': k(not hints), 'Ne': k(hints), 'Gt': k(hints and not z), 'Lt': k(hints and z), 'Le': k(not hints and not z), 'Ge': k(not hints and z)}.get(t.a[0])
    b, I, fr = run(ctx, KN + 'compile_primitive', ('kernel', 'psi', 'pso'), mem={sym('kernel'): kernel(P, io)}, pats=KOPQ, nonempty=lambda z: not any(x in show(z) for x in ('ROOT', 'R1', 'R2', 'HS')), fn=fn)
    w = where(b)
    if hints:
        e = evs(fr, 'remove_and_export_hints')
        ctx.ob('primitive:%s:split' % key, len(e) == 1 and evargs(e[0]) == ['kernel.ir_for_later_compilation'], 'split is %s' % [evargs(x) for x in e], w)
        v = [e for e in events(fr) if e.canon == 'RootCircuit::validate']
        ctx.ob('primitive:%s:validated' % key, len(v) >= 1 and evargs(v[0]) == ['HE'], 'validated is %s' % [evargs(x) for x in v], w)
        s4 = evs(fr, 'compile_step_4')
        ctx.ob('primitive:%s:step4' % key, len(s4) == 1 and evargs(s4[0])[:2] == ['HE', 'ID'] and [evargs(x) for x in evs(fr, 'new_identity')] == [['HE.circuits{0}.num_inputs']], 'the hint solver is compiled from %s' % [evargs(x) for x in s4], w)
        dr = [it for _f, _b, it in items(fr, 'drain')]
        okd = len(dr) == 1 and S(dr[0][3]) == 'HS.circuits{0}.outputs' and S(dr[0][4]) in ('RangeTo{end: kernel.ir_for_later_compilation.circuits{0}.num_inputs}', 'Range{start: 0, end: kernel.ir_for_later_compilation.circuits{0}.num_inputs}')
        ctx.ob('primitive:%s:hints' % key, okd, 'the hint solver loses the outputs %s' % [(S(x[3]), S(x[4])) for x in dr], w)
        # the hint-less circuit
        so = set0(fr, 'outputs')
        ctx.ob('primitive:%s:kept' % key, len(so) == 1 and one_to(elems_(so[0]), 'HL.circuits{0}.num_inputs'), 'the inputs kept are %s' % [elems_(x) for x in so], w)
        s2 = stepped(fr, 'compile_step_2')
        ctx.ob('primitive:%s:step2' % key, len(s2) == 1 and s2[0][0].startswith('upd(HL, ((circuits') and s2[0][0].count('outputs') == 1, 'compiled is %s' % [x for x, _ in s2], w)
        tr = [it for _f, _b, it in items(fr, 'trunc')]
        ctx.ob('primitive:%s:outputs' % key, len(tr) == 1 and S(tr[0][3]) == 'R2.circuits{0}.outputs' and S(tr[0][4]) == '(len(R2.circuits{0}.outputs) Sub HL.circuits{0}.num_inputs)', 'the outputs kept are %s' % [(S(x[3]), S(x[4])) for x in tr], w)
        la = [(S(e.args[0]), e) for e in events(fr) if e.canon == 'layering::compile']
        ctx.ob('primitive:%s:layered' % key, len(la) == 1 and la[0][0].startswith('upd(R2, ((circuits') and 'truncate(' in la[0][0] and S(la[0][1].args[1]) == 'CompileOptions{allow_input_reorder: False}', 'layered is %s with %s' % ([x for x, _ in la], [evargs(e, 1) for _, e in la]), w)
        s3 = stepped(fr, 'compile_step_3')
        ctx.ob('primitive:%s:step3' % key, [x for x, _ in s3] == ['LC'], 'optimised is %s' % [x for x, _ in s3], w)

        def sel(ev, f):
            return {'reorder_ir_inputs': 'reorder', 'compile_step_2': 'step2'}.get(ev.canon.rsplit('::', 1)[-1])

        def it_(it, f):
            return 'set' if it[0] == 'st' and str(it[4]).endswith('circuits{0}.outputs') else None
        bad = auto.within(auto.NFA(fr, sel, items=it_), {(0, 'reorder'): 1, (1, 'set'): 2, (2, 'step2'): 3}, 0, {3, 0, 1, 2} if False else {3})
        ctx.ob('primitive:%s:order' % key, bad is None, 'the circuit is put together in the order %s' % (bad,), w)
    # the arguments, padded
    ro = evs(fr, 'reorder_ir_inputs')
    sh = elems_(undv(ro[0].args[1])) if len(ro) == 1 else []
    want = ([['psi[*].Some.0']] if io[0] else []) + ([['pso[*].Some.0']] if io[1] else []) + ([['arr(%s)' % NH]] if hints else [])
    ctx.ob('primitive:%s:reordered' % key, len(ro) == 1 and S(ro[0].args[0]) == 'HL' and sh == sorted(x[0] for x in want), 'the circuit is reordered by %s' % sh, w)
    psh = [it for _f, _b, it in items(fr, 'push')]
    src_ = {IN: 'psi', OUT: 'pso'}
    lines = [('hints' if 'HS.circuits' in values(it[4])[-1] or any('HS.circuits' in z for z in values(it[4])) else S(it[4])) for it in psh]

    def it2(it, f):
        if it[0] != 'push':
            return None
        s = S(it[4])
        return 'h' if s == 'arr(%s)' % NH else 'i' if s == 'psi[*].Some.0' else 'o' if s == 'pso[*].Some.0' else None

    def ev2(ev, f):
        return 'reorder' if ev.canon.endswith('reorder_ir_inputs') else None
    if io == BOTH or hints:
        bad = auto.within(auto.NFA(fr, ev2, items=it2), {(0, 'i'): 0, (0, 'o'): 1, (1, 'o'): 1, (0, 'h'): 2, (1, 'h'): 2, (0, 'reorder'): 3, (1, 'reorder'): 3, (2, 'reorder'): 3}, 0, {3})
        ctx.ob('primitive:%s:sequence' % key, bad is None, 'the shapes are put in the order %s' % (bad,), w)
    for it in [it for _f, _b, it in items(fr, 'zip')]:
        ctx.ob('primitive:%s:zip' % key, all(z.op not in ('part', 'cut', 'rev') for x in it[3:5] if isinstance(x, T) for z in walk(x)), 'only some of the arguments are padded', w)
    r = undv(fr.ret)
    r = undv(r.a[3]) if r.op == 'agg' and r.a[1] == 'Ok' else r
    hs = S(fld_(r, 'hint_solver'))
    ctx.ob('primitive:%s:result' % key, r.op == 'agg' and r.a[0] == KN + 'Kernel' and hs == ('Option::Some{0: HS}' if hints else 'Option::None{}') and S(fld_(r, 'layered_circuit')) == 'LC3' and S(fld_(r, 'layered_circuit_input')) == 'RI', 'the kernel is %s' % S(r), w)


def summands(t):
    t = undv(t)
    if t.op == 'bin' and t.a[0] == 'Add':
        return summands(t.a[1]) + summands(t.a[2])
    return [t]


def reorder(ctx):
    """the inputs of the hint-less circuit, padded and laid out by decreasing size"""
    g = run(ctx, KN + 'reorder_ir_inputs', ('r', 'ps'), pats=tuple(x for x in KOPQ if 'reorder' not in x))
    if not g:
        return
    b, I, fr = g
    w = where(b)
    N = "part(shape::shape_vec_padded_len(ps[*]), 'sorted')"
    IDX = "part(eidx(src(ps)), 'sorted')"
    MAP = 'InputMapping::mapping(shape::shape_padded_mapping(ps[%s]))' % IDX
    ac = {}
    for t in [z for x in frames(fr) for z in accmap(x)]:
        ac[S(t)] = acc_of(fr, t)
    at0 = {n for n, v in ac.items() if v == ('0', N)}
    sts = [it for _f, _b, it in items(fr, 'st')]
    off = [it for it in sts if str(it[4]).endswith('.offset')]
    ln = [it for it in sts if str(it[4]).endswith('.len')]
    el = [it for it in sts if undv(it[2]).op == 'agg' and undv(it[2]).a[0].endswith('LayeredCircuitInputVec')]
    if len(el) == 1 and not off and not ln:
        off = [it[:2] + (fld_(it[2], 'offset'),) + it[3:] for it in el]
        ln = [it[:2] + (fld_(it[2], 'len'),) + it[3:] for it in el]
    ctx.ob('reorder:offset', len(off) == 1 and S(off[0][1][0]) == IDX and S(off[0][2]) in at0, 'an argument is put at %s' % [S(it[2]) for it in off], w)
    ctx.ob('reorder:len', len(ln) == 1 and S(ln[0][1][0]) == IDX and S(ln[0][2]) == N, 'an argument takes %s' % [S(it[2]) for it in ln], w)
    mp = [it for it in sts if any('shape_padded_mapping' in S(x) for x in it[1])]
    ok = len(mp) == 1 and len(mp[0][1]) == 1
    if ok:
        i_ = sorted(S(x) for x in summands(mp[0][1][0]))
        v_ = sorted(S(x) for x in summands(mp[0][2]))
        ok = i_ == sorted(['1', 'eidx(src(%s))' % MAP, 'phi{0 | red(Add, 0, shape::shape_vec_len(ps[*]))}']) and len(v_) == 3 and '1' in v_ and MAP + '[*]' in v_ and any(x in at0 for x in v_)
    ctx.ob('reorder:mapping', ok, 'the variable %s becomes %s' % ([S(x) for it in mp for x in it[1]], [S(it[2]) for it in mp]), w)
    src_ = [S(it[2].a[1]) for _f, _b, it in items(fr, 'nxt')]
    ctx.ob('reorder:sizes', any(x == 'src(seq( + tup(%s, %s)))' % (N, IDX) for x in src_) and any(x == 'src(seq( + tup(shape::shape_vec_len(ps[*]), eidx(src(ps)))))' for x in src_) or any('shape_vec_len' in S(z) for x in ac.values() if x for z in [x[1]]),
           'arguments are taken from %s' % src_, w)
    ni = set_('num_inputs', sts)
    ctx.ob('reorder:inputs', ni == ['red(Add, 0, %s)' % N], 'the circuit has %s inputs' % ni, w)
    rv = evs(fr, 'replace_vars')
    ok = len(rv) == 1 and S(rv[0].args[0]) == 'r.circuits{0}.instructions[*]' and undv(rv[0].args[1]).op == 'clo'
    if ok:
        cb = ctx.body(undv(rv[0].args[1]).a[0])
        J, f2 = counterfactual(ctx, cb, names=['env', 'x'], args={0: mk('clo', undv(rv[0].args[1]).a[0], sym('table'))}, nonempty=ALL)
        ok = f2.ret is not None and S(f2.ret) == 'table[x]'
        why = S(f2.ret)
    ctx.ob('reorder:instructions', ok, 'instructions are rewritten as %s by %s' % ([S(x.args[0]) for x in rv], why), w)
    insn = [undv(it[2]) for it in sts if str(it[4]).endswith('circuits{0}.instructions')]
    ctx.ob('reorder:stored', len(insn) == 1 and insn[0].op == 'seq' and all('Instruction::replace_vars(' in x[:40] for x in elems_(insn[0])), 'the instructions are %s' % [[y[:200] for y in elems_(x)] for x in insn], w)
    tp = [it for _f, _b, it in items(fr, 'push') if S(it[3]).startswith('seq(rep(0, ')]
    ok = len(tp) == 1
    if ok:
        v_ = sorted(S(x) for x in summands(tp[0][4]))
        n_ = [x for x in v_ if x in ac]
        ok = len(v_) == 2 and '1' in v_ and len(n_) == 1 and counter1(fr, n_[0])
        r_ = undv(tp[0][4])
        if r_.op == 'ridx' and 'Inclusive' not in str(r_.a[2]):
            # the next numbers, as many as the counter grows by
            lo, hi = (sorted(S(x) for x in summands(y)) for y in r_.a[:2])
            n_ = [x for x in lo if x in ac]
            by = [x for x in hi if x not in lo]
            ok = len(lo) == 2 and '1' in lo and len(n_) == 1 and len(hi) == 3 and all(x in hi for x in lo) and len(by) == 1 and ac[n_[0]] and ac[n_[0]][1] == by[0]
        ok = ok and S(tp[0][3]).startswith('seq(rep(0, (r.circuits{0}.num_inputs Add 1))')
    ctx.ob('reorder:outputs', ok, 'the outputs of an instruction become %s' % [S(it[4]) for it in tp], w)
    for n in ('constraints', 'outputs'):
        v = set_(n, sts)
        if not v:
            v = ['seq( + %s)' % S(it[2]) for it in sts if str(it[4]).endswith('circuits{0}.%s[*]' % n) and 'InputMapping::mapping(' in S(it[2])]
        ctx.ob('reorder:' + n, len(v) == 1 and any(S(x) == 'src(r.circuits{0}.%s)' % n for x in sources(fr)) and v[0].startswith('seq( + '), 'the %s are %s' % (n, [x[:200] for x in v]), w)
    bad = [S(x) for x in sources(fr) if any(z.op in ('rev', 'cut') or z.op == 'part' and 'sorted' not in show(z.a[1]) for z in walk(x))]
    ctx.ob('reorder:all', not bad, 'only a part is taken of %s' % bad, w)


def counter1(fr, name):
    """does this counter grow by one at a time"""
    for f in frames(fr):
        for a_, v in accmap(f).items():
            if S(a_) == name and v.op == 'red' and v.a[0] == 'Add' and S(v.a[2]) == '1':
                return True
    return False


def set_(field, sts):
    return [S(it[2]) for it in sts if str(it[4]).endswith('circuits{0}.' + field)]


def check(ctx):
    states(ctx)
    compat(ctx)
    memories(ctx)
    calls(ctx)
    propagate(ctx)
    graph(ctx)
    witness(ctx)
    kernels(ctx)
    reorder(ctx)
