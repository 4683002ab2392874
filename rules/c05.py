"""The compile pipeline loses no input mapping, validation or error.  Every step of compilation is abstractly interpreted once
per configuration (optimisation level, fan-out limit, random combination, cross-layer relay) with the passes opaque, so that the
returned circuit and the returned input mapping become terms over the passes that produced them; the sequence of passes that
renumber inputs is read off both terms and compared, required passes are looked for, and every fallible call is assumed to fail."""
from rules.assume import *
from rules.c13 import walk, fieldmap
from rules.c09 import cname, result, only_iteration, where, plain0, alts, reads, unconditional

RULE = 'passes on the chain of the returned circuit == mappings composed into the returned mapping, per configuration; a failing call makes compilation fail'
CO = EC + 'compile::'
OPT = 'core::option::Option'
OPTS = CO + 'CompileOptions'
KNOWN = {'remove_unreachable', 'reassign_duplicate_sub_circuit_outputs', 'detect_chains', 'export_constraints', 'solve_duplicates', 'solve_mul_fanout_limit', 'split_to_single_layer', 'process',
         'optimize_until_fixed_point', 'remove_and_export_hints'}


def last(p):
    return str(p).rsplit('::', 1)[-1]


def options(P, lvl, limit):
    fs = tuple(f[0] for f in P.adts[OPTS]['variants'][0]['fields'])
    lim = mk('agg', OPT, 'Some', ('0',), limit) if limit is not None else mk('agg', OPT, 'None', ())
    return mk('agg', OPTS, 'CompileOptions', fs, *[{'mul_fanout_limit': lim, 'opt_level': k(lvl)}.get(f, fld(sym('options'), f)) for f in fs])


def opaques(P):
    return tuple(p for p in P.bodies if not p.startswith(CO) or last(p) == 'optimize_until_fixed_point' or last(p).startswith(('print_', 'compile_step')))


def go(ctx, b, names, opts=None, rnd=None, relay=None, fail=None, opaque=None, rels=()):
    P = ctx.prog

    def fn(t):
        if t.op in ('cparam', 'cdef'):
            n = last(t.a[0])
            if n == 'ENABLE_RANDOM_COMBINATION' and rnd is not None:
                return k(rnd)
            if n == 'CROSS_LAYER_RELAY' and relay is not None:
                return k(relay)
        if t.op == 'call' and fail is not None and fail(t):
            return result('Err', sym('failure'))
    args = {names.index('options'): opts} if opts is not None else None
    return counterfactual(ctx, b, rels=list(rels), fn=fn, names=names, args=args, opaque=opaque or opaques(P), mutout=lambda p: True)


def okvals(I, fr):
    """what a successful return carries"""
    if fr.ret is None:
        return []
    return [undv(z.a[3]) for z in alts(undv(ret(I, fr))) if z.op == 'agg' and z.a[1] == 'Ok']


class Bad(Exception):
    pass


def call_of(t):
    """the pass call a circuit term is a result of"""
    t = undv(t)
    if t.op == 'fld' and t.a[1] in ('0', 'Ok.0', 'Ok.0.0'):
        return undv(t.a[0])
    return t


def chain(t, stop):
    """passes from the circuit term back to where it came from: [(pass, call term)] newest first"""
    out = []
    n = 0
    while True:
        n += 1
        t = undv(t)
        if t is stop:
            return out
        if n > 60:
            raise Bad('chain too long')
        if t.op == 'mut':
            out.append((last(t.a[0]), t))
            t = undv(t.a[2])
            continue
        c = t
        if c.op == 'fld' and c.a[1] in ('0', 'Ok.0'):
            c = undv(c.a[0])
        if c.op == 'fld' and c.a[1] == 'Ok.0':
            c = undv(c.a[0])
        if c.op == 'call' and len(c.a) > 1:
            nm = cname(c)
            if nm == 'clone':
                t = c.a[1]
                continue
            out.append((nm, c))
            t = undv(c.a[1])
            continue
        raise Bad('circuit comes from %s' % show(t)[:160])


def imchain(t, stop):
    """input mappings composed, newest first"""
    out = []
    while True:
        t = undv(t)
        if t.op == 'mut' and last(t.a[0]) == 'compose_in_place':
            out.append(undv(t.a[3]))
        elif t.op == 'mut' and last(t.a[0]) == 'optimize_until_fixed_point' and t.a[1] == 1:
            out.append(t)
        elif t.op == 'call' and cname(t) == 'compose':
            out.append(undv(t.a[2]))
            t = undv(t.a[1])
            continue
        elif stop(t):
            return out
        else:
            raise Bad('mapping comes from %s' % show(t)[:160])
        t = undv(t.a[2])


def match_maps(steps, maps):
    """every renumbering pass of the chain has its mapping composed, in order"""
    need = [(n, c) for n, c in steps if n in ('remove_unreachable', 'optimize_until_fixed_point')]
    if len(need) != len(maps):
        return '%d passes renumber inputs but %d mappings are composed' % (len(need), len(maps))
    for (n, c), m in zip(need, maps):
        if n == 'remove_unreachable':
            if not (m.op == 'fld' and m.a[1] == '1' and undv(m.a[0]) is c):
                return 'the mapping of %s is not the one composed (%s)' % (n, show(m)[:120])
        else:
            x, f = undv(c.a[1]), undv(c.a[3])
            if not (m.op == 'mut' and undv(m.a[3]) is x and undv(m.a[4]) is f and undv(c.a[2]) is undv(m.a[2])):
                return 'the mapping accumulated by the fixed-point optimisation is not the one returned'
    return None


def closures(steps):
    return {undv(c.a[3]).a[0] for n, c in steps if n == 'optimize_until_fixed_point' and undv(c.a[3]).op == 'clo'}


def check(ctx):
    P = ctx.prog
    n = 0
    if not ctx.need(OPTS in P.adts, 'CompileOptions', 'compilation options'):
        return
    clos = set()
    n += check_options(ctx)
    n += check_step(ctx, 'compile_step_1', ['src', 'options'], 'src', clos)
    n += check_step(ctx, 'compile_step_2', ['hl', 'options'], 'hl', clos)
    n += check_step3(ctx)
    n += check_step4(ctx, clos)
    n += check_top(ctx)
    n += check_closures(ctx, clos)
    n += check_fixpoint(ctx)
    n += check_mapping(ctx)
    ctx.floor('configurations', n, 60)
    ctx.floor('fixed-point bodies', len(clos), 5)


def check_options(ctx):
    P = ctx.prog
    b = ctx.body(OPTS + '::validate')
    if b is None:
        return 0
    n = 0
    for lvl in (0, 1, 2, 3, 4, 5, 100):
        for lim in (None, 0, 1, 2, 3, 1000):
            n += 1
            I, fr = counterfactual(ctx, b, names=['self'], mem={sym('self'): options(P, lvl, k(lim) if lim is not None else None)})
            want = 1 <= lvl <= 3 and (lim is None or lim > 1)
            got = success(I, fr)
            ctx.ob('options:%d:%s' % (lvl, lim), got == want, 'optimisation level %d with fan-out limit %s is %s' % (lvl, lim, 'accepted' if got else 'rejected'), where(b))
    # setters
    fs = [f[0] for f in P.adts[OPTS]['variants'][0]['fields']]
    for m, f, w in (('with_mul_fanout_limit', 'mul_fanout_limit', lambda t: t.op == 'agg' and t.a[1] == 'Some' and undv(t.a[3]) is sym('v')), ('without_input_reorder', 'allow_input_reorder', lambda t: is_k(t, False)), ('with_opt_level', 'opt_level', lambda t: t is sym('v'))):
        b = ctx.body(OPTS + '::' + m)
        if b is None:
            continue
        n += 1
        I, fr = counterfactual(ctx, b, names=['self', 'v'][:b.argc if hasattr(b, 'argc') else 2])
        r = undv(ret(I, fr)) if fr.ret is not None else None
        good = r is not None
        for g in fs:
            v = getf(r, g)
            good = good and v is not None and (w(v) if g == f else v is fld(sym('self'), g))
        ctx.ob('setter:' + m, good, '%s gives %s' % (m, show(r)[:160] if r is not None else None), where(b))
    return n


def getf(t, f):
    t = undv(t)
    if t.op == 'agg':
        return undv(fieldmap(t)[f]) if f in fieldmap(t) else None
    if t.op == 'upd':
        d = {m if isinstance(m, str) else m[0]: v for m, v in t.a[1]}
        return undv(d[f]) if f in d else getf(t.a[0], f)
    return fld(t, f)


def fallible(fr):
    """calls whose failure the function can observe, by path and first argument"""
    seen = {}
    for e in events(fr):
        ty = rettype(e)
        if ty.startswith('core::result::Result<') or ty.startswith('std::result::Result<') or ty.startswith('Result<'):
            seen.setdefault(undv(e.ret), e)
    return seen


def rettype(e):
    b = e.fr.body
    p = e.fr.interp.p.bodies.get(e.path)
    if p is None:
        return ''
    return e.fr.interp.p.tystr(p.crate, p.locals[0][0])


def errors(ctx, b, names, tag, **kw):
    """each fallible call, assumed to fail, makes the function fail"""
    I, fr = go(ctx, b, names, **kw)
    n = 0
    cnt = {}
    for c, e in fallible(fr).items():
        nm = last(e.path)
        i = cnt[nm] = cnt.get(nm, 0) + 1
        I2, fr2 = go(ctx, b, names, fail=lambda t, c=c: t is c, **kw)
        n += 1
        ctx.ob('%s:error:%s%d' % (tag, nm, i), not success(I2, fr2), 'compilation goes on although %s failed' % nm, '%s:%s' % (b.file, e.line))
    return n


def validated(fr, t):
    """a check of exactly this circuit"""
    return [e for e in events(fr) if last(e.path) == 'validate' and any(undv(z) is t for z in e.args)]


def check_step(ctx, name, names, src, clos):
    P = ctx.prog
    b = ctx.body(CO + name)
    if b is None:
        return 0
    S = sym(src)
    n = 0
    for lvl in (1, 2, 3):
        for lim in ((None, sym('limit')) if name == 'compile_step_2' else (None,)):
            for rnd in ((True, False) if name == 'compile_step_2' else (None,)):
                for relay in ((True, False) if name == 'compile_step_2' else (None,)):
                    n += 1
                    tag = '%s:O%d%s%s%s' % (name[8:], lvl, ':limit' if lim is not None else '', '' if rnd is None else ':rnd' if rnd else ':det', '' if relay is None else ':relay' if relay else ':single')
                    cfg = dict(opts=options(P, lvl, lim), rnd=rnd, relay=relay)
                    I, fr = go(ctx, b, names, **cfg)
                    ok = okvals(I, fr)
                    if not ctx.ob(tag + ':result', len(ok) == 1 and ok[0].op == 'tup' and len(ok[0].a) == 2, 'the step yields %s' % [show(z)[:200] for z in ok], where(b)):
                        continue
                    circ, im = undv(ok[0].a[0]), undv(ok[0].a[1])
                    try:
                        st = chain(circ, S)
                        maps = imchain(im, lambda t: t.op == 'call' and cname(t) == 'new_identity' and undv(t.a[1]).op == 'call' and cname(undv(t.a[1])) == 'input_size' and origin(undv(t.a[1]).a[1]) is S)
                    except Bad as e:
                        ctx.ob(tag + ':chain', False, str(e), where(b))
                        continue
                    clos |= closures(st)
                    unknown = [x for x, c in st if x not in KNOWN]
                    ctx.ob(tag + ':passes', not unknown, 'unknown passes %s' % unknown, where(b))
                    m = match_maps(st, maps)
                    ctx.ob(tag + ':mapping', m is None, m or '', where(b))
                    nms = [x for x, c in st][::-1]
                    if name == 'compile_step_1':
                        need = ['process']
                    else:
                        need = ['process'] + (['solve_mul_fanout_limit'] if lim is not None else []) + ([] if rnd else ['export_constraints']) + ([] if relay else ['split_to_single_layer']) + ['solve_duplicates']
                    got = [x for x in nms if x in ('process', 'solve_mul_fanout_limit', 'export_constraints', 'split_to_single_layer', 'solve_duplicates')]
                    ctx.ob(tag + ':required', sorted(got) == sorted(need) and got[0] == 'process' and (name == 'compile_step_1' or got[-1] == 'solve_duplicates'), 'the passes are %s' % nms, where(b))
                    for x, c in st:
                        if x == 'solve_mul_fanout_limit':
                            ctx.ob(tag + ':limit', undv(c.a[2]) is lim, 'the fan-out limit applied is %s' % show(c.a[2])[:80], where(b))
                    # what is lowered and what is returned has been validated
                    pc = [c for x, c in st if x == 'process']
                    ctx.ob(tag + ':validated', bool(validated(fr, circ)), 'the circuit returned is not the one last validated', where(b))
                    ctx.ob(tag + ':validated-before-lowering', all(validated(fr, undv(c.a[1])) for c in pc), 'the circuit handed to the lowering has not been validated', where(b))
                    n += errors(ctx, b, names, tag, **cfg)
    return n


def origin(t):
    t = undv(t)
    while t.op == 'call' and cname(t) == 'clone' or t.op == 'mut':
        t = undv(t.a[2] if t.op == 'mut' else t.a[1])
    return t


def check_step3(ctx):
    P = ctx.prog
    b = ctx.body(CO + 'compile_step_3')
    if b is None:
        return 0
    n = 0
    for lvl in (1, 2, 3):
        n += 1
        cfg = dict(opts=options(P, lvl, None))
        tag = 'step_3:O%d' % lvl
        I, fr = go(ctx, b, ['lc', 'options'], **cfg)
        ok = okvals(I, fr)
        vs = [undv(e.args[0]) for e in events(fr) if last(e.path) == 'validate']
        ctx.ob(tag + ':validated-in', sym('lc') in vs, 'the layered circuit is not validated before it is optimised', where(b))
        good = len(ok) == 1
        sh = []
        for t in ok:
            t = undv(t)
            sh.append(show(t)[:160])
            srt = 0
            while t.op == 'mut' and last(t.a[0]) == 'sort_everything':
                t = undv(t.a[2])
                srt += 1
            good &= t in vs
        ctx.ob(tag + ':validated-out', good, 'the layered circuit returned (%s) is not the one last validated' % sh, where(b))
        names = {last(e.path) for e in events(fr)} - {'validate', 'prepend'}
        ctx.ob(tag + ':passes', names <= {'dedup_gates', 'expand_small_segments', 'find_common_parts', 'sort_everything'}, 'passes %s' % sorted(names), where(b))
        n += errors(ctx, b, ['lc', 'options'], tag, **cfg)
        # the optimisation loop only stops when a round changes nothing
        def never(t):
            return k(False) if t.op == 'bin' and t.a[0] == 'Eq' and all(isinstance(z, T) and not isinstance(kval(undv(z)), int) for z in t.a[1:]) else None
    return n


def check_step4(ctx, clos):
    P = ctx.prog
    b = ctx.body(CO + 'compile_step_4')
    if b is None:
        return 0
    n = 0
    names = ['he', 'im', 'options']
    for lvl in (1, 2, 3):
        n += 1
        cfg = dict(opts=options(P, lvl, None))
        tag = 'step_4:O%d' % lvl
        I, fr = go(ctx, b, names, **cfg)
        ok = okvals(I, fr)
        try:
            good = len(ok) == 1
            st = chain(ok[0], sym('he')) if ok else []
            clos |= closures(st)
            ims = [I.snap(fr.exit_state, v) for r, v in fr.exit_state.v.items() if isinstance(r, tuple) and r and r[0] == 'M' and r[1] is sym('im')]
            fin = [z for v in ims for z in alts(undv(v)) if undv(z) is not sym('im')] if st else []
            m = 'no mapping' if st and len(fin) != 1 else match_maps(st, imchain(fin[0], lambda t: t is sym('im'))) if st else None
            ctx.ob(tag + ':mapping', good and m is None, m or '', where(b))
            ctx.ob(tag + ':passes', all(x in KNOWN for x, c in st), 'passes %s' % [x for x, c in st], where(b))
        except Bad as e:
            ctx.ob(tag + ':chain', False, str(e), where(b))
        n += errors(ctx, b, names, tag, **cfg)
    return n


def check_top(ctx):
    P = ctx.prog
    b = ctx.body(CO + 'compile_with_options')
    if b is None:
        return 0
    n = 0
    names = ['src', 'options']
    # options are validated first
    vp = OPTS + '::validate'
    opq = opaques(P) + (vp,)
    I, fr = go(ctx, b, names, opaque=opq)
    evs = [last(e.path) for e in events(fr)]
    ov = [e for e in events(fr) if e.path == vp]
    ctx.ob('options-validated', len(ov) == 1 and undv(ov[0].args[0]) is sym('options') and evs.index('validate') == 0, 'calls: %s' % evs, where(b))
    n += errors(ctx, b, names, 'compile', opaque=opq)
    calls = {}
    for e in events(fr):
        calls.setdefault(last(e.path), []).append(e)

    def one(nm):
        c = calls.get(nm, [])
        if not ctx.need(len(c) == 1, 'call:' + nm, '%d calls of %s' % (len(c), nm)):
            return None
        return c[0]
    s1, s2, s3, s4, ex, la, ab, mi = [one(x) for x in ('compile_step_1', 'compile_step_2', 'compile_step_3', 'compile_step_4', 'remove_and_export_hints', 'compile', 'add_back_removed_inputs', 'map_inputs')]
    if None in (s1, s2, s3, s4, ex, la, ab, mi):
        return n
    R = lambda e, i: fld(fld(undv(e.ret), 'Ok.0'), str(i))
    O = sym('options')
    origin_ = lambda t: origin(t)

    def ob(tag, good, msg):
        nonlocal n
        n += 1
        ctx.ob('compile:' + tag, good, msg, where(b))
    ob('step_1', undv(s1.args[0]) is sym('src') and origin(s1.args[1]) is O, 'step 1 runs on %s' % [show(z)[:80] for z in s1.args])
    ob('hints', undv(ex.args[0]) is R(s1, 0), 'hints are exported from %s' % show(ex.args[0])[:80])
    ob('step_2', undv(s2.args[0]) is fld(undv(ex.ret), '0') and origin(s2.args[1]) is O, 'step 2 runs on %s' % [show(z)[:80] for z in s2.args])
    lo = undv(la.args[1])
    ob('layering', undv(la.args[0]) is R(s2, 0) and getf(lo, 'allow_input_reorder') is fld(O, 'allow_input_reorder'), 'layering runs on %s' % [show(z)[-80:] for z in la.args])
    ob('step_3', undv(s3.args[0]) is fld(undv(la.ret), '0') and origin(s3.args[1]) is O, 'step 3 runs on %s' % [show(z)[:80] for z in s3.args])
    # final order of the inputs
    try:
        maps = imchain(mi.args[0], lambda t: t is R(s2, 1))
        ob('input-order', len(maps) == 1 and maps[0] is fld(undv(la.ret), '1'), 'the final input order composes %s' % [show(m)[:100] for m in maps])
    except Bad as e:
        ob('input-order', False, str(e))
    c0 = undv(mi.args[1])
    hx = fld(undv(ex.ret), '1')
    iso = c0.op == 'fld' and c0.a[1] == 'outputs' and undv(c0.a[0]).op in ('get', 'at') and undv(undv(c0.a[0]).a[0]) is fld(hx, 'circuits') and is_k(undv(undv(c0.a[0]).a[1]), 0)
    ob('reordered', iso, 'the outputs reordered are %s' % show(c0)[-120:])
    # the exported circuit outputs the reordered values, a removed input becoming variable 1
    def exported(fr):
        """elements of the outputs of the circuit step 4 starts from"""
        e4 = [e for e in events(fr) if last(e.path) == 'compile_step_4']
        t = undv(e4[0].args[0]) if len(e4) == 1 else None
        if t is not None and t.op == 'upd' and undv(t.a[0]) is hx:
            d = dict(t.a[1])
            sq = undv(d['circuits']) if set(d) == {'circuits'} else None
            if sq is not None and sq.op == 'seq':
                for z in alts(undv(sq.a[1])):
                    z = undv(z)
                    if z.op == 'tup' and is_k(undv(z.a[0]), 0):
                        u = undv(z.a[1])
                        if u.op == 'upd' and set(dict(u.a[1])) == {'outputs'}:
                            return [undv(x) for e in elems(undv(dict(u.a[1])['outputs'])) for x in alts(undv(e))]
        return None
    el = elem(undv(mi.ret))
    for tag, rel in (('removed', Rel(lambda x: x is el, 'eq', 0)), ('present', Rel(lambda x: x is el, 'ge', 1))):
        I2, fr2 = go(ctx, b, names, opaque=opq, rels=[rel])
        es = exported(fr2)
        good = bool(es)
        for e in es or ():
            if e.op == 'call' and cname(e) == 'max' and {undv(z) for z in e.a[1:]} == {el, k(1)}:
                continue
            good &= is_k(e, 1) if tag == 'removed' else e is el
        ob('outputs:' + tag, good, 'an output that is %s after reordering is exported as %s' % (tag, [show(e)[:80] for e in es or ()]))
    im1 = R(s1, 1)
    ob('step_4', undv(s4.args[1]) is im1 and origin(s4.args[2]) is O, 'step 4 runs with %s' % [show(z)[:80] for z in s4.args[1:]])
    ok = okvals(I, fr)
    good = len(ok) == 1 and ok[0].op == 'tup'
    if good:
        ws, lc = undv(ok[0].a[0]), undv(ok[0].a[1])
        ob('layered', lc is fld(undv(s3.ret), 'Ok.0'), 'the layered circuit returned is %s' % show(lc)[:100])
        fin = ws.op == 'mut' and last(ws.a[0]) == 'add_back_removed_inputs' and undv(ws.a[2]) is fld(undv(s4.ret), 'Ok.0')
        im = undv(ws.a[3]) if fin else None
        fin = fin and im.op == 'mut' and last(im.a[0]) == 'compile_step_4' and im.a[1] == 1 and undv(im.a[2]) is im1
        ob('witness-solver', fin, 'the witness circuit returned is %s' % show(ws)[:200])
        ob('validated', bool(validated(fr, ws)), 'the witness circuit returned is not the one last validated')
    else:
        ob('result', False, 'compilation yields %s' % [show(z)[:100] for z in ok])
    return n


def check_closures(ctx, clos):
    """a round of the fixed-point optimisation returns the mapping of exactly the renumbering it did"""
    P = ctx.prog
    n = 0
    for p in sorted(clos):
        b = P.bodies.get(p)
        tag = 'round:' + p.replace(CO, '')
        if not ctx.need(b is not None, tag, 'body of an optimisation round'):
            continue
        n += 1
        I, fr = go(ctx, b, ['env', 'r'])
        r = undv(ret(I, fr)) if fr.ret is not None else None
        if not ctx.ob(tag + ':result', r is not None and r.op == 'tup' and len(r.a) == 2, 'a round yields %s' % (show(r)[:120] if r is not None else None), where(b)):
            continue
        try:
            st = chain(r.a[0], sym('r'))
        except Bad as e:
            ctx.ob(tag + ':chain', False, str(e), where(b))
            continue
        ru = [c for x, c in st if x == 'remove_unreachable']
        m = undv(r.a[1])
        good = len(ru) == 1 and m.op == 'fld' and m.a[1] == '1' and undv(m.a[0]) is ru[0]
        ctx.ob(tag + ':mapping', good, 'the mapping returned is %s for passes %s' % (show(m)[:100], [x for x, c in st]), where(b))
        ctx.ob(tag + ':passes', all(x in KNOWN for x, c in st), 'passes %s' % [x for x, c in st], where(b))
    return n


def check_fixpoint(ctx):
    """every round whose circuit is kept has its mapping composed; the circuit returned is the last one kept"""
    import auto
    P = ctx.prog
    b = ctx.body(CO + 'optimize_until_fixed_point')
    if b is None:
        return 0
    names = ['x', 'im', 'f']

    def run(eq=None):
        def fn(t):
            if t.op == 'bin' and t.a[0] == 'Eq' and eq is not None:
                return k(eq)
        return counterfactual(ctx, b, fn=fn, names=names, opaque=opaques(P))
    I, fr = run()
    isf = lambda e: e.canon == 'indirect' or e.path == 'f' or 'indirect' in str(e.canon)
    rounds = [e for e in events(fr) if isf(e)]
    comp = [e for e in events(fr) if last(e.path) in ('compose_in_place', 'compose')]
    ctx.need(bool(rounds), 'fixpoint', 'calls of the optimisation round')

    def sel(e, f_):
        if isf(e):
            return 'F'
        if last(e.path) in ('compose_in_place', 'compose'):
            return 'C'
    a = auto.NFA(fr, sel, prune_err=False)
    # F | F C (F C)* F
    bad = auto.within(a, {(0, 'F'): 1, (1, 'C'): 2, (2, 'F'): 1}, 0, {1})
    ctx.ob('fixpoint:order', bad is None, 'rounds (F) and compositions (C) can happen in the order %s' % ' '.join(bad or ()), where(b))
    good = bool(comp)
    for e in comp:
        m = undv(e.args[1])
        good &= m.op == 'fld' and m.a[1] == '1' and undv(m.a[0]) in [undv(r.ret) for r in rounds]
    ctx.ob('fixpoint:composed', good, 'the mappings composed are %s' % [show(e.args[1])[:80] for e in comp], where(b))
    I, fr = run(False)
    ctx.ob('fixpoint:stops', fr.ret is None, 'the optimisation stops although a round changed the circuit', where(b))
    I, fr = run(True)
    comp = [e for e in events(fr) if last(e.path) in ('compose_in_place', 'compose')]
    ctx.ob('fixpoint:unchanged', fr.ret is not None and not comp, 'a round that changes nothing composes a mapping', where(b))
    return 4


def check_mapping(ctx):
    """composition and application of input mappings"""
    P = ctx.prog
    IM = EC + 'circuit::input_mapping::InputMapping::'
    EM = EC + 'circuit::input_mapping::EMPTY'
    S, O = sym('self'), sym('other')
    n = 0
    b = ctx.body(IM + 'compose_in_place')
    emp = lambda t: t.op in ('cdef', 'cparam') and last(t.a[0]) == 'EMPTY' or isinstance(kval(t), int) and kval(t) == (1 << 64) - 1 >> 9

    def case(empty):
        def fn(t):
            if t.op == 'bin' and t.a[0] == 'Eq' and any(emp(undv(z)) for z in t.a[1:]):
                w = [undv(z) for z in t.a[1:] if not emp(undv(z))]
                if len(w) == 1 and current(w[0], S):
                    return k(empty)
        return fn
    def decided(c):
        return c.op == 'k' or c.op == 'cdef' and c.a[0] == 'assumed' or not any(z.op in ('elem', 'at', 'get', 'ridx', 'eidx') for z in walk(c))

    def always(it):
        return not [c for c, v in conds(it) if not decided(c) and not (c.op == 'bin' and any(isinstance(z, T) and emp(undv(z)) for z in c.a) and any(isinstance(z, T) and current(z, S) for z in c.a))]

    def conds(it):
        return [(undv(c), v) for c, v in only_iteration(it[3] if it[0] == 'st' else it[5]) if isinstance(undv(c), T)]
    for nm, inplace in (('compose_in_place', True), ('compose', False)):
        b = ctx.body(IM + nm)
        if b is None:
            continue
        for empty in (True, False):
            n += 1
            I, fr = counterfactual(ctx, b, fn=case(empty), nonempty=lambda s: True, names=['self', 'other'])
            if inplace:
                sts = [it for f, _b, it in items(fr, 'st')]
                sts = [it for it in sts if base_is(undv(it[4]), fld(S, 'mapping'))]
                vals = [undv(it[2]) for it in sts]
                full = all(always(it) for it in sts)
            else:
                ps = [it for f, _b, it in items(fr, 'push')]
                full = all(always(it) for it in ps)
                vals = [undv(z) for r in [undv(ret(I, fr))] for z in elems(getf(r, 'mapping'))]
            sh = [show(v)[:100] for v in vals]
            if empty:
                good = all(emp(v) or base_is(v, fld(S, 'mapping')) for v in vals)
            else:
                good = len(vals) >= 1
                for v in vals:
                    good &= v.op in ('at', 'get') and undv(v.a[0]) is fld(O, 'mapping') and current(v.a[1], S)
                if inplace:
                    # an entry is replaced by the image of that same entry
                    pos = {undv(it[4]) for f, _b, it in items(fr, 'index') if undv(it[3]) is not fld(O, 'mapping')} | {undv(undv(it[4]).a[1]) for it in sts if undv(it[4]).op == 'at'}
                    good &= len(pos) <= 1
            if not empty:
                good = good and full
            ctx.ob('%s:%s' % (nm, 'removed' if empty else 'kept'), good, 'an input that is %s maps to %s' % ('removed' if empty else 'kept', sh), where(b))
        I, fr = counterfactual(ctx, b, names=['self', 'other'])
        if inplace:
            sts = [it for f, _b, it in items(fr, 'st')]
            ns = [undv(it[2]) for it in sts if undv(it[4]).op == 'fld' and undv(it[4]).a[1] == 'next_size']
            good = len(ns) == 1 and ns[0] is fld(O, 'next_size')
            if not good:
                v = [I.snap(fr.exit_state, x) for r, x in fr.exit_state.v.items() if isinstance(r, tuple) and r and r[0] == 'M' and r[1] is S]
                good = len(v) == 1 and getf(v[0], 'next_size') is fld(O, 'next_size')
        else:
            good = getf(ret(I, fr), 'next_size') is fld(O, 'next_size')
        n += 1
        ctx.ob(nm + ':size', good, 'the composed mapping does not have the size of the second one', where(b))
    b = ctx.body(IM + 'map_inputs')
    if b is not None:
        for empty in (True, False):
            n += 1
            I, fr = counterfactual(ctx, b, fn=case(empty), nonempty=lambda s: True, names=['self', 'inputs'])
            sts = [it for f, _b, it in items(fr, 'st') if undv(it[4]).op in ('at', 'elem')]
            if empty:
                good = not sts
            else:
                good = len(sts) == 1
                for it in sts:
                    good &= always(it)
                    pl, v = undv(it[4]), undv(it[2])
                    ix = undv(pl.a[1]) if pl.op == 'at' else None
                    while v.op == 'call' and cname(v) == 'clone':
                        v = undv(v.a[1])
                    good &= ix is not None and base_is(ix, fld(S, 'mapping')) and base_is(v, sym('inputs')) and same_index(ix, v)
            ctx.ob('map_inputs:%s' % ('removed' if empty else 'kept'), good, 'inputs are placed by %s' % [(show(it[4])[:80], show(it[2])[:60]) for it in sts], where(b))
    b = ctx.body(IM + 'new_identity')
    if b is not None:
        n += 1
        I, fr = counterfactual(ctx, b, names=['n'])
        r = undv(ret(I, fr))
        mp = getf(r, 'mapping')
        es = elems(mp)
        good = getf(r, 'next_size') is sym('n') and len(es) == 1 and undv(list(es)[0]).op == 'ridx' and is_k(undv(undv(list(es)[0]).a[0]), 0) and undv(undv(list(es)[0]).a[1]) is sym('n')
        ctx.ob('new_identity', good, 'the identity mapping is %s' % show(r)[:120], where(b))
    return n


def base_is(t, coll):
    t = undv(t)
    return t.op in ('elem', 'at', 'get') and undv(t.a[0]) is coll


def current(t, S):
    """an entry of self.mapping, possibly read after earlier entries were replaced"""
    xs = [undv(z) for z in alts(undv(t))]
    own = [z for z in xs if base_is(z, fld(S, 'mapping'))]
    rest = [z for z in xs if z not in own]
    if not own and len(xs) != 1:
        return False
    return all(z.op == 'mu' and 'self' in [str(q) for q in z.a[0]] and 'mapping' in z.a[0] or own and z.op == 'at' and current(z.a[1], S) for z in rest)


def same_index(a, b):
    """two reads at the same position of their collections"""
    a, b = undv(a), undv(b)
    if a.op == 'elem' and b.op == 'elem':
        return True
    if a.op == b.op == 'at':
        return undv(a.a[1]) is undv(b.a[1]) or undv(a.a[1]).op == 'eidx' and undv(b.a[1]).op == 'eidx'
    at = a if a.op == 'at' else b
    return undv(at.a[1]).op in ('ridx', 'eidx')
