"""C16: circuit structs, memorized functions and kernels keep every variable at its place.

The macros are judged by what they expand to: the probe crate (stubs/repo/probe) uses each of them, is compiled against the
macros of the tree, and the resulting functions are evaluated symbolically.  Every mutable argument of an opaque call
becomes `mut(path, position, old value, other arguments)`, so the history of a list or hasher is a chain of such terms."""
import re
import absint as A
import auto
from terms import *
from .common import *
from .assume import *
from .c09 import only_iteration, where
from .c13 import walk

PR = 'verif_probe::'
FR = EC + 'frontend::'
SC = 'frontend::sub_circuit::'
ALL = lambda p: True


def short_(p):
    return str(p).rsplit('::', 1)[-1]


def go(ctx, path, names, args=None, opaque=(), mutout=ALL, nonempty=ALL, fn=None):
    b = ctx.body(path)
    if b is None:
        return None
    I, fr = counterfactual(ctx, b, names=list(names), args=args, opaque=tuple(p for p in opaque if p != path), mutout=mutout, nonempty=nonempty, fn=fn)
    return b, I, fr


def val(I, fr, t=None):
    t = fr.ret if t is None else t
    return undv(I.snap(fr.exit_state, t)) if t is not None and fr.exit_state is not None else None


def memof(I, fr, name):
    s = sym(name) if isinstance(name, str) else name
    for key, v in fr.exit_state.v.items():
        if key[0] == 'M' and key[1] is s:
            return undv(I.snap(fr.exit_state, v))
    return s


def chain(t):
    """(first value, [(called path, position, other arguments)]) of a value passed mutably to opaque calls one after another"""
    steps = []
    t = undv(t)
    while t.op == 'mut':
        steps.append((t.a[0], int(kval(t.a[1]) if isinstance(t.a[1], T) else t.a[1]), tuple(undv(x) for x in t.a[3:])))
        t = undv(t.a[2])
    return t, steps[::-1]


def is_empty(t):
    t = undv(t)
    return t.op == 'seq' and t.a[0] is None and undv(t.a[1]).op == 'bot' or t.op == 'arr' and not t.a


def evs(fr, name):
    return [e for e in events(fr) if short_(e.path) == name or short_(e.canon) == name]


def sitefree(t):
    def f(x):
        if x.op == 'call' and any(isinstance(y, T) and y.op == 'site' for y in x.a):
            return mk('call', *[y for y in x.a if not (isinstance(y, T) and y.op == 'site')])
        return x
    return rewrite(t, f) if isinstance(t, T) else t


def same(a, b):
    return sitefree(undv(a)) is sitefree(undv(b))


def sources(fr):
    """what the loops and iterator adapters under fr run over"""
    out = []
    for f in frames(fr):
        for b, tr in f.trace.items():
            for it in tr:
                if it[0] == 'nxt':
                    out.append(undv(it[2].a[1]))
                elif it[0] == 'fr' and it[2] and isinstance(it[2][1], T):
                    out.append(undv(it[2][1]))
    return out


def in_order(fr):
    """no loop under fr runs backwards, sorted or over a part"""
    return not any(z.op in ('rev', 'part', 'cut') for s in sources(fr) for z in walk(s))


def plain(known, fr):
    """conditions an event happens under, other than being in a loop"""
    return [c for c, v in only_iteration(known) if not (isinstance(v, str) and (undv(c).op == 'agg' or v in ('Continue', 'Ok'))) and c not in (A.A_TRUE, A.A_FALSE)]


# ---- circuit structs -------------------------------------------------------------------------------------------------
FIELDS = (('a', 1, ()), ('p', 2, ()), ('b', 1, (3,)), ('q', 2, (4,)), ('c', 1, (5, 2)), ('d', 1, (None,)), ('e', 2, (None, 6)), ('f', 1, (None, None)),
          ('h', 2, ()), ('g', 1, ()))


def field_label(t, base):
    """field name and depth of a generic element of a field of the struct, None for anything else"""
    cands = [x for x in alts(undv(t)) if not any(z.op == 'mu' for z in walk(x))]
    if len(cands) != 1:
        return None
    t = undv(cands[0])
    d = 0
    while t.op == 'elem':
        d += 1
        t = undv(t.a[0])
    if t.op != 'fld' or undv(t.a[0]) is not base:
        return None
    return t.a[1], d


def struct_(ctx):
    P = ctx.prog
    T2 = '<Probe<B> as expander_compiler::frontend::variables::DumpLoadTwoVariables<B>>::'
    base = sym('self')
    for m in ('dump_into', 'load_from'):
        g = go(ctx, PR + T2 + m, ['self', 'vars', 'public'], mutout=None)
        if not g:
            continue
        b, I, fr = g
        es = evs(fr, m)
        labels = {}
        bad = []
        for e in es:
            l = field_label(e.args[0], base)
            roots = set(re.findall(r'\b(vars|public)\b', show(e.args[1]))) if len(e.args) == 2 else ()
            cond = plain(e.known, fr)
            if l is None or len(roots) != 1 or cond:
                bad.append((l, sorted(roots), show(e.args[0])[:120], [show(c)[:60] for c in cond]))
                continue
            labels[id(e)] = (l[0], 1 if roots == {'vars'} else 2, l[1])
        ctx.ob('struct:%s:values' % m, not bad, '%s handles %s: not a whole field of the struct, not into one list, or only sometimes' % (m, bad[:3]), where(b))
        got = set(labels.values())
        want = {(f, r, len(d)) for f, r, d in FIELDS}
        ctx.ob('struct:%s:fields' % m, got == want, '%s handles (field, 1 secret / 2 public, depth) %s instead of %s' % (m, sorted(got - want), sorted(want - got)), where(b))
        # declaration order, every scalar field exactly once
        nfa = auto.NFA(fr, lambda e, f_: labels.get(id(e)), prune_err=False)
        delta = {}
        n = len(FIELDS)
        for i in range(n + 1):
            for j in range(n):
                lj = (FIELDS[j][0], FIELDS[j][1], len(FIELDS[j][2]))
                loopj = bool(FIELDS[j][2])
                # state i: fields before i are done; an array may have no elements on a path
                if j >= i and all(FIELDS[x][2] for x in range(i, j)):
                    delta[(i, lj)] = j + 1
                elif loopj and j == i - 1:
                    delta[(i, lj)] = i
        final = {i for i in range(n + 1) if all(FIELDS[x][2] for x in range(i, n))}
        cx = auto.within(nfa, delta, 0, final)
        ctx.ob('struct:%s:order' % m, cx is None and in_order(fr), '%s does not follow the declaration order: %s' % (m, cx or [show(x)[:80] for x in sources(fr) if 'rev' in show(x)]), where(b))
    g = go(ctx, PR + T2 + 'num_vars', ['self'], mutout=None)
    if g:
        b, I, fr = g
        r = val(I, fr)
        ok = r is not None and r.op == 'tup' and len(r.a) == 2
        for i, role in ((0, 1), (1, 2)):
            c, loops = count_(undv(r.a[i])) if ok else (None, None)
            # scalars and fixed arrays are plain numbers, each loop adds its contents once per element
            fixed = sum(prod(d) for f, ro, d in FIELDS if ro == role and None not in d)
            lw = sorted((loopsum(d) for f, ro, d in FIELDS if ro == role and None in d), key=repr)
            ctx.ob('struct:num_vars:%s' % ('secret' if role == 1 else 'public'), ok and c == fixed and sorted(loops, key=repr) == lw,
                   'the number of %s variables is %s: %s + %s per element, expected %s + %s' % ('secret' if role == 1 else 'public', show(r.a[i])[:120] if ok else r, c, loops, fixed, lw), where(b))
    g = go(ctx, PR + '<Probe<T> as core::clone::Clone>::clone', ['self'], mutout=None)
    if g:
        b, I, fr = g
        r = val(I, fr)
        ctx.ob('struct:clone', r is not None and same_as(ctx.prog, r, base), 'cloning a circuit struct gives %s' % (show(r)[:200] if r is not None else None), where(b))
    leaves(ctx)


def prod(d):
    r = 1
    for x in d:
        r *= x
    return r


def loopsum(d):
    """what one element of a vector of the given shape adds: nested for a vector of vectors"""
    if d[0] is None:
        return ('*', loopsum(d[1:]) if len(d) > 1 else 1)
    x = loopsum(d[1:]) if len(d) > 1 else 1
    return x * d[0] if isinstance(x, int) else (d[0], x)


def count_(t):
    """constant part and loop contributions of a running count"""
    t = undv(t)
    if kval(t) is not None and isinstance(kval(t), int):
        return kval(t), []
    if t.op == 'unit':
        return 0, []
    if t.op == 'bin' and t.a[0] == 'Add':
        a, l = count_(t.a[1])
        c, m = count_(t.a[2])
        return (a + c if a is not None and c is not None else None), l + m
    if t.op == 'red' and t.a[0] == 'Add':
        a, l = count_(t.a[1])
        c, m = count_(t.a[2])
        if len(t.a) > 3 or a is None or c is None:
            return None, []
        if m and c == 0 and len(m) == 1:
            return a, l + [('*', m[0])]
        if m:
            return None, []
        return a, l + [('*', c)]
    return None, []


def leaves(ctx):
    """a scalar is one value, an array its elements"""
    V = 'frontend::variables::DumpLoadVariables'
    n = 0
    for ty, tr in (('F', 'F'), ('frontend::builder::Variable', 'frontend::builder::Variable')):
        pre = EC + '<%s as %s<%s>>::' % (ty, V, tr)
        nm = ty.rsplit('::', 1)[-1]
        g = go(ctx, pre + 'dump_into', ['self', 'vars'])
        if g:
            b, I, fr = g
            v = memof(I, fr, 'vars')
            ctx.ob('scalar:%s:dump' % nm, v.op == 'seq' and undv(v.a[0]) is sym('vars') and undv(v.a[1]) is sym('self') and len(list(items(fr, 'push', 'insert', 'sinsert', 'st'))) == 1
                   and not any(plain(it[5], fr) for _f, _b, it in items(fr, 'push')), 'dumping a value leaves the list as %s' % show(v)[:160], where(b))
            n += 1
        g = go(ctx, pre + 'load_from', ['self', 'vars'])
        if g:
            b, I, fr = g
            s, v = memof(I, fr, 'self'), memof(I, fr, 'vars')
            ctx.ob('scalar:%s:load' % nm, is_first(s, sym('vars')) and is_rest(v, sym('vars')), 'loading a value takes %s and leaves %s' % (show(s)[:100], show(v)[:140]), where(b))
            n += 1
        g = go(ctx, pre + 'num_vars', ['self'])
        if g:
            b, I, fr = g
            r = val(I, fr)
            ctx.ob('scalar:%s:count' % nm, r is not None and kval(r) == 1, 'a single value counts as %s' % (show(r)[:80] if r is not None else None), where(b))
            n += 1
    pre = EC + '<[U; N] as %s<T>>::' % V
    for m in ('dump_into', 'load_from'):
        g = go(ctx, pre + m, ['self', 'vars'], mutout=None)
        if not g:
            continue
        b, I, fr = g
        es = evs(fr, m)
        good = len(es) == 1 and not plain(es[0].known, fr) and not only(es[0], fr)
        if good:
            c = [x for x in alts(undv(es[0].args[0])) if not any(z.op == 'mu' for z in walk(x))]
            good = len(c) == 1 and each_of(undv(c[0]), sym('self')) and 'vars' in show(es[0].args[1]) and in_order(fr)
        ctx.ob('array:%s' % m, good, 'an array is handled as %s' % [(show(e.args[0])[:100]) for e in es], where(b))
        n += 1
    g = go(ctx, pre + 'num_vars', ['self'], mutout=None)
    if g:
        b, I, fr = g
        r = val(I, fr)
        s = show(r) if r is not None else ''
        fs = set(factors_(r)) if r is not None else set()
        size = {x for x in fs if x.op == 'cparam' or (x.op == 'call' and x.a[0] == 'len')}
        each = {x for x in fs if x.op == 'call' and str(x.a[0]).endswith('num_vars')}
        good = (len(fs) == 2 and len(size) == 1 and len(each) == 1) or (r is not None and r.op == 'red' and kval(r.a[1]) == 0 and undv(r.a[2]).op == 'call')
        ctx.ob('array:num_vars', good, 'an array counts as %s' % s[:120], where(b))
        n += 1
    ctx.floor('scalar and array implementations', n, 9)


def each_of(t, s):
    """an element of s at every index"""
    if t.op == 'at' and undv(t.a[0]) is s and undv(t.a[1]).op == 'ridx':
        i = undv(t.a[1])
        n = undv(i.a[1])
        return kval(undv(i.a[0])) == 0 and 'Inclusive' not in str(i.a[2]) and (n.op == 'cparam' or n.op == 'call' and n.a[0] == 'len' and undv(n.a[1]) is s)
    return t is elem(s)


def factors_(t):
    t = undv(t)
    if t.op == 'bin' and t.a[0] == 'Mul':
        return factors_(t.a[1]) + factors_(t.a[2])
    return [t]


def only(e, fr):
    return [c for c, v in e.known if isinstance(v, bool)]


def is_first(t, s):
    t = undv(t)
    return t.op == 'at' and undv(t.a[0]) is s and kval(undv(t.a[1])) == 0


def is_rest(t, s):
    t = undv(t)
    w = show(t)
    if t.op == 'sub':
        return (undv(t.a[0]) is s or undv(t.a[0]).op == 'rec') and re.search(r'RangeFrom\{start: 1\}', w) is not None
    if t.op == 'ref':
        return re.fullmatch(r"ref\(\(\(M, %s\), \(\(s, RangeFrom\{start: 1\}\)\)\)\)" % re.escape(show(s)), w) is not None
    return False


# ---- building, compiling, solving ------------------------------------------------------------------------------------
def entry(ctx):
    V2 = 'DumpLoadTwoVariables::'
    call = lambda n, *a: ('call', n, a)
    S = sym('self')
    P = ctx.prog
    opq = tuple(p for p in P.bodies if any(x in p for x in ('frontend::builder::', 'frontend::debug::', 'compile::compile_with_options', '::solve_witness', 'frontend::witness::')) and '{' not in p)

    def define_chain(root, vars_, pub, src):
        """the builder after the circuit struct, loaded from exactly those variables, defined itself on it"""
        base, steps = chain(root)
        good = len(steps) == 1 and short_(steps[0][0]) == 'define' and steps[0][1] == 1 and len(steps[0][2]) == 1
        if good:
            cb, cs = chain(steps[0][2][0])
            good = cb is src and len(cs) == 1 and short_(cs[0][0]) == 'load_from' and cs[0][1] == 0 and len(cs[0][2]) == 2
            if good:
                good = same(cs[0][2][0], vars_(base)) and same(cs[0][2][1], pub(base))
        return good, base

    def whole(r):
        """root circuit r is what define recorded on a builder with as many inputs as the struct has variables"""
        r = undv(r)
        if not (r.op == 'call' and short_(r.a[0]) == 'build'):
            return False
        holder = {}

        def part(i):
            def f(base):
                b = undv(base)
                return mk('fld', undv(b.a[0]), str(i)) if b.op == 'fld' else sym('?')
            return f
        good, base = define_chain(r.a[1], part(1), part(2), S)
        base = undv(base)
        if not (good and base.op == 'fld' and base.a[1] == '0'):
            return False
        n = undv(base.a[0])
        if not (n.op == 'call' and short_(n.a[0]) == 'new'):
            return False
        return all(undv(x).op == 'fld' and undv(x).a[1] == str(i) and undv(undv(x).a[0]).op == 'call' and short_(undv(undv(x).a[0]).a[0]) == 'num_vars' and undv(undv(undv(x).a[0]).a[1]) is S
                   for i, x in enumerate(n.a[1:3]))

    for f in ('compile', 'compile_cross_layer'):
        g = go(ctx, FR + f, ['self', 'options'], opaque=opq)
        if not g:
            continue
        b, I, fr = g
        es = evs(fr, 'compile_with_options')
        ok = len(es) == 1 and not plain(es[0].known, fr)
        ctx.ob('%s:circuit' % f, ok and whole(es[0].args[0]), '%s compiles %s: not the circuit its struct defines on as many inputs as it has variables' % (f, [show(e.args[0])[:200] for e in es]), where(b))
        ctx.ob('%s:options' % f, ok and undv(es[0].args[1]) is sym('options'), '%s compiles with options %s' % (f, [show(e.args[1])[:80] for e in es]), where(b))
        oks, errs = [], 0
        for x in alts(val(I, fr)):
            x = undv(x)
            if x.op == 'agg' and x.a[1] == 'Ok':
                oks.append(undv(x.a[3]))
            elif x.op == 'agg' and x.a[1] == 'Err':
                errs += 1
        good = len(oks) == 1 and ok
        if good:
            d = dict(zip(oks[0].a[2], oks[0].a[3:])) if oks[0].op == 'agg' else {}
            ws = undv(d.get('witness_solver', sym('?')))
            ws = undv(ws.a[3]) if ws.op == 'agg' and len(ws.a) == 4 else sym('?')
            lc = undv(d.get('layered_circuit', sym('?')))
            res = es[0].ret
            pair = lambda t, i: undv(t).op == 'fld' and undv(t).a[1] == str(i) and any(same(z, res) for z in walk(t)) and not any(z.op == 'call' and not same(z, res) and short_(z.a[0]) == 'compile_with_options' for z in walk(t))
            good = pair(ws, 0) and pair(lc, 1)
        ctx.ob('%s:results' % f, good, '%s returns %s: not the witness circuit and the layered circuit of the same compilation' % (f, [show(x)[:200] for x in oks]), where(b))
        bad = counterfactual(ctx, b, names=['self', 'options'], opaque=opq, nonempty=ALL,
                             fn=lambda t: mk('agg', 'core::result::Result', 'Err', ('0',), sym('err')) if t.op == 'call' and short_(t.a[0]) == 'compile_with_options' else None)
        r = val(*bad)
        ctx.ob('%s:error' % f, r is not None and all(undv(x).op == 'agg' and undv(x).a[1] == 'Err' for x in alts(r)), '%s returns %s when compilation fails' % (f, show(r)[:120] if r is not None else None), where(b))

    g = go(ctx, FR + 'extra::debug_eval', ['self', 'assignment', 'hints'], opaque=opq)
    if g:
        b, I, fr = g
        es = evs(fr, 'get_outputs')
        r = val(I, fr)
        good = len(es) == 1 and r is not None and same(r, es[0].ret)
        news = evs(fr, 'new')
        news = [e for e in news if 'DebugBuilder' in e.path]
        d = [False, None]
        if good and len(news) == 1:
            n = news[0]
            part = lambda i: (lambda base: mk('fld', undv(undv(base).a[0]), str(i)) if undv(base).op == 'fld' else sym('?'))
            d = define_chain(es[0].args[0], part(1), part(2), S)
            base = undv(d[1])
            good = d[0] and base.op == 'fld' and base.a[1] == '0' and same(base.a[0], n.ret)
            for i in (0, 1):
                v, st = chain(n.args[i])
                good &= is_empty(v) and len(st) == 1 and short_(st[0][0]) == 'dump_into' and st[0][1] == i + 1 and st[0][2][0] is sym('assignment')
            good &= undv(n.args[2]) is sym('hints')
        else:
            good = False
        ctx.ob('debug_eval', good, 'the debug evaluation returns %s: not the outputs the struct, loaded from the dumped assignment, gives' % (show(r)[:200] if r is not None else None), where(b))

    # witness solving
    pre = EC + 'frontend::witness::<impl circuit::ir::hint_normalized::witness_solver::WitnessSolver<C>>::'
    cands = {short_(p): p for p in P.bodies if 'WitnessSolver' in p and short_(p) in ('solve_witness', 'solve_witness_with_hints', 'solve_witnesses', 'solve_witnesses_with_hints')}
    ctx.need(len(cands) == 4, 'witness-solver', 'the four solving functions of the witness solver (%s)' % sorted(cands))
    raw = tuple(p for p in P.bodies if 'WitnessSolver' in p and 'from_raw_inputs' in p and '{' not in p)
    for m, inner in (('solve_witness', 'solve_witness_from_raw_inputs'), ('solve_witness_with_hints', 'solve_witness_from_raw_inputs'),
                     ('solve_witnesses', 'solve_witnesses_from_raw_inputs'), ('solve_witnesses_with_hints', 'solve_witnesses_from_raw_inputs')):
        if m not in cands:
            continue
        g = go(ctx, cands[m], ['self', 'assignment', 'hints'], opaque=raw)
        if not g:
            continue
        b, I, fr = g
        es = evs(fr, inner)
        r = val(I, fr)
        good = len(es) == 1 and not plain(es[0].known, fr) and r is not None and same(r, es[0].ret) and undv(es[0].args[0]) is S
        if good:
            a = [undv(x) for x in es[0].args]
            if inner == 'solve_witness_from_raw_inputs':
                for i in (0, 1):
                    v, st = chain(a[1 + i])
                    good &= is_empty(v) and len(st) == 1 and short_(st[0][0]) == 'dump_into' and st[0][1] == i + 1 and st[0][2][0] is sym('assignment')
            else:
                good &= a[1].op == 'call' and a[1].a[0] == 'len' and undv(a[1].a[1]) is sym('assignment')
                good &= a[2].op == 'clo'
                if good:
                    g2 = go(ctx, a[2].a[0], [], args={0: a[2], 1: sym('i')})
                    good = g2 is not None
                    if good:
                        r2 = val(g2[1], g2[2])
                        good = r2 is not None and r2.op == 'tup' and len(r2.a) == 2
                        for i in (0, 1):
                            if not good:
                                break
                            v, st = chain(r2.a[i])
                            good &= is_empty(v) and len(st) == 1 and short_(st[0][0]) == 'dump_into' and st[0][1] == i + 1
                            if good:
                                x = st[0][2][0]
                                good &= x.op == 'at' and undv(x.a[0]) is sym('assignment') and undv(x.a[1]) is sym('i')
            good &= a[3] is sym('hints') if m.endswith('hints') else 'EmptyHintCaller' in show(a[3])
        ctx.ob('solve:%s' % m, good, '%s solves %s' % (m, [[show(x)[:90] for x in e.args] for e in es]), where(b))


# ---- memorized functions ---------------------------------------------------------------------------------------------
# name, parameters (V variable / P number, by reference), whether a value is returned
MEMO = (('first', 'VVVPVPP', 'nrnnrnr', True), ('second', 'VVVPVPP', 'nrnnrnr', True), ('other::first', 'VVVPVPP', 'nrnnrnr', True), ('third', 'VVP', 'nrn', True), ('fourth', 'PVP', 'nrn', False))


def memo(ctx):
    P = ctx.prog
    opq = tuple(p for p in P.bodies if 'sub_circuit::' in p and '{' not in p) + tuple(PR + n for n, _p, _r, _o in MEMO)
    ids = {}
    for nm, kinds, refs, out in MEMO:
        head, _, last = nm.rpartition('::')
        path = PR + (head + '::' if head else '') + 'memorized_' + last
        ps = [sym('x%d' % i) for i in range(len(kinds))]
        vs = [p for p, kd in zip(ps, kinds) if kd == 'V']
        g = go(ctx, path, ['api'] + ['x%d' % i for i in range(len(kinds))], opaque=opq)
        if not g:
            continue
        b, I, fr = g
        w = where(b)
        tag = 'memorized:%s:' % nm
        calls = evs(fr, 'call_sub_circuit')
        if not ctx.ob(tag + 'call', len(calls) == 1 and not plain(calls[0].known, fr), 'a memorized function calls %d sub-circuits' % len(calls), w):
            continue
        c = calls[0]
        cid, ins, clo = undv(c.args[1]), c.args[2], undv(c.args[3])
        # identity
        good = cid.op == 'call' and short_(cid.a[0]) == 'hash_to_sub_circuit_id'
        steps = []
        if good:
            h0, fs = chain(cid.a[2])
            good = len(fs) == 1 and short_(fs[0][0]) == 'finalize' and len(fs[0][2]) == 1
            if good:
                k0, steps = chain(fs[0][2][0])
                good = k0.op == 'call' and short_(k0.a[0]) in ('v256', 'new')
        ctx.ob(tag + 'hash', good, 'the sub-circuit id is %s: not the id of a completed hash' % show(cid)[:160], w)
        hashed = [s[2][0] for s in steps if short_(s[0]) == 'hash_structure_and_primitive' and s[1] == 1]
        for i, p in enumerate(ps):
            ctx.ob(tag + 'parameter-%d' % i, any(undv(h) is p for h in hashed), 'parameter %d is not part of the identity of the sub-circuit: %s' % (i, [show(h)[:30] for h in hashed]), w)
        ids[nm] = (kinds, tuple(show(sitefree(x)) for s in steps if short_(s[0]) != 'hash_structure_and_primitive' for x in s[2]), w)
        # inputs
        v0, js = chain(ins)
        ctx.ob(tag + 'inputs', is_empty(v0) and all(short_(s[0]) == 'join_vec_variables' and s[1] == 1 for s in js) and [s[2][0] for s in js] == vs,
               'the inputs of the sub-circuit are %s instead of %s' % ([show(s[2][0])[:40] for s in js], [show(v) for v in vs]), w)
        # what happens inside
        if not ctx.ob(tag + 'closure', clo.op == 'clo', 'the body of the sub-circuit is %s' % show(clo)[:100], w):
            continue
        inner = c.args[2]
        g2 = go(ctx, clo.a[0], [], args={0: clo, 1: sym('inner_api'), 2: sym('inputs')}, opaque=opq)
        if not g2:
            continue
        b2, I2, fr2 = g2
        w2 = where(b2)
        us = [e for e in events(fr2) if e.path == PR + nm]
        if not ctx.ob(tag + 'body', len(us) == 1 and not plain(us[0].known, fr2), 'the sub-circuit runs the function %d times' % len(us), w2):
            continue
        u = us[0]
        args = [undv(x) for x in u.args]
        ctx.ob(tag + 'body:api', args[0] is sym('inner_api'), 'the function runs on %s' % show(args[0])[:60], w2)
        vi = 0
        for i, (p, kd) in enumerate(zip(ps, kinds)):
            a = args[1 + i]
            if kd == 'P':
                ctx.ob(tag + 'body:arg-%d' % i, a is p, 'number %d reaches the function as %s' % (i, show(a)[:80]), w2)
                continue
            good = a.op == 'call' and short_(a.a[0]) == 'rebuild_vec_variables'
            if good:
                s0, ss = chain(a.a[1])
                t0, ts = chain(a.a[2])
                good = s0 is sym('inputs') and all(short_(x[0]) == 'rebuild_vec_variables' and x[1] == 0 for x in ss) and len(ss) == vi
                # the structure consumed is the structure recorded while joining, in the same order
                pre, post = [x for x in ts if short_(x[0]) == 'join_vec_variables'], [x for x in ts if short_(x[0]) == 'rebuild_vec_variables']
                good &= is_empty(t0) and ts == pre + post and len(post) == vi and all(x[1] == 2 for x in pre) and all(x[1] == 1 for x in post) and [x[2][0] for x in pre] == vs
            ctx.ob(tag + 'body:arg-%d' % i, good, 'variable parameter %d reaches the function as %s: not rebuilt from its own inputs' % (i, show(a)[:200]), w2)
            vi += 1
        # results
        r2 = val(I2, fr2)
        if out:
            v, st = chain(r2)
            ctx.ob(tag + 'outputs', is_empty(v) and len(st) == 1 and short_(st[0][0]) == 'join_vec_variables' and st[0][1] == 1 and same(st[0][2][0], u.ret),
                   'the outputs of the sub-circuit are %s instead of the values the function returned' % show(r2)[:160], w2)
            rs = evs(fr2, 'register_sub_circuit_output_structure')
            good = len(rs) == 1 and not plain(rs[0].known, fr2) and same(rs[0].args[1], cid)
            if good:
                v, st = chain(rs[0].args[2])
                good = is_empty(v) and len(st) == 1 and short_(st[0][0]) == 'join_vec_variables' and st[0][1] == 2 and same(st[0][2][0], u.ret)
            ctx.ob(tag + 'output-structure', good, 'the structure recorded for the outputs is %s' % [[show(x)[:80] for x in e.args[1:]] for e in rs], w2)
            r = val(I, fr)
            good = r is not None and r.op == 'call' and short_(r.a[0]) == 'rebuild_vec_variables' and same(r.a[1], c.ret)
            if good:
                q = undv(r.a[2])
                good = q.op == 'call' and short_(q.a[0]) == 'get_sub_circuit_output_structure' and same(q.a[2], cid)
            ctx.ob(tag + 'result', good, 'the memorized function returns %s: not the outputs of the call in the structure recorded for it' % (show(r)[:200] if r is not None else None), w)
        else:
            ctx.ob(tag + 'outputs', r2 is not None and is_empty(r2), 'the sub-circuit of a function without result has outputs %s' % (show(r2)[:100] if r2 is not None else None), w2)
    names = sorted(ids)
    for i, x in enumerate(names):
        for y in names[i + 1:]:
            if ids[x][0] == ids[y][0]:
                ctx.ob('memorized:identity:%s/%s' % (x, y), ids[x][1] != ids[y][1], 'the functions %s and %s with the same parameters get the same sub-circuit: the identity of the function is not hashed (%s)' % (x, y, ids[x][1]), ids[x][2])
    ctx.floor('memorized functions', len(ids), 5)
    structure(ctx)


def structure(ctx):
    """joining, rebuilding and hashing agree on the structure"""
    V = EC + '<frontend::builder::Variable as ' + SC
    L = EC + '<alloc::vec::Vec<T> as ' + SC
    R = EC + '<&T as ' + SC
    J, B, H = 'JoinVecVariables>::join_vec_variables', 'RebuildVecVariables>::rebuild_vec_variables', 'HashStructureAndPrimitive>::hash_structure_and_primitive'
    ev = (EC + 'frontend::builder::ensure_variable_valid',)
    n = 0
    g = go(ctx, V + J, ['self', 'res', 'structure'], opaque=ev)
    if g:
        b, I, fr = g
        v, s = memof(I, fr, 'res'), memof(I, fr, 'structure')
        ctx.ob('join:variable', v.op == 'seq' and undv(v.a[0]) is sym('res') and undv(v.a[1]) is sym('self') and s is sym('structure') and not any(plain(it[5], fr) for _f, _b, it in items(fr, 'push'))
               and len(list(items(fr, 'push'))) == 1, 'joining a variable gives %s / %s' % (show(v)[:100], show(s)[:100]), where(b))
        n += 1
    g = go(ctx, R + J, ['self', 'res', 'structure'], opaque=ev)
    if g:
        b, I, fr = g
        es = evs(fr, 'join_vec_variables')
        ctx.ob('join:reference', len(es) == 1 and not plain(es[0].known, fr) and [undv(x) for x in es[0].args] == [sym('self'), sym('res'), sym('structure')], 'joining a reference joins %s' % [[show(x)[:50] for x in e.args] for e in es], where(b))
        n += 1
    g = go(ctx, L + J, ['self', 'res', 'structure'], opaque=ev, mutout=None)
    if g:
        b, I, fr = g
        es = evs(fr, 'join_vec_variables')
        ps = [it for _f, _b, it in items(fr, 'push', 'insert', 'sinsert')]
        good = len(es) == 1 and not plain(es[0].known, fr) and undv(es[0].args[0]) is elem(sym('self')) and 'res' in show(es[0].args[1]) and 'structure' in show(es[0].args[2])
        good &= len(ps) == 1 and undv(ps[0][4]).op == 'call' and undv(ps[0][4]).a[0] == 'len' and undv(undv(ps[0][4]).a[1]) is sym('self') and undv(ps[0][3]) is sym('structure') and not only_iteration(ps[0][5])
        nfa = auto.NFA(fr, lambda e, f_: 'E' if short_(e.path) == 'join_vec_variables' else None, prune_err=False, items=lambda it, f_: 'P' if it[0] == 'push' else None)
        good &= auto.within(nfa, {('-', 'P'): 'p', ('p', 'E'): 'p'}, '-', {'p'}) is None and in_order(fr)
        ctx.ob('join:vector', good, 'joining a vector pushes %s and joins %s' % ([show(it[4])[:60] for it in ps], [show(e.args[0])[:60] for e in es]), where(b))
        n += 1
    g = go(ctx, V + B, ['s', 'structure'])
    if g:
        b, I, fr = g
        ctx.ob('rebuild:variable', is_first(val(I, fr), sym('s')) and is_rest(memof(I, fr, 's'), sym('s')) and memof(I, fr, 'structure') is sym('structure'),
               'rebuilding a variable takes %s and leaves %s' % (show(val(I, fr))[:80], show(memof(I, fr, 's'))[:120]), where(b))
        n += 1
    g = go(ctx, L + B, ['s', 'structure'], mutout=None)
    if g:
        b, I, fr = g
        es = evs(fr, 'rebuild_vec_variables')
        r = val(I, fr)
        good = len(es) == 1 and not plain(es[0].known, fr) and undv(es[0].args[0]) is sym('s')
        # the lengths left over are those after the first
        t = undv(es[0].args[1]) if good else sym('?')
        good &= is_rest(t, sym('structure')) or ('structure' in show(t) and 'RangeFrom{start: 1}' in show(t) and t.op in ('sub', 'ref'))
        if good:
            # one element per unit of the first length
            rs = list({undv(t.a[0]) if t.op == 'src' else t for t in sources(fr)})
            good = len(rs) == 1 and rs[0].op == 'agg' and rs[0].a[1] == 'Range' and kval(undv(rs[0].a[3])) == 0 and is_first(undv(rs[0].a[4]), sym('structure'))
        good &= r is not None and r.op == 'seq' and all(same(x, es[0].ret) for x in elems(r)) if es else False
        ctx.ob('rebuild:vector', good, 'rebuilding a vector rebuilds %s under %s' % ([[show(x)[:80] for x in e.args] for e in es], [[show(c)[:80] for c, v in e.known] for e in es]), where(b))
        n += 1
    # the hash determines the structure and the numbers
    g = go(ctx, EC + '<T as ' + SC + H, ['self', 'hasher'])
    if g:
        b, I, fr = g
        _h, st = chain(memof(I, fr, 'hasher'))
        upd = [undv(s[2][0]) for s in st if short_(s[0]) == 'update']
        txt = mk('call', 'to_string', sym('self'))
        whole = [i for i, x in enumerate(upd) if show(x) in ('to_string(self)', 'self') or (x.op == 'call' and short_(x.a[0]).startswith('to_') and 'bytes' in short_(x.a[0]) and undv(x.a[1]) is sym('self'))]
        fixed = bool(whole) and upd[whole[0]].op == 'call' and 'bytes' in str(upd[whole[0]].a[0])
        delim = bool(whole) and (fixed or (whole[0] >= 2 and show(upd[0]) in ('to_string(len(to_string(self)))', 'len(to_string(self))', 'to_string(len(self))') and sepa(upd[1])))
        ctx.ob('hash:number', bool(whole) and len(st) == len(upd) and _h is sym('hasher'), 'hashing a number feeds %s: the number itself is not part of it' % [show(x)[:60] for x in upd], where(b))
        ctx.ob('hash:number:delimited', delim, 'hashing a number feeds %s: where it ends is not part of it' % [show(x)[:60] for x in upd], where(b))
        n += 1
    g = go(ctx, L + H, ['self', 'hasher'], mutout=None)
    if g:
        b, I, fr = g
        es = evs(fr, 'hash_structure_and_primitive')
        us = evs(fr, 'update')
        good = len(es) == 1 and not plain(es[0].known, fr) and undv(es[0].args[0]) is elem(sym('self')) and undv(es[0].args[1]) is sym('hasher')
        ctx.ob('hash:vector:items', good, 'hashing a vector hashes %s' % [show(e.args[0])[:60] for e in es], where(b))
        seq = [undv(e.args[1]) for e in us]
        good = all(not only_iteration(e.known) and not any(v == 'Some' for c, v in e.known) for e in us) and bool(seq) and any(z.op == 'call' and z.a[0] == 'len' and undv(z.a[1]) is sym('self') for z in walk(seq[0]))
        good &= seq[0].op == 'call' and ('bytes' in str(seq[0].a[0]) or (len(seq) == 2 and sepa(seq[1]) and show(seq[0]) == 'to_string(len(self))')) if good else False
        nfa = auto.NFA(fr, lambda e, f_: 'L' if short_(e.path) == 'update' else 'E' if short_(e.path) == 'hash_structure_and_primitive' else None, prune_err=False)
        d = {(i, 'L'): i + 1 for i in range(len(us))}
        d[(len(us), 'E')] = len(us)
        good &= auto.within(nfa, d, 0, {len(us)}) is None
        ctx.ob('hash:vector:length', good, 'hashing a vector feeds %s before its items: not its delimited length' % [show(x)[:60] for x in seq], where(b))
        n += 1
    for ty in ('&frontend::builder::Variable', '&alloc::vec::Vec<T>'):
        g = go(ctx, EC + '<%s as %s' % (ty, SC) + H, ['self', 'hasher'], opaque=tuple(p for p in ctx.prog.bodies if 'sub_circuit::' in p))
        if g:
            b, I, fr = g
            _h, st = chain(memof(I, fr, 'hasher'))
            es = evs(fr, 'hash_structure_and_primitive')
            good = all(undv(e.args[0]) is sym('self') for e in es)
            ctx.ob('hash:reference:%s' % short_(ty), good and (len(es) == 1 or 'Variable' in ty), 'hashing a reference hashes %s' % [show(e.args[0])[:50] for e in es], where(b))
            n += 1
    ctx.floor('structure functions', n, 9)


def sepa(x):
    """a constant that no decimal number continues"""
    m = re.fullmatch(r'zst\(&\[u8; (\d+)\]\)', show(x))
    if m:
        return int(m.group(1)) > 0
    v = kval(x)
    return isinstance(v, str) and v != '' and not v[0].isdigit()


# ---- kernels ---------------------------------------------------------------------------------------------------------
KERN = (('a', (4, 3), True, False), ('b', (), True, False), ('c', (5,), True, True), ('d', (6, 7, 2), False, True), ('e', (), False, True))


def poly(t):
    """linear form {atom: coefficient} of an index"""
    t = undv(t)
    if isinstance(kval(t), int):
        return {None: kval(t)} if kval(t) else {}
    if t.op == 'bin' and t.a[0] == 'Add':
        r = dict(poly(t.a[1]))
        for x, c in poly(t.a[2]).items():
            r[x] = r.get(x, 0) + c
        return {x: c for x, c in r.items() if c}
    if t.op == 'bin' and t.a[0] == 'Mul':
        p, q = poly(t.a[1]), poly(t.a[2])
        for p, q in ((p, q), (q, p)):
            if set(p) <= {None}:
                return {x: c * p.get(None, 0) for x, c in q.items() if c * p.get(None, 0)}
    return {t: 1}


def rng(t):
    t = undv(t)
    if t.op != 'ridx' or kval(undv(t.a[0])) != 0:
        return None
    kind = kval(t.a[2]) if isinstance(t.a[2], T) else t.a[2]
    n = kval(undv(t.a[1]))
    return n if kind == 'Range' else None


def row_major(t, dims):
    """the index is the row-major position, each coordinate running over its dimension"""
    want = {}
    st = 1
    for d in reversed(dims):
        want[d] = st
        st *= d
    got = {}
    for x, c in poly(t).items():
        n = rng(x) if x is not None else None
        if n is None or n in got:
            return False
        got[n] = c
    return got == want


def indices(t):
    """(base, coordinates from the outermost) of nested element accesses"""
    ix = []
    t = undv(t)
    while t.op == 'at':
        ix.append(undv(t.a[1]))
        t = undv(t.a[0])
    return t, ix[::-1]


def kern(ctx):
    P = ctx.prog
    opq = (EC + 'zkcuda::kernel::compile_with_spec_and_shapes', PR + 'kern')
    g = go(ctx, PR + 'compile_kern', [], opaque=opq)
    if not g:
        return
    b, I, fr = g
    es = evs(fr, 'compile_with_spec_and_shapes')
    r = val(I, fr)
    if not ctx.ob('kernel:compile', len(es) == 1 and r is not None and same(r, es[0].ret), 'compiling a kernel gives %s' % (show(r)[:100] if r is not None else None), where(b)):
        return
    specs, shapes = undv(es[0].args[1]), undv(es[0].args[2])
    got = []
    for x in specs.a if specs.op == 'arr' else ():
        x = undv(x)
        d = dict(zip(x.a[2], x.a[3:])) if x.op == 'agg' else {}
        got.append(tuple(kval(undv(d[f])) if f in d else None for f in ('len', 'is_input', 'is_output')))
    want = [(prod(d), i, o) for n, d, i, o in KERN]
    for i, (n, d, _i, _o) in enumerate(KERN):
        ctx.ob('kernel:spec:%s' % n, len(got) == len(want) and tuple(got[i]) == want[i], 'parameter %d has specification %s instead of %s (length, input, output)' % (i, got[i] if i < len(got) else None, want[i]), where(b))
        s = undv(shapes.a[i]) if shapes.op == 'arr' and i < len(shapes.a) else sym('?')
        v = tuple(kval(undv(y)) for y in s.a) if s.op == 'arr' else () if is_empty(s) else None
        ctx.ob('kernel:shape:%s' % n, v == d, 'parameter %d has shape %s instead of %s' % (i, v, d), where(b))
    clo = undv(es[0].args[0])
    g = go(ctx, clo.a[0], ['env', 'api', 'io'], opaque=opq) if clo.op == 'clo' else None
    if not g:
        ctx.need(False, 'kernel:closure', 'the function passed to the kernel compiler')
        return
    b, I, fr = g
    w = where(b)
    us = [e for e in events(fr) if e.path == PR + 'kern']
    if not ctx.ob('kernel:body', len(us) == 1 and not plain(us[0].known, fr) and undv(us[0].args[0]) is sym('api') and len(us[0].args) == len(KERN) + 1, 'the kernel runs its function %d times' % len(us), w):
        return
    u = us[0]
    pushes = [it for _f, _b, it in items(fr, 'push')]
    io = sym('io')
    for i, (n, dims, inp, outp) in enumerate(KERN):
        a = undv(u.args[1 + i])
        key = 'kernel:argument:%s' % n
        if not dims:
            if inp:
                ctx.ob(key, indices(a) == (io, [k(i), k(0)]), 'the scalar parameter %d is %s' % (i, show(a)[:80]), w)
            else:
                ctx.ob(key, a.op == 'call' and short_(a.a[0]) == 'default', 'the output parameter %d starts as %s' % (i, show(a)[:80]), w)
            continue
        # leaves of the nested vectors
        lv, depth_ok = nest(a, len(dims))
        good = depth_ok and bool(lv)
        why = show(a)[:160]
        if inp:
            for x in lv:
                bs, ix = indices(x)
                if not (bs is io and len(ix) == 2 and kval(ix[0]) == i and row_major(ix[1], dims)):
                    good, why = False, show(x)[:160]
        else:
            good &= all(x.op == 'call' and short_(x.a[0]) == 'default' for x in lv)
        # where each of them is put
        mine = [it for it in pushes if any(same(it[4], x) for x in lv)] if inp else [it for it in pushes if undv(it[4]).op == 'call' and short_(undv(it[4]).a[0]) == 'default']
        if good and len(mine) != 1:
            good, why = False, '%d places put values into parameter %d' % (len(mine), i)
        if good:
            it = mine[0]
            co = placeix(it, len(dims) - 1)
            if co != list(dims[:-1]) or plain(it[5], fr):
                good, why = False, 'values are put into rows %s (%s)' % (co, [show(c)[:60] for c in plain(it[5], fr)])
            trips = {rng(x) for c, v in it[5] if v == 'Some' for x in walk(c) if x.op == 'ridx'}
            if not set(dims) <= trips:
                good, why = False, 'the loops run over %s instead of %s' % (sorted(x for x in trips if x), dims)
        ctx.ob(key, good, 'parameter %d of a kernel is not unflattened row by row: %s' % (i, why), w)
    # written back
    sts = [it for _f, _b, it in items(fr, 'st')]
    n_out = 0
    for i, (n, dims, inp, outp) in enumerate(KERN):
        mine = []
        for it in sts:
            ix = it[1] if isinstance(it[1], tuple) else (it[1],)
            ix = tuple(undv(x) if isinstance(x, T) else x for x in ix)
            if len(ix) == 2 and (kval(ix[0]) if isinstance(ix[0], T) else ix[0]) == i:
                mine.append((ix[1], undv(it[2]), it[3]))
        if not outp:
            continue
        n_out += 1
        good = len(mine) == 1
        why = '%d stores' % len(mine)
        for p, v, kn in mine:
            bs, ix = indices(v)
            base, st = chain(bs)
            why = 'position %s gets %s' % (show(p)[:80], show(v)[:80])
            good &= len(st) >= 1 and st[-1][0] == PR + 'kern' and st[-1][1] == i + 1 and not plain(kn, fr)
            if dims:
                good &= row_major(p, dims) and [rng(x) for x in ix] == list(dims)
                good &= {x for x in poly(p) if x is not None} == set(ix)
            else:
                good &= kval(p) == 0 and not ix
        ctx.ob('kernel:result:%s' % n, good, 'output parameter %d is not written back row by row: %s' % (i, why), w)
    ctx.floor('kernel outputs', n_out, 3)
    # the call macro
    g = go(ctx, PR + 'called', ['ctx', 'kern', 'x', 'y', 'z', 't'])
    if g:
        b, I, fr = g
        r = val(I, fr)
        es = evs(fr, 'call_kernel')
        good = len(es) == 1 and r is not None and r.op == 'tup' and len(r.a) == 5
        if good:
            a = [undv(x) for x in es[0].args]
            good = a[0] is sym('ctx') and a[1] is sym('kern') and kval(a[2]) == 9 and a[3].op == 'arr' and [undv(x) for x in a[3].a] == [sym(x) for x in 'xyzt']
            good &= same(r.a[0], es[0].ret)
            for i, nm in enumerate('xyzt'):
                x = undv(r.a[1 + i])
                if nm in 'xz':
                    good &= x is sym(nm)
                else:
                    bs, ix = indices(x)
                    base, st = chain(bs)
                    good &= len(st) == 1 and st[0][1] == 3 and [kval(y) for y in ix] == [i]
        ctx.ob('call_kernel!', good, 'calling a kernel gives %s: every mutable argument must be updated with its own result' % (show(r)[:200] if r is not None else None), where(b))


def nest(t, d):
    """leaves of a vector nested d deep, and whether it is nested exactly that deep"""
    t = undv(t)
    out, ok = [], True
    for x in alts(t):
        x = undv(x)
        if d == 0:
            out.append(x)
            continue
        if x.op == 'at' and d > 0:
            # an element of the vector under construction
            y, _ = indices(x)
            if is_empty(y):
                continue
            return out, False
        if x.op != 'seq':
            return out, False
        for y in ([x.a[0]] if x.a[0] is not None else []):
            o, g = nest(y, d)
            out += o
            ok &= g
        if undv(x.a[1]).op == 'bot':
            continue
        for y in alts(undv(x.a[1])):
            o, g = nest(y, d - 1)
            out += o
            ok &= g
    return out, ok


def placeix(it, n):
    """coordinates of the vector a push goes to"""
    pl = it[7] if len(it) > 7 else None
    return coords(pl)


def coords(pl):
    out = []
    for x in pl if isinstance(pl, (list, tuple, set, frozenset)) else (pl,):
        s = x if isinstance(x, str) else show(x) if isinstance(x, T) else str(x)
        out.append([int(m) for m in re.findall(r'ridx\(0, (\d+), Range\)', s)])
    out = [o for i, o in enumerate(out) if o not in out[:i]]
    return out[0] if len(out) == 1 else None


def check(ctx):
    struct_(ctx)
    entry(ctx)
    memo(ctx)
    kern(ctx)
