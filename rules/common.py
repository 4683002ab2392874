"""Helpers shared by the rule modules."""
import facts as F
import absint as A
from terms import *

EC = 'expander_compiler::'


def run(ctx, body, opaque=(), inline=None, args=None, names=None, mem=None, budget=300000, depth=14):
    I = A.Interp(ctx.prog, inline=inline, opaque=opaque, budget=budget, max_depth=depth)
    fr = I.run(body, args=args, names=names, mem=mem)
    return I, fr


def ret(I, fr):
    if fr.ret is None:
        return None
    return I.snap(fr.exit_state, fr.ret)


def frames(fr, seen=None):
    if seen is None:
        seen = set()
    if id(fr) in seen:
        return
    seen.add(id(fr))
    yield fr
    for b in sorted(fr.trace):
        for it in fr.trace[b]:
            if it[0] == 'fr':
                yield from frames(it[1], seen)


def items(fr, *kinds):
    for f in frames(fr):
        for b in sorted(f.trace):
            for it in f.trace[b]:
                if it[0] in kinds:
                    yield f, b, it


def events(fr):
    for f, b, it in items(fr, 'ev'):
        yield it[1]


def variants(prog, adt):
    return prog.adts[adt]['variants']


def elems(t):
    """set of element terms of a collection term"""
    t = undv(t)
    if t.op == 'phi':
        s = set()
        for x in alts(t):
            s |= elems(x)
        return s
    if t.op == 'seq':
        s = set()
        if t.a[0] is not None:
            s |= elems(t.a[0])
        for x in alts(undv(t.a[1])):
            s.add(undv(x))
        return s
    if t.op == 'arr':
        s = set()
        for x in t.a:
            s |= {undv(y) for y in alts(undv(x))}
        return s
    if t.op == 'bot':
        return set()
    return {elem(t)}


def impls_of(prog, trait_suffix):
    for im in prog.impls:
        if im['trait'] and (im['trait'] == trait_suffix or im['trait'].endswith('::' + trait_suffix)):
            yield im


def method(im, name):
    for n, p, _t in im['items']:
        if n == name:
            return p
    return None


def same_as(prog, t, ref, why=None, d=0):
    """t denotes the same value as the access path ref (field-wise reconstruction included)"""
    t = undv(t)
    if t is ref:
        return True
    if d > 12:
        return False
    if t.op == 'seq' and t.a[0] is None:
        return same_as(prog, t.a[1], elem(ref), why, d + 1)
    if t.op == 'arr' and t.a and False:
        return False
    al = alts(t)
    if al and all(x.op == 'agg' for x in al):
        adt = al[0].a[0]
        if any(x.a[0] != adt for x in al) or adt not in prog.adts:
            _w(why, 'mixed types')
            return False
        vs = {v['name']: v for v in prog.adts[adt]['variants']}
        byv = {}
        for x in al:
            byv.setdefault(x.a[1], []).append(x)
        isenum = len(vs) > 1 or not adt.endswith('::' + next(iter(vs)))
        missing = set(vs) - set(byv)
        if missing:
            _w(why, 'variants never produced: %s' % sorted(missing))
            return False
        good = True
        for n, xs in byv.items():
            for x in xs:
                for fn, fv in zip(x.a[2], x.a[3:]):
                    r = fld(ref, (n + '.' + fn) if isenum else fn)
                    if not same_as(prog, fv, r, why, d + 1):
                        _w(why, '%s.%s is %s instead of %s' % (n, fn, show(fv)[:160], show(r)))
                        good = False
        return good
    return False


def _w(why, m):
    if why is not None:
        why.append(m)


def agg_of(prog, adt, var, base=None, prefix='a0'):
    """symbolic value of a given variant"""
    for v in prog.adts[adt]['variants']:
        if v['name'] == var:
            names = tuple(f[0] for f in v['fields'])
            b = base or sym(prefix)
            isenum = len(prog.adts[adt]['variants']) > 1 or not adt.endswith('::' + var)
            return mk('agg', adt, var, names, *[mk('fld', b, (var + '.' + n) if isenum else n) for n in names])
    return None


def short(p):
    return p.replace('expander_compiler::', '')


def gen(t):
    """elements selected by a counting loop are the generic element"""
    def f(x):
        if x.op == 'at' and undv(x.a[1]).op in ('ridx', 'eidx'):
            return elem(x.a[0])
        return x
    return rewrite(t, f)
