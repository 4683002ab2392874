"""Malformed or truncated input is an error.  For every hand-written reader and writer, each nested read or write is assumed to fail: no
successful exit may then be reachable behind it.  Every value read that is compared with constants (tags, operator
codes, configuration id, magic number, modulus) is evaluated for accepted and for foreign values: exactly one accepted
value per variant of the enumeration it encodes, exactly one for a fixed constant."""
from rules.assume import *
from rules.c02 import impls_of, method, adt_of, short, W, R
from rules.c09 import result, where
from rules.c13 import walk
import auto

RULE = 'counterfactual reachability: a failed nested read/write never reaches Ok; a tag is accepted iff it stands for one variant, a fixed constant iff equal'
IR = 'expander_compiler::circuit::ir::'
LY = 'expander_compiler::circuit::layered::'
# type -> what its guarded values stand for: an enumeration, or None for one fixed constant
GUARDS = {
    LY + 'Coef': [LY + 'Coef'],
    LY + 'Circuit': [None, None],
    LY + 'witness::Witness': [None],
    IR + 'common::RootCircuit': [None],
    IR + 'source::Instruction': [IR + 'source::Instruction', IR + 'source::BoolBinOpType', IR + 'source::UnconstrainedBinOpType'],
    IR + 'hint_normalized::Instruction': [IR + 'hint_normalized::Instruction'],
    IR + 'source::Constraint': [IR + 'source::ConstraintType'],
}
CONV = ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes', 'clone', 'into', 'from', 'into_words', 'to_string', 'to_vec')


def same_site(t, r):
    """the same nested call (its arguments may be known less precisely)"""
    return t is r or t.op == r.op == 'call' and t.a[0] == r.a[0] and t.a[-1] is r.a[-1] and isinstance(r.a[-1], T) and r.a[-1].op == 'site'


def sites(fr, which):
    """distinct nested reads/writes: by position in the inlined code"""
    out = {}
    for e in events(fr):
        if e.canon in which:
            out.setdefault((e.fr.body.path, e.block), e)
    return out


def accepted(I, fr, r):
    """a successful exit behind the call r"""
    if not success(I, fr, ('Ok',)):
        return None
    return auto.within(auto.NFA(fr, lambda ev, f: 'E' if same_site(undv(ev.ret), r) else None), {}, '-', {'-'})


class Case:
    def __init__(self, ctx, b, nested, mem=None):
        self.ctx, self.b, self.nested, self.mem = ctx, b, nested, mem

    def run(self, fn=None, fix=None):
        def f(t):
            for r, v in (fix or {}).items():
                if t is r or same_site(undv(t), r):
                    return result('Ok', k(v))
            return fn(t) if fn else None
        kw = {'mem': self.mem, 'names': ['self']} if self.mem else {}
        return counterfactual(self.ctx, self.b, opaque=self.nested, fn=f, nonempty=lambda s: True, **kw)


def check(ctx):
    P = ctx.prog
    ims = [im for im in impls_of(P, 'ExpSerde') if im['crate'] == 'expander_compiler' and im['self_adt']]
    ctx.floor('serialised_types', len(ims), 20)
    n = g = 0
    for adt in GUARDS:
        ctx.need(any(adt_of(im) == adt for im in ims), short(adt), 'ExpSerde of %s' % adt)
    for im in sorted(ims, key=lambda x: x['path']):
        adt = adt_of(im)
        name = short(adt).split('::', 1)[-1]
        for meth, which, what in (('deserialize_from', R, 'read'), ('serialize_into', W, 'write')):
            b = P.bodies.get(method(im, meth))
            if not ctx.need(b is not None, '%s:%s' % (name, meth), '%s of %s' % (meth, name)):
                continue
            nested = tuple(p for p in P.bodies if p.endswith(('::deserialize_from', '::serialize_into')) and p != b.path)
            c = Case(ctx, b, nested)
            I0, fr0 = c.run()
            if not ctx.ob('%s:%s:ok' % (name, meth), success(I0, fr0, ('Ok',)), '%s never succeeds' % meth, where(b)):
                continue
            evs = sites(fr0, which)
            rets = {}
            for s, e in sorted(evs.items(), key=lambda x: (x[0][0], x[0][1])):
                rets.setdefault(undv(e.ret), []).append(e)
            worlds = [(c, None)]
            if meth == 'deserialize_from':
                m, vals = guards(ctx, P, c, adt, name, rets)
                g += m
                worlds = [(c, {r: v}) for r, vs in vals[:1] for v in vs] or worlds
            elif len(variants(P, adt)) > 1:
                worlds = [(Case(ctx, b, nested, {sym('self'): agg_of(P, adt, v, base=sym('self'))}), None) for v in variants(P, adt)]
            for i, r in enumerate(rets):
                n += 1

                def fn(t, r=r):
                    return result('Err', sym('failure')) if same_site(undv(t), r) else None
                I, fr = c.run(fn)
                bad = accepted(I, fr, r)
                if bad is not None and len(worlds) > 1:
                    bad = None
                    for w, fix in worlds:
                        if fix and any(same_site(undv(x), r) for x in fix):
                            continue
                        I, fr = w.run(fn, fix)
                        bad = bad or accepted(I, fr, r)
                if bad is None:
                    # it may fail after having succeeded before
                    def err(known, r=r):
                        return 'E' if any(v == 'Err' and same_site(undv(t), r) for t, v in known) else None
                    bad = auto.within(auto.NFA(fr0, lambda ev, f: None, enter=err), {}, '-', {'-'})
                ctx.ob('%s:%s:%d' % (name, meth, i), bad is None, 'a failed %s (%s, line %s) is not reported' % (what, show(r)[:80], rets[r][0].line), where(b))
    ctx.floor('nested reads and writes', n, 120)
    ctx.floor('guarded values', g, 10)


def variants(P, adt):
    a = P.adts.get(adt)
    return [v['name'] for v in a['variants']] if a else []


def guards(ctx, P, c, adt, name, rets):
    """values read that are compared with constants: which are accepted"""
    if not rets:
        return 0, []
    val = {r: fld(r, 'Ok.0') for r in rets}
    seen = {}

    def subject(x):
        rs = {r for y in walk(undv(x)) for r in rets if undv(y) is r or same_site(undv(y), r)}
        return rs.pop() if len(rs) == 1 else None

    def const(x):
        x = undv(x)
        while x.op == 'call' and cname_(x) in CONV and len(x.a) > 1 and isinstance(x.a[1], T):
            x = undv(x.a[1])
        return x if x.op in ('k', 'cdef', 'cparam') else None

    def watch(t):
        if t.op == 'bin' and t.a[0] in ('Eq', 'Ne') or t.op == 'call' and len(t.a) >= 3 and cname_(t) in ('eq', 'ne'):
            ops = [y for y in t.a[1:] if isinstance(y, T) and y.op != 'site'][:2]
            if len(ops) == 2:
                for x, o in (ops, ops[::-1]):
                    o = const(o)
                    r = subject(x)
                    if r is not None and o is not None and not (o.op == 'k' and isinstance(kval(o), bool)):
                        seen.setdefault(r, set()).add(o)
        return None
    c.run(watch)
    order = [r for r in rets if r in seen]
    vals = []
    cards = []
    for r in order:
        cs = seen[r]
        nums = {kval(o) for o in cs if o.op == 'k' and isinstance(kval(o), int)}
        opq = [o for o in cs if o.op != 'k']
        ident = 'guard%d' % order.index(r)
        if opq:
            bad = []
            for world in ('less', 'greater'):
                def fn(t, r=r, world=world):
                    return ordering(t, val[r], opq, world)
                I, fr = c.run(fn)
                if accepted(I, fr, r):
                    bad.append(world)
            ctx.ob('%s:%s' % (name, ident), not bad and len(opq) == 1, 'a value %s than %s is accepted' % (' or '.join(bad), ', '.join(show(o)[:40] for o in opq)), where(c.b))
            cards.append(1)
            continue
        cand = set()
        for v in nums:
            cand |= {v, v + 1, v - 1, v + 4, v + 8, v + 16, v + 32, v + 64, v + 128, v ^ 255, v & 0xffffffff, v ^ (1 << 32), v ^ (1 << 63)}
        small = max(nums) < 256
        cand = {v for v in cand if 0 <= v < (256 if small else 1 << 64)} | {0, 255}
        ok = []
        for v in sorted(cand):
            fix = {r: v}
            I, fr = c.run(fix=fix)
            if accepted(I, fr, r):
                ok.append(v)
        if 2 * len(ok) > len(cand):
            # a value with a few exceptions, not a tag
            continue
        cards.append(len(ok))
        vals.append((r, ok))
        ctx.ob('%s:%s' % (name, ident), bool(ok), 'no value is accepted', where(c.b))
    want = GUARDS.get(adt, [])
    wc = sorted(1 if w is None else len(variants(P, w)) for w in want)
    if want or cards:
        ctx.ob('%s:guards' % name, sorted(cards) == wc, 'accepted values per guarded value: %s, expected %s' % (sorted(cards), wc), where(c.b))
    return len(order), vals


def cname_(t):
    return str(t.a[0]).rsplit('::', 1)[-1]


def ordering(t, v, cs, world):
    """comparison of v with one of the constants, or of the same faithful conversion of both"""
    if t.op == 'bin' and t.a[0] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
        op, x, y = t.a[0], undv(t.a[1]), undv(t.a[2])
    elif t.op == 'call' and len(t.a) >= 3 and cname_(t) in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and all(isinstance(z, T) for z in t.a[1:3]):
        op, x, y = cname_(t).capitalize(), undv(t.a[1]), undv(t.a[2])
    else:
        return None
    conv = False
    while x.op == y.op == 'call' and x.a[0] == y.a[0] and cname_(x) in CONV:
        x, y = undv(x.a[1]), undv(y.a[1])
        conv = True
    if x in cs and y is v:
        op = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(op, op)
    elif not (x is v and y in cs):
        return None
    if op in ('Eq', 'Ne'):
        return k(op == 'Ne')
    if conv:
        return None
    return k((world == 'less') == (op in ('Lt', 'Le')))
