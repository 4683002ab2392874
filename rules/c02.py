"""Writer/reader agreement of every hand-written (and derived) binary serialiser of the Rust crates.  For each type the
token sequences emitted by serialize_into and consumed by deserialize_from are extracted as event automata over the
inlined control flow graph (error paths pruned) and compared for language equality, per enum variant; the reader's result,
with every token it read replaced by the term the writer emitted at the matching position, must rebuild the original value
field by field; constants the writer emits must be compared by the reader on every successful path; loop bounds must match."""
from rules.common import *
import auto
import re

RULE = 'L(writer, v) == L(reader, tag(v)); reader(tokens := writer terms) rebuilds v; constant tokens are checked'

W = ('ExpSerde::serialize_into', 'FieldSerde::serialize_into', 'Write::write_all', 'Write::write', 'Serialize::serialize')
R = ('ExpSerde::deserialize_from', 'FieldSerde::deserialize_from', 'Read::read_exact', 'Read::read', 'Read::read_to_end')


def tokty(ev, prog):
    f = ev.raw
    if f is None:
        return '?'
    t = f.args[0] if f.args else None
    s = prog.tystr(f.crate, t) if isinstance(t, int) else str(t)
    if ev.canon.startswith(('Write', 'Read')):
        return 'bytes'
    while s.startswith('&'):
        s = s[1:].replace('mut ', '', 1)
    return s


def sel(prog, which, cap=99):
    def s(ev, fr):
        if ev.canon in which:
            return (tokty(ev, prog), min(cap, len(loops_of(ev))))
        return None
    return s


def loops_of(ev):
    """iteration sources of the loops around an event (innermost first)"""
    return ([ev.kind[1]] if ev.kind is not None else []) + loops_at(ev.fr, ev.block)


def loops_at(f, b):
    out = []
    while f is not None:
        cfg = f.body._cfg
        hs = sorted(cfg.in_loops(b), key=lambda h: len(cfg.loops[h]))
        for h in hs:
            src = None
            for x in sorted(cfg.loops[h], key=lambda z: cfg.idx[z]):
                for it in f.trace.get(x, ()):
                    if it[0] == 'nxt' and src is None:
                        src = it[2].a[1]
            out.append(src if src is not None else while_bound(f, h))
        par = f.parent
        if par is not None:
            for it in par.trace.get(f.site[0], ()):
                if it[0] == 'fr' and it[1] is f and it[2] is not None:
                    out.append(it[2][1])
        b = f.site[0]
        f = par
    return out


def while_bound(f, h):
    """a counted while loop: the bound of its induction variable"""
    bs = {y for (fid, hh, r), y in f.interp.bnds.items() if fid == f.id and hh == h}
    if len(bs) == 1:
        return mk('count', next(iter(bs)))
    return mk('loop', h)


def count_of(src):
    """number of iterations over a source, as a term"""
    if src.op == 'count':
        return undv(src.a[0])
    if src.op == 'src':
        s = undv(src.a[0])
        if s.op == 'agg' and s.a[1] == 'Range' and is_k(s.a[3], 0):
            return s.a[4]
        import models
        return models.lenof(s)
    if src.op in ('rev',):
        return None
    return mk('cnt', src)


def adt_of(im):
    return im['self_adt']


def check(ctx):
    P = ctx.prog
    ims = [im for im in impls_of(P, 'ExpSerde') if im['crate'] == 'expander_compiler' and im['self_adt']]
    ctx.floor('serialised_types', len(ims), 20)
    nv = 0
    for im in sorted(ims, key=lambda x: x['path']):
        adt = adt_of(im)
        name = short(adt).split('::', 1)[-1]
        bw, br = P.bodies.get(method(im, 'serialize_into')), P.bodies.get(method(im, 'deserialize_from'))
        if not ctx.need(bw is not None and br is not None, name, 'serialiser bodies of ' + name):
            continue
        if adt not in P.adts:
            continue
        vs = P.adts[adt]['variants']
        isenum = len(vs) > 1
        tags = {}
        for v in vs:
            nv += 1
            key = name + ('::' + v['name'] if isenum else '')
            where = '%s:%s' % (bw.file, bw.line)
            one(ctx, P, im, adt, v, isenum, key, bw, br, where, tags)
        # inlining of nested serialisers is off: each type is decided on its own
    ctx.floor('serialised_variants', nv, 40)


def no_nested(root):
    def pred(body, f, cs):
        return body.name not in ('serialize_into', 'deserialize_from') or '::{closure' in body.path
    return pred


def one(ctx, P, im, adt, v, isenum, key, bw, br, where, tags):
    s = sym('self')
    witness = adt.endswith('witness::Witness')
    cap = 1 if witness else 99
    val = agg_of(P, adt, v['name'], base=s)
    I = A.Interp(P, inline=no_nested(bw), budget=60000)
    fw = I.run(bw, names=['self', 'writer'], mem={s: val})
    if not ctx.ob(key + ':writes', fw.ret is not None, 'serialize_into never returns', where):
        return
    nw = auto.NFA(fw, sel(P, W, cap))
    ctx.ob(key + ':ok-reachable', bool(nw.init()), 'no successful path through serialize_into', where)
    tag = None
    forced = None
    if isenum:
        # first token must be a constant that identifies the variant
        st = nw.step(nw.init())
        evs = [e for l, (es, _) in st.items() for e in es]
        vals = {undv(e.args[0]) for e in evs}
        if not ctx.ob(key + ':tag', len(vals) == 1 and kval(next(iter(vals))) is not None, 'the first value written for this variant is not a single constant tag: %s' % paths(vals), where):
            return
        forced = next(iter(vals))
        tag = kval(forced)
        ctx.ob(key + ':tag-unique', tag not in tags, 'tag %s is also written for variant %s' % (tag, tags.get(tag)), where)
        tags[tag] = v['name']
    I2 = A.Interp(P, inline=no_nested(br), budget=60000)
    if forced is not None:
        I2.force_read = (R, A.ok(k(tag)))
    fr = I2.run(br, names=['reader'])
    where2 = '%s:%s' % (br.file, br.line)
    if not ctx.ob(key + ':reads', fr.ret is not None, 'deserialize_from never returns', where2):
        return
    nr = auto.NFA(fr, sel(P, R, cap))
    if not ctx.ob(key + ':readable', bool(nr.init()), 'no successful path through deserialize_from for what serialize_into emits', where2):
        return
    ce, pairs = auto.compare(nw, nr)
    if not ctx.ob(key + ':same-token-language', ce is None,
                  ce and 'writer and reader disagree after tokens %s: %s (first=writer, second=reader)' % (list(ce[1]), ce[0]), where2):
        return
    sub = {}
    forced_ret = None
    for l, we, re_ in pairs:
        for r in re_:
            wv = phi(*[undv(w.args[0]) for w in we])
            rt = r.ret
            if rt.op == 'agg':
                continue
            sym_ = fld(rt, 'Ok.0')
            if sym_ in sub and sub[sym_] is not wv:
                wv = phi(sub[sym_], wv)
            sub[sym_] = wv
    got = ret(I2, fr)
    got = fld(undv(got), 'Ok.0') if not all(x.op == 'agg' and x.a[1] == 'Err' for x in alts(undv(got))) else BOT

    def rsub(x):
        return sub.get(x, x)
    full = rewrite(got, rsub)
    full = rewrite(full, lambda x: x.a[1] if False else x)
    why = []
    ctx.ob(key + ':round-trip', rebuild_nodef(P, full, val, why, skip=('values',) if witness else ()), 'reading back does not rebuild the value: %s' % '; '.join(why[:4]), where2)
    # constants written by a struct serialiser are checked on every successful path
    for l, we, re_ in pairs:
        wv = [undv(w.args[0]) for w in we]
        for w in wv:
            if (kval(w) is not None or w.op in ('cdef', 'cparam')) and (forced is None or w is not forced):
                r = re_[0].ret
                rs = fld(r, 'Ok.0')
                facts = okfacts(I2, fr)
                good = any(val_ is True and t.op == 'bin' and t.a[0] == 'Eq' and {t.a[1], t.a[2]} == {rs, w} for t, val_ in facts) or \
                    any(t is rs and val_ == kval(w) for t, val_ in facts)
                ctx.ob(key + ':constant-%s-checked' % show(w), good, 'the reader accepts any value in place of the constant %s' % show(w), where2)
    # loops
    for l, we, re_ in pairs:
        for w, r in zip(we, re_):
            for x, y in zip(loops_of(w), loops_of(r)):
                cx, cy = normcount(P, adt, fw, count_of(x)), normcount(P, adt, fr, count_of(y))
                cy = undv(rewrite(cy, rsub)) if cy is not None else None
                if witness:
                    # the values have num_witnesses * (inputs + public inputs) elements by construction
                    vals = {show(q) for q in (fld(s, n) for n in ('num_witnesses', 'num_inputs_per_witness', 'num_public_inputs_per_witness'))}
                    good = cy is not None and {show(q) for q in leaves(cy)} == vals
                else:
                    good = cx is not None and cy is not None and cy is cx
                ctx.ob(key + ':loop-count-' + l[0], good, 'token %s: writer repeats %s times, reader %s times' % (l[0], cx and show(cx), cy and show(cy)), where2)


def leaves(t):
    if t.op in ('bin',):
        return leaves(t.a[1]) | leaves(t.a[2])
    return {t}


def normcount(P, adt, fr, t):
    """a loop count: the length of a fixed-size array field is its size; the length of a collection grown by one push per
    iteration is the count of that loop"""
    if t is None:
        return None
    t = undv(t)
    if t.op == 'call' and t.a[0] == 'len':
        c = undv(t.a[1])
        if c.op == 'fld' and c.a[0].op == 'sym':
            for v in P.adts[adt]['variants']:
                for n, ty in v['fields']:
                    if n == c.a[1]:
                        ts = P.tystr('expander_compiler', ty) if isinstance(ty, int) else str(ty)
                        m = re.match(r'^\[.*; (\w+)\]$', ts)
                        if m:
                            return k(int(m.group(1))) if m.group(1).isdigit() else mk('cparam', m.group(1))
        if c.op == 'seq' and c.a[0] is None:
            sites = []
            for f, b, it in items(fr, 'push'):
                if undv(it[4]) in {undv(x) for x in alts(undv(c.a[1]))}:
                    sites.append((f, b))
            sites = list(dict.fromkeys((id(f), b) for f, b in sites))
            if len(sites) == 1:
                f = next(f for f in frames(fr) if id(f) == sites[0][0])
                ls = loops_at(f, sites[0][1])
                if len(ls) == 1:
                    return normcount(P, adt, fr, count_of(ls[0]))
    return t


def okfacts(I, fr):
    info = A.variants_info(fr.ret, fr.exit_known)
    if info is None:
        return fr.exit_known
    return (info[0].get('Ok') or frozenset()) | fr.exit_known


def placeholder(x):
    x = undv(x)
    return x.op == 'call' and len(x.a) <= 2 and ('zero' in str(x.a[0]) or 'default' in str(x.a[0])) and not any(isinstance(y, T) for y in x.a)


def nodef(t):
    """drop placeholder defaults a loop overwrites completely"""
    def g(x):
        if x.op == 'seq' and x.a[1].op == 'phi':
            al = [undv(y) for y in alts(undv(x.a[1]))]
            if len(al) > 1 and all(y.op == 'agg' and y.a[:3] == al[0].a[:3] for y in al):
                fs = []
                for i in range(3, len(al[0].a)):
                    vs = {undv(z) for y in al for z in alts(undv(y.a[i]))}
                    real = {z for z in vs if not placeholder(z)}
                    fs.append(phi(*(real or vs)))
                return mk('seq', x.a[0], mk('agg', *al[0].a[:3], *fs))
        if x.op == 'seq' and x.a[0] is not None and undv(x.a[0]).op == 'rep' and undv(undv(x.a[0]).a[0]).op == 'call':
            return mk('seq', None, x.a[1])
        return x
    return rewrite(t, g)


def rebuild_nodef(P, t, val, why, skip=()):
    t = nodef(undv(t))
    al = alts(t)
    if not al:
        why.append('nothing is returned')
        return False
    good = True
    for x in al:
        if x.op != 'agg' or x.a[:3] != val.a[:3]:
            why.append('produces %s' % show(x)[:160])
            good = False
            continue
        for fn, fv, rv in zip(x.a[2], x.a[3:], val.a[3:]):
            if fn not in skip and not same_as(P, fv, rv, why):
                why.append('%s is %s' % (fn, show(fv)[:200]))
                good = False
    return good


def paths(ts):
    return sorted(show(x) for x in ts)
