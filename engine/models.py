"""Transfer functions for library calls, keyed by canonical name (Trait::method or Type::function)."""
from terms import *
import facts as F
import absint as A
from absint import some, NONE, ok, err, OPT, RES, CF, canon_bin, neg, decompose

TAB = {}


def m(*names):
    def d(fn):
        for n in names:
            TAB[n] = fn
        return fn
    return d


def lookup(f):
    fn = TAB.get(f.canon)
    return fn


def resolved_local(I, f):
    return (f.res and f.res in I.p.bodies) or (f.path in I.p.bodies)


# ---------------------------------------------------------------- identity-like
@m('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut',
   'Box::new', 'Arc::new', 'Rc::new', 'Mutex::new', 'Mutex::into_inner_', 'hint::must_use', 'Vec::as_slice', 'Vec::as_mut_slice',
   'String::as_str', 'String::as_bytes', 'str::as_bytes', 'String::into_bytes', 'Pin::new_unchecked', 'IntoFuture::into_future',
   'Cell::new', 'RefCell::new', 'hint::black_box', 'slice::as_slice', 'Box::pin', 'Lazy::new', 'Vec::into_boxed_slice',
   'convert::identity', 'Reverse::new', 'Cow::Borrowed', 'Vec::leak', 'mem::forget_', 'Cursor::new')
def ident(I, cs, st, f, a):
    if resolved_local(I, f) and f.trait is None:
        return NotImplemented
    if f.trait and f.res and f.res in I.p.bodies:
        return NotImplemented
    return a[0]


@m('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'Option::cloned', 'Option::copied', 'Option::as_deref',
   'str::to_string', 'slice::into_vec', 'Vec::clone', 'Arc::clone')
def clone(I, cs, st, f, a):
    if f.canon == 'Clone::clone' and f.res and f.res in I.p.bodies:
        b = I.p.bodies[f.res]
        # derived or trivial implementations copy the value; a hand-written one with calls is inlined
        if not derived_clone(I, b):
            return NotImplemented
    v = I.deref(st, a[0])
    if f.canon in ('Option::cloned', 'Option::copied'):
        return mapvar(v, {'Some': lambda x: some(I.deref(st, x)), 'None': lambda x: NONE})
    return v


def derived_clone(I, b):
    for s, t, cl in b.blocks:
        if t[0] == 'call':
            if t[1][0] != 'fn' or t[1][1]['n'] not in ('clone', 'deref'):
                return False
    return True


@m('From::from', 'Into::into', 'TryInto::try_into', 'TryFrom::try_from', 'ToString::to_string', 'ToOwned::to_owned_')
def from_(I, cs, st, f, a):
    if f.res and f.res in I.p.bodies:
        return NotImplemented
    if f.canon == 'Into::into':
        # Into is implemented through From: dispatch to a local From impl when one is known
        t0, t1 = f.args[0], f.args[1] if len(f.args) > 1 else None
        for im in I.p.impls:
            if im['trait'] and F.last(im['trait']) == 'From' and isinstance(t1, int):
                ad = I.p.ty(f.crate, t1)['adt']
                if im['self_adt'] and im['self_adt'] == ad:
                    src = I.p.ty(f.crate, t0)['adt'] if isinstance(t0, int) else None
                    tr = im.get('tref', '')
                    if isinstance(src, str) and F.last(src) in tr:
                        b = I.p.bodies.get(im['items'][0][1])
                        if b is not None and I.want_inline(b, f, cs):
                            return I.inline(cs, st, b, a)
    if f.canon in ('TryInto::try_into', 'TryFrom::try_from'):
        v = I.deref(st, a[0])
        c = mk('call', 'try_into', I.snap(st, v))
        return mk('dv', phi(ok(v), err(mk('call', 'convert_err'))),
                  (('Err', frozenset([(c, False)])), ('Ok', frozenset([(c, True)]))), None)
    if f.canon == 'ToString::to_string':
        return mk('call', 'to_string', I.snap(st, a[0]))
    return a[0]


# ---------------------------------------------------------------- formatting / diverging
@m('panicking::panic', 'panicking::panic_fmt', 'panicking::assert_failed', 'panicking::begin_panic',
   'panicking::unreachable_display', 'option::unwrap_failed', 'result::unwrap_failed', 'process::exit',
   'panicking::panic_display', 'panicking::unreachable_default_msg', 'panicking::panic_explicit', 'intrinsics::unreachable',
   'hint::unreachable_unchecked', 'panicking::panic_nounwind', 'panicking::panic_str_2015', 'option::expect_failed',
   'panicking::unreachable_cold', 'process::abort')
def diverge(I, cs, st, f, a):
    return None


@m('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def fmtarg(I, cs, st, f, a):
    return mk('call', 'fmtarg', I.snap(st, a[0]))


@m('Arguments::new', 'Arguments::from_str', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::from_str_nonconst')
def fmtargs(I, cs, st, f, a):
    return mk('call', 'fmtargs', *[I.snap(st, x) for x in a])


@m('fmt::format', 'alloc::fmt::format')
def fmt(I, cs, st, f, a):
    return mk('call', 'format', *[I.snap(st, x) for x in a])


@m('stdio::_print', 'stdio::_eprint')
def pr(I, cs, st, f, a):
    return UNIT


# ---------------------------------------------------------------- vec creation
@m('Vec::new', 'Vec::with_capacity', 'HashMap::new', 'HashSet::new', 'String::new', 'HashMap::with_capacity',
   'HashSet::with_capacity', 'BinaryHeap::new', 'VecDeque::new', 'BTreeMap::new', 'BTreeSet::new', 'HashMap::default')
def vnew(I, cs, st, f, a):
    return EMPTY


@m('vec::from_elem')
def from_elem(I, cs, st, f, a):
    return mk('rep', I.deref(st, a[0]) if False else a[0], I.snap(st, a[1]))


@m('Box::new_uninit', 'Box::new_uninit_in')
def newuninit(I, cs, st, f, a):
    return mk('uninit')


@m('boxed::box_assume_init_into_vec_unsafe')
def boxvec(I, cs, st, f, a):
    v = a[0]
    return fld(fld(v, 'value'), 'value')


@m('Default::default')
def default(I, cs, st, f, a):
    if f.res and f.res in I.p.bodies:
        return NotImplemented
    t0 = f.args[0] if f.args else None
    if isinstance(t0, int):
        s = I.p.tystr(f.crate, t0)
        return dflt(s)
    return mk('call', 'Default::default')


def dflt(s):
    if s in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'):
        return k(0)
    if s == 'bool':
        return FALSE
    if s.startswith(('alloc::vec::Vec', 'std::vec::Vec', 'std::collections', 'alloc::string', 'Vec<', 'HashMap<', 'String')) or 'hash::map::HashMap<' in s[:60] or 'hash::set' in s[:60]:
        return EMPTY
    if 'option::Option' in s[:30]:
        return NONE
    return mk('call', 'Default::default', mk('ty', s))


# ---------------------------------------------------------------- helpers
def V(I, st, a):
    return I.deref(st, a)


def locs(I, st, a):
    """locations the reference a denotes (following nested references)"""
    n = 0
    while n < 6:
        ls = I.deref_locs(st, a)
        if ls is None:
            return None
        out = []
        again = None
        for l in ls:
            v = I.read(st, l)
            l2 = I.deref_locs(st, v)
            if l2 is not None and undv(v).op in ('ref', 'phi'):
                again = (again or []) + l2
            else:
                out.append(l)
        if again is None:
            return out
        a = phi(*[mk('ref', l) for l in out + again])
        n += 1
    return None


def projref(I, st, a, pr):
    """reference to a projection of what a denotes; for by-value containers the projected value"""
    ls = locs(I, st, a)
    if ls is None:
        v = undv(V(I, st, a))
        for p in pr:
            v = I.rproj(v, p)
        return v
    return phi(*[mk('ref', (l[0], l[1] + pr)) for l in ls])


def setv(I, st, a, fn):
    """new state where what `a` denotes is updated by fn(old)"""
    ls = locs(I, st, a)
    if ls is None:
        return st
    st = st.copy()
    for l in ls:
        old = I.read(st, l)
        I.write(st, l, fn(old), weak=len(ls) > 1)
    return st


def places(I, st, a):
    ls = locs(I, st, a)
    return tuple(I.placeterm(st, l) for l in ls) if ls else ()


def ismap(cs, f, I, i=0):
    s = cs.atys[i] if cs.atys and i < len(cs.atys) else ''
    return 'HashMap<' in s.split('Vec<')[0][:80] and 'Vec<' not in s.split('HashMap<')[0] or 'BTreeMap<' in s[:60]


def isset(cs, i=0):
    s = cs.atys[i] if cs.atys and i < len(cs.atys) else ''
    return 'HashSet<' in s.split('Vec<')[0][:80] and 'Vec<' not in s.split('HashSet<')[0]


def length(I, st, a):
    v = undv(V(I, st, a))
    return lenof(I.snap(st, v))


def lenof(v):
    v = undv(v)
    if v.op == 'arr':
        return k(len(v.a))
    if v.op == 'rep':
        t = v.a[1]
        if isinstance(t, T):
            return t
        try:
            return k(int(t))
        except Exception:
            return mk('cparam', str(t))
    if v.op == 'seq' and v.a[0] is None and v.a[1].op == 'bot':
        return k(0)
    return mk('call', 'len', v)


# ---------------------------------------------------------------- vec ops
@m('Vec::len', 'slice::len', 'HashMap::len', 'HashSet::len', 'String::len', 'str::len', 'VecDeque::len', 'BTreeMap::len',
   'ExactSizeIterator::len', 'BinaryHeap::len')
def vlen(I, cs, st, f, a):
    if f.canon.startswith('Exact'):
        it = undv(V(I, st, a[0]))
        return mk('call', 'len', it.a[1]) if it.op == 'it' else mk('call', 'len', I.snap(st, it))
    return length(I, st, a[0])


@m('Vec::is_empty', 'slice::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'String::is_empty', 'str::is_empty')
def vempty(I, cs, st, f, a):
    return canon_bin('Eq', length(I, st, a[0]), k(0))


@m('Vec::push', 'VecDeque::push_back', 'BinaryHeap::push', 'String::push', 'String::push_str')
def vpush(I, cs, st, f, a):
    cs.fr.trace[cs.b].append(('push', cs.b, cs.line, I.snap(st, V(I, st, a[0])), I.snap(st, a[1]), st.known, cs.loop, places(I, st, a[0])))
    v = a[1]
    st2 = setv(I, st, a[0], lambda o: seq_add(norm_seq(o), v))
    return st2, UNIT


@m('Vec::insert')
def vinsert(I, cs, st, f, a):
    v = a[2]
    return setv(I, st, a[0], lambda o: seq_add(norm_seq(o), v)), UNIT


@m('HashMap::insert', 'BTreeMap::insert')
def minsert(I, cs, st, f, a):
    if resolved_local(I, f):
        return NotImplemented
    v = mk('tup', undv(a[1]), a[2])
    cs.fr.trace[cs.b].append(('insert', cs.b, cs.line, I.snap(st, V(I, st, a[0])), I.snap(st, v), st.known, cs.loop))
    m0 = I.snap(st, V(I, st, a[0]))
    old = mk('call', 'contains_key', m0, I.snap(st, a[1]))
    st2 = setv(I, st, a[0], lambda o: seq_add(norm_seq(o), v))
    r = mk('dv', phi(some(mk('get', m0, I.snap(st, a[1]))), NONE),
           (('None', frozenset([(old, False)])), ('Some', frozenset([(old, True)]))), None)
    return st2, r


@m('HashSet::insert', 'BTreeSet::insert')
def sinsert(I, cs, st, f, a):
    v = a[1]
    m0 = I.snap(st, V(I, st, a[0]))
    cs.fr.trace[cs.b].append(('sinsert', cs.b, cs.line, m0, I.snap(st, v), st.known, cs.loop, places(I, st, a[0])))
    st2 = setv(I, st, a[0], lambda o: seq_add(norm_seq(o), v))
    c = mk('call', 'contains', m0, I.snap(st, a[1]))
    return st2, neg(c)


@m('HashMap::contains_key', 'HashSet::contains', 'BTreeMap::contains_key', 'slice::contains', 'Vec::contains')
def contains(I, cs, st, f, a):
    n = 'contains_key' if 'Map' in f.canon else 'contains'
    c = undv(I.snap(st, V(I, st, a[0])))
    if c.op == 'seq' and c.a[0] is None and c.a[1].op == 'bot':
        return FALSE
    if n == 'contains' and c.op == 'seq' and c.a[0] is None and undv(c.a[1]) in (A_TRUE, A_FALSE):
        if kval(undv(c.a[1])) == kval(undv(I.snap(st, V(I, st, a[1])))):
            return TRUE
    return mk('call', n, I.snap(st, V(I, st, a[0])), I.snap(st, V(I, st, a[1])))


@m('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get', 'BTreeMap::get_mut')
def mget(I, cs, st, f, a):
    key = I.snap(st, V(I, st, a[1]))
    c = mk('call', 'contains_key', I.snap(st, V(I, st, a[0])), key)
    r = projref(I, st, a[0], (('g', key),))
    return mk('dv', phi(some(r), NONE), (('None', frozenset([(c, False)])), ('Some', frozenset([(c, True)]))), None)


@m('HashMap::remove', 'BTreeMap::remove')
def mremove(I, cs, st, f, a):
    key = I.snap(st, V(I, st, a[1]))
    m0 = I.snap(st, V(I, st, a[0]))
    c = mk('call', 'contains_key', m0, key)
    return mk('dv', phi(some(I.mapget(m0, key)), NONE), (('None', frozenset([(c, False)])), ('Some', frozenset([(c, True)]))), None)


@m('slice::get', 'slice::get_mut', 'Vec::get', 'Vec::get_mut')
def vget(I, cs, st, f, a):
    i = undv(V(I, st, a[1]))
    if i.op == 'agg' and i.a[1].startswith('Range'):
        r = projref(I, st, a[0], (('s', i),))
        return phi(some(r), NONE)
    c = canon_bin('Lt', I.snap(st, i), length(I, st, a[0]))
    r = projref(I, st, a[0], (('x', i),))
    return mk('dv', phi(some(r), NONE), (('None', frozenset([(c, False)])), ('Some', frozenset([(c, True)]))), None)


@m('Index::index', 'IndexMut::index_mut')
def index(I, cs, st, f, a):
    if f.res and f.res in I.p.bodies:
        return NotImplemented
    i = undv(V(I, st, a[1]))
    if ismap(cs, f, I):
        return projref(I, st, a[0], (('g', I.snap(st, i)),))
    if i.op == 'agg' and i.a[1].startswith('Range') or (i.op == 'call' and i.a[0] == 'RangeInclusive::new'):
        return projref(I, st, a[0], (('s', I.snap(st, i)),))
    if i.op == 'phi' and any(x.op == 'agg' for x in alts(i)):
        return projref(I, st, a[0], (('s', mk('call', 'range', I.snap(st, i))),))
    cs.fr.trace[cs.b].append(('index', cs.b, cs.line, I.snap(st, V(I, st, a[0])), I.snap(st, i), st.known))
    return projref(I, st, a[0], (('x', i),))


@m('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def firstlast(I, cs, st, f, a):
    i = k(0) if 'first' in f.canon else mk('fromend', k(1))
    c = canon_bin('Eq', length(I, st, a[0]), k(0))
    o1, o2 = set(), set()
    decompose(c, True, o1)
    decompose(c, False, o2)
    r = projref(I, st, a[0], (('x', i),))
    return mk('dv', phi(some(r), NONE), (('None', frozenset(o1)), ('Some', frozenset(o2))), None)


@m('Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back', 'BinaryHeap::pop')
def vpop(I, cs, st, f, a):
    v = V(I, st, a[0])
    return phi(some(I.marks(elem(norm_seq(undv(v))), (mk('k', 'str', 'pop'),))), NONE)


@m('Vec::remove', 'Vec::swap_remove')
def vremove(I, cs, st, f, a):
    v = V(I, st, a[0])
    return I.index(norm_seq(undv(v)), V(I, st, a[1]))


@m('Vec::clear', 'HashMap::clear', 'HashSet::clear')
def vclear(I, cs, st, f, a):
    return setv(I, st, a[0], lambda o: EMPTY), UNIT


@m('bool::then_some')
def then_some(I, cs, st, f, a):
    c = undv(V(I, st, a[0]))
    some, none = mk('agg', 'core::option::Option', 'Some', ('0',), I.snap(st, a[1])), mk('agg', 'core::option::Option', 'None', ())
    import absint as A
    if c is A.A_TRUE or c is A.TRUE:
        return some
    if c is A.A_FALSE or c is A.FALSE:
        return none
    return phi(some, none)


@m('Vec::truncate')
def vtrunc(I, cs, st, f, a):
    n = I.snap(st, a[1])
    cs.fr.trace[cs.b].append(('trunc', cs.b, cs.line, I.snap(st, V(I, st, a[0])), n, st.known, cs.loop, places(I, st, a[0])))
    return setv(I, st, a[0], lambda o: o if o.op in ('seq',) else mk('call', 'truncate', undv(I.snap(st, o)), n)), UNIT


@m('Vec::resize')
def vresize(I, cs, st, f, a):
    v, n = a[2], I.snap(st, a[1])

    def up(o):
        u = undv(o)
        if u is EMPTY:
            return mk('rep', v, n)
        return seq_add(norm_seq(o), v)
    return setv(I, st, a[0], up), UNIT


@m('Vec::append', 'Vec::extend_from_slice', 'Extend::extend', 'slice::copy_from_slice', 'slice::clone_from_slice',
   'HashMap::extend', 'Vec::extend')
def vextend(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[1])
    e = it.a[0]
    if f.canon != 'Vec::append' or True:
        e = I.deref(st, e)
    cs.fr.trace[cs.b].append(('push', cs.b, cs.line, I.snap(st, V(I, st, a[0])), I.snap(st, e), st.known, cs.loop, places(I, st, a[0])))
    sv = I.snap(st, it.a[1])
    full = 'slice' in f.canon and 'from_slice' in f.canon and not f.canon.startswith('Vec')

    def up(o):
        u = undv(o)
        if u is EMPTY and sv.op not in ('bot',) and not it.a[2] and it.a[1].op == 'src':
            return I.snap(st, it.a[1].a[0]) if not it.a[1].a[0]._hasref else seq_add(norm_seq(o), e)
        return seq_add(norm_seq(o), e)
    st2 = setv(I, st, a[0], up)
    if f.canon == 'Vec::append':
        st2 = setv(I, st2, a[1], lambda o: EMPTY)
    return st2, UNIT


MARK_SORTED = True     # rules about unordered collections switch this off


def remark(I, cs, st, a, tag):
    """the elements of a collection seen in another order, or only some of them"""
    if not locs(I, st, a):
        return st

    def go(o):
        o = undv(o)
        if o.op == 'phi':
            return phi(*[go(x) for x in alts(o)])
        es = I.mark(I.snap(st, elem_of(I, o)), tag)
        return mk('seq', None, es)
    return setv(I, st, a, go)


def elem_of(I, o):
    o = undv(o)
    if o.op == 'seq':
        es = [x for x in alts(undv(o.a[1]))] + ([elem_of(I, o.a[0])] if o.a[0] is not None else [])
        return phi(*es)
    if o.op == 'arr':
        return phi(*o.a) if o.a else mk('bot')
    if o.op == 'rep':
        return o.a[0]
    if o.op == 'bot':
        return o
    return elem(o)


@m('Vec::retain', 'Vec::retain_mut', 'HashSet::retain', 'VecDeque::retain')
def vretain(I, cs, st, f, a):
    r = projref(I, st, a[0], (('e', ()),))
    res = I.call_value(cs.sub('retain'), st, a[1], [r])
    if res is None:
        return None
    st, v = res
    v = undv(I.snap(st, v))
    cs.fr.trace[cs.b].append(('retain', cs.b, cs.line, I.snap(st, V(I, st, a[0])), v, st.known, cs.loop, places(I, st, a[0])))
    if kval(v) is True or v is A_TRUE:
        return st, UNIT
    if kval(v) is False or v is A_FALSE:
        return setv(I, st, a[0], lambda o: EMPTY) if locs(I, st, a[0]) else st, UNIT
    return remark(I, cs, st, a[0], mk('cond', v)), UNIT


@m('slice::reverse', 'slice::swap', 'Vec::dedup', 'slice::rotate_left', 'slice::rotate_right', 'slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable',
   'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def permute(I, cs, st, f, a):
    noop(I, cs, st, f, a)
    n = f.canon.split('::')[1]
    if n.startswith('sort'):
        if not MARK_SORTED:
            return UNIT
        n = 'sorted'
    return remark(I, cs, st, a[0], k({'reverse': 'rev'}.get(n, n))), UNIT


@m('Vec::reserve', 'Vec::shrink_to_fit')
def noop(I, cs, st, f, a):
    e = A.Event()
    e.canon, e.path, e.args, e.ret, e.line, e.block, e.fr, e.known = f.canon, f.path, [I.snap(st, x) for x in a], UNIT, cs.line, cs.b, cs.fr, st.known
    e.raw = f
    e.kind = cs.loop
    cs.fr.trace[cs.b].append(('ev', e))
    return UNIT


@m('slice::split_at', 'slice::split_at_mut', 'Vec::split_off')
def splitat(I, cs, st, f, a):
    n = I.snap(st, a[1])
    r1 = mk('agg', 'core::ops::range::RangeTo', 'RangeTo', ('end',), n)
    r2 = mk('agg', 'core::ops::range::RangeFrom', 'RangeFrom', ('start',), n)
    if f.canon == 'Vec::split_off':
        return projref(I, st, a[0], (('s', r2),)) if False else mk('sub', I.snap(st, V(I, st, a[0])), r2)
    return mk('tup', projref(I, st, a[0], (('s', r1),)), projref(I, st, a[0], (('s', r2),)))


@m('slice::split_first', 'slice::split_first_mut', 'slice::split_last', 'slice::split_last_mut')
def splitfirst(I, cs, st, f, a):
    if 'last' in f.canon:
        return NotImplemented
    r2 = mk('agg', 'core::ops::range::RangeFrom', 'RangeFrom', ('start',), k(1))
    parts = [projref(I, st, a[0], (('x', k(0)),)), projref(I, st, a[0], (('s', r2),))]
    if 'mut' not in f.canon:
        # what is shared cannot change: the place it came from may
        parts = [I.snap(st, x) for x in parts]
    t = mk('tup', *parts)
    return phi(mk('agg', 'core::option::Option', 'Some', ('0',), t), mk('agg', 'core::option::Option', 'None', ()))


# ---------------------------------------------------------------- entry API
@m('HashMap::entry', 'BTreeMap::entry')
def entry(I, cs, st, f, a):
    return mk('entry', a[0], I.snap(st, a[1]))


@m('Entry::or_insert', 'Entry::or_default', 'Entry::or_insert_with')
def or_insert(I, cs, st, f, a):
    e = undv(a[0])
    if e.op != 'entry':
        return NotImplemented
    mref, key = e.a
    if f.canon == 'Entry::or_insert':
        v = a[1]
    elif f.canon == 'Entry::or_default':
        t = f.args[1] if len(f.args) > 1 else None
        s = I.p.tystr(f.crate, t) if isinstance(t, int) else ''
        v = dflt(s)
    else:
        r = I.call_value(cs.sub('oi'), st, a[1], [])
        if r is None:
            return None
        st, v = r
    cur = projref(I, st, mref, (('g', key),))
    cs.fr.trace[cs.b].append(('insert', cs.b, cs.line, I.snap(st, V(I, st, mref)), mk('tup', key, I.snap(st, v)), st.known, cs.loop, (), 'vacant'))
    st2 = setv(I, st, mref, lambda o: seq_add(norm_seq(o), mk('tup', key, v)))
    return st2, cur


@m('Entry::and_modify')
def and_modify(I, cs, st, f, a):
    e = undv(a[0])
    if e.op != 'entry':
        return NotImplemented
    r = I.call_value(cs.sub('am'), st, a[1], [projref(I, st, e.a[0], (('g', e.a[1]),))])
    if r is not None:
        st = I.join2(st, r[0], cs.fr)
    return st, a[0]


# ---------------------------------------------------------------- iterators
def mkit(e, src, tags=()):
    return mk('it', e, src, tags)


def iter_of(I, cs, st, a, mode='auto'):
    """iterator term for a value / reference"""
    v = undv(a)
    if v.op == 'it':
        return v
    ls = locs(I, st, v)
    if ls is not None:
        inner = [undv(I.read(st, l)) for l in ls]
        if any(x.op == 'it' for x in inner):
            its = [x for x in inner if x.op == 'it']
            return its[0] if len(its) == 1 else mkit(phi(*[x.a[0] for x in its]), phi(*[x.a[1] for x in its]))
        if all(x.op == 'agg' and x.a[1].startswith('Range') for x in inner) and inner:
            e = phi(*[elem(x) for x in inner])
            return mkit(e, mk('src', phi(*inner)))
        src = mk('src', I.snap(st, phi(*inner)))
        es = [mk('ref', (l[0], l[1] + (('e', ()),))) for l in ls]
        return mkit(phi(*es), src)
    if v.op == 'phi' and any(x.op == 'it' for x in alts(v)):
        its = [x for x in alts(v) if x.op == 'it']
        return mkit(phi(*[x.a[0] for x in its]), phi(*[x.a[1] for x in its]))
    # Option values iterate over their content
    return mkit(I.relem(norm_seq(v), ()), mk('src', I.snap(st, v)))


def refelem_fields(e, n):
    if e.op == 'phi':
        return phi(*[refelem_fields(x, n) for x in alts(e)])
    if e.op == 'ref':
        return mk('ref', (e.a[0][0], e.a[0][1] + (('f', n),)))
    return fld(e, n)


@m('IntoIterator::into_iter', 'slice::iter', 'slice::iter_mut', 'HashMap::iter', 'HashMap::iter_mut', 'HashSet::iter',
   'IntoParallelIterator::into_par_iter', 'IntoParallelRefIterator::par_iter', 'Vec::drain', 'HashMap::drain', 'Option::iter',
   'IntoParallelRefMutIterator::par_iter_mut', 'VecDeque::iter', 'BTreeMap::iter', 'BTreeSet::iter', 'str::chars', 'str::bytes',
   'BTreeMap::iter_mut', 'Vec::into_iter', 'Iterator::by_ref', 'Iterator::fuse', 'HashMap::into_iter')
def into_iter(I, cs, st, f, a):
    if f.trait and f.res and f.res in I.p.bodies:
        return NotImplemented
    it = iter_of(I, cs, st, a[0])
    s = cs.atys[0] if cs.atys else ''
    ty = (I.p.tystr(f.crate, f.args[0]) if f.canon.startswith('Into') and f.args and isinstance(f.args[0], int) else s)
    if ('HashMap<' in ty or 'BTreeMap<' in ty) and 'Vec<' not in ty.split('Map<')[0] and 'Iter' not in ty.split('Map<')[0] and undv(a[0]).op != 'it':
        e = it.a[0]
        it = mkit(mk('tup', refelem_fields(e, '0'), refelem_fields(e, '1')), it.a[1], it.a[2])
    if f.canon == 'Vec::drain' and len(a) > 1:
        r = undv(V(I, st, a[1]))
        if not (r.op == 'agg' and r.a[1] == 'RangeFull') and r.op != 'zst':
            cs.fr.trace[cs.b].append(('drain', cs.b, cs.line, I.snap(st, V(I, st, a[0])), I.snap(st, r), st.known, cs.loop, places(I, st, a[0])))
            it = mkit(I.mark(I.deref(st, it.a[0]), mk('tup', k('drain'), I.snap(st, r))), it.a[1], it.a[2])
    return it


@m('HashMap::keys', 'BTreeMap::keys')
def keys(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    return mkit(refelem_fields(it.a[0], '0'), it.a[1], it.a[2])


@m('HashMap::values', 'HashMap::values_mut', 'BTreeMap::values', 'HashMap::into_values')
def values(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    return mkit(refelem_fields(it.a[0], '1'), it.a[1], it.a[2])


@m('Iterator::next', 'DoubleEndedIterator::next_back')
def nxt(I, cs, st, f, a):
    if f.trait and f.res and f.res in I.p.bodies and f.res not in I.opaque:
        return NotImplemented
    it = iter_of(I, cs, st, a[0])
    cs.fr.trace[cs.b].append(('nxt', cs.b, it))
    if I.must_iter(cs, I.snap(st, it.a[1])):
        return some(it.a[0])
    return phi(some(it.a[0]), NONE)


def loop_call(I, cs, st, fn, args, tag, it, n=1):
    """call fn once per element: effects joined with 'no element'"""
    r = I.call_value(cs.sub(tag, loop=(tag, it.a[1])), st, fn, args)
    if r is None:
        return st, BOT
    st1, v = r
    same = st1.v == st.v
    if not same:
        kn = st.known
        st2 = I.join2(st, st1, cs.fr)
        # second pass on the joined state
        if n:
            r2 = I.call_value(cs.sub(tag, loop=(tag, it.a[1])), A.State(st2.v, kn), fn, args)
            if r2 is not None:
                st2 = I.join2(st2, r2[0], cs.fr)
                v = join_plain(v, r2[1])
        st2.known = kn
        return st2, v
    return A.State(st1.v, st.known), v


def join_plain(a, b):
    if a is b:
        return a
    return phi(undv(a), undv(b))


@m('Iterator::map', 'ParallelIterator::map')
def imap(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    st2, v = loop_call(I, cs, st, a[1], [it.a[0]], 'map', it)
    return st2, mkit(v, it.a[1], it.a[2])


@m('slice::map', 'array::map')
def amap(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    st2, v = loop_call(I, cs, st, a[1], [it.a[0]], 'map', it)
    return st2, mk('seq', None, undv(I.snap(st2, v)))


@m('array::from_fn')
def afromfn(I, cs, st, f, a):
    n = f.targ(I.p, 1)
    n = k(int(n)) if isinstance(n, str) and n.isdigit() else mk('cparam', str(n))
    i = mk('ridx', k(0), n, 'Range')
    it = mkit(i, mk('src', mk('agg', 'Range', 'Range', ('start', 'end'), k(0), n)))
    st2, v = loop_call(I, cs, st, a[0], [i], 'map', it)
    return st2, mk('seq', None, undv(I.snap(st2, v)))


@m('Iterator::for_each', 'ParallelIterator::for_each')
def foreach(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    st2, v = loop_call(I, cs, st, a[1], [it.a[0]], 'for_each', it)
    return st2, UNIT


@m('Iterator::cloned', 'Iterator::copied', 'ParallelIterator::cloned')
def icloned(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    return mkit(I.deref(st, it.a[0]), it.a[1], it.a[2])


@m('Iterator::filter', 'Iterator::take_while', 'Iterator::skip_while')
def ifilter(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    root = (('FA', cs.key()), 0)
    st2 = st.copy()
    st2.v[root] = it.a[0]
    st2, v = loop_call(I, cs, st2, a[1], [mk('ref', (root, ()))], 'filter', it)
    if f.canon == 'Iterator::filter' and undv(v) in (k(True), A_TRUE):
        return st2, it
    tag = mk('cond', undv(I.snap(st2, v)))
    return st2, mkit(I.mark(it.a[0], tag), mk('filt', it.a[1], tag), it.a[2] + (tag,))


@m('Iterator::filter_map', 'Iterator::flat_map', 'Iterator::flatten', 'Iterator::map_while')
def ifiltermap(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    if f.canon == 'Iterator::flatten':
        v = it.a[0]
        st2 = st
    else:
        st2, v = loop_call(I, cs, st, a[1], [it.a[0]], 'map', it)
    if f.canon in ('Iterator::filter_map', 'Iterator::map_while'):
        e = fld(v, 'Some.0')
        return st2, mkit(e, mk('filt', it.a[1], mk('some', undv(I.snap(st2, v)))), it.a[2])
    inner = iter_of(I, cs, st2, v)
    return st2, mkit(inner.a[0], mk('flat', it.a[1], inner.a[1]), it.a[2])


@m('Iterator::find', 'Iterator::find_map', 'Iterator::position', 'Iterator::nth', 'Iterator::last', 'Iterator::max',
   'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::reduce')
def ifind(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    n = f.canon.split('::')[1]
    st2 = st
    if n in ('find', 'position', 'find_map'):
        arg = it.a[0]
        if n == 'find':
            root = (('FA', cs.key()), 0)
            st2 = st.copy()
            st2.v[root] = it.a[0]
            arg = mk('ref', (root, ()))
        st2, v = loop_call(I, cs, st2, a[1], [arg], n, it)
        v = I.snap(st2, v)
        if n != 'find_map' and is_k(undv(v), False):
            return st2, NONE
        sure = n != 'find_map' and is_k(undv(v), True) and I.src_nonempty(I.snap(st2, it.a[1]))
        if n == 'find_map':
            return st2, phi(some(fld(v, 'Some.0')), NONE)
        if n == 'position' and sure:
            return st2, some(mk('call', 'position', I.snap(st2, it.a[1]), undv(v)))
        if n == 'find' and sure:
            return st2, some(it.a[0])
        if n == 'position':
            return st2, phi(some(mk('call', 'position', I.snap(st2, it.a[1]), undv(I.snap(st2, v)))), NONE)
        fk = set()
        decompose(v, False, fk)
        return st2, mk('dv', phi(some(I.mark(it.a[0], k('find'))), NONE), (('None', frozenset(fk)), ('Some', frozenset())), None)
    if n == 'nth':
        i = I.snap(st, a[1])
        s = it.a[1]
        if s.op == 'src' and s.a[0].op == 'arr' and isinstance(kval(i), int) and not it.a[2]:
            return some(s.a[0].a[kval(i)]) if kval(i) < len(s.a[0].a) else NONE
        if s.op == 'src':
            e = it.a[0]
            if e.op == 'ref' and e.a[0][1] and e.a[0][1][-1] == ('e', ()):
                e = mk('ref', (e.a[0][0], e.a[0][1][:-1] + (('x', i),)))
                return phi(some(e), NONE)
        return phi(some(I.mark(I.deref(st, it.a[0]), k('nth'))), NONE)
    return phi(some(mk('call', n, I.snap(st, it.a[0]))), NONE)


@m('Iterator::zip', 'IndexedParallelIterator::zip', 'iter::zip')
def izip(I, cs, st, f, a):
    x = iter_of(I, cs, st, a[0])
    y = iter_of(I, cs, st, a[1])
    cs.fr.trace[cs.b].append(('zip', cs.b, cs.line, I.snap(st, x.a[1]), I.snap(st, y.a[1]), st.known))
    return mkit(mk('tup', x.a[0], y.a[0]), mk('zip', x.a[1], y.a[1]), x.a[2] + y.a[2])


@m('Iterator::enumerate', 'IndexedParallelIterator::enumerate')
def ienum(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    return mkit(mk('tup', mk('eidx', I.snap(st, it.a[1])), it.a[0]), it.a[1], it.a[2])


@m('Iterator::chain')
def ichain(I, cs, st, f, a):
    x = iter_of(I, cs, st, a[0])
    y = iter_of(I, cs, st, a[1])
    return mkit(phi(I.deref(st, x.a[0]) if x.a[0].op != 'ref' else x.a[0], y.a[0]), mk('chain', x.a[1], y.a[1]), x.a[2] + y.a[2])


@m('iter::once', 'once::once', 'sources::once')
def ionce(I, cs, st, f, a):
    return mkit(a[0], mk('src', mk('arr', I.snap(st, a[0]))))


@m('Iterator::rev')
def irev(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    return mkit(it.a[0], mk('rev', it.a[1]), it.a[2])


@m('Iterator::peekable')
def ipeek(I, cs, st, f, a):
    return iter_of(I, cs, st, a[0])


@m('Iterator::skip', 'Iterator::take', 'Iterator::step_by')
def iskip(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    tag = mk('tup', k(f.canon.split('::')[1]), I.snap(st, a[1]))
    return mkit(I.mark(it.a[0], tag), mk('cut', it.a[1], tag), it.a[2] + (tag,))


@m('slice::windows', 'slice::chunks', 'slice::chunks_exact', 'slice::chunks_mut', 'ParallelSlice::par_chunks')
def ichunks(I, cs, st, f, a):
    n = I.snap(st, a[1])
    v = I.snap(st, V(I, st, a[0]))
    r = mk('agg', 'core::ops::range::Range', 'Range', ('start', 'end'), mk('chunkstart', v, n), n)
    return mkit(projref(I, st, a[0], (('s', r),)), mk(f.canon.split('::')[1], v, n))


@m('Iterator::all')
def iall(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    st2, v = loop_call(I, cs, st, a[1], [it.a[0]], 'all', it)
    v = I.snap(st2, v)
    o = set()
    decompose(v, True, o)
    base = mk('call', 'all', undv(v), I.snap(st2, it.a[1]))
    if I.exists and is_k(undv(v), True):
        return st2, mk('call', 'mixed', base)
    if is_k(undv(v), True) or (is_k(undv(v), False) and I.src_nonempty(I.snap(st2, it.a[1]))):
        return st2, undv(v)
    return st2, mk('dv', base, (('False', frozenset([(base, False)])), ('True', frozenset(o | {(base, True)}))), None)


@m('Iterator::any')
def iany(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    st2, v = loop_call(I, cs, st, a[1], [it.a[0]], 'any', it)
    v = I.snap(st2, v)
    o = set()
    decompose(v, False, o)
    base = mk('call', 'any', undv(v), I.snap(st2, it.a[1]))
    if I.exists and is_k(undv(v), False):
        return st2, mk('call', 'mixed', base)
    if is_k(undv(v), False) or (is_k(undv(v), True) and I.src_nonempty(I.snap(st2, it.a[1]))):
        return st2, undv(v)
    return st2, mk('dv', base, (('False', frozenset(o | {(base, False)})), ('True', frozenset([(base, True)]))), None)


@m('Iterator::fold', 'Iterator::try_fold')
def ifold(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    acc = a[1]
    if A.scalarish(I.snap(st, acc)) and f.canon == 'Iterator::fold':
        s = mk('acc', cs.fr.id, ('fold', cs.key()), 0)
        r = I.call_value(cs.sub('fold', loop=('fold', it.a[1])), st, a[2], [s, it.a[0]])
        if r is not None:
            d = A.acc_decomp(undv(I.snap(r[0], r[1])), s)
            if d is not None:
                return I.join2(st, r[0], cs.fr), mk('red', d[0], undv(acc), d[1])
    if f.canon == 'Iterator::fold' and A.scalarish(I.snap(st, acc)) and I.src_nonempty(I.snap(st, it.a[1])):
        # a step whose result is a constant whatever was accumulated
        s = mk('hdr', cs.fr.id, ('fold', cs.key()), 0)
        r = I.call_value(cs.sub('fold', loop=('fold', it.a[1])), st, a[2], [s, it.a[0]])
        if r is not None:
            v = undv(r[1])
            if v in (TRUE, FALSE):
                return I.join2(st, r[0], cs.fr), v
            if any(x in (A_TRUE, A_FALSE) for x in alts(v)):
                return I.join2(st, r[0], cs.fr), mk('call', 'mixed', s)
    for _ in range(3):
        r = I.call_value(cs.sub('fold', loop=('fold', it.a[1])), st, a[2], [acc, it.a[0]])
        if r is None:
            break
        st1, v = r
        nacc = A.join_val(acc, st.known, v, st1.known, False)
        nst = I.join2(st, st1, cs.fr)
        if nacc is acc:
            st = nst
            break
        acc = nacc
        st = nst
    return st, acc


@m('Iterator::sum', 'Iterator::product', 'Iterator::count', 'ParallelIterator::sum')
def isum(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    n = f.canon.split('::')[1]
    if n == 'count':
        return mk('call', 'len', I.snap(st, it.a[1].a[0])) if it.a[1].op == 'src' else mk('call', 'count', I.snap(st, it.a[1]))
    op = {'sum': 'Add', 'product': 'Mul'}[n]
    return mk('red', op, k(0) if n == 'sum' else k(1), undv(I.snap(st, V(I, st, it.a[0]))))


@m('Iterator::eq')
def ieq(I, cs, st, f, a):
    x = iter_of(I, cs, st, a[0])
    y = iter_of(I, cs, st, a[1])
    return canon_bin('Eq', I.snap(st, x.a[1]), I.snap(st, y.a[1]))


@m('Iterator::collect', 'ParallelIterator::collect', 'FromIterator::from_iter', 'Iterator::unzip', 'ParallelIterator::unzip')
def icollect(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    e = it.a[0]
    if 'unzip' in f.canon:
        return mk('tup', mk('seq', None, refelem_val(I, st, e, '0')), mk('seq', None, refelem_val(I, st, e, '1')))
    dest = ''
    for x in reversed(f.args):
        if isinstance(x, int):
            dest = I.p.tystr(f.crate, x)
            break
    u = undv(e)
    head = dest.split('<', 1)[0]
    if head.endswith('Result') or (u.op in ('phi', 'agg') and all(x.op == 'agg' and x.a[0] == RES for x in alts(u)) and 'Result' in head):
        okv = fld(u, 'Ok.0')
        info = A.variants_info(e, frozenset())
        of = frozenset()
        if info is not None and 'Ok' in info[0]:
            of = info[0]['Ok']
        ev = fld(u, 'Err.0')
        if info is not None and info[1] is None and 'Ok' not in info[0] and I.nonempty is not None and not it.a[2] and I.src_nonempty(I.snap(st, it.a[1])):
            return err(ev)
        return mk('dv', phi(ok(mk('seq', None, okv)), err(ev)), (('Err', frozenset()), ('Ok', of)), None)
    if head.endswith('Option'):
        return phi(some(mk('seq', None, fld(u, 'Some.0'))), NONE)
    if e.op == 'dv':
        e = undv(e)
    if reversed_src(it.a[1]):
        return mk('seq', None, I.mark(I.snap(st, e), k('rev')))
    # whole-collection copies keep their identity
    if it.a[1].op == 'src' and not it.a[2]:
        s = it.a[1].a[0]
        ev = I.snap(st, e)
        if s.op in ('sym', 'fld', 'elem', 'at', 'get', 'call') and ev.op == 'elem' and ev.a[0] is s and 'Vec<' in dest[:24]:
            return s
    return mk('seq', None, e)


def reversed_src(s):
    n = False
    while s.op in ('rev', 'cut'):
        n ^= s.op == 'rev'
        s = s.a[0]
    return n


def refelem_val(I, st, e, n):
    return fld(I.deref(st, e), n)


@m('slice::iter_')
def _x(I, cs, st, f, a):
    return NotImplemented


# ---------------------------------------------------------------- Option / Result
VM = {'Some': '0', 'Ok': '0', 'Err': '0'}


def expand_opt(I, v, kind):
    """alternatives of an Option/Result value with the facts each implies: [(variant, payload, facts)]"""
    out = []
    u = undv(v)
    info = A.variants_info(v, frozenset())
    names = ('Some', 'None') if kind == 'o' else ('Ok', 'Err')
    for n in names:
        if info is not None:
            fx = info[0].get(n, info[1])
            if fx is None:
                continue
        else:
            fx = frozenset([(u, n)])
        if n == 'None':
            p = None
        else:
            p = fld(u, n + '.0')
            if p.op == 'bot' and u.op in ('agg', 'phi'):
                # variant present without payload information
                if info is None:
                    continue
        out.append((n, p, fx))
    return out


def build(alts_):
    """[(variant, term, facts)] -> dv"""
    if not alts_:
        return BOT
    if len(alts_) == 1:
        n, t, fx = alts_[0]
        return t if not fx else mk('dv', t, ((n, fx),), None)
    d = {}
    ts = []
    for n, t, fx in alts_:
        d[n] = fx if n not in d else (d[n] & fx)
        ts.append(t)
    return mk('dv', phi(*ts), tuple(sorted(d.items(), key=lambda z: z[0])), None)


def mapvar(v, fs):
    u = undv(v)
    if u.op == 'agg' and u.a[1] in fs:
        r = fs[u.a[1]](u.a[3] if len(u.a) > 3 else None)
        return r
    if u.op == 'phi' and all(x.op == 'agg' for x in alts(u)):
        r = phi(*[fs[x.a[1]](x.a[3] if len(x.a) > 3 else None) for x in alts(u) if x.a[1] in fs])
    else:
        r = phi(*[fs[n](fld(u, n + '.0') if n != 'None' else None) for n in fs])
    if v.op == 'dv':
        return mk('dv', r, v.a[1], v.a[2])
    return r


def kindof(f):
    return 'o' if f.canon.startswith('Option') else 'r'


def learn(st, fx):
    st = st.copy()
    st.known = st.known | fx
    return st


@m('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Option::unwrap_unchecked')
def unwrap(I, cs, st, f, a):
    v = V(I, st, a[0]) if undv(a[0]).op == 'ref' else a[0]
    n = 'Some' if kindof(f) == 'o' else 'Ok'
    for (x, p, fx) in expand_opt(I, v, kindof(f)):
        if x == n:
            return learn(st, fx), p
    return None


@m('Option::ok_or', 'Option::ok_or_else')
def ok_or(I, cs, st, f, a):
    out = []
    for (n, p, fx) in expand_opt(I, a[0], 'o'):
        if n == 'Some':
            out.append(('Ok', ok(p), fx))
        else:
            out.append(('Err', err(a[1] if f.canon.endswith('ok_or') else mk('call', 'err_else')), fx))
    return build(out)


@m('Option::map', 'Option::and_then', 'Result::map', 'Result::and_then', 'Result::map_err', 'Result::or_else', 'Option::inspect',
   'Option::filter')
def optmap(I, cs, st, f, a):
    kd = kindof(f)
    out = []
    nst = None
    op = f.canon.split('::')[1]
    target = {'map': ('Some', 'Ok'), 'and_then': ('Some', 'Ok'), 'map_err': ('Err',), 'or_else': ('Err',), 'inspect': (), 'filter': ()}[op]
    for (n, p, fx) in expand_opt(I, a[0], kd):
        if n in target:
            r = I.call_value(cs.sub(n), learn(st, fx), a[1], [p])
            if r is None:
                continue
            st1, v = r
            st1 = A.State(st1.v, st.known)
            nst = st1 if nst is None else I.join2(nst, st1, cs.fr)
            if op == 'map':
                w = some(v) if kd == 'o' else ok(v)
                out.append((n, w, fx))
            elif op == 'map_err':
                out.append((n, err(v), fx))
            else:
                # result of the closure is itself an option/result
                for (n2, p2, fx2) in expand_opt(I, v, kd):
                    t = {'Some': some, 'Ok': ok, 'Err': err}.get(n2, lambda z: NONE)(p2)
                    out.append((n2, t, fx | fx2))
        else:
            t = {'Some': some, 'Ok': ok, 'Err': err}.get(n, lambda z: NONE)(p)
            out.append((n, t, fx))
            nst = st if nst is None else I.join2(nst, st, cs.fr)
    if nst is None:
        return None
    return nst, build(out)


@m('Option::unwrap_or', 'Result::unwrap_or', 'Option::unwrap_or_default', 'Result::unwrap_or_default')
def unwrap_or(I, cs, st, f, a):
    outs = []
    for (n, p, fx) in expand_opt(I, a[0], kindof(f)):
        if n in ('Some', 'Ok'):
            outs.append(p)
        else:
            outs.append(a[1] if len(a) > 1 else mk('call', 'Default::default'))
    return phi(*[undv(x) for x in outs])


@m('Option::unwrap_or_else', 'Result::unwrap_or_else', 'Option::map_or', 'Option::map_or_else', 'Option::is_some_and',
   'Result::map_or', 'Option::is_none_or', 'Result::is_ok_and')
def unwrap_or_else(I, cs, st, f, a):
    outs = []
    nst = None
    op = f.canon.split('::')[1]
    for (n, p, fx) in expand_opt(I, a[0], kindof(f)):
        good = n in ('Some', 'Ok')
        s1 = learn(st, fx)
        r = None
        if op == 'unwrap_or_else':
            r = (s1, p) if good else I.call_value(cs.sub(n), s1, a[1], [] if n == 'None' else [p])
        elif op == 'map_or':
            r = I.call_value(cs.sub(n), s1, a[2], [p]) if good else (s1, a[1])
        elif op == 'map_or_else':
            r = I.call_value(cs.sub(n), s1, a[2] if good else a[1], [p] if p is not None else [])
        elif op in ('is_some_and', 'is_ok_and'):
            r = I.call_value(cs.sub(n), s1, a[1], [p]) if good else (s1, FALSE)
        elif op == 'is_none_or':
            r = I.call_value(cs.sub(n), s1, a[1], [p]) if good else (s1, TRUE)
        if r is None:
            continue
        outs.append((r[1], r[0].known))
        nst = r[0] if nst is None else I.join2(nst, r[0], cs.fr)
    if nst is None:
        return None
    v, kn = outs[0]
    for (w, kw) in outs[1:]:
        v = A.join_val(v, kn, w, kw, op.startswith('is_'))
        kn = kn & kw
    return nst, v


@m('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def isvar(I, cs, st, f, a):
    v = V(I, st, a[0])
    n = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[f.canon.split('::')[1]]
    al = expand_opt(I, v, kindof(f))
    u = I.snap(st, undv(v))
    tf = [fx for (x, p, fx) in al if x == n]
    ff = [fx for (x, p, fx) in al if x != n]
    if not ff:
        return TRUE
    if not tf:
        return FALSE
    if n in ('None', 'Err'):
        base = neg(mk('isv', u, {'None': 'Some', 'Err': 'Ok'}[n]))
    else:
        base = mk('isv', u, n)
    return mk('dv', base, (('False', ff[0] | {(u, ff and [x for (x, _, _) in al if x != n][0])}), ('True', tf[0] | {(u, n)})), None)


@m('Option::as_ref', 'Option::as_mut', 'Result::as_ref', 'Result::as_mut', 'Option::as_deref_mut')
def optasref(I, cs, st, f, a):
    ls = locs(I, st, a[0])
    v = V(I, st, a[0])
    kd = kindof(f)
    out = []
    for (n, p, fx) in expand_opt(I, v, kd):
        if n == 'None':
            out.append((n, NONE, fx))
            continue
        if ls is not None:
            p = phi(*[mk('ref', (l[0], l[1] + (('f', n + '.0'),))) for l in ls])
        out.append((n, {'Some': some, 'Ok': ok, 'Err': err}[n](p), fx))
    return build(out)


@m('Option::take', 'mem::take')
def take(I, cs, st, f, a):
    v = V(I, st, a[0])
    if f.canon == 'Option::take':
        d = NONE
    else:
        t0 = f.args[0] if f.args else None
        d = dflt(I.p.tystr(f.crate, t0)) if isinstance(t0, int) else mk('call', 'Default::default')
    return setv(I, st, a[0], lambda o: d), v


@m('mem::replace', 'Option::replace', 'Option::insert')
def replace(I, cs, st, f, a):
    v = V(I, st, a[0])
    n = a[1] if f.canon == 'mem::replace' else some(a[1])
    return setv(I, st, a[0], lambda o: n), v


@m('mem::swap')
def swap(I, cs, st, f, a):
    x, y = V(I, st, a[0]), V(I, st, a[1])
    st = setv(I, st, a[0], lambda o: y)
    return setv(I, st, a[1], lambda o: x), UNIT


@m('Result::ok')
def rok(I, cs, st, f, a):
    out = []
    for (n, p, fx) in expand_opt(I, a[0], 'r'):
        out.append(('Some', some(p), fx) if n == 'Ok' else ('None', NONE, fx))
    return build(out)


@m('Result::err')
def rerr(I, cs, st, f, a):
    out = []
    for (n, p, fx) in expand_opt(I, a[0], 'r'):
        out.append(('Some', some(p), fx) if n == 'Err' else ('None', NONE, fx))
    return build(out)


@m('Option::or', 'Option::or_else', 'Option::xor')
def optor(I, cs, st, f, a):
    if f.canon == 'Option::or_else':
        r = I.call_value(cs.sub('or'), st, a[1], [])
        if r is None:
            return st, a[0]
        return I.join2(st, r[0], cs.fr), phi(undv(a[0]), undv(r[1]))
    return phi(undv(a[0]), undv(a[1]))


@m('Try::branch')
def branch(I, cs, st, f, a):
    v = a[0]
    ty = cs.atys[0] if cs.atys else ''
    kd = 'o' if 'option::Option' in ty[:30] else 'r'
    u = undv(v)
    if u.op == 'agg' and u.a[1] in ('Some', 'None'):
        kd = 'o'
    out = []
    for (n, p, fx) in expand_opt(I, v, kd):
        if n in ('Some', 'Ok'):
            out.append(('Continue', mk('agg', CF, 'Continue', ('0',), p), fx))
        else:
            out.append(('Break', mk('agg', CF, 'Break', ('0',), NONE if n == 'None' else err(p)), fx))
    return build(out)


@m('FromResidual::from_residual')
def residual(I, cs, st, f, a):
    return a[0]


# ---------------------------------------------------------------- comparison / arithmetic
def scal(I, st, x):
    return undv(I.snap(st, V(I, st, x)))


@m('PartialEq::eq', 'PartialEq::ne', 'PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def cmpop(I, cs, st, f, a):
    op = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[f.canon.split('::')[1]]
    x, y = scal(I, st, a[0]), scal(I, st, a[1])
    if op in ('Eq', 'Ne'):
        u, v = undv(x), undv(y)
        if u.op == v.op == 'agg' and u.a[0] == v.a[0] and u.a[1] != v.a[1]:
            return k(op == 'Ne')
        if u.op == v.op == 'agg' and u.a[:2] == v.a[:2] and not u.a[2]:
            return k(op == 'Eq')
    return I.arith(op, x, y)


@m('Ord::cmp', 'PartialOrd::partial_cmp', 'Ord::max', 'Ord::min', 'cmp::max', 'cmp::min', 'Ord::clamp')
def ordop(I, cs, st, f, a):
    n = f.canon.split('::')[1]
    if n in ('cmp', 'partial_cmp') and f.res and f.res in I.p.bodies:
        return NotImplemented
    xs = [scal(I, st, x) for x in a]
    if n in ('max', 'min'):
        ks = [kval(x) for x in xs]
        if all(isinstance(x, int) for x in ks):
            return k(max(ks) if n == 'max' else min(ks))
        xs = sorted(xs, key=lambda t: t.id)
    c = mk('call', n, *xs)
    return some(c) if n == 'partial_cmp' else c


ARI = {'Add': 'Add', 'Sub': 'Sub', 'Mul': 'Mul', 'Div': 'Div', 'Rem': 'Rem', 'BitAnd': 'BitAnd', 'BitOr': 'BitOr',
       'BitXor': 'BitXor', 'Shl': 'Shl', 'Shr': 'Shr'}


def ari(op):
    def fn(I, cs, st, f, a):
        if f.res and f.res in I.p.bodies:
            return NotImplemented
        return canon_bin(op, scal(I, st, a[0]), scal(I, st, a[1]))
    return fn


def ariass(op):
    def fn(I, cs, st, f, a):
        if f.res and f.res in I.p.bodies:
            return NotImplemented
        v = canon_bin(op, scal(I, st, a[0]), scal(I, st, a[1]))
        for l in locs(I, st, a[0]) or ():
            cs.fr.trace[cs.b].append(('aug', op, I.placeterm(st, l), I.snap(st, scal(I, st, a[1])), st.known, cs.line))
        return setv(I, st, a[0], lambda o: v), UNIT
    return fn


for _t, _o in ARI.items():
    TAB['%s::%s' % (_t, _t.lower() if _t not in ('BitAnd', 'BitOr', 'BitXor') else _t.lower())] = ari(_o)
    TAB['%sAssign::%s_assign' % (_t, _t.lower())] = ariass(_o)


@m('Neg::neg', 'Not::not')
def negop(I, cs, st, f, a):
    if f.res and f.res in I.p.bodies:
        return NotImplemented
    v = scal(I, st, a[0])
    return neg(v) if f.canon == 'Not::not' else mk('un', 'Neg', v)


@m('num::wrapping_add', 'num::wrapping_sub', 'num::wrapping_mul', 'num::saturating_sub', 'num::pow')
def numop(I, cs, st, f, a):
    return mk('call', f.canon.split('::')[1], *[scal(I, st, x) for x in a])


@m('num::checked_add', 'num::checked_sub', 'num::checked_mul')
def checked(I, cs, st, f, a):
    op = {'checked_add': 'Add', 'checked_sub': 'Sub', 'checked_mul': 'Mul'}[f.canon.split('::')[1]]
    return phi(some(canon_bin(op, scal(I, st, a[0]), scal(I, st, a[1]))), NONE)


# ---------------------------------------------------------------- pure leaf calls (no event)
@m('Field::zero', 'Field::one', 'Field::is_zero', 'Field::inv', 'Field::to_u256', 'Field::from_u256', 'Field::double', 'Field::square',
   'num::to_le_bytes', 'num::from_le_bytes', 'num::ilog2', 'num::trailing_zeros', 'num::leading_zeros', 'mem::size_of',
   'mem::size_of_val', 'num::is_power_of_two', 'num::next_power_of_two', 'Hash::hash', 'TypeId::of', 'Instant::now', 'Error::raw',
   'error::new', 'num::count_ones', 'U256::as_u64', 'U256::as_u32', 'U256::as_usize', 'Iterator::size_hint', 'num::div_ceil',
   'intrinsics::discriminant_value_', 'num::unsigned_abs', 'num::abs_diff', 'Field::exp')
def pure(I, cs, st, f, a):
    if f.trait and f.res and f.res in I.p.bodies:
        return NotImplemented
    xs = [scal(I, st, x) for x in a]
    extra = []
    if f.canon.startswith('mem::size_of') or f.canon in ('TypeId::of', ):
        extra = [mk('ty', I.p.tystr(f.crate, x) if isinstance(x, int) else str(x)) for x in f.args]
    return mk('call', f.canon, *(xs + extra))


@m('intrinsics::discriminant_value')
def discval(I, cs, st, f, a):
    return mk('discr', V(I, st, a[0]), ())


@m('mem::drop', 'Vec::reserve_exact', 'mem::forget')
def nop2(I, cs, st, f, a):
    return UNIT


@m('Mutex::lock', 'RwLock::read', 'RwLock::write', 'Mutex::into_inner', 'Arc::try_unwrap', 'RefCell::borrow', 'RefCell::borrow_mut')
def lock(I, cs, st, f, a):
    if 'RefCell' in f.canon:
        return a[0]
    return ok(a[0])


@m('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def fncall(I, cs, st, f, a):
    tup = undv(a[1]) if len(a) > 1 else UNIT
    if tup.op == 'tup':
        xs = list(tup.a)
    else:
        xs = [tup]
    return I.call_value(cs, st, a[0], xs)


@m('Range::contains', 'RangeInclusive::contains', 'RangeFrom::contains', 'RangeTo::contains')
def range_contains(I, cs, st, f, a):
    r = undv(I.snap(st, V(I, st, a[0])))
    x = undv(I.snap(st, V(I, st, a[1])))
    if r.op == 'agg' and r.a[1] == 'Range':
        return I.bool_op('BitAnd', canon_bin('Le', r.a[3], x), canon_bin('Lt', x, r.a[4]), st)
    if r.op == 'agg' and r.a[1] == 'RangeFrom':
        return canon_bin('Le', r.a[3], x)
    if r.op == 'agg' and r.a[1] == 'RangeTo':
        return canon_bin('Lt', x, r.a[3])
    if r.op == 'call' and r.a[0] == 'RangeInclusive::new':
        return I.bool_op('BitAnd', canon_bin('Le', r.a[1], x), canon_bin('Le', x, r.a[2]), st)
    return NotImplemented


@m('Iterator::try_for_each', 'ParallelIterator::try_for_each')
def itry(I, cs, st, f, a):
    it = iter_of(I, cs, st, a[0])
    st2, v = loop_call(I, cs, st, a[1], [it.a[0]], 'try_for_each', it)
    v = I.snap(st2, v)
    if v.op == 'bot':
        return None
    info = A.variants_info(v, frozenset())
    sure = I.src_nonempty(I.snap(st2, it.a[1]))
    names = ('Ok', 'Err') if info is None or info[1] is not None else tuple(n for n in ('Ok', 'Err') if n in info[0])
    if 'Ok' not in names and not sure:
        names = ('Ok',) + names
    o = set()
    decompose(v, 'Ok', o)
    res, fs = [], []
    if 'Ok' in names:
        res.append(ok(UNIT))
        fs.append(('Ok', frozenset(o)))
    if 'Err' in names:
        res.append(err(fld(v, 'Err.0')))
        fs.append(('Err', frozenset()))
    return st2, mk('dv', phi(*res), tuple(sorted(fs)), None)
