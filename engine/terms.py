"""Hash-consed symbolic terms: the abstract values of the interpreter.

 sym(name)              opaque root (parameter, ...)
 k(v)                   literal (int, bool, str) ; named constants keep their definition: cdef(path, v)
 fld(t, n)              field n of t ('Variant.n' under a downcast)
 elem(t)                an arbitrary element of collection t (iteration, loop index)
 at(t, i)               element of t at a computed index
 get(m, k)              map lookup
 agg(adt, variant, names, vals...)   struct / enum value ; tup(vals...) ; arr(vals...)
 clo(path, caps...)     closure ; fnv(path) function value
 ref(loc)               reference to an abstract location
 seq(base|None, elem)   collection: elements of base plus elem
 it(elem, src, part)    iterator
 bin/un/cast/call/discr operations
 phi(set)               join
 dv(base, ((variant, facts)...))  value with facts implied by its variant
"""


class T:
    __slots__ = ('op', 'a', 'id', '_leaf', '_depth', '_hasref')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = a
        t.id = len(_tab)
        t._leaf = None
        d = 0
        hr = op == 'ref'
        for x in a:
            if isinstance(x, T):
                if x._depth > d:
                    d = x._depth
                if x._hasref:
                    hr = True
            elif isinstance(x, frozenset):
                for y in x:
                    if isinstance(y, T):
                        if y._depth > d:
                            d = y._depth
                        if y._hasref:
                            hr = True
        t._depth = d + 1
        t._hasref = hr
        _tab[key] = t
    return t


def sym(n):
    return mk('sym', n)


def k(v):
    return mk('k', type(v).__name__, v)


TRUE = k(True)
FALSE = k(False)
# truth values that come from an assumption about one element (see Interp.exists)
A_TRUE = mk('cdef', 'assumed', TRUE)
A_FALSE = mk('cdef', 'assumed', FALSE)
UNIT = mk('tup')
BOT = mk('bot')


def is_k(t, v=None):
    if t.op == 'cdef':
        t = t.a[1]
        if t is None:
            return False
    return t.op == 'k' and (v is None or t.a[1] == v and type(t.a[1]) == type(v))


def kval(t):
    if t.op == 'cdef':
        t = t.a[1]
    if t is not None and t.op == 'k':
        return t.a[1]
    return None


PHI_MAX = 40


def phi(*ts):
    s = set()
    for t in ts:
        if t.op == 'phi':
            s |= t.a[0]
        elif t.op != 'bot':
            s.add(t)
    if not s:
        return BOT
    if len(s) == 1:
        return next(iter(s))
    for t, b in ((A_FALSE, FALSE), (A_TRUE, TRUE)):
        if t in s and b in s:
            s.discard(t)
            if len(s) == 1:
                return b
    return mk('phi', frozenset(s))


def alts(t):
    if t.op == 'phi':
        return sorted(t.a[0], key=lambda x: x.id)
    if t.op == 'bot':
        return []
    return [t]


def undv(t):
    while t.op == 'dv':
        t = t.a[0]
    return t


def mapalts(t, f):
    if t.op == 'phi':
        return phi(*[f(x) for x in alts(t)])
    return f(t)


def fld(t, n):
    """field access; n is 'name' or 'Variant.name'"""
    t = undv(t)
    if t.op == 'phi':
        rs = [fld(x, n) for x in alts(t) if _compatible(x, n)]
        return phi(*rs)
    if t.op == 'agg':
        adt, var, names = t.a[0], t.a[1], t.a[2]
        v, _, f = n.rpartition('.')
        if v and v != var:
            return BOT
        if f in names:
            return t.a[3 + names.index(f)]
        return mk('fld', t, n)
    if t.op == 'tup' and n.isdigit() and int(n) < len(t.a):
        return t.a[int(n)]
    if t.op == 'clo' and n.isdigit() and int(n) + 1 < len(t.a):
        return t.a[1 + int(n)]
    if t.op == 'upd':
        for (m, v) in t.a[1]:
            if m == n:
                return v
        return fld(t.a[0], n)
    if t.op == 'bot':
        return BOT
    return mk('fld', t, n)


def _compatible(x, n):
    if x.op == 'dv':
        return _compatible(undv(x), n)
    v, _, f = n.rpartition('.')
    if x.op == 'agg' and v:
        return x.a[1] == v
    return True


def setfld(t, n, v):
    t = undv(t)
    if t.op == 'agg' and n in t.a[2]:
        i = 3 + t.a[2].index(n)
        return mk('agg', *(t.a[:i] + (v,) + t.a[i + 1:]))
    if t.op == 'tup' and n.isdigit() and int(n) < len(t.a):
        i = int(n)
        return mk('tup', *(t.a[:i] + (v,) + t.a[i + 1:]))
    if t.op == 'phi':
        return phi(*[setfld(x, n, v) for x in alts(t)])
    if t.op == 'upd':
        d = dict(t.a[1])
        d[n] = v
        return mk('upd', t.a[0], tuple(sorted(d.items())))
    if t.op == 'bot':
        return mk('upd', mk('uninit'), ((n, v),))
    return mk('upd', t, ((n, v),))


def elem(t):
    t = undv(t)
    if t.op == 'phi':
        return phi(*[elem(x) for x in alts(t)])
    if t.op == 'arr':
        return phi(*t.a)
    if t.op == 'rep':
        return t.a[0]
    if t.op == 'seq':
        b = elem(t.a[0]) if t.a[0] is not None else BOT
        return phi(b, t.a[1])
    if t.op == 'it':
        return t.a[0]
    if t.op == 'agg' and t.a[1] in ('Range', 'RangeInclusive'):
        return mk('ridx', t.a[3], t.a[4], t.a[1])
    if t.op == 'agg' and t.a[1] == 'RangeFrom':
        return mk('ridx', t.a[3], mk('inf'), 'Range')
    if t.op == 'agg' and t.a[1] == 'Some':
        return t.a[3]
    if t.op == 'agg' and t.a[1] == 'None':
        return BOT
    if t.op == 'bot':
        return BOT
    if t.op == 'upd':
        return elem(t.a[0])
    if t.op == 'call' and t.a[0] in ('RangeInclusive::new',):
        return mk('ridx', t.a[1], t.a[2], 'RangeInclusive')
    return mk('elem', t)


def seq_add(t, v):
    t = undv(t)
    if t.op == 'seq':
        return mk('seq', t.a[0], phi(t.a[1], v))
    if t.op == 'phi':
        # join of sequences: merge
        bases = []
        es = [v]
        for x in alts(t):
            if x.op == 'seq':
                if x.a[0] is not None:
                    bases.append(x.a[0])
                es.append(x.a[1])
            else:
                bases.append(x)
        b = phi(*bases) if bases else None
        return mk('seq', b, phi(*es))
    if t.op in ('bot', 'uninit'):
        return mk('seq', None, v)
    if t.op == 'arr':
        return mk('seq', None, phi(v, *t.a))
    return mk('seq', t, v)


EMPTY = mk('seq', None, BOT)


def norm_seq(t):
    """merge a phi of sequences into one sequence"""
    if t.op == 'phi' and any(x.op == 'seq' for x in t.a[0]):
        r = seq_add(t, BOT)
        return r
    return t


def subterms(t, seen=None):
    """all sub-terms, each once"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, (frozenset, tuple)):
                _push(y, st)


def _push(y, st):
    for z in y:
        if isinstance(z, T):
            st.append(z)
        elif isinstance(z, (tuple, frozenset)):
            _push(z, st)


def rewrite(t, f, memo=None):
    """bottom-up rewriting"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op in ('phi',):
            r = phi(*[go(y) for y in x.a[0]])
        else:
            na = tuple(conv(y) for y in x.a)
            r = mk(x.op, *na) if na != x.a else x
        r = f(r)
        memo[x.id] = r
        return r

    def conv(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(conv(z) for z in y)
        if isinstance(y, frozenset):
            return frozenset(conv(z) for z in y)
        return y

    return go(t)


PATH_OPS = ('fld', 'elem', 'at', 'get')


def leaves(t):
    """maximal access paths rooted at sym / call results / constants occurring in t"""
    out = set()
    seen = set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op in ('sym', 'k', 'cdef'):
            out.add(x)
        elif x.op in ('fld', 'elem'):
            r = x
            while r.op in ('fld', 'elem'):
                r = r.a[0]
            if r.op in ('sym',):
                out.add(x)
            else:
                go(x.a[0])
        else:
            for y in x.a:
                if isinstance(y, T):
                    go(y)
                elif isinstance(y, (tuple, frozenset)):
                    lst = []
                    _push(y, lst)
                    for z in lst:
                        go(z)
    go(t)
    return out


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, frozenset):
            return '{' + ', '.join(sorted(show(x, d + 1) for x in t)) + '}'
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 14:
        return '...'
    o, a = t.op, t.a
    if o == 'sym':
        return str(a[0])
    if o == 'k':
        return repr(a[1])
    if o == 'cdef':
        return a[0].split('::')[-1]
    if o == 'fld':
        return show(a[0], d) + '.' + a[1]
    if o == 'elem':
        return show(a[0], d) + '[*]'
    if o == 'at':
        return '%s[%s]' % (show(a[0], d), show(a[1], d + 1))
    if o == 'get':
        return '%s{%s}' % (show(a[0], d), show(a[1], d + 1))
    if o == 'agg':
        return '%s%s{%s}' % (a[0].split('::')[-1], '' if a[0].endswith('::' + a[1]) else '::' + a[1],
                             ', '.join('%s: %s' % (n, show(v, d + 1)) for n, v in zip(a[2], a[3:])))
    if o == 'phi':
        return 'phi{' + ' | '.join(sorted(show(x, d + 1) for x in a[0])) + '}'
    if o == 'bin':
        return '(%s %s %s)' % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x, d + 1) for x in a[1:] if isinstance(x, T)))
    if o == 'dv':
        return 'dv<%s>' % show(a[0], d)
    if o == 'seq':
        return 'seq(%s + %s)' % ('' if a[0] is None else show(a[0], d + 1), show(a[1], d + 1))
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))
