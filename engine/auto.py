"""Event automata over the inlined control flow graph of an analysed function."""
from terms import *
import absint as A


def err_blocks(fr):
    """blocks of a frame that build or propagate an error value"""
    out = set()
    for b, (st, t, cl) in enumerate(fr.body.blocks):
        if t[0] == 'call' and t[1][0] == 'fn' and t[1][1]['n'] == 'from_residual':
            out.add(b)
        for pl, rv, line in st:
            if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][2] == 'Err' and rv[1][1].endswith('result::Result'):
                out.add(b)
    return out


class NFA:
    def __init__(self, fr, select, prune_err=True, prune=None, items=None, enter=None):
        """select(event, frame) -> label or None; enter(facts on entry of a block) -> label or None"""
        self.enter = enter
        self.eps = {}
        self.lab = {}
        self.final = set()
        self.prune_err = prune_err
        self.prune = prune
        self.select = select
        self.items = items
        self.loops = {}     # event id -> stack of loops
        self.seen = set()
        self.add(fr)
        self.start = self.entry(fr, 0)
        for b in range(len(fr.body.blocks)):
            if fr.body.blocks[b][1][0] == 'ret' and b in fr.trace:
                self.final.add((fr.id, b, len(fr.trace[b])))
        self.trim()

    def entry(self, fr, b):
        l = self.enter(fr.bknown.get(b, frozenset())) if self.enter is not None else None
        if l is None:
            return (fr.id, b, 0)
        self.lab[(fr.id, b, -1)] = [(l, None, (fr.id, b, 0))]
        return (fr.id, b, -1)

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def add(self, fr):
        if fr.id in self.seen:
            return
        self.seen.add(fr.id)
        items = self.items
        bad = err_blocks(fr) if self.prune_err else set()
        if self.prune is not None:
            bad |= self.prune(fr)
        for b, tr in fr.trace.items():
            if b in bad:
                continue
            for i, it in enumerate(tr):
                n0, n1 = (fr.id, b, i), (fr.id, b, i + 1)
                if it[0] == 'ev':
                    l = self.select(it[1], fr)
                    if l is not None:
                        tg = n1
                        if it[1].kind is not None:
                            self.e(n0, n1)
                        self.lab.setdefault(n0, []).append((l, it[1], tg))
                        if it[1].kind is not None:
                            self.e(n1, n0)
                    else:
                        self.e(n0, n1)
                elif items is not None and it[0] in ('push', 'insert', 'st', 'aug') and items(it, fr) is not None:
                    self.lab.setdefault(n0, []).append((items(it, fr), it, n1))
                    if it[0] == 'push' and it[6] is not None:
                        self.e(n0, n1)
                        self.e(n1, n0)
                elif it[0] == 'fr':
                    ch = it[1]
                    self.add(ch)
                    self.e(n0, self.entry(ch, 0))
                    for rb in range(len(ch.body.blocks)):
                        if ch.body.blocks[rb][1][0] == 'ret' and rb in ch.trace:
                            rn = (ch.id, rb, len(ch.trace[rb]))
                            self.e(rn, n1)
                            if it[2] is not None:
                                self.e(rn, n0)
                    if it[2] is not None:
                        self.e(n0, n1)
                else:
                    self.e(n0, n1)
            end = (fr.id, b, len(tr))
            for (x, s) in fr.edges:
                if x == b and s not in bad and s in fr.trace:
                    self.e(end, self.entry(fr, s))

    def trim(self):
        """keep nodes from which a final node is reachable"""
        rev = {}
        for a, bs in self.eps.items():
            for b in bs:
                rev.setdefault(b, set()).add(a)
        for a, ls in self.lab.items():
            for l, ev, b in ls:
                rev.setdefault(b, set()).add(a)
        good = set(self.final)
        st = list(good)
        while st:
            x = st.pop()
            for y in rev.get(x, ()):
                if y not in good:
                    good.add(y)
                    st.append(y)
        self.good = good

    def closure(self, ns):
        out = set(n for n in ns if n in self.good)
        st = list(out)
        while st:
            x = st.pop()
            for y in self.eps.get(x, ()):
                if y in self.good and y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    def init(self):
        return self.closure({self.start})

    def step(self, S):
        """label -> (events, next state)"""
        d = {}
        for n in S:
            for l, ev, t in self.lab.get(n, ()):
                if t in self.good:
                    x = d.setdefault(l, ([], set()))
                    x[0].append(ev)
                    x[1].add(t)
        return {l: (evs, self.closure(ts)) for l, (evs, ts) in d.items()}

    def accepts(self, S):
        return any(n in self.final for n in S)

    def words(self, limit=40):
        """a short description of the language: transitions of the determinised automaton"""
        ids = {}
        out = []
        st = [self.init()]
        ids[st[0]] = 0
        while st and len(out) < limit:
            S = st.pop(0)
            for l, (evs, T_) in sorted(self.step(S).items(), key=lambda z: str(z[0])):
                if T_ not in ids:
                    ids[T_] = len(ids)
                    st.append(T_)
                out.append('%d -%s-> %d' % (ids[S], l, ids[T_]))
            if self.accepts(S):
                out.append('%d accepting' % ids[S])
        return out


def compare(n1, n2, cap=4000):
    """language equality by simultaneous determinisation: (None | counterexample, [(label, events1, events2)])"""
    start = (n1.init(), n2.init())
    seen = {start: ()}
    work = [start]
    pairs = []
    while work:
        S, U = work.pop(0)
        w = seen[(S, U)]
        if len(seen) > cap:
            return ('too many states', w), pairs
        if n1.accepts(S) != n2.accepts(U):
            return (('first ends here' if n1.accepts(S) else 'second ends here'), w), pairs
        a, b = n1.step(S), n2.step(U)
        for l in sorted(set(a) | set(b), key=str):
            if l not in a:
                return ('only the second continues with %s' % (l,), w), pairs
            if l not in b:
                return ('only the first continues with %s' % (l,), w), pairs
            pairs.append((l, a[l][0], b[l][0]))
            nx = (a[l][1], b[l][1])
            if nx not in seen:
                seen[nx] = w + (l,)
                work.append(nx)
    return None, pairs


def within(nfa, delta, start, final):
    """every word of the automaton is accepted by the deterministic automaton delta[(state, label)]: None | counterexample word"""
    s0 = (nfa.init(), start)
    seen = {s0: ()}
    work = [s0]
    while work:
        S, q = work.pop(0)
        w = seen[(S, q)]
        if nfa.accepts(S) and q not in final:
            return w + ('end',)
        for l, (evs, nx) in sorted(nfa.step(S).items(), key=lambda z: str(z[0])):
            r = delta.get((q, l))
            if r is None:
                return w + (l,)
            if (nx, r) not in seen:
                seen[(nx, r)] = w + (l,)
                work.append((nx, r))
    return None
