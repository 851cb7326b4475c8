"""Abstract input tape.

The lookahead character is the term ('la',), the character consumed d steps ago is
('ch', d); a string built from consumed characters is the segment ('seg', A, d):
everything from absolute offset A up to d steps before now.  Consuming a character
renames the terms, so the domain is relative and loops over the input reach a
fixpoint.
"""
from engine import core, chars as CH
from .common import definite, show

LA = ('la',)
NOW = ('now',)
KEEP = 2
OLD = ('old', 'tape')


def multisubst(x, f, memo):
    if not isinstance(x, (tuple, frozenset)):
        return x
    i = id(x)
    r = memo.get(i)
    if r is not None:
        return r[0]
    y = f(x) if isinstance(x, tuple) else None
    if y is None:
        if isinstance(x, frozenset):
            y = frozenset(multisubst(z, f, memo) for z in x)
        else:
            ch = False
            out = []
            for z in x:
                w = multisubst(z, f, memo) if isinstance(z, (tuple, frozenset)) else z
                ch = ch or w is not z
                out.append(w)
            y = tuple(out) if ch else x
    memo[i] = (y, x)
    return y


def tsubst(st, f):
    """apply a term transformer to memory, facts and ghost"""
    memo = {}
    nm = {}
    for k, v in st.mem.items():
        nm[multisubst(k, f, memo)] = multisubst(v, f, memo)
    st.mem = nm
    nf = {}
    for k, v in st.facts.items():
        k2 = multisubst(k, f, memo)
        if k2 != k and core.contains(k2, OLD):
            continue
        nf[resort(k2)] = multisubst(v, f, memo) if isinstance(v, tuple) else v
    st.facts = nf
    st.ghost = {k: multisubst(v, f, memo) if isinstance(v, (tuple, frozenset)) else v
                for k, v in st.ghost.items()}


def resort(k):
    """symmetric relations keep their arguments in canonical order"""
    if k[0] == 'b' and k[1][0] == 'op' and k[1][1] in ('ceq', 'eq', 'ieq') and repr(k[1][2]) > repr(k[1][3]):
        return ('b', k[1][:2] + (k[1][3], k[1][2]) + k[1][4:])
    return k


def shift(t):
    h = t[0] if t else None
    if h == 'la' and len(t) == 1:
        return ('ch', 1)
    if h == 'ch' and len(t) == 2:
        return ('ch', t[1] + 1) if t[1] < KEEP else OLD
    if h == 'now' and len(t) == 1:
        return ('ago', 1)
    if h == 'ago' and len(t) == 2:
        return ('ago', t[1] + 1) if t[1] < KEEP else OLD
    if h == 'seg' and len(t) == 3:
        return ('seg', t[1], t[2] + 1) if t[2] < KEEP else OLD
    return None


def span(p, n):
    """(abs start or None, distance start, distance end) of a string part on the tape"""
    v = p[1]
    if v[0] == 't':
        v = v[1]
    if v == LA:
        d = 0
    elif v[0] == 'ch' and len(v) == 2:
        d = v[1]
    elif v[0] == 'seg':
        return v[1], None, v[2]
    else:
        return None
    return (n - d if isinstance(n, int) else None), d, d - 1


def merge(parts, n, pre=None):
    """join adjacent tape parts; pre: known characters at absolute offsets"""
    out = []
    off = 0
    for p in parts:
        s = span(p, n) if p[0] in ('c', 'v') else None
        if s is None and p[0] == 'lit' and pre is not None and len(p[1]) == 1 and not out:
            for a, m in enumerate(pre):
                if m == CH.mask_of(p[1]) and CH.singleton(m):
                    # a literal equal to the consumed character at offset a
                    out.append(('abs', a, a + 1))
                    break
            else:
                out.append(p)
            continue
        if s is None:
            out.append(p)
            continue
        a, d, e = s
        if out and out[-1][0] == 'abs' and (a == out[-1][2] or (a is None and False)):
            q = out[-1]
            out[-1] = ('v', core.T(('seg', q[1], e)))
            continue
        if out and out[-1][0] == 'v':
            q = span(out[-1], n)
            if q is not None and q[2] == d and q[0] is not None:
                out[-1] = ('v', core.T(('seg', q[0], e)))
                continue
            if q is not None and q[0] is not None and a is not None and isinstance(n, int) and n - q[2] == a:
                out[-1] = ('v', core.T(('seg', q[0], e)))
                continue
        if a is not None and e >= 0:
            out.append(('v', core.T(('seg', a, e))))
        else:
            out.append(p)
    return tuple(out)


def norm_strings(st, n):
    def f(t):
        if t and t[0] == 'str' and len(t) == 2 and isinstance(t[1], tuple):
            m = merge(t[1], n)
            if m != t[1]:
                return ('str', m)
        return None
    memo = {}
    for k in list(st.mem):
        v = st.mem[k]
        w = multisubst(v, f, memo)
        if w is not v:
            st.mem[k] = w


NMAX = 3


class Tape(core.Client):
    """contract operations of a bounded character view over one tape

    ghost: eof (None unknown), n (characters consumed, capped), h (first masks);
    ('now',) is the current position, ('ago', d) the position d characters before
    """
    track_head = 2

    def init_ghost(self):
        return {'eof': None, 'n': 0, 'h': ()}

    # --- hooks for subclasses ------------------------------------------
    def on_consume(self, I, st, c):
        """called before the lookahead is consumed; False prunes the path"""
        return True

    def is_tape(self, I, st, c):
        return c.impl_self.split('<')[0].endswith('::ParseProcess')

    def tape_closed(self, I, st, c):
        """may the view be used now"""
        return True

    # --- events -------------------------------------------------------
    def look(self, I, st):
        """[(state, present?)]"""
        e = st.ghost['eof']
        if e is not None:
            return [(st, not e)]
        a, b = st.copy(), st
        a.ghost['eof'] = True
        b.ghost['eof'] = False
        return [(a, False), (b, True)]

    def consume(self, I, st, c):
        """consume the lookahead (must be present); returns the character value or None"""
        if self.on_consume(I, st, c) is False:
            return None
        n = st.ghost['n']
        if n != 'many' and n < self.track_head:
            st.ghost['h'] = st.ghost['h'] + (I.char_dom(st, core.T(LA)),)
        norm_strings(st, n)
        # facts about characters that are no longer tracked are dropped by tsubst
        tsubst(st, shift)
        n2 = 'many' if n == 'many' or n + 1 > NMAX else n + 1
        st.ghost['n'] = n2
        norm_strings(st, n2)
        st.ghost['eof'] = None
        return core.T(('ch', 1))

    def op(self, I, st, c):
        name = c.name
        if name == 'cur_pos':
            return [(st, core.T(NOW))]
        outs = []
        if name in ('peek', 'peek_mut'):
            for s, p in self.look(I, st):
                outs.append((s, core.Some(core.T(LA)) if p else core.NONE))
            return outs
        if name == 'next':
            for s, p in self.look(I, st):
                if not p:
                    outs.append((s, core.NONE))
                    continue
                ch = self.consume(I, s, c)
                if ch is not None:
                    outs.append((s, core.Some(ch)))
            return outs
        if name == 'next_if_eq':
            for s, p in self.look(I, st):
                if not p:
                    outs.append((s, core.NONE))
                    continue
                exp = I.deep(s, c.args[1])
                if exp[0] == 't':
                    exp = I.read(s, (('S', exp[1]), ()))
                for s2, eq in self.branch(I, s, I.op_ceq(core.T(LA), exp)):
                    if not eq:
                        outs.append((s2, core.NONE))
                        continue
                    for s3, ch in self.consumes(I, s2, c):
                        outs.append((s3, core.Some(ch)))
            return outs
        if name == 'next_if':
            for s, p in self.look(I, st):
                if not p:
                    outs.append((s, core.NONE))
                    continue
                for s2, r in self.apply_pred(I, s, c, c.args[1]):
                    for s3, t in self.branch(I, s2, r):
                        if not t:
                            outs.append((s3, core.NONE))
                            continue
                        for s4, ch in self.consumes(I, s3, c):
                            outs.append((s4, core.Some(ch)))
            return outs
        return None

    def consumes(self, I, st, c):
        """consume with case splits asked for by on_consume"""
        outs, work = [], [st]
        while work:
            s = work.pop()
            snap = s.copy()
            try:
                ch = self.consume(I, s, c)
            except core.Split as sp:
                for alt in sp.alts:
                    x = alt(snap.copy())
                    if x is not None:
                        work.append(x)
                continue
            if ch is not None:
                outs.append((s, ch))
        return outs

    def branch(self, I, st, bv):
        if bv[0] == 'k':
            return [(st, bool(bv[2]))]
        if bv[0] != 't' or core.opaque(bv):
            a, b = st.copy(), st.copy()
            a.notes = b.notes = st.notes | {'opq'}
            return [(a, True), (b, False)]
        out = []
        for val in (True, False):
            s = st.copy()
            if I.assume(s, bv[1], val):
                out.append((s, val))
        return out

    def apply_pred(self, I, st, c, fv):
        x = fv
        if x[0] == 'r':
            x = I.read(st, x[1])
        if x[0] == 'fn':
            return I.sub(st, x[1].f, [core.T(LA)])
        if x[0] == 'a' and isinstance(x[1], tuple) and x[1][0] == 'closure':
            return sub_closure(I, st, x, [core.T(LA)])
        if x[0] == 't':
            return [(st, core.T(('op', 'pred', x, core.T(LA))))]
        st.notes = st.notes | {'opq'}
        return [(st, core.T(('opq', 'pred')))]

    def call(self, I, st, c):
        if self.is_tape(I, st, c) and c.name in ('peek', 'peek_mut', 'next', 'next_if', 'next_if_eq', 'cur_pos'):
            outs, work = [], [st]
            while work:
                s = work.pop()
                snap = s.copy()
                try:
                    r = self.op(I, s, c)
                except core.Split as sp:
                    for alt in sp.alts:
                        x = alt(snap.copy())
                        if x is not None:
                            work.append(x)
                    continue
                if r is None:
                    return None
                outs += r
            return outs
        return None


def sub_closure(I, st, cl, args):
    key = cl[1][1]
    fn = I.fns.get(key)
    if fn is None:
        st.notes = st.notes | {'opq'}
        return [(st, core.T(('opq', 'closure')))]
    a0 = cl
    if fn['locals'][1]['ty'].startswith('&'):
        root = ('H', ('cl', key))
        st.mem[root] = cl
        a0 = ('r', (root, ()))
    return I.sub(st, {'name': fn['name'], 'path': fn['path'], 'inst': key, 'local': fn['local']}, [a0] + args)


def allowed(I, st, spec, q):
    m = 0
    for mask, nxt in spec['t'].get(q, ()):
        m |= mask
    return m


def poslin(I, v):
    """position value as a linear form over ('now',)"""
    atoms, c = I.lin(v)
    d = {}
    for t, k in atoms:
        if t[0] == 'ago':
            d[NOW] = d.get(NOW, 0) + k
            c -= k * t[1]
        else:
            d[t] = d.get(t, 0) + k
    return tuple(sorted(((t, k) for t, k in d.items() if k), key=repr)), c
