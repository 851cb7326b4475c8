"""Disjunctive abstract interpreter over the MIR facts written by the driver.

The interpreter propagates abstract states (abstract memory + path facts + a
ghost typestate owned by the property) along the control-flow graph of the
analysed function and of everything it calls, until a fixpoint: a state that was
already seen at a join point is not propagated again, objects minted in a loop
are summarised by recency ('cur' = this iteration, 'old' = any earlier one), and
values that keep changing at a loop head are widened to an opaque value.  Nothing
is executed and no solver is involved.

Values
  ('k', ty, v)                 constant
  ('t', term)                  unknown value named by a term; if it is a reference
                               or box the same term also names the pointee
  ('a', adt, variant, fields)  aggregate; fields = ((name, value), ...)
  ('w', base, overrides)       base value with some projections overwritten
  ('r', (root, proj))          reference to a place
  ('vec', base, items)         base value (or None = empty) followed by items
  ('str', parts)               string: parts are ('lit', s) ('v', value) ('c', charvalue)
  ('set', base, ops)           hash set built from base by ops
  ('map', base, entries)       hash map: base overridden by (key, value) entries
  ('it', kind, ...)            iterator
  ('fn', callee)               function item
Terms are nested tuples, see mk* below.
"""
import sys

from . import chars as CH

UNIT = ('a', 'tuple', None, ())
UNDEF = ('undef',)
USIZE_MAX = (1 << 64) - 1


class Split(Exception):
    """the state must be split: alts is a list of functions st -> st | None"""
    def __init__(self, alts):
        self.alts = alts


class Unmodelled(Exception):
    pass


class Budget(Exception):
    pass


def K(ty, v):
    return ('k', ty, v)


TRUE, FALSE = K('bool', True), K('bool', False)


def T(t):
    return ('t', t)


def Some(v):
    return ('a', 'core::option::Option', 'Some', (('0', v),))


NONE = ('a', 'core::option::Option', 'None', ())


def Ok(v):
    return ('a', 'core::result::Result', 'Ok', (('0', v),))


def Err(v):
    return ('a', 'core::result::Result', 'Err', (('0', v),))


def tup(*vs):
    return ('a', 'tuple', None, tuple((str(i), v) for i, v in enumerate(vs)))


def fld(v, name):
    for n, x in v[3]:
        if n == name:
            return x
    raise KeyError(name)


_HASH = {}


def contains(x, pred_sub):
    """does nested tuple x contain the sub-tuple pred_sub"""
    if x == pred_sub:
        return True
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple) and contains(y, pred_sub):
                return True
    return False


def has_tag(x, tags):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in tags:
            return True
        for y in x:
            if isinstance(y, tuple) and has_tag(y, tags):
                return True
    return False


def subst(x, a, b, memo=None):
    if memo is None:
        memo = {}
    if x == a:
        return b
    if not isinstance(x, tuple):
        if isinstance(x, frozenset):
            return frozenset(subst(y, a, b, memo) for y in x)
        return x
    i = id(x)
    r = memo.get(i)
    if r is not None:
        return r[0]
    ch = False
    out = []
    for y in x:
        z = subst(y, a, b, memo) if isinstance(y, (tuple, frozenset)) else y
        if z is not y:
            ch = True
        out.append(z)
    res = tuple(out) if ch else x
    memo[i] = (res, x)
    return res


def opaque(v):
    """value whose identity is lost (summarised or unmodelled)"""
    return has_tag(v, ('old', 'wid', 'opq', 'undef', 'own')) or has_tag(v, ('setsize',)) and (len(sizes(v)) > 1 or haslen(v))


def haslen(v):
    if not isinstance(v, tuple):
        return False
    return len(v) > 1 and v[:2] == ('op', 'len') or any(haslen(x) for x in v)


def counter(wid):
    """a number counted up from a constant in a loop: any number, when nothing else bounds the loop"""
    return T(('setsize', ('count', wid)))


def counter_of(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'setsize' and v[1][0] == 'count':
            return v
        for x in v:
            c = counter_of(x)
            if c:
                return c
    return None


def sizes(v):
    """numbers of members of sets mentioned in v: each alone is free, how two of them relate is not known"""
    if not isinstance(v, tuple):
        return set()
    if v and v[0] == 'setsize':
        return {v}
    return set().union(*map(sizes, v)) if v else set()


class St:
    __slots__ = ('frames', 'mem', 'facts', 'ghost', 'loops', 'live', 'notes')

    def __init__(self):
        self.frames = ()
        self.mem = {}
        self.facts = {}
        self.ghost = {}
        self.loops = ()
        self.live = frozenset()   # minted ids that may occur in the state
        self.notes = frozenset()  # imprecision notes

    def copy(self):
        s = St.__new__(St)
        s.frames = self.frames
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ghost = dict(self.ghost)
        s.loops = self.loops
        s.live = self.live
        s.notes = self.notes
        return s


class Frame:
    __slots__ = ('key', 'fn', 'bb', 'dest', 'ret', 'ctx')

    def __init__(self, key, fn, bb, dest, ret, ctx):
        self.key, self.fn, self.bb, self.dest, self.ret, self.ctx = key, fn, bb, dest, ret, ctx

    def at(self, bb):
        return Frame(self.key, self.fn, bb, self.dest, self.ret, self.ctx)

    def id(self):
        return (self.ctx, self.bb)


class Client:
    """hooks; the default client records nothing"""
    name = '?'

    def __init__(self):
        self.violations = {}
        self.obligations = {}
        self.undecided = {}
        self.analysed = set()

    # --- results -----------------------------------------------------
    def violation(self, key, msg, where=''):
        self.violations.setdefault(key, (msg, where))

    def ob(self, what, n=1):
        self.obligations[what] = self.obligations.get(what, 0) + n

    def undec(self, what):
        self.undecided[what] = self.undecided.get(what, 0) + 1

    # --- hooks -------------------------------------------------------
    def call(self, I, st, c):
        return None

    def iter_next(self, I, st, it, item, c):
        """a symbolic iterator yields item"""

    def iter_end(self, I, st, it, c):
        pass

    def iter_step(self, I, st, it, c):
        """an iterator is about to be advanced"""

    def write(self, I, st, place, val, sp):
        pass

    def ret(self, I, st, val):
        """the analysed root returns val"""

    def panic(self, I, st, kind, c):
        """the path panics"""

    def recursion(self, I, st, c):
        return None

    def renamed(self, I, st, old, new):
        """a minted object became old; ghost has been renamed already"""


class CallInfo:
    __slots__ = ('f', 'args', 'site', 'sp', 'ty', 't', 'frame')

    @property
    def name(self):
        return self.f.get('name')

    @property
    def path(self):
        return self.f.get('path') or ''

    @property
    def impl_self(self):
        return self.f.get('impl_self') or ''

    @property
    def trait(self):
        return self.f.get('trait') or self.f.get('impl_trait') or ''

    def is_(self, self_suffix, name):
        return self.f.get('name') == name and self.impl_self.endswith(self_suffix)


def short(path):
    return (path or '').split('::')[-1]


def replen(t):
    """least length of a container a completed loop has built (it exists only after an item)"""
    if t[0] == 'op' and t[1] == 'len' and len(t) == 3 and t[2][0] == 't' and t[2][1][0] == 'rep':
        chunks = t[2][1][4]
        if chunks and all(isinstance(o, tuple) and o[0] not in ('cat', 'seq') for ops, _ in chunks for o in ops):
            return min(len(ops) for ops, _ in chunks)
    return 0


def loopmod():
    from . import loops
    return loops


class Interp:
    def __init__(self, facts, client, max_states=60000):
        self.F = facts
        self.fns = facts.fns
        self.client = client
        self.ctxs = {}
        self.ctxinfo = []
        self.max_states = max_states
        self.nstates = 0
        self.steps = 0
        self.synth = {}
        self.unmodelled = {}
        self.visited = None
        self.inlined = set()
        from . import models
        self.models = models
        from . import loops
        self.loops = loops
        self.points = getattr(client, 'points', None)
        self.pointadts = self.points.adts if self.points else ()
        if self.points is not None:
            from . import points
            self.pointmod = points

    # ---------------------------------------------------------------- ctx
    def ctx(self, parent, key, bb):
        k = (parent, key, bb)
        i = self.ctxs.get(k)
        if i is None:
            i = self.ctxs[k] = len(self.ctxinfo)
            self.ctxinfo.append(k)
        return i

    def mint(self, st, mid):
        """term for the object created now at site mid; a previous one becomes old"""
        cur = ('m', mid, 'cur')
        if mid in st.live:
            self.rename(st, cur, ('old', mid))
        st.live = st.live | {mid}
        return cur

    def rename(self, st, a, b):
        memo = {}
        for k in list(st.mem):
            v = st.mem[k]
            nk = subst(k, a, b, memo)
            nv = subst(v, a, b, memo)
            if nk != k:
                del st.mem[k]
                if nk not in st.mem:
                    st.mem[nk] = nv
                else:
                    st.mem[nk] = T(('opq', 'merge'))
            elif nv is not v:
                st.mem[k] = nv
        nf = {}
        for k, v in st.facts.items():
            nk = subst(k, a, b, memo)
            if nk is not k and nk != k:
                continue            # facts about old objects are dropped
            nf[k] = subst(v, a, b, memo) if isinstance(v, tuple) else v
        # facts about the old summary that existed before stay dropped too
        st.facts = {k: v for k, v in nf.items() if not contains(k, b)}
        st.ghost = {subst(k, a, b, memo) if isinstance(k, tuple) else k:
                    (subst(v, a, b, memo) if isinstance(v, (tuple, frozenset)) else v)
                    for k, v in st.ghost.items()}
        st.frames = tuple(self._ren_frame(f, a, b, memo) for f in st.frames)
        self.client.renamed(self, st, a, b)

    def _ren_frame(self, f, a, b, memo):
        d = subst(f.dest, a, b, memo) if f.dest is not None else None
        if d is f.dest or d == f.dest:
            return f
        return Frame(f.key, f.fn, f.bb, d, f.ret, f.ctx)

    # ---------------------------------------------------------------- facts
    def assume(self, st, term, val):
        """assume boolean term == val; returns False when contradictory"""
        if term[0] == 'k':
            return bool(term[2]) == val
        if term[0] == 't':
            term = term[1]
        d = self.decide(st, term)
        if d is not None:
            return d == val
        if term[0] == 'op':
            op = term[1]
            if op == 'not':
                return self.assume(st, term[2], not val)
            if op in ('ieq', 'ilt'):
                return self._assume_int(st, op, term[2], term[3], term[4] if len(term) > 4 else True, val)
            if op == 'ceq':
                return self._assume_char(st, term[2], term[3], val)
            if op == 'isv':
                return self._assume_variant(st, term[2], term[3], term[4], val)
            if op == 'eqic' and not val and not self._assume_char(st, term[2], term[3], False):
                return False
            if op == 'cpred':
                m = CH.pred_mask(term[2])
                if m is not None:
                    return self.char_meet(st, term[3], m if val else CH.ALL & ~m)
            if op == 'and':
                if val:
                    return self.assume(st, term[2], True) and self.assume(st, term[3], True)
            if op == 'or':
                if not val:
                    return self.assume(st, term[2], False) and self.assume(st, term[3], False)
        st.facts[('b', term)] = val
        return True

    def decide(self, st, term):
        if term[0] == 'k':
            return bool(term[2])
        if term[0] == 't':
            term = term[1]
        r = st.facts.get(('b', term))
        if r is not None:
            return r
        if term[0] == 'op':
            op = term[1]
            if op == 'not':
                r = self.decide(st, term[2])
                return None if r is None else not r
            if op in ('ieq', 'ilt'):
                return self._decide_int(st, op, term[2], term[3], term[4] if len(term) > 4 else True)
            if op == 'eq':
                return self._decide_eq(st, term[2], term[3])
            if op == 'fits' and term[2] in ('add', 'sub'):
                return self._decide_fits(st, term)
            if op == 'ovf' and term[2] in ('Add', 'Sub'):
                r = self._decide_fits(st, ('op', 'fits', term[2].lower(), term[5], term[3], term[4]))
                return None if r is None else not r
            if op == 'ceq':
                return self._decide_char(st, term[2], term[3])
            if op == 'isv':
                f = st.facts.get(('var', term[2]))
                if f is not None:
                    return f == term[4]
                return False if term[4] in st.facts.get(('varn', term[2]), ()) else None
            if op == 'eqic':
                return True if self.decide(st, self.op_ceq(term[2], term[3])) is True else None
            if op == 'cpred':
                m = CH.pred_mask(term[2])
                if m is not None:
                    d = self.char_dom(st, term[3])
                    if d & m == 0:
                        return False
                    if d & ~m == 0:
                        return True
                return None
            if op == 'and':
                a, b = self.decide(st, term[2]), self.decide(st, term[3])
                if a is False or b is False:
                    return False
                if a and b:
                    return True
                return None
            if op == 'or':
                a, b = self.decide(st, term[2]), self.decide(st, term[3])
                if a or b:
                    return True
                if a is False and b is False:
                    return False
                return None
        return None

    def _decide_eq(self, st, a, b):
        """a value equal to one literal differs from every other literal"""
        for lit, x in ((a, b), (b, a)):
            if literal(lit) is None:
                continue
            for k, v in st.facts.items():
                if v is True and k[0] == 'b' and k[1][0] == 'op' and k[1][1] == 'eq':
                    for l2, y in ((k[1][2], k[1][3]), (k[1][3], k[1][2])):
                        if y == x and literal(l2) is not None and literal(l2) != literal(lit):
                            return False
        return None

    def test(self, st, bv):
        """decide a boolean value or split the state on it"""
        if bv[0] == 'k':
            return bool(bv[2])
        if bv[0] != 't':
            raise Unmodelled('bool %r' % (bv[0],))
        r = self.decide(st, bv[1])
        if r is not None:
            return r
        term = bv[1]
        lost = opaque(term)

        def mk(val):
            def f(s):
                if lost:
                    s.notes = s.notes | {'opq'}
                return s if self.assume(s, term, val) else None
            return f
        raise Split([mk(True), mk(False)])

    # chars
    def char_dom(self, st, c):
        if c[0] == 'k':
            return CH.mask_of(c[2])
        if c[0] == 't':
            return st.facts.get(('cd', c[1]), CH.ALL)
        return CH.ALL

    def char_meet(self, st, c, m):
        d = self.char_dom(st, c) & m
        if d == 0:
            return False
        if c[0] == 't':
            st.facts[('cd', c[1])] = d
        return True

    def _decide_char(self, st, a, b):
        if a == b and not opaque(a):
            return True
        da, db = self.char_dom(st, a), self.char_dom(st, b)
        if da & db == 0:
            return False
        if da == db and CH.singleton(da):
            return True
        f = samefn(a, b)
        if f and self.decide(st, self.op_ceq(*f)) is True:
            return True
        return self._same_char(st, a, b)

    def _same_char(self, st, a, b):
        """equal to the same character, or to two characters known to differ"""
        pairs = [(k[1][2], k[1][3], v) for k, v in st.facts.items()
                 if k[0] == 'b' and k[1][0] == 'op' and k[1][1] == 'ceq']
        if not any(v for _, _, v in pairs):
            return None

        def group(x):
            g = {x}
            while True:
                new = {q for p, q, v in pairs if v and p in g} | {p for p, q, v in pairs if v and q in g}
                if new <= g:
                    return g
                g |= new
        ga = group(a)
        if b in ga:
            return None if opaque(a) or opaque(b) else True
        gb = group(b)
        if len(ga) == len(gb) == 1:
            return None
        if any(not v and (p in ga and q in gb or p in gb and q in ga) for p, q, v in pairs):
            return False
        da = db = CH.ALL
        for x in ga:
            da &= self.char_dom(st, x)
        for x in gb:
            db &= self.char_dom(st, x)
        return False if da & db == 0 else None

    def _assume_char(self, st, a, b, val):
        da, db = self.char_dom(st, a), self.char_dom(st, b)
        if val:
            m = da & db
            if not self.char_meet(st, a, m) or not self.char_meet(st, b, m):
                return False
            if a[0] == 't' and b[0] == 't':
                st.facts[('b', self.op_ceq(a, b)[1])] = True
            return True
        if CH.singleton(db):
            return self.char_meet(st, a, CH.ALL & ~db)
        if CH.singleton(da):
            return self.char_meet(st, b, CH.ALL & ~da)
        st.facts[('b', self.op_ceq(a, b)[1])] = False
        f = samefn(a, b)
        return not f or self.assume(st, self.op_ceq(*f), False)

    def op_ceq(self, a, b):
        if repr(a) > repr(b):
            a, b = b, a
        return T(('op', 'ceq', a, b))

    # ints: linear forms over terms
    def lin(self, v):
        if v[0] == 'k':
            return ((), int(v[2]))
        if v[0] == 't':
            t = v[1]
            if t[0] == 'lin':
                return (t[1], t[2])
            return (((t, 1),), 0)
        return (((('opq', 'int', v), 1),), 0)

    def unlin(self, l, ty='int'):
        atoms, c = l
        if not atoms:
            return K('int', c)
        if c == 0 and len(atoms) == 1 and atoms[0][1] == 1:
            return T(atoms[0][0])
        return T(('lin', atoms, c))

    def ladd(self, a, b, k=1):
        d = {}
        for t, c in a[0]:
            d[t] = d.get(t, 0) + c
        for t, c in b[0]:
            d[t] = d.get(t, 0) + k * c
        return (tuple(sorted(((t, c) for t, c in d.items() if c), key=repr)), a[1] + k * b[1])

    def iadd(self, a, b, k=1):
        return self.unlin(self.ladd(self.lin(a), self.lin(b), k))

    def times(self, a, b):
        """linear when one factor is a small constant"""
        if a[0] == 'k':
            a, b = b, a
        if b[0] == 'k' and 0 <= b[2] <= 16:
            l = self.lin(a)
            return self.unlin((tuple((t, c * b[2]) for t, c in l[0] if b[2]), l[1] * b[2]))
        return T(('op', 'mul') + tuple(sorted((a, b), key=repr)))

    def interval(self, st, atoms, unsigned=True):
        """(lo, hi, excluded) known for the linear form; sign-normalised"""
        if len(atoms) == 1 and abs(atoms[0][1]) > 1:
            c = atoms[0][1]
            lo, hi, ex = self.interval(st, ((atoms[0][0], 1),), unsigned)
            lo, hi = (None if lo is None else lo * c), (None if hi is None else hi * c)
            return (lo, hi, frozenset(x * c for x in ex)) if c > 0 else (hi, lo, frozenset(x * c for x in ex))
        neg = atoms[0][1] < 0
        key = tuple((t, -c) for t, c in atoms) if neg else atoms
        lo, hi, ex = st.facts.get(('iv', key), (None, None, frozenset()))
        if unsigned:
            if all(c > 0 for _, c in key) and (lo is None or lo < 0):
                lo = 0
        if len(key) == 1 and key[0][1] == 1:
            n = replen(key[0][0])
            if n and (lo is None or lo < n):
                lo = n
        # one-step transitive bounds through single atoms
        if len(key) > 1 and unsigned:
            slo = shi = 0
            for t, c in key:
                l, h, _ = st.facts.get(('iv', ((t, 1),)), (None, None, None))
                if l is None:
                    l = 0
                if c > 0:
                    slo = None if (slo is None) else slo + c * l
                    shi = None if (shi is None or h is None) else shi + c * h
                else:
                    slo = None if (slo is None or h is None) else slo + c * h
                    shi = None if (shi is None) else shi + c * l
            if slo is not None and (lo is None or slo > lo):
                lo = slo
            if shi is not None and (hi is None or shi < hi):
                hi = shi
        if neg:
            return (None if hi is None else -hi, None if lo is None else -lo,
                    frozenset(-x for x in ex))
        return lo, hi, ex

    def narrow(self, st, atoms, lo, hi, ne=None, unsigned=True):
        if len(atoms) == 1 and abs(atoms[0][1]) > 1:
            c = atoms[0][1]
            if c < 0:
                lo, hi = hi, lo
            lo, hi = (None if lo is None else -(-lo // c)), (None if hi is None else hi // c)
            if ne is not None and ne % c:
                ne = None
            return self.narrow(st, ((atoms[0][0], 1),), lo, hi, None if ne is None else ne // c, unsigned)
        neg = atoms[0][1] < 0
        key = atoms
        if neg:
            key = tuple((t, -c) for t, c in atoms)
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            ne = None if ne is None else -ne
        l, h, ex = self.interval(st, key, unsigned)
        if lo is not None and (l is None or lo > l):
            l = lo
        if hi is not None and (h is None or hi < h):
            h = hi
        if ne is not None:
            ex = ex | {ne}
        while l is not None and l in ex:
            l += 1
        while h is not None and h in ex:
            h -= 1
        if l is not None and h is not None and l > h:
            return False
        ex = frozenset(x for x in ex if (l is None or x > l) and (h is None or x < h))
        st.facts[('iv', key)] = (l, h, ex)
        return True

    def known_discr(self, st, d):
        """discriminants of values whose variant is known become numbers"""
        if not any(x[0] == 'discr' for x, _ in d[0]):
            return d
        rest, n = [], d[1]
        for x, c in d[0]:
            name = st.facts.get(('var', x[1])) if x[0] == 'discr' else None
            info = self.F.adts.get(x[2]) if name is not None else None
            for v in (info['variants'] if info else ()):
                if v['name'] == name:
                    n += c * int(v['discr'])
                    break
            else:
                rest.append((x, c))
        return (tuple(rest), n)

    def _decide_int(self, st, op, a, b, unsigned=True):
        d = self.known_discr(st, self.ladd(self.lin(a), self.lin(b), -1))
        if opaque(d[0]) and not d[0]:
            return None
        if not d[0]:
            if opaque(a):
                return None
            return d[1] == 0 if op == 'ieq' else d[1] < 0
        lo, hi, ex = self.interval(st, d[0], unsigned)
        c = -d[1]          # compare form with c
        if op == 'ieq':
            if (lo is not None and c < lo) or (hi is not None and c > hi) or c in ex:
                return False
            if lo is not None and lo == hi == c:
                return True
            return None
        if hi is not None and hi < c:
            return True
        if lo is not None and lo >= c:
            return False
        return None

    def _decide_fits(self, st, term):
        _, _, op, ty, a, b = term
        rng = int_range(short(ty)) if short(ty) in INTS else None
        if rng is None:
            return None
        l = self.ladd(self.lin(a), self.lin(b), 1 if op == 'add' else -1)
        if opaque(l):
            return None
        if not l[0]:
            return rng[0] <= l[1] <= rng[1]
        lo, hi, _ = self.interval(st, l[0], not short(ty).startswith('i'))
        if lo is not None and lo + l[1] > rng[1] or hi is not None and hi + l[1] < rng[0]:
            return False
        if lo is not None and hi is not None and lo + l[1] >= rng[0] and hi + l[1] <= rng[1]:
            return True
        return None

    def _assume_int(self, st, op, a, b, unsigned, val):
        d = self.ladd(self.lin(a), self.lin(b), -1)
        if not d[0]:
            return True
        c = -d[1]
        if op == 'ieq':
            if val:
                return self.narrow(st, d[0], c, c, None, unsigned)
            return self.narrow(st, d[0], None, None, c, unsigned)
        if val:
            return self.narrow(st, d[0], None, c - 1, None, unsigned)
        return self.narrow(st, d[0], c, None, None, unsigned)

    def ieq(self, a, b, unsigned=True):
        if a[0] == 'k' and b[0] == 'k':
            return K('bool', int(a[2]) == int(b[2]))
        if repr(a) > repr(b):
            a, b = b, a
        return T(('op', 'ieq', a, b) if unsigned else ('op', 'ieq', a, b, False))

    def ilt(self, a, b, unsigned=True):
        if a[0] == 'k' and b[0] == 'k':
            return K('bool', int(a[2]) < int(b[2]))
        return T(('op', 'ilt', a, b) if unsigned else ('op', 'ilt', a, b, False))

    def bnot(self, a):
        if a[0] == 'k':
            return K('bool', not a[2])
        if a[1][0] == 'op' and a[1][1] == 'not':
            return a[1][2] if a[1][2][0] in ('t', 'k') else T(a[1][2])
        return T(('op', 'not', a))

    # variants
    def variant(self, st, v, adt=None):
        """variant name of an enum value, splitting when unknown"""
        if v[0] == 'a':
            return v[2]
        if v[0] == 'w':
            return self.variant(st, v[1], adt)
        if v[0] == 't':
            f = st.facts.get(('var', v[1]))
            if f is not None:
                return f
            info = self.F.adts.get(adt) if adt else None
            if info is None:
                raise Unmodelled('variant of %r' % (v,))
            no = st.facts.get(('varn', v[1]), frozenset())
            names = [x['name'] for x in info['variants'] if x['name'] not in no]
            self.split_variant(v[1], names)
        raise Unmodelled('variant of %s' % v[0])

    def known_variant(self, st, v):
        if v[0] == 'a':
            return v[2]
        if v[0] == 'w':
            return self.known_variant(st, v[1])
        if v[0] == 't':
            return st.facts.get(('var', v[1]))
        return None

    def isvariant(self, a, b):
        """discriminant compared with a constant"""
        if a[0] == 't' and a[1][0] == 'discr' and b[0] == 'k':
            info = self.F.adts.get(a[1][2])
            for x in (info['variants'] if info else ()):
                if int(x['discr']) == int(b[2]):
                    return T(('op', 'isv', a[1][1], a[1][2], x['name']))
        return None

    def _assume_variant(self, st, x, adt, name, val):
        if val:
            st.facts[('var', x)] = name
            return self.discr_ok(st, x)
        no = st.facts.get(('varn', x), frozenset()) | {name}
        rest = [v['name'] for v in self.F.adts[adt]['variants'] if v['name'] not in no]
        if len(rest) == 1:
            st.facts[('var', x)] = rest[0]
            return self.discr_ok(st, x)
        else:
            st.facts[('varn', x)] = no
        return bool(rest)

    def split_variant(self, term, names):
        def mk(n):
            def f(s):
                s.facts[('var', term)] = n
                return s if self.discr_ok(s, term) else None
            return f
        raise Split([mk(n) for n in names])

    def discr_ok(self, st, term):
        """what was learnt about discriminants agrees with the variants now known"""
        for k, v in st.facts.items():
            if k[0] == 'iv' and any(x[0] == 'discr' and x[1] == term for x, _ in k[1]):
                d = self.known_discr(st, (k[1], 0))
                if not d[0] and (v[0] is not None and d[1] < v[0] or v[1] is not None and d[1] > v[1] or d[1] in v[2]):
                    return False
        return True

    # ---------------------------------------------------------------- memory
    def rootval(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'S':
                return T(root[1])
            return UNDEF
        return v

    def read(self, st, place):
        root, proj = place
        v = self.rootval(st, root)
        for e in proj:
            v = self.project(st, v, e)
        return v

    def project(self, st, v, e):
        k = v[0]
        if k == 'r':
            # auto-deref: a field of a reference value (box/ref identified)
            return self.project(st, self.read(st, v[1]), e)
        if isinstance(e, tuple):
            t = e[0]
            if t == 'v':
                if k == 'a':
                    return v
                if k == 'w':
                    for oe, ov in v[2]:
                        if oe == e:
                            return ov
                    return self.project(st, v[1], e)
                if k == 't':
                    return T(('.', v[1], e))
                return UNDEF
            if t == 'x':
                return self.index(st, v, e[1])
            if t == 'e':
                return self.mapval(st, v, e[1])
            if t == 'sub':
                return ('subv', v, e[1], e[2])
        else:
            if k == 'a':
                for n, x in v[3]:
                    if n == e:
                        return x
                if v[1] in ('Box', 'Rc') and e != '*':
                    return self.project(st, fld(v, '*'), e)
                return UNDEF
            if k == 'w':
                for oe, ov in v[2]:
                    if oe == e:
                        return ov
                return self.project(st, v[1], e)
            if k == 't':
                if e == '*':
                    return v
                return T(('.', v[1], e))
            if k in ('vec', 'str', 'set', 'map', 'it', 'k', 'subv', 'pset', 'pmap') and e == '*':
                return v
        return UNDEF if k == 'undef' else T(('opq', 'proj', e if isinstance(e, str) else e[0]))

    def vlen(self, st, v):
        k = v[0]
        if k == 'vec':
            n = K('int', len(v[2]))
            if v[1] is None:
                return n
            return self.iadd(self.vlen(st, v[1]), n)
        if k == 'w':
            return self.vlen(st, v[1])
        if k == 'a' and v[1] == 'array':
            return K('int', len(v[3]))
        if k == 'subv':
            end = v[3] if v[3] is not None else self.vlen(st, v[1])
            return self.iadd(end, v[2], -1)
        if k == 't':
            if v[1][0] == 'op' and v[1][1] == 'init':
                return self.iadd(self.vlen(st, v[1][2]), K('int', 1), -1)
            return T(('op', 'len', v))
        if k == 'r':
            return self.vlen(st, self.read(st, v[1]))
        return T(('op', 'len', v))

    def index(self, st, v, i):
        k = v[0]
        if k == 'r':
            return self.index(st, self.read(st, v[1]), i)
        if k == 'subv':
            return self.index(st, v[1], self.iadd(i, v[2]))
        if k == 'w':
            for oe, ov in reversed(v[2]):
                if isinstance(oe, tuple) and oe[0] == 'x':
                    if self.test(st, self.ieq(oe[1], i)):
                        return ov
            return self.index(st, v[1], i)
        if k == 'a':
            if i[0] == 'k' and i[2] < len(v[3]):
                return v[3][i[2]][1]
            return T(('opq', 'index'))
        if k == 'vec':
            base, items = v[1], v[2]
            if base is None:
                if i[0] == 'k':
                    if i[2] < len(items):
                        return items[i[2]]
                    return UNDEF
                return T(('opq', 'index'))
            if not items:
                return self.index(st, base, i)
            bl = self.vlen(st, base)
            if self.test(st, self.ilt(i, bl)):
                return self.index(st, base, i)
            for j, it in enumerate(items):
                if j == len(items) - 1 or self.test(st, self.ieq(i, self.iadd(bl, K('int', j)))):
                    return it
        if k == 't':
            return T(('.', v[1], ('x', i)))
        if k == 'undef':
            return UNDEF
        return T(('opq', 'index'))

    def mapval(self, st, v, key):
        if v[0] == 'r':
            return self.mapval(st, self.read(st, v[1]), key)
        if v[0] == 'pmap':
            return self.pointmod.at(self, st, v, key)
        if v[0] == 'map':
            for ek, ev in reversed(v[2]):
                e = self.veq(st, ek, key)
                if e is None:
                    e = self.test(st, self.eq_term(st, ek, key))
                if e:
                    return ev
            return self.mapval(st, v[1], key) if v[1] is not None else UNDEF
        if v[0] == 't':
            p = loopmod().pick(self, st, v, key)
            if p is not None:
                return p[1][-1] if p[1] else self.mapval(st, p[0], key) if p[0] is not None else UNDEF
            return T(('.', v[1], ('e', key)))
        return T(('opq', 'mapval'))

    def write(self, st, place, val, sp=None, hook=True):
        root, proj = place
        if hook and self.client.write(self, st, place, val, sp) == 'skip':
            return
        if not proj:
            st.mem[root] = val
            return
        st.mem[root] = self.put(st, self.rootval(st, root), proj, val)

    def put(self, st, base, proj, val):
        if not proj:
            return val
        e, rest = proj[0], proj[1:]
        if base[0] == 'r' :
            # write through an auto-deref'd reference
            pl = base[1]
            self.write(st, (pl[0], pl[1] + tuple(proj)), val, None, False)
            return base
        if isinstance(e, tuple) and e[0] == 'sub':
            # write into a sub slice: shift the index
            if rest and isinstance(rest[0], tuple) and rest[0][0] == 'x':
                return self.put(st, base, (('x', self.iadd(rest[0][1], e[1])),) + rest[1:], val)
            return T(('opq', 'subwrite'))
        if e == '*' and base[0] in ('vec', 'str', 'set', 'map', 'k', 'undef', 'pset', 'pmap') and not rest:
            return val
        sub = self.project(st, base, e) if rest else None
        new = self.put(st, sub, rest, val) if rest else val
        if isinstance(e, tuple):
            if e[0] == 'v':
                if base[0] == 'a':
                    return new
                return self.override(base, e, new)
            if e[0] == 'x':
                if base[0] == 'vec' and base[1] is None and e[1][0] == 'k' and e[1][2] < len(base[2]):
                    i = e[1][2]
                    return ('vec', None, base[2][:i] + (new,) + base[2][i + 1:])
                if base[0] == 'a':
                    i = e[1][2] if e[1][0] == 'k' else None
                    if i is None or i >= len(base[3]):
                        return T(('opq', 'arraywrite'))
                    return base[:3] + (base[3][:i] + ((base[3][i][0], new),) + base[3][i + 1:],)
                if base[0] == 'vec' and base[1] is not None and base[2]:
                    bl = self.vlen(st, base[1])
                    if self.test(st, self.ilt(e[1], bl)):
                        return ('vec', self.put(st, base[1], (e,), new), base[2])
                    for j in range(len(base[2])):
                        if j == len(base[2]) - 1 or self.test(st, self.ieq(e[1], self.iadd(bl, K('int', j)))):
                            return ('vec', base[1], base[2][:j] + (new,) + base[2][j + 1:])
                if base[0] == 'vec' and base[1] is not None:
                    return ('vec', self.put(st, base[1], (e,), new), ())
                return self.override_x(st, base, e, new)
            if e[0] == 'e':
                if base[0] == 'pmap':
                    return self.pointmod.put(self, st, base, e[1], new)
                if base[0] == 'map':
                    ents = []
                    for ek, ev in base[2]:
                        q = self.veq(st, ek, e[1])
                        if q is None:
                            q = self.test(st, self.eq_term(st, ek, e[1]))
                        if not q:
                            ents.append((ek, ev))
                    return ('map', base[1], tuple(ents) + ((e[1], new),))
                return ('map', base, ((e[1], new),))
        if base[0] == 'a':
            out, done = [], False
            for n, x in base[3]:
                if n == e:
                    out.append((n, new))
                    done = True
                else:
                    out.append((n, x))
            if not done:
                out.append((e, new))
            return base[:3] + (tuple(out),)
        if base[0] == 'undef':
            return ('a', '?', None, ((e, new),))
        return self.override(base, e, new)

    def override(self, base, e, new):
        if base[0] == 'w':
            return ('w', base[1], tuple(sorted([(oe, ov) for oe, ov in base[2] if oe != e] + [(e, new)],
                                               key=lambda x: repr(x[0]))))
        if new == self_proj(base, e):
            return base
        return ('w', base, ((e, new),))

    def override_x(self, st, base, e, new):
        if base[0] == 'w':
            ovs = []
            for oe, ov in base[2]:
                if isinstance(oe, tuple) and oe[0] == 'x' and self.test(st, self.ieq(oe[1], e[1])):
                    continue
                ovs.append((oe, ov))
            return ('w', base[1], tuple(sorted(ovs + [(e, new)], key=lambda x: repr(x[0]))))
        return ('w', base, ((e, new),))

    # ---------------------------------------------------------------- equality
    def deep(self, st, v, depth=0):
        """value with references replaced by what they point at"""
        if depth > 12:
            return v
        k = v[0]
        if k == 'r':
            return self.deep(st, self.read(st, v[1]), depth + 1)
        if k == 'a':
            if v[1] in ('Box', 'Rc'):
                return self.deep(st, fld(v, '*'), depth + 1)
            return ('a', v[1], v[2], tuple((n, self.deep(st, x, depth + 1)) for n, x in v[3]))
        if k == 'vec':
            if v[1] is not None and not v[2]:
                return self.deep(st, v[1], depth + 1)
            return ('vec', None if v[1] is None else self.deep(st, v[1], depth + 1),
                    tuple(self.deep(st, x, depth + 1) for x in v[2]))
        if k == 't':
            f = st.facts.get(('c', v[1]))
            # an overwritten symbolic pointee
            ov = st.mem.get(('S', v[1]))
            if ov is not None and ov != v:
                return self.deep(st, ov, depth + 1)
            return v if f is None else f
        if k == 'str':
            return self.strnorm(st, v)
        return v

    def strnorm(self, st, v):
        if v[0] == 'r':
            return self.strnorm(st, self.read(st, v[1]))
        if v[0] == 'a' and v[1] in ('Box', 'Rc'):
            return self.strnorm(st, fld(v, '*'))
        if v[0] == 't':
            return v
        if v[0] != 'str':
            return v
        out = []
        for p in v[1]:
            if p[0] == 'v':
                q = self.strnorm(st, p[1])
                if q[0] == 'str':
                    ps = q[1]
                else:
                    ps = (('v', q),)
            elif p[0] == 'c' and p[1][0] == 'k':
                ps = (('lit', p[1][2]),)
            else:
                ps = (p,)
            for x in ps:
                if x[0] == 'lit' and out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + x[1])
                elif x[0] == 'lit' and x[1] == '':
                    pass
                else:
                    out.append(x)
        if len(out) == 1 and out[0][0] == 'v':
            return out[0][1]
        return ('str', tuple(out))

    def veq(self, st, a, b):
        """must/must-not equality of two values by content: True/False/None"""
        a, b = self.deep(st, a), self.deep(st, b)
        if a == b:
            return None if opaque(a) else True
        if a[0] == 'k' and b[0] == 'k':
            return a[2] == b[2]
        if a[0] == 'a' and b[0] == 'a':
            if a[1] != b[1]:
                return None
            if a[2] != b[2]:
                return False
            if len(a[3]) != len(b[3]):
                return None
            res = True
            for (n, x), (m, y) in zip(a[3], b[3]):
                r = self.veq(st, x, y)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        va, vb = self.known_variant(st, a), self.known_variant(st, b)
        if va is not None and vb is not None and va != vb:
            return False
        t = self.eq_term(st, a, b)
        if t[0] == 'k':
            return t[2]
        return self.decide(st, t[1])

    def eq_term(self, st, a, b):
        """boolean value for content equality"""
        a, b = self.deep(st, a), self.deep(st, b)
        if a == b and not opaque(a):
            return TRUE
        if a[0] == 'k' and b[0] == 'k':
            return K('bool', a[2] == b[2])
        for x in (a, b):
            if x[0] == 'k' and x[1] == 'char' or x[0] == 't' and x[1][0] in ('la', 'ch'):
                return self.op_ceq(a, b)
            if x[0] == 'k' and x[1] == 'int' or x[0] == 't' and x[1][0] == 'lin':
                return self.ieq(a, b)
        if a[0] == 'str' or b[0] == 'str':
            if a[0] == 'str' and b[0] == 'str':
                la = ''.join(p[1] for p in a[1]) if all(p[0] == 'lit' for p in a[1]) else None
                lb = ''.join(p[1] for p in b[1]) if all(p[0] == 'lit' for p in b[1]) else None
                if la is not None and lb is not None:
                    return K('bool', la == lb)
        if a[0] == 'a' and b[0] == 'a':
            if a[2] != b[2]:
                return FALSE
            if len(a[3]) == len(b[3]):
                res = TRUE
                for (n, x), (m, y) in zip(a[3], b[3]):
                    e = self.eq_term(st, x, y)
                    if e == FALSE:
                        return FALSE
                    if e == TRUE:
                        continue
                    res = e if res == TRUE else T(('op', 'and', res, e))
                return res
        if repr(a) > repr(b):
            a, b = b, a
        # plain symbolic equality; integers and chars go through the same term
        return T(('op', 'eq', a, b))

    # ---------------------------------------------------------------- MIR eval
    def lroot(self, st, l):
        return ('L', len(st.frames) - 1, l)

    def place(self, st, p):
        root, proj = self.lroot(st, p['l']), ()
        for e in p['p']:
            if e[0] == '*':
                v = self.read(st, (root, proj))
                root, proj = self.deref(st, v, (root, proj))
            elif e[0] == 'f':
                proj = proj + (str(e[2]) if len(e) > 2 and e[2] is not None else str(e[1]),)
            elif e[0] == 'v':
                proj = proj + (('v', e[2]),)
            elif e[0] == 'i':
                proj = proj + (('x', self.read(st, (self.lroot(st, e[1]), ()))),)
            elif e[0] == 'ci':
                if e[2]:
                    raise Unmodelled('const index from end')
                proj = proj + (('x', K('int', e[1])),)
            elif e[0] == 'ss':
                proj = proj + (('sub', K('int', e[1]), None),)
            else:
                raise Unmodelled('proj %r' % (e,))
        return root, proj

    def deref(self, st, v, pl):
        if v[0] == 'r':
            return v[1]
        if v[0] == 't':
            return (('S', v[1]), ())
        if v[0] == 'a' and v[1] in ('Box', 'Rc'):
            return (pl[0], pl[1] + ('*',))
        return (pl[0], pl[1] + ('*',))

    def operand(self, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.read(st, self.place(st, o['p']))
        return self.const(st, o)

    def const(self, st, o):
        if 'bool' in o:
            return K('bool', o['bool'])
        if 'char' in o:
            return K('char', o['char'])
        if 'int' in o:
            return K('int', int(o['int']))
        if 'hex' in o:
            return K('bytes', o['hex'])
        if 'str' in o:
            return ('str', (('lit', o['str']),)) if o['str'] else ('str', ())
        if 'fn' in o:
            return ('fn', FrozenCallee(o['fn']))
        if 'promoted' in o:
            return self.promoted(st, o)
        if 'cfields' in o:
            fs = tuple((f['name'], self.const(st, f)) for f in o['cfields'])
            if 'cadt' not in o:
                return ('a', 'tuple', None, fs)
            info = self.F.adts.get(o['cadt'])
            return ('a', o['cadt'], o['cvar'] if info is None or info['kind'] == 'enum' else None, fs)
        if o.get('zst'):
            ty = o.get('ty', '')
            return UNIT if ty == '()' else ('a', 'zst:' + ty, None, ())
        return T(('opq', 'const', o.get('item') or o.get('ty') or '?'))

    def promoted(self, st, o):
        """promoted constants: evaluate their straight-line body"""
        key = o['promoted']
        fn = self.fns.get(key)
        if fn is None:
            return T(('opq', 'promoted', str(key)))
        # value = ref to a pseudo root holding the evaluated constant
        root = ('P', key)
        if root not in st.mem:
            sub = st.copy()
            depth = len(sub.frames)
            sub.frames = sub.frames + (Frame(key, fn, 0, None, None, -1),)
            bb, guard = 0, 0
            while True:
                guard += 1
                if guard > 20:
                    return T(('opq', 'promoted'))
                b = fn['blocks'][bb]
                for s in b['s']:
                    self.stmt(sub, s)
                t = b['t']
                if t['k'] == 'goto':
                    bb = t['t']
                elif t['k'] == 'ret':
                    break
                else:
                    return T(('opq', 'promoted'))
            v = sub.mem.get(('L', depth, 0), UNDEF)
            v = self.rebase_promoted(sub, v, depth, key, st)
            st.mem[root] = v
        v = st.mem[root]
        if v[0] in ('r', 'str', 't'):
            return v
        return ('r', (root, ()))

    def rebase_promoted(self, sub, v, depth, key, st):
        if v[0] == 'r' and v[1][0][0] == 'L' and v[1][0][1] == depth:
            nr = ('P', key, v[1][0][2])
            st.mem[nr] = self.rebase_promoted(sub, sub.mem.get(v[1][0], UNDEF), depth, key, st)
            return ('r', (nr, v[1][1]))
        if v[0] == 'a':
            return v[:3] + (tuple((n, self.rebase_promoted(sub, x, depth, key, st)) for n, x in v[3]),)
        return v

    def rvalue(self, st, r):
        k = r['k']
        if k == 'use':
            return self.operand(st, r['a'])
        if k in ('ref', 'rawptr'):
            p = r['p']
            if p['p'] and p['p'][-1][0] == '*':
                bp = self.place(st, {'l': p['l'], 'p': p['p'][:-1]})
                v = self.read(st, bp)
                if not (v[0] == 'a' and v[1] in ('Box', 'Rc')) and v[0] != 'undef':
                    return v
            pl = self.place(st, p)
            return self.mkref(st, pl)
        if k == 'bin':
            return self.binop(st, r)
        if k == 'un':
            a = self.operand(st, r['a'])
            if r['op'] == 'Not':
                return self.bnot(a) if a[0] in ('k', 't') else T(('opq', 'not'))
            if r['op'] == 'Neg':
                if a[0] == 'k':
                    return K('int', -a[2])
                return self.iadd(K('int', 0), a, -1)
            if r['op'] == 'PtrMetadata':
                return self.vlen(st, a)
            return T(('opq', 'un', r['op']))
        if k == 'discr':
            v = self.read(st, self.place(st, r['p']))
            return self.discr(st, v, r.get('adt'))
        if k == 'agg':
            return self.agg(st, r)
        if k == 'cast':
            return self.cast(st, r)
        if k == 'repeat':
            return T(('opq', 'repeat'))
        return T(('opq', k))

    def mkref(self, st, pl):
        if pl[0][0] == 'S' and not pl[1]:
            return T(pl[0][1])
        return ('r', pl)

    def discr(self, st, v, adt):
        if v[0] == 'r':
            v = self.read(st, v[1])
        name = self.known_variant(st, v)
        info = self.F.adts.get(adt)
        if name is not None:
            if info:
                for x in info['variants']:
                    if x['name'] == name:
                        return K('int', int(x['discr']))
            return T(('opq', 'discr'))
        b = v
        while b[0] == 'w':
            b = b[1]
        if b[0] == 't':
            return T(('discr', b[1], adt))
        return T(('opq', 'discr'))

    def agg(self, st, r):
        ops = [self.operand(st, o) for o in r['ops']]
        kind = r['kind']
        if kind == 'adt':
            names = r.get('fields') or [str(i) for i in range(len(ops))]
            info = self.F.adts.get(r['adt'])
            var = r.get('variant') if (info is None or info['kind'] == 'enum') else None
            return ('a', r['adt'], var, tuple(zip(names, ops)))
        if kind == 'closure':
            return ('a', ('closure', r.get('inst')), None, tuple((str(i), o) for i, o in enumerate(ops)))
        if kind == 'array':
            return ('a', 'array', None, tuple((str(i), o) for i, o in enumerate(ops)))
        return ('a', 'tuple', None, tuple((str(i), o) for i, o in enumerate(ops)))

    def cast(self, st, r):
        ck = r['ck']
        if ck == 'BoxDerefTransmute':
            p = r['a']['p']
            base = dict(l=p['l'], p=p['p'][:-1] if p['p'] and p['p'][-1][0] == 'f' else p['p'])
            pl = self.place(st, base)
            v = self.read(st, pl)
            if v[0] == 't':
                return v
            return ('r', (pl[0], pl[1] + ('*',)))
        a = self.operand(st, r['a'])
        if ck == 'IntToInt':
            if a[0] == 'k' and a[1] == 'int':
                return K('int', wrap_int(a[2], r.get('to')))
            frm, to = r.get('from'), r.get('to')
            if int_sub(frm, to):
                return a
            if a[0] == 'k' and a[1] in ('bool', 'char'):
                return T(('op', 'cast', to, a))
            return T(('op', 'cast', to, a))
        if ck.startswith('PointerCoercion') or ck in ('PtrToPtr', 'Subtype'):
            return a
        if ck == 'Transmute' and 'NonZero<' in r.get('to', '') + r.get('from', ''):
            if 'NonZero<' in r['from']:
                return a if r['from'].startswith('std::num::NonZero<') else T(('opq', 'cast', ck))
            if r['to'].startswith('std::option::Option<std::num::NonZero<') and (a[0] == 'k' or a[0] == 't'):
                return Some(a) if self.test(st, self.ilt(K('int', 0), a)) else NONE
        return T(('opq', 'cast', ck))

    def binop(self, st, r):
        a, b = self.operand(st, r['a']), self.operand(st, r['b'])
        op, ty = r['op'], r.get('ty', '')
        uns = not ty.startswith('i')
        if ty == 'char' or a[0] == 'k' and a[1] == 'char' or b[0] == 'k' and b[1] == 'char':
            if op in ('Eq', 'Ne'):
                v = K('bool', a[2] == b[2]) if a[0] == b[0] == 'k' else self.op_ceq(a, b)
                return v if op == 'Eq' else self.bnot(v)
            if op in ('Lt', 'Le', 'Gt', 'Ge') and b[0] == 'k' and a[0] == 't':
                return T(('op', 'cpred', (op, b[2]), a))
            if op in ('Lt', 'Le', 'Gt', 'Ge') and a[0] == 'k' and b[0] == 't':
                flip = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}
                return T(('op', 'cpred', (flip[op], a[2]), b))
            return T(('opq', 'charop', op))
        if ty == 'bool':
            if a[0] == 'k' and b[0] == 'k':
                x, y = bool(a[2]), bool(b[2])
                m = {'Eq': x == y, 'Ne': x != y, 'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}
                if op in m:
                    return K('bool', m[op])
            if op == 'BitAnd':
                if a[0] == 'k':
                    return b if a[2] else FALSE
                if b[0] == 'k':
                    return a if b[2] else FALSE
                return T(('op', 'and', a, b))
            if op == 'BitOr':
                if a[0] == 'k':
                    return TRUE if a[2] else b
                if b[0] == 'k':
                    return TRUE if b[2] else a
                return T(('op', 'or', a, b))
            if op in ('Eq', 'Ne', 'BitXor'):
                if b[0] == 'k':
                    a, b = b, a
                if a[0] == 'k':
                    same = b if a[2] else self.bnot(b)
                    return same if op == 'Eq' else self.bnot(same)
            return T(('op', 'b' + op, a, b))
        if op in ('Eq', 'Ne'):
            e = self.isvariant(a, b) or self.isvariant(b, a) or self.ieq(a, b, uns)
            return e if op == 'Eq' else self.bnot(e)
        if op == 'Lt':
            return self.ilt(a, b, uns)
        if op == 'Gt':
            return self.ilt(b, a, uns)
        if op == 'Le':
            return self.bnot(self.ilt(b, a, uns))
        if op == 'Ge':
            return self.bnot(self.ilt(a, b, uns))
        if op == 'Cmp' and not opaque(a) and not opaque(b):
            n = 'Equal' if self.test(st, self.ieq(a, b, uns)) else 'Less' if self.test(st, self.ilt(a, b, uns)) else 'Greater'
            return ('a', 'core::cmp::Ordering', n, ())
        if op in ('Add', 'AddUnchecked', 'AddWithOverflow', 'Sub', 'SubUnchecked', 'SubWithOverflow',
                  'Mul', 'MulWithOverflow', 'MulUnchecked'):
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            if a[0] in ('undef',) or b[0] == 'undef':
                v = T(('opq', 'arith'))
            elif base == 'Mul':
                if a[0] == 'k' and b[0] == 'k':
                    v = K('int', a[2] * b[2])
                elif a[0] == 'k' and a[2] == 1:
                    v = b
                elif b[0] == 'k' and b[2] == 1:
                    v = a
                else:
                    v = self.times(a, b)
            else:
                v = self.iadd(a, b, 1 if base == 'Add' else -1)
            if op.endswith('WithOverflow'):
                return tup(v, T(('op', 'ovf', base, a, b, ty)) if a[0] != 'k' or b[0] != 'k' else FALSE)
            return v
        if a[0] == 'k' and b[0] == 'k' and op in ('BitAnd', 'BitOr', 'Rem', 'Div', 'Shl', 'Shr'):
            x, y = a[2], b[2]
            try:
                return K('int', {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'Rem': lambda: x % y,
                                 'Div': lambda: x // y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y}[op]())
            except Exception:
                pass
        return T(('op', 'bin', op, a, b))

    # ---------------------------------------------------------------- statements
    def stmt(self, st, s):
        k = s['s']
        if k == '=':
            v = self.rvalue(st, s['r'])
            self.write(st, self.place(st, s['p']), v, s.get('sp'))
        elif k == 'dead':
            st.mem.pop(self.lroot(st, s['l']), None)
        elif k == 'setd':
            pass

    # ---------------------------------------------------------------- driver loop
    def run(self, key, args, ghost=None, facts=None, mem=None):
        """analyse function instance key on symbolic args to a fixpoint"""
        fn = self.fns[key]
        st = St()
        st.frames = (Frame(key, fn, 0, None, None, self.ctx(-1, key, -1)),)
        for i, a in enumerate(args):
            st.mem[('L', 0, i + 1)] = a
        if mem:
            st.mem.update(mem)
        if ghost:
            st.ghost.update(ghost)
        if facts:
            st.facts.update(facts)
        self.inlined.add(fn['path'])
        self.explore([st], self._root_ret)

    def _root_ret(self, st, v):
        self.client.ret(self, st, v)

    def explore(self, todo, on_ret):
        visited = {}
        work = list(todo)
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Budget('more than %d states' % self.max_states)
            fr = st.frames[-1]
            fn = fr.fn
            info = self.F.cfg(fr.key)
            if '#end' in st.ghost:
                self.canon(st, info)
                if loopmod().stale(self, st):
                    continue
            if fr.bb in info.joins:
                key = self.canon(st, info)
                if key in visited:
                    continue
                visited[key] = 1
                if fr.bb in info.heads:
                    st2 = self.loophead(st)
                    if st2 is not st:
                        st = st2
                        k2 = self.canon(st, info)
                        if k2 != key:
                            if k2 in visited:
                                continue
                            visited[k2] = 1
            for out in self.block(st, on_ret):
                work.append(out)

    def block(self, st, on_ret):
        """run one basic block; returns successor states"""
        fr = st.frames[-1]
        b = fr.fn['blocks'][fr.bb]
        pending = [(st, 0)]
        outs = []
        n = len(b['s'])
        while pending:
            s, i = pending.pop()
            ok = True
            while i < n:
                snap = s.copy()
                try:
                    self.stmt(s, b['s'][i])
                except Split as sp:
                    for alt in sp.alts:
                        c = snap.copy()
                        c = alt(c)
                        if c is not None:
                            pending.append((c, i))
                    ok = False
                    break
                except Unmodelled as e:
                    s = snap
                    self.note_unmodelled(str(e), s)
                    st_ = b['s'][i]
                    if st_['s'] == '=':
                        self.write(s, self.place(s, st_['p']), T(('opq', 'stmt')), None, False)
                i += 1
            if not ok:
                continue
            snap = s.copy()
            try:
                r = self.terminator(s, b['t'], on_ret)
                outs.extend(r)
            except Split as sp:
                for alt in sp.alts:
                    c = snap.copy()
                    c = alt(c)
                    if c is not None:
                        pending.append((c, n))
            if len(pending) > 3000:
                raise Budget('split explosion')
        return outs

    def note_unmodelled(self, what, st=None):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1
        if st is not None:
            st.notes = st.notes | {'opq'}

    def goto(self, st, bb):
        st.frames = st.frames[:-1] + (st.frames[-1].at(bb),)
        return [st]

    def terminator(self, st, t, on_ret):
        k = t['k']
        if k in ('goto',):
            return self.goto(st, t['t'])
        if k == 'drop':
            return self.goto(st, t['t'])
        if k == 'switch':
            return self.switch(st, t)
        if k == 'ret':
            v = st.mem.get(self.lroot(st, 0), UNIT)
            return self.do_return(st, v, on_ret)
        if k == 'assert':
            return self.do_assert(st, t)
        if k == 'call':
            return self.do_call(st, t)
        return []

    def do_return(self, st, v, on_ret):
        fr = st.frames[-1]
        if len(st.frames) == 1 or fr.dest == 'SUB':
            on_ret(st, v)
            return []
        d = len(st.frames) - 1
        for r in [r for r in st.mem if r[0] == 'L' and r[1] == d]:
            del st.mem[r]
        st.frames = st.frames[:-1]
        st.loops = tuple(l for l in st.loops if l[0] != fr.ctx)
        if fr.ret is None:
            return []
        self.write(st, fr.dest, v, None)
        return self.goto(st, fr.ret)

    def switch(self, st, t):
        d = self.operand(st, t['d'])
        ty = t['ty']
        vals = t['v']
        if d[0] == 'k':
            for v, bb in vals:
                if const_match(d, v):
                    return self.goto(st, bb)
            return self.goto(st, t['o'])
        if d[0] != 't':
            self.note_unmodelled('switch on ' + d[0], st)
            d = T(('opq', 'switch'))
        term = d[1]
        if term[0] == 'discr':
            return self.switch_variant(st, term, vals, t['o'])
        if ty == 'bool':
            outs = []
            dec = self.decide(st, term) if not opaque(term) else None
            for v, bb in list(vals) + [(None, t['o'])]:
                want = (not vals[0][0]) if v is None else bool(v)
                if dec is not None and dec != want:
                    continue
                c = st.copy()
                if opaque(term):
                    c.notes = c.notes | {'opq'}
                    outs += self.goto(c, bb)
                elif self.assume(c, term, want):
                    outs += self.goto(c, bb)
            return outs
        outs = []
        if opaque(term):
            st.notes = st.notes | {'opq'}
        if ty == 'char':
            rest = CH.ALL
            for v, bb in vals:
                ch = v if isinstance(v, str) else chr(int(v))
                m = CH.mask_of(ch)
                rest &= ~m
                c = st.copy()
                if self.char_meet(c, d, m):
                    outs += self.goto(c, bb)
            c = st.copy()
            if self.char_meet(c, d, rest):
                outs += self.goto(c, t['o'])
            return outs
        o = st.copy()
        feasible = True
        for v, bb in vals:
            e = self.ieq(d, K('int', int(v)), not ty.startswith('i'))
            c = st.copy()
            if opaque(term) or self.assume(c, e, True):
                outs += self.goto(c, bb)
            if feasible and not opaque(term):
                feasible = self.assume(o, e, False)
        if feasible:
            outs += self.goto(o, t['o'])
        return outs

    def switch_variant(self, st, term, vals, other):
        _, x, adt = term
        info = self.F.adts.get(adt)
        by = {int(v['discr']): v['name'] for v in info['variants']} if info else {}
        no = st.facts.get(('varn', x), frozenset())
        if opaque(x):
            st.notes = st.notes | {'opq'}
        outs, seen = [], set()
        for v, bb in vals:
            name = by.get(int(v))
            if name is None:
                continue
            seen.add(name)
            if name in no:
                continue
            c = st.copy()
            c.facts[('var', x)] = name
            outs += self.goto(c, bb)
        rest = [n for n in by.values() if n not in seen and n not in no]
        if rest or not by:
            c = st.copy()
            if len(rest) == 1:
                c.facts[('var', x)] = rest[0]
            else:
                c.facts[('varn', x)] = no | frozenset(seen)
            outs += self.goto(c, other)
        return outs

    def do_assert(self, st, t):
        c = self.operand(st, t['c'])
        want = bool(t['e'])
        kind = t['m']
        outs = []
        if kind == 'Other':
            return self.goto(st, t['t'])
        cond = c
        if c[0] == 'k':
            ok, bad = bool(c[2]) == want, bool(c[2]) != want
        elif c[0] == 't' and not opaque(c) and c[1][0] == 'op' and c[1][1] == 'ovf':
            ok, bad = True, self.overflow_possible(st, c[1])
        elif c[0] == 't':
            d = self.decide(st, c[1])
            ok = d is None or d == want
            bad = d is None or d != want
        else:
            ok = bad = True
        if bad:
            b = st.copy()
            if cond[0] == 't' and cond[1][0] == 'op' and cond[1][1] != 'ovf':
                self.assume(b, cond[1], not want)
            self.client.panic(self, b, kind, self.mkcall(b, {'name': 'assert:' + kind, 'path': ''}, [cond], t))
        if ok:
            if c[0] == 't' and c[1][0] == 'op' and c[1][1] == 'ovf':
                # no underflow from here on
                _, _, base, a, b, ty = c[1]
                if base == 'Sub' and not ty.startswith('i'):
                    if not self.assume(st, self.ilt(a, b), False):
                        return []
            elif c[0] == 't' and not opaque(c):
                if not self.assume(st, c[1], want):
                    return []
            outs += self.goto(st, t['t'])
        return outs

    def overflow_possible(self, st, o):
        _, _, base, a, b, ty = o
        if base == 'Sub' and not ty.startswith('i'):
            return self.decide(st, self.ilt(a, b)) is not False
        return self.decide(st, o) is not False

    # ---------------------------------------------------------------- calls
    def mkcall(self, st, f, args, t):
        c = CallInfo()
        c.f, c.args, c.t = f, args, t
        fr = st.frames[-1]
        c.frame = fr
        c.site = (fr.ctx, fr.bb)
        c.sp = t.get('sp', '')
        c.ty = t.get('dty', '')
        return c

    def where(self, st, c=None):
        """human readable location of the innermost local frame"""
        for fr in reversed(st.frames):
            if fr.fn.get('local'):
                sp = fr.fn['blocks'][fr.bb]['t'].get('sp') or fr.fn.get('sp')
                return '%s (%s)' % (fnname(fr.fn), sp)
        return '?'

    def do_call(self, st, t):
        f = t['f']
        args = [self.operand(st, a) for a in t['args']]
        if t.get('fop') is not None:
            fv = self.operand(st, t['fop'])
            return self.call_value(st, fv, args, t)
        return self.call_fn(st, f, args, t)

    def call_value(self, st, fv, args, t):
        if fv[0] == 'r':
            fv = self.read(st, fv[1])
        if fv[0] == 'fn':
            return self.call_fn(st, fv[1].f, args, t)
        if fv[0] == 'a' and isinstance(fv[1], tuple) and fv[1][0] == 'closure':
            return self.call_closure(st, fv, args, t)
        return self.finish(st, t, [(st, T(('opq', 'callvalue')))])

    def call_closure(self, st, cl, args, t, byref=None):
        """args already untupled"""
        key = cl[1][1]
        fn = self.fns.get(key)
        if fn is None:
            return self.finish(st, t, [(st, T(('opq', 'closure')))])
        selfty = fn['locals'][1]['ty']
        if selfty.startswith('&'):
            if byref is not None:
                a0 = byref
            else:
                root = ('H', (st.frames[-1].ctx, st.frames[-1].bb, 'cl'))
                st.mem[root] = cl
                a0 = ('r', (root, ()))
        else:
            a0 = cl
        return self.push(st, key, fn, [a0] + args, t)

    def call_fn(self, st, f, args, t):
        c = self.mkcall(st, f, args, t)
        r = self.client.call(self, st, c)
        if r is not None:
            return self.finish(st, t, r)
        name = f.get('name')
        tr = f.get('trait') or ''
        if name in ('call_once', 'call_mut', 'call') and tr.startswith('core::ops::function::Fn'):
            fv = args[0]
            byref = None
            while fv[0] == 'r':
                byref = fv
                fv = self.read(st, fv[1])
            rest = args[1]
            if rest[0] == 'a' and rest[1] == 'tuple':
                rargs = [x for _, x in rest[3]]
            else:
                rargs = None
            if rargs is not None:
                if fv[0] == 'fn':
                    return self.call_fn(st, fv[1].f, rargs, t)
                if fv[0] == 'a' and isinstance(fv[1], tuple) and fv[1][0] == 'closure':
                    return self.call_closure(st, fv, rargs, t, byref)
                if fv[0] == 'a' and str(fv[1]).startswith('zst:'):
                    pass
        if f.get('ctor'):
            return self.finish(st, t, [(st, self.ctor(f, args))])
        snap = st.copy()
        try:
            r = self.models.call(self, st, c)
        except Unmodelled as e:
            st = snap
            self.note_unmodelled(str(e))
            r = None
        if r is not None:
            if r == 'PANIC':
                self.client.panic(self, st, 'panic', c)
                return []
            if isinstance(r, Push):
                return self.push(st, r.key, r.fn, r.args, t)
            return self.finish(st, t, r)
        inst = f.get('inst')
        fn = self.fns.get(inst) if inst else None
        if fn is not None and fn.get('blocks'):
            path = fn['path']
            for fr in st.frames:
                if fr.fn['path'] == path and fn.get('local'):
                    r = self.client.recursion(self, st, c)
                    if r is None:
                        r = [(st, self.havoc(st, c))]
                    return self.finish(st, t, r)
            if len(st.frames) < 40:
                return self.push(st, inst, fn, args, t)
        self.note_unmodelled('%s' % (f.get('path') or f.get('vpath')), st)
        return self.finish(st, t, [(st, self.havoc(st, c))])

    def havoc(self, st, c):
        """unknown callee: everything reachable through mutable references is lost"""
        muts = c.t.get('muts')
        for i, a in enumerate(c.args):
            ty = self.argty(st, c, i)
            if ty is not None and not ty.startswith('&mut') and not ty.startswith('*mut'):
                continue
            if a[0] == 'r':
                self.write(st, a[1], T(('opq', 'havoc')), None, False)
            elif a[0] == 't' and (ty or '').startswith('&mut'):
                st.mem[('S', a[1])] = T(('opq', 'havoc'))
        if c.t.get('dty') == '()':
            return UNIT
        return T(('opq', 'call', c.path))

    def argty(self, st, c, i):
        try:
            o = c.t['args'][i]
            if o['k'] in ('copy', 'move') and not o['p']['p']:
                return c.frame.fn['locals'][o['p']['l']]['ty']
            if o['k'] == 'const':
                return o.get('ty')
        except Exception:
            pass
        return None

    def finish(self, st, t, results):
        outs = []
        for s, v in results:
            if t.get('t') is None:
                continue
            self.write(s, self.place(s, t['dest']), v, t.get('sp'))
            outs += self.goto(s, t['t'])
        return outs

    def push(self, st, key, fn, args, t):
        dest = self.place(st, t['dest'])
        fr = st.frames[-1]
        ctx = self.ctx(fr.ctx, key, fr.bb)
        spread = fn.get('spread')
        if spread and len(args) >= 1:
            pass
        st.frames = st.frames + (Frame(key, fn, 0, dest, t.get('t'), ctx),)
        d = len(st.frames) - 1
        for i, a in enumerate(args):
            st.mem[('L', d, i + 1)] = a
        if fn.get('local'):
            self.inlined.add(fn['path'])
        return [st]

    def ctor(self, f, args):
        c = f['ctor']
        return ('a', c['adt'], c.get('variant'), tuple((str(i), a) for i, a in enumerate(args)))

    # ---------------------------------------------------------------- sub analysis
    def sub(self, st, callee, args):
        """all (state, value) results of calling callee (a callee dict) from st"""
        results = []
        base = st.copy()
        key = ('SUB', id(callee))
        fn = {'path': 'synth::sub', 'name': 'sub', 'local': False, 'argc': len(args), 'locals':
              [{'ty': '?'}] * (len(args) + 1),
              'blocks': [{'s': [], 't': {'k': 'call', 'f': callee,
                                         'args': [{'k': 'move', 'p': {'l': i + 1, 'p': []}} for i in range(len(args))],
                                         'dest': {'l': 0, 'p': []}, 'dty': '?', 't': 1, 'sp': ''}, 'cu': False},
                         {'s': [], 't': {'k': 'ret'}, 'cu': False}]}
        self.fns[key] = fn
        fr = base.frames[-1]
        ctx = self.ctx(fr.ctx, key, fr.bb)
        base.frames = base.frames + (Frame(key, fn, 0, 'SUB', None, ctx),)
        d = len(base.frames) - 1
        for i, a in enumerate(args):
            base.mem[('L', d, i + 1)] = a

        def on_ret(s, v):
            s = s.copy()
            for r in [r for r in s.mem if r[0] == 'L' and r[1] >= d]:
                del s.mem[r]
            s.frames = s.frames[:d]
            results.append((s, v))
        self.explore([base], on_ret)
        return results

    # ---------------------------------------------------------------- canonical form
    def canon(self, st, info):
        """garbage-collect and return a hashable key"""
        keep = {}
        n = len(st.frames)
        todo = []
        for d, fr in enumerate(st.frames):
            live = self.F.cfg(fr.key).live[fr.bb if d == n - 1 else (fr.bb)] if d == n - 1 else None
            if d < n - 1:
                # live after the pending call returns
                nxt = st.frames[d + 1]
                ret = nxt.ret
                live = self.F.cfg(fr.key).live[ret] if ret is not None else frozenset()
                if nxt.dest == 'SUB':
                    live = None
            for r in st.mem:
                if r[0] == 'L' and r[1] == d and (live is None or r[2] in live):
                    todo.append(r)
            if fr.dest is not None and fr.dest != 'SUB' and fr.dest[0] in st.mem:
                todo.append(fr.dest[0])
        ids = set()
        for g in st.ghost.values():
            self.refs(g, todo, ids)
        done = set()
        while True:
            while todo:
                r = todo.pop()
                if r in done:
                    continue
                done.add(r)
                if r in st.mem:
                    keep[r] = st.mem[r]
                    self.refs(r, todo, ids)
                    self.refs(st.mem[r], todo, ids)
            more = False
            for r in st.mem:
                if r[0] == 'S' and r not in done and not self.unreach(r[1], ids):
                    todo.append(r)
                    more = True
                elif r[0] == 'P' and r not in done:
                    pass
            if not more:
                break
        for r in st.mem:
            if r[0] == 'P' or r[0] == 'G':
                keep[r] = st.mem[r]
        st.mem = keep
        facts = {}
        for k, v in st.facts.items():
            if not self.unreach(k, ids):
                facts[k] = v
        st.facts = facts
        live2 = frozenset(i for i in st.live if i in ids)
        st.live = live2
        return (tuple((f.ctx, f.bb) for f in st.frames),
                frozenset(st.mem.items()), frozenset(st.facts.items()),
                frozenset(st.ghost.items()), st.notes)

    def refs(self, v, todo, ids):
        if isinstance(v, (tuple, frozenset)):
            if isinstance(v, tuple) and v:
                h = v[0]
                if h == 'r' and len(v) == 2:
                    todo.append(v[1][0])
                elif h == 'm' and len(v) == 3:
                    ids.add(v[1])
                    return
                elif h in ('S', 'H', 'L'):
                    todo.append(v)
                elif h == 't' and len(v) == 2:
                    # a pointer-like symbolic value keeps its overridden pointee alive
                    todo.append(('S', v[1]))
            for y in v:
                if isinstance(y, (tuple, frozenset)):
                    self.refs(y, todo, ids)

    def unreach(self, term, ids):
        """term mentions a minted object nothing refers to any more"""
        if isinstance(term, tuple):
            if len(term) == 3 and term[0] == 'm':
                return term[1] not in ids
            for y in term:
                if isinstance(y, tuple) and self.unreach(y, ids):
                    return True
        return False

    # ---------------------------------------------------------------- loops
    WIDEN_AFTER = 3

    def loophead(self, st):
        fr = st.frames[-1]
        hid = (fr.ctx, fr.bb)
        loops = list(st.loops)
        for i, l in enumerate(loops):
            if l[:2] == hid:
                cnt, prev, pf = l[2], l[3], l[4]
                del loops[i + 1:]
                cnt += 1
                st = st.copy()
                if cnt > getattr(self.client, 'widen_after', self.WIDEN_AFTER):
                    pm = dict(prev)
                    changed = False
                    for r in list(st.mem):
                        if r in pm and pm[r] != st.mem[r]:
                            w = self.widen(pm[r], st.mem[r], (hid, r))
                            if w != st.mem[r]:
                                c = counter_of(w)
                                if c:
                                    st.facts = {k: v for k, v in st.facts.items() if not contains(k, c)}
                                st.mem[r] = w
                                changed = True
                                if not benign(pm[r], w):
                                    st.notes = st.notes | {'widened'}
                    pfd = dict(pf)
                    summ = getattr(self.client, 'summarise', False)
                    keep = getattr(self.client, 'keepfact', None)
                    nf = {k: v for k, v in st.facts.items()
                          if pfd.get(k, None) == v or summ and self.loops.kept(st, k) or keep and keep(k)}
                    if len(nf) != len(st.facts):
                        st.facts = nf
                    gh = self.widen_ghost(st, dict(l[5]))
                loops[i] = hid + (cnt, frozenset(st.mem.items()), frozenset(st.facts.items()),
                                  frozenset(st.ghost.items()))
                st.loops = tuple(loops)
                return st
        st = st.copy()
        loops.append(hid + (1, frozenset(st.mem.items()), frozenset(st.facts.items()),
                            frozenset(st.ghost.items())))
        st.loops = tuple(loops)
        return st

    def widen_ghost(self, st, prev):
        w = getattr(self.client, 'widen_ghost', None)
        if w:
            w(self, st, prev)

    def widen(self, a, b, wid):
        if a == b:
            return b
        if getattr(self.client, 'summarise', False) and self.loops.grows(a, b):
            return b
        if getattr(self.client, 'counters', False):
            if b[0] == 'k' and b[1] == 'int' and 0 <= b[2] <= 3:
                return b
            c = counter(wid)
            if b[0] == 'k' and b[1] == 'int' and b[2] == 4 and a[0] == 'k':
                return c
            if a == c and b == self.iadd(c, K('int', 1)):
                return c
            if a[0] == b[0] == 'it' and a[1] == b[1] == 'range' and a[2:4] == b[2:4] and b[4][0] == 'k':
                return b if b[4][2] <= 3 else b[:4] + (('after', b[2][0]),)
        if b[0] == 'k' and b[1] in ('bool', 'char') or b[0] in ('pset', 'pmap'):
            return b
        if b[0] == 'it' and b[1] in ('pset', 'psetval') or b[0] == 'a' and b[1] in self.pointadts:
            return b
        if b[0] == 'a' and a[:3] != b[:3]:
            return b
        if a[0] == 'a' and b[0] == 'a' and a[:3] == b[:3] and len(a[3]) == len(b[3]):
            return b[:3] + (tuple((n, self.widen(x, y, wid + (n,)))
                                  for (m, x), (n, y) in zip(a[3], b[3])),)
        if b[0] == 'vec':
            return ('vec', T(('wid', wid)), ())
        if b[0] == 'str':
            return ('str', (('v', T(('wid', wid))),))
        if b[0] == 'set':
            return ('set', T(('wid', wid)), ())
        if b[0] == 'map':
            return ('map', T(('wid', wid)), ())
        if b[0] == 'w' and a[0] == 'w' and a[1] == b[1] and [x[0] for x in a[2]] == [x[0] for x in b[2]]:
            return ('w', b[1], tuple((e, self.widen(x, y, wid + (str(e),)))
                                     for (_, x), (e, y) in zip(a[2], b[2])))
        if b[0] == 'r' and a[0] == 'r':
            return b
        return T(('wid', wid))


def samefn(a, b):
    """the arguments when both values are the same one-argument character function"""
    if a[0] == b[0] == 't' and a[1][0] == b[1][0] == 'op' and len(a[1]) == len(b[1]) == 3 and a[1][1] == b[1][1] \
            and isinstance(a[1][2], tuple) and isinstance(b[1][2], tuple):
        return a[1][2], b[1][2]
    return None


def literal(v):
    if v[0] == 'k':
        return v[1:]
    if v[0] == 'str' and all(p[0] == 'lit' for p in v[1]):
        return ('str', ''.join(p[1] for p in v[1]))
    return None


def benign(a, b):
    return b[0] in ('vec', 'str', 'set', 'map')


class Push:
    def __init__(self, key, fn, args):
        self.key, self.fn, self.args = key, fn, args


class FrozenCallee:
    """hashable wrapper for a callee dict"""
    __slots__ = ('f', 'h')

    def __init__(self, f):
        self.f = f
        self.h = f.get('inst') or f.get('vpath') or f.get('path') or str(f)

    def __hash__(self):
        return hash(self.h)

    def __eq__(self, o):
        return isinstance(o, FrozenCallee) and o.h == self.h

    def __repr__(self):
        return 'fn:' + self.h


def self_proj(base, e):
    if base[0] == 't' and not (isinstance(e, tuple) and e[0] in ('x', 'e')):
        return T(('.', base[1], e))
    return None


def const_match(d, v):
    if d[1] == 'bool':
        return bool(v) == bool(d[2])
    if d[1] == 'char':
        return (v if isinstance(v, str) else chr(int(v))) == d[2]
    try:
        return int(v) == int(d[2])
    except Exception:
        return False


INTS = {'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'usize': (0, 64), 'u128': (0, 128),
        'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'isize': (1, 64), 'i128': (1, 128)}


def int_range(ty):
    s, b = INTS[ty]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def int_sub(a, b):
    if a not in INTS or b not in INTS:
        return False
    (l, h), (l2, h2) = int_range(a), int_range(b)
    return l >= l2 and h <= h2


def wrap_int(v, ty):
    if ty not in INTS:
        return v
    s, b = INTS[ty]
    v &= (1 << b) - 1
    if s and v >= 1 << (b - 1):
        v -= 1 << b
    return v


def fnname(fn):
    p = fn['path']
    p = p.split('::', 1)[1] if '::' in p else p
    import re
    return re.sub(r'\{impl#\d+\}', lambda m: short(fn.get('impl_self') or '') or m.group(0), p)
