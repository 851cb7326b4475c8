"""S01 / S02: the bounded, escapable character view (ParseProcess) and its adapter (PeekableWrapper).

The object is driven through every sequence of its accessors: from the states its
constructors produce, each accessor is analysed on the abstract tape, the resulting
object states are explored again until no new state appears.
"""
from engine import core, chars as CH
from engine.core import K, T
from . import tape as TP
from .common import S, run, definite, show, cases, overflowed

OPS = ('peek', 'peek_mut', 'next', 'next_if', 'next_if_eq')
SELF = ('in', 'view')
SROOT = ('S', SELF)


class View(TP.Tape):
    """one accessor call on an object in a given state"""
    def __init__(self, op, label, bounded):
        super().__init__()
        self.opname, self.fn, self.bounded = op, label, bounded
        self.out = []

    def is_tape(self, I, st, c):
        if not self.bounded:
            return c.impl_self.split('<')[0].endswith('::Peekable')
        if c.f.get('kind') != 'unresolved':
            return False
        tr = c.trait
        return tr.endswith('::TPeekable') or tr.endswith('::Iterator')

    def on_consume(self, I, st, c):
        if st.ghost['n'] == 'many' or st.ghost['n'] >= 2:
            if definite(st):
                self.violation('%s|consumes-more' % self.fn, '%s consumes more than one character' % self.fn,
                               I.where(st))
            return False
        return True

    # facts only concern the current call's predicate and expectation
    def ret(self, I, st, v):
        if overflowed(st):
            return
        snap = st
        for s, r in cases(I, snap, lambda x: self.compare(I, x, v)):
            self.ob('accessor exits compared with the view contract')
            if r is None:
                self.out.append(s)
                continue
            if not definite(s) or r[0] == 'undecided':
                self.undec('%s: %s' % (self.fn, r[1]))
                continue
            self.violation('%s|%s' % (self.fn, r[0]), '%s %s' % (self.fn, r[1]), I.where(st))

    def visible(self, I, s, la, prev, eof):
        """may the accessor show the next character; None when there is none"""
        if eof:
            return False
        if not self.bounded:
            return True
        if I.variant(s, S('stop'), 'core::option::Option') == 'None':
            return True
        stop = T(('.', ('.', ('in', 'stop'), ('v', 'Some')), '0'))
        if not I.test(s, I.op_ceq(la, stop)):
            return True
        if I.variant(s, S('esc'), 'core::option::Option') == 'None':
            return False
        esc = T(('.', ('.', ('in', 'esc'), ('v', 'Some')), '0'))
        if I.test(s, I.op_ceq(la, esc)):
            return True
        if prev is None:
            return False
        return I.test(s, I.op_ceq(prev, esc))

    def compare(self, I, s, v):
        n = s.ghost['n']
        la = T(TP.LA) if n == 0 else T(('ch', 1))
        hp = s.ghost['prev']
        prev = None if not hp else (T(('ch', 1)) if n == 0 else T(('ch', 2)))
        if n == 0:
            eof = s.ghost['eof']
            if eof is None:
                # the accessor answered without looking at the input
                alts = [self.with_eof(s, True), self.with_eof(s, False)]
                raise core.Split([lambda x, a=a: a(x) for a in alts])
        else:
            eof = False
        vis = self.visible(I, s, la, prev, eof)
        want = vis
        if vis and self.opname == 'next_if':
            want = I.test(s, T(('op', 'pred', S('arg'), la)))
        elif vis and self.opname == 'next_if_eq':
            want = I.test(s, I.op_ceq(la, self.expected(I, s)))
        consuming = self.opname.startswith('next')
        if consuming and want and n == 0:
            return ('swallows', 'returns without consuming the character it may show%s' % self.cond(I, s))
        if n and not (consuming and want):
            return ('overconsumes', 'consumes a character it must not consume%s' % self.cond(I, s))
        v = I.deep(s, v)
        kv = I.known_variant(s, v)
        if kv is None:
            return ('undecided', 'result not followed')
        if want and kv == 'None':
            return ('hides', 'answers with no character although the next one is available%s' % self.cond(I, s))
        if not want and kv == 'Some':
            return ('leaks', 'shows a character beyond the end of the view%s' % self.cond(I, s))
        if want:
            x = I.deep(s, I.project(s, I.project(s, v, ('v', 'Some')), '0'))
            if x != la and I.decide(s, I.op_ceq(x, la)[1]) is not True:
                if core.opaque(x):
                    return ('undecided', 'result not followed')
                return ('wrong-char', 'returns %s instead of the next character' % show(x))
        return None

    def expected(self, I, s):
        return S('arg')

    def with_eof(self, s, val):
        def f(x):
            x.ghost['eof'] = val
            return x
        return f

    def cond(self, I, s):
        if not self.bounded:
            return ''
        out = []
        for n in ('stop', 'esc'):
            v = s.facts.get(('var', ('in', n)))
            if v:
                out.append('%s=%s' % (n, v))
        return ' (%s)' % ', '.join(out) if out else ''

    def panic(self, I, st, kind, c):
        if definite(st) and not kind.startswith('Overflow'):
            self.violation('%s|panic' % self.fn, '%s can panic (%s)' % (self.fn, kind), I.where(st))


class Pos(TP.Tape):
    """cur_pos() of an object state"""
    def __init__(self):
        super().__init__()
        self.vals = []

    def ret(self, I, st, v):
        self.vals.append((st, I.deep(st, v)))

    def is_tape(self, I, st, c):
        return False


class Make(core.Client):
    def __init__(self):
        super().__init__()
        self.out = []

    def ret(self, I, st, v):
        self.out.append((st, v))


def relevant(k):
    return not (core.contains(k, ('in', 'arg')))


def key_of(mem, facts, ghost):
    return (frozenset(mem.items()), frozenset(facts.items()), ghost['eof'], ghost['prev'])


def drive(rep, F, ctor, args, start, keys, poskey, label, bounded, which):
    """explore all reachable object states"""
    mk = Make()
    run(rep, F, mk, ctor, args, label=label)
    todo = []
    for st, v in mk.out:
        mem = {SROOT: v}
        mem.update({r: x for r, x in st.mem.items() if r[0] in ('S', 'H', 'P')})
        todo.append((mem, dict(st.facts), {'eof': None, 'prev': False}))
    seen = set()
    # the position right after construction
    for mem, facts, _ in todo:
        for s, p in position(rep, F, poskey, mem, facts, label) if bounded else []:
            rep.ob('positions after construction')
            if which == 'S02' and p != start:
                bad_pos(rep, label, 'starts', p, start, s)
    n = 0
    while todo:
        mem, facts, gh = todo.pop()
        facts = {k: v for k, v in facts.items() if relevant(k)}
        k = key_of(mem, facts, gh)
        if k in seen:
            continue
        seen.add(k)
        n += 1
        if n > 400:
            rep.undec('%s: object states do not close' % label)
            return
        base = position(rep, F, poskey, mem, facts, label) if bounded else []
        for op in OPS:
            fn = '%s::%s' % ('ParseProcess' if bounded else 'PeekableWrapper', op)
            cl = View(op, fn, bounded)
            g = cl.init_ghost()
            g.update(gh)
            a = [T(SELF)] + ([S('arg')] if op in ('next_if', 'next_if_eq') else [])
            before = len(rep.violations)
            sub = rep if which == 'S01' or not bounded else Quiet(rep)
            run(sub, F, cl, keys[op], a, label=fn, ghost=g, facts=dict(facts), mem=dict(mem))
            for s in cl.out:
                m2 = {r: x for r, x in s.mem.items() if r[0] in ('S', 'H', 'P') and r != ('S', ('in', 'arg'))}
                consumed = s.ghost['n']
                if bounded:
                    m2 = check_pos(rep, F, poskey, base, m2, s, consumed, fn, which)
                    if m2 is None:
                        continue
                g2 = {'eof': s.ghost['eof'], 'prev': gh['prev'] or bool(consumed)}
                f2 = {k: v for k, v in s.facts.items() if not core.contains(k, TP.OLD) and not core.contains(k, ('ch', 2))}
                m2 = {r: x for r, x in m2.items()}
                todo.append((m2, f2, g2))
    rep.ob('object states explored', n)


class Quiet:
    def __init__(self, rep):
        self.rep = rep
        self.notes = rep.notes

    def merge(self, client, I, root):
        client.violations = {}
        self.rep.merge(client, I, root)


def position(rep, F, poskey, mem, facts, label):
    cl = Pos()
    run(rep, F, cl, poskey, [T(SELF)], label=label, ghost=cl.init_ghost(), facts=dict(facts), mem=dict(mem))
    out = []
    I = core.Interp(F, cl)
    for s, v in cl.vals:
        out.append((s, I.lin(v) if v[0] in ('k', 't') else None))
    return out


def bad_pos(rep, label, what, got, want, st, where=''):
    if got is None or core.opaque(got) or not definite(st):
        rep.undec('%s: position not followed' % label)
        return
    rep.violation('%s|position' % label, '%s %s at position %s instead of %s' % (
        label, what, fmt(got), fmt(want)), where)


def fmt(l):
    return ' + '.join([show(t) if c == 1 else '%d*%s' % (c, show(t)) for t, c in l[0]] + ([str(l[1])] if l[1] or not l[0] else []))


def check_pos(rep, F, poskey, base, mem, s, consumed, fn, which):
    """position grows by exactly the number of consumed characters; rebased to a constant afterwards"""
    if not base:
        return None
    b = base[0][1]
    for s2, p in position(rep, F, poskey, mem, s.facts, fn):
        rep.ob('position changes compared with consumption')
        want = (b[0], b[1] + consumed) if b is not None else None
        if p is None or want is None or core.opaque(p):
            rep.undec('%s: position not followed' % fn)
            return None
        if p != want:
            if which == 'S02':
                if definite(s) and definite(s2):
                    rep.violation('%s|position' % fn, '%s moves the position by %s although it consumed %d character(s)' % (
                        fn, fmt(core.Interp(F, core.Client()).ladd(p, b, -1)), consumed), fn)
                else:
                    rep.undec('%s: position not followed' % fn)
            # resynchronise so that the exploration still closes
        g = rebase(mem[SROOT], p, b)
        mem = dict(mem)
        mem[SROOT] = g
    return mem


def rebase(v, p, b):
    """replace the linear form p by b inside the object value"""
    I = None
    if v[0] in ('k', 't'):
        l = ((), int(v[2])) if v[0] == 'k' and v[1] == 'int' else (
            (v[1][1], v[1][2]) if v[0] == 't' and v[1][0] == 'lin' else
            ((((v[1], 1),), 0) if v[0] == 't' else None))
        if l == p:
            if not b[0]:
                return K('int', b[1])
            if b[1] == 0 and len(b[0]) == 1 and b[0][0][1] == 1:
                return T(b[0][0][0])
            return T(('lin', b[0], b[1]))
        return v
    if v[0] == 'a':
        return v[:3] + (tuple((n, rebase(x, p, b)) for n, x in v[3]),)
    return v


def keys_for(F, rep, ty):
    ks = {}
    for op in OPS:
        tr = 'Iterator' if op == 'next' else 'TPeekable'
        k = rep.anchor(F, '%s::%s' % (ty, op), name=op, self_ty='::' + ty, trait=tr)
        if k is None:
            return None
        ks[op] = k
    return ks


def analyse(F, rep, which):
    ks = keys_for(F, rep, 'ParseProcess')
    new = rep.anchor(F, 'ParseProcess::new', name='new', self_ty='::ParseProcess')
    nested = rep.anchor(F, 'ParseProcess::new_nested', name='new_nested', self_ty='::ParseProcess')
    pos = rep.anchor(F, 'ParseProcess::cur_pos', name='cur_pos', self_ty='::ParseProcess')
    if ks is None or None in (new, nested, pos):
        return
    a = [S('inner'), S('stop'), S('esc')]
    drive(rep, F, new, a, ((), 0), ks, pos, 'ParseProcess::new', True, which)
    drive(rep, F, nested, a + [S('pos0')], ((((('in', 'pos0'), 1)),), 0), ks, pos, 'ParseProcess::new_nested', True, which)
    if which == 'S01':
        kw = keys_for(F, rep, 'PeekableWrapper')
        wnew = rep.anchor(F, 'PeekableWrapper::new', name='new', self_ty='::PeekableWrapper')
        if kw is None or wnew is None:
            return
        drive(rep, F, wnew, [S('inner')], None, kw, None, 'PeekableWrapper::new', False, which)


def s01(F, rep):
    rep.rule('object-state fixpoint over every accessor sequence: an accessor shows the next character iff it exists and is '
             'not an unescaped stop character, peeking changes nothing, taking consumes exactly that character')
    analyse(F, rep, 'S01')


def s02(F, rep):
    rep.rule('object-state fixpoint: the position equals its start value plus the number of characters consumed')
    analyse(F, rep, 'S02')


def panics(F, rep):
    """the panics the object-state fixpoint finds, for P09"""
    from .common import Report
    sub = Report('P09', rep.tier)
    sub.t0 = rep.t0
    analyse(F, sub, 'S01')
    for k, (m, w) in sub.violations.items():
        if k.endswith('|panic'):
            rep.violation('view|' + k, m, w)
    for k, n in sub.obligations.items():
        rep.ob(k, n)
    rep.states += sub.states
    rep.functions |= sub.functions
    rep.roots += sub.roots
