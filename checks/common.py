"""Shared pieces of the property checks: reports, anchors, spec comparison."""
import json
import os
import signal
import sys
import time
import traceback

from engine import core, facts, strings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def S(name):
    return core.T(('in', name))


class Report:
    """what one check found and covered"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.violations = {}
        self.obligations = {}
        self.undecided = {}
        self.functions = set()
        self.roots = []
        self.states = 0
        self.rules = []
        self.notes = []
        self.unmodelled = {}

    def violation(self, key, msg, where=''):
        self.violations.setdefault(key, (msg, where))

    def ob(self, what, n=1):
        self.obligations[what] = self.obligations.get(what, 0) + n

    def undec(self, what, n=1):
        self.undecided[what] = self.undecided.get(what, 0) + n

    def rule(self, text):
        self.rules.append(text)

    def floor(self, what, n):
        """an analysis that discharged fewer obligations than it must has lost its subject"""
        if self.obligations.get(what, 0) < n and not self.undecided:
            self.undec('floor: %s %d < %d' % (what, self.obligations.get(what, 0), n))

    def anchor(self, F, what, **kw):
        """a public function the property is stated about; fails closed when it is gone"""
        k = F.one(**kw)
        if k is None:
            self.violation('anchor|' + what, 'the analysed construct %s does not exist (or is not unique)' % what)
        return k

    def merge(self, client, interp, root):
        for k, (m, w) in client.violations.items():
            self.violation(k, m, w)
        for k, n in client.obligations.items():
            self.ob(k, n)
        for k, n in client.undecided.items():
            self.undec(k, n)
        self.states += interp.nstates
        self.functions |= interp.inlined
        for k, n in interp.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + n
        self.roots.append(root)


ROOT_SECONDS, CHECK_SECONDS = 120, 540
T0 = time.time()


class OutOfTime(Exception):
    pass


def _alarm(sig, frame):
    raise OutOfTime


def run(rep, F, client, key, args, label=None, max_states=60000, **kw):
    """analyse one root; engine limits make it undecided, never a violation"""
    left = CHECK_SECONDS - (time.time() - getattr(rep, 't0', T0))
    if left < 1:
        rep.undec('%s: no time left' % (label or F.fns[key]['path']))
        return None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, min(ROOT_SECONDS, left))
    try:
        return run_(rep, F, client, key, args, label, max_states, **kw)
    except OutOfTime:
        rep.undec('%s: out of time' % (label or F.fns[key]['path']))
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_(rep, F, client, key, args, label, max_states, **kw):
    I = core.Interp(F, client, max_states=max_states)
    label = label or F.fns[key]['path']
    client.label = label
    try:
        I.run(key, args, **kw)
    except (core.Budget, core.Unmodelled) as e:
        client.undec('%s: %s' % (label, e))
    except core.Split:
        client.undec('%s: unresolved split' % label)
    except RecursionError:
        client.undec('%s: recursion limit' % label)
    except OutOfTime:
        client.undec('%s: out of time' % label)
    except Exception as e:          # an engine defect must not look like an answer
        if os.environ.get('VERIF_DEBUG'):
            raise
        client.undec('%s: engine error %s: %s' % (label, type(e).__name__, e))
        rep.notes.append(traceback.format_exc(limit=4))
    rep.merge(client, I, label)
    return I


def definite(st):
    return 'opq' not in st.notes and strings.feasible(st)


def overflowed(st):
    """the path needs a length or position beyond usize::MAX"""
    return any(k[0] == 'b' and v is False and k[1][0] == 'op' and k[1][1] == 'fits' and k[1][2] == 'add'
               and k[1][3] == 'usize' for k, v in st.facts.items())


def cases(I, st, fn, limit=4000):
    """evaluate fn on st, splitting st as fn asks; returns the list of (state, result)"""
    out = []
    work = [st.copy()]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise core.Budget('spec split explosion')
        snap = s.copy()
        try:
            out.append((s, fn(s)))
        except core.Split as sp:
            for alt in sp.alts:
                c = alt(snap.copy())
                if c is not None:
                    work.append(c)
    return out


def isok(v):
    return v[0] == 'a' and v[1] == 'core::result::Result' and v[2] == 'Ok'


def iserr(v):
    return v[0] == 'a' and v[1] == 'core::result::Result' and v[2] == 'Err'


def payload(v):
    return core.fld(v, '0')


def fields(v):
    return dict(v[3])


def show(v, depth=0):
    """compact human readable rendering of a value or term"""
    if depth > 10:
        return '..'
    if not isinstance(v, tuple):
        return repr(v)
    if not v:
        return '()'
    h = v[0]
    d = depth + 1
    if h == 'k':
        return repr(v[2])
    if h == 't':
        return show(v[1], d)
    if h == 'in':
        return v[1]
    if h == '.':
        e = v[2]
        if isinstance(e, tuple):
            if e[0] == 'v':
                return '%s as %s' % (show(v[1], d), e[1])
            if e[0] in ('x', 'e'):
                return '%s[%s]' % (show(v[1], d), show(e[1], d))
        return '%s.%s' % (show(v[1], d), e)
    if h == 'lin':
        return ' + '.join(('%s' if c == 1 else '%d*%%s' % c) % show(a, d) for a, c in v[1]) + (
            ' + %d' % v[2] if v[2] else '')
    if h == 'op':
        return '%s(%s)' % (v[1], ', '.join(show(x, d) if isinstance(x, tuple) else str(x) for x in v[2:]))
    if h == 'a':
        n = v[2] or (str(v[1]).split('::')[-1])
        return '%s{%s}' % (n, ', '.join('%s: %s' % (a, show(b, d)) for a, b in v[3])) if v[3] else str(n)
    if h == 'vec':
        return '[%s%s]' % ('..%s, ' % show(v[1], d) if v[1] else '', ', '.join(show(x, d) for x in v[2]))
    if h == 'str':
        if not (isinstance(v[1], tuple) and all(isinstance(p, tuple) and len(p) == 2 for p in v[1])):
            return 'chars(%s)' % show(v[1], d)
        return '+'.join(repr(p[1]) if p[0] == 'lit' else show(p[1], d) for p in v[1]) or "''"
    if h == 'w':
        return '%s{%s}' % (show(v[1], d), ', '.join('%s: %s' % (e if isinstance(e, str) else show(e, d), show(x, d))
                                                   for e, x in v[2]))
    if h == 'm':
        return 'it'
    if h == 'r':
        return '&place'
    if h in ('wid', 'opq', 'old'):
        return '?' + h
    return '%s(%s)' % (h, ', '.join(show(x, d) if isinstance(x, tuple) else str(x) for x in v[1:]))
