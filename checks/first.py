"""FIRST sets, recursion guard and undefined rules (A01, A05, A06)."""
from engine import core, points, strings, models as M
from engine.core import K, T, Ok, Err, TRUE, UNIT
from .analysis import Base, C, EMPTY, MOD, SME, mentions, minted, source, tail_field
from .common import S, cases, definite, iserr, isok, payload, run
from .parse import callees

PROD = MOD + 'parser_data::Production'
ETYPE = MOD + 'parser_data::ElementType'
PD = ('in', 'parser_data')
RULES = ('.', ('.', PD, 'parse_rules'), 'rules')
TYPES, DATA = ('.', PD, 'element_types'), ('.', PD, 'element_data')
MEMO = ('m', ('memo',), 'cur')


def heads(F, entry):
    """functions on a call cycle below entry that are entered from outside their cycle"""
    succ = {}

    def nx(k):
        if k not in succ:
            f = F.fns.get(k)
            succ[k] = [] if f is None or not f.get('local') else [x for x in callees(f) if x in F.fns]
        return succ[k]

    def reach(k):
        seen, todo = set(), list(nx(k))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += nx(x)
        return seen
    out, todo, seen, r = [], [(entry, None)], set(), {}
    while todo:
        k, frm = todo.pop()
        if k not in r:
            r[k] = reach(k)
        if k in r[k] and (frm is None or frm not in r[k]) and k not in out and F.fns[k].get('local'):
            out.append(k)
        if k in seen:
            continue
        seen.add(k)
        todo += [(x, k) for x in nx(k)]
    return out


ROLES = (('memo', lambda t: 'HashMap<' in t and 'SetMemberWithEmpty' in t, T(('in', 'first_sets'))),
         ('parser_data', lambda t: 'ParserData<' in t, T(PD)),
         ('rules', lambda t: 'HashMap<' in t and 'NonTerminalRules' in t, T(RULES)),
         ('parse_rules', lambda t: 'ParseRules<' in t, T(('.', PD, 'parse_rules'))),
         ('types', lambda t: 'ElementType' in t and ('Vec<' in t or '[' in t), T(TYPES)),
         ('data', lambda t: 'ElementData' in t and ('Vec<' in t or '[' in t), T(DATA)),
         ('progress', lambda t: t.startswith('&mut') and ('Set<' in t or 'Vec<' in t), T(('in', 'in_progress'))),
         ('el', lambda t: t.lstrip('& ') == 'usize', T(('in', 'el'))))


def roles(fn):
    out = []
    for l in fn['locals'][1:fn['argc'] + 1]:
        for n, p, v in ROLES:
            if p(l['ty']):
                out.append((n, v))
                break
        else:
            return None
    names = [n for n, _ in out]
    return out if len(set(names)) == len(names) and 'el' in names else None


def newmark(I, st, args, own):
    """True: a container handed on holds one of own that it did not hold when the call began; None: cannot be told"""
    res = False
    for a in args:
        try:
            v = M.container(I, st, a)[1] if a[0] == 'r' or a[0] == 't' else a
        except core.Unmodelled:
            continue
        if v[0] == 't':
            if core.opaque(v):
                res = None
            continue
        if v[0] == 'k' and v[1] == 'int':
            continue
        if v[0] == 'set':
            have = set()
            for op, x in v[2]:
                if op == 'ins':
                    have.add(x)
                elif op == 'rem':
                    have.discard(x)
                else:
                    res = None
            for x in have:
                x = I.deep(st, x)
                if x in own and v[1] is not None and I.decide(st, ('op', 'in', v[1], x)) is False:
                    return True
            if v[1] is not None and core.opaque(v[1]):
                res = None
        elif v[0] not in ('k', 'pset', 'pmap', 'map'):
            res = None
        elif v[0] == 'map' and v[2]:
            res = None
    for a in args:
        if a[0] == 't' and a[1][0] == 'lin':
            res = None
    return res


class First(Base):
    def __init__(self, F, sym, pid, head, partial=False):
        super().__init__(F, sym)
        self.pid, self.head, self.partial = pid, head, partial
        self.rl = roles(F.fns[head]) if head else None
        self.flags = {}

    def say(self, st, pid, key, msg):
        if pid == self.pid:
            self.v(st, key, msg)

    # ------------------------------------------------------------ look-ups
    def member(self, I, st, e, s, i):
        if e != SME:
            return None
        if i == 2:
            return False
        t = s[1]
        if t[0] == '.' and isinstance(t[2], tuple) and t[2][0] == 'e' and (t[1] == ('in', 'first_sets') or t[1] == MEMO):
            return I.test(st, T(('op', 'in', T(('op', 'firstel', t[2][1])), self.points.value(e, i))))
        return None

    def result(self, el):
        """what the recursive function returns for el, by its return type"""
        ty = self.F.fns[self.head]['locals'][0]['ty']
        if 'Option<' in ty:
            return None
        if 'SetMemberWithEmpty' in ty:
            v = T(('op', 'firstel', el))
        elif '()' in ty:
            v = UNIT
        else:
            return None
        return Ok(v) if 'Result<' in ty else v

    def request(self, I, st, c):
        """a call of the recursive function: FIRST of the element, or an error"""
        a = dict(zip([n for n, _ in self.rl], c.args))
        el = I.deep(st, a['el'])
        ok = self.result(el)
        if ok is None:
            raise core.Unmodelled('result of the recursive function')
        bad = st.copy()
        bad.ghost['err'] = True
        if 'memo' in a:
            pl, v = M.container(I, st, a['memo'])
            T0 = T(I.mint(st, MEMO[1]))
            # what was known to be recorded stays recorded
            I.write(st, pl, T0, None, False)
        self.asked(st, el)
        out = [(st, ok)]
        if 'Result<' in self.F.fns[self.head]['locals'][0]['ty']:
            out.append((bad, Err(T(('in', 'error')))))
        return out

    def asked(self, st, el):
        st.ghost['asked'] = el
        if self.pid == 'A05':
            st.ghost['asks'] = (st.ghost.get('asks', ()) + (el,))[-2:]

    def passed(self, I, st, e):
        """an element a production can begin with is accounted for: was it looked at?"""
        if self.pid != 'A05' or self.partial or e in st.ghost.get('asks', ()) or not definite(st):
            return
        if I.known_variant(st, T(('.', TYPES, ('x', e)))) == 'Terminal':
            return
        if any(k[0] == 'b' and f and k[1][0] == 'op' and k[1][1] == 'has' and k[1][3] == e for k, f in st.facts.items()):
            return
        self.say(st, 'A05', 'element passed over', 'FIRST of a production is computed without looking at an element it can begin with, '
                 'so a recursion through it is not noticed')

    def recursion(self, I, st, c):
        if c.f.get('inst') != self.head:
            return None
        self.ob('recursive calls')
        if st.ghost.get('early') and definite(st):
            self.flags['early'] = True
        own = {v for n, v in self.rl if n == 'el'}
        m = newmark(I, st, c.args, own)
        if m is False:
            self.say(st, 'A05', 'recursion without mark',
                     'the computation of FIRST goes on to another rule without a mark, tested before, that the current one is being worked on')
        elif m is None:
            self.undec('mark of unknown kind')
        else:
            self.ob('recursive calls under a new mark')
        return self.request(I, st, c)

    # ------------------------------------------------------------ walks
    def list_of(self, I, st):
        if self.partial:
            return S('el_ixs')
        P = st.ghost.get('P')
        if P is None or I.known_variant(st, P) != 'NotEmpty':
            return None
        return I.deep(st, I.project(st, I.project(st, P, ('v', 'NotEmpty')), '0'))

    def what(self, I, st, it):
        """'prods' | ('elems', offset)"""
        if it[1] == 'range':
            lo, hi = it[2]
            if lo[0] != 'k' or hi[0] == 'k' or hi[1][:2] != ('op', 'len'):
                return None
            s = I.deep(st, hi[1][2])
            hi = I.deep(st, hi)
        elif it[1] in ('slice', 'vecval'):
            s = source(I, st, it)
        else:
            return None
        if not isinstance(s, tuple):
            return None
        off = 0
        if not self.partial:
            t = s
            while t[0] == 'subv' and t[3] is None and t[2][0] == 'k':
                off += t[2][2]
                t = t[1]
            if t[0] != 'subv' and tail_field(t) == 'possible_productions':
                return ('prods', off)
        off = 0
        while s[0] == 'subv' and s[3] is None and s[2][0] == 'k':
            off += s[2][2]
            s = s[1]
        L = self.list_of(I, st)
        if L is not None and s == L:
            return ('elems', off)
        return None

    def begin(self, st):
        g = st.ghost
        g['wn'], g['wx'], g['wst'], g['any'] = True, False, 'none', False
        if 'asks' in g:
            g['asks'] = ()
        g['pend'] = None

    def iter_step(self, I, st, it, c):
        w = self.what(I, st, it)
        g = st.ghost
        if it[1] == 'chars' and it[4] == K('int', 0):
            g['ch0'] = it[2]
        if w is None:
            return
        if w[0] == 'prods':
            self.settle(I, st)
            P = g.get('P')
            if P is not None:
                g['P'] = None
                self.forget(st, P)
        elif w[0] == 'elems' and 'wst' in g:
            pos = it[4]
            if g['wst'] == 'walking':
                self.fold(I, st, g['pend'])
                g['pend'] = None
            elif g['wst'] == 'none' and pos[0] == 'k':
                if other_places(st, self.list_of(I, st), pos[2] + w[1]):
                    g['unknown'] = True
                for j in range(pos[2] + w[1]):
                    g['any'] = True
                    self.fold(I, st, I.index(st, self.list_of(I, st), K('int', j)))
                g['wst'] = 'walking'
            else:
                g['unknown'] = True

    def iter_next(self, I, st, it, item, c):
        w = self.what(I, st, it)
        g = st.ghost
        if it[1] == 'chars' and g.get('ch0') == it[2]:
            g['ch'] = (it[2], item)
            del g['ch0']
        if w is None:
            return
        if w[0] == 'prods':
            self.begin(st)
            g['P'] = self.item(I, st, it, item, w)
        elif 'wst' in g:
            g['any'] = True
            g['pend'] = self.item(I, st, it, item, w)

    def item(self, I, st, it, item, w):
        x = I.deep(st, item)
        if it[1] == 'range':
            L = self.list_of(I, st) if w[0] == 'elems' else self.prods(I, st, it)
            x = I.deep(st, I.index(st, L, x))
        return x

    def prods(self, I, st, it):
        return I.deep(st, it[2][1][1][2])

    def iter_end(self, I, st, it, c):
        w = self.what(I, st, it)
        g = st.ghost
        if it[1] == 'chars' and g.get('ch0') == it[2]:
            g['ch'] = (it[2], None)
            del g['ch0']
        if w is None:
            return
        if w[0] == 'prods':
            g['pended'] = True
            g.pop('pleft', None)
            at = it[4][1] if it[4] and it[4][0] in ('after', 'done') else it[4]
            if at is not None and at[0] == 'k' and at[2] > 0:
                g['skipped'] = True
        elif 'wst' in g:
            g['wst'] = 'ended'

    def atom(self, I, st, e, i):
        return bool(I.test(st, T(('op', 'in', T(('op', 'firstel', e)), self.points.value(SME, i)))))

    def element(self, I, st, e):
        """(C in FIRST(e), FIRST(e) has the empty mark) by definition"""
        et = T(('.', TYPES, ('x', e)))
        if I.known_variant(st, et) == 'Terminal' and not any(mentions(k, ('op', 'firstel', e)) for k in st.facts):
            name = ('.', ('.', DATA, ('x', e)), 'name')
            ch = st.ghost.get('ch')
            if ch is not None:
                other = self.nameof(I, st, ch[0])
                if other != name:
                    st.ghost['unknown'] = True
                    if other and self.cut(st, other, name):
                        self.say(st, 'A01', 'first of another text',
                                 'the FIRST set of a terminal is taken from another text than the one it stands for')
                    return False, False
                if ch[1] is None:
                    return False, True
                return bool(I.test(st, I.op_ceq(ch[1], points.CHAR))), False
            n, chars = named(st, name)
            if n is not None and chars:
                if not I.test(st, I.ilt(K('int', 0), n)):
                    return False, True
                return bool(I.test(st, I.op_ceq(T(('.', ('str', n[1][2]), ('x', K('int', 0)))), points.CHAR))), False
            if any(mentions(k, name) for k in st.facts):
                st.ghost['unknown'] = True
                return False, False
        return self.atom(I, st, e, C), self.atom(I, st, e, EMPTY)

    track_sme = (0, 1)

    def cut(self, st, other, name):
        """the text looked at is the name with something done to it that can change how it begins"""
        if not strings.has(other, ('strfn',)) or not strings.mentions(other, name):
            return False
        ts = strings.texts(st, name, False, (' ', '\\', 'A', ' a', 'Aa'))
        try:
            return bool(ts) and any(strings.ev(other, name, x)[:1] != x[:1] for x in ts)
        except strings.Unknown:
            return False

    def nameof(self, I, st, s):
        while s[0] in ('t', 'r', 'str'):
            if s[0] == 'str':
                return None
            if s[0] == 't':
                return s[1]
            s = I.deep(st, s)
        return None

    def fold(self, I, st, e):
        g = st.ghost
        if core.opaque(e):
            g['unknown'] = True
            return
        if not g['wn']:
            return
        self.passed(I, st, e)
        if self.partial and I.decide(st, ('op', 'has', T(('in', 'first_sets')), e)) is False \
                and I.known_variant(st, T(('.', TYPES, ('x', e)))) == 'NonTerminal':
            g['missing'] = True
        x, n = self.element(I, st, e)
        g['wx'] = g['wx'] or x
        g['wn'] = n

    def finish_walk(self, I, st):
        """all that is left of the current list is accounted for"""
        g = st.ghost
        L = self.list_of(I, st)
        n = I.vlen(st, L)
        if not g.get('any') and g['wst'] == 'ended':
            # an empty list: the reader makes none
            g['unknown'] = True
            return
        if g['wst'] == 'ended':
            return
        if g['wst'] == 'walking':
            last = g['pend']
            if last is None:
                return
            self.fold(I, st, last)
            g['pend'] = None
            t = last[1] if last[0] == 't' else None
            if t is None or t[0] != '.' or t[2][0] != 'x':
                g['unknown'] = True
                return
            nxt = I.iadd(t[2][1], K('int', 1))
        else:
            j = 0
            while g['wn'] and j < 3:
                e = I.index(st, L, K('int', j))
                if not any(mentions(k, e[1]) for k in st.facts) and not mentions_ghost(g, e[1]):
                    break
                self.fold(I, st, e)
                j += 1
            if other_places(st, L):
                g['unknown'] = True
                return
            nxt = K('int', j)
        if g['wn'] and I.test(st, I.ilt(nxt, n)):
            self.ob('lists left early')
            if nxt == K('int', 0):
                g['unread'] = True
            else:
                self.say(st, 'A01', 'elements left out',
                         'what stands after elements that can be empty is left out of the FIRST set')
            g['unknown'] = True

    def settle(self, I, st):
        """account for the production that has been dealt with"""
        g = st.ghost
        P = g.get('P')
        if P is None or 'wst' not in g:
            return
        v = I.variant(st, P, PROD)
        if v == 'Empty':
            g['un'] = True
        else:
            self.finish_walk(I, st)
            if g['wn']:
                g['un'] = True
            if g['wx']:
                g['ux'] = True
        self.ob('productions accounted for')
        t = P[1] if P[0] == 't' else ()
        if len(t) == 3 and t[0] == '.' and t[2][0] == 'x':
            g['pleft'] = I.ilt(I.iadd(t[2][1], K('int', 1)), I.vlen(st, T(t[1])))
        self.begin(st)
        g['settled'] = True

    # ------------------------------------------------------------ results
    def expected(self, I, st):
        """(C, empty) of the element the function was asked for; None when it cannot be told"""
        g = st.ghost
        el = T(('in', 'el'))
        if I.decide(st, ('op', 'has', T(('in', 'first_sets')), el)) is True and not g.get('settled') and g.get('P') is None:
            return self.atom(I, st, el, C), self.atom(I, st, el, EMPTY)
        et = T(('.', TYPES, ('x', el)))
        if I.variant(st, et, ETYPE) == 'Terminal':
            r = self.element(I, st, el)
            return None if g.get('unknown') else r
        self.settle(I, st)
        if g.get('unknown') or not (g.get('settled') or g.get('pended')) and any(core.has_tag(k, ('possible_productions',)) for k in st.facts):
            return None
        return g.get('ux', False), g.get('un', False)

    def compare(self, I, st, val, what):
        el = T(('in', 'el'))
        if val[0] not in ('pset', 'set', 't', 'r') or core.opaque(val):
            self.undec('%s of unknown form' % what)
            return
        if self.partial and not I.assume(st, I.ilt(K('int', 0), I.vlen(st, S('el_ixs'))), True):
            return
        for s, (want, have) in cases(I, st, lambda s: (self.wanted(I, s), points.restrict(I, s, val, SME)[2])):
            self.ob('%s compared with the definition' % what)
            if s.ghost.get('unread') and not self.partial and want is None:
                want = self.guess(s)
            if want is None:
                if not s.ghost.get('unread'):
                    self.undec('definition not followed')
                continue
            if not self.partial and not s.ghost.get('pended') and s.ghost.get('settled') is not None:
                left = s.ghost.get('pleft')
                s = s.copy()
                if left is None:
                    self.undec('production of unknown place')
                elif I.assume(s, left, True):
                    self.say(s, 'A01', 'productions left out', 'a FIRST set is given out although not all productions were looked at')
                    continue
            for i, n in ((0, 'a character'), (1, 'the empty mark')):
                if i not in self.track_sme:
                    continue
                if (i in have) != want[i]:
                    self.say(s, 'A01', '%s %s|%d' % (what, 'lacks' if want[i] else 'has too much', i),
                             '%s %s %s, against the definition' % (what, 'lacks' if want[i] else 'contains', n))

    def guess(self, st):
        return None

    def wanted(self, I, st):
        if not self.partial:
            return self.expected(I, st)
        g = st.ghost
        self.finish_walk(I, st)
        if g.get('unknown'):
            return None
        return g['wx'], g['wn']

    def write(self, I, st, place, val, sp):
        if self.partial or not place[1] or not (isinstance(place[1][-1], tuple) and place[1][-1][0] == 'e'):
            return
        if val[0] not in ('pset', 'set') or place[0] != ('S', ('in', 'first_sets')):
            return
        key = I.deep(st, place[1][-1][1])
        g = st.ghost
        self.ob('FIRST sets recorded')
        if key != T(('in', 'el')):
            have = points.restrict(I, st, val, SME)[2]
            if core.opaque(key):
                return
            for i in (0, 1):
                if (i in have) != self.atom(I, st, key, i):
                    self.say(st, 'A01', 'recorded under another rule|%d' % i, 'a FIRST set is recorded under the number of another rule')
            return
        g['rec'] = True if core.opaque(val) else points.restrict(I, st, val, SME)
        g['early'] = not g.get('pended')

    def ret(self, I, st, val):
        g = st.ghost
        ok = isok(val)
        if iserr(val):
            self.refused(I, st, payload(val))
            return
        if g.get('err'):
            self.ob('successes after a failed step', 1)
            for pid in ('A05', 'A06'):
                self.say(st, pid, 'failure swallowed', 'the computation of FIRST succeeds although the computation for an element of it failed')
            return
        self.ob('successful returns')
        el = T(('in', 'el'))
        if not self.partial:
            nt = I.known_variant(st, T(('.', TYPES, ('x', el)))) == 'NonTerminal'
            if I.decide(st, ('op', 'has', T(RULES), el)) is False and I.decide(st, ('op', 'has', T(('in', 'first_sets')), el)) is not True:
                if nt:
                    self.say(st, 'A06', 'undefined rule accepted', 'FIRST of a rule without productions is computed without an error')
                return
            self.ob('successful returns for defined rules')
        else:
            for s, _ in cases(I, st, lambda s: self.wanted(I, s) and None):
                if s.ghost.get('missing'):
                    self.say(s, 'A06', 'missing set ignored', 'FIRST of a list of elements is computed although an element of it has no FIRST set')
                    return
        if not self.partial and isinstance(g.get('rec'), tuple):
            self.compare(I, st, g['rec'], 'the recorded FIRST set')
        p = payload(val) if ok else val
        if p[0] in ('pset', 'set', 't', 'r') and p != UNIT:
            self.compare(I, st, p, 'the FIRST set')
        if not self.partial:
            rec = g.get('rec') or I.decide(st, ('op', 'has', T(('in', 'first_sets')), el)) is True
            if nt and not rec:
                self.flags['unrecorded'] = True
                if self.result(el) == Ok(UNIT):
                    self.say(st, 'A01', 'set not recorded', 'the FIRST set of a rule is computed and lost')
            if definite(st) and self.leaves(I, st):
                self.ob('successes that leave a mark')
                if nt and not rec:
                    self.say(st, 'A05', 'mark left behind', 'a rule stays marked as being worked on after its FIRST set was computed, and the set is not recorded')
                self.flags['leaves'] = True
                self.both()

    def both(self):
        if self.flags.get('leaves') and self.flags.get('blind'):
            self.say(self.flags['blind'], 'A05', 'refused after completion',
                     'a rule stays marked as being worked on after its FIRST set was computed and is refused when it is needed again')

    def leaves(self, I, st):
        v = st.mem.get(('S', ('in', 'in_progress')))
        have = False
        if v is not None and v[0] == 'set':
            for op, x in v[2]:
                if I.deep(st, x) == T(('in', 'el')):
                    have = op == 'ins'
                elif op not in ('ins', 'rem'):
                    return False
        return have

    def refused(self, I, st, e):
        if e[0] != 'a' or self.partial:
            return
        el = T(('in', 'el'))
        if e[2] == 'LeftRecursion':
            self.ob('refusals for left recursion')
            if I.decide(st, ('op', 'in', T(('in', 'in_progress')), el)) is not True:
                self.say(st, 'A05', 'refused without recursion', 'a rule is refused as left-recursive although it is not being worked on')
            elif definite(st) and I.decide(st, ('op', 'has', T(('in', 'first_sets')), el)) is not False:
                self.flags['blind'] = st
                self.both()
        elif e[2] == 'MissingProduction':
            self.ob('refusals for undefined rules')
            if I.decide(st, ('op', 'has', T(RULES), el)) is not False:
                self.say(st, 'A06', 'defined rule refused', 'a rule is refused as undefined although it has productions')


def named(st, name):
    """(number of characters of the name, are all its characters taken at known places?) from what is known"""
    n, ok = [None], [True]

    def go(x):
        if not isinstance(x, (tuple, frozenset)):
            return
        if isinstance(x, tuple):
            if x[:2] == ('op', 'nchars') and mentions(x, name):
                n[0] = T(x)
                return
            if x[:2] == ('op', 'lastchar') and mentions(x, name):
                return
            if len(x) == 3 and x[0] == '.' and isinstance(x[1], tuple) and x[1][:1] == ('str',) and mentions(x[1], name):
                if x[2][0] != 'x' or x[2][1][0] != 'k':
                    ok[0] = False
                return
            if x == name:
                ok[0] = False
                return
        for y in x:
            go(y)
    for k, v in st.facts.items():
        go(k)
    return n[0], ok[0]


def other_places(st, L, low=None):
    """something is known about an element of L other than the first ones (the first low ones)"""
    L = L[1] if L[0] == 't' else L

    def at(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == '.' and x[1] == L and x[2][0] == 'x' and (x[2][1][0] != 'k' or low is not None and x[2][1][2] >= low):
                return True
            return any(at(y) for y in x if isinstance(y, (tuple, frozenset)))
        if isinstance(x, frozenset):
            return any(at(y) for y in x)
        return False
    return any(at(k) for k in st.facts)


def mentions_ghost(g, t):
    return any(mentions(v, t) for v in g.values() if isinstance(v, (tuple, frozenset)))


class Sets(First):
    """get_first_sets: every rule gets its FIRST set"""

    def call(self, I, st, c):
        if c.f.get('inst') == self.head:
            self.ob('rules handed on')
            return self.request(I, st, c)

    def asked(self, st, el):
        st.ghost['req'] = st.ghost.get('req', frozenset()) | {el}

    def recursion(self, I, st, c):
        return None

    def what(self, I, st, it):
        if it[1] in ('map', 'keys') and source(I, st, it) == T(RULES):
            return ('rules', 0)
        return None

    def iter_next(self, I, st, it, item, c):
        if self.what(I, st, it):
            st.ghost['rule'] = I.deep(st, core.fld(item, '0') if it[1] == 'map' else item)
            st.ghost['req'] = frozenset()

    def iter_step(self, I, st, it, c):
        if self.what(I, st, it) and st.ghost.get('rule') is not None:
            self.ob('rules looked at')
            if st.ghost['rule'] not in st.ghost['req']:
                self.say(st, 'A01', 'rule without FIRST set', 'a rule is passed over without computing its FIRST set')
            elif self.flags.get('unrecorded') and not st.ghost.get('put'):
                self.say(st, 'A01', 'FIRST set lost', 'the FIRST set of a rule is computed but not recorded')
            st.ghost['rule'] = None
            st.ghost.pop('put', None)

    def iter_end(self, I, st, it, c):
        if self.what(I, st, it):
            st.ghost['done'] = True
            at = it[4][1] if it[4] and it[4][0] in ('after', 'done') else it[4]
            if at is not None and at[0] == 'k' and at[2] > 0:
                self.say(st, 'A01', 'rules left out', 'the FIRST sets are returned although not all rules were looked at')

    def write(self, I, st, place, val, sp):
        if place[1] and isinstance(place[1][-1], tuple) and place[1][-1][0] == 'e' and place[0][0] in ('L', 'H'):
            key = place[1][-1][1]
            if val[0] in ('t', 'pset', 'set') and st.ghost.get('rule') is not None:
                if key != st.ghost['rule'] and not core.opaque(key):
                    self.say(st, 'A01', 'recorded under another rule', 'a FIRST set is recorded under the number of another rule')
                st.ghost['put'] = True

    def ret(self, I, st, val):
        if not isok(val):
            return
        g = st.ghost
        self.ob('successful returns')
        if g.get('err'):
            for pid in ('A05', 'A06'):
                self.say(st, pid, 'failure swallowed', 'FIRST sets are returned although the computation for a rule failed')
        elif not g.get('done'):
            self.say(st, 'A01', 'rules left out', 'the FIRST sets are returned although not all rules were looked at')


def first(F, rep, pid):
    entry = rep.anchor(F, 'function get_first_sets', name='get_first_sets')
    part = rep.anchor(F, 'function first_set_of_partial', name='first_set_of_partial')
    if entry is None or part is None:
        return
    hs = heads(F, entry)
    unrec = False
    facts = dict(points.FACTS)
    if len(hs) == 1 and roles(F.fns[hs[0]]):
        h = hs[0]
        cl = First(F, 'char', pid, h)
        run(rep, F, cl, h, [v for _, v in cl.rl], 'FIRST of an element', max_states=400000, facts=facts)
        if pid == 'A05' and cl.flags.get('early') and not cl.flags.get('blind'):
            rep.violation('recorded while in progress', 'the FIRST set of a rule is recorded before the computation goes on to other rules, '
                          'so that a rule reaching itself goes unnoticed', 'FIRST of an element')
        cl2 = Sets(F, 'char', pid, h)
        cl2.flags['unrecorded'] = cl.flags.get('unrecorded', False)
        run(rep, F, cl2, entry, [T(PD)], 'get_first_sets', max_states=100000, facts=facts)
    else:
        rep.undec('no single recursive function below get_first_sets')
    run(rep, F, First(F, 'char', pid, None, True), part, [S('el_ixs'), S('first_sets'), T(PD)], 'first_set_of_partial',
        max_states=200000, facts=facts, ghost=dict(wn=True, wx=False, wst='none', pend=None))


def a01(F, rep):
    rep.rule('for an arbitrary character and the empty mark: the set computed for an element, and for a list of elements, has them '
             'exactly when the defining equations say so, assuming the sets of the elements it is computed from')
    first(F, rep, 'A01')
    rep.floor('the FIRST set compared with the definition', 1)
    rep.floor('rules looked at', 1)


def a05(F, rep):
    rep.rule('every recursive call of the FIRST computation is made under a mark that was not set before; only marked rules are '
             'refused; failures are handed on')
    first(F, rep, 'A05')
    rep.floor('recursive calls', 1)


def a06(F, rep):
    rep.rule('no successful return for an element whose rule or FIRST set does not exist; failures are handed on')
    first(F, rep, 'A06')
    rep.floor('refusals for undefined rules', 1)
