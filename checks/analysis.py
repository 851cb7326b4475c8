"""The grammar analysis: FIRST, FOLLOW and control tables (A01-A06), pointwise."""
from engine import core, points
from engine.core import K, T, Ok, Err, fld
from .common import S, cases, definite, fields, iserr, isok, payload, run, show

MOD = 'henriks_parsing_project::'
SM, SME = 'SetMember', 'SetMemberWithEmpty'
C, EMPTY = 0, 1
SETS = MOD + 'sets::'


def mkpoints(sym):
    """sym: 'char' | 'end'; the empty mark is always tracked"""
    t = {'char': {SM: (0,), SME: (0, 1)}, 'end': {SM: (1,), SME: (1, 2)}}[sym]
    return points.Points({SM: (SETS + SM, ['Terminate'], 'Char'), SME: (SETS + SME, ['Empty', 'Terminate'], 'Char')}, t)


NAMES = {SM: ['a character', 'the end mark'], SME: ['a character', 'the empty mark', 'the end mark']}


def tail_field(t):
    """last field name of a term"""
    while t[0] == 't' or t[0] == '.':
        if t[0] == 't':
            t = t[1]
            continue
        if isinstance(t[2], str) and t[2] != '*':
            return t[2]
        if isinstance(t[2], str):
            t = t[1]
            continue
        return None
    return None


def source(I, st, it):
    s = it[2]
    if isinstance(s, tuple) and s and s[0] in ('r', 't'):
        return I.deep(st, s) if s[0] == 'r' else s
    return s


def mentions(x, what):
    if x == what:
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(mentions(y, what) for y in x if isinstance(y, (tuple, frozenset)))
    return False


def minted(x):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'm':
            yield x
            return
        for y in x:
            if isinstance(y, tuple):
                yield from minted(y)


class Base(core.Client):
    widen_after = 2

    def __init__(self, F, sym):
        super().__init__()
        self.F = F
        self.points = mkpoints(sym)
        self.track = self.points.tracked[SM]

    def v(self, st, key, msg, where=''):
        if definite(st):
            self.violation(key, msg, where or self.label)
        else:
            self.undec('path with an unknown value: ' + key)

    def keepfact(self, k):
        """what is known about the current items of loops outlives loop heads"""
        return k[0] in ('b', 'var', 'varn') and core.has_tag(k[1], ('m',))

    def forget(self, st, t):
        """nothing known about t is needed any more"""
        t = t[1]
        st.facts = {k: v for k, v in st.facts.items() if k[0] not in ('b', 'var', 'varn') or not core.contains(k[1], t)}

    def promote(self, I, st, t, name):
        """the current item t is mentioned in gets an identity of its own that outlives the loop"""
        cur = next((x for x in minted(t) if x[2] == 'cur' and x[1][-1:] != ('own',)), None)
        if cur is None:
            return
        new = ('m', (cur[1], name, 'own'), 'cur')
        keep = {core.subst(k, cur, new): core.subst(v, cur, new) if isinstance(v, tuple) else v
                for k, v in st.facts.items() if k[0] in ('var', 'varn') and core.contains(k, cur)}
        I.rename(st, cur, new)
        st.facts.update(keep)

    def member(self, I, st, e, s, i):
        """FIRST sets never contain the end mark"""
        if e == SME and i == 2:
            t = s[1]
            if t[:2] == ('op', 'firstof') or t[:2] == ('op', 'firstel') or mentions(t, ('in', 'first_sets')):
                return False
        return None

    def inset(self, I, st, e, s, i):
        return i in points.restrict(I, st, s, e)[2]

    def each(self, I, st, fn):
        """run fn on every case of st"""
        return cases(I, st, fn)


class Steuer(Base):
    """get_steuermaps: the table of every rule is filled exactly with what its productions select"""

    def start(self, st):
        g = st.ghost
        g['owner'] = (None, None)
        g['P'] = None
        g['first'] = frozenset()
        g['conflict'] = False
        g['ended'] = False
        g['ins'] = 0
        g.pop('skipped', None)

    def call(self, I, st, c):
        if c.name == 'first_set_of_partial' and c.f.get('local'):
            x = I.deep(st, c.args[0])
            a, b = st.copy(), st.copy()
            a.ghost['first'] = a.ghost.get('first', frozenset()) | {x}
            b.ghost['err'] = True
            return [(a, Ok(T(('op', 'firstof', x)))), (b, Err(T(('op', 'noset', x))))]

    def forget_but_kind(self, st, t):
        kinds = {k: v for k, v in st.facts.items() if k[0] in ('var', 'varn') and k[1] == t[1]}
        self.forget(st, t)
        st.facts.update(kinds)

    def what(self, I, st, it):
        if it[1] in ('map', 'keys', 'values') and tail_field(source(I, st, it)) == 'rules':
            return 'rules'
        if it[1] in ('slice', 'vecval') and tail_field(source(I, st, it)) == 'possible_productions':
            return 'prods'
        return None

    def iter_next(self, I, st, it, item, c):
        w = self.what(I, st, it)
        if w == 'rules':
            self.start(st)
            key = item
            if it[1] == 'map':
                key = fld(item, '0')
            st.ghost['rule'] = I.deep(st, key) if it[1] != 'values' else None
            src = source(I, st, it)
            st.ghost['ruleval'] = T(('.', src[1], ('e', st.ghost['rule']))) if st.ghost['rule'] else None
        elif w == 'prods' and 'rule' in st.ghost:
            st.ghost['P'] = I.deep(st, item)
            st.ghost['first'] = frozenset()

    def iter_step(self, I, st, it, c):
        w = self.what(I, st, it)
        if w == 'prods' and st.ghost.get('P') is not None:
            P = st.ghost['P']
            before = st.ghost['owner']
            self.settle(I, st)
            self.forget_but_kind(st, P)
            if not st.ghost['conflict'] and P in st.ghost['owner'] and P not in before:
                inner = [x for x in minted(P) if x[2] == 'cur']
                if inner:
                    self.promote(I, st, T(inner[-1]), 'owner')
            st.ghost['first'] = frozenset()
        elif w == 'rules' and 'rule' in st.ghost:
            self.rule_end(I, st)
            self.start(st)
            if st.ghost['rule'] is not None:
                self.forget(st, st.ghost['rule'])
            del st.ghost['rule'], st.ghost['ruleval']
            st.ghost.pop('unknown', None)
            st.ghost.pop('otherdup', None)
            st.ghost.pop('bad', None)

    def iter_end(self, I, st, it, c):
        w = self.what(I, st, it)
        if w == 'prods':
            st.ghost['ended'] = True
            at = it[4][1] if it[4] and it[4][0] in ('after', 'done') else it[4]
            if at is not None and at[0] == 'k' and at[2] > 0:
                src = source(I, st, it)
                head = I.index(st, src, K('int', 0))
                if not any(core.contains(k[1], head[1]) for k in st.facts):
                    st.ghost['skipped'] = True
        elif w == 'rules':
            st.ghost['rulesdone'] = True
            st.ghost.pop('rule', None)

    def rule_end(self, I, st):
        if st.ghost['ins'] != 1 and st.ghost['rule'] is not None:
            self.v(st, 'rule without table', 'a rule of the grammar is passed over without entering its control table')

    # the definition of the selected set
    def selected(self, I, st, P, rule):
        """the points production P of the rule is selected by, None when that cannot be told"""
        adt = MOD + 'parser_data::Production'
        v = I.variant(st, P, adt)
        fol = T(('.', ('in', 'follow_sets'), ('e', rule)))
        if v == 'Empty':
            return tuple(i in self.track and self.inset(I, st, SM, fol, i) for i in (0, 1))
        x = I.deep(st, I.project(st, I.project(st, P, ('v', 'NotEmpty')), '0'))
        if x not in st.ghost['first']:
            for k in st.facts:
                if mentions(k, ('in', 'first_sets')):
                    return None
            if any(y[0] != 'subv' for y in st.ghost['first']):
                return None
        f = T(('op', 'firstof', x))
        em = self.inset(I, st, SME, f, EMPTY)
        out = [False, False]
        for i in self.track:
            out[i] = i == 0 and self.inset(I, st, SME, f, 0) or em and self.inset(I, st, SM, fol, i)
        return tuple(out)

    def settle(self, I, st):
        g = st.ghost
        P, rule = g['P'], g.get('rule')
        if P is None or rule is None:
            return
        sel = self.selected(I, st, P, rule)
        if sel is None:
            g['unknown'] = True
            g['P'] = None
            return
        own = list(g['owner'])
        maps = self.tables(st)
        for i in self.track:
            if sel[i]:
                if own[i] is not None:
                    g['conflict'] = True
                own[i] = P
        g['owner'] = tuple(own)
        self.ob('productions settled')
        if len(maps) == 1:
            m = next(iter(maps))
            for i in self.track:
                if m[2][i] is not None and not sel[i] and I.deep(st, m[2][i]) == P:
                    g['bad'] = i
        g['P'] = None

    def tables(self, st):
        out = set()

        def go(v):
            if not isinstance(v, tuple):
                return
            if v and v[0] == 'pmap':
                out.add(v)
                return
            if v and v[0] in ('a', 'w', 'map', 'vec'):
                for y in v[1:]:
                    if isinstance(y, tuple):
                        go(y)
                return
            if v and v[0] in ('t', 'k', 'r', 'fn', 'it', 'pset', 'str', 'set'):
                return
            for y in v:
                go(y)
        for r, v in st.mem.items():
            if r[0] in ('L', 'H'):
                go(v)
        return out

    def write(self, I, st, place, val, sp):
        if not place[1] or not (isinstance(place[1][-1], tuple) and place[1][-1][0] == 'e'):
            return
        if val[0] != 'a' or core.short(val[1]) != 'NTRules' or 'rule' not in st.ghost:
            return
        self.entered(I, st, place[1][-1][1], val)
        return 'skip'

    def entered(self, I, st, key, val):
        g = st.ghost
        g['ins'] += 1
        rule = g['rule']
        if rule is None:
            return
        self.ob('tables entered')
        if key != rule:
            self.v(st, 'table under another rule', 'a control table is entered under a number that is not the number of its rule')
            return
        f = fields(val)
        for n in ('ignore', 'instruction'):
            if n in f and g.get('ruleval') is not None:
                x = I.deep(st, f[n])
                if x[0] != 't' or x[1][0] in ('opq', 'wid'):
                    if not (x[0] in ('vec', 'a')):
                        continue
                if x != T(('.', g['ruleval'][1], n)):
                    self.v(st, 'table with other ' + n, 'the control table of a rule is entered with the %s of something else than its rule' % n)
        m = f.get('steuermap')
        if m is None or m[0] not in ('pmap', 'map') or g.get('unknown'):
            self.undec('table of unknown contents')
            return
        if g.get('skipped'):
            self.v(st, 'productions left out', 'the control table of a rule is entered although not all of its productions were looked at')
            return
        m = points.restrict_map(I, st, m, SM)
        if not g['ended']:
            if g['P'] is not None or all(x is None for x in m[2]):
                self.v(st, 'productions left out', 'the control table of a rule is entered although not all of its productions were looked at')
            return
        for i in self.track:
            what = NAMES[SM][i]
            have = None if m[2][i] is None else I.deep(st, m[2][i])
            want = g['owner'][i]
            if g['conflict']:
                continue
            if g.get('bad') == i:
                self.v(st, 'entry not selected|%d' % i, 'the control table maps %s to a production that does not select it' % what)
            elif have is None and want is not None:
                self.v(st, 'selected but not entered|%d' % i, 'a production that is selected by %s is not entered in the control table of its rule' % what)
            elif have is not None and want is None:
                self.v(st, 'entry not selected|%d' % i, 'the control table maps %s to a production that does not select it' % what)
            elif have != want and have is not None and not core.opaque(have) and have[0] == 't':
                self.v(st, 'entry of another production|%d' % i, 'the control table maps %s to another production than the one it selects' % what)
        self.conflict(I, st)

    def conflict(self, I, st):
        pass

    def ret(self, I, st, val):
        g = st.ghost
        if isok(val):
            if not g.get('rulesdone'):
                self.v(st, 'rules left out', 'the control tables are returned although not all rules were looked at')
                return
            self.ob('successful returns')


class Conflicts(Steuer):
    """only the refusal of conflicts"""

    def v(self, st, key, msg, where=''):
        pass

    def other_present(self, I, st):
        st.ghost['otherdup'] = True

    def conflict(self, I, st):
        g = st.ghost
        self.ob('entered tables without a conflict' if not g['conflict'] else 'entered tables with a conflict')
        if g['conflict']:
            Base.v(self, st, 'conflict accepted', 'a control table is entered although two productions of the rule are selected by the same symbol')

    def ret(self, I, st, val):
        if iserr(val):
            e = payload(val)
            if e[0] == 'a' and e[2] == 'SteuerSetsNotDistinct':
                for s, ok in self.each(I, st, lambda s: self.justified(I, s)):
                    self.ob('refusals justified')
                    if ok is False:
                        Base.v(self, s, 'refused without a conflict', 'a grammar is refused for a conflict although no two productions of the rule are selected by the same symbol')

    def justified(self, I, st):
        g = st.ghost
        if 'rule' not in g:
            return None
        if g.get('P') is not None:
            self.settle(I, st)
        if g.get('unknown'):
            return None
        return bool(g['conflict'] or g.get('otherdup'))


class SteuerSets(Base):
    """get_steuer_sets: FIRST without the empty mark, and FOLLOW when the empty mark is in FIRST"""

    def what(self, I, st, it):
        return it[1] in ('map', 'keys') and source(I, st, it) == S('first_sets')

    def iter_next(self, I, st, it, item, c):
        if self.what(I, st, it):
            st.ghost['rule'] = I.deep(st, fld(item, '0') if it[1] == 'map' else item)
            st.ghost['ins'] = 0

    def iter_step(self, I, st, it, c):
        if self.what(I, st, it) and 'rule' in st.ghost and st.ghost['ins'] != 1:
            self.v(st, 'rule without steuer set', 'a rule is passed over without entering its selecting set')

    def iter_end(self, I, st, it, c):
        if self.what(I, st, it):
            st.ghost['done'] = True

    def write(self, I, st, place, val, sp):
        if not place[1] or not (isinstance(place[1][-1], tuple) and place[1][-1][0] == 'e') or 'rule' not in st.ghost:
            return
        if val[0] not in ('set', 'pset'):
            return
        key, rule = place[1][-1][1], st.ghost['rule']
        st.ghost['ins'] += 1
        if key != rule:
            self.v(st, 'steuer set under another rule', 'a selecting set is entered under a number that is not the number of its rule')
            return
        have = points.restrict(I, st, val, SM)[2]
        fi, fo = T(('.', ('in', 'first_sets'), ('e', rule))), T(('.', ('in', 'follow_sets'), ('e', rule)))
        em = self.inset(I, st, SME, fi, EMPTY)
        want = [i for i in self.track
                if i == 0 and self.inset(I, st, SME, fi, 0) or em and self.inset(I, st, SM, fo, i)]
        self.ob('selecting sets compared')
        for i in self.track:
            if (i in have) != (i in want):
                self.v(st, 'steuer set %s|%d' % ('lacks' if i in want else 'has', i),
                       'the selecting set of a rule %s %s' % ('lacks' if i in want else 'contains', NAMES[SM][i]))

    def ret(self, I, st, val):
        if isok(val) and not st.ghost.get('done'):
            self.v(st, 'steuer sets left out', 'the selecting sets are returned although not all rules were looked at')


def roots(F, rep, fn, cls):
    k = rep.anchor(F, 'function ' + fn, name=fn)
    if k is None:
        return
    names = {'get_steuermaps': ['first_sets', 'follow_sets', 'parser_data'], 'get_steuer_sets': ['first_sets', 'follow_sets']}[fn]
    for sym in ('char', 'end'):
        run(rep, F, cls(F, sym), k, [S(x) for x in names], '%s, %s' % (fn, sym), max_states=400000, facts=dict(points.FACTS))


def a03(F, rep):
    rep.rule('for an arbitrary character and the end mark: the table entered for every rule maps exactly the symbols the '
             'productions select (FIRST without the empty mark, FOLLOW when the empty mark is in FIRST), to the selecting production')
    roots(F, rep, 'get_steuermaps', Steuer)
    roots(F, rep, 'get_steuer_sets', SteuerSets)
    rep.floor('productions settled', 1)
    rep.floor('tables entered', 1)
    rep.floor('selecting sets compared', 1)


def a04(F, rep):
    rep.rule('no table is entered on a path on which two productions of the rule are selected by one symbol; a refusal for a '
             'conflict has such a pair')
    roots(F, rep, 'get_steuermaps', Conflicts)
    rep.floor('refusals justified', 1)
    rep.floor('entered tables without a conflict', 1)
