"""G06: rules made by hand."""
from engine import core, models
from engine.core import K, T
from .common import S, run, definite
from .graph import Base

RULES = ('parse_rules', 'rules')


class Hand(Base):
    """a change of the rule with number idx; want(s, had, old) gives the parts the rule has afterwards"""
    widen_after = 60

    def ret(self, I, st, val):
        self.ob('%s: exits compared with the rule it is asked for' % self.fn)
        self.each(I, st, lambda s: self.compare(I, s))

    def panic(self, I, st, kind, c):
        if definite(st) and not kind.startswith('Overflow'):
            self.bad(I, st, 'panic', 'can panic (%s)' % kind)

    def compare(self, I, s):
        M, final = self.init(*RULES), I.read(s, self.f(*RULES))
        bad = []
        for f in ('element_data', 'element_types', 'element_verbose_map'):
            v, w = I.read(s, self.f(f)), self.init(f)
            if not (v == w or v[0] in ('vec', 'map') and v[1] == w and not v[2]) and not core.opaque(v):
                bad.append(('table|' + f, 'changes %s' % f))
        v, w = I.deep(s, I.read(s, self.f('parse_rules', 'ignore'))), self.init('parse_rules', 'ignore')
        if v != w and I.deep(s, w) != v and not core.opaque(v) and I.veq(s, v, w) is not True:
            bad.append(('ignore-in-force', 'changes the ignore rule in force'))
        if core.opaque(final) or final[0] not in ('map', 't'):
            self.undec('%s: rules not followed' % self.fn)
            return bad
        # any other rule is as it was
        o, ix = S('other'), S('idx')
        if I.assume(s, I.eq_term(s, o, ix), False) and I.assume(s, I.eq_term(s, ix, o), False) and I.assume(s, I.ieq(o, ix), False):
            h0, h1 = models.maphas(I, s, M, o), models.maphas(I, s, final, o)
            if h0 != h1:
                bad.append(('others', '%s a rule with another number' % ('loses' if h0 else 'invents')))
            elif h0:
                a, b = I.mapval(s, M, o), I.mapval(s, final, o)
                if a != b and I.deep(s, a) != I.deep(s, b):
                    if core.opaque(b):
                        self.undec('%s: other rules' % self.fn)
                    else:
                        bad.append(('others', 'changes a rule with another number'))
        had = models.maphas(I, s, M, ix)
        has = models.maphas(I, s, final, ix)
        if had and not has:
            return bad + [('lost', 'loses the rule')]
        if not has:
            return bad + ([('nothing', 'does not make the rule')] if self.makes() else [])
        got = I.mapval(s, final, ix)
        old = T(('.', M[1], ('e', ix)))
        return bad + self.rule(I, s, had, old, got)

    def makes(self):
        return True

    def part(self, I, s, had, old, got, f, what, empty):
        """a part of the rule this operation leaves alone"""
        v = I.deep(s, I.project(s, got, f))
        if had:
            w = I.project(s, old, f)
            if v == w or v == I.deep(s, w) or v[0] == 'vec' and v[1] == w and not v[2]:
                return []
            if f == 'ignore':
                if I.known_variant(s, v) == 'None' == I.known_variant(s, I.deep(s, w)):
                    return []
        elif empty(v):
            return []
        if core.opaque(v):
            self.undec('%s: %s' % (self.fn, f))
            return []
        return [(f, what if had else 'gives a new rule %s nobody asked for' % f)]

    def untouched(self, I, s, had, old, got, skip):
        bad = []
        if skip != 'possible_productions':
            bad += self.part(I, s, had, old, got, 'possible_productions', 'changes the alternatives of the rule',
                             lambda v: v == ('vec', None, ()))
        if skip != 'instruction':
            bad += self.part(I, s, had, old, got, 'instruction', 'changes the instructions of the rule',
                             lambda v: v == ('vec', None, ()))
        bad += self.part(I, s, had, old, got, 'ignore', 'changes the ignore rule of the rule',
                         lambda v: I.known_variant(s, v) == 'None')
        return bad

    def alternative(self, I, s, x, terms):
        """is x the alternative with these elements: True / False / None"""
        x = I.deep(s, x)
        p = I.deep(s, I.project(s, x, '*')) if x[0] == 'a' and x[1] == 'Rc' else x
        k = I.known_variant(s, p)
        if k is None:
            return None
        empty = I.test(s, I.ieq(I.vlen(s, terms), K('int', 0)))
        if k == 'Empty':
            return empty
        if empty:
            return False
        v = I.deep(s, I.project(s, I.project(s, p, ('v', 'NotEmpty')), '0'))
        if v == terms or v[0] == 'vec' and v[1] == terms and not v[2]:
            return True
        return None if core.opaque(v) else False

    def alternatives(self, I, s, v, base, lists, was=None):
        """the alternatives are those of base and then one for each of the lists"""
        if was is not None and base is None and v == was and not core.opaque(v):
            return [('before', 'keeps the alternatives the rule had')]
        if v[0] != 'vec' and not (v == base and not lists):
            self.undec('%s: alternatives' % self.fn)
            return []
        if v[0] != 'vec':
            return []
        if v[1] != base:
            if core.opaque(v):
                self.undec('%s: alternatives' % self.fn)
                return []
            return [('before', 'loses the alternatives the rule had' if base is not None else 'keeps the alternatives the rule had')]
        if any(x[0] in ('rep', 'seq', 'chunk') for x in v[2]):
            self.undec('%s: alternatives' % self.fn)
            return []
        rs = None
        if len(v[2]) == len(lists):
            rs = [self.alternative(I, s, x, t) for x, t in zip(v[2], lists)]
            if all(r is True for r in rs):
                return []
            if False not in rs:
                self.undec('%s: alternatives' % self.fn)
                return []
        if core.opaque(v):
            self.undec('%s: alternatives' % self.fn)
            return []
        if rs is None:
            return [('count', 'gives the rule %d new alternatives for the %d it is given' % (len(v[2]), len(lists)))]
        return [('alternative', 'gives the rule another alternative than the one it is given')]


class Add(Hand):
    def rule(self, I, s, had, old, got):
        bad = self.untouched(I, s, had, old, got, 'possible_productions')
        v = I.deep(s, I.project(s, got, 'possible_productions'))
        return bad + self.alternatives(I, s, v, I.project(s, old, 'possible_productions') if had else None, [S('terms')])


class Set(Hand):
    def __init__(self, fn, lists):
        super().__init__(fn)
        self.lists = lists

    def makes(self):
        return bool(self.lists)

    def rule(self, I, s, had, old, got):
        bad = self.untouched(I, s, had, old, got, 'possible_productions')
        v = I.deep(s, I.project(s, got, 'possible_productions'))
        return bad + self.alternatives(I, s, v, None, self.lists, I.deep(s, I.project(s, old, 'possible_productions')) if had else None)


class Instructions(Hand):
    def rule(self, I, s, had, old, got):
        bad = self.untouched(I, s, had, old, got, 'instruction')
        v = I.deep(s, I.project(s, got, 'instruction'))
        w = S('inst')
        if v == w or v[0] == 'vec' and v[1] == w and not v[2]:
            return bad
        if core.opaque(v):
            self.undec('%s: instructions' % self.fn)
            return bad
        return bad + [('instructions', 'gives the rule other instructions than the ones it is given')]


class Find(Base):
    """get_rule_by_*: the rule stored under the number of the element"""

    def __init__(self, fn, number):
        super().__init__(fn)
        self.number = number

    def ret(self, I, st, val):
        self.ob('%s: exits compared with the rules' % self.fn)
        self.each(I, st, lambda s: self.compare(I, s, I.deep(s, val)))

    def panic(self, I, st, kind, c):
        if definite(st):
            self.bad(I, st, 'panic', 'can panic (%s)' % kind)

    def compare(self, I, s, val):
        M = self.init(*RULES)
        ix, there = self.number(self, I, s)
        if there == 'key':
            return [('key', 'looks up another rule than the one it is asked for')]
        if ix is None and there is None:
            self.undec('%s: number of the rule' % self.fn)
            return []
        if there is not False:
            there = models.maphas(I, s, M, ix)
        k = I.known_variant(s, val)
        if k is None:
            self.undec('%s: result' % self.fn)
            return []
        if there != (k == 'Some'):
            return [('found', 'answers %s for a rule that is %s' % (k, 'there' if there else 'not there'))]
        if not there:
            return []
        x = I.deep(s, I.project(s, I.project(s, val, ('v', 'Some')), '0'))
        if x[0] == 'r':
            x = I.deep(s, I.read(s, x[1]))
        w = T(('.', M[1], ('e', ix)))
        if x == w or x == I.deep(s, w):
            return []
        if core.opaque(x):
            self.undec('%s: result' % self.fn)
            return []
        return [('rule', 'finds another rule than the one stored under that number')]


def by_key(c, I, s):
    return S('index'), None


def by_element(c, I, s):
    return I.deep(s, I.project(s, S('el'), 'ix')), None


def by_name(c, I, s):
    """the number of the rule of that name"""
    from . import table
    m = c.init('element_verbose_map')
    ks = [(k[1][3], v) for k, v in s.facts.items()
          if k[0] == 'b' and k[1][0] == 'op' and k[1][1] == 'has' and len(k[1]) == 4 and k[1][2] == m]
    rs = [table.key_is(I, s, k, S('el_name'), 'NonTerminal') for k, v in ks]
    for (k, v), r in zip(ks, rs):
        if r is True:
            return (I.mapval(s, m, k), None) if v else (None, False)
    return None, 'key' if rs and all(r is False for r in rs) else None


def g06(F, rep):
    rep.rule('rules after every operation that makes rules by hand compared with the rules before: the alternatives and '
             'instructions given, in order, under the number given; everything else as it was')
    PD = 'parser_data::ParserData'
    k = rep.anchor(F, 'ParserData::add_production', name='add_production', self_ty=PD)
    if k is not None:
        run(rep, F, Add('add_production'), k, [S('self'), S('idx'), S('terms')], label='ParserData::add_production')
    k = rep.anchor(F, 'ParserData::set_productions', name='set_productions', self_ty=PD)
    if k is not None:
        for n in range(4 if rep.tier == 'quick' else 6):
            ls = [S('alternative%d' % i) for i in range(n)]
            run(rep, F, Set('set_productions', ls), k, [S('self'), S('idx'), ('vec', None, tuple(ls))],
                label='ParserData::set_productions of %d alternatives' % n)
    k = rep.anchor(F, 'ParserData::add_instructions', name='add_instructions', self_ty=PD)
    if k is not None:
        run(rep, F, Instructions('add_instructions'), k, [S('self'), S('idx'), S('inst')], label='ParserData::add_instructions')
    for name, arg, num in (('get_rule_by_key', 'index', by_key), ('get_rule_by_element', 'el', by_element),
                           ('get_rule_by_element_verbose', 'el_name', by_name)):
        k = rep.anchor(F, 'ParserData::' + name, name=name, self_ty=PD)
        if k is not None:
            run(rep, F, Find(name, num), k, [S('self'), S(arg)], label='ParserData::' + name)
