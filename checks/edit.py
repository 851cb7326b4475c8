"""G04 / G05: the pass that edits the rules once the grammar text has been read, and the merging of definitions."""
from engine import core, loops
from engine.core import K, T
from .common import S, run, definite, cases, isok, show
from . import vmtext

RULES = ('.', ('.', ('.', ('in', 'self'), 'parser_data'), 'parse_rules'), 'rules')
LENGTHS = 5
FOLD = {'Rem': lambda a, b: a % b, 'Div': lambda a, b: a // b, 'BitAnd': lambda a, b: a & b, 'Shr': lambda a, b: a >> b}


def derivative(F, start):
    """the functions that decide whether one rule is made of another: reached from the given functions, with two
    element numbers, answering yes, no or an error, and recursive"""
    seen, work, calls = set(), list(start), {}
    while work:
        k = work.pop()
        f = F.fns.get(k)
        if k in seen or f is None or not f['local']:
            continue
        seen.add(k)
        calls[k] = set()
        for b in f['blocks']:
            t = b['t']
            if t['k'] == 'call' and t['f'].get('local') and t['f'].get('inst'):
                calls[k].add(t['f']['inst'])
                work.append(t['f']['inst'])

    def reach(a):
        out, w = set(), list(calls.get(a, ()))
        while w:
            x = w.pop()
            if x not in out:
                out.add(x)
                w += calls.get(x, ())
        return out
    out = {}
    for k in seen:
        f = F.fns[k]
        r = reach(k)
        if answers(f) and len(numbers(f)) == 2 and any(x in reach(x) and answers(F.fns[x]) for x in r | {k} if x in F.fns and (
                x == k or len(numbers(F.fns[x])) == 2)):
            out[k] = (f, k in r)
    return out


def ty(f, i):
    return f['locals'][i]['ty'] if isinstance(f['locals'][i], dict) else f['locals'][i]


def answers(f):
    t = ty(f, 0)
    return t == 'bool' or 'Result<bool' in t


def numbers(f):
    """positions of the element numbers among the arguments"""
    return [i for i in range(f['argc']) if ty(f, i + 1).replace('&', '').strip() == 'usize']


class Edit(vmtext.Tokens):
    """the whole of parse_rules on an input that is already at its end"""
    summarise = True

    def __init__(self, der):
        super().__init__()
        self.der, self.orient = der, {}
        self.finals = []

    def init_ghost(self):
        g = super().init_ghost()
        g['eof'] = True
        return g

    def forget(self, st):
        pass

    def after_ws(self, st):
        pass

    def call(self, I, st, c):
        k = c.f.get('inst')
        if k in self.der:
            f = self.der[k][0]
            a, b = [I.deep(st, c.args[i]) for i in self.orient.get(k) or numbers(f)]
            a, b = [I.deep(st, I.read(st, x[1])) if x[0] == 'r' else x for x in (a, b)]
            outs = []
            plain = ty(f, 0) == 'bool'
            if not plain:
                s = st.copy()
                s.ghost['noanswer'] = True
                outs.append((s, core.Err(T(('opq', 'no rule')))))
            for v in (True, False):
                s = st.copy()
                if I.assume(s, T(('op', 'derives', a, b)), v):
                    outs.append((s, K('bool', v) if plain else core.Ok(K('bool', v))))
            return outs
        return super().call(I, st, c)

    def ret(self, I, st, v):
        v = I.deep(st, v)
        if not isok(v):
            return
        self.finals.append((I, st, I.deep(st, I.read(st, (('S', ('in', 'self')), ('parser_data', 'parse_rules', 'rules'))))))

    def panic(self, I, st, kind, c):
        pass


class Judge:
    """compares the edited rules with the specification; lost / kept are reported by G05, the weaving by G04"""

    def __init__(self, rep, client, want):
        self.rep, self.c, self.want = rep, client, want
        self.n = 0

    def bad(self, cat, key, msg):
        if cat in self.want:
            self.rep.violation('edit|' + key, 'the editing pass of parse_rules ' + msg, 'rule_parsing::parse_rules')

    def undec(self, what):
        self.rep.undec('editing pass: ' + what)

    def final(self, I, st, v):
        if not definite(st):
            return self.undec('condition not followed')
        M = T(RULES)
        empty = I.decide(st, T(('op', 'empty', RULES)))
        if v == M or v[0] == 'map' and v[1] == M and not v[2]:
            if empty is not True and st.ghost.get('noanswer'):
                self.bad('G04', 'swallowed', 'leaves all rules as they are and succeeds when it cannot tell whether the ignore rule is made of a rule')
            elif empty is not True:
                self.undec('rules left as they are')
            return
        if v[0] == 'map' and v[1] is None and not v[2]:
            if empty is False:
                self.bad('G05', 'lost-all', 'drops every rule')
            elif empty is None:
                self.undec('no rules')
            return
        if v[0] not in ('map', 't'):
            return self.undec('shape of the rules')
        try:
            ps = loops.parts('map', v)
        except Exception:
            return self.undec('shape of the rules')
        if len(ps) != 1 or ps[0][0] != 'seq':
            return self.undec('shape of the rules')
        _, site, src, chunks, state = ps[0]
        if src[0] != 'src' or loops.plain(src[2]) != RULES or src[1] not in ('map', 'rmap') or state != 'full':
            return self.undec('what is walked over')
        for ops, facts in chunks:
            self.chunk(I, st, ops, facts, site)

    def chunk(self, I, st, ops, facts, site):
        self.n += 1
        c = st.copy()
        ops, facts = norm(ops), norm(facts)
        known = c.facts
        c.facts = {}
        for k, v in list(known.items()) + sorted(facts, key=loops.canon):
            k = norm(k)
            if k[0] in ('var', 'b') and c.facts.get(k, v) != v:
                return                  # no such rule
            c.facts[k] = v
        for c in self.refine(I, c, st, site):
            self.entry(I, c, ops, site)

    def refine(self, I, c, st, site):
        """an item of a walk over the rules was also an item of the walks before it"""
        out = [c]
        for other, (src, hist) in ((w[0], w[1:]) for w in loops.done(st)):
            if other == site or src is None or src[0] != 'src' or loops.plain(src[2]) != RULES:
                continue
            now = []
            for x in out:
                for facts in hist:
                    y = x.copy()
                    if all(loops.learn(I, y, norm(core.subst(k, ('itm', other), ('itm', site))), v) for k, v in facts
                           if k[0] in ('b', 'var', 'iv')):
                        now.append(y)
            if len(now) > 200:
                return out
            out = now
        return out

    def entry(self, I, c, ops, site):
        if not ops:
            return self.bad('G05', 'lost', 'does not keep every rule')
        if len(ops) != 1 or ops[0][0] == 'seq':
            return self.undec('several entries for one rule')
        key, val = ops[0]
        itm = ('itm', site)
        if key[0] != 't' or key[1][0] != 'key' or loops.plain(key[1][1]) != RULES or key[1][2] != T(itm):
            if core.opaque(key):
                return self.undec('number of the rule')
            return self.bad('G05', 'number', 'keeps a rule under another number')
        rule = None
        for b in (T(RULES), T(('.', RULES, ('e', key)))):
            rule = b
        val = norm(I.deep(c, val))
        got = {f: norm(I.deep(c, I.project(c, val, f))) for f in ('possible_productions', 'ignore', 'instruction')}
        had = {f: norm(I.deep(c, I.project(c, rule, f))) for f in got}
        if got['instruction'] != had['instruction']:
            if core.opaque(got['instruction']):
                self.undec('instructions')
            else:
                self.bad('G05', 'instruction', 'does not keep the instructions of a rule')
        ign = I.known_variant(c, had['ignore'])
        ignore = I.deep(c, I.project(c, I.project(c, had['ignore'], ('v', 'Some')), '0'))
        der = None
        if ign == 'Some':
            der = self.derived(c, ignore, key)
        same = got['possible_productions'] == had['possible_productions']
        if ign is None:
            if same:
                return self.bad('G04', 'unasked', 'leaves a rule as it is without asking whether it has an ignore rule')
            return self.undec('ignore rule not asked for')
        if ign == 'None' or der is True:
            why = 'without an ignore rule' if ign == 'None' else 'which the ignore rule is made of'
            if not same:
                r = self.unchanged(I, c, got['possible_productions'], had['possible_productions'])
                if r is False:
                    self.bad('G04', 'woven|' + ign, 'changes the productions of a rule ' + why)
                elif r is None:
                    self.undec('productions of a rule ' + why)
            if ign == 'None' and got['ignore'] != had['ignore'] and I.known_variant(c, got['ignore']) == 'Some':
                self.bad('G04', 'ignore', 'gives an ignore rule to a rule without one')
            return
        if der is None:
            # not asked: weaving into a rule of the ignore rule, or leaving another rule as it is
            if same:
                return self.bad('G04', 'not-woven', 'leaves the productions of a rule with an ignore rule as they are')
            return self.bad('G04', 'always', 'weaves the ignore rule in without asking whether it is made of this rule')
        if der == 'other':
            if self.sure:
                return self.bad('G04', 'other', 'asks whether other rules are made of each other, not the ignore rule of this one')
            return self.undec('other rules compared')
        if self.own is False and I.decide(c, I.ieq(ignore, key)) is not False:
            self.bad('G04', 'itself', 'weaves the ignore rule into itself')
        if same:
            return self.bad('G04', 'not-woven', 'leaves the productions of a rule with an ignore rule as they are')
        self.woven(I, c, got['possible_productions'], had['possible_productions'], ignore)
        g = got['ignore']
        if g != had['ignore']:
            gv = I.known_variant(c, g)
            if gv == 'None':
                self.bad('G04', 'ignore-lost', 'forgets the ignore rule of a rule it has been woven into')
            elif gv != 'Some' or norm(I.deep(c, I.project(c, I.project(c, g, ('v', 'Some')), '0'))) != norm(ignore):
                self.undec('ignore rule of the edited rule')

    def derived(self, c, ignore, key):
        """was 'is the ignore rule made of this rule' asked, and the answer"""
        out = None
        for k, v in c.facts.items():
            if k[0] == 'b' and k[1][0] == 'op' and k[1][1] == 'derives':
                a, b = norm(k[1][2]), norm(k[1][3])
                if a == norm(ignore) and b == norm(key):
                    return v
                out = 'other'
        return out

    def unchanged(self, I, c, got, had):
        """the same list rebuilt"""
        if core.opaque(got):
            return None
        for n in range(1, LENGTHS):
            x = expand(I, c, got, {had: n})
            if x is None:
                return None
            if [norm(e) for e in x] != [norm(T(('.', had[1], ('x', K('int', i))))) for i in range(n)]:
                return False if all(not core.opaque(e) for e in x) else None
        return True

    def woven(self, I, c, got, had, ignore):
        """every production of the list got is the one of had with the ignore rule between its elements"""
        ps = loops.parts('vec', got) if got[0] in ('vec', 't') else None
        if got[0] == 'vec' and got[1] is None and not got[2]:
            if I.decide(c, I.ieq(T(('op', 'len', had)), K('int', 0))) is not True:
                self.undec('no productions')
            return
        if not ps or len(ps) != 1 or ps[0][0] != 'seq':
            if isinstance(got, tuple) and not core.opaque(got) and ps and all(p[0] == 'item' for p in ps):
                return self.bad('G04', 'alternatives', 'does not keep the alternatives of a rule')
            return self.undec('shape of the productions')
        _, site, src, chunks, state = ps[0]
        if src[0] != 'src' or norm(src[2]) != had or src[1] not in ('slice', 'vecval') or state != 'full':
            return self.undec('walk over the productions')
        itm = T(('itm', site))
        prod = T(('.', had[1], ('x', itm)))
        for ops, facts in chunks:
            self.n += 1
            s = c.copy()
            s.facts.update(facts)
            if not ops:
                self.bad('G04', 'alternative-lost', 'drops an alternative of a rule')
                continue
            if len(ops) != 1:
                self.undec('several productions for one')
                continue
            x = I.deep(s, ops[0])
            while x[0] == 'a' and x[1] in ('Rc', 'Box'):
                x = I.deep(s, core.fld(x, '*'))
            kind = I.known_variant(s, prod)
            new = I.known_variant(s, x)
            if norm(x) == norm(prod):
                if kind == 'Empty':
                    continue
                if kind == 'NotEmpty':
                    lo = self.short(I, s, T(('.', ('.', prod[1], ('v', 'NotEmpty')), '0')))
                    if lo:
                        continue
                self.bad('G04', 'alternative-kept', 'does not weave the ignore rule into every alternative')
                continue
            if kind is None or new is None:
                self.undec('kind of production')
                continue
            if kind != new:
                self.bad('G04', 'kind', 'turns %s production into %s one' % (
                    ('an empty', 'a non-empty') if kind == 'Empty' else ('a non-empty', 'an empty')))
                continue
            if kind == 'Empty':
                continue
            lst = T(('.', ('.', prod[1], ('v', 'NotEmpty')), '0'))
            self.weave(I, s, I.deep(s, I.project(s, I.project(s, x, ('v', 'NotEmpty')), '0')), lst, ignore)

    def short(self, I, s, lst):
        return I.decide(s, I.ilt(T(('op', 'len', lst)), K('int', 2))) is True

    def weave(self, I, s, got, lst, ignore):
        length = T(('op', 'len', lst))
        lo = I.interval(s, ((length[1], 1),))[0] or 0
        for n in list(range(LENGTHS + 1)) + [lo, lo + 1, lo + 2]:
            e = s.copy()
            if not I.assume(e, I.ieq(length, K('int', n)), True):
                continue
            for e, x in cases(I, e, lambda s: expand(I, s, got, {lst: n})):
                if self.elements(I, e, x, lst, ignore, n):
                    return

    def elements(self, I, e, x, lst, ignore, n):
            """compare one outcome with the specification; True when there is nothing more to say"""
            if x is None:
                self.undec('elements of a woven production')
                return True
            want = []
            for i in range(n):
                want += [T(('.', lst[1], ('x', K('int', i)))), ignore]
            want = [norm(y) for y in want[:-1]]
            x = [norm(y) for y in x]
            if same(I, e, x, want):
                return False
            if any(core.opaque(y) for y in x):
                self.undec('elements of a woven production')
                return True
            names = {norm(ignore): '_'}
            for i in range(n):
                names[norm(T(('.', lst[1], ('x', K('int', i)))))] = 'e%d' % i
            self.bad('G04', 'weave', 'turns a production of %d elements (%s) into (%s), with the ignore rule written _' % (
                n, ' '.join('e%d' % i for i in range(n)), ' '.join(names.get(y, show(y)) for y in x)))
            return True


def norm(v):
    """by-reference keys and maps written like the map itself"""
    memo = {}

    def f(x):
        if isinstance(x, frozenset):
            return frozenset(f(y) for y in x)
        if not isinstance(x, tuple):
            return x
        r = memo.get(id(x))
        if r is not None:
            return r[0]
        if len(x) == 3 and x[0] == 'key' and isinstance(x[1], tuple) and x[1][0] == 'r':
            y = ('key', T(loops.plain(x[1])), f(x[2]))
        elif len(x) == 3 and x[0] == 'vec' and x[1] is not None and not x[2] and isinstance(x[1], tuple) and x[1][0] == 't':
            y = f(x[1])
        else:
            y = tuple(f(z) for z in x)
        memo[id(x)] = (y, x)
        return y
    return f(v)


def expand(I, s, v, lens):
    """the items of a list for given lengths of the lists it is built from, or None"""
    if v[0] == 'vec':
        if v[1] is None:
            out = []
        else:
            out = expand(I, s, v[1], lens)
        for o in v[2]:
            if out is None:
                return None
            if isinstance(o, tuple) and o and o[0] == 'cat':
                b = expand(I, s, o[1], lens)
                out = None if b is None else out + b
            else:
                out = out + [o]
        return out
    if v[0] == 'subv':
        x = expand(I, s, v[1], lens)
        if x is None or v[2][0] != 'k' or v[3] is not None and v[3][0] != 'k':
            return None
        return x[v[2][2]:v[3][2] if v[3] is not None else None]
    if v[0] != 't':
        return None
    t = v[1]
    n = lens.get(norm(v))
    if n is not None:
        return [T(('.', norm(v)[1], ('x', K('int', i)))) for i in range(n)]
    if t[0] == 'op' and t[1] == 'init':
        x = expand(I, s, t[2], lens)
        return None if not x else x[:-1]
    if t[0] == 'op' and t[1] == 'concat':
        a, b = expand(I, s, t[2], lens), expand(I, s, t[3], lens)
        return None if a is None or b is None else a + b
    if t[0] == 'rep':
        prev, site, src, chunks, state = t[1:]
        out = expand(I, s, prev, lens)
        if out is None or state != 'full' or src[0] != 'src':
            return None
        rng = positions(I, s, src, lens)
        if rng is None:
            return None
        for i in rng:
            e = s.copy()
            fit = [c for c in sorted(chunks, key=loops.canon) if fits(I, e, c[1], site, i)]
            if not fit:
                return None
            if len({repr(c[0]) for c in fit}) != 1:
                if not apart([c[1] for c in fit]):
                    return None
                raise core.Split([learner(I, c[1], site, i) for c in fit])
            fit = [fit[0][0]]
            for o in fit[0]:
                o = core.subst(o, ('itm', site), ('k', 'int', i))
                o = fixix(o, i, site)
                if isinstance(o, tuple) and o and o[0] in ('cat', 'seq'):
                    b = expand(I, e, o[1], lens) if o[0] == 'cat' else None
                    if b is None:
                        return None
                    out = out + b
                else:
                    out = out + [o]
        return out
    return None


def same(I, s, x, want):
    if len(x) != len(want):
        return False
    return all(a == b or I.veq(s, a, b) is True for a, b in zip(x, want))


def apart(alts):
    """every two of these sets of facts contradict each other: what an item is decides between them"""
    for n, a in enumerate(alts):
        a = dict(a)
        for b in alts[:n]:
            b = dict(b)
            if not any(k in b and clash(k, v, b[k]) for k, v in a.items()):
                return False
    return True


def clash(k, v, w):
    if k[0] == 'iv':
        if v[0] is not None and v[0] == v[1] and v[0] in w[2] or w[0] is not None and w[0] == w[1] and w[0] in v[2]:
            return True
        return v[0] is not None and w[1] is not None and v[0] > w[1] or w[0] is not None and v[1] is not None and w[0] > v[1]
    return k[0] in ('b', 'var') and v != w


def learner(I, facts, site, i):
    def f(s):
        for k, v in sorted(facts, key=loops.canon):
            k = fixix(core.subst(k, ('itm', site), ('k', 'int', i)), i, site)
            if k[0] == 'iv':
                if not ivlearn(I, s, k, v):
                    return None
            elif k[0] in ('b', 'var') and not loops.learn(I, s, k, v):
                return None
        return s
    return f


def ivlearn(I, s, k, v):
    t = K('int', 0)
    for a, m in k[1]:
        for _ in range(abs(m)):
            t = I.iadd(t, K('int', a[2]) if a[:2] == ('k', 'int') else T(a), 1 if m > 0 else -1)
    lo, hi, ex = v
    if lo is not None and not I.assume(s, I.ilt(t, K('int', lo), False), False):
        return False
    if hi is not None and not I.assume(s, I.ilt(K('int', hi), t, False), False):
        return False
    return all(I.assume(s, I.ieq(t, K('int', x), False), False) for x in ex)


def fixix(x, i, site):
    """index terms after putting in a number: ('t', ('k','int',i)) is the constant"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 't' and isinstance(x[1], tuple) and x[1][:2] == ('k', 'int'):
            return x[1]
        if len(x) == 3 and x[0] == 'lin' and any(a[:2] == ('k', 'int') for a, _ in x[1]):
            rest = tuple((a, m) for a, m in x[1] if a[:2] != ('k', 'int'))
            n = x[2] + sum(m * a[2] for a, m in x[1] if a[:2] == ('k', 'int'))
            if not rest:
                return ('k', 'int', n)
            return rest[0][0] if len(rest) == 1 and rest[0][1] == 1 and n == 0 else ('lin', rest, n)
        x = tuple(fixix(y, i, site) for y in x)
        if len(x) == 2 and x[0] == 't' and isinstance(x[1], tuple) and x[1][:2] == ('k', 'int'):
            return x[1]
        if len(x) == 5 and x[:2] == ('op', 'bin') and x[2] in FOLD and x[3][0] == 'k' and x[4][0] == 'k' and x[4][2]:
            return ('k', 'int', FOLD[x[2]](x[3][2], x[4][2]))
        return x
    if isinstance(x, frozenset):
        return frozenset(fixix(y, i, site) for y in x)
    return x


def positions(I, s, src, lens):
    kind, what = src[1], src[2]
    if kind in ('slice', 'vecval', 'rslice'):
        x = expand(I, s, what, lens)
        if x is None:
            return None
        r = list(range(len(x)))
        return r[::-1] if kind == 'rslice' else r
    if kind == 'range':
        a = [const(I, s, y, lens) for y in what[:2]]
        return None if None in a else list(range(*a))
    return None


def const(I, s, y, lens):
    if y[0] == 'k':
        return y[2]
    a, c = I.lin(y)
    for t, n in a:
        if t[0] == 'op' and t[1] == 'len' and norm(t[2]) in lens:
            c += n * lens[norm(t[2])]
        else:
            return None
    return c


def fits(I, s, facts, site, i):
    """could a chunk be the one for item number i"""
    try:
        return learner(I, facts, site, i)(s.copy()) is not None
    except core.Split:
        return True


class Derives(core.Client):
    """one level of the search 'is this rule made of that one'; deeper levels are answered by the specification

    ghost found: a way to the target is known; skip: an element or production was passed over; all: every production
    has been walked
    """

    def __init__(self, F, der, key):
        super().__init__()
        self.F, self.der, self.key = F, der, key
        self.fn = F.fns[key]['name']
        self.selfcheck = True       # equality of start and target is decided

    def setup(self, start, target):
        self.start, self.target = T(('in', 'p%d' % start)), T(('in', 'p%d' % target))

    def init_ghost(self):
        return {'found': False, 'skip': '', 'all': False, 'prod': None, 'el': None, 'walked': False}

    def widen_ghost(self, *a):
        return None

    def number(self, I, st, v):
        v = I.deep(st, v)
        while v[0] == 'r':
            v = I.deep(st, I.read(st, v[1]))
        return v

    def call(self, I, st, c):
        k = c.f.get('inst')
        if k not in self.der:
            return None
        f, (s0, t0) = self.der[k][0], self.orient[k]
        a, b = self.number(I, st, c.args[s0]), self.number(I, st, c.args[t0])
        if core.opaque(a) or core.opaque(b):
            st.notes = st.notes | {'opq'}
        plain = ty(f, 0) == 'bool'
        outs = [] if plain else [(st.copy(), core.Err(T(('opq', 'no rule'))))]
        for v in (True, False):
            s = st.copy()
            if I.assume(s, T(('op', 'derives', a, b)), v):
                if v and b == self.target:
                    s.ghost['found'] = True
                outs.append((s, K('bool', v) if plain else core.Ok(K('bool', v))))
        return outs

    def lists(self, I, st, it):
        """'prods' / 'els' when a walk is over the productions of the start rule / the elements of one of them"""
        src = it[2]
        v = norm(I.deep(st, src)) if src[0] != 'r' else norm(I.deep(st, I.read(st, src[1])))
        if v[0] != 't':
            return None
        t = v[1]
        if t[0] == '.' and t[2] == 'possible_productions' and t[1][0] == '.' and t[1][2] == ('e', self.start):
            return 'prods'
        if t[0] == '.' and t[2] == '0' and t[1][0] == '.' and t[1][2] == ('v', 'NotEmpty'):
            return 'els'
        return None

    def iter_next(self, I, st, it, x, c):
        k = self.lists(I, st, it)
        if k == 'prods':
            st.ghost['prod'] = self.number(I, st, x)
            st.ghost['walked'] = False
        elif k == 'els':
            st.ghost['el'] = self.number(I, st, x)

    def iter_step(self, I, st, it, c):
        k = self.lists(I, st, it)
        g = st.ghost
        if k == 'els' and g['el'] is not None:
            el, g['el'] = g['el'], None
            if g['found'] or g['skip']:
                return
            if I.decide(st, I.ieq(el, self.target)) is True:
                g['found'] = True
            elif not self.followed(I, st, el):
                g['skip'] = 'an element'
        elif k == 'prods' and g['prod'] is not None:
            p, g['prod'] = g['prod'], None
            if g['found'] or g['skip'] or g['walked']:
                return
            if I.known_variant(st, p) != 'Empty':
                g['skip'] = 'a production'

    def followed(self, I, st, el):
        for k, v in st.facts.items():
            if k[0] == 'b' and k[1][0] == 'op' and k[1][1] == 'derives' and k[1][2] == el and k[1][3] == self.target:
                return True
            if k[0] == 'b' and v is True and k[1][0] == 'op' and k[1][1] == 'in' and k[1][3] == el:
                return True
            if k[0] == 'var' and v == 'Terminal' and k[1][0] == '.' and k[1][2] == ('x', el):
                return True
        return False

    def iter_end(self, I, st, it, c):
        k = self.lists(I, st, it)
        if k == 'els':
            st.ghost['walked'] = True
        elif k == 'prods':
            st.ghost['all'] = True

    def ret(self, I, st, v):
        v = I.deep(st, v)
        if v[0] == 'a' and not isok(v):
            return
        if v[0] == 'a':
            v = I.deep(st, core.fld(v, '0'))
        self.ob('%s: answers compared with what was found' % self.fn)
        if not definite(st) or v[0] != 'k':
            return self.undec('%s: answer not followed' % self.fn)
        g = st.ghost
        eq = I.decide(st, I.ieq(self.start, self.target))
        if v[2]:
            last = g['el'] is not None and I.decide(st, I.ieq(g['el'], self.target)) is True
            if not g['found'] and not last and eq is not True:
                self.violation('made-of|yes', '%s can answer yes without having met the target' % self.fn, I.where(st))
            return
        for k, w in st.facts.items():
            if k[0] == 'var' and w == 'Terminal' and k[1][0] == '.' and k[1][2] == ('x', self.start):
                return
            if k[0] == 'b' and w is True and k[1][0] == 'op' and k[1][1] == 'in' and k[1][3] == self.start:
                return
        if g['found'] or g['el'] is not None and I.decide(st, I.ieq(g['el'], self.target)) is True:
            self.violation('made-of|no', '%s can answer no although the target was met' % self.fn, I.where(st))
        elif g['skip']:
            self.violation('made-of|skip', '%s can answer no although %s was passed over' % (self.fn, g['skip']), I.where(st))
        elif not g['all']:
            self.violation('made-of|early', '%s can answer no before all productions were searched' % self.fn, I.where(st))
        elif eq is None:
            self.selfcheck = False
        elif eq:
            self.violation('made-of|self', '%s answers no for a rule and itself' % self.fn, I.where(st))


def orient(F, k):
    """(start, target) positions of a recursive search: the target is handed on unchanged"""
    f = F.fns[k]
    ns = numbers(f)
    fixed = set(ns)
    copies = {}
    for b in f['blocks']:
        for s in b['s']:
            if s['s'] == '=' and not s['p']['p'] and s['r']['k'] in ('use', 'ref'):
                p = s['r'].get('p') or (s['r'].get('a') or {}).get('p')
                if p and not [e for e in p['p'] if e[0] != '*']:
                    copies.setdefault(s['p']['l'], set()).add(p['l'])
    n = 0
    for b in f['blocks']:
        t = b['t']
        if t['k'] == 'call' and t['f'].get('inst') == k:
            n += 1
            for i in list(fixed):
                a = t['args'][i]
                l = a['p']['l'] if a.get('k') in ('copy', 'move') and not [e for e in a['p']['p'] if e[0] != '*'] else None
                hop = 0
                while l is not None and l != i + 1 and hop < 8:
                    nxt = copies.get(l, ())
                    l = next(iter(nxt)) if len(nxt) == 1 else None
                    hop += 1
                if l != i + 1:
                    fixed.discard(i)
    if not n or len(fixed) != 1:
        return None
    t = fixed.pop()
    return ([x for x in ns if x != t][0], t)


class Wrapper(Derives):
    """a function that only starts the search: its answer is the answer of the search"""

    def call(self, I, st, c):
        k = c.f.get('inst')
        r = super().call(I, st, c)
        if r is not None:
            a, b = (self.number(I, st, c.args[i]) for i in self.orient[k])
            self.passed.add((a, b))
        return r

    passed = frozenset()

    def ret(self, I, st, v):
        v = I.deep(st, v)
        if v[0] == 'a' and not isok(v):
            return
        if v[0] == 'a':
            v = I.deep(st, core.fld(v, '0'))
        if not definite(st) or v[0] != 'k':
            return self.undec('%s: answer not followed' % self.fn)
        self.ob('%s: answers compared with what was found' % self.fn)
        asked = [w for k, w in st.facts.items() if k[0] == 'b' and k[1][0] == 'op' and k[1][1] == 'derives']
        eq = I.decide(st, I.ieq(*self.pair))
        if eq is not False and not asked and v[2]:
            return
        if eq is None:
            self.selfcheck = False
        if asked and v[2] not in asked:
            self.violation('made-of|answer', '%s does not give the answer of the search' % self.fn, I.where(st))
        elif not asked:
            self.undec('%s: answers without a search' % self.fn)


def searches(F, rep, der):
    """check the search itself; returns {function: (start, target)} and whether a rule is recognised as made of itself"""
    orients, ok = {}, True
    for k, (f, rec) in sorted(der.items()):
        if rec:
            o = orient(F, k)
            if o is None:
                rep.undec('%s: which number is searched for' % f['name'])
                return {}, None
            orients[k] = o
    if not orients:
        rep.undec('search for the rules the ignore rule is made of')
        return {}, None
    for k in orients:
        c = Derives(F, der, k)
        c.orient = orients
        c.setup(*orients[k])
        run(rep, F, c, k, [S('p%d' % i) for i in range(F.fns[k]['argc'])], label=F.fns[k]['path'].split('::')[-1],
            ghost=c.init_ghost())
        ok = ok and c.selfcheck
    rec = dict(orients)
    for k, (f, r) in sorted(der.items()):
        if r:
            continue
        c = Wrapper(F, {x: der[x] for x in rec}, k)
        c.orient, c.passed = rec, set()
        ns = numbers(f)
        c.pair = [T(('in', 'p%d' % i)) for i in ns]
        c.setup(*ns)
        run(rep, F, c, k, [S('p%d' % i) for i in range(f['argc'])], label=f['path'].split('::')[-1], ghost=c.init_ghost())
        if len(c.passed) == 1:
            a, b = c.passed.pop()
            names = {T(('in', 'p%d' % i)): i for i in ns}
            if a in names and b in names and a != b:
                orients[k] = (names[a], names[b])
                continue
        rep.undec('%s: how the search is started' % f['name'])
    return orients, ok


def edits(F, rep, want):
    k = rep.anchor(F, 'RuleParser::parse_rules', name='parse_rules', self_ty='rule_parsing::RuleParser')
    if k is None:
        return None
    der = derivative(F, [k])
    orients, own = searches(F, rep, der) if 'G04' in want else ({}, None)
    c = Edit(der)
    c.orient = orients
    run(rep, F, c, k, [S('self')], label='RuleParser::parse_rules', ghost=c.init_ghost())
    j = Judge(rep, c, want)
    j.sure = bool(orients) and all(k in orients for k in der)
    j.own = own
    seen = set()
    for I, st, v in c.finals:
        x = (v, frozenset((a, b) for a, b in st.facts.items()), definite(st))
        if x in seen:
            continue
        seen.add(x)
        j.final(I, st, v)
    rep.ob('edited rules compared with the specification', j.n)
    return der


def g04(F, rep):
    rep.rule('the rules after the editing pass, summarised per rule and per production, compared with the specification of '
             'weaving: unchanged without an ignore rule or inside it, otherwise the ignore rule between neighbours only')
    edits(F, rep, ('G04',))
    rep.floor('edited rules compared with the specification', 3)


def g05(F, rep):
    rep.rule('the rules after the editing pass, summarised per rule, keep number and instructions; none is lost')
    edits(F, rep, ('G05',))
    rep.floor('edited rules compared with the specification', 3)
