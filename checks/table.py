"""G03: the table of elements."""
from . import same
from engine import core, loops, strings
from engine.core import K, T
from .common import S, run, definite, cases, isok, show
from .graph import Base

EV = 'parser_data::ElementVerbose'
TABLES = ('element_data', 'element_types', 'element_verbose_map')
OPTION = 'core::option::Option'


def kind_of(I, st, v):
    return I.known_variant(st, I.deep(st, v))


class Tab(Base):
    def len(self, f):
        return T(('op', 'len', self.init(f)))

    def equal_lengths(self, I, s):
        """both tables have the same length: what is known about one length is known about the other"""
        a, b = self.len('element_types')[1], self.len('element_data')[1]
        if not I.assume(s, I.ieq(T(a), T(b)), True):
            return False
        for k, v in list(s.facts.items()):
            if k[0] != 'iv' or not core.contains(k, a):
                continue
            atoms = {}
            for x, n in core.subst(k[1], a, b):
                atoms[x] = atoms.get(x, 0) + n
            atoms = {x: n for x, n in atoms.items() if n}
            lo, hi = v[0], v[1]
            t = K('int', 0)
            for x, n in atoms.items():
                t = I.iadd(t, T(x), n)
            if lo is not None and not I.assume(s, I.ilt(t, K('int', lo)), False):
                return False
            if hi is not None and not I.assume(s, I.ilt(K('int', hi), t), False):
                return False
        return True

    def kept(self, I, s, what):
        """no table changed"""
        bad = []
        for f in TABLES:
            v, w = I.read(s, self.f(f)), self.init(f)
            if v == w or v[0] in ('vec', 'map') and v[1] == w and not v[2]:
                continue
            if core.opaque(v):
                self.undec('%s: %s not followed' % (self.fn, f))
                continue
            bad.append(('changes|' + f, 'changes %s although it %s' % (f, what)))
        return bad

    def panic(self, I, st, kind, c):
        if definite(st) and not kind.startswith('Overflow') and self.consistent(I, st):
            self.bad(I, st, 'panic', 'can panic (%s)' % kind)

    def consistent(self, I, st):
        """the path is possible for tables of the same length"""
        s = st.copy()
        return self.equal_lengths(I, s)


def same_text(I, s, a, b):
    """are two texts equal: True / False / None"""
    a, b = I.strnorm(s, I.deep(s, a)), I.strnorm(s, I.deep(s, b))
    if a == b:
        return True
    r = I.veq(s, a, b)
    if r is None and (core.opaque(a) or core.opaque(b)):
        return None
    if not r and (strings.has(a, strings.FNS) or strings.has(b, strings.FNS)):
        return False if strings.differs(s, a, b) else None
    return bool(r)


def key_is(I, s, got, name, kind):
    """is this value the element with that name and kind"""
    got = I.deep(s, got)
    if got == name and kind is None:
        return True
    n, k = I.deep(s, I.project(s, got, 'name')), I.deep(s, I.project(s, got, 'et'))
    r = same_text(I, s, n, name if kind is not None else I.project(s, name, 'name'))
    if r is not True:
        return r
    if kind is None:
        w = I.deep(s, I.project(s, name, 'et'))
        if k == w:
            return True
        return None if core.opaque(k) else I.veq(s, k, w)
    v = I.known_variant(s, k)
    return None if v is None else v == kind


class Add(Tab):
    """get_or_add_*: the number of the element; a new element gets the next number in all tables"""

    def __init__(self, fn, arg, kind):
        super().__init__(fn)
        self.arg, self.kind = arg, kind

    def keyval(self, I, s):
        if self.kind is None:
            return I.deep(s, S(self.arg))
        return ('a', self.adt, None, (('name', ('str', (('v', S(self.arg)),))), ('et', self.et)))

    def ret(self, I, st, val):
        if overflow(st):
            return
        self.ob('%s: exits compared with the element table' % self.fn)
        self.each(I, st, lambda s: self.compare(I, s, I.deep(s, val)))

    def looked_up(self, I, s):
        """(key, outcome) of the look-up this path made"""
        m = self.init('element_verbose_map')
        out = []
        for k, v in s.facts.items():
            if k[0] == 'b' and k[1][0] == 'op' and k[1][1] == 'has' and len(k[1]) == 4 and k[1][2] == m:
                out.append((k[1][3], v))
        return out

    def compare(self, I, s, val):
        looks = self.looked_up(I, s)
        for k, had in looks:
            # recorded numbers are numbers of the tables
            if had and not I.assume(s, I.ilt(I.mapval(s, self.init('element_verbose_map'), k), self.len('element_data')), True):
                return []
        if not self.equal_lengths(I, s):
            return []
        mine = [(k, v) for k, v in looks if self.is_key(I, s, k) is True]
        if not mine:
            if looks and all(self.is_key(I, s, k) is False for k, v in looks):
                return [('key', 'looks up another element than the one it is asked for')]
            self.undec('%s: no look-up of the element' % self.fn)
            return []
        key, had = mine[0]
        if had:
            bad = self.kept(I, s, 'knows the element')
            want = I.mapval(s, self.init('element_verbose_map'), key)
            if val != want and I.veq(s, val, want) is not True:
                if core.opaque(val):
                    self.undec('%s: number not followed' % self.fn)
                else:
                    bad.append(('number', 'returns another number than the one the element has'))
            return bad
        n = self.len('element_data')
        bad = []
        if I.decide(s, I.ieq(val, n)) is not True:
            if core.opaque(val):
                self.undec('%s: number not followed' % self.fn)
            else:
                bad.append(('new-number', 'gives a new element the number %s, not the next one' % show(val)))
        data, types, emap = (I.read(s, self.f(f)) for f in TABLES)
        for f, v in (('element_data', data), ('element_types', types)):
            if v == self.init(f) or v[0] == 'vec' and v[1] == self.init(f) and not v[2]:
                bad.append(('missing|' + f, 'does not enter a new element into %s' % f))
            elif v[0] != 'vec' or v[1] != self.init(f):
                if core.opaque(v):
                    self.undec('%s: %s not followed' % (self.fn, f))
                else:
                    bad.append(('rewrites|' + f, 'changes other entries of %s' % f))
            elif len(v[2]) != 1:
                bad.append(('twice|' + f, 'enters a new element into %s more than once' % f))
            elif f == 'element_data':
                r = self.name_ok(I, s, I.project(s, v[2][0], 'name'))
                if r is False:
                    bad.append(('name', 'enters a new element under another name'))
                elif r is None:
                    self.undec('%s: name not followed' % self.fn)
            else:
                r = self.kind_ok(I, s, v[2][0])
                if r is False:
                    bad.append(('kind', 'enters a new element with another kind'))
                elif r is None:
                    self.undec('%s: kind not followed' % self.fn)
        if emap == self.init('element_verbose_map') or emap[0] == 'map' and not emap[2]:
            bad.append(('missing|element_verbose_map', 'does not record the number of a new element'))
        elif emap[0] != 'map' or emap[1] != self.init('element_verbose_map'):
            self.undec('%s: element_verbose_map not followed' % self.fn)
        elif len(emap[2]) != 1:
            bad.append(('twice|element_verbose_map', 'records several elements'))
        else:
            k, v = emap[2][0]
            r = self.is_key(I, s, k)
            if r is False:
                bad.append(('recorded', 'records the number of a new element under another key'))
            elif r is None:
                self.undec('%s: recorded key not followed' % self.fn)
            if I.decide(s, I.ieq(I.deep(s, v), n)) is not True:
                if core.opaque(v):
                    self.undec('%s: recorded number not followed' % self.fn)
                else:
                    bad.append(('recorded-number', 'records another number than the next one'))
        return bad

    def is_key(self, I, s, k):
        if self.kind is None:
            return key_is(I, s, k, I.deep(s, S(self.arg)), None)
        return key_is(I, s, k, S(self.arg), self.kind)

    def name_ok(self, I, s, v):
        w = S(self.arg) if self.kind is not None else I.project(s, S(self.arg), 'name')
        return same_text(I, s, v, w)

    def kind_ok(self, I, s, v):
        v = I.deep(s, v)
        if self.kind is None:
            w = I.deep(s, I.project(s, S(self.arg), 'et'))
            if v == w:
                return True
            a, b = I.known_variant(s, v), I.known_variant(s, w)
            if a is None or b is None:
                return None if core.opaque(v) else False
            return a == b
        a = I.known_variant(s, v)
        return None if a is None else a == self.kind


class Look(Add):
    """get_element_*_index: the number of the element if it has one"""

    def compare(self, I, s, val):
        bad = self.kept(I, s, 'only looks up')
        looks = self.looked_up(I, s)
        mine = [(k, v) for k, v in looks if self.is_key(I, s, k) is True]
        if not mine:
            if looks and all(self.is_key(I, s, k) is False for k, v in looks):
                return bad + [('key', 'looks up another element than the one it is asked for')]
            self.undec('%s: no look-up of the element' % self.fn)
            return bad
        key, had = mine[0]
        v = I.known_variant(s, val)
        if v is None:
            self.undec('%s: result not followed' % self.fn)
            return bad
        if had != (v == 'Some'):
            return bad + [('found', 'answers %s for an element it %s' % (v, 'has' if had else 'does not have'))]
        if had:
            x = I.deep(s, I.project(s, I.project(s, val, ('v', 'Some')), '0'))
            want = I.mapval(s, self.init('element_verbose_map'), key)
            if x != want and I.veq(s, x, want) is not True:
                if core.opaque(x):
                    self.undec('%s: number not followed' % self.fn)
                else:
                    bad.append(('number', 'returns another number than the one the element has'))
        return bad


class ByIndex(Tab):
    """get_element / get_element_verbose / get_element_data: the entries of both tables at that number"""

    def ret(self, I, st, val):
        self.ob('%s: exits compared with the element table' % self.fn)
        self.each(I, st, lambda s: self.compare(I, s, I.deep(s, val)))

    def compare(self, I, s, val):
        bad = self.kept(I, s, 'only looks up')
        ix = S('ix')
        if not self.equal_lengths(I, s):
            return []
        there = I.test(s, I.ilt(ix, self.len('element_data')))
        v = I.known_variant(s, val)
        if v is None:
            self.undec('%s: result not followed' % self.fn)
            return bad
        if there != (v == 'Some'):
            return bad + [('found', 'answers %s for a number that %s' % (v, 'exists' if there else 'does not exist'))]
        if not there:
            return bad
        x = I.deep(s, I.project(s, I.project(s, val, ('v', 'Some')), '0'))
        data = I.index(s, self.init('element_data'), ix)
        et = I.deep(s, I.index(s, self.init('element_types'), ix))
        for what, got, want in self.parts(I, s, x, data, et):
            got, want = I.deep(s, got), I.deep(s, want)
            if got == want or I.veq(s, got, want) is True or self.sametext(I, s, got, want):
                continue
            if core.opaque(got):
                self.undec('%s: %s not followed' % (self.fn, what))
            else:
                bad.append((what, 'returns another %s than the one at that number' % what))
        return bad

    def sametext(self, I, s, a, b):
        return I.strnorm(s, a) == I.strnorm(s, b)

    def parts(self, I, s, x, data, et):
        if self.fn == 'get_element_data':
            return [('entry', x, data)]
        if self.fn == 'get_element':
            return [('number', I.project(s, x, 'ix'), S('ix')), ('kind', I.project(s, x, 'et'), et)]
        return [('name', I.project(s, x, 'name'), I.project(s, data, 'name')), ('kind', I.project(s, x, 'et'), et)]


class Every(Tab):
    """get_elements_verbose: one entry per element, in the order of the numbers"""
    summarise = True

    def ret(self, I, st, val):
        if not self.consistent(I, st):
            return
        self.ob('%s: exits compared with the element table' % self.fn)
        self.each(I, st, lambda s: self.compare(I, s, I.deep(s, val)))

    def compare(self, I, s, val):
        bad = self.kept(I, s, 'only looks up')
        data, types = self.init('element_data'), self.init('element_types')
        if val[0] == 'vec' and val[1] is None and not val[2]:
            if I.decide(s, I.ieq(self.len('element_data'), K('int', 0))) is True or \
               I.decide(s, I.ieq(self.len('element_types'), K('int', 0))) is True:
                return bad
            if I.decide(s, I.ieq(self.len('element_data'), K('int', 0))) is False:
                bad.append(('lost', 'returns nothing although there are elements'))
            else:
                self.undec('%s: empty result' % self.fn)
            return bad
        ps = list(loops.parts('vec', val))
        if len(ps) != 1 or ps[0][0] != 'seq':
            self.undec('%s: shape of the result' % self.fn)
            return bad
        rep = ps[0]
        site, src, chunks, state = rep[1], rep[2], rep[3], rep[4]
        if src[0] != 'src' or src[1] != 'slice' or src[2] not in (data, types) or state != 'full':
            self.undec('%s: what is listed' % self.fn)
            return bad
        ix = T(('itm', site))
        for ops, facts in chunks:
            c = s.copy()
            c.facts.update(dict(facts))
            if len(ops) != 1:
                bad.append(('entries', 'lists %s for some element' % ('nothing' if not ops else 'several entries')))
                continue
            x = I.deep(c, ops[0])
            for what, got, want in (
                    ('name', I.project(c, x, 'name'), I.project(c, I.index(c, data, ix), 'name')),
                    ('kind', I.project(c, x, 'et'), I.index(c, types, ix))):
                got, want = I.deep(c, got), I.deep(c, want)
                if got == want or I.strnorm(c, got) == I.strnorm(c, want):
                    continue
                if core.opaque(got):
                    self.undec('%s: %s not followed' % (self.fn, what))
                else:
                    bad.append((what, 'lists another %s than the one at that number' % what))
        return bad


def tables_touched(F, f):
    """table fields of ParserData which this function itself makes longer, shorter or reorders"""
    refs, out = {}, {}
    for b in f['blocks']:
        for s in b['s']:
            if s['s'] == '=' and s['p']['p'] and s['p']['p'][-1][0] == 'f' and s['p']['p'][-1][2] in TABLES:
                out.setdefault(s['p']['p'][-1][2], s.get('sp', ''))
            if s['s'] != '=' or s['r']['k'] != 'ref' or not s['r'].get('mut') or s['p']['p']:
                continue
            pl = s['r']['p']
            p = [e for e in pl['p'] if e[0] != '*']
            if p and p[-1][0] == 'f' and p[-1][2] in TABLES:
                refs[s['p']['l']] = p[-1][2]
            elif not p and pl['l'] in refs:
                refs[s['p']['l']] = refs[pl['l']]
        t = b['t']
        if t['k'] == 'call' and t['args'] and t['args'][0].get('k') in ('copy', 'move'):
            a = t['args'][0]['p']
            if not a['p'] and a['l'] in refs and (
                    t['f'].get('name') in GROW or t['f'].get('name') in EDIT and refs[a['l']] == 'element_types') and not t['f'].get('local'):
                out.setdefault(refs[a['l']], t.get('sp', ''))
    return out


def callees(F, roots):
    seen, work = set(), list(roots)
    while work:
        k = work.pop()
        f = F.fns.get(k)
        if k in seen or f is None or not f['local']:
            continue
        seen.add(k)
        for b in f['blocks']:
            t = b['t']
            if t['k'] == 'call' and t['f'].get('local') and t['f'].get('inst'):
                work.append(t['f']['inst'])
    return seen


def others(F, rep, roots):
    """no other function changes some of the tables without the rest"""
    done = {F.fns[k]['path'] for k in callees(F, roots)}
    n = 0
    for path, (k, f) in sorted(F.local_fns().items()):
        if path in done:
            continue
        n += 1
        t = tables_touched(F, f)
        if t and len(t) < len(TABLES):
            rep.violation('partial|' + path, '%s changes the entries of %s but not of the other tables of elements' % (
                f['name'], ', '.join(sorted(t))), sorted(t.values())[0])
        elif t:
            rep.undec('%s: changes the tables of elements itself' % path)
    rep.ob('functions outside the element table looked at for changes of the tables', n)


def overflow(st):
    from .common import overflowed
    return overflowed(st)


FUNCS = [
    ('get_or_add_element_key', Add, 'identifier', None),
    ('get_or_add_non_terminal', Add, 'name', 'NonTerminal'),
    ('get_or_add_terminal', Add, 'name', 'Terminal'),
    ('get_element_index', Look, 'key', None),
    ('get_element_nt_index', Look, 'key', 'NonTerminal'),
    ('get_element_t_index', Look, 'key', 'Terminal'),
]


def g03(F, rep):
    roots = []
    rep.rule('final tables of every operation on the element table compared with the specification: a known element keeps '
             'its number and changes nothing, a new one gets the next number in all three tables')
    for name, cls, arg, kind in FUNCS:
        k = rep.anchor(F, 'ParserData::' + name, name=name, self_ty='parser_data::ParserData')
        if k is None:
            continue
        roots.append(k)
        run(rep, F, cls(name, arg, kind), k, [S('self'), S(arg)], label='ParserData::' + name)
    for name in ('get_element', 'get_element_verbose', 'get_element_data'):
        k = rep.anchor(F, 'ParserData::' + name, name=name, self_ty='parser_data::ParserData')
        if k is None:
            continue
        run(rep, F, ByIndex(name), k, [S('self'), S('ix')], label='ParserData::' + name)
    k = rep.anchor(F, 'ParserData::get_elements_verbose', name='get_elements_verbose', self_ty='parser_data::ParserData')
    if k is not None:
        run(rep, F, Every('get_elements_verbose'), k, [S('self')], label='ParserData::get_elements_verbose')
    same.keys(F, rep)
    others(F, rep, roots)
