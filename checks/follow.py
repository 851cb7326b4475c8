"""FOLLOW sets (A02): the marking of the dependency graph, its propagation, and the sets given out."""
from engine import core, points, models as M
from engine.core import K, T, Ok, Err, Some, UNIT, fld, tup
from .analysis import Base, EMPTY, MOD, NAMES, SM, SME, mentions, source, tail_field
from .common import S, cases, definite, iserr, isok, payload, run
from .first import ETYPE, PROD, RULES, TYPES

GRAPH = ('graph',)
NODENAMES = ('.', GRAPH, 'names')
START = S('start')


def idx(key):
    return T(('.', NODENAMES, ('e', key)))


def node(ix):
    return ('S', ('node', ix))


def parts_of(x, t):
    """x mentions an element or a part of the list t"""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == '.' and x[1] == t or len(x) > 1 and x[0] == 'subv' and x[1] == ('t', t):
            return True
        return any(parts_of(y, t) for y in x if isinstance(y, (tuple, frozenset)))
    return isinstance(x, frozenset) and any(parts_of(y, t) for y in x)


class Follow(Base):
    def __init__(self, F, sym):
        super().__init__(F, sym)

    counters = True     # a count of passes can reach every number

    def keepfact(self, k):
        return super().keepfact(k) or (k[0] == 'iv' and core.has_tag(k[1], ('m',)))

    def member(self, I, st, e, s, i):
        t = s[1]
        if e == SME and i == 2:
            return False
        if t[0] == '.' and t[2] == 'data' and t[1][0] == 'node' and t[1][1] == idx(START) and st.ghost.get('phase', 0) < 1 \
                and not st.ghost.get('touched'):
            return None
        return None

    # ------------------------------------------------------------ contracts
    def isgraph(self, I, st, a):
        n = 0
        while a[0] == 'r' and n < 6:
            a = I.read(st, a[1])
            n += 1
        return a == T(GRAPH)

    def call(self, I, st, c):
        n, g = c.name, st.ghost
        if n == 'first_set_of_partial' and c.f.get('local'):
            x = I.deep(st, c.args[0])
            b = st.copy()
            b.ghost['err'] = True
            ok = T(('op', 'firstof', x))
            ln = I.vlen(st, x)
            if not core.opaque(ln) and not I.test(st, I.ilt(K('int', 0), ln)):
                ok = points.pset(SME)
            if I.deep(st, c.args[1]) != S('first_sets'):
                self.undec('other FIRST sets')
                g['unknown'] = True
            g['parts'] = g.get('parts', frozenset()) | {x}
            return [(st, Ok(ok)), (b, Err(T(('op', 'noset', x))))]
        if n in ('push', 'push_back', 'insert') and g.get('phase') and g.get('succ') is not None and len(c.args) > 1:
            self.later(I, st, I.deep(st, c.args[-1]))
            return None
        if n in ('len', 'count', 'capacity') and c.args:
            v = I.deep(st, c.args[0])
            if v in (T(RULES), T(NODENAMES)) or v[0] in ('vec', 't', 'it', 'a') and mentions(v, NODENAMES) and g.get('phase'):
                g['counted'] = True     # as many passes as there are rules are enough
        if n == 'next' and g.get('phase') and g.get('name') is None:
            # a list of unknown contents: its end is always possible
            pl, it = M.itplace(I, st, c)
            if it[0] == 'it' and it[1] in ('slice', 'vecval', 'gen') and self.what(I, st, it) is None:
                notes = st.notes
                out = M.it_next(I, st, c, pl, it)
                for s, o in out:
                    if o[0] == 'a' and o[2] == 'None':
                        s.notes = notes
                return out
            return None
        own = core.short(c.impl_self.split('<')[0])
        if own == 'SuccessorsData' and n == 'next':
            pl, it = M.itplace(I, st, c)
            if it[0] == 'it' and it[1] == 'gen':
                out = []
                for s, o in M.it_next(I, st, c, pl, it):
                    if o[2] == 'Some':
                        e = fld(o, '0')
                        ix = T(('.', e[1], '0'))
                        o = Some(tup(ix, ('r', (node(ix), ()))))
                        if s.ghost.get('succ') is not None:
                            s.ghost['succ'] = ix
                    out.append((s, o))
                return out
            return None
        if own != 'GraphNamedNodes' or not c.f.get('local'):
            return None
        if n in ('new', 'default'):
            return [(st, T(GRAPH))]
        if not c.args or not self.isgraph(I, st, c.args[0]):
            return None
        bad = st.copy()
        bad.ghost['err'] = True
        no = (bad, Err(T(('op', 'nonode', c.site))))
        if n == 'add_node':
            key = I.deep(st, c.args[1])
            have = points.restrict(I, st, c.args[2], SM)[2]
            self.ob('nodes added')
            if g.get('rule') is None or key != g['rule']:
                if not core.opaque(key):
                    self.v(st, 'node of another rule', 'a node is made under a number that is not the number of the rule looked at')
            elif any(i in self.track for i in have):
                self.v(st, 'node not empty', 'the node of a rule is made with something in it')
            g['node'] = True
            return [(st, Ok(idx(key))), no]
        if n in ('get_node', 'get_node_mut'):
            return [(st, Ok(('r', (node(idx(I.deep(st, c.args[1]))), ())))), no]
        if n in ('get_node_by_index', 'get_node_mut_by_index'):
            return [(st, Ok(('r', (node(I.deep(st, c.args[1])), ())))), no]
        if n == 'add_edge':
            a, b = (I.deep(st, x) for x in c.args[1:3])
            g['edges'] = g.get('edges', frozenset()) | {(a, b)}
            self.ob('edges added')
            if 'el' not in g:
                g['stray'] = True
            return [(st, Ok(UNIT)), no]
        if n == 'successors':
            self.phase2(I, st)
            key = I.deep(st, c.args[1])
            g['looked'] = key
            s = T(('succ', key))
            return [(st, Ok(('it', 'gen', s, c.site, None))), no]
        return None

    # ------------------------------------------------------------ walks
    def list_of(self, I, st):
        P = st.ghost.get('P')
        if P is None or I.known_variant(st, P) != 'NotEmpty':
            return None
        return I.deep(st, I.project(st, I.project(st, P, ('v', 'NotEmpty')), '0'))

    def what(self, I, st, it):
        if it[1] in ('map', 'keys', 'values'):
            s = source(I, st, it)
            if s == T(RULES):
                return 'rules'
            if s == T(NODENAMES):
                return 'names'
            return None
        if it[1] == 'gen':
            return 'succ' if it[2][1][0] == 'succ' else None
        if it[1] == 'range':
            lo, hi = it[2]
            if lo != K('int', 0) or hi[0] == 'k' or hi[1][:2] != ('op', 'len'):
                return None
            s = I.deep(st, hi[1][2])
        elif it[1] in ('slice', 'vecval', 'rslice', 'rvecval'):
            s = source(I, st, it)
        else:
            return None
        if isinstance(s, tuple):
            if tail_field(s) == 'possible_productions':
                return 'prods'
            if s == self.list_of(I, st):
                return 'elems'
        return None

    def fresh(self, it):
        return it[4] is None or it[4][0] == 'k'

    def offset(self, it):
        at = it[4][1] if it[4] and it[4][0] in ('after', 'done') else it[4]
        return at is not None and at[0] == 'k' and at[2] > 0

    def iter_step(self, I, st, it, c):
        w, g = self.what(I, st, it), st.ghost
        if it[1] == 'range' and w is None and g.get('phase') and it[2][1][0] != 'k':
            g['counted'] = True
        if w == 'rules':
            if self.fresh(it):
                for k in ('anynode', 'nonode', 'anymark', 'nomark', 'rule'):
                    g.pop(k, None)
            else:
                self.rule_end(I, st)
        elif w == 'prods':
            if not self.fresh(it):
                self.prod_end(I, st)
        elif w == 'elems':
            if not self.fresh(it):
                self.el_end(I, st)
        elif w == 'names':
            if self.fresh(it):
                self.names_left(I, st)
                g['olddirty'], g['dirty'], g['name'], g['anylook'] = g.get('dirty'), False, None, False
                for k in ('anyput', 'noput', 'vacant', 'stay'):
                    g.pop(k, None)
            else:
                self.name_end(I, st)
        elif w == 'succ':
            if not self.fresh(it):
                self.succ_end(I, st)

    def iter_next(self, I, st, it, item, c):
        w, g = self.what(I, st, it), st.ghost
        if w == 'rules':
            g['rule'] = None if it[1] == 'values' else I.deep(st, fld(item, '0') if it[1] == 'map' else item)
            g['node'], g['pdone'], g['pseen'] = False, False, False
        elif w == 'prods':
            g['P'] = self.elem(I, st, it, item)
            g['walk'] = 'none'
            g['pseen'] = True
        elif w == 'elems':
            g['walk'] = 'walking'
            x = self.elem(I, st, it, item)
            g['el'] = x
            g['edges'], g['parts'] = frozenset(), frozenset()
        elif w == 'names':
            g['name'] = I.deep(st, fld(item, '0') if it[1] == 'map' else item) if it[1] != 'values' else None
            g['nix'] = idx(g['name']) if g['name'] is not None else I.deep(st, item)
            g['looked'], g['sdone'], g['put'] = None, False, False
        elif w == 'succ':
            g['succ'] = item          # replaced by its index in call()

    def elem(self, I, st, it, item):
        x = I.deep(st, item)
        if it[1] == 'range':
            x = I.deep(st, I.index(st, I.deep(st, it[2][1][1][2]), x))
        return x

    def iter_end(self, I, st, it, c):
        w, g = self.what(I, st, it), st.ghost
        if w == 'elems':
            g['walk'] = 'ended'
            if self.offset(it):
                g['walk'] = 'late'
            g.pop('el', None)
        elif w == 'prods':
            g['pdone'] = not self.offset(it)
            g.pop('P', None)
        elif w == 'rules':
            zero = g.get('rule', 0) == 0
            if zero and not self.offset(it):
                g['nodes'] = g['marks'] = True
            if self.offset(it):
                g['nonode'] = g['nomark'] = True
            if g.get('anynode') and not g.get('nonode'):
                g['nodes'] = True
            if g.get('anymark') and not g.get('nomark'):
                g['marks'] = True
            for k in ('rule', 'anynode', 'nonode', 'anymark', 'nomark', 'node', 'pdone', 'pseen', 'edges', 'parts', 'walk', 'el', 'P'):
                g.pop(k, None)
            self.clean(st)
        elif w == 'names':
            if g.get('name') is not None or g.get('anyput') or g.get('anylook') or g.get('noput'):
                if not g.get('anylook') and (g.get('stay') or g.get('anyput') or not g.get('vacant')):
                    g['dirty'] = g.get('olddirty')
            if self.offset(it) and g.get('anylook'):
                g['dirty'] = 'skipped'
            if g.get('anyput') and (g.get('noput') or self.offset(it)):
                self.v(st, 'rule without FOLLOW set', 'the FOLLOW sets are given out without the set of every rule')
            g['name'] = None
            g['olddirty'] = None
        elif w == 'succ':
            g['sdone'] = not self.offset(it)
            g['succ'] = None

    def clean(self, st):
        """nothing known about the rules is needed after a walk over all of them"""
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, ('in', 'parser_data')) and not mentions(k, GRAPH)}
        for r in [r for r in st.mem if r[0] == 'P']:
            if not any(mentions(v, r) for q, v in st.mem.items() if q[0] != 'P'):
                del st.mem[r]

    # ------------------------------------------------------------ marking
    def before(self, I, st, ix):
        t = T(('.', ('node', ix), 'data'))
        return frozenset(i for i in self.track if I.test(st, T(('op', 'in', t, self.points.value(SM, i)))))

    def after(self, I, st, ix):
        v = I.read(st, (node(ix), ('data',)))
        return frozenset(i for i in points.restrict(I, st, v, SM)[2] if i in self.track)

    def changed(self, st):
        return [r[1][1] for r in st.mem if r[0] == 'S' and r[1][0] == 'node']

    def el_end(self, I, st):
        g = st.ghost
        el, rule = g.get('el'), g.get('rule')
        if el is None:
            return
        self.element(I, st, el, rule)
        g.pop('el')
        for r in [r for r in st.mem if r[0] == 'S' and r[1][0] == 'node']:
            del st.mem[r]
        g['edges'] = frozenset()
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, GRAPH)}
        self.forget(st, el)

    def element(self, I, st, el, rule):
        g = st.ghost
        if g.get('unknown') or core.opaque(el) or rule is None:
            self.undec('element not followed')
            return
        if I.known_variant(st, T(('.', TYPES, ('x', el)))) is None and any(
                k[0] == 'b' and k[1][0] == 'op' and k[1][1] != 'in' and el[1] in k[1] or k[0] == 'b' and el in k[1] for k in st.facts):
            self.undec('kind of the element asked in another way')
            return
        et = I.variant(st, T(('.', TYPES, ('x', el))), ETYPE)
        self.ob('elements of productions')
        edges = g.get('edges', frozenset())
        changed = self.changed(st)
        if et == 'Terminal':
            if edges or changed:
                self.v(st, 'terminal marked', 'something is recorded as following a terminal')
            return
        for k in changed:
            if k != idx(el) and not core.opaque(k):
                if I.decide(st, I.ieq(k, idx(el))[1]) is not True and self.before(I, st, k) != self.after(I, st, k):
                    self.v(st, 'another rule marked', 'what follows an element is recorded for another rule')
                    return
        t = el[1]
        if t[0] != '.' or t[2][0] != 'x':
            self.undec('place of the element not followed')
            return
        L, i = T(t[1]), t[2][1]
        nxt = I.iadd(i, K('int', 1))
        n = I.vlen(st, L)
        want, edge = frozenset(), True
        if I.test(st, I.ilt(nxt, n)):
            rest = ('subv', L, nxt, None)
            parts = g.get('parts', frozenset())
            f = T(('op', 'firstof', rest))
            if rest not in parts and any(self.same(I, st, p, rest) is None for p in parts):
                self.undec('rest of the production not followed')
                return
            if rest not in parts and any(mentions(k, ('in', 'first_sets')) for k in st.facts):
                self.undec('FIRST sets read directly')
                return
            want = frozenset(j for j in self.track if j == 0 and self.inset(I, st, SME, f, 0))
            edge = bool(self.inset(I, st, SME, f, EMPTY))
        b, a = self.before(I, st, idx(el)), self.after(I, st, idx(el))
        for j in self.track:
            if j in want and j not in a:
                self.v(st, 'mark missing|%d' % j, 'a character that the elements after a rule can begin with is not recorded as following it')
            elif j in a and j not in b and j not in want:
                self.v(st, 'mark too much|%d' % j, '%s is recorded as following a rule although the elements after it cannot begin with it' % NAMES[SM][j])
            elif j in b and j not in a:
                self.v(st, 'mark removed|%d' % j, '%s is removed from what follows a rule' % NAMES[SM][j])
        right = {(rule, el)}
        odd = [e for e in edges if e not in right]
        if any(core.opaque(x) for e in odd for x in e):
            self.undec('edge not followed')
        elif odd and not all(I.decide(st, I.ieq(x, y)[1]) is True for e in odd for x, y in zip(e, (rule, el)) if x != y):
            self.v(st, 'edge between other rules', 'the dependency recorded for the element is not from the rule of the production to the element')
        elif edge and not edges and I.decide(st, I.ieq(rule, el)[1]) is not True:  # a rule hands itself nothing new
            self.v(st, 'edge missing', 'a rule that can end a production is not recorded as followed by what follows the rule of the production')
        elif edges and not edge:
            self.v(st, 'edge too much', 'a rule that cannot end a production is recorded as followed by what follows the rule of the production')

    def panic(self, I, st, kind, c):
        g = st.ghost
        el = g.get('el')
        if el is None or g.get('err') or g.get('phase') or kind.startswith('Overflow') \
                or I.known_variant(st, T(('.', TYPES, ('x', el)))) != 'NonTerminal':
            return
        for p in g.get('parts', ()):
            if st.facts.get(('b', ('op', 'in', T(('op', 'firstof', p)), self.points.value(SME, EMPTY)))) is True:
                self.v(st, 'panic on empty', 'the computation panics at a rule after which the rest of the production can be empty')

    def same(self, I, st, p, rest):
        """is p a list that can be told from rest: False, or None when it cannot be told"""
        if p[0] == 'subv' and p[1] == rest[1] and not core.opaque(p):
            return False
        return None if core.opaque(p) else False

    def prod_end(self, I, st):
        g = st.ghost
        P = g.get('P')
        if P is None:
            return
        if g.get('el') is not None:
            # the walk was left at this element
            el = g['el']
            t = el[1] if el[0] == 't' else ()
            self.el_end(I, st)
            if len(t) == 3 and t[0] == '.' and t[2][0] == 'x':
                s = st.copy()
                if I.assume(s, I.ilt(I.iadd(t[2][1], K('int', 1)), I.vlen(st, T(t[1]))), True):
                    self.v(s, 'elements left out', 'not every element of a production is looked at')
            else:
                self.undec('walk left')
        elif g.get('walk') == 'late':
            self.v(st, 'elements left out', 'not every element of a production is looked at')
        elif g.get('walk') == 'none':
            v = I.variant(st, P, PROD)
            if v == 'NotEmpty':
                L = self.list_of(I, st)
                s = st.copy()
                if any(parts_of(k, L[1]) for k in st.facts) or any(parts_of(x, L[1]) for r, x in st.mem.items() if r[0] in 'SH'):
                    self.undec('elements looked at in another way')
                elif I.assume(s, I.ilt(K('int', 0), I.vlen(st, L)), True):
                    self.v(st, 'production left out', 'the elements of a production are not looked at')
        self.ob('productions')
        g.pop('P', None)
        self.forget(st, P)

    def rule_end(self, I, st):
        g = st.ghost
        if 'rule' not in g:
            return
        if g.get('P') is not None:
            self.prod_end(I, st)
            g['pdone'] = False
        rule = g['rule']
        g['anynode' if g.get('node') else 'nonode'] = True
        if g.get('pdone'):
            g['anymark'] = True
        else:
            g['nomark'] = True
            if g.get('pseen'):
                g['anymark'] = True
        if rule is not None:
            self.forget(st, rule)
        g['node'] = g['pdone'] = g['pseen'] = False

    # ------------------------------------------------------------ propagation
    def phase2(self, I, st):
        g = st.ghost
        if g.get('phase'):
            return
        g['phase'] = 1
        self.ob('propagations')
        if not g.get('nodes'):
            self.v(st, 'rule without node', 'what follows a rule is handed on although not every rule has a node')
        if not g.get('marks'):
            self.v(st, 'rules left out', 'what follows a rule is handed on although not the productions of every rule were looked at')
        if 1 in self.track and not g.get('startmark'):
            self.v(st, 'end mark missing', 'the end of the script is not recorded as following the start rule')
        if g.get('stray'):
            self.undec('edge outside the walk over the productions')

    def names_left(self, I, st):
        """a walk over the nodes that was left before its end"""
        g = st.ghost
        if g.get('name') is None:
            return
        self.name_end(I, st)
        if g.get('anylook'):
            g['dirty'] = 'skipped'
        else:
            g['dirty'] = g.get('olddirty')
        if g.get('anyput'):
            self.v(st, 'rule without FOLLOW set', 'the FOLLOW sets are given out without the set of every rule')
        g['name'] = None

    def succ_end(self, I, st):
        g = st.ghost
        s, n = g.get('succ'), g.get('nix')
        if s is None or n is None or s[0] != 't' or g.get('name') is None:
            return
        self.ob('dependencies looked at')
        if core.opaque(s) or g.get('looked') != g['name']:
            g['dirty'] = g['dirty'] or 'unknown'
        elif I.decide(st, I.ieq(s, n)[1]) is not True:
            a, b = self.before(I, st, n), self.before(I, st, s)
            if a - b:
                g['dirty'] = 'missing'
            x = self.after(I, st, s)
            if (x - b) - a:
                self.v(st, 'handed on too much', 'a symbol that does not follow a rule is handed on from it')
        g['succ'] = None
        st.mem.pop(node(s), None)
        self.forget(st, s)

    def later(self, I, st, x):
        """an entry (rule, symbols) made to be handed on later"""
        g = st.ghost
        if x[0] != 'a' or x[1] != 'tuple' or len(x[3]) != 2 or g.get('nix') is None:
            return
        k, v = (I.deep(st, y) for _, y in x[3])
        v = v[1][2] if v[0] == 't' and v[1][:2] == ('op', 'elems') else v
        if v[0] != 'pset' or v[1] != SM or core.opaque(k):
            return
        self.ob('symbols handed on')
        have = frozenset(i for i in v[2] if i in self.track)
        if I.decide(st, I.ieq(k, g['succ'])[1]) is not True and I.decide(st, I.ieq(k, g['succ'])[1]) is False:
            if have and k[0] == 't' and mentions(k, NODENAMES):
                self.v(st, 'handed on to another rule', 'symbols are handed on to a rule that is not a successor')
        elif have - self.before(I, st, g['nix']):
            self.v(st, 'handed on too much', 'a symbol that does not follow a rule is handed on from it')

    def name_end(self, I, st):
        g = st.ghost
        n = g.get('nix')
        if g.get('succ') is not None:
            self.succ_end(I, st)
            g['dirty'] = g['dirty'] or 'skipped'
        if g.get('looked') is not None:
            g['anylook'] = True
            if not g.get('sdone') and not g['dirty'] and n is not None and self.before(I, st, n):
                g['dirty'] = 'skipped'
        elif n is not None and not g.get('put'):
            if not self.before(I, st, n):
                g['vacant'] = True      # passing over a rule that nothing is known to follow hands on all there is
            elif g.get('anylook'):
                g['dirty'] = g['dirty'] or 'skipped'
            else:
                g['stay'] = True
        g['anyput' if g.get('put') else 'noput'] = True
        if n is not None:
            st.mem.pop(node(n), None)
            st.facts = {k: v for k, v in st.facts.items() if not mentions(k, n[1])}
            if g['name'] is not None:
                self.forget(st, g['name'])
        g['looked'], g['sdone'], g['put'], g['nix'] = None, False, False, None

    def write(self, I, st, place, val, sp):
        g = st.ghost
        root, proj = place
        if root[0] == 'S' and root[1][0] == 'node':
            k = root[1][1]
            if core.opaque(k) or core.opaque(val):
                return 'skip'
            if not g.get('phase') and 'el' not in g:
                self.outside(I, st, k, val)
                return 'skip'
            return None
        if proj and isinstance(proj[-1], tuple) and proj[-1][0] == 'e' and root[0] in ('L', 'H') and g.get('name') is not None \
                and val[0] in ('set', 'pset', 't'):
            key = I.deep(st, proj[-1][1])
            have = points.restrict(I, st, val, SM)[2]
            want = self.before(I, st, g['nix'])
            self.ob('FOLLOW sets given out')
            if key != g['name']:
                if not core.opaque(key):
                    self.v(st, 'given out under another rule', 'a FOLLOW set is given out under the number of another rule')
            else:
                for i in self.track:
                    if (i in have) != (i in want):
                        self.v(st, 'given out changed|%d' % i, 'the FOLLOW set given out is not the one that was computed')
            g['put'] = True
            return 'skip'

    def outside(self, I, st, k, val):
        """a change of a node before the productions are looked at"""
        g = st.ghost
        b = self.before(I, st, k)
        a = frozenset(i for i in points.restrict(I, st, val, SM)[2] if i in self.track) if val[0] in ('pset', 'set') else b
        st.facts = {f: v for f, v in st.facts.items() if not mentions(f, ('node', k))}
        if k == idx(START):
            if 1 in a:
                g['startmark'] = True
            if 0 in a - b:
                self.v(st, 'start marked', 'a character is recorded as following the start rule')
            return
        if a - b:
            self.v(st, 'another rule marked at the start', 'something is recorded as following a rule without looking at a production')

    def ret(self, I, st, val):
        g = st.ghost
        if not isok(val):
            return
        self.names_left(I, st)
        self.ob('successful returns')
        if g.get('err'):
            self.v(st, 'failure swallowed', 'FOLLOW sets are given out although a step of their computation failed')
            return
        d = g.get('dirty')
        if d == 'unknown' or d and g.get('counted'):
            self.undec('dependencies looked at in another way')
        elif d:
            self.v(st, 'propagation stops', 'the FOLLOW sets are given out although what follows a rule was not handed on to every rule it ends with')


def a02(F, rep):
    rep.rule('for an arbitrary character and the end mark: every element that is a rule is marked with FIRST of the rest of its '
             'production and connected to the rule when the rest can be empty; the last pass over all connections finds nothing missing; '
             'the set of every rule is given out unchanged')
    k = rep.anchor(F, 'function get_follow_sets', name='get_follow_sets')
    if k is None:
        return
    for sym in ('char', 'end'):
        cl = Follow(F, sym)
        run(rep, F, cl, k, [START, S('first_sets'), S('parser_data')], 'get_follow_sets, %s' % sym, max_states=400000,
            facts=dict(points.FACTS))
    rep.floor('elements of productions', 1)
    rep.floor('propagations', 1)
    rep.floor('FOLLOW sets given out', 1)
