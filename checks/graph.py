"""N01 / N02 / N03: the graphs."""
from engine import core, loops
from engine.core import K, T, NONE, Some
from . import tree
from .common import S, run, definite, cases, isok, iserr, payload
from .tree import opt, same_opt

ROOT = ('S', ('in', 'self'))


class Base(core.Client):
    """one graph operation; at is the path of the graph below self"""

    def __init__(self, fn, at=()):
        super().__init__()
        self.fn, self.at = fn, at

    def f(self, *p):
        return (ROOT, self.at + p)

    def init(self, *p):
        t = ('in', 'self')
        for e in self.at + p:
            t = ('.', t, e)
        return T(t)

    def bad(self, I, st, key, msg):
        if definite(st):
            self.violation('%s|%s' % (self.fn, key), '%s %s' % (self.fn, msg), I.where(st))
        else:
            self.undec('%s: %s' % (self.fn, key))

    def each(self, I, st, fn):
        if not definite(st):
            return self.ob('%s: exits after summarised links' % self.fn)
        try:
            rs = cases(I, st, fn)
        except core.Unmodelled as e:
            return self.undec('%s: %s' % (self.fn, e))
        for s, r in rs:
            for key, msg in r or ():
                self.bad(I, s, key, msg)

    def same(self, I, st, f):
        """is this vector as it was"""
        x, v = I.read(st, self.f(f)), self.init(f)
        if x[0] == 'vec' and x[1] == v and not x[2]:
            return True
        return None if core.opaque(x) and x != v else x == v

    def unchanged(self, I, st, what):
        for f in ('nodes', 'edges'):
            if self.same(I, st, f) is False:
                self.bad(I, st, 'changes|' + f, 'changes the graph (%s) although it %s' % (f, what))

    # -- the list of edges of a node ---------------------------------------
    def walk(self, I, s, source):
        """edges of the node, in order: yields index or None; keeps the invariant of the list"""
        cur = self.init('nodes', ('x', source), 'first_outgoing_edge')
        seen = []
        while True:
            e = opt(I, s, cur)
            if e is None:
                yield None
                return
            ok = I.assume(s, I.ilt(e, T(('op', 'len', self.init('edges')))), True)
            for x in seen:
                ok = ok and I.assume(s, I.ieq(x, e), False)
            if ok and seen:
                ok = I.assume(s, I.ilt(self.eid(e), self.eid(seen[-1])), True)
            for x in seen:
                if ok and I.decide(s, I.ilt(S('id'), self.eid(x))) is False:
                    ok = I.assume(s, I.ilt(self.eid(e), S('id')), True)
            if not ok:
                raise Infeasible
            seen.append(e)
            yield e
            if len(seen) > 4:
                raise Infeasible            # longer than the lists this path tells apart
            cur = self.init('edges', ('x', e), 'next_outgoing_edge')

    def eid(self, e):
        return self.init('edges', ('x', e), 'id')

    def target(self, e):
        return self.init('edges', ('x', e), 'target')


class Infeasible(Exception):
    pass


def guarded(fn):
    def g(I, s):
        try:
            return fn(I, s)
        except Infeasible:
            return []
    return g


class TryAdd(Base):
    def ret(self, I, st, val):
        for s, ok in cases(I, st, lambda x: I.test(x, val)):
            self.ob('%s: final states compared with the sorted list' % self.fn)
            if not ok:
                self.unchanged(I, s, 'refuses the edge')
            self.each(I, s, lambda x: guarded(lambda I, x: self.compare(I, x, ok))(I, x))

    def compare(self, I, s, ok):
        idv = S('id')
        pred = nxt = None
        for e in self.walk(I, s, S('source')):
            if e is None:
                break
            if I.test(s, I.ieq(self.eid(e), idv)):
                return [('duplicate', 'accepts an id the node already has')] if ok else []
            if I.test(s, I.ilt(self.eid(e), idv)):
                nxt = e
                break
            pred = e
        if not ok:
            return [('refuses', 'refuses an id the node does not have')]
        return linked(self, I, s, S('source'), pred, nxt, S('target'), idv)


def linked(c, I, s, source, pred, nxt, target, idv):
    """the graph afterwards is the graph before with one edge between pred and nxt"""
    n = T(('op', 'len', c.init('edges')))
    edges = I.read(s, c.f('edges'))
    if edges[0] != 'vec' or len(edges[2]) != 1:
        if core.opaque(edges):
            raise core.Unmodelled('edges')
        return [('count', 'does not add exactly one edge')]
    for x in (pred, nxt):
        if x is not None and not I.assume(s, I.ilt(x, n), True):
            return []
    bad = []
    new = lambda f: I.read(s, c.f('edges', ('x', n), f))
    if not I.test(s, I.ieq(new('target'), target)):
        bad.append(('target', 'adds an edge to another target'))
    if idv is not None and not I.test(s, I.ieq(new('id'), idv)):
        bad.append(('id', 'adds an edge with another id'))
    if not same_opt(I, s, new('next_outgoing_edge'), NONE if nxt is None else Some(nxt)):
        bad.append(('lost', 'loses the edges behind the new one'))
    first = I.read(s, c.f('nodes', ('x', source), 'first_outgoing_edge'))
    if pred is None:
        if not same_opt(I, s, first, Some(n)):
            bad.append(('link', 'does not link the new edge from its node'))
    else:
        if not same_opt(I, s, first, c.init('nodes', ('x', source), 'first_outgoing_edge')):
            bad.append(('first', 'changes the first edge of the node'))
        if not same_opt(I, s, I.read(s, c.f('edges', ('x', pred), 'next_outgoing_edge')), Some(n)):
            bad.append(('link', 'does not link the new edge behind the edges with greater ids'))
    # everything else
    q, m = S('another edge'), S('another node')
    if not I.assume(s, I.ilt(q, n), True) or not I.assume(s, I.ilt(m, T(('op', 'len', c.init('nodes')))), True):
        return bad
    if pred is None or I.assume(s, I.ieq(q, pred), False):
        if not same_opt(I, s, I.read(s, c.f('edges', ('x', q), 'next_outgoing_edge')),
                        c.init('edges', ('x', q), 'next_outgoing_edge')):
            bad.append(('others|next', 'changes the link of another edge'))
    for e in [q] + ([pred] if pred is not None else []):
        for f in ('target', 'id'):
            if I.read(s, c.f('edges', ('x', e), f)) != c.init('edges', ('x', e), f):
                bad.append(('others|' + f, 'changes the %s of another edge' % f))
    if I.assume(s, I.ieq(m, source), False):
        if not same_opt(I, s, I.read(s, c.f('nodes', ('x', m), 'first_outgoing_edge')),
                        c.init('nodes', ('x', m), 'first_outgoing_edge')):
            bad.append(('others|node', 'changes the edges of another node'))
    nodes = I.read(s, c.f('nodes'))
    if nodes[0] == 'vec' and nodes[2]:
        bad.append(('others|nodes', 'adds a node'))
    return bad


class AddEdge(Base):
    """add_edge: the new edge goes to the front with an id greater than all others"""

    def __init__(self, fn, at=(), source=None, target=None):
        super().__init__(fn, at)
        self.s, self.t = source or S('source'), target or S('target')

    def ret(self, I, st, val):
        self.ob('%s: final states compared with a prepended edge' % self.fn)
        self.each(I, st, self.case(I))

    def case(self, I):
        return lambda s: guarded(self.compare)(I, s)

    def compare(self, I, s):
        w = self.walk(I, s, self.s)
        first = next(w)
        bad = linked(self, I, s, self.s, None, first, self.t, None)
        if any(k == 'count' for k, _ in bad):
            return bad
        if first is not None:
            n = T(('op', 'len', self.init('edges')))
            if not I.test(s, I.ilt(self.eid(first), I.read(s, self.f('edges', ('x', n), 'id')))):
                bad.append(('order', 'gives the new edge an id that look-ups cannot find'))
        return bad


class Find(Base):
    """find_node_index / find_node"""

    def ret(self, I, st, val):
        if val[0] != 'a':
            return self.undec('%s: result' % self.fn)
        self.ob('%s: exits compared with the list of edges' % self.fn)
        self.unchanged(I, st, 'only reads')
        self.each(I, st, lambda s: guarded(lambda I, x: self.compare(I, x, val))(I, s))

    def compare(self, I, s, val):
        hit = val[2] == 'Some'
        for e in self.walk(I, s, S('source')):
            if e is None:
                break
            if I.test(s, I.ieq(self.eid(e), S('id'))):
                if not hit:
                    return [('miss', 'does not find an edge that exists')]
                return self.which(I, s, payload(val), self.target(e))
            if I.decide(s, I.ilt(self.eid(e), S('id'))) is True:
                break
        return [('invented', 'finds an edge although the node has none with that id')] if hit else []

    def which(self, I, s, got, want):
        if got[0] == 'r':
            r = got[1]
            ix = r[1][-1][1] if len(r[1]) == len(self.at) + 2 and r[0] == ROOT and r[1][-2] == 'nodes' and \
                isinstance(r[1][-1], tuple) else None
            if ix is None:
                raise core.Unmodelled('node')
        else:
            ix = got
        if core.opaque(ix):
            raise core.Unmodelled('target')
        if not I.test(s, I.ieq(ix, want)):
            return [('which', 'leads to another node than the edge with that id')]
        return []


class PathFind(Base):
    """find_node_index_by_path / find_node_by_path: one look-up per id"""

    def __init__(self, fn):
        super().__init__(fn)
        self.called, self.skipped = False, None

    def call(self, I, st, c):
        if c.name == 'find_node_index' and c.impl_self.endswith('simple_graph::Graph'):
            src, ix = I.deep(st, c.args[1]), I.deep(st, c.args[2])
            self.called = True
            self.ob('%s: steps' % self.fn)
            st.ghost['steps'] = min(st.ghost.get('steps', 0) + 1, 2)
            cur = st.ghost.get('cur', S('source'))
            if I.veq(st, src, cur) is not True and not core.opaque(src):
                self.bad(I, st, 'path|from', 'takes a step from another node than the one reached so far')
            it = st.ghost.get('item')
            if it is not None and I.veq(st, it, ix) is not True and not core.opaque(ix):
                self.bad(I, st, 'path|index', 'takes a step along another edge than the path names')
            r = T(('op', 'step', src, ix))
            a, b = st.copy(), st.copy()
            a.ghost['cur'] = r
            b.ghost['missing'] = True
            return [(a, Some(r)), (b, NONE)]
        return None

    def iter_next(self, I, st, it, item, c):
        if it[1] == 'gen':
            st.ghost['item'] = I.deep(st, item)
            st.ghost['steps'] = 0

    def iter_step(self, I, st, it, c):
        if it[1] == 'gen' and st.ghost.get('item') is not None:
            if st.ghost.get('missing'):
                return
            if st.ghost.get('steps') == 0:
                if definite(st):
                    self.skipped = I.where(st)
            elif st.ghost.get('steps') != 1:
                self.bad(I, st, 'path|steps', 'takes several steps for one id of the path')

    def iter_end(self, I, st, it, c):
        if it[1] == 'gen':
            st.ghost['end'] = True

    def ret(self, I, st, val):
        if val[0] != 'a':
            return self.undec('%s: result' % self.fn)
        self.ob('%s: results' % self.fn)
        if val[2] == 'None':
            if not st.ghost.get('missing'):
                self.bad(I, st, 'path|none', 'finds nothing although every step exists')
            return
        if st.ghost.get('missing'):
            return self.bad(I, st, 'path|missing', 'returns a node although a step does not exist')
        if not st.ghost.get('end'):
            return self.bad(I, st, 'path|short', 'returns before the end of the path')
        got = payload(val)
        if got[0] == 'r' and got[1][0] == ROOT and got[1][1][:1] == ('nodes',) and len(got[1][1]) == 2:
            got = got[1][1][1][1]
        got = I.deep(st, got)
        if got != st.ghost.get('cur', S('source')) and not core.opaque(got) and got[0] != 'r':
            self.bad(I, st, 'path|which', 'returns another node than the last one reached')


class Start(Base):
    """successors / connected_edges: the walk starts at the first edge of the node"""

    def __init__(self, fn, at=(), node=None, wrapped=False):
        super().__init__(fn, at)
        self.node, self.wrapped = node or S('source'), wrapped

    def ret(self, I, st, val):
        if self.wrapped:
            if not isok(val):
                return
            val = payload(val)
        if val[0] != 'a':
            return self.undec('%s: result' % self.fn)
        self.ob('%s: start of the walk' % self.fn)
        self.unchanged(I, st, 'only reads')
        f = dict(val[3])
        if 'current_edge_index' not in f:
            return self.undec('%s: fields' % self.fn)
        self.each(I, st, lambda s: [] if same_opt(
            I, s, f['current_edge_index'], self.init('nodes', ('x', self.node), 'first_outgoing_edge'))
            else [('start', 'does not start at the first edge of the node')])


class Next(Base):
    """next(): yields the current edge and moves to the one behind it"""

    def __init__(self, fn, at, what):
        super().__init__(fn, at)
        self.what = what

    def ret(self, I, st, val):
        if val[0] != 'a':
            return self.undec('%s: result' % self.fn)
        self.ob('%s: steps of the walk' % self.fn)
        self.each(I, st, lambda s: self.compare(I, s, val))

    def compare(self, I, s, val):
        cur = opt(I, s, T(('.', ('in', 'self'), 'current_edge_index')))
        if cur is None:
            return [('invented', 'goes on after the last edge')] if val[2] != 'None' else []
        if val[2] == 'None':
            return [('short', 'ends before the last edge')]
        g = self.graph(I, s)
        edge = lambda f: T(('.', ('.', ('.', g, 'edges'), ('x', cur)), f))
        bad = []
        if not same_opt(I, s, I.read(s, (ROOT, ('current_edge_index',))), edge('next_outgoing_edge')):
            bad.append(('move', 'does not move on to the next edge'))
        got = payload(val)
        want = cur if self.what == 'edge' else edge('target')
        if self.what == 'pair':
            r = dict(got[3]).get('1') if got[0] == 'a' else None
            got = I.project(s, got, '0')
            want_node = ('.', ('.', g, 'nodes'), ('x', want))
            if r is not None and r[0] == 'r' and r[1][0][0] == 'S':
                t = r[1][0][1]
                for e in r[1][1]:
                    t = ('.', t, e)
                r = T(t)
            if r is None or core.opaque(r) or r[0] != 't':
                raise core.Unmodelled('item')
            if r[1] != want_node:
                bad.append(('node', 'yields another node than the target of the edge'))
        if core.opaque(got) or got[0] == 'r':
            raise core.Unmodelled('item')
        if not I.test(s, I.ieq(got, want)):
            bad.append(('which', 'yields something else than the current edge'))
        return bad

    def graph(self, I, s):
        t = ('.', ('in', 'self'), 'graph')
        for e in self.at:
            t = ('.', t, e)
        return t


class Append(Base):
    """add_graph_at_node"""
    summarise = True

    def call(self, I, st, c):
        tree.shifts(self, I, st, c, ROOT, ('nodes', 'edges'))
        if c.name == 'add_edge' and c.impl_self.endswith('simple_graph::Graph') and len(c.args) == 3:
            r = c.args[0]
            if r == S('self') or r == ('r', (ROOT, ())):
                e = T(('op', 'added edge', I.deep(st, c.args[1]), I.deep(st, c.args[2])))
                v = I.read(st, self.f('edges'))
                tag, base, ops = loops.norm('vec', v)
                I.write(st, self.f('edges'), ('vec', base, ops + (e,)))
                return [(st, ('a', 'tuple', None, ()))]
        return None

    def ret(self, I, st, val):
        nodes, edges = I.read(st, self.f('nodes')), I.read(st, self.f('edges'))
        if core.opaque(nodes) or core.opaque(edges):
            return self.undec('%s: summarised graph' % self.fn)
        self.ob('%s: final graphs' % self.fn)
        no, ns = self.section(I, st, 'nodes', nodes)
        eo, es = self.section(I, st, 'edges', edges)
        if ns is None or es is None:
            return
        added = []
        for f, parts in (('nodes', ns), ('edges', es)):
            for p in parts:
                if p[0] == 'seq':
                    for ops, facts in loops.positions(I, p[3], p[1]):
                        self.ob('%s: %s appended' % (self.fn, f))
                        self.chunk(I, st, f, p, ops, facts, no, eo)
                elif p[0] == 'item':
                    o = p[1]
                    if o[0] == 't' and o[1][:2] == ('op', 'added edge'):
                        added.append(o[1][2:])
                    elif not core.opaque(o):
                        self.bad(I, st, 'extra|' + f, 'adds something to the %s that the appended graph does not have' % f)
        if not added:
            self.bad(I, st, 'edge|none', 'does not connect the appended graph')
        elif len(added) > 1:
            self.bad(I, st, 'edge|many', 'adds several edges to the appended graph')
        else:
            a, b = added[0]
            if I.veq(st, a, S('this')) is not True and not core.opaque(a):
                self.bad(I, st, 'edge|source', 'connects the appended graph to another node')
            if no is not None and I.decide(st, I.ieq(b, I.iadd(S('other'), no))) is not True and not core.opaque(b):
                self.bad(I, st, 'edge|target', 'connects another node of the appended graph')

    def section(self, I, st, f, v):
        """(offset, parts); the old content must come first and the appended one completely"""
        old, src = self.init(f), T(('.', ('in', 'graph'), f))
        if v[0] == 'w':
            self.undec('%s: overwritten %s' % (self.fn, f))
            return None, None
        parts = loops.parts('vec', v)
        if not parts or parts[0] != ('base', old):
            self.bad(I, st, 'old|' + f, 'does not keep the %s it had' % f)
            return None, None
        parts = parts[1:]
        if any(p[0] in ('base', 'cat') for p in parts):
            self.undec('%s: %s' % (self.fn, f))
            return None, None
        seqs = [p for p in parts if p[0] == 'seq']
        mine = [p for p in seqs if p[2][2] == src]
        if len(seqs) != len(mine) or len(mine) > 1:
            if seqs and all(isinstance(p[2][2], tuple) and not core.opaque(p[2][2]) for p in seqs) and len(mine) > 1:
                self.bad(I, st, 'twice|' + f, 'appends the %s twice' % f)
            else:
                self.undec('%s: %s from elsewhere' % (self.fn, f))
            return None, None
        n = T(('op', 'len', old))
        if not mine and I.decide(st, I.ilt(K('int', 0), T(('op', 'len', src)))) is False:
            return None, parts          # nothing to append: no offset matters
        if not mine:
            self.bad(I, st, 'lost|' + f, 'does not append the %s' % f)
            return n, parts
        if mine[0][4] != 'full':
            self.bad(I, st, 'part|' + f, 'does not append all of the %s' % f)
        before = parts[:parts.index(mine[0])]
        return I.iadd(n, K('int', len(before))), parts

    def chunk(self, I, st, f, p, ops, facts, no, eo):
        _, site, src, chunks, state = p
        if src[1] not in ('vecval', 'slice'):
            if src[1] in ('rvecval', 'rslice'):
                self.bad(I, st, 'order|' + f, 'appends the %s in another order' % f)
            else:
                self.undec('%s: walk %s' % (self.fn, src[1]))
            return
        if len(ops) != 1:
            return self.bad(I, st, 'each|' + f, 'appends %d %s for one of the appended graph' % (len(ops), f))
        s = st.copy()
        s.facts = dict(st.facts)
        s.facts.update(dict(facts))
        item = ('.', src[2][1], ('x', T(('itm', site))))

        def go(x):
            o = ops[0]
            if o[0] != 'a' and f == 'edges' and o[1][:2] == ('op', 'added edge'):
                return [('edge|each', 'adds an edge for every appended one')]
            if o[0] != 'a':
                raise core.Unmodelled('appended')
            d = dict(o[3])
            bad = []

            def shifted(field, key):
                if eo is None:
                    return
                v = opt(I, x, T(('.', item, field)))
                if not same_opt(I, x, d[field], NONE if v is None else Some(I.iadd(v, eo))):
                    bad.append((key, 'appends %s whose %s does not lead where it led' % (f, field)))
            if f == 'nodes':
                shifted('first_outgoing_edge', 'nodes|first')
                if I.veq(x, d['data'], T(('.', item, 'data'))) is not True:
                    bad.append(('nodes|data', 'does not keep the data of the appended nodes'))
            else:
                shifted('next_outgoing_edge', 'edges|next')
                if no is not None and not I.test(x, I.ieq(d['target'], I.iadd(T(('.', item, 'target')), no))):
                    bad.append(('edges|target', 'appends edges whose target is another node than before'))
                if not I.test(x, I.ieq(d['id'], T(('.', item, 'id')))):
                    bad.append(('edges|id', 'appends edges with another id than before'))
            return bad
        self.each(I, s, go)


class AddGraphNode(Base):
    """Graph::add_node and GraphNamedNodes::add_node"""

    def __init__(self, fn, at=(), name=None):
        super().__init__(fn, at)
        self.name = name

    def ret(self, I, st, val):
        self.ob('%s: outcomes' % self.fn)
        if self.name is not None:
            if not (isok(val) or iserr(val)):
                return self.undec('%s: result' % self.fn)
            names = T(('.', ('in', 'self'), 'names'))
            known = I.decide(st, ('op', 'has', names, self.name))
            if iserr(val):
                if known is not True:
                    self.bad(I, st, 'refuses', 'refuses a name that may be new')
                self.unchanged(I, st, 'refuses the name')
                m = I.read(st, (ROOT, ('names',)))
                if m != names and not (m[0] == 'map' and m[1] == names and not m[2]) and not core.opaque(m):
                    self.bad(I, st, 'changes|names', 'changes the names although it refuses the name')
                return
            if known is not False:
                return self.bad(I, st, 'accepts', 'accepts a name without knowing that it is new')
            val = payload(val)
            m = I.read(st, (ROOT, ('names',)))
            if m[0] != 'map' or m[1] != names:
                if core.opaque(m) or m != names:
                    return self.undec('%s: names' % self.fn)
                return self.bad(I, st, 'unnamed', 'does not remember the name')
            for k, v in m[2]:
                if I.veq(st, k, self.name) is not True and not core.opaque(k):
                    self.bad(I, st, 'name|key', 'remembers another name')
                if I.veq(st, v, val) is not True and not core.opaque(v):
                    self.bad(I, st, 'name|index', 'remembers another node under the name')
        n = T(('op', 'len', self.init('nodes')))
        nodes = I.read(st, self.f('nodes'))
        if nodes[0] != 'vec' or nodes[1] != self.init('nodes'):
            if nodes == self.init('nodes'):
                return self.bad(I, st, 'nothing', 'adds no node')
            return self.undec('%s: nodes' % self.fn)
        if len(nodes[2]) != 1:
            return self.bad(I, st, 'count', 'does not add exactly one node')
        if not core.opaque(val) and I.decide(st, I.ieq(val, n)) is not True:
            self.bad(I, st, 'index', 'returns another index than that of the new node')
        new = nodes[2][0]
        if new[0] == 'a':
            d = dict(new[3])
            if I.veq(st, d['data'], S('data')) is not True and not core.opaque(d['data']):
                self.bad(I, st, 'data', 'does not store the data given')
            if d['first_outgoing_edge'] != NONE and not core.opaque(d['first_outgoing_edge']):
                self.bad(I, st, 'edges', 'adds a node that starts with edges')
        if self.same(I, st, 'edges') is False:
            self.bad(I, st, 'changes|edges', 'changes the edges')


class NameGet(Base):
    """look-up by name or by index; panics on unknown ones are violations"""

    def __init__(self, fn, by, wants):
        super().__init__(fn, ('graph',))
        self.by, self.wants = by, wants

    def exists(self, I, st):
        if self.by == 'name':
            return I.decide(st, ('op', 'has', T(('.', ('in', 'self'), 'names')), S('key')))
        return I.decide(st, I.ilt(S('key'), T(('op', 'len', self.init('nodes')))))

    def index(self):
        if self.by == 'name':
            return T(('.', ('.', ('in', 'self'), 'names'), ('e', S('key'))))
        return S('key')

    def panic(self, I, st, kind, c):
        if self.exists(I, st) is not True and kind in ('index', 'key', 'unwrap', 'expect', 'panic'):
            self.bad(I, st, 'panic', 'panics on an unknown ' + self.by)

    def ret(self, I, st, val):
        if not (isok(val) or iserr(val)):
            return self.undec('%s: result' % self.fn)
        self.ob('%s: outcomes' % self.fn)
        x = self.exists(I, st)
        if isok(val) and x is not True:
            return self.bad(I, st, 'accepts', 'finds something under a %s that may not exist' % self.by)
        if iserr(val) and x is not False:
            return self.bad(I, st, 'refuses', 'does not find a %s that may exist' % self.by)
        if self.fn not in ('get_node_mut', 'get_node_mut_by_index'):
            self.unchanged(I, st, 'only reads')
        if isok(val) and self.wants == 'node':
            p = payload(val)
            want = self.f('nodes', ('x', self.index()))
            if p[0] == 'r' and p[1] != want:
                if p[1][0] == ROOT and p[1][1][:-1] == want[1][:-1] and I.decide(st, I.ieq(p[1][1][-1][1], self.index())):
                    return
                if not core.opaque(p):
                    self.bad(I, st, 'which', 'returns another node than the one of that ' + self.by)
            elif p[0] != 'r':
                self.undec('%s: node' % self.fn)
        elif isok(val):
            v = payload(val)
            f = dict(v[3]) if v[0] == 'a' else {}
            if 'current_edge_index' not in f:
                return self.undec('%s: fields' % self.fn)
            self.each(I, st, lambda s: [] if same_opt(
                I, s, f['current_edge_index'], self.init('nodes', ('x', self.index()), 'first_outgoing_edge'))
                else [('start', 'does not start at the first edge of the node')])


class NameEdge(AddEdge):
    def panic(self, I, st, kind, c):
        if kind in ('key', 'unwrap', 'expect', 'panic') and self.known(I, st) is not True:
            self.bad(I, st, 'panic', 'panics on an unknown name')

    def known(self, I, st):
        names = T(('.', ('in', 'self'), 'names'))
        r = [I.decide(st, ('op', 'has', names, S(x))) for x in ('a', 'b')]
        return False if False in r else True if r == [True, True] else None

    def ret(self, I, st, val):
        if not (isok(val) or iserr(val)):
            return self.undec('%s: result' % self.fn)
        x = self.known(I, st)
        self.ob('%s: outcomes' % self.fn)
        if iserr(val):
            if x is not False:
                self.bad(I, st, 'refuses', 'refuses an edge between names that may exist')
            return self.unchanged(I, st, 'refuses the edge')
        if x is not True:
            return self.bad(I, st, 'accepts', 'accepts an edge between names that may not exist')
        super().ret(I, st, val)


def known(F, rep, named=False):
    want = {'simple_graph::Graph': {'nodes', 'edges'}, 'simple_graph::NodeData': {'first_outgoing_edge', 'data'},
            'simple_graph::EdgeData': {'target', 'id', 'next_outgoing_edge'}}
    if named:
        want['named_graph::GraphNamedNodes'] = {'graph', 'names'}
    for suf, fs in want.items():
        a = [a for p, a in F.adts.items() if p.endswith('::' + suf)]
        if not a or not fs <= set(a[0]['variants'][0]['fields']):
            rep.undec('%s has other fields than the analysis knows' % suf)
            return False
    return True


def n01(F, rep):
    rep.rule('final links after adding an edge equal insertion into the sorted list of the node, for every other '
             'edge and node nothing changes')
    rep.rule('look-ups find exactly the edge with that id; walks yield every edge of the list and move to the next')
    if not known(F, rep):
        return
    G = 'simple_graph::Graph'
    s = S('self')
    for n, c, args in (
            ('try_add_edge_with_id', TryAdd('try_add_edge_with_id'), [s, S('source'), S('target'), S('id')]),
            ('add_edge', AddEdge('add_edge'), [s, S('source'), S('target')]),
            ('add_node', AddGraphNode('add_node'), [s, S('data')]),
            ('find_node_index', Find('find_node_index'), [s, S('source'), S('id')]),
            ('find_node', Find('find_node'), [s, S('source'), S('id')]),
            ('find_node_index_by_path', PathFind('find_node_index_by_path'), [s, S('source'), S('ids')]),
            ('find_node_by_path', PathFind('find_node_by_path'), [s, S('source'), S('ids')]),
            ('successors', Start('successors'), [s, S('source')]),
            ('connected_edges', Start('connected_edges'), [s, S('source')])):
        k = rep.anchor(F, G + '::' + n, name=n, self_ty=G)
        if k is None:
            continue
        run(rep, F, c, k, args)
        if isinstance(c, PathFind) and c.skipped:
            if c.called:
                rep.violation(n + '|path|steps', n + ' takes no step for an id of the path', c.skipped)
            else:
                rep.undec(n + ': steps not recognised')
    for ty, what in (('Successors', 'target'), ('ConnectedEdges', 'edge')):
        k = rep.anchor(F, 'simple_graph::%s::next' % ty, name='next', self_ty='simple_graph::' + ty, trait='Iterator')
        if k is not None:
            run(rep, F, Next(ty + '::next', (), what), k, [s])
    rep.floor('try_add_edge_with_id: final states compared with the sorted list', 4)


def n02(F, rep):
    rep.rule('every appended node and edge is pushed once, in order, with every index shifted by the number of nodes '
             'or edges in front; then one edge from the chosen node to the chosen appended node')
    if not known(F, rep):
        return
    G = 'simple_graph::Graph'
    k = rep.anchor(F, G + '::add_graph_at_node', name='add_graph_at_node', self_ty=G)
    if k is not None:
        run(rep, F, Append('add_graph_at_node'), k, [S('self'), S('graph'), S('this'), S('other')])
    k = rep.anchor(F, G + '::add_edge', name='add_edge', self_ty=G)
    if k is not None:
        run(rep, F, AddEdge('add_edge'), k, [S('self'), S('source'), S('target')])
    rep.floor('add_graph_at_node: final graphs', 1)


def n03(F, rep):
    rep.rule('every outcome of an operation on named nodes agrees with the table of names: found exactly when present, '
             'the node is the one stored under that name, refusals change nothing, unknown names never panic')
    if not known(F, rep, True):
        return
    N = 'named_graph::GraphNamedNodes'
    s = S('self')
    e = lambda n: T(('.', ('.', ('in', 'self'), 'names'), ('e', S(n))))
    for n, c, args in (
            ('add_node', AddGraphNode('add_node', ('graph',), S('name')), [s, S('name'), S('data')]),
            ('get_node', NameGet('get_node', 'name', 'node'), [s, S('key')]),
            ('get_node_mut', NameGet('get_node_mut', 'name', 'node'), [s, S('key')]),
            ('get_node_by_index', NameGet('get_node_by_index', 'index', 'node'), [s, S('key')]),
            ('get_node_mut_by_index', NameGet('get_node_mut_by_index', 'index', 'node'), [s, S('key')]),
            ('successors', NameGet('successors', 'name', 'walk'), [s, S('key')]),
            ('successor_indices', NameGet('successor_indices', 'name', 'walk'), [s, S('key')]),
            ('add_edge', NameEdge('add_edge', ('graph',), e('a'), e('b')), [s, S('a'), S('b')])):
        k = rep.anchor(F, N + '::' + n, name=n, self_ty=N)
        if k is not None:
            run(rep, F, c, k, args)
    k = rep.anchor(F, 'named_graph::SuccessorsData::next', name='next', self_ty='named_graph::SuccessorsData',
                   trait='Iterator')
    if k is not None:
        run(rep, F, Next('SuccessorsData::next', ('graph',), 'pair'), k, [s])
    rep.floor('get_node: outcomes', 2)
