"""T01 / T02: the parse tree's node ids and links."""
from engine import core, loops
from engine.core import K, T, NONE, Some
from .common import S, run, definite, cases, show, isok, iserr, payload

OPTION = 'core::option::Option'
SELF = (('S', ('in', 'self')), ())
LINKS = ('parent', 'previous_sibling', 'next_sibling', 'first_child', 'last_child')


def sf(*path):
    return (SELF[0], tuple(path))


def init(*path):
    t = ('in', 'self')
    for e in path:
        t = ('.', t, e)
    return T(t)


FREE, NODES = init('free_node_indexes'), init('nodes')


class Infeasible(Exception):
    pass


def opt(I, s, v):
    """None or the payload of an option value; splits"""
    if v[0] == 'r':
        v = I.read(s, v[1])
    if v[0] not in ('a', 't', 'w'):
        raise core.Unmodelled('option ' + v[0])
    if I.variant(s, v, OPTION) == 'None':
        return None
    return I.project(s, I.project(s, v, ('v', 'Some')), '0')


def same_opt(I, s, a, b):
    """equality of two Option<usize>; splits"""
    if a == b and not core.opaque(a):
        return True
    a, b = opt(I, s, a), opt(I, s, b)
    if a is None or b is None:
        return a is b
    return I.test(s, I.ieq(a, b))


class Base(core.Client):
    """keeps track of what the path knows about the id"""

    def __init__(self, fn, ptr=None, pk=None):
        super().__init__()
        self.fn, self.ptr, self.pk = fn, ptr, pk

    # -- what is known about the id ---------------------------------------
    def is_free(self, I, st, x):
        for op in ('vhas', 'in', 'has'):
            r = I.decide(st, ('op', op, FREE, x))
            if r is not None:
                return r
        for k, v in st.facts.items():
            if v is True and k[0] == 'b' and k[1][0] == 'op' and k[1][1] in ('vhas', 'in') and k[1][3] == x and \
                    core.contains(k[1][2], FREE):
                return True
            if v is True and k[0] == 'b' and k[1][0] == 'op' and k[1][1] in ('eq', 'ieq') and x in k[1][2:4] and \
                    any(core.contains(y, ('op', 'last', FREE)) for y in k[1][2:4]):
                return True
        it = st.ghost.get('free item')
        if it is not None and I.decide(st, I.ieq(it, x)) is True:
            return True
        if st.ghost.get('free none'):
            return False
        return None

    def bounds(self, I, st):
        r = I.decide(st, I.ilt(self.ptr, T(('op', 'len', NODES))))
        return r

    def pkeq(self, I, st):
        return I.decide(st, I.ieq(init('nodes', ('x', self.ptr), 'pk'), self.pk))

    def conds(self, I, st):
        return {'its place is inside the tree': self.bounds(I, st),
                'its place is in use': neg(self.is_free(I, st, self.ptr)),
                'the node there has its key': self.pkeq(I, st)}

    def valid(self, I, st):
        v = list(self.conds(I, st).values())
        if False in v:
            return False
        return True if all(v) else None

    def iter_next(self, I, st, it, item, c):
        if self.over_free(I, st, it) and self.ptr is not None:
            st.ghost['free item'] = I.deep(st, item)
        elif self.ptr is not None and I.deep(st, it[2]) == T(('op', 'init', FREE)) and \
                self.is_free(I, st, self.ptr) is False:
            I.assume(st, I.ieq(I.deep(st, item), self.ptr), False)

    def iter_step(self, I, st, it, c):
        x = st.ghost.pop('free item', None)
        if x is not None and I.decide(st, I.ieq(x, self.ptr)) is not False:
            st.ghost['free skipped'] = True

    def iter_end(self, I, st, it, c):
        if self.over_free(I, st, it) and not st.ghost.get('free skipped'):
            st.ghost['free none'] = True
            if self.ptr is not None:
                st.facts[('b', ('op', 'vhas', FREE, self.ptr))] = False

    def over_free(self, I, st, it):
        return it[1] in ('slice', 'vecval', 'rslice') and I.deep(st, it[2]) == FREE

    def panic(self, I, st, kind, c):
        if kind == 'index' and self.ptr is not None and len(c.args) > 1 and c.args[1] == self.ptr:
            self.bad(I, st, 'panic', 'panics on an id whose place is outside the tree')
        else:
            self.ob('panics left to P09')

    def bad(self, I, st, key, msg):
        if definite(st):
            self.violation('%s|%s' % (self.fn, key), '%s %s' % (self.fn, msg), I.where(st))
        else:
            self.undec('%s: %s' % (self.fn, key))

    def answer(self, I, st, ok, key='answer'):
        """the operation accepted / refused the id: does the path justify it"""
        v = self.valid(I, st)
        self.ob('%s: answers compared with the validity of the id' % self.fn)
        if ok and v is not True:
            miss = [k for k, x in self.conds(I, st).items() if x is not True]
            self.bad(I, st, key + '|accepts', 'accepts an id without knowing that ' + ' and '.join(miss))
        elif not ok and v is not False:
            self.bad(I, st, key + '|refuses', 'refuses a valid id')
        else:
            return True
        return False

    def each(self, I, st, fn):
        try:
            rs = cases(I, st, fn)
        except core.Unmodelled as e:
            self.undec('%s: %s' % (self.fn, e))
            return
        for s, r in rs:
            for key, msg in r or ():
                self.bad(I, s, key, msg)

    def unchanged(self, I, st, what):
        for f, v in (('nodes', NODES), ('free_node_indexes', FREE)):
            x = I.read(st, sf(f))
            if x[0] == 'vec' and x[1] == v and not x[2]:
                x = v
            if x != v:
                if core.opaque(x):
                    self.undec('%s: %s' % (self.fn, f))
                else:
                    self.bad(I, st, 'changes|' + f, 'changes the tree (%s) although it %s' % (f, what))


def neg(x):
    return None if x is None else not x


def idval(name):
    p, k = T(('.', ('in', name), 'node_ptr')), T(('.', ('in', name), 'node_pk'))
    return S(name), p, k


class Get(Base):
    """get_node / get_node_mut / node_exists"""

    def ret(self, I, st, val):
        v = val
        if v[0] == 'a' and (isok(v) or iserr(v)):
            if self.answer(I, st, isok(v)) and isok(v):
                p = payload(v)
                want = (SELF[0], ('nodes', ('x', self.ptr)))
                if not (p[0] == 'r' and p[1] == want):
                    if core.opaque(p):
                        self.undec('%s: result' % self.fn)
                    else:
                        self.bad(I, st, 'which', 'returns another node than the one at the place of the id')
        elif v[0] in ('k', 't') and I.F.fns[st.frames[0].key]['locals'][0]['ty'] == 'bool':
            for s, b in cases(I, st, lambda x: I.test(x, v)):
                self.answer(I, s, b)
        elif v[0] == 't' and not core.opaque(v):
            self.undec('%s: result' % self.fn)
        else:
            self.undec('%s: result' % self.fn)
        if self.fn != 'get_node_mut':
            self.unchanged(I, st, 'only reads')


class Children(Base):
    """get_children: T01 for the id, T02 for the order"""

    def __init__(self, fn, ptr, pk, prop):
        super().__init__(fn, ptr, pk)
        self.prop = prop

    def ret(self, I, st, val):
        v = I.deep(st, val)
        empty = v[0] == 'vec' and v[1] is None and not v[2]
        if self.prop == 'T01':
            ok = self.valid(I, st)
            self.ob('get_children: answers compared with the validity of the id')
            if ok is False and not empty:
                self.bad(I, st, 'answer|accepts', 'lists children for an invalid id')
            elif ok is None and not empty:
                miss = [k for k, x in self.conds(I, st).items() if x is not True]
                self.bad(I, st, 'answer|accepts', 'lists children without knowing that ' + ' and '.join(miss))
            elif ok is None:
                self.bad(I, st, 'answer|refuses', 'lists nothing for an id that may be valid')
            return
        if self.valid(I, st) is not True:
            return
        if v[0] != 'vec' or v[1] is not None:
            self.ob('get_children: summarised lists')
            return
        self.ob('get_children: complete lists compared with the chain of links')
        self.each(I, st, lambda s: self.compare(I, s, v[2]))

    def compare(self, I, s, items):
        cur = init('nodes', ('x', self.ptr), 'first_child')
        for n, it in enumerate(items):
            ix = opt(I, s, cur)
            if ix is None:
                return [('invented', 'lists more children than the chain of siblings has')]
            if it[0] != 'a':
                raise core.Unmodelled('child item')
            f = dict(it[3])
            if not I.test(s, I.ieq(f['node_ptr'], ix)):
                return [('order', 'lists another child at place %d than the chain of siblings has' % n)]
            if not I.test(s, I.ieq(f['node_pk'], init('nodes', ('x', ix), 'pk'))):
                return [('key', 'lists a child under a key that is not its own')]
            cur = init('nodes', ('x', ix), 'next_sibling')
        if opt(I, s, cur) is not None:
            return [('lost', 'leaves out children after place %d' % len(items))]
        return []


class Nth(Base):
    """get_nth_child / get_nth_child_or_none"""

    def ret(self, I, st, val):
        if val[0] != 'a':
            return self.undec('%s: result' % self.fn)
        hit = val[2] in ('Ok', 'Some')
        if not definite(st):
            return self.ob('%s: exits after summarised links' % self.fn)
        self.ob('%s: exits compared with the chain of links' % self.fn)
        self.each(I, st, lambda s: self.compare(I, s, hit, val))

    def compare(self, I, s, hit, val):
        cur = T(('.', ('in', 'node'), 'first_child'))
        nth = S('nth')
        k = 0
        while k < 5:
            here = I.decide(s, I.ieq(nth, K('int', k)))
            kv = I.known_variant(s, cur)
            if here is None and kv is None and core.has_tag(I.deep(s, val), ('wid', 'old')):
                return []
            if not hit and kv == 'None':
                # chain ended after k children: nth must be beyond
                if I.test(s, I.ilt(nth, K('int', k))):
                    return [('miss', 'does not find a child that exists')]
                return []
            ix = opt(I, s, cur)
            if ix is None:
                if hit:
                    return [('invented', 'finds a child that does not exist')]
                continue
            if I.test(s, I.ieq(nth, K('int', k))):
                if not hit:
                    return [('miss', 'does not find a child that exists')]
                got = payload(val)
                if got[0] == 'r' and got[1][0] == SELF[0] and got[1][1][0] == 'nodes' and len(got[1][1]) == 2:
                    if not I.test(s, I.ieq(got[1][1][1][1], ix)):
                        return [('which', 'returns another child than the one asked for')]
                    return []
                if core.opaque(got):
                    raise core.Unmodelled('child')
                return [('which', 'returns something else than a child of the node')]
            cur = init('nodes', ('x', ix), 'next_sibling')
            k += 1
        return []


class Path(Base):
    """get_by_path_or_none: one step per index of the path"""

    def __init__(self, fn, ptr, pk, prop):
        super().__init__(fn, ptr, pk)
        self.prop = prop
        self.called, self.skipped = False, None

    def call(self, I, st, c):
        if c.name in ('get_nth_child_or_none', 'get_nth_child') and c.impl_self.endswith('tree::Tree'):
            node, nth = I.deep(st, c.args[1]), I.deep(st, c.args[2])
            ref = c.args[1]
            self.called = True
            st.ghost['steps'] = min(st.ghost.get('steps', 0) + 1, 2)
            self.ob('get_by_path_or_none: steps')
            cur = st.ghost.get('cur')
            if cur is None:
                cur = ('r', (SELF[0], ('nodes', ('x', self.ptr))))
            if ref != cur and not core.opaque(ref) and not core.opaque(cur):
                self.bad(I, st, 'path|from', 'takes a step from another node than the one reached so far')
            it = st.ghost.get('item')
            if it is not None and I.veq(st, it, nth) is not True and not core.opaque(nth):
                self.bad(I, st, 'path|index', 'takes a step to another child than the path names')
            t = ('nth', ref, nth)
            out = []
            a = st.copy()
            r = T(('.', t, 'node'))
            a.ghost['cur'] = r
            out.append((a, Some(r) if c.name.endswith('none') else core.Ok(r)))
            b = st.copy()
            b.ghost['missing'] = True
            out.append((b, NONE if c.name.endswith('none') else core.Err(T(('opq', 'err')))))
            return out
        return None

    def iter_next(self, I, st, it, item, c):
        super().iter_next(I, st, it, item, c)
        if it[1] == 'gen':
            st.ghost['item'] = I.deep(st, item)
            st.ghost['steps'] = 0

    def iter_step(self, I, st, it, c):
        super().iter_step(I, st, it, c)
        if it[1] == 'gen' and st.ghost.get('item') is not None:
            if st.ghost.get('missing'):
                self.bad(I, st, 'path|goes on', 'goes on after a step to a child that does not exist')
            elif st.ghost.get('steps') == 0:
                if definite(st):
                    self.skipped = I.where(st)
            elif st.ghost.get('steps') != 1:
                self.bad(I, st, 'path|steps', 'takes %s steps for one index of the path' % st.ghost.get('steps'))

    def iter_end(self, I, st, it, c):
        super().iter_end(I, st, it, c)
        if it[1] == 'gen':
            st.ghost['end'] = True

    def ret(self, I, st, val):
        if self.prop == 'T01':
            if isok(val) or iserr(val):
                self.answer(I, st, isok(val))
            return
        if iserr(val) and self.valid(I, st) is True:
            return self.bad(I, st, 'path|fails', 'fails although the node exists')
        if not isok(val):
            return
        v = I.deep(st, payload(val)) if payload(val)[0] == 't' else payload(val)
        if v[0] != 'a':
            return self.undec('get_by_path_or_none: result')
        self.ob('get_by_path_or_none: results')
        if v[2] == 'None':
            if not st.ghost.get('missing'):
                self.bad(I, st, 'path|none', 'finds nothing although every step exists')
            return
        if st.ghost.get('missing'):
            return self.bad(I, st, 'path|missing', 'returns a node although a step does not exist')
        if not st.ghost.get('end'):
            return self.bad(I, st, 'path|short', 'returns before the end of the path')
        got, cur = core.fld(v, '0'), st.ghost.get('cur')
        if cur is None:
            cur = ('r', (SELF[0], ('nodes', ('x', self.ptr))))
        if got != cur and not core.opaque(got) and not core.opaque(cur):
            self.bad(I, st, 'path|which', 'returns another node than the last one reached')


def shifts(cl, I, st, c, root, fields):
    """something put in front of all nodes or edges: every place kept elsewhere names another one from then on"""
    if c.name == 'insert' and 'Vec' in c.impl_self and len(c.args) == 3 and I.deep(st, c.args[1]) == core.K('int', 0):
        r = c.args[0]
        if r[0] == 'r' and r[1][0] == root and r[1][1] and r[1][1][0] in fields and len(r[1][1]) == 1:
            v = I.read(st, r[1])
            if I.decide(st, I.ilt(core.K('int', 0), I.vlen(st, v))) is not False:
                cl.bad(I, st, 'shifts|' + r[1][1][0], 'moves the existing %s to other places' % r[1][1][0])


class AddNode(Base):
    def __init__(self, prop, with_parent):
        super().__init__('add_node')
        self.prop, self.with_parent = prop, with_parent
        if with_parent:
            _, self.ptr, self.pk = idval('parent')

    def call(self, I, st, c):
        shifts(self, I, st, c, SELF[0], ('nodes',))
        return None

    def ret(self, I, st, val):
        if not (isok(val) or iserr(val)):
            return self.undec('add_node: result')
        if iserr(val):
            if not self.with_parent:
                self.bad(I, st, 'root refused', 'refuses a node without parent')
            elif self.prop == 'T01':
                self.answer(I, st, False)
                self.unchanged(I, st, 'refuses the parent')
            return
        if self.with_parent:
            if self.prop == 'T01':
                if not self.answer(I, st, True):
                    return
            elif self.valid(I, st) is not True:
                return
        self.ob('add_node: final states compared with list append')
        self.each(I, st, lambda s: self.compare(I, s, payload(val)))

    def taken(self, I, s):
        """how the place of the new node was found: ('free', ptr) | ('new', ptr) or an error"""
        nodes, free = I.read(s, sf('nodes')), I.read(s, sf('free_node_indexes'))
        pushed = 0
        base = nodes
        if nodes[0] == 'vec' and nodes[1] is not None:
            pushed, base = len(nodes[2]), nodes[1]
        popped = free == T(('op', 'init', FREE))
        same = free == FREE or free == ('vec', FREE, ())
        if core.opaque(nodes) or core.opaque(free) or not (popped or same):
            raise core.Unmodelled('place of the new node')
        return nodes, pushed, popped

    def compare(self, I, s, nid):
        nid = I.deep(s, nid)
        if nid[0] != 'a':
            raise core.Unmodelled('new id')
        f = dict(nid[3])
        ptr, pk = f['node_ptr'], f['node_pk']
        nodes, pushed, popped = self.taken(I, s)
        n = T(('op', 'len', NODES))
        last = T(('op', 'last', FREE))
        bad = []
        if popped and not I.assume(s, I.ilt(last, n), True):
            return []
        if self.prop == 'T01':
            if pushed > 1:
                return [('slot', 'adds more than one node')]
            if popped:
                if I.decide(s, I.ieq(ptr, last)) is not True:
                    bad.append(('slot', 'takes a free place but puts the node elsewhere'))
                if pushed:
                    bad.append(('slot', 'takes a free place and grows the tree as well'))
            else:
                if I.decide(s, I.ieq(ptr, n)) is not True:
                    bad.append(('slot', 'gives the new node a place that is neither free nor new'))
                elif not pushed:
                    bad.append(('slot', 'names a new place without adding a node'))
            if bad:
                return bad
            if popped:
                if not I.assume(s, I.ilt(ptr, n), True):
                    return []
            mine = I.read(s, sf('nodes', ('x', ptr), 'pk'))
            if not I.test(s, I.ieq(mine, pk)):
                return [('key', 'returns an id whose key is not the key of the new node')]
            return self.fresh(I, s, ptr, pk, popped)
        return self.links(I, s, ptr, popped, pushed)

    def fresh(self, I, s, ptr, pk, popped):
        c0 = init('counter', 'v')
        c1 = I.read(s, sf('counter', 'v'))
        own = init('nodes', ('x', ptr), 'pk')
        if core.opaque(pk) or core.opaque(c1):
            raise core.Unmodelled('key')
        d = I.ladd(I.lin(pk), I.lin(c0), -1)
        if not d[0]:
            e = I.ladd(I.lin(c1), I.lin(pk), -1)
            if d[1] < 0 or e[0] or e[1] <= 0:
                return [('fresh', 'gives a key that was given before or can be given again')]
            return []
        d = I.ladd(I.lin(pk), I.lin(own), -1)
        if popped and not d[0] and d[1] > 0:
            return []
        if not popped:
            return []
        return [('fresh', 'does not give a new key to a node that reuses a place')]

    def links(self, I, s, ptr, popped, pushed):
        n = T(('op', 'len', NODES))
        if popped:
            if not I.assume(s, I.ilt(ptr, n), True):
                return []
        p = self.ptr if self.with_parent else None

        def eq(a, b):
            return I.decide(s, I.ieq(a, b)) is True

        def fin(ix, f):
            return I.read(s, sf('nodes', ('x', ix), f))
        last = opt(I, s, init('nodes', ('x', p), 'last_child')) if p is not None else None
        if p is not None:
            first = opt(I, s, init('nodes', ('x', p), 'first_child'))
            if (first is None) != (last is None):
                return []
            # distinct places by the invariant of the tree
            for a, b in ((ptr, p), (last, p), (last, ptr), (first, ptr), (first, p)):
                if a is not None and b is not None and not I.assume(s, I.ieq(a, b), False):
                    return []
            if last is not None and not I.assume(s, I.ilt(last, n), True):
                return []
        some = lambda x: NONE if x is None else Some(x)
        want = [(ptr, 'parent', some(p), 'does not name its parent'),
                (ptr, 'previous_sibling', some(last), 'does not follow the last child'),
                (ptr, 'next_sibling', NONE, 'is not the last child'),
                (ptr, 'first_child', NONE, 'starts with children'),
                (ptr, 'last_child', NONE, 'starts with children')]
        if p is not None:
            want += [(p, 'last_child', Some(ptr), 'is not the last child of its parent'),
                     (p, 'first_child', init('nodes', ('x', p), 'first_child') if first is not None else Some(ptr),
                      'first child of the parent is wrong')]
            want += [(p, f, init('nodes', ('x', p), f), 'changes the place of its parent')
                     for f in ('parent', 'previous_sibling', 'next_sibling')]
            if last is not None:
                want.append((last, 'next_sibling', Some(ptr), 'is not linked from the previous child'))
                want += [(last, f, init('nodes', ('x', last), f), 'changes its previous sibling')
                         for f in LINKS if f != 'next_sibling']
        bad = []
        for ix, f, w, msg in want:
            if not same_opt(I, s, fin(ix, f), w):
                bad.append(('link|%s|%s' % (f, msg), 'adds a node that ' + msg if not msg.startswith('first') else msg))
        for ix in (ptr,):
            d = I.veq(s, fin(ix, 'data'), S('data'))
            if d is not True:
                bad.append(('data', 'does not store the data given'))
        bad += self.others(I, s, [x for x in (ptr, p, last) if x is not None])
        return bad

    def others(self, I, s, special):
        return others(I, s, special)


def others(I, s, special):
    """a node the operation is not about keeps everything"""
    q = S('another')
    if not I.assume(s, I.ilt(q, T(('op', 'len', NODES))), True):
        return []
    for x in special:
        if not I.assume(s, I.ieq(q, x), False):
            return []
    bad = []
    for f in LINKS:
        if not same_opt(I, s, I.read(s, sf('nodes', ('x', q), f)), init('nodes', ('x', q), f)):
            bad.append(('others|' + f, 'changes the %s of an unrelated node' % f))
    for f in ('pk', 'data'):
        if I.read(s, sf('nodes', ('x', q), f)) != init('nodes', ('x', q), f):
            bad.append(('others|' + f, 'changes the %s of an unrelated node' % f))
    return bad


DESC = T(('desc',))


class Remove(Base):
    summarise = True

    def __init__(self, prop):
        _, p, k = idval('id')
        super().__init__('remove_branch', p, k)
        self.prop = prop

    def call(self, I, st, c):
        if c.name == 'get_descendants' and c.impl_self.endswith('tree::Tree'):
            x = I.deep(st, c.args[1])
            if x == S('id') or I.veq(st, x, S('id')):
                st.ghost['desc'] = True
                return [(st, DESC)]
            return [(st, T(('op', 'descendants', x)))]
        return None

    def ret(self, I, st, val):
        if iserr(val):
            if self.prop == 'T01':
                self.answer(I, st, False)
                self.unchanged(I, st, 'refuses the id')
            return
        if not isok(val):
            return self.undec('remove_branch: result')
        if self.prop == 'T01':
            if not self.answer(I, st, True):
                return
            self.ob('remove_branch: freed places compared with the branch')
            self.each(I, st, lambda s: self.freed(I, s))
        elif self.valid(I, st) is True:
            self.ob('remove_branch: final states compared with list removal')
            self.each(I, st, lambda s: self.links(I, s))

    def freed(self, I, s):
        v = I.deep(s, I.read(s, sf('free_node_indexes')))
        ps = loops.parts('vec', v)
        own = desc = 0
        base = 0
        for p in ps:
            if p[0] == 'base':
                if p[1] == FREE:
                    base += 1
                else:
                    raise core.Unmodelled('freed places')
            elif p[0] == 'item':
                if I.veq(s, p[1], self.ptr) is True:
                    own += 1
                else:
                    raise core.Unmodelled('freed place')
            else:
                _, site, src, chunks, state = p
                itm = T(('.', ('itm', site), 'node_ptr'))
                if src[1] in ('slice', 'vecval', 'rslice', 'rvecval') and src[2] == DESC and state == 'full':
                    outs = {c[0] for c in chunks}
                    item = [o[0] for o in outs if len(o) == 1]
                    if len(outs) == 1 and len(item) == 1 and self.is_item(item[0], site):
                        desc += 1
                        continue
                    if () in outs:
                        return [('free|skipped', 'does not free every place of the branch')]
                if src[1] in ('slice', 'vecval') and src[2] == DESC and state == 'part':
                    return [('free|left', 'stops freeing before the last place of the branch')]
                raise core.Unmodelled('freed places')
        if base != 1:
            return [('free|forgotten', 'forgets places that were free before')]
        if own != 1:
            return [('free|own', 'frees the place of the node itself %d times' % own)]
        if desc == 0 and I.decide(s, I.ieq(T(('op', 'len', DESC)), K('int', 0))) is True:
            desc = 1
        if desc != 1:
            return [('free|descendants', 'frees the places of the descendants %d times' % desc)]
        n = I.read(s, sf('nodes'))
        if I.vlen(s, n) != T(('op', 'len', NODES)):
            return [('shrinks', 'changes the number of places')]
        if I.decide(s, I.ilt(I.read(s, sf('counter', 'v')), init('counter', 'v'))) is not False:
            return [('counter', 'lets keys be given again')]
        return []

    def is_item(self, x, site):
        """the place of the item of a walk over the descendants"""
        if x[0] != 't' or x[1][0] != '.' or x[1][2] != 'node_ptr':
            return False
        b = x[1][1]
        return b == ('itm', site) or b == ('.', DESC[1], ('x', T(('itm', site)))) or \
            b[0] == '.' and b[1] == DESC[1]

    def links(self, I, s):
        me = self.ptr
        n = T(('op', 'len', NODES))
        P, pre, nxt = (opt(I, s, init('nodes', ('x', me), f)) for f in ('parent', 'previous_sibling', 'next_sibling'))
        if P is None and (pre is not None or nxt is not None):
            return []
        for a, b in ((P, me), (pre, me), (nxt, me), (P, pre), (P, nxt), (pre, nxt)):
            if a is not None and b is not None and not I.assume(s, I.ieq(a, b), False):
                return []
        for a in (P, pre, nxt):
            if a is not None and not I.assume(s, I.ilt(a, n), True):
                return []
        want = []
        if P is not None:
            first, last = (init('nodes', ('x', P), f) for f in ('first_child', 'last_child'))
            fo, lo = opt(I, s, first), opt(I, s, last)
            if fo is None or lo is None:
                return []
            # invariants: the node is the first child iff it has no previous sibling, the last iff no next one
            if not I.assume(s, I.ieq(fo, me), pre is None) or not I.assume(s, I.ieq(lo, me), nxt is None):
                return []
            some = lambda x: NONE if x is None else Some(x)
            want.append((P, 'first_child', some(nxt) if pre is None else first,
                         'leaves the first child of the parent wrong'))
            want.append((P, 'last_child', some(pre) if nxt is None else last,
                         'leaves the last child of the parent wrong'))
            want += [(P, f, init('nodes', ('x', P), f), 'moves the parent') for f in LINKS[:3]]
            if pre is not None:
                want.append((pre, 'next_sibling', some(nxt), 'leaves the previous sibling linked to the wrong node'))
                want += [(pre, f, init('nodes', ('x', pre), f), 'changes the previous sibling')
                         for f in LINKS if f != 'next_sibling']
            if nxt is not None:
                want.append((nxt, 'previous_sibling', some(pre), 'leaves the next sibling linked to the wrong node'))
                want += [(nxt, f, init('nodes', ('x', nxt), f), 'changes the next sibling')
                         for f in LINKS if f != 'previous_sibling']
        bad = []
        for ix, f, w, msg in want:
            if not same_opt(I, s, I.read(s, sf('nodes', ('x', ix), f)), w):
                bad.append(('link|%s|%s' % (f, msg), msg))
        bad += others(I, s, [x for x in (me, P, pre, nxt) if x is not None])
        return bad


class Descend(Base):
    """get_descendants: every child and every descendant of every child, once"""
    summarise = True

    def __init__(self):
        _, p, k = idval('id')
        super().__init__('get_descendants', p, k)

    def call(self, I, st, c):
        if c.name == 'get_children' and c.impl_self.endswith('tree::Tree'):
            x = I.deep(st, c.args[1])
            if x == S('id'):
                return [(st, T(('children',)))]
            return [(st, T(('op', 'children', x)))]
        return None

    def recursion(self, I, st, c):
        return [(st, T(('op', 'desc', I.deep(st, c.args[1]))))]

    def ret(self, I, st, val):
        self.ob('get_descendants: results compared with the branch')
        v = I.deep(st, val)
        kids, rec = 0, 0
        CH = T(('children',))
        for p in loops.parts('vec', v):
            if p == ('base', CH):
                kids += 1
            elif p[0] == 'seq':
                _, site, src, chunks, state = p
                if src[1] in ('slice', 'vecval') and src[2] == CH and state == 'part' and definite(st):
                    return self.bad(I, st, 'stops', 'stops before the last child of the node')
                if src[1] not in ('slice', 'vecval', 'rslice', 'rvecval') or src[2] != CH or state != 'full':
                    return self.undec('get_descendants: unknown walk')
                outs = {self.chunk(ops, facts, site) for ops, facts in chunks}
                if None in outs:
                    return self.undec('get_descendants: chunk')
                if len(outs) != 1:
                    self.bad(I, st, 'skipped', 'leaves out some of the branch')
                    return
                ch = outs.pop()
                kids += ch[0]
                rec += ch[1]
            else:
                return self.undec('get_descendants: part %s' % show(p[1]) if p[0]=='base' else p[0])
        if I.decide(st, I.ieq(T(('op', 'len', CH)), K('int', 0))) is True:
            kids, rec = 1, 1
        for site, src, hist in loops.done(st):
            if not rec and src[2] == CH and all(self.leaf(f, site) for f in hist):
                rec = 1
        if kids != 1:
            self.bad(I, st, 'children', 'lists the children of the node %d times' % kids)
        if rec != 1:
            self.bad(I, st, 'below', 'lists what is below the children %d times' % rec)

    def chunk(self, ops, facts, site):
        kids = rec = 0
        for o in ops:
            if o[0] == 'seq':
                return None
            if self.item(o, site):
                kids += 1
            elif o[0] == 'cat' and o[1][0] == 't' and o[1][1][:2] == ('op', 'desc') and self.item(o[1][1][2], site):
                rec += 1
            else:
                return None
        if not rec and self.leaf(facts, site):
            rec = 1     # nothing below this child
        return kids, rec

    def leaf(self, facts, site):
        for k, v in facts:
            if k[0] == 'iv' and v[:2] == (0, 0) and len(k[1]) == 1 and k[1][0][0][:2] == ('op', 'len'):
                x = k[1][0][0][2]
                if x[0] == 't' and x[1][:2] == ('op', 'desc') and self.item(x[1][2], site):
                    return True
        return False

    def item(self, o, site):
        return o[0] == 't' and (o[1] == ('itm', site) or o[1] == ('.', ('children',), ('x', T(('itm', site)))))


def roots(F, rep, names):
    out = {}
    for n in names:
        k = rep.anchor(F, 'tree::Tree::' + n, name=n, self_ty='tree::Tree')
        if k is not None:
            out[n] = k
    return out


def fields_known(F, rep):
    want = {'tree::Tree': {'nodes', 'free_node_indexes', 'counter'},
            'tree::Node': set(LINKS) | {'pk', 'data'}, 'tree::NodeId': {'node_ptr', 'node_pk'}}
    for suf, fs in want.items():
        a = [a for p, a in F.adts.items() if p.endswith('::' + suf)]
        if not a or not fs <= set(a[0]['variants'][0]['fields']):
            rep.undec('%s has other fields than the analysis knows' % suf)
            return False
    return True


def t01(F, rep):
    rep.rule('an operation accepts an id exactly on paths that established: place in bounds, not free, key equal')
    rep.rule('add_node takes a free place off the free list or a new place, with a key never given before; '
             'remove_branch frees the branch exactly')
    if not fields_known(F, rep):
        return
    ks = roots(F, rep, ('get_node', 'get_node_mut', 'node_exists', 'get_children', 'add_node', 'remove_branch',
                        'get_by_path_or_none', 'get_descendants', 'new'))
    i, p, k = idval('id')
    for n in ('get_node', 'get_node_mut', 'node_exists'):
        if n in ks:
            run(rep, F, Get(n, p, k), ks[n], [S('self'), i])
    if 'get_children' in ks:
        run(rep, F, Children('get_children', p, k, 'T01'), ks['get_children'], [S('self'), i])
    if 'add_node' in ks:
        run(rep, F, AddNode('T01', True), ks['add_node'], [S('self'), S('data'), Some(S('parent'))], 'add_node(parent)')
        run(rep, F, AddNode('T01', False), ks['add_node'], [S('self'), S('data'), NONE], 'add_node(no parent)')
    if 'remove_branch' in ks:
        run(rep, F, Remove('T01'), ks['remove_branch'], [S('self'), i])
    if 'get_descendants' in ks:
        run(rep, F, Descend(), ks['get_descendants'], [S('self'), i])
    if 'get_by_path_or_none' in ks:
        run(rep, F, Path('get_by_path_or_none', p, k, 'T01'), ks['get_by_path_or_none'], [S('self'), i, S('ids')])
    if 'new' in ks:
        run(rep, F, New(), ks['new'], [])
    rep.floor('add_node: final states compared with list append', 2)


class New(core.Client):
    def ret(self, I, st, val):
        self.ob('new: initial tree')
        for f in ('nodes', 'free_node_indexes'):
            v = I.project(st, val, f)
            if v != ('vec', None, ()) and not core.opaque(v):
                self.violation('new|' + f, 'Tree::new starts with a non-empty ' + f)


def t02(F, rep):
    rep.rule('the final links of add_node and remove_branch equal list append and list removal for every node')
    rep.rule('listing and indexing children follow the chain first_child, next_sibling to its end')
    if not fields_known(F, rep):
        return
    ks = roots(F, rep, ('get_children', 'add_node', 'remove_branch', 'get_nth_child', 'get_nth_child_or_none',
                        'get_by_path_or_none'))
    i, p, k = idval('id')
    if 'get_children' in ks:
        run(rep, F, Children('get_children', p, k, 'T02'), ks['get_children'], [S('self'), i])
    if 'add_node' in ks:
        run(rep, F, AddNode('T02', True), ks['add_node'], [S('self'), S('data'), Some(S('parent'))], 'add_node(parent)')
        run(rep, F, AddNode('T02', False), ks['add_node'], [S('self'), S('data'), NONE], 'add_node(no parent)')
    if 'remove_branch' in ks:
        run(rep, F, Remove('T02'), ks['remove_branch'], [S('self'), i])
    for n in ('get_nth_child', 'get_nth_child_or_none'):
        if n in ks:
            run(rep, F, Nth(n), ks[n], [S('self'), S('node'), S('nth')])
    if 'get_by_path_or_none' in ks:
        c = Path('get_by_path_or_none', p, k, 'T02')
        run(rep, F, c, ks['get_by_path_or_none'], [S('self'), i, S('ids')])
        if c.skipped and c.called:
            rep.violation('get_by_path_or_none|path|steps', 'get_by_path_or_none takes no step for an index of the path',
                          c.skipped)
        elif c.skipped:
            rep.undec('get_by_path_or_none: steps not recognised')
    rep.floor('add_node: final states compared with list append', 2)
    rep.floor('remove_branch: final states compared with list removal', 2)
