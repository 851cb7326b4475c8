"""Pointwise abstraction of sets and maps over a small element type (opt-in: client.points).

client.points = Points(...) fixes, for each element type, a few structured elements (a
symbolic character C, the empty mark, the end mark).  A set is kept as its restriction to
these points; every other element is represented by one further character D /= C whose
membership is unknown.  A map keyed by such an element is kept as its values at the points.
A property that holds for the restriction holds for every element, because C is arbitrary.
"""
from .core import K, T, TRUE, FALSE, UNIT, NONE, Some, Split, Unmodelled, Push, short, fld, tup
from . import models as M

CHAR, OTHER = T(('in', 'C')), T(('in', 'D'))
FACTS = {('b', ('op', 'ceq', ('in', 'C'), ('in', 'D'))): False, ('b', ('op', 'ceq', ('in', 'D'), ('in', 'C'))): False}


class Points:
    def __init__(self, types, tracked=None):
        """types: {short type name: (adt path, [variants without payload], character variant)};
        tracked: {type: indices of the points membership is kept for}"""
        self.types = types
        self.tracked = tracked or {e: range(1 + len(t[1])) for e, t in types.items()}
        self.adts = frozenset(x[0] for x in types.values())

    def etype(self, text):
        """the element type a type text names (of the key of a map, of the item of a set)"""
        import re
        for w in re.findall(r'[A-Za-z_0-9]+', text or ''):
            if w in self.types:
                return w
        return None

    def n(self, e):
        return 1 + len(self.types[e][1])

    def others(self, e):
        """elements that stand for everything that is not tracked"""
        out = [self.value(e, None)] + [self.value(e, i) for i in range(1, self.n(e)) if i not in self.tracked[e]]
        if 0 not in self.tracked[e]:
            out.append(self.value(e, 0))
        return out

    def value(self, e, i):
        adt, units, ch = self.types[e]
        if i == 0:
            return ('a', adt, ch, (('0', CHAR),))
        if i is None:
            return ('a', adt, ch, (('0', OTHER),))
        return ('a', adt, units[i - 1], ())

    def index(self, e, name):
        units = self.types[e][1]
        return 1 + units.index(name) if name in units else None

    def which(self, I, st, e, x):
        """the tracked point x is, None for any other element"""
        i = self.which_(I, st, e, x)
        return i if i in self.tracked[e] else None

    def which_(self, I, st, e, x):
        x = I.deep(st, x)
        adt, units, ch = self.types[e]
        if x[0] == 'a':
            v = x[2]
        elif x[0] == 't':
            v = I.variant(st, x, adt)
        else:
            raise Unmodelled('element of a set')
        if v in units:
            return 1 + units.index(v)
        c = fld(x, '0') if x[0] == 'a' else I.deep(st, I.project(st, I.project(st, x, ('v', ch)), '0'))
        if c == CHAR:
            return 0
        if c == OTHER:
            return None
        return 0 if I.test(st, I.op_ceq(c, CHAR)) else None


def member(I, st, e, s, i):
    """is point i in the symbolic set s"""
    P = I.points
    h = getattr(I.client, 'member', None)
    if h is not None:
        r = h(I, st, e, s, i)
        if r is not None:
            return r
    return I.test(st, T(('op', 'in', s, P.value(e, i))))


def pset(e, ixs=()):
    return ('pset', e, tuple(sorted(set(ixs))))


def restrict(I, st, v, e):
    """the restriction of a set value to the points"""
    n = 0
    while n < 8:
        n += 1
        if v[0] == 'r':
            v = I.read(st, v[1])
        elif v[0] == 't' and st.mem.get(('S', v[1])) not in (None, v):
            v = st.mem[('S', v[1])]
        else:
            break
    P = I.points
    if v[0] == 'pset':
        return v
    if v[0] == 'set':
        have = set(restrict(I, st, v[1], e)[2]) if v[1] is not None else set()
        for op, x in v[2]:
            if op == 'ext':
                have |= set(restrict(I, st, x, e)[2])
            else:
                i = P.which(I, st, e, x)
                if i is not None:
                    have = have | {i} if op == 'ins' else have - {i}
        return pset(e, have)
    if v[0] == 't':
        if v[1][0] == 'op' and v[1][1] == 'elems' and v[1][2][0] == 'pset':
            return v[1][2]
        if v[1][0] == 'opq':
            raise Unmodelled('unknown set')
        return pset(e, [i for i in P.tracked[e] if member(I, st, e, v, i)])
    raise Unmodelled('set value %s' % v[0])


def either(st):
    a = st.copy()
    return [(st, TRUE), (a, FALSE)]


def settype(I, c, text=None):
    t = ' '.join(c.f.get('targs') or []) if text is None else text
    return I.points.etype(t)


SETS, MAPS = ('HashSet', 'BTreeSet'), ('HashMap', 'BTreeMap')


def call(I, st, c):
    """the model's answer, or None when the call is not about a pointwise container"""
    s, name = short(c.impl_self.split('<')[0].strip("&' a")), c.name
    targs = c.f.get('targs') or []
    if s in SETS or (s.startswith('HashSet')):
        e = I.points.etype(targs[0]) if targs and '(' not in targs[0] else None
        if e is None:
            return None
        return setcall(I, st, c, name, e)
    if s in MAPS:
        e = None
        if targs:
            e = I.points.etype(targs[0].split(',')[0] if 'HashMap<' in targs[0] else targs[0])
            if 'HashMap<' not in targs[0] and '<' in targs[0]:
                e = None
        if e is None:
            return None
        return mapcall(I, st, c, name, e)
    if name in ('bitor', 'bitand', 'sub', 'bitxor') and 'HashSet' in str(c.f) and 'core::ops' in c.trait:
        e = settype(I, c)
        if e is not None and len(c.args) == 2:
            a, b = (set(restrict(I, st, x, e)[2]) for x in c.args)
            return M.one(st, pset(e, {'bitor': a | b, 'bitand': a & b, 'sub': a - b, 'bitxor': a ^ b}[name]))
    if name == 'from_iter' and s.startswith('Vec'):
        pb = M.pipeline_base(c.args[0])
        if pb is not None and pb[1][1] in ('pset', 'psetval'):
            e = I.points.etype(c.t.get('dty') or '')
            if e is not None and c.t.get('dty', '').split('<')[0].endswith('Vec') and '(' not in c.t['dty']:
                return collect(I, st, c, e, True)
    if name in ('eq', 'ne') and len(c.args) == 2:
        a, b = (M.container(I, st, x)[1] if x[0] in ('r', 't') else x for x in c.args)
        if 'pset' in (a[0], b[0]):
            e = a[1] if a[0] == 'pset' else b[1]
            if restrict(I, st, a, e) != restrict(I, st, b, e):
                return M.one(st, K('bool', name == 'ne'))
            return either(st)
    if name in ('iter', 'into_iter', 'len', 'is_empty', 'extend', 'contains') and c.args and c.args[0][0] in ('r', 't'):
        try:
            v = M.container(I, st, c.args[0])[1]
        except Unmodelled:
            return None
        el = v[0] == 't' and v[1][0] == 'op' and v[1][1] == 'elems' and v[1][2][0] == 'pset'
        if el or v[0] == 'pset':
            return setcall(I, st, c, name, (v[1][2] if el else v)[1])
    return None


def outputs(I, st, c, pipe, e):
    """[tracked points the pipeline yields], [points it may yield besides]; None when it has to be walked"""
    pb, it = M.pipeline_base(pipe), c.t.get('iter')
    if pb is None or it is None or pb[1][1] not in ('pset', 'psetval') or pb[1][4] != pb[1][2][2]:
        return None
    path, base = pb
    P, se = I.points, base[2][1]
    sure, may = [], []
    for x, i in [(P.value(se, i), i) for i in base[2][2]] + [(y, -1 - n) for n, y in enumerate(P.others(se))]:
        s0 = st.copy()
        once = ('it', 'once', item(I, s0, base[1], se, x, i), base[3], K('int', 0))
        root = ('G', 'pipe')
        s0.mem[root] = pipe
        s0.mem[root] = I.put(s0, pipe, path, once)
        n0 = s0.notes
        res = I.sub(s0, it['next'], [('r', (root, ()))])
        if not res and i < 0:
            continue
        if len(res) != 1:
            return None
        s1, o = res[0]
        if s1.facts != st.facts or s1.ghost != st.ghost or s1.notes != n0 or o[0] != 'a':
            return None
        if o[2] == 'None':
            continue
        o = I.deep(s1, fld(o, '0'))
        if o[0] != 'a':
            return None
        j = P.which(I, s1, e, o)
        if j is not None:
            (sure if i >= 0 else may).append(j)
    return sure, may


def collect(I, st, c, e, elems=False):
    it = c.t.get('iter')
    if not it:
        raise Unmodelled('collect without iterator info')
    r = outputs(I, st, c, c.args[0], e)
    if r is not None and not r[1]:
        v = pset(e, r[0])
        return M.one(st, T(('op', 'elems', v)) if elems else v)
    new = dict(M.SET_NEW, targs=[e])
    ins = dict(M.SET_INS, targs=[e])
    r = M.collector(I, st, c, 'collect_pset', new, ins)
    if elems:
        key = r.key + ('elems',)
        fn = I.fns.get(key)
        if fn is None:
            fn = dict(r.fn)
            blocks = list(fn['blocks'])
            blocks[4] = {'s': [], 'cu': False, 't': {
                'k': 'call', 'f': {'name': 'elems', 'path': 'points::elems', 'impl_self': 'HashSet', 'targs': [e],
                                   'kind': 'item'},
                'args': [M.mv(3)], 'dest': M.L(0), 'dty': '?', 't': len(blocks), 'sp': c.sp}}
            blocks.append({'s': [], 'cu': False, 't': {'k': 'ret', 'sp': c.sp}})
            fn['blocks'] = blocks
            I.fns[key] = fn
        return Push(key, fn, r.args)
    return r


def setcall(I, st, c, name, e):
    P = I.points
    if name in ('new', 'default', 'with_capacity'):
        return M.one(st, pset(e))
    if name == 'elems':
        return M.one(st, T(('op', 'elems', restrict(I, st, c.args[0], e))))
    if name == 'from':
        a = c.args[0]
        a = a if a[0] == 'a' else I.deep(st, a)
        if a[0] == 'a' and a[1] == 'array':
            return M.one(st, pset(e, [i for i in (P.which(I, st, e, x) for _, x in a[3]) if i is not None]))
        raise Unmodelled('HashSet::from')
    if name == 'from_iter':
        return collect(I, st, c, e)
    if name == 'clone':
        return M.one(st, restrict(I, st, c.args[0], e))
    if name == 'extend':
        a = c.args[1]
        whole = None
        if a[0] in ('r', 't', 'pset', 'set') and M.pipeline_base(a) is None:
            v = a if a[0] in ('pset', 'set') else M.container(I, st, a)[1]
            if v[0] in ('pset', 'set') or v[0] == 't' and v[1][0] == 'op' and v[1][1] == 'elems':
                whole = restrict(I, st, v, e)
            elif v[0] == 't' and 'HashSet' in ' '.join(c.f.get('targs') or []).split(',')[-1]:
                whole = restrict(I, st, v, e)
        if whole is not None:
            pl, v = M.container(I, st, c.args[0])
            v = restrict(I, st, v, e)
            I.write(st, pl, pset(e, v[2] + whole[2]), c.sp)
            return M.one(st, UNIT)
        r = outputs(I, st, c, a, e)
        if r is not None and not r[1]:
            pl, v = M.container(I, st, c.args[0])
            I.write(st, pl, pset(e, restrict(I, st, v, e)[2] + tuple(r[0])), c.sp)
            return M.one(st, UNIT)
        return M.consumer(I, st, c, 'extend_pset', dict(M.SET_INS, targs=[e]))
    if name in ('iter', 'into_iter', 'drain'):
        pl, v = M.container(I, st, c.args[0])
        v = restrict(I, st, v, e)
        if name == 'drain':
            I.write(st, pl, pset(e), c.sp)
        own = name == 'drain' or name == 'into_iter' and 'IntoIter' in (c.t.get('dty') or '')
        return M.one(st, ('it', 'psetval' if own else 'pset', v, c.site, v[2]))
    if name in ('difference', 'union', 'intersection', 'symmetric_difference'):
        a, b = (set(restrict(I, st, x, e)[2]) for x in c.args[:2])
        r = {'difference': a - b, 'union': a | b, 'intersection': a & b, 'symmetric_difference': a ^ b}[name]
        v = pset(e, r)
        return M.one(st, ('it', 'pset', v, c.site, v[2]))
    if name in ('is_subset', 'is_superset', 'is_disjoint'):
        a, b = (set(restrict(I, st, x, e)[2]) for x in c.args[:2])
        bad = {'is_subset': a - b, 'is_superset': b - a, 'is_disjoint': a & b}[name]
        return M.one(st, FALSE) if bad else either(st)
    if name in ('is_empty', 'len'):
        v = restrict(I, st, c.args[0], e)
        if name == 'is_empty':
            return M.one(st, FALSE) if v[2] else either(st)
        mid = (c.site, 'size')
        n = T(('setsize', I.mint(st, mid)))
        if not I.assume(st, I.ilt(n, K('int', len(v[2]))), False):
            raise Unmodelled('size of a set')
        return M.one(st, n)
    pl, v = M.container(I, st, c.args[0])
    v = restrict(I, st, v, e)
    if name in ('contains', 'insert', 'remove', 'get', 'take', 'replace'):
        i = P.which(I, st, e, c.args[1])
        if name == 'get':
            raise Unmodelled('HashSet::get')
        if i is None:
            return either(st)
        had = i in v[2]
        if name == 'insert':
            I.write(st, pl, pset(e, v[2] + (i,)), c.sp)
            return M.one(st, K('bool', not had))
        if name == 'remove':
            I.write(st, pl, pset(e, [j for j in v[2] if j != i]), c.sp)
        elif name != 'contains':
            raise Unmodelled('HashSet::' + name)
        return M.one(st, K('bool', had))
    if name == 'clear':
        I.write(st, pl, pset(e), c.sp)
        return M.one(st, UNIT)
    if name == 'retain':
        raise Unmodelled('HashSet::retain')
    return None


def item(I, st, kind, e, x, i):
    if kind == 'psetval':
        return x
    root = ('G', ('pt', e, i))
    st.mem[root] = x
    return ('r', (root, ()))


def next_pset(I, st, c, pl, it):
    _, kind, src, site, pos = it
    P = I.points
    e = src[1]
    if pos == 'done':
        return M.one(st, NONE)
    outs = []
    for i in pos:
        s = st.copy()
        it2 = it[:4] + (tuple(j for j in pos if j != i),)
        I.write(s, pl, it2, None, False)
        x = item(I, s, kind, e, P.value(e, i), i)
        I.client.iter_next(I, s, it2, x, c)
        outs.append((s, Some(x)))
    for n, y in enumerate(P.others(e)):
        s = st.copy()
        x = item(I, s, kind, e, y, -1 - n)
        I.client.iter_next(I, s, it, x, c)
        outs.append((s, Some(x)))
    if not pos:
        I.write(st, pl, it[:4] + ('done',), None, False)
        I.client.iter_end(I, st, it, c)
        outs.append((st, NONE))
    return outs


M.NEXT['pset'] = M.NEXT['psetval'] = next_pset


# ------------------------------------------------------------------ maps keyed by an element
def pmap(e, vals):
    return ('pmap', e, tuple(vals))


def restrict_map(I, st, v, e):
    n = 0
    while v[0] == 'r' and n < 8:
        v = I.read(st, v[1])
        n += 1
    if v[0] == 'pmap':
        return v
    if v[0] == 'map' and v[1] is None and not v[2]:
        return pmap(e, [None] * I.points.n(e))
    raise Unmodelled('map value %s' % v[0])


def at(I, st, v, key):
    """value of a pointwise map at a key"""
    i = I.points.which(I, st, v[1], key)
    if i is None:
        return T(('in', 'othervalue'))
    return T(('opq', 'mapval')) if v[2][i] is None else v[2][i]


def put(I, st, v, key, new):
    i = I.points.which(I, st, v[1], key)
    if i is None:
        return v
    return pmap(v[1], v[2][:i] + (new,) + v[2][i + 1:])


def has(I, st, v, e, x):
    """[(state, point or None, present)]"""
    i = I.points.which(I, st, e, x)
    if i is None:
        a = st.copy()
        h = getattr(I.client, 'other_present', None)
        if h is not None:
            h(I, a)
        return [(st, None, False), (a, None, True)]
    return [(st, i, v[2][i] is not None)]


def mapcall(I, st, c, name, e):
    P = I.points
    if name in ('new', 'default', 'with_capacity'):
        return M.one(st, pmap(e, [None] * P.n(e)))
    pl, v = M.container(I, st, c.args[0])
    v = restrict_map(I, st, v, e)
    if name in ('get', 'get_mut', 'contains_key', 'insert', 'entry', 'remove'):
        if pl is None:
            raise Unmodelled('map by value')
        outs = []
        key = I.deep(st, c.args[1])
        used = name != 'insert' or M.result_used(c)
        for s, i, h in has(I, st, v, e, key) if used else [(st, P.which(I, st, e, key), True)]:
            kv = P.value(e, i)
            here = (pl[0], pl[1] + (('e', kv),))
            old = v[2][i] if i is not None else T(('in', 'othervalue'))
            if name in ('get', 'get_mut'):
                outs.append((s, Some(('r', here)) if h else NONE))
            elif name == 'contains_key':
                outs.append((s, K('bool', h)))
            elif name == 'insert':
                I.write(s, here, c.args[2], c.sp)
                outs.append((s, Some(old) if h and old is not None else NONE))
            elif name == 'remove':
                if i is not None:
                    I.write(s, pl, pmap(e, v[2][:i] + (None,) + v[2][i + 1:]), c.sp)
                outs.append((s, Some(old) if h else NONE))
            else:
                slot = ('a', 'MapSlot', None, (('map', ('r', pl)), ('key', kv)))
                outs.append((s, ('a', M.ENTRY, 'Occupied' if h else 'Vacant', (('0', slot),))))
        return outs
    if name == 'is_empty':
        return M.one(st, FALSE) if any(x is not None for x in v[2]) else either(st)
    if name == 'index':
        i = P.which(I, st, e, c.args[1])
        if i is None:
            return M.one(st, T(('opq', 'mapval')))
        if v[2][i] is None:
            I.client.panic(I, st, 'missing key', c)
            return []
        return M.one(st, ('r', (pl[0], pl[1] + (('e', P.value(e, i)),))))
    raise Unmodelled('HashMap::' + name)
