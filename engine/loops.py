"""Loop summaries of accumulating containers (opt-in: client.summarise).

While a symbolic iterator is walked, every container that only grows by appended
operations is kept in the form  prev ++ rep(site, source, chunks):  for each item of the
source one of the chunks was appended, in order.  A chunk is (operations, facts about the
item); the item is written ('itm', site).  state is 'full' when the source was exhausted,
'part' when the loop was left early.
"""
from .core import T, subst, contains, has_tag

TAGS = ('vec', 'set', 'map')
EMPTY = ((), frozenset())


def containers(v, path=(), terms=False):
    """(path, container) below a value, through structures and overwritten fields"""
    h = v[0]
    if h in TAGS or iscat(v) or terms and h == 't' and not has_tag(v, ('old', 'wid', 'opq')):
        yield path, v
    elif h == 'a':
        for n, x in v[3]:
            if isinstance(x, tuple) and x:
                yield from containers(x, path + (n,), terms)
    elif h == 'w':
        for n, x in v[2]:
            if isinstance(x, tuple) and x:
                yield from containers(x, path + (n,), terms)


def at(v, path):
    for n in path:
        if v[0] == 'a':
            v = dict(v[3]).get(n)
        elif v[0] == 'w':
            d = dict(v[2])
            v = d[n] if n in d else T(('.', v[1][1], n)) if v[1][0] == 't' else None
        elif v[0] == 't':
            v = T(('.', v[1], n))
        else:
            v = None
        if v is None:
            return None
    return v


def setat(v, path, new):
    if not path:
        return new
    n, rest = path[0], path[1:]
    if v[0] == 'a':
        return v[:3] + (tuple((m, setat(x, rest, new) if m == n else x) for m, x in v[3]),)
    if v[0] == 'w':
        return v[:2] + (tuple((m, setat(x, rest, new) if m == n else x) for m, x in v[2]),)
    return v


def iscat(v):
    return v is not None and v[0] == 't' and v[1][0] == 'op' and v[1][1] == 'concat'


def tagof(v):
    return 'vec' if iscat(v) else v[0]


def norm(tag, v):
    """(tag, base, operations) with concatenations written as ('cat', x) operations"""
    if iscat(v):
        a = norm('vec', v[1][2])
        return ('vec', a[1], a[2] + (('cat', v[1][3]),))
    if v[0] == tag:
        if iscat(v[1]):
            a = norm('vec', v[1])
            return ('vec', a[1], a[2] + v[2])
        return v
    return (tag, v, ())


def rep_of(v):
    """(prev, site, src, chunks, state) when the container's base is a summary"""
    if v[0] in TAGS and v[1] is not None and v[1][0] == 't' and v[1][1][0] == 'rep':
        return v[1][1][1:]
    return None


def mkrep(tag, prev, site, src, chunks, state, ops=()):
    return (tag, T(('rep', prev, site, src, chunks, state)), ops)


def diff(tag, prev, now):
    """operations that turn prev into now, or None"""
    prev, now = norm(tag, prev), norm(tag, now)
    if now[0] != tag or prev[0] != tag:
        return None
    if now[1] == prev[1]:
        n = len(prev[2])
        return now[2][n:] if now[2][:n] == prev[2] else None
    r = rep_of(now)
    if r is None:
        return None
    pv, site, src, chunks, state = r
    d = diff(tag, prev, pv)
    if d is None:
        return None
    return d + (('seq', site, src, chunks, state),) + now[2]


def snapshot(st):
    out = []
    for root, v in st.mem.items():
        if root[0] not in ('L', 'H', 'S'):
            continue
        for path, x in containers(v, (), True):
            if x[0] == 't' and has_tag(x, ('m',)):
                continue
            out.append((('rt',) + root, path, x))
    return frozenset(out)


def key(site):
    return ('#rep', ('s', site))


def curkey(site):
    return ('#cur', ('s', site))


def donekey(site):
    return ('#done', ('s', site))


def drop_active(st, site):
    st.ghost.pop(key(site), None)
    st.ghost.pop(curkey(site), None)


def item(I, st, site, cur):
    """the walk has moved on to a new item"""
    if getattr(I.client, 'summarise', False) and key(site) in st.ghost:
        st.ghost[curkey(site)] = T(cur)


def kept(st, k):
    """facts about the current item of an active summary are not widened away"""
    for g, v in st.ghost.items():
        if isinstance(g, tuple) and g[0] == '#cur' and contains(k, v[1]):
            return True
    return False


def done(st):
    """walks that ended after at least one item: (site, source, facts about the items)"""
    return [(g[1][1],) + v for g, v in st.ghost.items() if isinstance(g, tuple) and g[0] == '#done']


def ops_deep(I, st, tag, ops):
    out = []
    for o in ops:
        if isinstance(o, tuple) and o and o[0] == 'seq':
            out.append(o)
        elif tag == 'vec' and o[0] == 'cat':
            out.append(('cat', I.deep(st, o[1])))
        elif tag == 'vec':
            out.append(I.deep(st, o))
        elif tag == 'map':
            out.append((I.deep(st, o[0]), I.deep(st, o[1])))
        else:
            out.append((o[0], I.deep(st, o[1])))
    return tuple(out)


def chunk_of(I, st, tag, ops, site):
    cur = ('m', site, 'cur')
    itm = ('itm', site)
    return own(subst(ops_deep(I, st, tag, ops), cur, itm), site), item_facts(st, site)


def own(x, site, memo=None):
    """a container of this loop, mentioned in what the loop appends, is written ('own', site, container before it)"""
    if memo is None:
        memo = {}
    if isinstance(x, frozenset):
        return frozenset(own(y, site, memo) for y in x)
    if not isinstance(x, tuple):
        return x
    if len(x) == 6 and x[0] == 'rep' and x[2] == site:
        return ('own', site, x[1])
    r = memo.get(id(x))
    if r is None:
        out = tuple(own(y, site, memo) for y in x)
        r = memo[id(x)] = (x if all(a is b for a, b in zip(out, x)) else out, x)
    return r[0]


def positions(I, chunks, site):
    """the chunks with the length of an own container written as prefix + item, when every item appends once"""
    if any(len(ops) != 1 for ops, _ in chunks):
        return chunks

    def go(x):
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        if not isinstance(x, tuple):
            return x
        if len(x) == 3 and x[:2] == ('op', 'len') and x[2][0] == 't' and x[2][1][0] == 'own' and x[2][1][1] == site:
            return I.iadd(I.vlen(None, x[2][1][2]), T(('itm', site)))[1]
        if len(x) == 3 and x[0] == 'lin':
            v = ('k', 'int', x[2])
            for a, n in x[1]:
                for _ in range(abs(n)):
                    v = I.iadd(v, T(go(a)), 1 if n > 0 else -1)
            return v[1] if v[0] == 't' else x
        return tuple(go(y) for y in x)
    return frozenset((go(ops), facts) for ops, facts in chunks)


def item_facts(st, site):
    cur = ('m', site, 'cur')
    itm = ('itm', site)
    facts = set()
    walks = {site} | {g[1][1] for g in st.ghost if isinstance(g, tuple) and g[0] == '#rep'}
    for k, v in st.facts.items():
        if contains(k, cur) and not foreign(k, walks):
            facts.add((own(subst(k, cur, itm), site), v))
    return frozenset(facts)


def foreign(t, walks):
    """mentions an object of an iteration which is not under way, or a widened value"""
    if isinstance(t, tuple):
        if t and t[0] in ('old', 'wid', 'opq') and len(t) >= 2:
            return True
        if len(t) == 3 and t[0] == 'm' and t[1] not in walks:
            return True
        return any(foreign(x, walks) for x in t if isinstance(x, tuple))
    return False


def begin(I, st, it):
    if not getattr(I.client, 'summarise', False):
        return
    st.ghost.pop(donekey(it[3]), None)
    st.ghost[key(it[3])] = (0, snapshot(st), frozenset(), None, ())


def step(I, st, it):
    """an item of the loop has been dealt with"""
    if not getattr(I.client, 'summarise', False):
        return
    site = it[3]
    act = st.ghost.get(key(site))
    if act is None:
        return
    count, snap, hist = act[:3]
    old = {(r, p): v for r, p, v in snap}
    src = ('src', it[1], source(I, st, it))
    ctx, mine = None, []
    known = I.__dict__.setdefault('chunks_known', {})
    for root in list(st.mem):
        if root[0] not in ('L', 'H', 'S'):
            continue
        v = st.mem[root]
        for path, now in list(containers(v, (), True)):
            prev = old.get((('rt',) + root, path))
            if now[0] == 't' and not iscat(now):
                # a concatenation with the empty list
                if prev is None or prev == now or prev[0] != 'vec' or prev[1] is not None or prev[2]:
                    continue
                now = ('vec', None, (('cat', now),))
            if prev is None:
                if root[0] != 'S':
                    continue
                prev = at(T(root[1]), path)
                if prev is None:
                    continue
            new = fold(I, st, tagof(now), prev, now, site, src, hist)
            r = rep_of(norm(tagof(now), new))
            if r is not None and r[1] == site and r[4] == 'part':
                if ctx is None:
                    ctx = context(st, site)
                acc = known.setdefault(((root, path, r[0], r[2]) + ctx), frozenset()) | r[3]
                known[(root, path, r[0], r[2]) + ctx] = acc
                mine.append(((root, path, r[0], r[2]) + ctx, acc))
                if acc != r[3]:
                    new = mkrep(tagof(now), r[0], site, r[2], acc, r[4], norm(tagof(now), new)[2])
            if new is not now:
                st.mem[root] = v = setat(v, path, new)
    hist = hist | {item_facts(st, site)}
    if ctx is not None:
        hist = known[('hist',) + ctx] = known.setdefault(('hist',) + ctx, frozenset()) | hist
        mine.append((('hist',) + ctx, hist))
    st.ghost[key(site)] = (min(count + 1, 1), snapshot(st), hist, src, note(I, mine))


def context(st, site):
    """what surrounds a walk: chunks found on other paths with the same surroundings are taken over at once, so
    that the order in which the paths are met does not multiply the summaries"""
    cur = ('m', site, 'cur')
    mem = frozenset((r, v) for r, v in st.mem.items() if not contains(v, cur) and not inrep(v))
    fs = frozenset((k, v) for k, v in st.facts.items() if not contains(k, cur))
    return site, mem, fs, 'opq' in st.notes


def inrep(v):
    return has_tag(v, ('rep',))


def source(I, st, it):
    s = it[2]
    if isinstance(s, tuple) and s and s[0] == 'r':
        return I.deep(st, s)
    if it[1] in ('range', 'rrange'):
        return tuple(I.deep(st, x) for x in s)
    return s


def fold(I, st, tag, prev, now, site, src, hist):
    r = rep_of(norm(tag, prev))
    mine = r is not None and r[1] == site and not norm(tag, prev)[2]
    if prev == now or norm(tag, prev) == norm(tag, now):
        if mine and EMPTY not in {(c[0], frozenset()) for c in r[3]}:
            ch = chunk_of(I, st, tag, (), site)
            return mkrep(tag, r[0], site, r[2], r[3] | {ch}, r[4])
        if mine:
            ch = chunk_of(I, st, tag, (), site)
            return mkrep(tag, r[0], site, r[2], r[3] | {ch}, r[4]) if ch not in r[3] else now
        return now
    ops = diff(tag, prev, now)
    if ops is None:
        return now
    ch = chunk_of(I, st, tag, ops, site)
    if mine:
        return mkrep(tag, r[0], site, r[2], r[3] | {ch}, r[4])
    chunks = {ch} | {((), f) for f in hist}
    return mkrep(tag, prev, site, src, frozenset(chunks), 'part')


def end(I, st, it):
    """the loop has run to its end"""
    if not getattr(I.client, 'summarise', False):
        return
    site = it[3]
    act = st.ghost.get(key(site))
    if act is None:
        return
    if act[2]:
        st.ghost[donekey(site)] = (act[3], act[2])
    drop_active(st, site)
    if act[4]:
        st.ghost['#end'] = (site, act[4])
    for root in list(st.mem):
        if root[0] not in ('L', 'H', 'S'):
            continue
        v = st.mem[root]
        for path, now in list(containers(v)):
            tag = tagof(now)
            now = norm(tag, now)
            r = rep_of(now)
            if r is not None and r[1] == site and r[4] == 'part' and not any(o[0] == 'cat' for o in now[2] if tag == 'vec'):
                st.mem[root] = v = setat(v, path, mkrep(tag, r[0], site, r[2], r[3], 'full', now[2]))


def note(I, mine):
    """a small handle for what a walk has gathered so far"""
    if not mine:
        return ()
    tab = I.__dict__.setdefault('notes_of_walks', {})
    t = tuple(mine)
    return ('note', tab.setdefault(t, (len(tab), t))[0])


def stale(I, st):
    """a walk has just ended: facts about its last item go unless something still refers to it, and the path is
    dropped when another path of the same surroundings has gathered more"""
    site, n = st.ghost.pop('#end')
    cur = ('m', site, 'cur')
    for g in [g for g in st.ghost if isinstance(g, tuple) and g[0] == '#done' and g[1][1] != site]:
        if contains(st.ghost[g], cur):
            del st.ghost[g]
    for v in list(st.mem.values()) + [g for g in st.ghost.values() if isinstance(g, (tuple, frozenset))]:
        if contains(v, cur):
            return False
    for k in list(st.facts):
        if contains(k, cur):
            del st.facts[k]
    by = I.__dict__.get('walks_by_note')
    if by is None or len(by) != len(I.notes_of_walks):
        by = I.walks_by_note = {v[0]: v[1] for v in I.notes_of_walks.values()}
    return any(I.chunks_known[k] != acc for k, acc in by[n[1]])


def pick(I, st, v, key):
    """look-up, in a map built by a completed walk over all keys of another map, of a key of that map:
    (what was there before the walk, (value,) or ()), splitting over the chunks"""
    if v[0] != 't' or v[1][0] != 'rep' or key[0] != 't' or key[1][0] != 'key':
        return None
    prev, site, src, chunks, state = v[1][1:]
    if state != 'full' or src[0] != 'src' or src[1] not in ('map', 'keys', 'rmap', 'rkeys'):
        return None
    itm, ix = ('itm', site), key[1][2]
    todo = []
    for ops, facts in sorted(chunks, key=canon):
        if len(ops) > 1 or ops and ops[0][0] == 'seq':
            return None
        if ops:
            k = ops[0][0]
            if k == 'ins':
                k = ops[0][1]
            if not isinstance(k, tuple) or k[0] != 't' or k[1][0] != 'key' or k[1][2] != T(itm) or not (k[1][1] == key[1][1] or plain(src[2]) == plain(key[1][1])):
                return None
            old, new = k[1][1], key[1][1]
        else:
            old = new = key[1][1]
        todo.append((ops, facts, old, new))

    def inst(x, old, new):
        return subst(subst(x, itm, ix[1]) if ix[0] == 't' else x, ('key', old, ix), ('key', new, ix))
    me = ('pick', v[1], key[1])
    known = st.facts.get(me)
    for ops, facts, old, new in todo:
        if (ops, facts) != known:
            continue
        return prev, (inst(ops[0][1], old, new),) if ops else ()

    def mk(n):
        ops, facts, old, new = todo[n]

        def f(s):
            s.facts[me] = (ops, facts)
            for k, val in facts:
                k = inst(k, old, new)
                if not learn(I, s, k, val):
                    return None
            return s
        return f
    from .core import Split
    raise Split([mk(n) for n in range(len(todo))])


def canon(x):
    """a text which does not depend on the order of the members of a set"""
    if isinstance(x, frozenset):
        return '{' + ','.join(sorted(canon(y) for y in x)) + '}'
    if isinstance(x, tuple):
        return '(' + ','.join(canon(y) for y in x) + ')'
    return repr(x)


def plain(x):
    """the map behind a reference to it"""
    if isinstance(x, tuple) and x and x[0] == 'r' and x[1][0][0] == 'S':
        t = x[1][0][1]
        for e in x[1][1]:
            t = ('.', t, e)
        return t
    return x[1] if isinstance(x, tuple) and x and x[0] == 't' else x


def learn(I, st, k, val):
    """add what is known about a chunk's item; False when it contradicts what is known"""
    if k[0] == 'b':
        return I.assume(st, T(k[1]), val)
    if k[0] == 'var':
        now = st.facts.get(k)
        if now is not None:
            return now == val
        if val in st.facts.get(('varn', k[1]), ()):
            return False
        st.facts[k] = val
        return I.discr_ok(st, k[1])
    if k[0] == 'iv':
        lo, hi, ex = val
        return I.narrow(st, k[1], lo, hi)
    if k[0] == 'cd' and k in st.facts:
        st.facts[k] &= val
        return bool(st.facts[k])
    st.facts.setdefault(k, val)
    return True


def grows(a, b):
    """b continues the same summary as a"""
    if tagof(a) not in TAGS or tagof(a) != tagof(b):
        return False
    a, b = norm(tagof(a), a), norm(tagof(b), b)
    ra, rb = rep_of(a), rep_of(b)
    if ra is None or rb is None:
        return False
    return ra[:3] == rb[:3] and ra[3] <= rb[3] and (a[2] == b[2] or len(b[2]) <= 3)


def parts(tag, v):
    """container as a list of ('base', t) | ('item', op) | ('seq', site, src, chunks, state)"""
    v = norm(tag, v)
    r = rep_of(v)
    if r is not None:
        out = parts(tag, r[0]) + [('seq',) + tuple(r[1:])]
    elif v[1] is None:
        out = []
    elif v[1][0] == tag:
        out = parts(tag, v[1])
    else:
        out = [('base', v[1])]
    for o in v[2]:
        if tag == 'vec' and o[0] == 'cat':
            out += parts(tag, o[1])
        else:
            out.append(o if isinstance(o, tuple) and o and o[0] == 'seq' else ('item', o))
    return out
