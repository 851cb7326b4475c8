"""Where values come from and go to: summaries of tag propagation over MIR.

Flow-insensitive inside a function (mutable borrows are aliases of what they borrow), summarised per function in
terms of its parameters and instantiated at every call.  A client gives tags to sources, decides what a call does
with the tags of its arguments, and records events whose tags are lifted through the callers to the roots.
"""
from engine import facts as FA

PARAM = 'p'
HANDLES = ('RefMut<', 'cell::Ref<', 'MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'IterMut<', 'ValuesMut<',
           'Entry<', 'Drain<', 'OccupiedEntry', 'VacantEntry')


def isref(ty):
    return ty.startswith('&') or ty.startswith('*') or '&mut ' in ty or any(h in ty for h in HANDLES)


class Fn:
    """one function: its statements as a list of flows"""

    def __init__(self, key, fn, split=None):
        self.key, self.fn = key, fn
        split = split or (lambda f, pl: False)
        self.ty = [l['ty'] for l in fn['locals']]
        self.argc = fn['argc']
        self.parent = list(range(len(self.ty)))
        self.closures = {}
        self.captured = {}
        self.calls = []
        for bi, b in enumerate(fn['blocks']):
            if b.get('cu'):
                continue
            for s in b['s']:
                if s['s'] != '=':
                    continue
                r, d = s['r'], s['p']
                if r['k'] == 'agg' and r.get('kind') == 'closure':
                    self.closures[d['l']] = r.get('inst')
                    self.captured[d['l']] = [o['p']['l'] for o in r.get('ops') or []
                                             if o.get('k') in ('copy', 'move') and '&mut' in self.ty[o['p']['l']]]
                if r['k'] in ('ref', 'rawptr') and (r.get('mut') or r['k'] == 'rawptr') and not d['p'] \
                        and not split(self, r['p']):
                    self.union(d['l'], r['p']['l'])
        again = True
        while again:
            again = False
            for b in fn['blocks']:
                if b.get('cu'):
                    continue
                for s in b['s']:
                    if s['s'] == '=' and s['r']['k'] in ('use', 'ref', 'cast') and not s['p']['p']:
                        a = s['r'].get('a')
                        pl = s['r'].get('p') or (a or {}).get('p')
                        if pl and pl['l'] in self.closures and s['p']['l'] not in self.closures and \
                                'closure' in self.ty[s['p']['l']]:
                            self.closures[s['p']['l']] = self.closures[pl['l']]
                            self.captured[s['p']['l']] = self.captured.get(pl['l'], [])
                            again = True
                        if pl and s['r']['k'] != 'ref' and not split(self, pl) and ('&mut' in self.ty[s['p']['l']]) and \
                                self.find(s['p']['l']) != self.find(pl['l']):
                            self.union(s['p']['l'], pl['l'])
        for bi, b in enumerate(fn['blocks']):
            t = b['t']
            if b.get('cu') or t['k'] != 'call':
                continue
            self.calls.append((bi, t))
            d = t['dest']['l']
            if not t['f'].get('local') and isref(self.ty[d]) and not t['dest']['p']:
                for a in t['args']:
                    if a.get('k') in ('copy', 'move') and not split(self, a['p']):
                        l = a['p']['l']
                        if ('&mut' in self.ty[l] or any(h in self.ty[l] for h in HANDLES)) and self.mutable(self.ty[d]):
                            self.union(d, l)

    @staticmethod
    def mutable(ty):
        return '&mut' in ty or any(h in ty for h in HANDLES)

    def mentions(self, bi):
        """the places a block reads or writes"""
        b = self.fn['blocks'][bi]
        out = []
        for s in b['s']:
            if s['s'] != '=':
                continue
            out.append(s['p'])
            r = s['r']
            ops = [r.get('a'), r.get('b')] + list(r.get('ops') or [])
            out += [o['p'] for o in ops if isinstance(o, dict) and o.get('k') in ('copy', 'move')]
            if isinstance(r.get('p'), dict):
                out.append(r['p'])
        t = b['t']
        if t['k'] == 'call':
            out += [o['p'] for o in t['args'] if o.get('k') in ('copy', 'move')]
        return out

    def find(self, i):
        while self.parent[i] != i:
            self.parent[i] = self.parent[self.parent[i]]
            i = self.parent[i]
        return i

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.parent[a] = b

    def cycle(self, bi, cfg):
        """the block lies on a cycle"""
        seen, work = set(), list(cfg.succ[bi])
        while work:
            x = work.pop()
            if x == bi:
                return True
            if x not in seen:
                seen.add(x)
                work += cfg.succ[x]
        return False


class Call:
    __slots__ = ('fn', 'f', 'name', 'self_ty', 'bi', 't', 'atags', 'atys', 'alocals', 'dty', 'where', 'consts')


class Flow:
    """tags: tuples; ('p', i) stands for whatever the caller passes as argument i"""

    def __init__(self, F):
        self.F = F
        self.fns = {}
        self.sum = {}

    # ---- client interface
    def place(self, fn, pl, read):
        """extra tags of a place (besides those of its base local)"""
        return ()

    def call(self, c, push):
        """tags of the result of a call that is not local, or None for the default; push(event) records an event"""
        return None

    def assign(self, fn, pl, tags, push, sp, handle, bi):
        pass

    def split(self, fn, pl):
        """the place is tracked on its own, apart from the object it is part of"""
        return False

    def const(self, o):
        return ()

    def conv(self, tags, ty):
        return tags

    def filter(self, fn, cls, tags):
        return tags

    def switch(self, fn, tags, push, sp):
        pass

    def binop(self, fn, op, tags, push):
        return tags

    def prepare(self, fn):
        pass

    # ---- analysis
    def get(self, key):
        f = self.fns.get(key)
        if f is None:
            f = self.fns[key] = Fn(key, self.F.fns[key], self.split)
            f.sorted = set()
            self.prepare(f)
        return f

    def reach(self, roots):
        seen, work = [], list(roots)
        done = set()
        while work:
            k = work.pop()
            if k in done or k not in self.F.fns or not self.F.fns[k]['local']:
                continue
            done.add(k)
            seen.append(k)
            f = self.get(k)
            for _, t in f.calls:
                i = t['f'].get('inst')
                if t['f'].get('local') and i:
                    work.append(i)
                work += [f.closures[a['p']['l']] for a in t['args']
                         if a.get('k') in ('copy', 'move') and a['p']['l'] in f.closures]
            for i in f.closures.values():
                work.append(i)
        return seen

    def solve(self, roots):
        ks = self.reach(roots)
        for k in ks:
            self.sum[k] = (frozenset(), {}, frozenset())
        for _ in range(30):
            ch = False
            for k in ks:
                s = self.summarise(k)
                if s != self.sum[k]:
                    self.sum[k] = s
                    ch = True
            if not ch:
                return True
        return False

    def summarise(self, key):
        f = self.get(key)
        fn = f.fn
        n = len(f.ty)
        tags = {}
        for i in range(1, f.argc + 1):
            tags.setdefault(f.find(i), set()).update(self.filter(f, f.find(i), {(PARAM, i)}))
        events = set()

        def lt(l):
            return tags.get(f.find(l), set())

        def rd(pl):
            out = set(self.place(f, pl, True) or ())
            for e in pl['p']:
                if e[0] == 'i':
                    out |= lt(e[1])
            return out | lt(pl['l'])

        def op(o):
            if not o:
                return set()
            if o.get('k') in ('copy', 'move'):
                return rd(o['p'])
            return set(self.const(o) or ())

        for _ in range(40):
            before = {k: len(v) for k, v in tags.items()}, len(events)

            def put(l, t):
                c = f.find(l)
                t = self.filter(f, c, self.conv(t, f.ty[l]))
                if t:
                    tags.setdefault(c, set()).update(t)

            def store(pl, t, sp, bi):
                if pl['p']:
                    self.assign(f, pl, frozenset(t), events.add, sp, frozenset(rd(pl)), bi)
                    if self.split(f, pl):
                        return
                put(pl['l'], t)
            for bi, b in enumerate(fn['blocks']):
                if b.get('cu'):
                    continue
                for s in b['s']:
                    if s['s'] != '=':
                        continue
                    r = s['r']
                    t = set()
                    for k in ('a', 'b'):
                        if isinstance(r.get(k), dict):
                            t |= op(r[k])
                    if isinstance(r.get('p'), dict):
                        t |= rd(r['p'])
                    for o in r.get('ops') or []:
                        t |= op(o)
                    if r['k'] == 'bin':
                        t = self.binop(f, r.get('op'), t, events.add)
                    store(s['p'], set(t), s.get('sp', ''), bi)
                t = b['t']
                if t['k'] == 'switch':
                    self.switch(f, frozenset(op(t['d'])), events.add, t.get('sp', ''))
                elif t['k'] == 'call':
                    self.docall(f, bi, t, op, put, store, events, lt)
            if ({k: len(v) for k, v in tags.items()}, len(events)) == before:
                break
        muts = {}
        for i in range(1, f.argc + 1):
            if Fn.mutable(f.ty[i]):
                x = frozenset(t for t in lt(i) if t != (PARAM, i))
                if x:
                    muts[i] = x
        return frozenset(lt(0)), muts, frozenset(events)

    def inst(self, ts, amap):
        out = set()
        for x in ts:
            if x[0] == PARAM and len(x) == 2:
                out |= amap.get(x[1], set())
            elif x[0] == 'pv':
                out |= {self.demote(y) for y in amap.get(x[1], set())}
            else:
                out.add(x)
        return out

    def demote(self, x):
        return ('pv', x[1]) if x[0] == PARAM else x

    def lift(self, ev, amap):
        """an event is (kind, ..., frozenset tags, ...): instantiate every tag set in it; None drops it"""
        return tuple(frozenset(self.inst(x, amap)) if isinstance(x, frozenset) else x for x in ev)

    def docall(self, f, bi, t, op, put, store, events, lt):
        c = Call()
        c.fn, c.f, c.bi, c.t = f, t['f'], bi, t
        c.name = t['f'].get('name') or ''
        c.self_ty = t['f'].get('impl_self') or ''
        c.atags = [op(a) for a in t['args']]
        c.alocals = [a['p']['l'] if a.get('k') in ('copy', 'move') else None for a in t['args']]
        c.atys = [f.ty[l] if l is not None else a.get('ty', '') for l, a in zip(c.alocals, t['args'])]
        c.dty = t.get('dty', '')
        c.where = '%s (%s)' % (f.fn['path'].split('::', 1)[-1], t.get('sp', ''))
        inst = t['f'].get('inst')
        if t['f'].get('local') and inst in self.sum:
            ret, muts, ev = self.sum[inst]
            amap = {i + 1: x for i, x in enumerate(c.atags)}
            for e in ev:
                e = self.lift(e, amap)
                if e is not None:
                    events.add(e)
            for i, x in muts.items():
                if i - 1 < len(c.alocals) and c.alocals[i - 1] is not None:
                    put(c.alocals[i - 1], self.back(c, c.alocals[i - 1], self.inst(x, amap), False))
            store(t['dest'], self.inst(ret, amap), t.get('sp', ''), bi)
            return
        extra = set()
        allt = set().union(*c.atags) if c.atags else set()
        for l in c.alocals:
            k = f.closures.get(l) if l is not None else None
            if k in self.sum:
                ret, muts, ev = self.sum[k]
                others = set()
                for l2, x in zip(c.alocals, c.atags):
                    if l2 != l:
                        others |= x
                others = self.closure_args(c, others)
                cap = lt(l)
                amap = {1: cap}
                for i in range(2, self.F.fns[k]['argc'] + 1):
                    amap[i] = others
                for e in ev:
                    e = self.lift(e, amap)
                    if e is not None:
                        events.add(e)
                if 1 in muts:
                    for l2 in [l] + f.captured.get(l, []):
                        put(l2, self.back(c, l2, self.inst(muts[1], amap), True))
                extra |= self.inst(ret, amap)
        r = self.call(c, events.add)
        if r is None:
            r = allt | extra
            for l, ty in zip(c.alocals, c.atys):
                if l is not None and '&mut' in ty:
                    put(l, allt)
        else:
            r = set(r) | (extra if self.keep_closure(c) else set())
        store(t['dest'], r, t.get('sp', ''), bi)

    def back(self, c, l, tags, closure):
        """what a call leaves in one of its mutable arguments"""
        return tags

    def closure_args(self, c, tags):
        return tags

    def keep_closure(self, c):
        return False
