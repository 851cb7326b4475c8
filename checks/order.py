"""P07: nothing that is returned depends on the order in which a hash container is walked, on time, or on addresses."""
from .flow import Flow, Fn, PARAM
from .persist import MUT

HASH = ('HashMap', 'HashSet', 'hash_map::', 'hash_set::', 'hash::map::', 'hash::set::')
WALKS = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'difference',
         'union', 'intersection', 'symmetric_difference', 'extract_if'}
UNORDERED = ('HashMap<', 'HashSet<', 'BTreeMap<', 'BTreeSet<', 'BinaryHeap<')
TOTAL = {'count', 'len', 'is_empty', 'sum', 'product', 'min', 'max', 'all', 'any', 'contains', 'contains_key', 'is_subset',
         'is_superset', 'is_disjoint', 'eq', 'ne', 'get', 'get_mut', 'remove', 'size_hint', 'capacity', 'insert'}
UNSURE = {'find', 'find_map', 'position', 'filter', 'fold', 'try_fold', 'reduce', 'max_by', 'min_by', 'max_by_key', 'min_by_key',
          'partition', 'rfind', 'try_for_each', 'for_each', 'skip_while', 'take_while', 'filter_map', 'map_while', 'is_sorted',
          'binary_search', 'retain', 'flat_map'}
PICKS = {'last', 'nth', 'take', 'skip', 'step_by', 'enumerate', 'zip', 'next_back', 'nth_back', 'scan'}
PUSHES = {'push', 'push_str', 'push_back', 'extend', 'write_str', 'write_fmt', 'write_char', 'add_assign', 'extend_from_slice',
          'append', 'insert_str'}
SORTS = {'sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key'}
CLOCKS = ('std::time::', 'std::env::', 'std::process::id', 'std::thread::current', 'std::thread::id', 'RandomState',
          'std::fs::', 'std::io::stdin')


SCALARS = ('usize', 'u8', 'u32', 'u64', 'i32', 'i64', 'char', 'isize', 'u16', 'i8')


PARTS = {'len', 'count', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'chars', 'first', 'last',
         'nth', 'starts_with', 'ends_with', 'is_empty'}
SHOWS = ('new_debug', 'new_display', 'fmt')


def owned(ty):
    return not ty.startswith(('&', '*'))


def loops(cfg):
    """natural loops: the blocks of each"""
    n = len(cfg.succ)
    color, back = [0] * n, []
    stack = [(0, iter(cfg.succ[0]))]
    color[0] = 1
    while stack:
        u, it = stack[-1]
        for v in it:
            if color[v] == 1:
                back.append((u, v))
            elif color[v] == 0:
                color[v] = 1
                stack.append((v, iter(cfg.succ[v])))
                break
        else:
            color[u] = 2
            stack.pop()
    heads = {}
    for u, h in back:
        body = heads.setdefault(h, {h})
        work = [u]
        while work:
            x = work.pop()
            if x not in body:
                body.add(x)
                work += cfg.pred[x]
    return list(heads.values())


def hashy(ty):
    return any(h in ty for h in HASH)


class Order(Flow):
    def __init__(self, F, rep):
        super().__init__(F)
        self.rep = rep
        self.sites = set()
        self.preparing = set()

    def prepare(self, f):
        """which aliases get sorted as a whole, by a total order"""
        f.sorts = []
        self.preparing.add(f.key)
        for bi, t in f.calls:
            n = t['f'].get('name')
            if n in SORTS and not t['f'].get('local'):
                a = t['args'][0]
                if a.get('k') in ('copy', 'move') and not self.partial(f, t):
                    f.sorts.append((bi, f.find(a['p']['l'])))
            elif t['f'].get('local') and t['f'].get('inst') in self.F.fns and t['f']['inst'] not in self.preparing:
                g = self.get(t['f']['inst'])
                for i, a in enumerate(t['args']):
                    if a.get('k') in ('copy', 'move') and g.ty[i + 1].startswith('&mut') and g.find(i + 1) in g.sorted:
                        f.sorts.append((bi, f.find(a['p']['l'])))
        self.preparing.discard(f.key)
        f.cfg = self.F.cfg(f.key)
        f.reach = {}
        for bi, c in f.sorts:
            after = self.after(f, bi)
            if not any(t['f'].get('name') in PUSHES and b in after and bi not in self.after(f, b) and
                       t['args'][0].get('k') in ('copy', 'move') and f.find(t['args'][0]['p']['l']) == c
                       for b, t in f.calls):
                f.sorted.add(c)
        f.loops = loops(f.cfg)

    def after(self, f, bi):
        r = f.reach.get(bi)
        if r is None:
            r, work = set(), list(f.cfg.succ[bi])
            while work:
                x = work.pop()
                if x not in r:
                    r.add(x)
                    work += f.cfg.succ[x]
            f.reach[bi] = r
        return r

    def fresh(self, f, l, bi):
        """the object is made anew in every turn of the innermost loop around the block"""
        ls = [x for x in f.loops if bi in x]
        if not ls:
            return False
        lp = min(ls, key=len)
        c = f.find(l)
        for b in lp:
            if b == bi:
                continue
            for s in f.fn['blocks'][b]['s']:
                if s['s'] == '=' and not s['p']['p'] and f.find(s['p']['l']) == c and owned(f.ty[s['p']['l']]) and \
                        s['r']['k'] in ('use', 'agg') and not self.selfread(f, s['r'], c):
                    return True
            t = f.fn['blocks'][b]['t']
            if t['k'] == 'call' and not t['dest']['p'] and f.find(t['dest']['l']) == c and owned(f.ty[t['dest']['l']]) and \
                    not any(a.get('k') in ('copy', 'move') and f.find(a['p']['l']) == c for a in t['args']):
                return True
        return False

    @staticmethod
    def selfread(f, r, c):
        return any(isinstance(o, dict) and o.get('k') in ('copy', 'move') and f.find(o['p']['l']) == c
                   for o in [r.get('a')] + list(r.get('ops') or []))

    def partial(self, f, t):
        """the sort compares only a part of the items (their length)"""
        for a in t['args'][1:]:
            k = f.closures.get(a['p']['l']) if a.get('k') in ('copy', 'move') else None
            if k in self.F.fns:
                names = {b['t']['f'].get('name') for b in self.F.fns[k]['blocks'] if b['t']['k'] == 'call'}
                if names & PARTS and not names & {'then', 'then_with', 'clone', 'to_owned', 'to_string'}:
                    return True
            elif a.get('k') == 'const' and 'fn' in a and a['fn'].get('name') in PARTS:
                return True
        return False

    def filter(self, f, cls, tags):
        if cls in f.sorted:
            return {('ps', x[1]) if x[0] == PARAM else x for x in tags if x[0] != 'seq'}
        return tags

    def inst(self, ts, amap):
        out = super().inst({x for x in ts if x[0] != 'ps'}, amap)
        for x in ts:
            if x[0] == 'ps':
                out |= {('ps', y[1]) if y[0] == PARAM else y for y in amap.get(x[1], ()) if y[0] != 'seq'}
        return out

    def back(self, c, l, tags, closure):
        items = {x for x in tags if x[0] == 'item'}
        f = c.fn
        if not items or not f.ty[l].replace('&mut ', '').startswith(('std::string::String', 'std::vec::Vec')):
            return tags
        tr = c.f.get('trait') or ''
        if closure and tr.startswith('core::iter') or f.cycle(c.bi, f.cfg) and not self.fresh(f, l, c.bi):
            return tags - items | {('seq',) + x[1:] for x in items}
        return tags

    def closure_args(self, c, tags):
        return {('item',) + x[1:] if x[0] == 'ord' else x for x in tags}

    def conv(self, tags, ty):
        if ty in ('()', 'bool') or ty.startswith(('std::cmp::Ordering',)):
            return {x for x in tags if x[0] not in ('ord', 'item', 'seq')} if ty != '()' else ()
        if ty.lstrip('&').replace('mut ', '') in SCALARS:
            return {x for x in tags if x[0] not in ('ord', 'seq')}
        return tags

    def place(self, f, pl, read):
        return ()

    def demote(self, x):
        return x

    def sink(self, push, tags, what):
        t = frozenset(x for x in tags if x[0] in ('seq', 'arb', 'nondet', 'ps', PARAM))
        if t:
            push(('sink', t, what))

    def lift(self, ev, amap):
        e = super().lift(ev, amap)
        return e if e[1] else None

    def switch(self, fn, tags, push, sp):
        t = {x for x in tags if x[0] in ('arb', 'nondet')}
        self.sink(push, t, 'a decision')

    def const(self, o):
        return ()

    def call(self, c, push):
        n, st = c.name, c.self_ty
        at = c.atags
        allt = set().union(*at) if at else set()
        a0 = at[0] if at else set()
        vp = c.f.get('vpath') or ''
        if any(x in vp for x in CLOCKS) and not n.startswith(('new', 'default', 'build_hasher', 'clone')) or \
                n in ('build_hasher', 'hash_one') and 'RandomState' in (vp + st):
            return {('nondet', vp)}
        if n == 'from_size_align' or 'fmt::Pointer' in vp or n == 'new_pointer':
            return allt | ({('nondet', 'address')} if n == 'new_pointer' else set())
        tr = c.f.get('trait', '') or ''
        if n in SHOWS and c.atys:
            out = {('seq',) + x[1:] if x[0] == 'ord' else x for x in allt}
            if hashy(c.atys[0]) and not any(x[0] == 'ord' for x in a0) and not c.f.get('local'):
                out.add(('seq', c.fn.fn['path'], n, walked(c.atys[0])))
            return out
        if c.fn.cycle(c.bi, c.fn.cfg) and (c.dty.endswith('string::String') or c.dty.startswith('std::vec::Vec')) and \
                n not in PUSHES - {'add'}:
            items = {x for x in allt if x[0] == 'item'}
            if items and self.accumulates(c):
                return allt - items | {('seq',) + x[1:] for x in items}
        if n in WALKS and c.atys and hashy(c.atys[0]) and not (n == 'into_iter' and 'Iterator' in st) and \
                not any(x[0] == 'ord' for x in a0):
            site = (c.fn.fn['path'], n, walked(c.atys[0]))
            if site not in self.sites:
                self.sites.add(site)
                self.rep.ob('walks over hash containers')
            return {('ord',) + site} | {x for x in allt if x[0] != 'ord'}
        if n in ('next',) and any(x[0] == 'ord' for x in a0):
            rest = {x for x in a0 if x[0] != 'ord'}
            loop = c.fn.cycle(c.bi, c.fn.cfg)
            return rest | {(('item' if loop else 'arb'),) + x[1:] for x in a0 if x[0] == 'ord'}
        if tr.startswith('core::iter') or n in PICKS | UNSURE | TOTAL or n == 'collect':
            if n in PICKS:
                return {(('arb',) + x[1:]) if x[0] in ('ord', 'seq') and (x[0] == 'ord' or n not in ('enumerate', 'zip'))
                        else x for x in allt}
            if n in TOTAL or n in UNSURE:
                if n in ('fold', 'try_fold') and (c.dty.endswith('string::String') or c.dty.startswith('std::vec::Vec')):
                    return {('seq',) + x[1:] if x[0] == 'ord' else x for x in allt}
                if n == 'insert':
                    return self.inserted(c, push)
                if n == 'filter' or n == 'filter_map' or n == 'flat_map':
                    return allt
                return {x for x in allt if x[0] not in ('ord', 'item', 'seq')} if n not in ('get', 'get_mut') else \
                    self.getters(c, allt)
            if n == 'collect' or n in ('from_iter', 'join', 'concat'):
                if any(u in c.dty for u in UNORDERED) and 'Vec<' not in c.dty.split('HashMap<')[0].split('HashSet<')[0]:
                    return {x for x in allt if x[0] not in ('ord', 'item', 'seq')}
                return {('seq',) + x[1:] if x[0] == 'ord' else x for x in allt}
            if n == 'extend':
                return self.pushed(c, push)
            if n in ('into_iter', 'map', 'cloned', 'copied', 'by_ref', 'peekable', 'chain', 'rev', 'next', 'peek', 'inspect',
                     'fuse', 'cycle', 'flatten'):
                return allt
            return None
        if n in ('or_insert', 'or_insert_with') and hashy(st + c.atys[0]):
            v = {('arb',) + x[1:] for x in at[1] if x[0] == 'item'}
            if v and not any(x[0] == 'item' for x in a0):
                for l in c.alocals[:1]:
                    self._put(l, v)
            return {x for x in allt if x[0] != 'item'}
        if n in PUSHES and (c.fn.cycle(c.bi, c.fn.cfg) or '{closure' in c.fn.fn['path']):
            return self.pushed(c, push)
        if n in ('_print', '_eprint'):
            t = {x for x in allt if x[0] != 'nondet'}
            self.sink(push, t, 'printed output')
            return set()
        if c.f.get('kind') == 'unresolved' and n == 'execute_instruction':
            self.sink(push, allt, 'an instruction')
        if n in SORTS:
            return set()
        if c.atys and any(MUT.search(t) and hashy(t) and not 'iter' in t.lower() for t in c.atys):
            return {x for x in allt if x[0] not in ('item', 'seq', 'ord')} | \
                {x for x in a0 if x[0] in ('item', 'seq', 'ord')}
        return None

    def accumulates(self, c):
        """the result goes on to be an ingredient of the same call"""
        f = c.fn
        want = {f.find(l) for l in c.alocals if l is not None}
        have, work = set(), [f.find(c.t['dest']['l'])]
        edges = self.edges(f)
        while work:
            x = work.pop()
            if x in have:
                continue
            have.add(x)
            work += edges.get(x, ())
        return bool(have & want)

    def edges(self, f):
        e = getattr(f, 'edges_', None)
        if e is None:
            e = f.edges_ = {}

            def add(a, d):
                if isinstance(a, dict) and a.get('k') in ('copy', 'move'):
                    e.setdefault(f.find(a['p']['l']), set()).add(f.find(d['l']))
            for b in f.fn['blocks']:
                if b.get('cu'):
                    continue
                for s in b['s']:
                    if s['s'] == '=':
                        r = s['r']
                        for o in [r.get('a'), r.get('b')] + list(r.get('ops') or []):
                            add(o, s['p'])
                        if isinstance(r.get('p'), dict):
                            add({'k': 'copy', 'p': r['p']}, s['p'])
                t = b['t']
                if t['k'] == 'call':
                    for a in t['args']:
                        add(a, t['dest'])
        return e

    def getters(self, c, allt):
        """a look-up by a key is as determined as the container"""
        return c.atags[0] | {x for t in c.atags[1:] for x in t if x[0] in ('arb', 'nondet', 'ps', PARAM)}

    def inserted(self, c, push):
        if len(c.atags) == 3 and hashy(c.self_ty + c.atys[0]):
            k, v = c.atags[1], c.atags[2]
            lost = {x[1:] for x in v if x[0] == 'item'} - {x[1:] for x in k if x[0] == 'item'}
            if lost and not c.f.get('local'):
                self._put(c.alocals[0], {('arb',) + x for x in lost if not any(y[0] == 'item' for y in k)})
        elif 'Vec' in c.self_ty or 'String' in c.self_ty:
            return self.pushed(c, push)
        return set()

    def pushed(self, c, push):
        t = set().union(*c.atags[1:]) if len(c.atags) > 1 else set()
        if hashy(c.atys[0]) or any(u in c.atys[0] for u in UNORDERED):
            self._put(c.alocals[0], {x for x in t if x[0] in ('arb', 'nondet', 'ps', PARAM)})
            return set()
        f = c.fn
        up = '{closure' in f.fn['path'] and c.alocals[0] is not None and f.find(c.alocals[0]) == f.find(1)
        loop = up or f.cycle(c.bi, f.cfg) and c.alocals[0] is not None and not self.fresh(c.fn, c.alocals[0], c.bi)
        out = set()
        for x in t:
            if x[0] == 'item' and loop or x[0] == 'ord':
                out.add(('seq',) + x[1:])
            else:
                out.add(x)
        self._put(c.alocals[0], out)
        return set()

    def docall(self, f, bi, t, op, put, store, events, lt):
        self._put = lambda l, ts: put(l, ts) if l is not None else None
        super().docall(f, bi, t, op, put, store, events, lt)

    def keep_closure(self, c):
        return c.name in ('map', 'map_or', 'map_or_else', 'and_then', 'unwrap_or_else', 'then', 'filter_map', 'flat_map')


def walked(ty):
    for h in ('HashMap', 'HashSet'):
        i = ty.find(h)
        if i >= 0:
            return ty[i:i + 60]
    return ty[:60]


SETUP = ('get_first_sets', 'get_follow_sets', 'get_steuermaps', 'get_steuer_sets')


def p07(F, rep):
    rep.rule('taint from every walk over a hash container to the results of the public functions: what is picked by position, '
             'collected or pushed in that order must be sorted by a total order or end in an unordered container; no clock, '
             'environment, address or random hasher decides anything')
    parse = rep.anchor(F, 'Parser::parse', name='parse', self_ty='script_parser::Parser')
    if parse is None:
        return
    fl = Order(F, rep)
    roots = [k for k in F.roots if k in F.fns and F.fns[k]['local'] and '#p' not in k and
             (F.fns[k].get('pub') or F.fns[k]['name'] == 'execute_instruction') and
             'test_helpers' not in F.fns[k]['path'] and F.fns[k]['name'] != 'fmt' and
             (not F.fns[k].get('impl_trait') or F.fns[k]['name'] in ('execute_instruction', 'parse_instructions'))]
    if not fl.solve(roots):
        rep.undec('taint: no fixpoint')
        return
    rep.functions |= {F.fns[k]['path'] for k in fl.sum}
    rep.ob('functions summarised', len(fl.sum))
    rep.states += sum(len(f.ty) for f in fl.fns.values())
    seen = set()
    for r in roots:
        ret, muts, evs = fl.sum[r]
        rep.roots.append(F.fns[r]['path'])
        outs = [('what %s returns' % F.fns[r]['name'], ret)] + [('what %s leaves behind' % F.fns[r]['name'], m)
                                                               for m in muts.values()]
        outs += [(e[2], e[1]) for e in evs]
        for what, ts in outs:
            rep.ob('results followed')
            for x in sorted(ts, key=str):
                if x[0] in ('seq', 'arb', 'nondet') and x not in seen:
                    seen.add(x)
                    if x[0] == 'nondet':
                        rep.violation('nondet|%s' % x[1], '%s depends on %s' % (what, x[1]), F.fns[r]['path'])
                    else:
                        rep.violation('%s|%s' % (x[0], x[1].split('::', 1)[-1]),
                                      '%s depends on the order of %s in %s' % (what, x[3], x[1].split('::', 1)[-1]), x[1])
