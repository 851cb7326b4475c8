"""P08: what survives a parse.

Persistent locations are the fields of the parser and of the built-in machines, and statics (thread locals
included).  A location that parsing writes with something other than a memo of the parser itself, and that parsing
also reads, makes a parse depend on the ones before.
"""
import re
from .flow import Flow, Fn, PARAM

CELLS = ('Cell<', 'Atomic<', 'Mutex<', 'RwLock<', 'OnceLock<', 'LazyLock<', 'LocalKey<', 'UnsafeCell<')
MUT = re.compile(r"&('\w+ )?mut |\*mut ")
GUARD = ('RefMut<', 'MutexGuard', 'RwLockWriteGuard', 'IterMut<', 'ValuesMut<', 'Entry<', 'OccupiedEntry', 'VacantEntry')
KEEPS = {'deref_mut', 'as_mut', 'get_mut', 'iter_mut', 'values_mut', 'as_mut_slice', 'borrow_mut', 'index_mut', 'entry',
         'last_mut', 'first_mut', 'next', 'by_ref', 'reserve', 'shrink_to_fit', 'as_deref_mut', 'unwrap', 'expect', 'drop',
         'into_iter', 'unwrap_or_else', 'unwrap_or_default', 'branch', 'from_residual', 'ok_or', 'ok_or_else', 'ok',
         'split_at_mut', 'fmt', 'from_mut', 'borrow', 'key', 'into_mut', 'and_then', 'map', 'with_capacity', 'chunks_mut'}
REMOVES = {'remove', 'pop', 'clear', 'drain', 'truncate', 'retain', 'split_off', 'pop_front', 'pop_back', 'swap_remove',
           'remove_entry', 'pop_first', 'pop_last', 'dedup'}
SETS = {'set', 'store', 'replace', 'take', 'clear', 'swap'}
SINKCALLS = ('_print', '_eprint', 'panic_fmt', 'begin_panic', 'panic_display')


def handle_type(ty):
    return bool(MUT.search(ty)) or any(g in ty for g in GUARD) or any(c in ty for c in CELLS)


class Persist(Flow):
    def __init__(self, F, owners):
        super().__init__(F)
        self.owners = owners
        self.statics = {s['path']: s for s in F.statics if isinstance(s, dict)}
        self.promoted = {}

    # ---- locations
    def owner(self, ty):
        ty = ty.lstrip('&').replace('mut ', '', 1).strip() if ty.startswith('&') else ty
        for o in self.owners:
            if ty == o or ty.startswith(o + '<'):
                return o
        return None

    def field(self, fn, pl):
        o = self.owner(fn.ty[pl['l']])
        if o is None:
            return None
        p = [e for e in pl['p'] if e[0] != '*']
        if p and p[0][0] == 'f':
            return ('%s.%s' % (o.split('::')[-1], p[0][2]))
        return None

    def place(self, fn, pl, read):
        x = self.field(fn, pl)
        return {('loc', x)} if x else ()

    def split(self, fn, pl):
        return self.field(fn, pl) is not None

    def const(self, o):
        s = o.get('static')
        if s and (s not in self.statics or self.statics[s]['mut'] or not self.statics[s]['freeze']):
            return {('loc', 'static ' + s.split('::', 1)[-1])}
        it = o.get('item')
        if it and 'LocalKey<' in o.get('ty', ''):
            return {('loc', 'static ' + it.split('::', 1)[-1])}
        k = o.get('promoted')
        if k and k in self.F.fns:
            if k not in self.promoted:
                self.promoted[k] = set()
                for b in self.F.fns[k]['blocks']:
                    for st in b['s']:
                        if st['s'] == '=':
                            for x in [st['r'].get('a'), st['r'].get('b')] + list(st['r'].get('ops') or []):
                                if isinstance(x, dict) and x.get('k') == 'const':
                                    self.promoted[k] |= set(self.const(x) or ())
            return self.promoted[k]
        return ()

    def demote(self, x):
        if x[0] == 'loc':
            return ('val', x[1])
        return super().demote(x)

    def conv(self, tags, ty):
        if handle_type(ty):
            return tags
        return {self.demote(x) for x in tags}

    # ---- events: ('write', handle tags, kind, place, value tags, key tags, key type), ('sink', tags)
    def lift(self, ev, amap):
        e = super().lift(ev, amap)
        if ev[0] == 'write' and not any(x[0] in ('loc', PARAM) for x in e[1]):
            return None
        if ev[0] == 'sink' and not e[1]:
            return None
        return e

    def write(self, push, handle, kind, fn, bi, vals, keys=frozenset(), keyty=''):
        handle = frozenset(x for x in handle if x[0] in ('loc', PARAM))
        if handle:
            push(('write', handle, kind, (fn.key, bi), frozenset(vals), frozenset(keys), keyty))

    def assign(self, fn, pl, tags, push, sp, handle, bi):
        own = self.field(fn, pl)
        if own:
            handle = {('loc', own)}
        elif not any(e[0] == '*' for e in pl['p']):
            return
        self.write(push, handle, 'assign', fn, bi, tags)

    def switch(self, fn, tags, push, sp):
        if tags:
            push(('sink', frozenset(tags)))

    def call(self, c, push):
        n, st = c.name, c.self_ty
        h = c.atags[0] if c.atags else set()
        rest = set().union(*c.atags[1:]) if len(c.atags) > 1 else set()
        if c.f.get('kind') == 'unresolved' or n in SINKCALLS:
            t = set().union(*c.atags) if c.atags else set()
            if c.f.get('local') and n in ('execute_instruction', 'parse_instructions') or n in SINKCALLS:
                push(('sink', frozenset(self.conv(t, ''))))
            return None
        if st.startswith('core::sync::atomic') or '::cell::' in st or '::LocalKey' in st or '::OnceLock' in st \
                or '::LazyLock' in st or '::LazyCell' in st:
            if n in ('get_or_init', 'get_or_try_init', 'force', 'call_once'):
                self.write(push, h, 'init', c.fn, c.bi, rest)
            elif n in ('set', 'store', 'replace', 'take', 'swap', 'update', 'replace_with') or n.startswith('compare_exchange') \
                    or n.startswith('fetch_'):
                v = rest | ({self.demote(x) for x in h} if n.startswith('fetch_') or n == 'update' else set())
                self.write(push, h, 'set' if n in SETS else 'change', c.fn, c.bi, v)
            return h | rest
        if c.f.get('trait', '').startswith('core::iter') or n in KEEPS:
            return None
        for i, (ty, tg) in enumerate(zip(c.atys, c.atags)):
            if not (MUT.search(ty) or any(g in ty for g in GUARD)) or not any(x[0] in ('loc', PARAM) for x in tg):
                continue
            oth = set().union(*[x for j, x in enumerate(c.atags) if j != i], set())
            if n == 'insert' and ('map' in st.lower()) and len(c.atags) == 3:
                self.write(push, tg, 'insert', c.fn, c.bi, c.atags[2], c.atags[1], c.atys[1])
            elif n.startswith('or_insert') or n in ('and_modify', 'or_default', 'insert_entry'):
                self.write(push, tg, 'insert', c.fn, c.bi, oth, (), '?')
            elif n in REMOVES:
                self.write(push, tg, 'remove', c.fn, c.bi, ())
            else:
                self.write(push, tg, n if n in ('take', 'replace', 'swap') else 'change', c.fn, c.bi, oth)
        return None

    def keep_closure(self, c):
        return True


def dominated(fl, key, bi, others):
    """every path of the function to one of the blocks `others` runs through block bi"""
    cfg = fl.F.cfg(key)
    if bi == 0:
        return True
    seen, work = {0}, [0]
    while work:
        x = work.pop()
        if x != bi and x in others:
            return False
        if x == bi:
            continue
        for y in cfg.succ[x]:
            if y not in seen:
                seen.add(y)
                work.append(y)
    return True


def owners(F):
    out = []
    for k, f in F.fns.items():
        if f['local'] and f['name'] == 'execute_instruction' and f.get('impl_self'):
            out.append(f['impl_self'].split('<')[0])
    return out


def shortty(p):
    return p.split('::', 1)[1] if '::' in p else p


def p08(F, rep):
    rep.rule('effects of every function reachable from parsing on the fields of the parser and of the built-in machines, and '
             'of every public function on statics: a persistent location that is written with something other than a memo '
             'of the parser, not reset first, and read again is a violation')
    parse = rep.anchor(F, 'Parser::parse', name='parse', self_ty='script_parser::Parser')
    if parse is None:
        return
    vms = sorted({shortty(x) for x in owners(F)})
    fl = Persist(F, ['script_parser::Parser'] + vms)
    execs = [k for k in F.roots if k in F.fns and F.fns[k]['local'] and F.fns[k]['name'] == 'execute_instruction' and '#p' not in k]
    pubs = [k for k in F.roots if k in F.fns and F.fns[k]['local'] and '#p' not in k and
            (F.fns[k].get('pub') or F.fns[k].get('impl_trait'))]
    # callees of type-erased calls: trait methods of the machines are reached through execs
    if not fl.solve(pubs + [parse] + execs):
        rep.undec('effects: no fixpoint')
        return
    rep.functions |= {F.fns[k]['path'] for k in fl.sum}
    rep.states += sum(len(f.ty) for f in fl.fns.values())
    rep.ob('functions summarised', len(fl.sum))
    rep.ob('statics', len([s for s in F.statics if s['mut'] or not s['freeze']]))
    for phase, roots in (('parse', [parse] + execs), ('static', pubs)):
        writes, sunk, direct = {}, {}, set()
        for r in roots:
            ret, muts, evs = fl.sum[r]
            rep.roots.append(F.fns[r]['path'])
            amap = {i: {('root', r, i)} for i in range(1, F.fns[r]['argc'] + 1)}
            for ts in [ret] + list(muts.values()):
                for x in ts:
                    if x[0] in ('loc', 'val'):
                        sunk.setdefault(x[1], F.fns[r]['path'])
            for e in evs:
                e = tuple(frozenset(fl.inst(x, amap)) if isinstance(x, frozenset) else x for x in e)
                if e[0] == 'sink':
                    for x in e[1]:
                        if x[0] in ('loc', 'val'):
                            sunk.setdefault(x[1], F.fns[r]['path'])
                else:
                    rep.ob('effects through handles')
                    for x in e[1]:
                        if x[0] == 'loc' and (phase == 'parse') != x[1].startswith('static '):
                            writes.setdefault(x[1], set()).add(e)
        for L in sorted(writes):
            rep.ob('persistent locations written')
            judge(F, fl, rep, L, writes[L], sunk.get(L), parse)


def judge(F, fl, rep, L, ws, read, parse):
    if read is None:
        return
    static = L.startswith('static ')
    bad = []
    for _, h, kind, (fk, bi), vals, keys, keyty in [(None,) + e[1:] for e in ws]:
        vals = {x for x in vals if not (x[0] in ('loc', 'val') and x[1].startswith('static ') and x[1] != L)}
        mine = {x for x in vals if x[0] in ('loc', 'val') and x[1].startswith('Parser.') and x[1] != L}
        foreign = {x for x in vals if x[0] == 'root' and not isself(F, x)}
        if kind == 'init':
            if static and (vals or mine) or foreign:
                bad.append((kind, fk))
            continue
        if kind == 'insert':
            if not static:
                rep.undec('a table kept by the parser')
                continue
            kp = {x for x in keys if x[0] in ('loc', 'val') and x[1].startswith('Parser.')}
            if mine and (not kp or 'str' not in keyty.lower()):
                bad.append((kind, fk))
            elif not mine:
                rep.undec('a table kept in a static')
            continue
        if not static and mine and not foreign and kind in ('assign', 'set', 'replace'):
            rep.ob('memos of the parser itself')
            continue
        bad.append((kind, fk))
    if not bad:
        return
    # reset at the start of every parse (or of the function that uses it)
    for e in ws:
        kind, (fk, bi), vals = e[2], e[3], e[4]
        if vals or kind not in ('assign', 'set', 'remove', 'take', 'replace'):
            continue
        others = set()
        for e2 in ws:
            if e2[3][0] == fk and e2[3][1] != bi:
                others.add(e2[3][1])
        if fk == parse:
            for b2, t in fl.get(fk).calls:
                i = t['f'].get('inst')
                if t['f'].get('local') and i in fl.sum and writes_to(fl, i, L, {x[3][0] for x in ws}):
                    others.add(b2)
        elif any(e2[3][0] != fk for e2 in ws):
            continue
        if others and dominated(fl, fk, bi, others):
            rep.undec('scratch location reset before use')
            return
    for kind, fk in sorted(set(bad), key=str):
        rep.violation('%s|%s|%s' % (L, kind, F.fns[fk]['path'].split('::', 1)[-1]),
                      '%s changes %s, which outlives the parse and is read again' % (F.fns[fk]['path'].split('::', 1)[-1], L),
                      F.fns[fk]['sp'])


def isself(F, x):
    return x[2] == 1 and F.fns[x[1]]['name'] == 'parse'


def writes_to(fl, key, L, fks):
    """the function reaches one that writes the location"""
    seen, work = set(), [key]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        if k in fks:
            return True
        f = fl.fns.get(k)
        if f:
            work += [t['f'].get('inst') for _, t in f.calls if t['f'].get('local') and t['f'].get('inst') in fl.sum]
            work += [x for x in f.closures.values() if x in fl.sum]
    return False
