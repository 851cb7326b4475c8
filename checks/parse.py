"""P01-P06: the recursive matcher and the entry points of the script parser.

The matcher is the first function of the call-graph cycle reachable from
Parser::parse.  It is analysed as a whole (helpers and closures inlined) with its own
recursive calls, Tree::add_node and VM::execute_instruction as contract operations on
an abstract tape; loops over the elements of a production, the characters of a
terminal and the instructions of a rule are followed per generic element.
"""
from engine import core, models
from engine.core import K, T
from . import tape as TP
from .common import S, run, definite, show, isok, iserr, payload, overflowed

CUR0 = ('in', 'cur0')
RECERR = ('rec-err',)
TREEERR = ('tree-err',)


# ------------------------------------------------------------------ call graph
def callees(fn):
    out = []
    for b in fn.get('blocks') or ():
        for s in b['s']:
            r = s.get('r') or {}
            if r.get('kind') == 'closure' and r.get('inst'):
                out.append(r['inst'])
            for o in [r.get('a'), r.get('b')] + list(r.get('ops') or ()):
                if isinstance(o, dict) and isinstance(o.get('fn'), dict) and o['fn'].get('inst'):
                    out.append(o['fn']['inst'])
        t = b['t']
        if t['k'] == 'call':
            if t['f'].get('inst'):
                out.append(t['f']['inst'])
            for o in t['args']:
                if isinstance(o.get('fn'), dict) and o['fn'].get('inst'):
                    out.append(o['fn']['inst'])
    return out


def matcher(F, start):
    """first function reachable from start that can reach itself through local functions"""
    succ = {}

    def nx(k):
        if k not in succ:
            f = F.fns.get(k)
            succ[k] = [] if f is None else [x for x in callees(f) if x in F.fns]
        return succ[k]

    def reach(k):
        seen, todo = set(), list(nx(k))
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += nx(x)
        return seen
    queue, seen = [start], set()
    while queue:
        k = queue.pop(0)
        if k in seen:
            continue
        seen.add(k)
        f = F.fns.get(k)
        if f is None:
            continue
        if f.get('local') and k in reach(k):
            return k
        queue += nx(k)
    return None


ROLES = (('state', lambda t: '::Tstate' in t),
         ('pp', lambda t: 'ParseProcess<' in t or 'PeekableWrapper<' in t),
         ('parent', lambda t: 'Option<' in t and 'NodeId' in t),
         ('tree', lambda t: t.startswith('&mut') and 'Tree<' in t),
         ('self', lambda t: 'script_parser::Parser<' in t),
         ('el', lambda t: t == 'usize'))


def roles(fn):
    out = []
    for l in fn['locals'][1:fn['argc'] + 1]:
        for n, p in ROLES:
            if p(l['ty']):
                out.append(n)
                break
        else:
            return None
    return out if len(set(out)) == len(out) and {'pp', 'el', 'tree'} <= set(out) else None


# ------------------------------------------------------------------ term shapes
def dot(t, want=None):
    """(base, elem) of a projection term"""
    if isinstance(t, tuple) and len(t) == 3 and t[0] == '.':
        return t[1], t[2]
    return None, None


def is_el(e, kind):
    return isinstance(e, tuple) and e[0] == kind


def dec_rule(t):
    """t = self.<rules>[el]: the key value"""
    b, e = dot(t)
    if not is_el(e, 'e'):
        return None
    b2, f = dot(b)
    if b2 != ('in', 'self') or not isinstance(f, str):
        return None
    return e[1]


def dec_prod(t):
    """t = self.<rules>[el].<table>[key]: (el, key)"""
    b, e = dot(t)
    if not is_el(e, 'e'):
        return None
    b2, f = dot(b)
    if not isinstance(f, str):
        return None
    el = dec_rule(b2)
    return None if el is None else (el, e[1])


def dec_elems(t):
    """t = the element list of a production: (el, key)"""
    b, f = dot(t)
    b2, v = dot(b)
    if not isinstance(f, str) or not is_el(v, 'v') or v[1] != 'NotEmpty':
        return None
    return dec_prod(b2)


def dec_item(t):
    """t = an element of a production: (el, key, index value)"""
    b, x = dot(t)
    if not is_el(x, 'x'):
        return None
    d = dec_elems(b)
    return None if d is None else d + (x[1],)


def dec_info(t):
    """t = self.<elements>[E].<field>: E"""
    b, f = dot(t)
    if not isinstance(f, str):
        return None
    b2, x = dot(b)
    if not is_el(x, 'x') or x[1][0] != 't':
        return None
    b3, f3 = dot(b2)
    if b3 != ('in', 'self') or not isinstance(f3, str):
        return None
    return x[1][1]


def dec_instrs(t):
    """t = self.<rules>[el].<instructions>: el"""
    b, f = dot(t)
    return dec_rule(b) if isinstance(f, str) else None


def term(v):
    return v[1] if v[0] == 't' else None


class Match(TP.Tape):
    """one activation of the matcher"""

    track_head = 0

    def __init__(self, rkey, rolelist, fns):
        super().__init__()
        self.rkey, self.roles = rkey, rolelist
        self.rty = fns[rkey]['locals'][0]['ty']
        self.rpath = fns[rkey]['path']

    def init_ghost(self):
        g = super().init_ghost()
        g.update(first=True, eof0=None, own=None, tm=None, loose=False, lost=False, recerr=False, ran=False,
                 consts=(), extra=False, dirty=None, early=False, treeerr=False)
        return g

    def vio(self, st, I, prop, key, msg):
        if not definite(st):
            self.undec('%s|%s after an unmodelled condition' % (prop, key))
            return
        if overflowed(st):
            return
        self.violation('%s|%s' % (prop, key), msg, I.where(st))

    # ---- the tape: remember the character the activation started with
    def pin(self, st):
        g = st.ghost
        if not g['first']:
            return
        g['first'] = False
        g['eof0'] = g['eof']

        def f(t):
            if t and t[0] == 'e' and len(t) == 2 and core.contains(t[1], TP.LA):
                return ('e', core.subst(t[1], TP.LA, CUR0))
            if len(t) == 4 and t[0] == 'a' and isinstance(t[1], str) and t[1].endswith('::SetMember') \
                    and core.contains(t, TP.LA):
                return core.subst(t, TP.LA, CUR0)
            if len(t) == 4 and t[0] == 'op' and t[1] == 'has' and core.contains(t, TP.LA):
                return core.subst(t, TP.LA, CUR0)
            return None
        TP.tsubst(st, f)

    def consume(self, I, st, c):
        self.pin(st)
        tm = st.ghost['tm']
        if tm is not None and tm[1] == 'run' and tm[2] == 'open':
            st.ghost['tm'] = tm[:2] + ('eaten',) + tm[3:]
        else:
            st.ghost['loose'] = True
        return super().consume(I, st, c)

    def forget(self, st):
        self.pin(st)
        for _ in range(TP.KEEP + 2):
            TP.tsubst(st, TP.shift)
        st.ghost['eof'] = None
        st.ghost['n'] = 'many'

    def keyok(self, st, el, key):
        """is (el, key) the entry this activation has to follow: True False None"""
        g = st.ghost
        eof = g['eof'] if g['first'] else g['eof0']
        if core.opaque(el) or core.opaque(key):
            return None
        if el != S('el'):
            return False
        if key[0] != 'a':
            return None
        if eof is None:
            return False
        if eof:
            return not key[3] and key[2] in ('Terminate', 'None')
        return len(key[3]) == 1 and key[3][0][1] == T(TP.LA if g['first'] else CUR0)

    # ---- iteration
    def classify(self, I, st, it):
        kind, src = it[1], it[2]
        if kind in ('slice', 'rslice', 'vecval', 'rvecval'):
            v = I.deep(st, src)
            t = term(v)
            if t is None:
                return None
            d = dec_elems(t)
            if d is not None:
                return 'el', d
            el = dec_instrs(t)
            if el is not None:
                return 'in', el
            return None
        if kind in ('chars', 'rchars'):
            v = I.deep(st, src)
            E = dec_info(term(v)) if term(v) else None
            if E is not None and dec_item(E):
                return 'ch', E
            return None
        if kind in ('range', 'rrange'):
            lo, hi = src
            if lo == K('int', 0) and hi[0] == 't' and hi[1][0] == 'op' and hi[1][1] == 'len':
                t = term(I.deep(st, hi[1][2]))
                if t is None:
                    return None
                d = dec_elems(t)
                if d is not None:
                    return 'el', d
                el = dec_instrs(t)
                if el is not None:
                    return 'in', el
        return None

    def iter_step(self, I, st, it, c):
        cl = self.classify(I, st, it)
        if cl is None:
            return
        k, d = cl
        g = st.ghost
        if k == 'ch':
            if self.aside(g, it):
                return
            if it[4][0] == 'k':
                g['tm'] = (it[3], 'run', None, d, None)
                if it[1] == 'rchars' or it[4][2] != 0:
                    g['tm'] = (it[3], 'dirty', None, d, None)
                    g['dirty'] = 'its characters are read backwards' if it[1] == 'rchars' else \
                        'its first characters are skipped'
            tm = g['tm']
            if tm is None or tm[0] != it[3]:
                return
            if tm[2] == 'open' and tm[1] == 'run':
                g['tm'] = (tm[0], 'dirty', None, tm[3], None)
                g['dirty'] = 'a character of it is accepted without being read'
            elif tm[2] == 'eaten' and tm[1] == 'run':
                if I.decide(st, I.op_ceq(T(('ch', 1)), tm[4])[1]) is True:
                    g['tm'] = (tm[0], 'run', None, tm[3], None)
                else:
                    g['tm'] = (tm[0], 'dirty', None, tm[3], None)
                    g['dirty'] = 'a character of it is accepted without being equal to the one read'
            return
        if k in ('el', 'in'):
            self.settle(I, st, k, it[3])

    def aside(self, g, it):
        """another walk over the characters while one of them is being matched (for the text of an error, say)"""
        tm = g['tm']
        return tm is not None and tm[0] != it[3] and tm[1] == 'run' and tm[2] in ('open', 'eaten')

    def settle(self, I, st, k, site):
        """the current item of a loop is finished"""
        g = st.ghost
        e = g.get((k, site))
        if e is None or e[2] is None:
            return
        s3, s4, fl, ended, order, _ = e
        if k == 'el':
            if 'match' not in fl and 'rec' not in fl and self.empty_terminal(I, st, site):
                fl = fl | {'match'}
            if 'tstart' in fl and 'match' not in fl and not g['dirty']:
                g['dirty'] = 'not all of its characters were read'
            p3 = 'match' in fl or 'rec' in fl
            p4 = 'rec' in fl or 'leaf' in fl
        else:
            p3 = p4 = 'run' in fl
        g[(k, site)] = (adv(s3, p3), adv(s4, p4), None, ended, order, None)

    def empty_terminal(self, I, st, site):
        for t, f in st.facts.items():
            if t[0] == 'iv' and f[1] == 0 and len(t[1]) == 1 and t[1][0][1] == 1:
                a = t[1][0][0]
                if a[0] == 'op' and a[1] in ('len', 'nchars'):
                    E = dec_info(term(a[2])) if a[2][0] == 't' else None
                    if E is not None and core.contains(E, ('m', site, 'cur')):
                        return E
        return None

    def iter_next(self, I, st, it, item, c):
        cl = self.classify(I, st, it)
        if cl is None:
            return
        k, d = cl
        g = st.ghost
        if k == 'ch':
            tm = g['tm']
            if self.aside(g, it):
                return
            if tm is not None and tm[0] == it[3]:
                g['tm'] = tm[:2] + ('open', tm[3], I.deep(st, item))
            self.flag(I, st, d, 'tstart', dup=True)
            return
        e = g.get((k, it[3])) or ('start', 'start', None, False, it[1], None)
        if it[4][0] == 'k':
            if e[3]:        # a second pass over the same loop
                e = ('start' if e[0] in ('none', 'start') else e[0], e[1], None, False, e[4], None)
        if it[1][0] == 'r' and it[1] != 'range':
            e = e[:4] + ('rev', None)
        start = it[4][1] if it[4][0] == 'after' else it[4]
        if start[0] == 'k' and start[2] != 0:
            e = e[:4] + ('skip', None)
        g[(k, it[3])] = e[:2] + (frozenset(),) + e[3:5] + (T(('m', it[3], 'cur')),)
        if k == 'el':
            self.check_key(I, st, d)
            self.late(I, st)

    def late(self, I, st):
        """an element is processed: no instruction may have been executed yet"""
        if st.ghost['early']:
            st.ghost['early'] = False
            self.vio(st, I, 'P05', 'early', 'an instruction is executed before all elements of the rule are matched')

    def check_key(self, I, st, d):
        ok = self.keyok(st, d[0], d[1])
        if ok is False:
            self.vio(st, I, 'P03', 'selection', 'the elements matched are those of a production other than the one the '
                     'control table selects for the next character (%s)' % show(d[1]))
        elif ok is None:
            st.ghost['lost'] = True

    def iter_end(self, I, st, it, c):
        cl = self.classify(I, st, it)
        if cl is None:
            return
        k, d = cl
        g = st.ghost
        if k == 'ch':
            tm = g['tm']
            if self.aside(g, it):
                return
            if tm is not None and tm[0] == it[3] and tm[1] == 'run' and tm[2] is None:
                self.ob('terminals matched character by character')
                self.flag(I, st, d, 'match')
            g['tm'] = None
            return
        e = g.get((k, it[3])) or ('start', 'start', None, False, it[1], None)
        start = it[4][1] if it[4][0] == 'after' else it[4]
        if start[0] == 'k' and start[2] != 0 and it[1] not in ('range', 'rrange'):
            e = e[:4] + ('skip', None)
        g[(k, it[3])] = e[:3] + (True,) + e[4:]

    def flag(self, I, st, E, what, dup=False):
        """element E of the production has been processed; E is a term"""
        d = dec_item(E)
        g = st.ghost
        if d is None:
            g['lost'] = True
            return
        self.check_key(I, st, d[:2])
        ix = d[2]
        self.late(I, st)
        if ix[0] == 'k':
            if (ix[2], what) in g['consts'] and not dup:
                self.vio(st, I, 'P03', 'twice', 'an element of the production is processed twice')
            g['consts'] = tuple(sorted(set(g['consts']) | {(ix[2], what)}))
            return
        if ix[0] == 't' and ix[1][0] == 'm' and ix[1][2] == 'cur':
            site = ix[1][1]
            e = g.get(('el', site))
            if e is not None and e[2] is not None:
                if what in e[2] and not dup:
                    self.vio(st, I, 'P04' if what == 'leaf' else 'P03', 'twice',
                             'an element of the production is processed twice')
                g[('el', site)] = e[:2] + (e[2] | {what},) + e[3:]
                return
        g['lost'] = True

    # ---- calls
    def call(self, I, st, c):
        g = st.ghost
        if g['recerr'] and (c.name in ('execute_instruction', 'add_node') or c.f.get('inst') == self.rkey):
            self.vio(st, I, 'P05' if c.name == 'execute_instruction' else 'P03', 'after-failure',
                     'the matcher goes on (%s) although an element failed' % c.name)
        if c.name == 'execute_instruction':
            return self.execute(I, st, c)
        if c.name == 'add_node' and c.impl_self.split('<')[0].endswith('::Tree'):
            return self.add_node(I, st, c)
        return super().call(I, st, c)

    def complete(self, I, st):
        """have all elements of the production been matched: True False None"""
        g = st.ghost
        var = None
        for k, v in st.facts.items():
            if k[0] == 'var' and dec_prod(k[1]) is not None and v in ('Empty', 'NotEmpty'):
                d = dec_prod(k[1])
                if self.keyok(st, *d):
                    var = (k[1], v)
                elif self.keyok(st, *d) is False and not g['lost']:
                    self.vio(st, I, 'P03', 'selection', 'the production followed is not the one the control table '
                             'selects for the next character (%s)' % show(d[1]))
                    return True
        if var is None:
            return None if g['lost'] else False
        if var[1] == 'Empty':
            return True
        X = ('.', ('.', var[0], ('v', 'NotEmpty')), '0')
        if I.decide(st, I.ieq(T(('op', 'len', T(X))), K('int', 0))[1]) is True:
            return True
        sites = [(k, e) for k, e in g.items() if isinstance(k, tuple) and k[0] == 'el']
        done = [e for k, e in sites if e[3] and e[2] is None and e[0] in ('all', 'start')]
        busy = [e for k, e in sites if e[0] in ('all', 'some')]
        if done and len(busy) <= 1 and not g['consts']:
            if any(e[4] == 'skip' for e in done + busy):
                return False
            if done[0][4] == 'rev' or any(e[4] == 'rev' for e in busy):
                self.vio(st, I, 'P03', 'order', 'the elements of a production are matched in reverse order')
            return True
        if g['consts'] and not busy:
            n = 1 + max(i for i, _ in g['consts'])
            full = all((i, 'rec') in g['consts'] or (i, 'match') in g['consts'] for i in range(n))
            r = I.decide(st, I.ieq(T(('op', 'len', T(X))), K('int', n))[1]) if full else False
            return None if r is None or (r is False and g['lost']) else r
        if g['lost'] or g['consts']:
            return None
        return False

    def execute(self, I, st, c):
        g = st.ghost
        # roles of the arguments by trait signature: self, tree, node, instruction, state
        vm, tree, node, ins, state = (list(c.args) + [None] * 5)[:5]
        self.ob('instruction executions')
        t = term(I.deep(st, ins))
        b, x = dot(t) if t else (None, None)
        el = dec_instrs(b) if is_el(x, 'x') else None
        if t is None or core.opaque(t):
            g['lost'] = True
        elif el is None or el != S('el'):
            self.vio(st, I, 'P05', 'foreign', 'an instruction is executed that does not belong to the matched rule (%s)'
                     % show(T(t)))
        else:
            ix = x[1]
            ok = False
            if ix[0] == 't' and ix[1][0] == 'm' and ix[1][2] == 'cur':
                e = g.get(('in', ix[1][1]))
                if e is not None and e[2] is not None:
                    if 'run' in e[2]:
                        self.vio(st, I, 'P05', 'twice', 'an instruction is executed twice')
                    g[('in', ix[1][1])] = e[:2] + (e[2] | {'run'},) + e[3:]
                    ok = True
            elif ix[0] == 'k':
                i = ix[2]
                if (i, 'run') in g['consts']:
                    self.vio(st, I, 'P05', 'twice', 'an instruction is executed twice')
            if not ok:
                g['lost'] = True
        n = I.deep(st, node)
        if not core.opaque(n) and g['own'] is not None and n != g['own']:
            self.vio(st, I, 'P05', 'node', 'an instruction is executed on a node other than that of the match')
        s = I.deep(st, state)
        if not core.opaque(s) and s != S('state') and 'state' in self.roles:
            self.vio(st, I, 'P05', 'state', 'an instruction is executed on a state other than the caller\'s')
        done = self.complete(I, st)
        if done is False:
            g['early'] = True
        g['ran'] = True
        if c.t.get('dty') == '()':
            return [(st, core.UNIT)]
        return [(st, T(('opq', 'exec')))]

    def add_node(self, I, st, c):
        g = st.ghost
        self.ob('nodes created')
        data, parent = I.deep(st, c.args[1]), I.deep(st, c.args[2])
        m = I.mint(st, ('node', c.site))
        node = T(m)
        own = g['own']
        if core.opaque(parent):
            g['lost'] = True
        elif own is None and parent == S('parent') and (data == ('str', ()) or core.opaque(data)):
            if core.opaque(data):
                g['lost'] = True
            g['own'] = node
        elif own is None and parent == S('parent'):
            self.vio(st, I, 'P04', 'text', 'the node of a rule carries %s instead of the empty text' % show(data))
            g['own'] = node
        elif own is None:
            self.vio(st, I, 'P04', 'parent', 'the node of a match is put under %s instead of the given parent' % show(parent))
            g['own'] = node
        else:
            if parent != core.Some(own):
                self.vio(st, I, 'P04', 'parent', 'a node is put under %s instead of the node of the match' % show(parent))
            E = dec_info(term(data)) if term(data) else None
            if data == ('str', ()):
                for k, e in list(g.items()):
                    if isinstance(k, tuple) and k[0] == 'el' and e[2] is not None:
                        E = E or self.empty_terminal(I, st, k[1])
            if E is not None and dec_item(E):
                self.flag(I, st, E, 'leaf')
                for k, e in list(g.items()):
                    if isinstance(k, tuple) and k[0] == 'el' and e[2] is not None and 'match' not in e[2] \
                            and self.empty_terminal(I, st, k[1]) == E:
                        self.flag(I, st, E, 'match')
            elif core.opaque(data) or core.has_tag(data, ('seg', 'ch', 'wid')):
                g['lost'] = True
            else:
                g['extra'] = True
                self.vio(st, I, 'P04', 'text', 'a node is created whose text is %s, not that of a terminal' % show(data))
        bad = st.copy()
        bad.ghost['recerr'] = bad.ghost['treeerr'] = True
        return [(st, core.Ok(node)), (bad, core.Err(T(TREEERR)))]

    # ---- panics
    def panic(self, I, st, kind, c):
        """a panic that does not need a broken table, a failing tree or a text beyond usize::MAX"""
        if kind.startswith('Overflow'):
            return
        self.ob('panicking operations on feasible paths')
        if st.ghost['treeerr'] or missing_element(st):
            return
        if any(f is False and x[0] == 'b' and x[1][0] == 'op' and x[1][1] in ('has', 'exists') and not of_table(x[1])
               for x, f in st.facts.items()):
            return
        if kind in ('index', 'key'):
            a = [I.deep(st, x) for x in c.args]
            if any(core.opaque(x) for x in a):
                self.undec('P09|index not followed')
                return
            if not any(core.has_tag(x, ('la', 'ch', 'seg', 'now', 'ago')) for x in a):
                return
        self.vio(st, I, 'P09', 'matcher|' + kind, 'the matcher can panic on a script (%s in %s)' % (
            kind, self.fname(c)))

    def fname(self, c):
        return str(c.name)

    def recursion(self, I, st, c):
        if c.f.get('inst') != self.rkey:
            return None
        g = st.ghost
        self.ob('recursive matches')
        a = dict(zip(self.roles, c.args))
        el = I.deep(st, a['el'])
        if core.opaque(el):
            g['lost'] = True
        elif el[0] == 't' and dec_item(el[1]):
            self.flag(I, st, el[1], 'rec')
            et = None
            for k, v in st.facts.items():
                if k[0] == 'var' and dec_info(k[1]) == el[1]:
                    et = v
            if et == 'Terminal':
                self.vio(st, I, 'P03', 'kind', 'a terminal element is matched as a rule')
        else:
            self.vio(st, I, 'P03', 'element', 'a rule is matched recursively (%s) that is no element of the production '
                     'followed' % show(el))
        if 'parent' in a:
            p = I.deep(st, a['parent'])
            if core.opaque(p):
                g['lost'] = True
            elif g['own'] is None or p != core.Some(g['own']):
                self.vio(st, I, 'P04', 'parent', 'an element is matched under %s instead of the node of the match' % show(p))
        if 'state' in a:
            s = I.deep(st, a['state'])
            if not core.opaque(s) and s != S('state'):
                self.vio(st, I, 'P05', 'state', 'an element is matched with another state than the caller\'s')
        self.forget(st)
        bad = st.copy()
        bad.ghost['recerr'] = True
        okv = core.UNIT if 'Result<(),' in self.rty.replace(' ', '') else T(('opq', 'rec-ok'))
        return [(st, core.Ok(okv)), (bad, core.Err(T(RECERR)))]

    # ---- exits
    def ret(self, I, st, v):
        v = I.deep(st, v)
        g = st.ghost
        if iserr(v):
            return self.failed(I, st, I.deep(st, payload(v)))
        if not isok(v):
            self.undec('result not followed')
            return
        self.ob('successful exits')
        if g['recerr']:
            self.vio(st, I, 'P03', 'swallowed', 'the matcher succeeds although one of its elements failed')
            return
        done = self.complete(I, st)
        if done is None:
            self.undec('elements of the production not followed')
        elif done is False:
            why = g['dirty']
            ts = g['tm'] is not None or why or any(
                isinstance(k, tuple) and k[0] == 'el' and e[2] and 'tstart' in e[2] for k, e in g.items())
            if g['loose']:
                self.undec('a terminal is matched in a way that is not followed')
            elif ts:
                self.vio(st, I, 'P01', 'partial', 'a terminal is accepted although %s' % (
                    why or 'not all of its characters were read'))
            else:
                self.vio(st, I, 'P03', 'elements', 'the matcher succeeds although not every element of the selected '
                         'production was matched')
        elif g['loose']:
            self.vio(st, I, 'P01', 'extra', 'characters are consumed that belong to no terminal of the production')
        if g['own'] is None and not g['lost']:
            self.vio(st, I, 'P04', 'no-node', 'a rule is matched without a node for it')
        if done is True and not g['lost'] and not g['consts']:
            for k, e in g.items():
                if isinstance(k, tuple) and k[0] == 'el' and e[0] == 'all' and e[1] != 'all':
                    self.vio(st, I, 'P04', 'leaf', 'a terminal is matched without a node for it')
        self.instructions(I, st)

    def instructions(self, I, st):
        g = st.ghost
        sites = [e for k, e in g.items() if isinstance(k, tuple) and k[0] == 'in']
        done = [e for e in sites if e[3] and e[2] is None and e[0] in ('all', 'start')]
        busy = [e for e in sites if e[0] in ('all', 'some')]
        if done and len(busy) <= 1:
            if any(e[4] == 'skip' for e in done + busy):
                self.vio(st, I, 'P05', 'skipped', 'the first instructions of a rule are skipped')
            if any(e[4] == 'rev' for e in busy):
                self.vio(st, I, 'P05', 'order', 'the instructions of a rule are executed in reverse order')
            return
        if len(busy) > 1:
            self.vio(st, I, 'P05', 'twice', 'instructions of a rule are executed by more than one loop')
            return
        for k, f in st.facts.items():
            if k[0] == 'iv' and f[1] == 0 and len(k[1]) == 1 and k[1][0][0][0] == 'op' and k[1][0][0][1] == 'len':
                t = term(k[1][0][0][2])
                if t and dec_instrs(t) is not None:
                    return
        if g['lost']:
            self.undec('instructions not followed')
            return
        self.vio(st, I, 'P05', 'skipped', 'a matched rule returns without executing all of its instructions')

    def failed(self, I, st, e):
        g = st.ghost
        self.ob('failing exits')
        if g['ran']:
            self.vio(st, I, 'P05', 'failed-rule', 'instructions are executed for a rule that fails to match')
        if core.contains(e, RECERR) or core.contains(e, TREEERR):
            return
        if g['recerr']:
            return
        k = find_err(e)
        if k is None:
            if core.opaque(e):
                self.undec('error not followed')
                return
            if any(f is False and x[0] == 'b' and x[1][0] == 'op' and x[1][1] in ('has', 'exists')
                   for x, f in st.facts.items()):
                return
            if missing_element(st):
                return
            if g['lost']:
                self.undec('failing exit not followed')
                return
            self.vio(st, I, 'P03', 'spurious', 'the matcher fails with %s although nothing failed to match' % show(e))
            return
        name, fs = k
        miss = [x for x, f in st.facts.items() if f is False and x[0] == 'b' and x[1][0] == 'op' and x[1][1] == 'has']
        tm = g['tm']
        pend = tm is not None and tm[2] is not None and tm[1] == 'run'
        prop = 'P01' if pend else 'P03'
        pos = TP.poslin(I, I.deep(st, fs['pos'])) if 'pos' in fs else None
        if not pend:
            if not miss:
                if g['lost'] or g['loose'] or tm is not None:
                    self.undec('failing exit not followed')
                    return
                self.vio(st, I, 'P03', 'spurious', 'the matcher fails although the control table selects a production and '
                         'no element failed')
                return
            if g['n'] != 0:
                self.vio(st, I, 'P03', 'consumed', 'characters are consumed although no production is selected')
                return
            if self.miss_ok(st, miss) is False:
                self.vio(st, I, 'P03', 'selection', 'the production is looked up with something other than the rule and '
                         'the next character')
        eaten = pend and tm[2] == 'eaten'
        if 'chr' in fs:
            chv = I.deep(st, fs['chr'])
            want = T(('ch', 1)) if eaten else T(TP.LA)
            wpos = (((TP.NOW, 1),), -1 if eaten else 0)
            if core.opaque(chv) or core.opaque(pos or ()):
                self.undec('error content not followed')
                return
            if chv != want and I.decide(st, I.op_ceq(chv, want)[1]) is not True:
                self.vio(st, I, prop, 'error-char', 'the error names %s instead of the character read' % show(chv))
                return
            if not eaten and g['eof'] is not False:
                self.vio(st, I, prop, 'error-char', 'the error names a character that was not looked at')
            if pos != wpos:
                self.vio(st, I, prop, 'error-pos', 'the error gives position %s for the offending character' % showpos(pos))
            if pend:
                src = tm[4]
                r = I.decide(st, I.op_ceq(want, src)[1])
                if r is not False:
                    self.vio(st, I, 'P01', 'refused', 'a terminal is refused although the next character %s' % (
                        'is the expected one' if r else 'may be the expected one'))
        else:
            if g['eof'] is not True:
                if eaten:
                    self.undec('end of characters after a read')
                    return
                self.vio(st, I, prop, 'error-eof', 'the end of the characters is reported although there may be more')
            elif pos is not None and not core.opaque(pos) and pos != (((TP.NOW, 1),), 0):
                self.vio(st, I, prop, 'error-pos', 'the end of the characters is reported at position %s' % showpos(pos))

    def miss_ok(self, st, miss):
        for x in miss:
            m, key = x[1][2], x[1][3]
            t = m[1] if m[0] == 't' else m
            el = dec_rule(t[1]) if isinstance(t, tuple) and t and t[0] == '.' else None
            if el is not None:
                return self.keyok(st, el, key)
            b, f = dot(t)
            if b == ('in', 'self') and key == S('el'):
                return True
        return None


def missing_element(st):
    """the element index is outside of the element table"""
    for k, f in st.facts.items():
        if k[0] == 'iv' and len(k[1]) == 2:
            ts = [t for t, _ in k[1]]
            if any(t[0] == 'op' and t[1] == 'len' for t in ts) and any(dec_item(t) for t in ts):
                s = 1 if dec_item(k[1][0][0]) else -1
                lo, hi = f[0], f[1]
                if (lo is None or lo < 0) if s * k[1][0][1] > 0 else (hi is None or hi > 0):
                    continue
                return True
    return False


def find_err(e):
    """(variant, fields) of the character error inside an error value"""
    if e[0] != 'a':
        return None
    fs = dict(e[3])
    if 'chr' in fs or (e[2] and 'EndOfChars' in e[2]):
        return e[2], fs
    for _, x in e[3]:
        r = find_err(x)
        if r:
            return r
    return None


def adv(s, ok):
    if s == 'start':
        return 'all' if ok else 'none'
    if s == 'all':
        return 'all' if ok else 'some'
    if s == 'none':
        return 'some' if ok else 'none'
    return 'some'


def showpos(l):
    if l is None:
        return '?'
    return ' + '.join(['%s%s' % ('' if c == 1 else '%d*' % c, show(t)) for t, c in l[0]] + [str(l[1])])


class Sub:
    """take over the results of one property from a shared client"""
    def __init__(self, pid):
        self.pid = pid

    def __call__(self, cl):
        cl.violations = {k: v for k, v in cl.violations.items() if k.startswith(self.pid + '|')}
        cl.undecided = {k: v for k, v in cl.undecided.items() if '|' not in k or k.startswith(self.pid + '|')}


def match(F, rep, pid):
    entry = rep.anchor(F, 'Parser::parse', name='parse', self_ty='script_parser::Parser')
    if entry is None:
        return None
    R = matcher(F, entry)
    rl = roles(F.fns[R]) if R else None
    if rl is None:
        rep.undec('no recursive matcher with known parameter roles below Parser::parse')
        return None
    cl = Match(R, rl, F.fns)
    flt = Sub(pid)
    old = rep.merge

    def merge(client, interp, root):
        flt(client)
        old(client, interp, root)
    rep.merge = merge
    run(rep, F, cl, R, [S(x) for x in rl], ghost=cl.init_ghost())
    rep.merge = old
    return R


def p01(F, rep):
    rep.rule('inside one activation of the matcher every character of a terminal is paired with exactly one consumed, '
             'equal character before the element counts as matched; nothing else is consumed; mismatch errors carry '
             'the differing character and its position')
    match(F, rep, 'P01')
    rep.floor('terminals matched character by character', 1)


def p03(F, rep):
    rep.rule('typestate of one activation: the production is the table entry of (rule, next character); a loop over its '
             'elements runs to its end forwards and matches each exactly once before any Ok exit; failures propagate')
    match(F, rep, 'P03')
    rep.floor('recursive matches', 1)


def p04(F, rep):
    rep.rule('typestate of one activation: one node with empty text under the given parent, then per element one child '
             'under that node (the recursive match or a node with the terminal text), nothing else')
    match(F, rep, 'P04')
    rep.floor('nodes created', 2)


def p05(F, rep):
    rep.rule('typestate of one activation: after all elements are matched a forward loop over the instructions of the '
             'rule executes each exactly once on the node of the match and the given state; none on a failing exit')
    match(F, rep, 'P05')
    rep.floor('instruction executions', 1)


def of_table(x):
    """a look-up in the control table of a rule, as opposed to one of the rule itself"""
    m = x[2]
    t = m[1] if m[0] == 't' else m
    return isinstance(t, tuple) and bool(t) and t[0] == '.' and dec_rule(t[1]) is not None


# ------------------------------------------------------------------ entry points
RTREE = T(('rtree',))


class Entry(TP.Tape):
    """Parser::parse around one contract call of the matcher"""
    track_head = 0

    def __init__(self, rkey, rolelist):
        super().__init__()
        self.rkey, self.roles = rkey, rolelist
        self.starts = []

    def init_ghost(self):
        g = super().init_ghost()
        g.update(r=0, err=False, lost=False)
        return g

    def vio(self, st, I, key, msg):
        if not definite(st):
            self.undec('%s after an unmodelled condition' % key)
            return
        if overflowed(st):
            return
        self.violation(key, msg, I.where(st))

    def call(self, I, st, c):
        if c.name in ('new', 'new_nested') and c.impl_self.split('<')[0].endswith('::ParseProcess') \
                and c.f.get('inst') != self.rkey:
            self.view(I, st, c)
            return None
        if c.f.get('inst') == self.rkey:
            return self.matched(I, st, c)
        return super().call(I, st, c)

    def view(self, I, st, c):
        a = [I.deep(st, x) for x in c.args]
        self.ob('views on the script')
        src = find_chars(a[0])
        if src is None or core.opaque(src[0]):
            st.ghost['lost'] = True
        elif src[0] != S('text') or src[1] != K('int', 0):
            self.vio(st, I, 'P02|text', 'the text parsed is %s, not the whole script' % show(src[0]))
        for x, n in ((a[1], 'stop'), (a[2], 'escape')):
            if x != core.NONE:
                if core.opaque(x):
                    st.ghost['lost'] = True
                elif n == 'stop':
                    self.vio(st, I, 'P02|stop', 'the script is read only up to the stop character %s' % show(x))
        if c.name == 'new_nested' and len(a) > 3 and a[3] != K('int', 0) and not core.opaque(a[3]):
            self.vio(st, I, 'P02|position', 'positions in the script start at %s' % show(a[3]))

    def matched(self, I, st, c):
        g = st.ghost
        a = dict(zip(self.roles, c.args))
        self.ob('start rule matches')
        if g['r']:
            self.vio(st, I, 'P02|twice', 'more than one rule is matched at the top level')
        if g['n'] not in (0,):
            self.vio(st, I, 'P02|skipped', 'characters are skipped before the start rule')
        g['r'] = 1
        self.starts.append((st.copy(), I.deep(st, a['el'])))
        if 'parent' in a:
            p = I.deep(st, a['parent'])
            if p != core.NONE and not core.opaque(p):
                self.vio(st, I, 'P02|parent', 'the start rule is matched under %s instead of as the root' % show(p))
        if 'state' in a:
            s = I.deep(st, a['state'])
            if s != S('state') and not core.opaque(s):
                self.vio(st, I, 'P02|state', 'the start rule is matched with another state than the caller\'s')
        t = I.deep(st, a['tree'])
        if t[0] == 'a':
            for n, x in t[3]:
                if x[0] == 'vec' and x[2]:
                    self.vio(st, I, 'P02|tree', 'the tree is not empty when the start rule is matched')
        for _ in range(TP.KEEP + 2):
            TP.tsubst(st, TP.shift)
        st.ghost['eof'] = None
        st.ghost['n'] = 0
        tr = a['tree']
        if tr[0] == 'r':
            I.write(st, tr[1], RTREE, None, False)
        bad = st.copy()
        bad.ghost['err'] = True
        return [(st, core.Ok(core.UNIT)), (bad, core.Err(T(RECERR)))]

    def ret(self, I, st, v):
        v = I.deep(st, v)
        g = st.ghost
        if isok(v):
            self.ob('accepting exits')
            if not g['r']:
                self.vio(st, I, 'P02|unmatched', 'a script is accepted without matching the start rule')
                return
            if g['err']:
                self.vio(st, I, 'P02|swallowed', 'a script is accepted although the start rule failed')
                return
            if g['lost']:
                self.undec('view on the script not followed')
                return
            if g['eof'] is not True:
                self.vio(st, I, 'P02|rest', 'a script is accepted with characters left over')
                return
            if g['n'] != 0:
                self.vio(st, I, 'P02|skipped', 'characters after the start rule are skipped')
            t = I.deep(st, payload(v))
            if t != RTREE and not core.opaque(t):
                self.vio(st, I, 'P02|result', 'the tree returned is %s, not that of the match' % show(t))
            return
        if not iserr(v):
            self.undec('result not followed')
            return
        self.ob('refusing exits')
        e = I.deep(st, payload(v))
        if not g['r'] or g['err']:
            return
        k = find_err(e)
        if k is None or 'chr' not in k[1]:
            if core.opaque(e):
                self.undec('error not followed')
            elif g['eof'] is True:
                self.vio(st, I, 'P02|refused', 'a script matched as a whole is refused')
            else:
                self.vio(st, I, 'P02|error', 'left over text is refused with %s' % show(e))
            return
        chv = I.deep(st, k[1]['chr'])
        n = g['n']
        if n not in (0, 1):
            self.undec('error not followed')
            return
        want = T(('ch', 1)) if n else T(TP.LA)
        pos = TP.poslin(I, I.deep(st, k[1]['pos']))
        if core.opaque(chv) or core.opaque(pos):
            self.undec('error content not followed')
        elif g['eof'] is True and not n:
            self.vio(st, I, 'P02|refused', 'a script matched as a whole is refused')
        elif chv != want:
            self.vio(st, I, 'P02|error-char', 'the error names %s instead of the first character left over' % show(chv))
        elif pos != (((TP.NOW, 1),), -n):
            self.vio(st, I, 'P02|error-pos', 'the error gives position %s for the first character left over' % showpos(pos))

    def panic(self, I, st, kind, c):
        if definite(st) and not kind.startswith('Overflow'):
            self.vio(st, I, 'P02|panic', 'parse panics (%s)' % kind)


def find_chars(v):
    """(source, position) of the character iterator inside a value"""
    if isinstance(v, tuple):
        if len(v) == 5 and v[0] == 'it' and v[1] in ('chars', 'rchars'):
            return (v[2] if v[1] == 'chars' else T(('op', 'reversed', v[2]))), v[4]
        for x in v:
            r = find_chars(x)
            if r is not None:
                return r
    return None


def p02(F, rep):
    rep.rule('typestate of Parser::parse around a contract call of the matcher: the view covers the whole text without '
             'stop character, exactly one match at the root, every Ok exit after the view reported its end')
    entry = rep.anchor(F, 'Parser::parse', name='parse', self_ty='script_parser::Parser')
    if entry is None:
        return
    R = matcher(F, entry)
    rl = roles(F.fns[R]) if R else None
    if rl is None:
        rep.undec('no recursive matcher with known parameter roles below Parser::parse')
        return
    cl = Entry(R, rl)
    run(rep, F, cl, entry, [S('self'), S('text'), S('state')], ghost=cl.init_ghost())
    rep.floor('accepting exits', 1)


def p09(F, rep):
    rep.rule('no feasible path through Parser::parse, through one activation of the matcher or through the character '
             'view reaches a panicking operation, given the tables of a parser that was built')
    from . import view
    R = match(F, rep, 'P09')
    entry = F.one(name='parse', self_ty='script_parser::Parser')
    rl = roles(F.fns[R]) if R else None
    if rl is not None:
        cl = Entry(R, rl)
        old = rep.merge

        def merge(client, interp, root):
            client.violations = {'P09|parse|' + k.split('|')[1]: v for k, v in client.violations.items()
                                 if k == 'P02|panic'}
            old(client, interp, root)
        rep.merge = merge
        run(rep, F, cl, entry, [S('self'), S('text'), S('state')], ghost=cl.init_ghost())
        rep.merge = old
    view.panics(F, rep)


class Build(core.Client):
    """the constructors, with the analyses of other properties as contract operations"""
    def __init__(self):
        super().__init__()
        self.out, self.follow = [], []

    def call(self, I, st, c):
        n = c.name
        if n == 'parse_rules' and c.args and c.args[0][0] == 'r':
            root, proj = c.args[0][1]
            v = I.read(st, c.args[0][1])
            if v[0] == 'a':
                for f, x in v[3]:
                    if x[0] == 'a' and str(x[1]).endswith('::ParserData'):
                        I.write(st, (root, proj + (f,)), T(('parsed',)), None, False)
            return [(st, core.Ok(core.UNIT))]
        if n == 'get_element_nt_index':
            a = I.deep(st, c.args[1])
            return [(st, core.Some(T(('ntix', a))))]
        if n == 'get_elements_verbose':
            return [(st, T(('elements', I.deep(st, c.args[0]))))]
        if n == 'get_follow_sets':
            self.follow.append((st.copy(), I.deep(st, c.args[0])))
        if n in ('get_first_sets', 'get_follow_sets', 'get_steuermaps'):
            return [(st, core.Ok(T(('ctr', n))))]
        return None

    def ret(self, I, st, v):
        self.out.append((st, v))


def entails_start(F, facts, nameof):
    """do the facts say that the element whose field terms satisfy nameof is the non-terminal start"""
    name = et = False
    for k, v in facts:
        if k[0] == 'b' and v is True and k[1][0] == 'op' and k[1][1] == 'eq':
            for a, b in ((k[1][2], k[1][3]), (k[1][3], k[1][2])):
                if a == ('str', (('lit', 'start'),)) and b[0] == 't' and nameof(b[1]):
                    name = True
        if k[0] == 'var' and nameof(k[1]) and v == 'NonTerminal':
            et = True
        if k[0] == 'iv' and len(k[1]) == 1 and k[1][0][0][0] == 'discr' and nameof(k[1][0][0][1]):
            info = F.adts.get(k[1][0][0][2]) or {'variants': []}
            for x in info['variants']:
                if x['name'] == 'NonTerminal' and v[0] == v[1] == int(x['discr']):
                    et = True
    return name, et


def p06(F, rep):
    rep.rule('symbolic composition of every constructor with Parser::parse: the element handed to the matcher and to the '
             'FOLLOW computation is the requested start rule, or the non-terminal named start when none was requested')
    entry = rep.anchor(F, 'Parser::parse', name='parse', self_ty='script_parser::Parser')
    ctors = {n: rep.anchor(F, 'Parser::' + n, name=n, self_ty='script_parser::Parser')
             for n in ('new_from_text', 'new_from_parser_data', 'new')}
    if entry is None or None in ctors.values():
        return
    R = matcher(F, entry)
    rl = roles(F.fns[R]) if R else None
    if rl is None:
        rep.undec('no recursive matcher with known parameter roles below Parser::parse')
        return
    args = {'new_from_text': [S('text0'), S('vm')], 'new_from_parser_data': [S('data'), S('start'), S('vm')],
            'new': [S('tables'), S('elements'), S('vm')]}
    for n, key in sorted(ctors.items()):
        b = Build()
        run(rep, F, b, key, args[n])
        explicit = n == 'new_from_parser_data'
        for st, a in b.follow:
            rep.ob('FOLLOW computations')
            if core.opaque(a) or not definite(st):
                rep.undec('%s: start of the FOLLOW computation not followed' % n)
            elif explicit and a != S('start'):
                rep.violation('P06|%s|follow' % n, '%s computes the FOLLOW sets for %s instead of the requested start rule'
                              % (n, show(a)), n)
            elif not explicit and a != T(('ntix', ('str', (('lit', 'start'),)))):
                rep.violation('P06|%s|follow' % n, '%s computes the FOLLOW sets for %s instead of the rule named start'
                              % (n, show(a)), n)
        if not b.out:
            rep.undec('%s does not return' % n)
        for st, v in b.out:
            if not definite(st):
                rep.undec('%s not followed' % n)
                continue
            cl = Entry(R, rl)
            mem = {r: x for r, x in st.mem.items() if r[0] in ('S', 'H', 'P')}
            mem[('S', ('in', 'self'))] = v
            sub = Quiet(rep)
            run(sub, F, cl, entry, [S('self'), S('text'), S('state')], label='%s; parse' % n, ghost=cl.init_ghost(),
                facts=dict(st.facts), mem=mem)
            if 'P02|panic' in cl.panics:
                rep.violation('P06|%s|missing' % n, 'after %s a missing start rule makes parse panic' % n, n)
            for s, el in cl.starts:
                rep.ob('start rules compared')
                bad = wrong_start(F, s, el, explicit)
                if bad is None:
                    rep.undec('%s: start rule not followed' % n)
                elif bad and not definite(s):
                    rep.undec('%s: start rule not followed' % n)
                elif bad:
                    rep.violation('P06|%s|start' % n, 'after %s parsing starts at %s' % (n, bad), n)
    rep.floor('start rules compared', 3)


def wrong_start(F, s, el, explicit):
    """'' when right, None when not followed, otherwise a description"""
    if explicit:
        if el == S('start'):
            return ''
        if core.opaque(el) and not core.has_tag(el, ('position',)):
            return None
        return '%s instead of the requested rule' % short(el)
    if el == T(('ntix', ('str', (('lit', 'start'),)))):
        return ''
    t = term(el)
    if t is not None and t[0] == 'op' and t[1] == 'position':
        src = t[2]
        if core.opaque(src):
            return None
        for facts, _ in t[3]:
            name, et = entails_start(F, facts, lambda x: isinstance(x, tuple) and x[0] == '.' and x[1] == ('citem',))
            if not name:
                return 'the first element that satisfies another condition than being named start'
            if not et:
                return 'the first element named start even if it is a terminal'
        return ''
    if t is not None and t[0] == 'm':
        def nameof(x):
            return isinstance(x, tuple) and x[0] == '.' and isinstance(x[1], tuple) and x[1][0] == '.' \
                and x[1][2] == ('x', el)
        name, et = entails_start(F, s.facts.items(), nameof)
        if name and et:
            return ''
        return None
    if core.opaque(el):
        return None
    if el[0] == 'k' and any(k[0] == 'b' and v is True and k[1][0] == 'op' and k[1][1] == 'eq'
                            and ('str', (('lit', 'start'),)) in k[1][2:4] for k, v in s.facts.items()):
        return None     # a counter kept beside the loop
    if el == S('start') or el[0] == 'k' or (t is not None and t[0] in ('in', 'ntix', 'lin')):
        return '%s instead of the rule named start' % show(el)
    return None


def short(el):
    t = term(el)
    return 'the rule named start' if t is not None and t[0] == 'op' and t[1] == 'position' else show(el)


class Quiet:
    """keep coverage numbers but not the findings of another property"""
    def __init__(self, rep):
        self.rep = rep
        self.notes = rep.notes

    def merge(self, client, I, root):
        client.panics = set(client.violations)
        client.violations = {}
        self.rep.merge(client, I, root)
