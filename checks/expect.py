"""P10: what a syntax error says would have been accepted."""
from engine import core, loops, models
from engine.core import T
from . import parse
from .common import S, run, definite, iserr, payload, show

WRAP = ('join', 'sorted', 'sorted_by', 'rev', 'reversed', 'concat_all')
ERR = ('t', ('rec-error',))


class Expect(core.Client):
    """one activation of the matcher in which no production is selected"""
    summarise = True

    def __init__(self, rkey, rolelist):
        super().__init__()
        self.rkey, self.roles = rkey, rolelist

    def call(self, I, st, c):
        if c.name == 'execute_instruction':
            return [(st, core.UNIT if c.t.get('dty') == '()' else T(('opq', 'exec')))]
        if c.name == 'add_node' and c.impl_self.split('<')[0].endswith('::Tree'):
            if any(f and x[0] == 'b' and x[1][:2] == ('op', 'has') and parse.of_table(x[1]) for x, f in st.facts.items()):
                return []                       # a production is selected: not followed further
            bad = st.copy()
            return [(st, core.Ok(T(I.mint(st, ('node', c.site))))), (bad, core.Err(T(('tree-error',))))]

    def recursion(self, I, st, c):
        if c.f.get('inst') == self.rkey:
            return []

    def bad(self, I, st, key, msg):
        if definite(st):
            self.violation(key, 'the error of a rule no production of which fits ' + msg, I.where(st))
        else:
            self.undec(key)

    def ret(self, I, st, v):
        v = I.deep(st, v)
        if not iserr(v):
            return
        k = parse.find_err(I.deep(st, payload(v)))
        if k is None or 'chr' not in k[1]:
            return
        miss = [x for x, f in st.facts.items()
                if f is False and x[0] == 'b' and x[1][0] == 'op' and x[1][1] == 'has' and parse.of_table(x[1])]
        if len(miss) != 1:
            return
        text = [x for n, x in k[1].items() if n not in ('chr', 'pos')]
        if len(text) != 1:
            return self.undec('parts of the error')
        self.ob('errors of rules without a fitting production')
        self.text(I, st, I.deep(st, text[0]), loops.plain(I.deep(st, miss[0][1][2])))

    def text(self, I, st, v, table):
        while v[0] == 't' and v[1][0] == 'op' and v[1][1] in WRAP:
            v = v[1][2]
        if v[0] == 'str':
            if all(p[0] == 'lit' for p in v[1]):
                if I.decide(st, ('op', 'empty', table[1] if table[0] == 't' else table)) is not True:
                    self.bad(I, st, 'fixed', 'does not say which characters would have fitted')
            else:
                self.undec('list of expected characters')
            return
        if v[0] == 't' and v[1][0] == 'rep':
            v = ('vec', v, ())
        if v[0] != 'vec' or core.opaque(v):
            if v[0] == 't' and not core.opaque(v) and not core.has_tag(v, ('wid', 'rep', 'key', 'itm')) and not mentions(v, self.path(table)):
                return self.bad(I, st, 'fixed', 'does not say which characters would have fitted (%s)' % show(v))
            return self.undec('list of expected characters')
        empty = I.decide(st, ('op', 'empty', table[1] if table[0] == 't' else table))
        ps = list(loops.parts('vec', v))
        if not ps:
            if empty is False:
                self.bad(I, st, 'none', 'names no character although some would have fitted')
            elif empty is None:
                self.undec('empty list of expected characters')
            return
        full = 0
        for p in ps:
            if p[0] == 'item':
                self.bad(I, st, 'extra', 'names %s, which the control table does not' % show(p[1]))
            elif p[0] != 'seq':
                return self.undec('list of expected characters')
            else:
                site, src, chunks, state = p[1:5]
                if src[0] != 'src' or src[1] not in ('keys', 'map', 'rkeys', 'rmap') or state != 'full' or self.path(src[2]) != self.path(table):
                    return self.undec('list of expected characters')
                full += 1
                self.chunks(I, st, site, chunks)
        if full > 1:
            self.bad(I, st, 'twice', 'names the expected characters twice')

    def path(self, t):
        """a table, whether it is read through a reference or not"""
        while isinstance(t, tuple) and len(t) == 2 and t[0] in ('t', 'r') and isinstance(t[1], tuple):
            t = t[1]
        if isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple) and t[0] and t[0][0] == 'S':
            b = t[0][1]
            for e in t[1]:
                b = ('.', b, e)
            return b
        return t

    def chunks(self, I, st, site, chunks):
        for ops, facts in chunks:
            facts = dict(facts)
            var = {k[1]: x for k, x in facts.items() if k[0] == 'var' and core.contains(k[1], ('itm', site))}
            rest = [k for k in facts if k[0] != 'var' and not (k[0] == 'cd' or k[0] == 'ch')]
            kinds = {x for k, x in var.items() if k[0] == 'key'}
            c = st.copy()
            c.facts.update(facts)
            if not ops:
                if rest:
                    self.undec('expected characters left out')
                else:
                    self.bad(I, st, 'left-out', 'leaves out %s' % (
                        'the end of the script' if kinds == {'Terminate'} else 'some of the characters that would have fitted'))
                continue
            if not kinds and not core.opaque(ops[0]) and not core.contains(ops[0], ('itm', site)):
                self.bad(I, st, 'other', 'names %s for every character that would have fitted' % show(ops[0]))
                continue
            if len(kinds) != 1:
                self.undec('kind of an expected character')
                continue
            kind = kinds.pop()
            if len(ops) != 1:
                self.bad(I, st, 'twice', 'names an expected character more than once')
                continue
            x = norm(I, c, I.deep(c, ops[0]))
            if x[0] != 'str' or core.opaque(x):
                self.undec('spelling of an expected character')
                continue
            chars = [p for p in x[1] if p[0] != 'lit']
            if kind == 'Char':
                key = [k for k in var if k[0] == 'key'][0]
                want = ('.', ('.', key, ('v', 'Char')), '0')
                if not chars:
                    self.bad(I, st, 'unnamed', 'does not name the characters that would have fitted')
                elif chars != [('c', T(want))]:
                    if len(chars) == 1 and chars[0][0] == 'c' and chars[0][1][0] == 't' and not core.contains(chars[0], ('itm', site)):
                        self.bad(I, st, 'other', 'names another character than the one that would have fitted')
                    else:
                        self.undec('spelling of an expected character')
            elif chars or not ''.join(p[1] for p in x[1]):
                self.bad(I, st, 'end', 'does not name the end of the script')


class Terminal(parse.Match):
    """the error of a terminal names the character that should have stood there"""

    def vio(self, st, I, prop, key, msg):
        pass

    def iter_step(self, I, st, it, c):
        cl = self.classify(I, st, it)
        if cl is not None and cl[0] == 'ch':
            first = it[1] == 'chars' and it[4][0] == 'k' and it[4][2] == 0
            st.ghost['step'] = first
            if not self.aside(st.ghost, it):
                st.ghost['later'] = it[1] == 'chars' and it[4][0] == 'after'
        return super().iter_step(I, st, it, c)

    def iter_next(self, I, st, it, item, c):
        cl = self.classify(I, st, it)
        if cl is not None and cl[0] == 'ch' and self.aside(st.ghost, it):
            st.ghost['aux'] = (I.deep(st, item),) if st.ghost.get('step') else ()
        return super().iter_next(I, st, it, item, c)

    def failed(self, I, st, e):
        k = parse.find_err(e)
        if k is None or 'chr' not in k[1]:
            return
        tm = st.ghost['tm']
        if tm is None or tm[2] is None or tm[1] != 'run':
            return
        text = [x for n, x in k[1].items() if n not in ('chr', 'pos')]
        if len(text) != 1:
            return self.undec('P10|parts of the error')
        self.ob('errors inside a terminal')
        x = norm(I, st, I.deep(st, text[0]))
        src = tm[4]
        if x[0] != 'str' or core.opaque(x):
            return self.undec('P10|expected character of a terminal')
        chars = [p for p in x[1] if p[0] != 'lit']
        if chars == [('c', src)]:
            return
        if not definite(st):
            return self.undec('P10|terminal')
        if st.ghost.get('later') and any(chars == [('c', y)] for y in st.ghost.get('aux', ())):
            self.violation('P10|terminal-first', 'the error inside a terminal names its first character wherever the mismatch is', I.where(st))
            return
        if not chars:
            self.violation('P10|terminal-unnamed', 'the error inside a terminal does not name the character that should have stood there', I.where(st))
        elif len(chars) == 1 and chars[0][0] == 'c' and chars[0][1] in (T(('la',)), T(('ch', 1)), T(('in', 'cur0'))):
            self.violation('P10|terminal-other', 'the error inside a terminal names %s as the expected character' % show(chars[0][1]), I.where(st))
        else:
            self.undec('P10|expected character of a terminal')


def p10(F, rep):
    rep.rule('value of the expectation in every failing exit of the matcher: one entry for every key of the control table, in '
             'which the character (or the end) is spelled out; inside a terminal the character of the terminal at that place')
    entry = rep.anchor(F, 'Parser::parse', name='parse', self_ty='script_parser::Parser')
    if entry is None:
        return
    R = parse.matcher(F, entry)
    rl = parse.roles(F.fns[R]) if R else None
    if rl is None:
        return rep.undec('no recursive matcher with known parameter roles below Parser::parse')
    run(rep, F, Expect(R, rl), R, [S(x) for x in rl], label='rule')
    cl = Terminal(R, rl, F.fns)
    flt = parse.Sub('P10')
    old = rep.merge

    def merge(client, interp, root):
        flt(client)
        old(client, interp, root)
    rep.merge = merge
    run(rep, F, cl, R, [S(x) for x in rl], ghost=cl.init_ghost(), label='terminal')
    rep.merge = old


def norm(I, st, v):
    return I.strnorm(st, v)


def mentions(x, t):
    if x == t:
        return True
    return isinstance(x, tuple) and any(mentions(y, t) for y in x)
