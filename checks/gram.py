"""G01 / G02: the reader of grammar text, rule by rule; merging of definitions and directives at the top level."""
from engine import core, strings, chars as CH
from engine.core import K, T
from . import tape as TP, vmtext
from .common import S, run, definite, cases, show, isok, iserr, payload

NAME1 = CH.ALPHA
SYMS = '#"|;:$[]{}->\\'
NAMECH = CH.ALNUM | CH.mask_of('_')
NUMBER = ('get_or_add_element_key', 'get_or_add_non_terminal', 'get_or_add_terminal')
IGNORE0 = T(('.', ('.', ('.', ('in', 'self'), 'parser_data'), 'parse_rules'), 'ignore'))


def sym(*cs):
    m = 0
    for c in cs:
        m |= CH.mask_of(c)
    return m


ELEM = NAME1 | sym('"')
# state -> {token: next}; tokens are symbols, 'name', 'term', 'instr'
RULE = {
    'start': {'name': 'named'},
    'named': {'-': 'dash'},
    'dash': {'>': 'body'},
    'body': {'$': 'o1', 'name': 'els', 'term': 'els', '#': 'empty'},
    'o1': {'[': 'o2'},
    'o2': {'name': 'o3'},
    'o3': {':': 'o4'},
    'o4': {'#': 'o5', 'name': 'o5'},
    'o5': {']': 'alt'},
    'alt': {'name': 'els', 'term': 'els', '#': 'empty'},
    'els': {'name': 'els', 'term': 'els', '|': 'alt', '{': 'sec', ';': 'done'},
    'empty': {'|': 'alt', '{': 'sec', ';': 'done'},
    'sec': {'instr': 'read'},
    'read': {'}': 'after'},
    'after': {';': 'done'},
    'done': {},
}
WHAT = {'start': 'its name', 'named': 'the arrow', 'dash': 'the arrow', 'body': 'an alternative', 'o1': 'the bracket of an override',
        'o2': 'the name of an override', 'o3': 'the colon of an override', 'o4': 'the value of an override',
        'o5': 'the closing bracket of an override', 'alt': 'an alternative', 'els': 'the semicolon', 'empty': 'the semicolon',
        'sec': 'its instructions', 'read': 'the end of the section', 'after': 'the semicolon'}


def allowed(q):
    m = 0
    for t in RULE[q]:
        m |= NAME1 if t == 'name' else sym('"') if t == 'term' else CH.ALL if t == 'instr' else sym(t)
    return m


# where white space may stand in front of what is expected
SPACE = ('named', 'body', 'o3', 'alt', 'els', 'empty', 'after')


def blame(cl, I, st, toks, e, fn):
    """G08: the operation and the place an error of the reader itself names"""
    if 'G08' not in cl.want or e[0] != 'a' or not definite(st):
        return
    k = I.known_variant(st, e)
    if k == 'GramError':
        e = I.deep(st, I.project(st, I.project(st, e, ('v', 'GramError')), 'err'))
        k = I.known_variant(st, e) if e[0] == 'a' else None
    f = dict(e[3]) if e[0] == 'a' else {}
    if k == 'UnknownSpecialOperation':
        cl.ob('refused operations')
        x, pos = I.deep(st, f.get('operation')), I.deep(st, f.get('pos'))
        names = [T(('tok', n, i)) for i, (n, _) in enumerate(toks) if n == 'name']
        bad = [y for y in names if named(st, y, 'IGNORE') is not True]
        if x[0] == 't' and x[1][0] == 'tok' and x[1][1] == 'name':
            if x != names[-1]:
                cl.bad('G08', 'operation', '%s names another word than the unknown operation' % fn, I, st)
            elif pos == T(TP.OLD) or not core.opaque(pos) and not core.contains(pos, TP.OLD) and pos != T(('at', x[1][2])):
                cl.bad('G08', 'operation-pos', '%s gives another position than that of the unknown operation' % fn, I, st)
        elif x[0] == 'str' and not core.opaque(x) and all(p[0] == 'lit' for p in x[1]):
            cl.bad('G08', 'operation', '%s does not name the unknown operation' % fn, I, st)
        else:
            cl.undec('name of an operation')
    elif k == 'UnexpectedElementError':
        cl.ob('refused alternatives')
        pos = I.deep(st, f.get('pos'))
        if pos == T(TP.NOW) or core.opaque(pos) or core.contains(pos, TP.OLD):
            return
        if pos[0] == 'k' or core.contains(pos, TP.NOW) and TP.poslin(I, pos)[0] == ((TP.NOW, 1),) and TP.poslin(I, pos)[1] > 0:
            cl.bad('G08', 'element-pos', '%s gives a position the reader has not reached' % fn, I, st)
    elif k == 'UnexpectedCharError':
        cl.ob('refused characters')
        pos, ch = I.deep(st, f.get('pos')), I.deep(st, f.get('chr'))
        if core.opaque(pos) or core.opaque(ch) or core.contains((pos, ch), TP.OLD):
            return
        if ch != T(TP.LA) and I.decide(st, I.op_ceq(ch, T(TP.LA))[1]) is not True:
            cl.bad('G08', 'char', '%s names another character than the one it stands at' % fn, I, st)
        elif pos != T(TP.NOW):
            cl.bad('G08', 'char-pos', '%s gives another position than that of the character it names' % fn, I, st)
    elif k == 'EndOfCharsError':
        cl.ob('refused ends')
        if st.ghost['eof'] is not True:
            cl.bad('G08', 'end', '%s reports the end of the text although there may be more' % fn, I, st)


class Reader(vmtext.Tokens):
    """token tape of grammar text"""
    want = ()
    widen_after = 60

    def lexer(self, c):
        if c.path.endswith('rule_parsing::parse_terminal'):
            return 'parse_terminal'
        return super().lexer(c)

    def tok(self, st, kind, v):
        if kind == 'sym':
            if v[0] == 'k' and CH.mask_of(v[2]) & ~CH.WS == 0:
                st.ghost['ws'] = len(st.ghost['toks'])
                return
            kind = v[2] if v[0] == 'k' else 'raw'
        st.ghost['toks'] = st.ghost['toks'] + ((kind, v),)
        st.ghost['ws'] = None

    def raw(self, I, st, c):
        m = I.char_dom(st, T(TP.LA))
        if m & ~CH.WS == 0:
            st.ghost['ws'] = len(st.ghost['toks'])
            return True
        if CH.singleton(m):
            for x in SYMS:
                if CH.mask_of(x) == m:
                    self.tok(st, 'sym', K('char', x))
                    break
            else:
                self.tok(st, 'raw', None)
        else:
            groups = [CH.WS] + [CH.mask_of(x) for x in SYMS if x != '"']
            groups = [g & m for g in groups + [~sum(groups) & CH.ALL] if g & m]
            if len(groups) > 1:
                def alt(g):
                    def f(s):
                        s.facts[('cd', TP.LA)] = g
                        s.ghost['byhand'] = True
                        return s
                    return f
                raise core.Split([alt(g) for g in groups])
            self.tok(st, 'raw', None)
        return not self.prune(st)

    def limitchars(self, st, mask):
        """what is ahead, if anything, is one of these; False when that cannot be"""
        k = ('cd', TP.LA)
        m = st.facts.get(k, CH.ALL) & mask
        st.facts[k] = m
        return bool(m)

    def classify(self, I, st, mask):
        """[(state, None at the end | is the character ahead one of these)]"""
        out = []
        for s, p in self.look(I, st):
            if not p:
                out.append((s, None))
                continue
            dom = I.char_dom(s, T(TP.LA))
            for val, m in ((True, dom & mask), (False, dom & ~mask)):
                if m:
                    x = s.copy()
                    x.facts[('cd', TP.LA)] = m
                    out.append((x, val))
        return out

    def init_ghost(self):
        g = super().init_ghost()
        g['ws'] = None
        g['byhand'] = False
        return g

    def call(self, I, st, c):
        n = self.lexer(c)
        if n == 'parse_whitespace':
            if 'G07' not in self.want and 'G08' not in self.want:
                if st.ghost['eof'] or not I.char_dom(st, T(TP.LA)) & CH.WS:
                    return [(st, core.UNIT)]
            else:
                outs = []
                for s, there in self.classify(I, st, CH.WS):
                    if not there:
                        outs.append((s, core.UNIT))
                    else:
                        s.ghost['ws'] = len(s.ghost['toks'])
                        outs += super().call(I, s, c)
                return outs
        if n in ('parse_var_name', 'parse_terminal'):
            return self.word(I, st, c, n)
        if c.name in NUMBER and 'ParserData' in c.impl_self:
            return self.number(I, st, c)
        if c.name == 'new_nested' and self.is_tape(I, st, c):
            return [(st, T(('view', I.deep(st, c.args[1]), I.deep(st, c.args[2]))))]
        if c.name == 'parse_instructions':
            return self.section(I, st, c)
        return super().call(I, st, c)

    def word(self, I, st, c, n):
        outs = []
        for s, ok in self.classify(I, st, NAME1 if n == 'parse_var_name' else sym('"')):
            err = core.Err(T(('opq', 'lexerr')))
            if not ok:
                outs.append((s, err))
                continue
            if n == 'parse_terminal':
                b = s.copy()
                self.tok(b, 'fail', None)
                self.forget(b)
                b.ghost['eof'] = True
                outs.append((b, err))
            i = len(s.ghost['toks'])
            v = T(('tok', 'name' if n == 'parse_var_name' else 'term', i))
            if 'G08' in self.want:
                TP.tsubst(s, lambda t, i=i: ('at', i) if t == TP.NOW else None)
            self.tok(s, v[1][1], v)
            self.forget(s)
            if n == 'parse_var_name':
                self.limitchars(s, CH.ALL & ~NAMECH)
            if not self.prune(s):
                outs.append((s, core.Ok(v)))
        return outs

    def number(self, I, st, c):
        if c.name == 'get_or_add_element_key':
            e = I.deep(st, c.args[1])
            while e[0] == 'r':
                e = I.deep(st, I.read(st, e[1]))
            name, kind = I.deep(st, I.project(st, e, 'name')), I.known_variant(st, I.deep(st, I.project(st, e, 'et')))
            if kind is None:
                return None
        else:
            name, kind = I.deep(st, c.args[1]), 'Terminal' if c.name.endswith('_terminal') and '_non_' not in c.name else 'NonTerminal'
        while name[0] == 'r':
            name = I.deep(st, I.read(st, name[1]))
        return [(st, T(('num', name, kind)))]

    def section(self, I, st, c):
        a = [I.deep(st, x) for x in c.args]
        view = a[2]
        while view[0] == 'r':
            view = I.deep(st, I.read(st, view[1]))
        i = len(st.ghost['toks'])
        bad = st.copy()
        self.tok(bad, 'fail', None)
        self.forget(bad)
        v = T(('tok', 'instr', i))
        self.tok(st, 'instr', (a[1], view))
        self.forget(st)
        return [(bad, core.Err(T(('opq', 'instrerr'))))] + ([(st, core.Ok(v))] if not self.prune(st) else [])


class Rules(Reader):
    """one rule of a grammar text against what parse_rule makes of it"""

    def __init__(self, want, elements):
        super().__init__()
        self.want = want
        self.elements = elements
        self.refusals = {}

    def prune(self, st):
        t = [k for k, _ in st.ghost['toks']]
        n = sum(k in ('name', 'term', '#') for k in t[3:])
        lim = self.elements
        if '$' in t[:4] and ']' in t:
            lim = 2 + 2
        return n > lim or len(t) > 3 * self.elements + 14

    def bad(self, cat, key, msg, I, st):
        if cat in self.want:
            self.violation(key, msg, I.where(st))

    def finish(self, rep):
        """G07: what is refused after white space but not without it"""
        for (q, ws), (m, w) in sorted(self.refusals.items()):
            if ws and 'G07' in self.want and m & ~self.refusals.get((q, False), (0,))[0]:
                rep.violation('after-space|' + q, 'parse_rule refuses a rule with white space in front of %s' % WHAT[q], w)

    def state(self, toks):
        """(state reached, index of the token that does not fit or None)"""
        q = 'start'
        for i, (k, v) in enumerate(toks):
            n = RULE[q].get(k)
            if n is None:
                return q, i
            q = n
        return q, None

    def ret(self, I, st, v):
        v = I.deep(st, v)
        toks = st.ghost['toks']
        if not definite(st):
            return self.undec('condition not followed')
        if any(k == 'raw' for k, _ in toks):
            return self.undec('characters read without a lexical function')
        q, at = self.state(toks)
        if iserr(v):
            self.refused(I, st, toks, q, at, I.deep(st, payload(v)))
            return
        if not isok(v):
            return self.undec('unresolved result')
        self.ob('accepted rules')
        if at is not None and q in ('sec', 'read') and st.ghost['byhand']:
            return self.undec('an instruction section read without a lexical function')
        if at is not None and q == 'sec' and toks[at][0] == '}':
            return self.bad('G01', 'instruction|unread', 'parse_rule does not have an (empty) instruction section read by the machine', I, st)
        if at is not None:
            k = toks[at][0]
            return self.bad('G02', 'accepted|%s|%s' % (q, k), 'parse_rule accepts a rule with %s where %s belongs' % (
                {'name': 'a name', 'term': 'a terminal', 'instr': 'instructions', 'fail': 'broken text'}.get(k, k), WHAT.get(q, 'nothing')), I, st)
        if q != 'done':
            return self.bad('G02', 'accepted|%s|end' % q, 'parse_rule accepts a rule without ' + WHAT[q], I, st)
        self.compare(I, st, toks, v)

    def refused(self, I, st, toks, q, at, e):
        self.ob('refused rules')
        blame(self, I, st, toks, e, 'parse_rule')
        if at is not None:
            return
        if q == 'done':
            return self.bad('G01', 'refused|done', 'parse_rule refuses a complete rule', I, st)
        if st.ghost['eof'] is True:
            return
        if any(k == '$' for k, _ in toks) and q in ('o3', 'o4', 'o5') and self.asks(st, toks) not in (True, None):
            return
        m = I.char_dom(st, T(TP.LA)) & ~CH.WS & allowed(q)
        if m and q in SPACE:
            k = (q, st.ghost['ws'] == len(toks))
            if k not in self.refusals:
                self.refusals[k] = [0, I.where(st)]
            self.refusals[k][0] |= m
        if q in SPACE and I.char_dom(st, T(TP.LA)) & CH.WS:
            self.bad('G07', 'space|' + q, 'parse_rule refuses a rule with white space where %s belongs' % WHAT[q], I, st)
        if q == 'start' and I.char_dom(st, T(TP.LA)) & CH.WS:
            self.notrim = True
        if I.char_dom(st, T(TP.LA)) & ~CH.WS & allowed(q):
            self.bad('G01', 'refused|' + q, 'parse_rule refuses a rule although %s follows' % WHAT[q], I, st)

    def asks(self, st, toks):
        """is the name of the override known to be IGNORE"""
        t = next((T(('tok', 'name', i)) for i, (k, _) in enumerate(toks) if i > 3 and k == 'name'), None)
        return named(st, t, 'IGNORE')

    def compare(self, I, st, toks, v):
        r = I.deep(st, payload(v))
        if r[0] != 'a':
            return self.undec('result not followed')
        key, rule = I.deep(st, I.project(st, r, '0')), I.deep(st, I.project(st, r, '1'))
        got = {f: I.deep(st, I.project(st, rule, f)) for f in ('possible_productions', 'ignore', 'instruction')}
        num = lambda i: T(('num', T(('tok', toks[i][0], i)), 'Terminal' if toks[i][0] == 'term' else 'NonTerminal'))
        # what the text says
        over, alts, instr = None, [[]], None
        q = 'start'
        for i, (k, x) in enumerate(toks):
            if q in ('body', 'alt', 'els'):
                if k in ('name', 'term'):
                    alts[-1].append(num(i))
                elif k == '|':
                    alts.append([])
                elif k == '#':
                    alts[-1] = None
            elif q == 'empty' and k == '|':
                alts.append([])
            elif q == 'o4':
                over = core.NONE if k == '#' else core.Some(num(i))
            elif q == 'sec':
                instr = (i, x)
            q = RULE[q][k]
        if over is not None:
            a = self.asks(st, toks)
            if a == '?':
                self.undec('name of an override')
                over = 'any'
            elif a is not True:
                self.bad('G02', 'override', 'parse_rule accepts an override of any name', I, st)
                if a is False:
                    over = 'any'
        left = I.deep(st, I.read(st, (('S', ('in', 'self')), ('parser_data', 'parse_rules', 'ignore'))))
        if left != IGNORE0 and not core.opaque(left):
            if left[0] != 'a' or left[2] != 'Some' or left[3][0][1] != T(('.', ('.', IGNORE0[1], ('v', 'Some')), '0')):
                self.bad('G04', 'leak', 'parse_rule: reading a rule changes the ignore rule in force for others', I, st)
        self.same(I, st, key, num(0), 'G01', 'key', 'a rule gets the number of another element')
        if over is None:
            self.same(I, st, got['ignore'], IGNORE0, 'G04', 'in-force', 'a rule without override does not get the ignore rule in force')
        elif over != 'any':
            self.option(I, st, got['ignore'], over)
        if instr is None:
            if got['instruction'] != ('vec', None, ()):
                if got['instruction'][0] == 'vec' or got['instruction'][0] == 't' and not core.opaque(got['instruction']):
                    self.bad('G01', 'instruction|made-up', 'parse_rule gives instructions to a rule without a section', I, st)
                else:
                    self.undec('instructions')
        else:
            i, (prod, view) = instr
            if prod != T(('tok', 'name', 0)):
                if core.opaque(prod):
                    self.undec('rule name given to the machine')
                else:
                    self.bad('G01', 'instruction|rule', 'the instructions of a rule are read under another rule name', I, st)
            if view[0] == 't' and view[1][0] == 'view':
                want = (core.Some(K('char', '}')), core.Some(K('char', '\\')))
                if view[1][1:] != want and not core.opaque(view):
                    self.bad('G02', 'section|bounds', 'an instruction section is not bounded by its closing brace', I, st)
            else:
                self.undec('section given to the machine')
            self.same(I, st, got['instruction'], T(('tok', 'instr', i)), 'G01', 'instruction|lost', 'the instructions of a rule are not the ones read from its section')
        self.productions(I, st, got['possible_productions'], alts)

    def same(self, I, st, got, want, cat, key, msg):
        if got == want or got == core.NONE and I.known_variant(st, want) == 'None':
            return True
        if got[0] == 'a' and got[2] == 'Some' and want[0] == 't' and I.known_variant(st, want) == 'Some':
            want = I.project(st, I.project(st, want, ('v', 'Some')), '0')
            return self.same(I, st, I.deep(st, payload(got)), want, cat, key, msg)
        if core.opaque(got):
            self.undec(key)
            return None
        if got[0] == 't' and want[0] == 't' and I.decide(st, I.ieq(got, want)) is True:
            return True
        if strings.has(got, ('strfn',)) and want[0] == 't':
            # another spelling: is there a text for which it is another name
            w = [t for t in ([want[1][1]] if want[1][0] == 'num' else [])]
            if not w or got[0] != 't' or got[1][0] != 'num':
                self.undec(key)
                return None
            if got[1][2] == want[1][2] and not self.differs(st, got[1][1], w[0]):
                self.undec(key)
                return None
        self.bad(cat, key, 'parse_rule: ' + msg + ' (%s for %s)' % (show(got), show(want)), I, st)
        return False

    def differs(self, st, x, tok):
        """is there a text, possible on this path, which x does not give back"""
        ts = strings.texts(st, tok[1], tok[1][1] == 'name', [y + z for y in ('', 'a') for z in ('\\\\', ' ', 'A')])
        try:
            return bool(ts) and any(strings.ev(x, tok[1], y) != y for y in ts)
        except strings.Unknown:
            return False

    def option(self, I, st, got, want):
        v = I.known_variant(st, got)
        if v is None or core.opaque(got):
            if got == IGNORE0:
                return self.bad('G04', 'override|lost', 'parse_rule: an override does not change the ignore rule of its rule', I, st)
            return self.undec('override')
        if v != want[2]:
            return self.bad('G04', 'override|' + v, 'parse_rule: an override %s the ignore rule' % (
                'does not switch off' if want == core.NONE else 'does not set'), I, st)
        if v == 'Some':
            self.same(I, st, I.deep(st, I.project(st, I.project(st, got, ('v', 'Some')), '0')), I.deep(st, payload(want)), 'G04', 'override|other', 'an override sets another ignore rule')

    def productions(self, I, st, got, alts):
        if got[0] != 'vec' or got[1] is not None:
            return self.undec('alternatives not followed')
        ps = [I.deep(st, x) for x in got[2]]
        self.ob('alternatives compared with the text', len(alts))
        if any(p[0] != 'a' and p[0] != 'r' for p in ps):
            return self.undec('alternatives not followed')
        if len(ps) != len(alts):
            return self.bad('G01', 'alternatives|count', 'a rule of %d alternative(s) is read as one of %d' % (len(alts), len(ps)), I, st)
        for p, want in zip(ps, alts):
            while p[0] == 'r':
                p = I.deep(st, I.read(st, p[1]))
            v = I.known_variant(st, p)
            if v is None:
                return self.undec('alternative not followed')
            if (v == 'Empty') != (want is None):
                return self.bad('G01', 'alternatives|' + v, 'an alternative that is %s is read as one that is' % (
                    'not empty' if v == 'Empty' else 'empty'), I, st)
            if want is None:
                continue
            els = I.deep(st, I.project(st, I.project(st, p, ('v', 'NotEmpty')), '0'))
            if els[0] != 'vec' or els[1] is not None:
                return self.undec('elements not followed')
            xs = [I.deep(st, x) for x in els[2]]
            if len(xs) != len(want):
                return self.bad('G01', 'elements|count', 'an alternative of %d element(s) is read as one of %d' % (len(want), len(xs)), I, st)
            for a, b in zip(xs, want):
                if self.same(I, st, a, b, 'G01', 'elements|other', 'an alternative is read with another element than the one written') is not True:
                    return

    def panic(self, I, st, kind, c):
        if definite(st) and not kind.startswith('Overflow'):
            self.bad('G02', 'panic|' + kind, 'parse_rule can panic (%s)' % kind, I, st)


def named(st, t, text):
    """is this name the text on this path (True), sometimes (None), never (False); '?' when that is not known"""
    if t is None:
        return '?'
    ts = strings.texts(st, t[1], True, (text,))
    if not ts:
        return '?'
    return True if ts == [text] else None if text in ts else False


class Element(Rules):
    def prune(self, st):
        return False

    def ret(self, I, st, v):
        v = I.deep(st, v)
        if iserr(v):
            blame(self, I, st, st.ghost['toks'], I.deep(st, payload(v)), 'parse_element')

    def panic(self, I, st, kind, c):
        pass


RULES0 = ('.', ('.', ('.', ('in', 'self'), 'parser_data'), 'parse_rules'), 'rules')
TOP = {
    'top': {'rule': 'top', '$': 'd1'},
    'd1': {'name': 'd2'},
    'd2': {':': 'd3'},
    'd3': {'name': 'd4'},
    'd4': {';': 'top'},
}
DWHAT = {'top': 'a rule or a directive', 'd1': 'the name of a directive', 'd2': 'the colon of a directive', 'd3': 'the value of a directive',
         'd4': 'the semicolon of a directive'}


class Top(Reader):
    """a whole grammar text: rules (each read by parse_rule) and directives, up to its end"""

    def __init__(self, want, units):
        super().__init__()
        self.want, self.units = want, units

    bad = Rules.bad

    def prune(self, st):
        n = sum(k in ('rule', '$') for k, _ in st.ghost['toks'])
        return n > self.units

    def state(self, toks):
        q = 'top'
        for i, (k, _) in enumerate(toks):
            n = TOP[q].get(k)
            if n is None:
                return q, i
            q = n
        return q, None

    def look(self, I, st):
        out = []
        if st.ghost.get('over') and st.ghost['eof'] is not True:
            return []
        for s, p in super().look(I, st):
            if not p and not any(k == 'fail' for k, _ in s.ghost['toks']):
                q, at = self.state(s.ghost['toks'])
                if q == 'top' or at is not None:
                    self.end(I, s, q, at)
                    continue
            out.append((s, p))
        return out

    def call(self, I, st, c):
        self.over(I, st, c)
        if c.name == 'parse_rule' and c.path.startswith(self.own):
            if self.notrim and definite(st) and st.ghost['eof'] is not True and I.char_dom(st, T(TP.LA)) & CH.WS \
                    and not any(k in ('raw', 'fail') for k, _ in st.ghost['toks']):
                self.bad('G07', 'space|top', 'parse_rules refuses a grammar text with white space in front of a rule', I, st)
            b = st.copy()
            self.tok(b, 'fail', None)
            self.forget(b)
            i = len(st.ghost['toks'])
            self.tok(st, 'rule', None)
            self.forget(st)
            out = [(b, core.Err(T(('opq', 'rule error'))))]
            if not self.prune(st):
                out.append((st, core.Ok(core.tup(T(('tok', 'key', i)), T(('tok', 'rule', i))))))
            return out
        return super().call(I, st, c)

    def over(self, I, st, c):
        """the rules are walked over although the text is not at an end it may have: whether it is accepted does not depend on
        the rules, so the walk is followed for no rules"""
        a = c.args[0] if c.args else None
        if not (a and a[0] == 'r' and a[1] == (('S', ('in', 'self')), ('parser_data', 'parse_rules', 'rules'))) or st.ghost.get('over'):
            return
        if c.name not in ('iter', 'into_iter', 'iter_mut', 'keys', 'values', 'values_mut', 'take', 'replace', 'drain', 'clone'):
            return
        q, at = self.state(st.ghost['toks'])
        if any(k == 'fail' for k, _ in st.ghost['toks']) or st.ghost['eof'] is False or st.ghost['eof'] and (q != 'top' or at is not None):
            st.ghost['over'] = True
            I.write(st, a[1], ('map', None, ()), c.sp)

    def end(self, I, st, q, at):
        """the text is over where a rule or a directive may start"""
        toks = st.ghost['toks']
        if not definite(st) or any(k == 'raw' for k, _ in toks):
            return self.undec('condition not followed')
        if any(k in ('-', 'term', 'instr', '[', '|') for k, _ in toks):
            return self.undec('rules read without parse_rule')
        self.ob('grammar texts of up to %d definitions' % self.units)
        if at is not None:
            return self.bad('G02', 'top|%s|%s' % (q, toks[at][0]), 'a grammar text with %s where %s belongs is accepted' % (toks[at][0], DWHAT[q]), I, st)
        ign, num = IGNORE0, None
        for i, (k, _) in enumerate(toks):
            if k == '$':
                n = T(('tok', 'name', i + 1))
                a = named(st, n, 'IGNORE')
                if a == '?':
                    return self.undec('name of a directive')
                if a is not True:
                    return self.bad('G02', 'top|directive', 'a directive of %s name is accepted' % ('any' if a is None else 'an unknown'), I, st)
                num = T(('num', T(('tok', 'name', i + 3)), 'NonTerminal'))
                ign = core.Some(num)
        at = lambda *p: I.deep(st, I.read(st, (('S', ('in', 'self')), ('parser_data', 'parse_rules') + p)))
        got = at('ignore')
        if got != ign:
            if core.opaque(got) or got[0] not in ('a', 't'):
                self.undec('ignore rule in force')
            elif got[0] == 'a' and ign[0] == 'a' and got[2] == 'Some' and I.decide(st, I.ieq(I.deep(st, payload(got)), num)) is True:
                pass
            elif self.elsewhere(st, num):
                self.undec('ignore rule in force')
            else:
                self.bad('G04', 'directive', 'after %s the ignore rule in force is not the one of the last directive' % (
                    'directives' if num else 'rules without any directive'), I, st)
        nums = [i for i, (k, _) in enumerate(toks) if k == 'rule']
        try:
            for s, why in cases(I, st, lambda s: self.merged(I, s, nums)):
                if why is None:
                    self.ob('merged definitions compared with the specification')
                elif why.startswith('?'):
                    self.undec(why[1:])
                elif not definite(s):
                    self.undec('condition not followed')
                elif any(self.elsewhere(s, T(('tok', 'rule', i))) for i in nums):
                    self.undec('definitions kept elsewhere')
                else:
                    self.bad('G05', 'merge|' + why.split('|')[0], 'parse_rules: ' + why.split('|')[1], I, s)
        except (core.Unmodelled, core.Budget) as e:
            self.undec('merging: %s' % e)

    def elsewhere(self, st, t):
        """kept in a container outside of the rules"""
        if t is None:
            return False

        def holds(v):
            if not isinstance(v, tuple):
                return False
            if v and v[0] in ('vec', 'map', 'set') and core.contains(v, t[1]):
                return True
            return any(holds(x) for x in v if isinstance(x, tuple))
        return any(holds(v) for r, v in st.mem.items() if r != ('S', ('in', 'self')) and r[0] in ('L', 'H'))

    def merged(self, I, st, nums):
        from engine import models, loops
        final = I.deep(st, I.read(st, (('S', ('in', 'self')), ('parser_data', 'parse_rules', 'rules'))))
        M = T(RULES0)
        # which of the definitions are of the same rule
        key = [T(('tok', 'key', i)) for i in nums]
        same = {}
        for a in range(len(key)):
            for b in range(a):
                e = I.veq(st, key[b], key[a])
                same[b, a] = I.test(st, I.eq_term(st, key[b], key[a])) if e is None else e
        rep = [next((b for b in range(a) if same[b, a]), a) for a in range(len(key))]
        if any((rep[b] == rep[a]) != v for (b, a), v in same.items()):
            return None
        new = {key[a][1]: key[rep[a]][1] for a in range(len(key)) if rep[a] != a}
        sub = lambda x: TP.multisubst(x, lambda t: new.get(t), {})
        known = {}
        for k, v in st.facts.items():
            k = TP.resort(sub(k))
            if k[0] == 'b' and k[1][0] == 'op' and k[1][1] == 'eq' and k[1][2] == k[1][3]:
                continue
            if k[0] in ('b', 'var') and known.get(k, v) != v:
                return None
            known[k] = sub(v)
        st.facts = known
        final = sub(final)
        groups = [(key[a], [i for b, i in enumerate(nums) if rep[b] == a]) for a in range(len(key)) if rep[a] == a]
        if final[0] not in ('map', 't'):
            return '?shape of the rules'
        if final[0] == 'map':
            for ek, _ in final[2]:
                if core.opaque(ek):
                    return '?number of a rule'
        for k, ids in groups:
            base = models.maphas(I, st, M, k)
            if not models.maphas(I, st, final, k):
                return 'lost|a definition is lost'
            got = I.deep(st, I.mapval(st, final, k))
            pp = I.deep(st, I.project(st, got, 'possible_productions'))
            rs = [T(('tok', 'rule', i)) for i in ids]
            want = [T(('.', ('.', RULES0, ('e', k)), 'possible_productions'))] if base else []
            want += [T(('.', r[1], 'possible_productions')) for r in rs]
            ps = self.pieces(loops, pp)
            if ps is None:
                return '?alternatives of a rule'
            if ps != want:
                if any(core.opaque(x) for x in ps):
                    return '?alternatives of a rule'
                if [x for x in ps if x in want] != ps:
                    return '?alternatives of a rule'
                return '%s|the alternatives of a rule defined %s are not the ones of its definitions in order' % (
                    'order' if sorted(map(repr, ps)) == sorted(map(repr, want)) else 'alternatives', 'again' if len(want) > 1 else 'once')
            if len(want) == 1:
                for f in ('ignore', 'instruction'):
                    x = I.deep(st, I.project(st, got, f))
                    if x != T(('.', rs[0][1], f)):
                        return '?%s' % f if core.opaque(x) else '%s|a rule defined once does not keep its %s' % (
                            f, 'ignore rule' if f == 'ignore' else 'instructions')
        return None

    def pieces(self, loops, v):
        """a list as the unknown lists it is made of"""
        if v[0] == 't' and v[1][0] == 'op' and v[1][1] == 'concat':
            a, b = self.pieces(loops, v[1][2]), self.pieces(loops, v[1][3])
            return None if a is None or b is None else a + b
        if v[0] == 't':
            return [T(norm_key(v[1]))]
        if v[0] != 'vec':
            return None
        out = []
        for p in loops.parts('vec', v):
            if p[0] != 'base':
                return None
            x = self.pieces(loops, p[1] if p[1][0] in ('t', 'vec') else T(p[1]))
            if x is None:
                return None
            out += x
        return out

    def ret(self, I, st, v):
        v = I.deep(st, v)
        toks = st.ghost['toks']
        if not isok(v):
            if iserr(v) and definite(st) and not any(k in ('raw', 'fail') for k, _ in toks):
                q, at = self.state(toks)
                blame(self, I, st, toks, I.deep(st, payload(v)), 'parse_rules')
                if at is None and st.ghost['eof'] is not True and q in ('d2', 'd3', 'd4') and I.char_dom(st, T(TP.LA)) & CH.WS:
                    i = max(i for i, (k, _) in enumerate(toks) if k == '$')
                    if named(st, T(('tok', 'name', i + 1)), 'IGNORE') is True:
                        self.bad('G07', 'space|' + q, 'parse_rules refuses a directive with white space where %s belongs' % DWHAT[q], I, st)
                if at is None and st.ghost['eof'] is not True and q != 'top':
                    m = I.char_dom(st, T(TP.LA)) & ~CH.WS
                    ok = 0
                    for t in TOP[q]:
                        ok |= NAME1 if t == 'name' else sym(t)
                    i = max(i for i, (k, _) in enumerate(toks) if k == '$')
                    if m & ok and (q == 'd1' or named(st, T(('tok', 'name', i + 1)), 'IGNORE') is True):
                        self.bad('G01', 'refused-directive|' + q, 'parse_rules refuses a directive although %s follows' % DWHAT[q], I, st)
            return
        q, at = self.state(toks)
        if definite(st) and toks and st.ghost['eof'] is True and q != 'top' and at is None:
            self.bad('G02', 'top|%s|end' % q, 'a grammar text that ends where %s belongs is accepted' % DWHAT[q], I, st)
        elif definite(st) and toks and st.ghost['eof'] is not True and not any(k == 'raw' for k, _ in toks):
            self.bad('G02', 'top|rest', 'parse_rules accepts a grammar text without reading all of it', I, st)
        elif definite(st) and toks and any(k == 'fail' for k, _ in toks):
            self.bad('G02', 'top|broken', 'parse_rules accepts a grammar text although a rule of it was refused', I, st)

    def panic(self, I, st, kind, c):
        if definite(st) and not kind.startswith('Overflow'):
            self.bad('G02', 'panic|' + kind, 'parse_rules can panic (%s)' % kind, I, st)


def norm_key(t):
    from . import edit
    return edit.norm(t)


def top(F, rep, want, notrim=False):
    rep.rule('definitions and directives read on every path through parse_rules versus the rules and the ignore rule at the '
             'end of the text')
    k = rep.anchor(F, 'RuleParser::parse_rules', name='parse_rules', self_ty='::RuleParser')
    if k is None:
        return
    cl = Top(want, 3 if rep.tier == 'quick' else 4)
    cl.notrim = notrim
    cl.own = F.fns[k]['path'].rsplit('::', 1)[0]
    run(rep, F, cl, k, [S('self')], ghost=cl.init_ghost(), max_states=1500000)


def rules(F, rep, want):
    rep.rule('tokens read on every path through parse_rule versus the rule returned (number, alternatives, elements, ignore '
             'rule, instructions); every accepting path spells a rule of the rule syntax; no path refuses one')
    k = rep.anchor(F, 'RuleParser::parse_rule', name='parse_rule', self_ty='::RuleParser')
    if k is None:
        return
    n = 3 if rep.tier == 'quick' else 4
    cl = Rules(want, n - 1 if want & {'G07', 'G08'} else n)
    cl.notrim = False
    if run(rep, F, cl, k, [S('self')], ghost=cl.init_ghost(), max_states=1500000):
        cl.finish(rep)
    return cl.notrim


def g07(F, rep):
    rep.rule('every refusing path of the readers of rules and directives: what is ahead cannot be white space where white '
             'space may stand; parse_rules skips it in front of a rule')
    top(F, rep, {'G07'}, rules(F, rep, {'G07'}))


def g08(F, rep):
    rep.rule('every error made on a refusing path of the readers of rules and directives: the word or character it names is '
             'the one at fault and its position is where that one stands')
    rules(F, rep, {'G08'})
    top(F, rep, {'G08'})
    key = rep.anchor(F, 'RuleParser::parse_element', name='parse_element', self_ty='::RuleParser')
    if key:
        cl = Element({'G08'}, 3)
        run(rep, F, cl, key, [S('pp')], ghost=cl.init_ghost())


def g01(F, rep):
    rules(F, rep, {'G01'})
    top(F, rep, {'G01'})


def g02(F, rep):
    rules(F, rep, {'G02'})
    top(F, rep, {'G02'})


def g04(F, rep):
    """how the ignore rule of a rule is found"""
    rules(F, rep, {'G04'})
    top(F, rep, {'G04'})


def g05(F, rep):
    """merging of definitions"""
    top(F, rep, {'G05'})
