"""L01 / L02: the lexical functions, decided on the relative tape domain."""
from engine import core, chars as CH
from . import tape as TP
from .common import S, run, definite, show, isok, iserr, payload, fields

US = CH.mask_of('_')
MINUS = CH.mask_of('-')
QUOTE = CH.mask_of('"')
BS = CH.mask_of('\\')

SPECS = {
    'parse_whitespace': dict(kind='unit', t={0: [(CH.WS, 0)]}, acc={0}),
    'parse_digits': dict(kind='text', t={0: [(CH.DIGIT, 0)]}, acc={0}),
    'parse_usize': dict(kind='num', ty='usize', t={0: [(CH.DIGIT, 1)], 1: [(CH.DIGIT, 1)]}, acc={1}),
    'parse_isize': dict(kind='num', ty='isize',
                        t={0: [(MINUS, 1), (CH.DIGIT, 2)], 1: [(CH.DIGIT, 2)], 2: [(CH.DIGIT, 2)]}, acc={2}),
    'parse_var_name': dict(kind='text', t={0: [(CH.ALPHA, 1)], 1: [(CH.ALNUM | US, 1)]}, acc={1}),
    'parse_terminal': dict(kind='text', cut=(1, 1), t={0: [(QUOTE, 1)],
                                                       1: [(BS, 2), (QUOTE, 3), (CH.ALL & ~(BS | QUOTE), 1)],
                                                       2: [(CH.ALL, 1)]}, acc={3}),
    'parse_symbol': dict(kind='sym', t={}, acc={1}),
}
WHERE = {n: 'parse_funcs::' + n for n in SPECS}
WHERE['parse_terminal'] = 'rule_parsing::parse_terminal'


class Lexer(TP.Tape):
    def __init__(self, name, spec):
        super().__init__()
        self.fn, self.spec = name, spec

    def init_ghost(self):
        g = super().init_ghost()
        g['q'] = 0
        return g

    def bad(self, I, st, what, msg):
        if not definite(st):
            self.undec('%s: %s on a path with an unmodelled condition' % (self.fn, what))
            return
        self.violation('%s|%s' % (self.fn, what), msg, I.where(st))

    def allowed(self, q):
        m = 0
        for mask, _ in self.spec['t'].get(q, ()):
            m |= mask
        return m

    def vague(self, st):
        """the lookahead is constrained by a condition the character domain does not express"""
        for k, v in st.facts.items():
            if k[0] in ('b', 'iv') and core.contains(k, TP.LA):
                if k[0] == 'b' and k[1][0] == 'op' and k[1][1] == 'ceq' and self.spec['kind'] == 'sym':
                    continue
                return True
        return False

    # ---- typestate of the consumed text --------------------------------
    def on_consume(self, I, st, c):
        q = st.ghost['q']
        la = core.T(TP.LA)
        self.ob('characters consumed: checked against the token automaton')
        if self.spec['kind'] == 'sym':
            eq = I.decide(st, I.op_ceq(la, S('sym'))[1]) if q == 0 else False
            if eq:
                st.ghost['q'] = 1
                return True
            self.consumed_outside(I, st)
            return False
        dom = I.char_dom(st, la)
        alts = []
        for mask, nxt in self.spec['t'].get(q, ()):
            if dom & ~mask == 0:
                st.ghost['q'] = nxt
                return True
            if dom & mask:
                alts.append(mask)
        rest = dom & ~self.allowed(q)
        if not alts:
            self.consumed_outside(I, st, rest)
            return False
        if rest:
            alts.append(rest)

        def mk(m):
            return lambda s: s if I.char_meet(s, la, m) else None
        raise core.Split([mk(m) for m in alts])

    def consumed_outside(self, I, st, m=None):
        if self.vague(st):
            self.undec('%s: consumption under a condition outside the character domain' % self.fn)
            return
        self.bad(I, st, 'consumes-outside', '%s consumes a character that does not belong to its token%s'
                 % (self.fn, ' (for example %s)' % CH.show(m) if m else ''))

    # ---- obligations at the exits --------------------------------------
    def ret(self, I, st, v):
        v = I.deep(st, v)
        kind = self.spec['kind']
        if kind == 'unit':
            self.success(I, st, None)
        elif isok(v):
            self.success(I, st, payload(v))
        elif iserr(v):
            self.failure(I, st, I.deep(st, payload(v)))
        else:
            self.undec('%s: exit with an unresolved result' % self.fn)

    def next_possible(self, I, st):
        """mask of characters that may be next and would continue the token"""
        q = st.ghost['q']
        if self.spec['kind'] == 'sym':
            return 0 if q == 1 else CH.ALL
        if st.ghost['eof'] is True:
            return 0
        dom = I.char_dom(st, core.T(TP.LA)) if st.ghost['eof'] is False else CH.ALL
        return dom & self.allowed(q)

    def success(self, I, st, val):
        if val is not None and self.spec['kind'] != 'sym':
            self.ob('successful exits: consumed text is a token and the result is that text')
        else:
            self.ob('successful exits: consumed text is a token')
        q = st.ghost['q']
        if q not in self.spec['acc']:
            if self.vague(st):
                self.undec('%s: success under an unmodelled condition' % self.fn)
                return
            self.bad(I, st, 'accepts-partial', '%s succeeds although what it consumed is not a complete token' % self.fn)
            return
        m = self.next_possible(I, st)
        if m:
            if st.ghost['eof'] is False and self.vague(st):
                self.undec('%s: stop under an unmodelled condition' % self.fn)
            else:
                self.bad(I, st, 'stops-early', '%s stops although the next character %s still belongs to the token'
                         % (self.fn, CH.show(m)))
        if self.spec['kind'] == 'text':
            self.text(I, st, val)
        elif self.spec['kind'] == 'num':
            x = val
            if x[0] == 't' and x[1][0] == 'op' and x[1][1] == 'parse':
                if x[1][2] != self.spec['ty']:
                    self.bad(I, st, 'value-type', '%s parses its digits as %s' % (self.fn, x[1][2]))
                self.text(I, st, x[1][3])
            elif core.opaque(x) or not (x[0] == 'k' or x[0] == 't' and x[1][0] in ('op', 'lin')):
                self.undec('%s: value not followed' % self.fn)
            elif x[0] == 'k' or contains_parse(x):
                self.bad(I, st, 'value', '%s returns %s instead of the number it consumed' % (self.fn, show(x)))
            else:
                self.undec('%s: value not followed' % self.fn)

    def text(self, I, st, val):
        lo, back = self.spec.get('cut', (0, 0))
        n = st.ghost['n']
        s = I.strnorm(st, val)
        parts = s[1] if s[0] == 'str' else (('v', s),)
        parts = TP.merge(parts, n, st.ghost['h'])
        if isinstance(n, int) and n - back - lo == 0:
            want, ok = "''", parts == ()
        else:
            want = ('v', core.T(('seg', lo, back)))
            if parts and parts[0][0] == 'abs':
                ok = len(parts) == 1 and isinstance(n, int) and parts[0][1] == lo and parts[0][2] == n - back
            else:
                ok = parts == (want,)
        if ok:
            return
        if core.has_tag(parts, ('old', 'wid', 'opq')) or any(p[0] == 'v' and not tapeish(p[1]) for p in parts):
            self.undec('%s: result text not followed' % self.fn)
            return
        self.bad(I, st, 'text', '%s returns %s although it consumed %s' % (
            self.fn, show(('str', tuple(p for p in parts if p[0] != 'abs'))), describe(n, lo, back)))

    def failure(self, I, st, e):
        name = e[2] if e[0] == 'a' else None
        if name is None:
            self.undec('%s: unresolved error value' % self.fn)
            return
        self.ob('error exits: named character, position and reason')
        f = fields(e)
        q = st.ghost['q']
        eof = st.ghost['eof']
        complete = q in self.spec['acc']
        if name == 'UnexpectedCharError':
            if eof is not False:
                self.bad(I, st, 'unexpected-at-end', '%s reports an unexpected character where there may be none' % self.fn)
                return
            self.samechar(I, st, f.get('chr'))
            self.samepos(I, st, f.get('pos'))
            if self.spec['kind'] == 'sym':
                if I.decide(st, I.op_ceq(core.T(TP.LA), S('sym'))[1]) is not False and not self.vague(st):
                    self.bad(I, st, 'rejects-valid', '%s rejects the symbol it is asked for' % self.fn)
                return
            m = self.next_possible(I, st)
            if (m or complete) and not self.vague(st):
                self.bad(I, st, 'rejects-valid', '%s rejects %s although it belongs to the token'
                         % (self.fn, CH.show(m) if m else 'a complete token'))
        elif name == 'EndOfCharsError':
            if eof is not True:
                self.bad(I, st, 'end-not-at-end', '%s reports the end of the input although a character may be left'
                         % self.fn)
            self.samepos(I, st, f.get('pos'))
            if complete:
                self.bad(I, st, 'rejects-valid', '%s fails although it consumed a complete token' % self.fn)
        else:
            # only a number that does not fit its type may be refused here
            if complete and self.spec['kind'] == 'num':
                unfit = any(k[0] == 'b' and v is False and k[1][0] == 'op' and k[1][1] == 'parses'
                            for k, v in st.facts.items())
                if not unfit:
                    self.bad(I, st, 'rejects-valid', '%s refuses a number that fits its type' % self.fn)
                elif self.next_possible(I, st):
                    self.bad(I, st, 'stops-early', '%s judges a number before it is complete' % self.fn)
            elif not complete:
                self.bad(I, st, 'unnamed-error', '%s fails with %s, which does not name what is wrong' % (self.fn, name))
            else:
                self.bad(I, st, 'rejects-valid', '%s fails although it consumed a complete token' % self.fn)

    def samechar(self, I, st, v):
        if v is None:
            return
        v = I.deep(st, v)
        if v == core.T(TP.LA):
            return
        r = I.decide(st, I.op_ceq(v, core.T(TP.LA))[1])
        if r is True:
            return
        if core.opaque(v):
            self.undec('%s: error character not followed' % self.fn)
            return
        self.bad(I, st, 'error-char', '%s names %s in its error instead of the next character' % (self.fn, show(v)))

    def samepos(self, I, st, v):
        if v is None:
            return
        v = I.deep(st, v)
        p = TP.poslin(I, v)
        if p == (((TP.NOW, 1),), 0):
            return
        if core.opaque(v):
            self.undec('%s: error position not followed' % self.fn)
            return
        self.bad(I, st, 'error-pos', '%s reports position %s instead of the current one' % (self.fn, show(v)))

    def panic(self, I, st, kind, c):
        if self.vague(st) or kind.startswith('Overflow'):
            return      # positions and lengths do not reach usize::MAX
        self.bad(I, st, 'panic', '%s can panic (%s)' % (self.fn, kind))


def tapeish(v):
    if v[0] == 't':
        v = v[1]
    return v[0] in ('ch', 'seg', 'la', 'op', 'in')


def contains_parse(v):
    if isinstance(v, tuple):
        if len(v) > 2 and v[0] == 'op' and v[1] == 'parse':
            return True
        return any(contains_parse(x) for x in v if isinstance(x, tuple))
    return False


def describe(n, lo, back):
    if isinstance(n, int):
        return '%d character(s), of which offsets %d..%d are the text' % (n, lo, n - back)
    return 'a longer text'


L1 = ('consumes-outside', 'accepts-partial', 'stops-early', 'text', 'value', 'value-type', 'rejects-valid', 'panic')


def analyse(F, rep, keep):
    for name in sorted(SPECS):
        key = rep.anchor(F, WHERE[name], name=name, path=WHERE[name])
        if key is None:
            continue
        cl = Lexer(name, SPECS[name])
        args = [S('pp')] + ([S('sym')] if name == 'parse_symbol' else [])
        run(rep_filter(rep, keep), F, cl, key, args, label=WHERE[name], ghost=cl.init_ghost())
        rep.ob('lexical functions analysed')


class rep_filter:
    """keep only the violations that belong to one property"""
    def __init__(self, rep, keep):
        self.rep, self.keep = rep, keep

    def merge(self, client, I, root):
        client.violations = {k: v for k, v in client.violations.items() if self.keep(k.split('|')[1])}
        self.rep.merge(client, I, root)

    @property
    def notes(self):
        return self.rep.notes


def l01(F, rep):
    rep.rule('token automaton typestate over the relative tape: every consumed character advances the automaton, '
             'success only in an accepting state that cannot be continued, result text = consumed segment')
    analyse(F, rep, lambda k: k in L1)


def l02(F, rep):
    rep.rule('error exits: the named character is the lookahead, the position is the current one, '
             'end-of-input errors only when the tape has ended')
    analyse(F, rep, lambda k: k not in L1)
