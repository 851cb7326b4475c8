"""V01 / V02 / V05: what the machines do with the text of an instruction section."""
from engine import core, strings, chars as CH
from engine.core import K, T
from . import tape as TP
from .common import S, run, definite, show, isok, iserr, payload

LEX = {
    'parse_whitespace': None,
    'parse_var_name': 'name',
    'parse_digits': 'digits',
    'parse_usize': 'usize',
    'parse_isize': 'isize',
}
LIMIT = 2


class Tokens(TP.Tape):
    """tape with the public lexical functions as contract operations (verified by L01/L02)

    ghost toks: tokens consumed since the start
    """
    limit = None

    def init_ghost(self):
        g = super().init_ghost()
        g['toks'] = ()
        return g

    def lexer(self, c):
        p = c.path
        if 'parse_funcs::' in p and c.f.get('local', True):
            return c.name
        return None

    def forget(self, st):
        """an unknown number of characters was consumed"""
        for _ in range(TP.KEEP + 2):
            TP.tsubst(st, TP.shift)
        st.ghost['eof'] = None

    def tok(self, st, kind, v):
        st.ghost['toks'] = st.ghost['toks'] + ((kind, v),)

    def prune(self, st):
        return False

    def call(self, I, st, c):
        r = super().call(I, st, c)
        if r is not None:
            return r
        n = self.lexer(c)
        if n is None:
            return None
        if n == 'parse_symbol':
            sym = I.deep(st, c.args[1])
            outs = []
            for s, p in self.look(I, st):
                if not p:
                    outs.append((s, core.Err(T(('opq', 'lexerr')))))
                    continue
                for s2, eq in self.branch(I, s, I.op_ceq(T(TP.LA), sym)):
                    if not eq:
                        outs.append((s2, core.Err(T(('opq', 'lexerr')))))
                        continue
                    self.tok(s2, 'sym', sym)
                    if self.prune(s2):
                        continue
                    for s3, ch in self.consumes(I, s2, c):
                        outs.append((s3, core.Ok(core.UNIT)))
            return outs
        if n not in LEX:
            return None
        kind = LEX[n]
        if kind is None:
            self.forget(st)
            self.after_ws(st)
            return [(st, core.UNIT)]
        bad, good = st.copy(), st
        i = len(good.ghost['toks'])
        self.tok(good, kind, T(('tok', kind, i)))
        self.forget(bad)
        outs = [(bad, core.Err(T(('opq', 'lexerr'))))] if kind != 'digits' else []
        self.forget(good)
        if not self.prune(good):
            outs.append((good, core.Ok(T(('tok', kind, i)))))
        return outs

    def after_ws(self, st):
        st.facts[('cd', TP.LA)] = CH.ALL & ~CH.WS

    def on_consume(self, I, st, c):
        # a character taken without a lexical function
        n = c.name
        if n in ('parse_symbol',):
            return True
        return self.raw(I, st, c)

    def raw(self, I, st, c):
        return True


VMS = ('NullVm', 'CountingVm', 'SimpleStackVm', 'StackVm')


class Once(Tokens):
    """V07: one instruction per section of the counting machine"""
    def tok(self, st, kind, v):
        pass

    def ret(self, I, st, v):
        v = I.deep(st, v)
        if iserr(v) or not isok(v):
            return
        self.ob('instructions per section')
        x = I.deep(st, payload(v))
        if x[0] != 'vec' or x[1] is not None or core.opaque(x) or not definite(st):
            self.undec('CountingVm: instructions of a section')
        elif len(x[2]) != 1:
            self.violation('CountingVm|section', 'CountingVm: a section can become %d instructions' % len(x[2]), I.where(st))


def v07_section(F, rep):
    rep.rule('the counting machine makes exactly one instruction of a section, on every path')
    for k in F.find(name='parse_instructions'):
        f = F.fns[k]
        if (f.get('impl_trait') or '').endswith('VM') and (f.get('impl_self') or '').endswith('::CountingVm'):
            cl = Once()
            run(rep, F, cl, k, [S('self'), S('prod_name'), S('pp')], ghost=cl.init_ghost(), label='CountingVm::parse_instructions')


class Drain(Tokens):
    def __init__(self, vm):
        super().__init__()
        self.vm = vm

    def tok(self, st, kind, v):
        pass

    def ret(self, I, st, v):
        v = I.deep(st, v)
        if iserr(v):
            self.ob('refusing exits')
            return
        if not isok(v):
            self.undec('%s: unresolved result' % self.vm)
            return
        self.ob('successful exits: the section is read to its end')
        if st.ghost['eof'] is not True:
            if not definite(st):
                self.undec('%s: exit after an unmodelled condition' % self.vm)
                return
            self.violation('%s|section-left' % self.vm,
                           '%s::parse_instructions can return Ok with characters of the section unread' % self.vm,
                           I.where(st))

    def panic(self, I, st, kind, c):
        if definite(st) and not kind.startswith('Overflow'):
            self.violation('%s|panic|%s' % (self.vm, kind), '%s::parse_instructions can panic (%s)' % (self.vm, kind),
                           I.where(st))


def v01(F, rep):
    rep.rule('typestate of the section view: every Ok exit of parse_instructions is reached only after the view '
             'reported its end and nothing was consumed since')
    keys = F.find(name='parse_instructions')
    vms = {}
    for k in keys:
        f = F.fns[k]
        if (f.get('impl_trait') or '').endswith('VM'):
            vms[core.short(f.get('impl_self') or '')] = k
    for vm in VMS:
        if vm not in vms:
            rep.violation('anchor|' + vm, 'the machine %s does not implement parse_instructions' % vm)
    for vm, k in sorted(vms.items()):
        cl = Drain(vm)
        run(rep, F, cl, k, [S('self'), S('prod_name'), S('pp')], ghost=cl.init_ghost())
        rep.ob('machines analysed')


# ---------------------------------------------------------------------------
OPERAND = {'RegAddConst': 'isize', 'PushConst': 'isize', 'Pow': 'usize'}
PLAIN = ('Add', 'Sub', 'Digit', 'PopToReg', 'PopToReg2', 'PopDiscard', 'PushFromTree', 'PushReg', 'PushReg2',
         'PrintReg', 'PrintReg2', 'PrintError')


class Listing(Tokens):
    """StackVm: the emitted instructions are exactly those written, in order"""
    def __init__(self):
        super().__init__()
        self.seen = set()

    def prune(self, st):
        return sum(1 for k, _ in st.ghost['toks'] if k == 'name') > LIMIT

    def raw(self, I, st, c):
        st.ghost['toks'] = st.ghost['toks'] + (('raw', None),)
        if len(st.ghost['toks']) > 12:
            return False
        return True

    def ret(self, I, st, v):
        v = I.deep(st, v)
        if iserr(v):
            self.refused(I, st)
            return
        if not isok(v):
            self.undec('unresolved result')
            return
        got = I.deep(st, payload(v))
        toks = list(st.ghost['toks'])
        if any(k == 'raw' for k, _ in toks) or not definite(st):
            self.undec('characters read without a lexical function')
            return
        want = self.expected(I, st, toks)
        if want is None:
            return
        if isinstance(want, str):
            self.violation('StackVm|' + want.split(':')[0], want, I.where(st))
            return
        self.ob('accepted listings compared with the emitted instructions')
        if got[0] != 'vec' or got[1] is not None:
            if core.opaque(got) or got[0] == 't':
                self.undec('emitted instructions not followed')
                return
        if got[0] == 'vec':
            items = [I.deep(st, x) for x in got[2]]
            if len(items) == len(want):
                bad = None
                for a, (name, arg) in zip(items, want):
                    if a[0] != 'a' or core.opaque(a):
                        self.undec('emitted instruction not followed')
                        return
                    if a[2] != name:
                        bad = 'writes %s but emits %s' % (name, a[2])
                        break
                    if arg is not None:
                        x = I.deep(st, a[3][0][1]) if a[3] else None
                        if x != arg:
                            bad = '%s is emitted with operand %s instead of the one written' % (name, show(x))
                            break
                if bad is None:
                    for n, _ in want:
                        self.seen.add(n)
                    return
                self.violation('StackVm|%s|wrong' % name, 'a section %s' % bad, I.where(st))
                return
            n = want[-1][0] if want else '-'
            self.violation('StackVm|%s|count' % n, 'a section of %d instruction(s) (%s) emits %d' % (
                len(want), ', '.join(x for x, _ in want), len(items)), I.where(st))

    def name_of(self, I, st, t):
        for k, val in st.facts.items():
            if val is True and k[0] == 'b' and k[1][0] == 'op' and k[1][1] == 'eq':
                a, b = k[1][2], k[1][3]
                for x, y in ((a, b), (b, a)):
                    if y == t and x[0] == 'str' and len(x[1]) == 1 and x[1][0][0] == 'lit':
                        return x[1][0][1]
        return None

    def expected(self, I, st, toks):
        out = []
        i = 0
        while i < len(toks):
            k, t = toks[i]
            if k != 'name':
                return 'order: a token that starts no instruction is accepted (%s)' % k
            name = self.name_of(I, st, t)
            i += 1
            arg = None
            if i < len(toks) and toks[i][0] in ('usize', 'isize', 'digits'):
                if name in OPERAND:
                    if toks[i][0] != OPERAND[name]:
                        return 'operand: the operand of %s is read as %s' % (name, toks[i][0])
                    arg = toks[i][1]
                elif name in PLAIN:
                    return 'operand: %s is read with an operand' % name
                i += 1
            elif name in OPERAND:
                return 'operand: %s is accepted without its operand' % name
            if i < len(toks) and toks[i][0] == 'sym' and toks[i][1] == K('char', ';'):
                i += 1
            else:
                return 'terminator: an instruction is accepted without its semicolon'
            if name in OPERAND or name in PLAIN:
                out.append((name, arg))
            elif name is not None:
                return None          # a mnemonic this table does not know
        return out

    def refused(self, I, st):
        """a well formed prefix must not be refused: only a lexical function may report"""
        self.ob('refusing exits')

    def panic(self, I, st, kind, c):
        if definite(st) and not kind.startswith('Overflow'):
            self.violation('StackVm|panic|' + kind, 'parse_instructions can panic (%s)' % kind, I.where(st))


def v02(F, rep):
    rep.rule('token trace of the section text versus emitted instruction vector at every Ok exit, for listings of up '
             'to %d instructions and any further ones by the loop fixpoint' % LIMIT)
    k = rep.anchor(F, 'StackVm::parse_instructions', name='parse_instructions', self_ty='::StackVm', trait='VM')
    if k is None:
        return
    cl = Listing()
    run(rep, F, cl, k, [S('self'), S('prod_name'), S('pp')], ghost=cl.init_ghost())
    for n in PLAIN + tuple(OPERAND):
        if n in cl.seen:
            rep.ob('mnemonics reaching their instruction')
        elif not cl.undecided and not rep.violations:
            rep.violation('StackVm|%s|missing' % n, 'no path of parse_instructions emits %s for the mnemonic %s' % (n, n))


# ---------------------------------------------------------------------------
C1, C10 = K('int', 1), K('int', 10)
TABLE = {
    'add': [('PopToReg', None), ('Add', None)],
    'sub': [('PopToReg', None), ('Sub', None)],
    'number': [('PopDiscard', None)],
    'digit': [('PushFromTree', None), ('PushConst', C1)],
    'number_s_': [('PopToReg', None), ('PopToReg2', None), ('PopDiscard', None), ('Pow', C10), ('RegAddConst', C1),
                  ('PushReg', None)],
    'print': [('PopToReg', None), ('PrintReg', None)],
}


class ByName(Listing):
    def ret(self, I, st, v):
        v = I.deep(st, v)
        if not isok(v):
            self.undec('refusing exit')
            return
        got = I.deep(st, payload(v))
        self.ob('exits compared with the rule name table')
        if got[0] != 'vec' or got[1] is not None or not definite(st):
            self.undec('emitted instructions not followed')
            return
        items = []
        for x in got[2]:
            x = I.deep(st, x)
            if x[0] != 'a' or core.opaque(x):
                self.undec('emitted instruction not followed')
                return
            items.append((x[2], I.deep(st, x[3][0][1]) if x[3] else None))
        # the rule names (of the table, and others) that take this path
        names = strings.texts(st, S('prod_name')[1], True, tuple(TABLE))
        if not names:
            self.undec('rule name not followed')
            return
        for name in names:
            if name in TABLE:
                self.seen.add(name)
            if items != TABLE.get(name, []):
                if name not in TABLE and any(n in TABLE and items == TABLE[n] for n in names) and not strings.has(
                        tuple(st.facts), strings.FNS):
                    continue
                if name not in TABLE and not any(n in TABLE for n in names) and self.name_of(I, st, S('prod_name')) is not None:
                    continue             # a rule name this table does not know
                self.violation('SimpleStackVm|%s' % (name if name in TABLE else 'other'), 'rule name %s yields %s, the table says %s' % (
                    name, [a for a, _ in items], [a for a, _ in TABLE.get(name, [])]), I.where(st))
                return


def v06(F, rep):
    rep.rule('emitted instruction vector of SimpleStackVm::parse_instructions versus its rule-name table at every exit')
    k = rep.anchor(F, 'SimpleStackVm::parse_instructions', name='parse_instructions', self_ty='::SimpleStackVm',
                   trait='VM')
    if k is None:
        return
    cl = ByName()
    run(rep, F, cl, k, [S('self'), S('prod_name'), S('pp')], ghost=cl.init_ghost())
    for n in TABLE:
        if n not in cl.seen and not cl.undecided and not rep.violations and not cl.violations:
            rep.violation('SimpleStackVm|%s|missing' % n, 'no path emits the instructions of rule name %s' % n)
