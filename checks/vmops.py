"""V03 / V04: instruction semantics of the two stack machines."""
from engine import core, models, strings
from engine.core import K, T
from . import vmtext
from .common import S, run, definite, cases, show

STATE = (('S', ('in', 'state')), ())


def fieldpl(name):
    return (STATE[0], (name,))


def init(name):
    return T(('.', ('in', 'state'), name))


# what a print instruction shows
PRINTS = {'PrintReg': 'reg', 'PrintReg2': 'reg2', 'PrintError': 'error'}


class Ops(core.Client):
    def __init__(self, vm, ty, rep):
        super().__init__()
        self.vm, self.ty = vm, ty
        self.panics = {}
        self.variants = set()

    def call(self, I, st, c):
        if 'std::io' in c.path:
            old = st.ghost.get('printed', ())
            ps = models.fmt_pieces(I, st, c.args[0]) if c.name == '_print' and c.args else None
            st.ghost['printed'] = None if ps is None or old is None else old + tuple(ps)
        return None

    def panic(self, I, st, kind, c):
        if kind == 'index' and in_tree(c, st):
            self.ob('tree links are in bounds (T02)')
            return
        v = st.facts.get(('var', ('in', 'ins')), '?')
        if definite(st):
            self.panics['%s|%s|panic|%s' % (self.vm, v, kind)] = (
                '%s: executing %s can panic (%s)' % (self.vm, v, kind), I.where(st))
        else:
            self.undec('%s: panic after an unmodelled condition' % self.vm)

    # -- the documented machine ------------------------------------------
    def ret(self, I, st, val):
        v = st.facts.get(('var', ('in', 'ins')))
        if v is None:
            no = st.facts.get(('varn', ('in', 'ins')), frozenset())
            info = self.adt(I)
            left = [x['name'] for x in info['variants'] if x['name'] not in no]
        else:
            left = [v]
        for v in left:
            self.variants.add(v)
            s = st.copy()
            s.facts[('var', ('in', 'ins'))] = v
            try:
                rs = cases(I, s, lambda x, v=v: self.compare(I, x, v))
            except core.Unmodelled as e:
                self.undec('%s %s: %s' % (self.vm, v, e))
                continue
            for s2, bad in rs:
                self.ob('%s: exit states compared with the machine table' % self.vm)
                if bad is None:
                    continue
                if not definite(s2) or bad[0] == 'undecided' or v == 'PushFromTree' and not self.read_as(I, s2, bad):
                    self.undec('%s %s: %s' % (self.vm, v, bad[1]))
                    continue
                self.violation('%s|%s|%s' % (self.vm, v, bad[0]), '%s: %s: %s' % (self.vm, v, bad[1]), I.where(st))

    def read_as(self, I, s, bad):
        """there is a text in the tree that takes this path and for which the machine differs from the table"""
        s = s.copy()
        leaf = self.leaf(I, s)
        if leaf is None or leaf[0] != 't':
            return True
        ts = strings.numbers(s, leaf[1])
        if ts is None:
            return not any(strings.has(k, strings.FNS) for k, _ in strings.about(s, leaf[1]))
        if bad[0] == 'stack':
            got = norm(I, I.deep(s, I.read(s, fieldpl('stack'))))
            if got[0] == 'vec' and len(got[2]) == 1:
                try:
                    ts = [x for x in ts if strings.ev(got[2][0], leaf[1], x) != strings.number(self.ty, x)]
                except strings.Unknown:
                    return not strings.has(got[2][0], strings.FNS)
        return bool(ts)

    def adt(self, I):
        for p, a in I.F.adts.items():
            if p.endswith(self.module + '::Instruction'):
                return a
        return None

    def fits(self, I, s, op, a, b):
        if op in ('add', 'mul') and repr(a) > repr(b):
            a, b = b, a
        return I.test(s, T(('op', 'fits', op, self.ty, a, b)))

    def compare(self, I, s, v):
        stack, reg, reg2, err = init('stack'), init('reg'), init('reg2'), init('error')
        exp = {'stack': [stack], 'reg': reg, 'reg2': reg2, 'error': err}
        popped = T(('op', 'init', stack))
        top = T(('op', 'last', stack))
        arg = T(('.', ('.', ('in', 'ins'), ('v', v)), '0'))
        unsigned = self.ty == 'usize'

        def fail(code):
            exp['error'] = K('int', code)
            exp['stack'] = [stack, popped]

        def empty():
            return I.test(s, I.ieq(T(('op', 'len', stack)), K('int', 0)))
        if v in ('Add', 'Sub', 'Pow', 'PopToReg', 'PopToReg2', 'PopDiscard') and empty():
            fail(1)
            exp['stack'] = [stack]
        elif v == 'Add':
            if self.fits(I, s, 'add', reg, top):
                exp['stack'] = [('vec', popped, (I.iadd(reg, top),))]
            else:
                fail(3)
        elif v == 'Sub':
            if self.fits(I, s, 'sub', top, reg):
                exp['stack'] = [('vec', popped, (I.iadd(top, reg, -1),))]
            else:
                fail(3)
        elif v == 'Pow':
            r = self.power(I, s, top, reg, reg2, arg, unsigned)
            if r is None:
                fail(3)
            else:
                exp['stack'] = [('vec', popped, (r,))]
        elif v == 'PopToReg':
            exp['stack'], exp['reg'] = [popped], top
        elif v == 'PopToReg2':
            exp['stack'], exp['reg2'] = [popped], top
        elif v == 'PopDiscard':
            exp['stack'] = [popped]
        elif v == 'PushConst':
            exp['stack'] = [('vec', stack, (arg,))]
        elif v == 'PushReg':
            exp['stack'] = [('vec', stack, (reg,))]
        elif v == 'PushReg2':
            exp['stack'] = [('vec', stack, (reg2,))]
        elif v == 'RegAddConst':
            if self.fits(I, s, 'add', reg, arg):
                exp['reg'] = I.iadd(reg, arg)
            else:
                fail(3)
                exp['stack'] = [stack]
        elif v == 'PushFromTree':
            leaf = self.leaf(I, s)
            if leaf is None:
                exp['error'] = K('int', 1)
            elif I.test(s, T(('op', 'parses', self.ty, leaf))):
                exp['stack'] = [('vec', stack, (T(('op', 'parse', self.ty, leaf)),))]
            else:
                exp['error'] = K('int', 2)
        elif v in ('Digit',):
            pass
        elif v in ('PrintReg', 'PrintReg2', 'PrintError'):
            pass
        else:
            return None         # an instruction this table does not know
        for f in ('error', 'stack', 'reg', 'reg2'):
            got = I.deep(s, I.read(s, fieldpl(f)))
            want = exp[f] if isinstance(exp[f], list) else [exp[f]]
            if any(self.same(I, s, got, w) for w in want):
                continue
            if core.opaque(got):
                return ('undecided', f + ' not followed')
            cond = 'stack empty' if I.decide(s, I.ieq(T(('op', 'len', stack)), K('int', 0))[1]) else ''
            return ('%s%s' % (f, '|error' if exp['error'] != err else ''),
                    '%s becomes %s, the instruction table says %s %s' % (f, show(got), show(want[0]), cond))
        if v in PRINTS:
            out = s.ghost.get('printed', ())
            if out is None or any(p[0] != 'lit' and (core.opaque(p[1]) or core.has_tag(p[1], ('fmtv', 'wid'))) for p in out):
                return ('undecided', 'what is printed')
            t = ('.', ('in', 'state'), PRINTS[v])
            if not any(p[0] != 'lit' and core.contains(p[1], t) for p in out):
                return ('printed', 'what is printed is %s, not %s' % (
                    ' '.join(repr(p[1]) if p[0] == 'lit' else show(p[1]) for p in out) or 'nothing', PRINTS[v]))
        tree = s.mem.get(('S', ('in', 'tree')))
        if tree is not None and I.deep(s, tree) != T(('in', 'tree')) and not core.opaque(tree):
            return ('tree', 'the instruction modifies the syntax tree')
        return None

    def same(self, I, s, got, want):
        got = norm(I, got)
        want = norm(I, want)
        if got == want:
            return True
        if got[0] in ('k', 't') and want[0] in ('k', 't'):
            r = I.decide(s, I.ieq(got, want, self.ty == 'usize')[1]) if not (got[0] == 'k' and want[0] == 'k') else (
                got[2] == want[2])
            return r is True
        if got[0] == 'vec' and want[0] == 'vec' and got[1] == want[1] and len(got[2]) == len(want[2]):
            return all(self.same(I, s, a, b) for a, b in zip(got[2], want[2]))
        return False

    def power(self, I, s, top, reg, reg2, base, unsigned):
        """top * base^reg + reg2 when every step fits, else None"""
        if not unsigned and I.test(s, I.ilt(reg, K('int', 0), False)):
            return None
        if I.test(s, I.ilt(K('int', (1 << 32) - 1), reg, unsigned)):
            return None
        e = T(('op', 'cast', 'u32', reg))
        if not I.test(s, T(('op', 'fits', 'pow', 'usize', base, e))):
            return None
        p = T(('op', 'pow', base, e))
        if not unsigned:
            if I.test(s, I.ilt(K('int', (1 << 63) - 1), p)):
                return None
            p = T(('op', 'cast', 'isize', p))
        if not self.fits(I, s, 'mul', top, p):
            return None
        m = T(('op', 'mul') + tuple(sorted((top, p), key=repr)))
        if not self.fits(I, s, 'add', m, reg2):
            return None
        return I.iadd(m, reg2)

    def leaf(self, I, s):
        """text of the first child of the current node, None if there is no such node"""
        ptr = T(('.', ('in', 'node'), 'node_ptr'))
        nodes = T(('.', ('in', 'tree'), 'nodes'))
        if not I.test(s, I.ilt(ptr, T(('op', 'len', nodes)))):
            return None
        if I.test(s, T(('op', 'vhas', T(('.', ('in', 'tree'), 'free_node_indexes')), ptr))):
            return None
        node = I.index(s, nodes, ptr)
        if not I.test(s, I.ieq(I.project(s, node, 'pk'), T(('.', ('in', 'node'), 'node_pk')))):
            return None
        fc = I.project(s, node, 'first_child')
        if I.variant(s, fc, 'core::option::Option') == 'None':
            return None
        i = I.project(s, I.project(s, fc, ('v', 'Some')), '0')
        return I.project(s, I.index(s, nodes, i), 'data')


def norm(I, v):
    if v[0] == 'vec':
        base, items = v[1], v[2]
        while base is not None and base[0] == 'vec':
            items = base[2] + items
            base = base[1]
        if not items and base is not None:
            return base
        return ('vec', base, tuple(norm(I, x) for x in items))
    return v


def in_tree(c, st):
    """the index goes into the node table of a tree"""
    return any('Node<' in str(a) or core.contains(a, 'nodes') for a in (c.args or [])) or 'nodes' in repr(c.args)[:4000]


VMS = (('StackVm', 'vms::stack_vm', 'isize'), ('SimpleStackVm', 'vms::simple_stack_vm', 'usize'))


def analyse(F, rep, what):
    for vm, mod, ty in VMS:
        key = rep.anchor(F, vm + '::execute_instruction', name='execute_instruction', self_ty='::' + vm, trait='VM')
        if key is None:
            continue
        cl = Ops(vm, ty, rep)
        cl.module = mod
        args = [S('self'), S('tree'), S('node'), S('ins'), S('state')]
        if what == 'panic':
            cl.ret = lambda I, st, v: cl.ob('%s: exit states' % vm)
        I = run_keep(rep, F, cl, key, args, what)
        if what == 'ops':
            info = cl.adt(I)
            names = {x['name'] for x in info['variants']} if info else set()
            for n in sorted(names - cl.variants):
                cl.undec('no exit state of %s %s was reached' % (vm, n))
            rep.ob('instructions analysed', len(cl.variants))
        else:
            for k, (m, w) in cl.panics.items():
                rep.violation(k, m, w)


def run_keep(rep, F, cl, key, args, what):
    return run(rep, F, cl, key, args)


def v03(F, rep):
    rep.rule('final abstract state of every instruction on every path equals the documented machine table '
             '(operands from the current stack and registers, error code on underflow, unusable leaf or overflow)')
    analyse(F, rep, 'ops')


class Quiet(core.Client):
    """V04 for the machines without a stack: executing an instruction returns normally"""
    def __init__(self, vm):
        super().__init__()
        self.vm = vm

    def panic(self, I, st, kind, c):
        if definite(st):
            self.violation('%s|panic|%s' % (self.vm, kind), '%s: executing an instruction can panic (%s)' % (self.vm, kind), I.where(st))
        else:
            self.undec('%s: panic after an unmodelled condition' % self.vm)

    def ret(self, I, st, v):
        self.ob('%s: exit states' % self.vm)


def machines(F, name):
    out = {}
    for k in F.find(name=name):
        f = F.fns[k]
        if f['local'] and (f.get('impl_trait') or '').endswith('VM'):
            out[core.short(f.get('impl_self') or '')] = k
    return out


def v04(F, rep):
    rep.rule('no path through an instruction of a supplied machine reaches a panicking operation '
             '(overflow checks, unwraps, indexing); wrapping arithmetic never reaches a register or the stack')
    analyse(F, rep, 'panic')
    for vm, k in sorted(machines(F, 'execute_instruction').items()):
        if vm not in [x[0] for x in VMS]:
            run(rep, F, Quiet(vm), k, [S('self'), S('tree'), S('node'), S('ins'), S('state')], label=vm + '::execute_instruction')


# ---------------------------------------------------------------------------
# V07: where a machine starts, and the two machines without a stack
START = {
    'StackVm': {'stack': (), 'reg': 0, 'reg2': 0, 'error': 0, 'instruction_counter': 0, 'instructions': ()},
    'SimpleStackVm': {'stack': (), 'reg': 0, 'reg2': 0, 'error': 0},
    'CountingVm': 0,
    'NullVm': 0,
}


class Fresh(core.Client):
    """a new machine has an empty stack, no error, and has counted nothing"""
    def __init__(self, vm):
        super().__init__()
        self.vm = vm

    def ret(self, I, st, v):
        v = I.deep(st, v)
        self.ob('fresh states')
        want = START[self.vm]
        if not isinstance(want, dict):
            return self.judge(I, st, '', v, want)
        if v[0] != 'a':
            return self.undec('%s: fresh state' % self.vm)
        for n, x in v[3]:
            if n in want:
                self.judge(I, st, n, I.deep(st, x), want[n])

    def judge(self, I, st, n, got, want):
        if want == ():
            got = norm(I, got)
            ok = got == ('vec', None, ())
            sure = got[0] == 'vec' and got[1] is None
        else:
            ok = got == K('int', want)
            sure = got[0] == 'k'
        if ok:
            return
        if sure and definite(st) and not core.opaque(got):
            self.violation('%s|fresh|%s' % (self.vm, n), '%s: a new machine starts with %s %s' % (self.vm, n, show(got)), I.where(st))
        else:
            self.undec('%s: fresh %s' % (self.vm, n))


class Counts(core.Client):
    """what one executed instruction does to the state of a machine without a stack"""
    def __init__(self, vm, inc):
        super().__init__()
        self.vm, self.inc = vm, inc

    def ret(self, I, st, v):
        self.ob('%s: exit states' % self.vm)
        tree = st.mem.get(('S', ('in', 'tree')))
        if tree is not None and I.deep(st, tree) != S('tree') and not core.opaque(tree) and definite(st):
            self.violation('%s|tree' % self.vm, '%s: an instruction modifies the syntax tree' % self.vm, I.where(st))

        def compare(s):
            got = I.deep(s, I.read(s, STATE))
            if core.opaque(got):
                return 'undecided', got
            if self.inc and not I.test(s, T(('op', 'fits', 'add', 'usize') + tuple(sorted((S('state'), K('int', 1)), key=repr)))):
                return None, got        # at the limit of the counter
            want = I.iadd(S('state'), K('int', 1)) if self.inc else S('state')
            if got == want or I.decide(s, I.ieq(got, want, True)[1]) is True:
                return None, got
            return 'bad', got
        for s, (bad, got) in cases(I, st, compare):
            if bad is None:
                continue
            if bad == 'undecided' or not definite(s):
                self.undec('%s: state' % self.vm)
            else:
                self.violation('%s|state' % self.vm, '%s: executing an instruction makes the state %s' % (self.vm, show(got)), I.where(s))


def v07(F, rep):
    rep.rule('abstract result of create_new_state per machine; state and tree after an instruction of the machines without a stack')
    fresh = machines(F, 'create_new_state')
    for vm in START:
        if vm not in fresh:
            rep.violation('anchor|' + vm, 'the machine %s does not implement create_new_state' % vm)
            continue
        run(rep, F, Fresh(vm), fresh[vm], [], label=vm + '::create_new_state')
    ex = machines(F, 'execute_instruction')
    for vm, inc in (('CountingVm', 1), ('NullVm', 0)):
        if vm not in ex:
            rep.violation('anchor|' + vm, 'the machine %s does not implement execute_instruction' % vm)
            continue
        run(rep, F, Counts(vm, inc), ex[vm], [S('self'), S('tree'), S('node'), S('ins'), S('state')], label=vm + '::execute_instruction')
    vmtext.v07_section(F, rep)
