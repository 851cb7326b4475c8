"""How the constructors put the analyses together: nothing that fails is passed over, every result goes where it belongs."""
from engine import core, points
from engine.core import K, T, Ok, Err, UNIT
from .analysis import Base, MOD, mentions
from .first import heads, newmark
from .common import S, definite, run, show

STEPS = {'get_first_sets': ('first', ('A05', 'A06')), 'get_follow_sets': ('follow', ('A06',)),
         'get_steuermaps': ('tables', ('A04',)), 'parse_rules': ('grammar', ('G02',))}
FIRSTS, FOLLOWS, TABLES = (T(('ctr', x)) for x in ('first', 'follow', 'tables'))


class Wiring(core.Client):
    def __init__(self, pid, data):
        super().__init__()
        self.pid, self.data = pid, data

    def say(self, st, pid, key, msg):
        if pid != self.pid:
            return
        if definite(st):
            self.violation(key, msg, self.label)
        else:
            self.undec('path with an unknown value: ' + key)

    def call(self, I, st, c):
        n = c.name
        if not c.f.get('local') or n not in STEPS and n not in ('get_elements_verbose', 'get_element_nt_index'):
            return None
        if n == 'get_element_nt_index':
            return [(st, core.Some(T(('ntix', I.deep(st, c.args[1])))))]
        if n == 'get_elements_verbose':
            return [(st, T(('elements', I.deep(st, c.args[0]))))]
        what = STEPS[n][0]
        self.ob('steps of construction')
        if n == 'parse_rules':
            root, proj = c.args[0][1]
            v = I.read(st, c.args[0][1])
            if v[0] == 'a':
                for f, x in v[3]:
                    if x[0] == 'a' and str(x[1]).endswith('::ParserData'):
                        I.write(st, (root, proj + (f,)), T(('parsed',)), None, False)
            ok = UNIT
        else:
            ok = T(('ctr', what))
            self.inputs(I, st, n, [I.deep(st, a) for a in c.args])
        bad = st.copy()
        bad.ghost['err'] = bad.ghost.get('err', frozenset()) | {n}
        return [(st, Ok(ok)), (bad, Err(T(('err', what))))]

    def inputs(self, I, st, n, args):
        need = {'get_first_sets': [], 'get_follow_sets': [('A02', FIRSTS, 'the FIRST sets')],
                'get_steuermaps': [('A03', FIRSTS, 'the FIRST sets'), ('A03', FOLLOWS, 'the FOLLOW sets')]}[n]
        pid = {'get_first_sets': 'A01', 'get_follow_sets': 'A02', 'get_steuermaps': 'A03'}[n]
        for p, v, msg in need + [(pid, self.data, 'the grammar')]:
            if v in args or any(mentions(a, v[1]) for a in args):
                self.ob('inputs found in place')
            elif any(core.opaque(a) for a in args):
                self.undec('input of %s not followed' % n)
            else:
                self.say(st, p, '%s input' % n, '%s is not given %s' % (n, msg))

    def ret(self, I, st, v):
        for n in sorted(st.ghost.get('err', ())):
            for pid in STEPS[n][1]:
                self.say(st, pid, '%s|passed over' % n, 'a parser is built although %s failed' % n)
        if st.ghost.get('err'):
            return
        self.ob('parsers built')
        v = I.deep(st, v)
        if v[0] == 'a' and core.short(str(v[1])) == 'Result':
            v = core.fld(v, '0')
        fields = dict(v[3]) if v[0] == 'a' else {}
        tables = [x for x in fields.values() if mentions(x, TABLES[1]) or x == TABLES]
        if fields and not tables and not any(core.opaque(x) for x in fields.values()):
            self.say(st, 'A03', 'tables not used', 'the parser does not get the control tables that were computed')

    def panic(self, I, st, kind, c):
        self.ob('refusals')


def wiring(F, rep, pid):
    for n, args, data in (('new_from_text', [S('text0'), S('vm')], T(('parsed',))),
                          ('new_from_parser_data', [S('data'), S('start'), S('vm')], S('data'))):
        k = F.find(name=n, self_ty='script_parser::Parser')
        if len(k) != 1:
            continue
        run(rep, F, Wiring(pid, data), k[0], args, n)


class Marks(Base):
    """a recursive walk over the rules goes on only under a mark that was not set before"""

    def __init__(self, F, head):
        super().__init__(F, 'char')
        self.head = head
        fn = F.fns[head]
        self.params = [(('in', 'p%d' % i), l['ty']) for i, l in enumerate(fn['locals'][1:fn['argc'] + 1])]
        self.own = {T(n) for n, ty in self.params if ty.lstrip('& ') == 'usize'}

    def recursion(self, I, st, c):
        if c.f.get('inst') != self.head:
            return None
        self.ob('recursive calls in walks over the rules')
        m = newmark(I, st, c.args, self.own)
        if m is False:
            self.v(st, 'walk without mark', 'the walk over the rules goes on to another rule without a mark, tested before, that the current one was visited')
        elif m is None:
            self.undec('mark of unknown kind')
        ty = self.F.fns[self.head]['locals'][0]['ty']
        r = T(I.mint(st, ('walk',)))
        if ty.startswith('core::result::Result') or ty.startswith('std::result::Result'):
            bad = st.copy()
            return [(st, Ok(r)), (bad, Err(T(('in', 'error'))))]
        return [(st, r)]


def marks(F, rep):
    entry = F.find(name='parse_rules', self_ty='RuleParser')
    if len(entry) != 1:
        return
    for h in heads(F, entry[0]):
        tys = [l['ty'] for l in F.fns[h]['locals'][1:F.fns[h]['argc'] + 1]]
        if not any(x in t for t in tys for x in ('ParseRules<', 'NonTerminalRules', 'ParserData<')) or \
                not any(t.lstrip('& ') == 'usize' for t in tys):
            continue
        cl = Marks(F, h)
        run(rep, F, cl, h, [T(n) for n, _ in cl.params], 'walk over the rules', max_states=100000, facts=dict(points.FACTS))
