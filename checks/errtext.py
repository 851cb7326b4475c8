"""E02: the text of an error and the error inside an error."""
from engine import core, models
from engine.core import K, T
from .common import S, run, definite, show

# what the text of an error shows: variant -> fields of it
TEXT = {
    'ParserError': {'UnexpectedCharError': ('chr', 'pos', 'expected'), 'EndOfCharsError': ('pos',),
                    'UnknownSpecialOperation': ('operation', 'pos')},
    'GrammarError': {'MissingFollowSet': ('index',), 'MissingElementForIndex': ('index',), 'MissingFirstSet': ('index',),
                     'MissingSteuerSet': ('index',), 'MissingProduction': ('index',), 'LeftRecursion': ('index',),
                     'UnexpectedElementError': ('reason', 'pos')},
}
WHERE = {'ParserError': 'errors::ParserError', 'GrammarError': 'errors::GrammarError'}


class Text(core.Client):
    """everything written to the formatter on a path"""
    summarise = True

    def __init__(self, err):
        super().__init__()
        self.err = err

    def call(self, I, st, c):
        out = st.ghost['out']
        if out is None or not c.args:
            return None
        f = lambda v: v[0] == 'r' and v[1] == (('S', ('in', 'f')), ()) or v == S('f') or I.deep(st, v) == S('f')
        if c.name in ('write_fmt', 'write_str', 'write_char', 'pad') and f(c.args[0]):
            if c.name == 'write_fmt':
                ps = models.fmt_pieces(I, st, c.args[1])
            elif c.name == 'write_char':
                ps = [('c', c.args[1])]
            else:
                x = I.strnorm(st, I.deep(st, c.args[1]))
                ps = list(x[1]) if x[0] == 'str' else [('v', x)]
            return self.put(I, st, ps)
        if c.name == 'fmt' and len(c.args) == 2 and f(c.args[1]) and not (c.f.get('local') and c.f.get('inst')):
            return self.put(I, st, [('v', I.deep(st, c.args[0]))])
        return None

    def put(self, I, st, ps):
        st.ghost['out'] = None if ps is None else st.ghost['out'] + tuple(ps)
        bad = st.copy()
        bad.ghost['out'] = None
        return [(st, core.Ok(core.UNIT)), (bad, core.Err(T(('fmt-error',))))]

    def ret(self, I, st, v):
        out = st.ghost['out']
        if I.known_variant(st, I.deep(st, v)) == 'Err':
            return
        kind = I.known_variant(st, S('self'))
        want = TEXT[self.err].get(kind)
        if want is None:
            return
        self.ob('texts of errors')
        if out is None or any(core.opaque(p[1]) if p[0] != 'lit' else False for p in out):
            return self.undec('%s: text' % kind)
        if any(p[0] != 'lit' and core.has_tag(p[1], ('fmtv', 'wid')) for p in out):
            return self.undec('%s: text' % kind)
        for n in want:
            t = ('.', ('.', ('in', 'self'), ('v', kind)), n)
            at = [i for i, p in enumerate(out) if p[0] != 'lit' and core.contains(p[1], t)]
            if not at:
                self.bad(I, st, '%s|%s' % (kind, n), 'the text of %s does not show its %s' % (kind, n))
            elif all(core.contains(out[i], ('op', 'shown', 'new_display+ cut', T(t))) for i in at):
                self.bad(I, st, '%s|%s|cut' % (kind, n), 'the text of %s shows only the beginning of its %s' % (kind, n))
            elif n != 'pos' and 'pos' in want and all(i and out[i - 1][0] == 'lit' and out[i - 1][1].rstrip().endswith(' pos') for i in at):
                self.bad(I, st, '%s|%s|place' % (kind, n), 'the text of %s shows its %s as the position' % (kind, n))

    def bad(self, I, st, key, msg):
        if definite(st):
            self.violation(key, msg, I.where(st))
        else:
            self.undec(key)

    def panic(self, I, st, kind, c):
        if definite(st) and not kind.startswith('Overflow'):
            self.bad(I, st, 'panic', 'showing a %s can panic (%s)' % (self.err, kind))


class Wrap(core.Client):
    """a lower error made into a ParserError is still that error"""
    summarise = True

    def __init__(self, frm):
        super().__init__()
        self.frm = frm

    def ret(self, I, st, v):
        v = I.deep(st, v)
        self.ob('conversions of errors')
        k = I.known_variant(st, v)
        want = {'GrammarError': 'GramError', 'TreeError': 'TreeError'}[self.frm]
        if k is None or core.opaque(v):
            return self.undec('conversion of a %s' % self.frm)
        if k != want:
            return self.bad(I, st, 'kind', 'a %s becomes a %s' % (self.frm, k))
        fs = [x for _, x in v[3]] if v[0] == 'a' else []
        if not any(x == S('err') or self.rebuilt(I, st, x) for x in fs):
            self.bad(I, st, 'content', 'a %s is replaced by %s when it is passed on' % (self.frm, show(v)))

    def rebuilt(self, I, st, x):
        """the same variant with the same fields"""
        if x[0] != 'a' or x[2] is None or I.known_variant(st, S('err')) != x[2]:
            return False
        return all(I.deep(st, y) == T(('.', ('.', ('in', 'err'), ('v', x[2])), n)) for n, y in x[3])

    bad = Text.bad


def e02(F, rep):
    rep.rule('everything an error writes when it is shown, per variant, contains the facts it carries; converting an error '
             'keeps it')
    for err, ty in WHERE.items():
        k = [k for k in F.fns if F.fns[k]['local'] and F.fns[k]['name'] == 'fmt' and (F.fns[k].get('impl_self') or '').endswith(ty)
             and (F.fns[k].get('impl_trait') or '').endswith('::Display')]
        if len(k) != 1:
            rep.undec('Display of ' + err)
            continue
        run(rep, F, Text(err), k[0], [S('self'), S('f')], ghost={'out': ()}, label='Display of ' + err)
    for frm in ('GrammarError', 'TreeError'):
        k = [k for k in F.fns if F.fns[k]['local'] and F.fns[k]['name'] == 'from' and (F.fns[k].get('impl_self') or '').endswith('errors::ParserError')
             and F.fns[k]['locals'][1]['ty'].endswith(frm)]
        if len(k) != 1:
            rep.undec('conversion of ' + frm)
            continue
        run(rep, F, Wrap(frm), k[0], [S('err')], label='From<%s>' % frm)
