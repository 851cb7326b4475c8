"""E03: elements, set members and node ids are equal exactly when all their parts are."""
from engine import core
from engine.core import K, T
from .common import S, run, definite, cases, show

TYPES = ('parser_data::ElementVerbose', 'parser_data::ElementType', 'parser_data::Element', 'sets::SetMember',
         'sets::SetMemberWithEmpty', 'tree::NodeId')
# functions that forget something of their argument
LOSSY = ('trim', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left', 'trim_right', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'eqic',
         'len', 'strlen', 'is_empty', 'cpred', 'intto_ascii_lowercase', 'intto_ascii_uppercase', 'intlen_utf8', 'cast u8', 'cast u16')


KINDS = {'name': 'String', 'et': 'parser_data::ElementType', 'ix': 'int', 'node_ptr': 'int', 'node_pk': 'int', '0': 'char'}


def parts(F, ty):
    """per variant of a type, [(part, kind of the part)]"""
    info = next((a for p, a in F.adts.items() if p.endswith('::' + ty)), None)
    if info is None:
        return None
    return info, {v['name']: [(n, KINDS[n]) for n in v['fields'] if n in KINDS] for v in info['variants']}


def root(x):
    return ('in', x)


class Eq(core.Client):
    def __init__(self, ty, want, part, key, msg):
        super().__init__()
        self.ty, self.want, self.part, self.key, self.msg = ty, want, part, key, msg

    def ret(self, I, st, v):
        v = I.deep(st, v)

        def judge(s):
            if v[0] not in ('k', 't') or core.opaque(v):
                return None
            return bool(v[2]) if v[0] == 'k' else I.test(s, v)
        for s, got in cases(I, st, judge):
            self.ob('comparisons judged')
            if got is None or 'opq' in s.notes or got == self.want or self.want and not definite(s):
                if got != self.want:
                    self.undec(self.key)
            else:
                if self.want is False and self.other(s, v):
                    self.undec(self.key)
                    continue
                self.violation('%s|%s' % (self.ty, self.key), self.msg, I.where(st))

    def other(self, s, v):
        """the answer depends on the differing part through something that may keep all of it"""
        found = set()
        for k, x in list(s.facts.items()) + [(v, True)]:
            ops(k, self.part, (), found)
        return any(not (set(f) & set(LOSSY)) for f in found if f)

    def panic(self, I, st, kind, c):
        if definite(st) and not kind.startswith('Overflow'):
            self.violation('%s|panic' % self.ty, 'comparing two values of %s can panic' % self.ty, I.where(st))


def ops(t, part, above, found):
    """the operations between the equality and a use of the part"""
    if not isinstance(t, tuple):
        return
    if part and t in part:
        found.add(above)
        return
    if len(t) > 1 and t[0] == 'op' and isinstance(t[1], str) and t[1] not in ('eq', 'ceq', 'ieq', 'not', 'and', 'or'):
        above = above + ((t[2],) if t[1] == 'strfn' else ('cast ' + str(t[2]),) if t[1] == 'cast' else (t[1],))
    elif t and isinstance(t[0], str) and t[0] == 'discr':
        return
    for x in t:
        ops(x, part, above, found)


class Copy(core.Client):
    def __init__(self, ty, shape):
        super().__init__()
        self.ty, self.shape = ty, shape

    def ret(self, I, st, v):
        v = I.deep(st, v)
        self.ob('copies compared')
        if v == S('a'):
            return
        if v[0] != 'a' or v[2] is not None and I.known_variant(st, S('a')) is None:
            return self.undec('copy of ' + self.ty)
        base = ('in', 'a')
        if v[2] is not None and v[2] in self.shape and len(self.shape) > 1:
            if I.known_variant(st, S('a')) != v[2]:
                return self.bad(I, st, 'variant', 'the copy of a %s is a %s' % (I.known_variant(st, S('a')), v[2]))
            base = ('.', base, ('v', v[2]))
        for n, x in v[3]:
            x = I.deep(st, x)
            if x != T(('.', base, n)):
                if x[0] == 'a' and not x[3]:
                    if I.known_variant(st, T(('.', base, n))) != x[2]:
                        self.bad(I, st, n, 'the copy of a %s always has %s as its %s' % (self.ty.split('::')[-1], x[2], n))
                    continue
                used = set()
                ops(x, (('.', base, n),), (), used)
                if used and all(set(f) & set(LOSSY) for f in used):
                    self.bad(I, st, n, 'the copy of a %s has %s as its %s' % (self.ty.split('::')[-1], show(x), n))
                elif core.opaque(x) or x[0] not in ('k', 't', 'str') or ('.', base, n) in [y for y in sub(x)]:
                    self.undec('copy of ' + self.ty)
                else:
                    self.bad(I, st, n, 'the copy of a %s has %s as its %s' % (self.ty.split('::')[-1], show(x), n))

    def bad(self, I, st, key, msg):
        if 'opq' not in st.notes:
            self.violation('%s|copy|%s' % (self.ty, key), msg, I.where(st))


def sub(x):
    yield x
    if isinstance(x, tuple):
        for y in x:
            yield from sub(y)


def keys(F, rep):
    """the comparison of element keys, for the element table"""
    look(F, rep, TYPES[:2], False)


def e03(F, rep):
    look(F, rep, TYPES, True)


def look(F, rep, types, copies):
    rep.rule('eq of every key type run on identical values (must answer true) and on values differing in one part (must answer '
             'false); clone yields the same parts')
    for ty in types:
        name = ty.split('::')[-1]
        k = [k for k, f in F.fns.items() if f['local'] and f['name'] == 'eq' and (f.get('impl_self') or '').endswith('::' + ty)
             and (f.get('impl_trait') or '').endswith('PartialEq')]
        ps = parts(F, ty)
        if len(k) != 1 or ps is None:
            rep.undec('comparison of ' + ty)
            continue
        info, shape = ps
        enum = len(shape) > 1
        vs = list(shape)
        for v in vs:
            pre = ('.', root('a'), ('v', v)) if enum else root('a')
            preb = ('.', root('b'), ('v', v)) if enum else root('b')
            fa = {('var', root('a')): v} if enum else {}
            subs = [{}]
            for n, kind in shape[v]:
                if kind in TYPES:
                    subs = [dict(x, **{n: w}) for x in subs for w in parts(F, kind)[1]]
            for inner in subs:
                facts = dict(fa)
                for n, w in inner.items():
                    facts[('var', ('.', pre, n))] = w
                cl = Eq(ty, True, None, '%s|self' % v, 'a %s is not equal to itself' % name)
                run(rep, F, cl, k[0], [S('a'), S('a')], facts=dict(facts), label='%s == itself' % v)
                # differing in one part
                both = dict(facts)
                if enum:
                    both[('var', root('b'))] = v
                for n, kind in shape[v]:
                    fx, fy = ('.', pre, n), ('.', preb, n)
                    f2 = dict(both)
                    for m, w in inner.items():
                        f2[('var', ('.', preb, m))] = w
                    if kind in TYPES:
                        for w in parts(F, kind)[1]:
                            if w == inner[n]:
                                continue
                            f3 = dict(f2)
                            f3[('var', fy)] = w
                            cl = Eq(ty, False, None, '%s|%s' % (v, n), 'two %s with different %s can be equal' % (name, n))
                            run(rep, F, cl, k[0], [S('a'), S('b')], facts=f3, label='different ' + n)
                        continue
                    x, y = T(fx), T(fy)
                    if kind == 'int':
                        l = core_lin(fx, fy)
                        f2[('iv', l)] = (None, None, frozenset({0}))
                    elif kind == 'char':
                        p, q = (x, y) if repr(x) <= repr(y) else (y, x)
                        f2[('b', ('op', 'ceq', p, q))] = False
                    elif kind == 'String':
                        p, q = (x, y) if repr(x) <= repr(y) else (y, x)
                        f2[('b', ('op', 'eq', p, q))] = False
                    else:
                        continue
                    cl = Eq(ty, False, (fx, fy), '%s|%s' % (v, n), 'two %s with different %s can be equal' % (name, n))
                    run(rep, F, cl, k[0], [S('a'), S('b')], facts=f2, label='different ' + n)
            if enum:
                for w in vs:
                    if w != v:
                        f2 = dict(fa)
                        f2[('var', root('b'))] = w
                        cl = Eq(ty, False, None, '%s|%s' % (v, w), 'a %s can be equal to a %s' % (v, w))
                        run(rep, F, cl, k[0], [S('a'), S('b')], facts=f2, label='%s == %s' % (v, w))
        c = [k for k, f in F.fns.items() if f['local'] and f['name'] == 'clone' and (f.get('impl_self') or '').endswith('::' + ty)]
        for kk in c if copies else ():
            for v in vs:
                run(rep, F, Copy(ty, shape), kk, [S('a')], facts={('var', root('a')): v} if enum else None, label='copy of ' + v)


def core_lin(a, b):
    x, y = sorted((a, b), key=repr)
    return ((x, 1), (y, -1))
