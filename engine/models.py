"""Abstract semantics of the standard library functions the analysed code uses."""
import re

from . import chars as CH
from . import loops
from .core import (K, T, TRUE, FALSE, UNIT, UNDEF, NONE, Some, Ok, Err, tup, fld, Split, Unmodelled, opaque,
                   Push, FrozenCallee, subst, short)


def call(I, st, c):
    name = c.name
    if I.points is not None:
        r = I.pointmod.call(I, st, c)
        if r is not None:
            return r
    key = (short(c.impl_self), name)
    fn = TABLE.get(key)
    if fn is None:
        p = c.path
        fn = PATHS.get(p) or PATHS.get(strip_impl(p))
    if fn is None:
        tr = c.f.get('trait') or c.f.get('impl_trait')
        fn = TRAITS.get((short(tr), name))
        if fn is not None and c.f.get('local') and c.f.get('inst'):
            return None
    if fn is None and name == 'write_fmt' and (c.f.get('targs') or [''])[0].endswith('String'):
        fn = m_str_write
    if fn is None and name in ('eq', 'ne') and c.f.get('kind') == 'unresolved' and short(c.f.get('trait')) == 'PartialEq':
        fn = m_generic_eq
    if fn is None:
        if any(p in c.path for p in PANICS):
            return 'PANIC'
        if c.path.startswith('core::fmt') or c.path.startswith('alloc::fmt') or 'stdio' in c.path:
            return [(st, fmt_result(c))]
        return None
    return fn(I, st, c)


def strip_impl(p):
    import re
    return re.sub(r'::\{impl#\d+\}', '', p)


PANICS = ('core::panicking', 'unwrap_failed', 'expect_failed', 'std::rt::begin_panic', 'panic_fmt',
          'panic_display', 'slice_index_fail', 'std::process::exit', 'std::process::abort')


def fmt_result(c):
    ty = c.ty
    if ty == '()':
        return UNIT
    return T(('fmt', c.site, 'r')) if 'Result' in ty else T(('fmtv', c.site))


def one(st, v):
    return [(st, v)]


# ------------------------------------------------------------------ helpers
def container(I, st, a):
    """(place, value) of a container given by reference or by value"""
    n = 0
    while a[0] == 'r' and n < 8:
        v = I.read(st, a[1])
        if v[0] in ('r',):
            a = v
            n += 1
            continue
        if v[0] == 't' and st.mem.get(('S', v[1])) is not None and v[1] != a[1][0][1]:
            a = ('r', (('S', v[1]), ()))
            n += 1
            continue
        return a[1], v
    if a[0] == 't':
        pl = (('S', a[1]), ())
        return pl, I.read(st, pl)
    if a[0] == 'a' and a[1] in ('Box', 'Rc'):
        return None, fld(a, '*')
    return None, a


def tovec(v):
    """a vec value to which items can be appended"""
    if v[0] == 'vec':
        return v
    return ('vec', v, ())


def emptyvec():
    return ('vec', None, ())


def sval(I, st, a):
    """string value behind any number of references"""
    n = 0
    while n < 8:
        n += 1
        if a[0] == 'r':
            a = I.read(st, a[1])
        elif a[0] == 'a' and a[1] in ('Box', 'Rc'):
            a = fld(a, '*')
        elif a[0] == 't':
            v = st.mem.get(('S', a[1]))
            if v is not None and v != a:
                a = v
            else:
                return a
        else:
            return I.strnorm(st, a)
    return a


def strof(v):
    return v if v[0] == 'str' else ('str', (('v', v),))


def litof(v):
    if v[0] == 'str' and all(p[0] == 'lit' for p in v[1]):
        return ''.join(p[1] for p in v[1])
    return None


# ------------------------------------------------------------------ identity-like
def m_id(I, st, c):
    return one(st, c.args[0])


def m_deref(I, st, c):
    """Vec/String/Rc/Box deref and friends: &C -> &target"""
    a = c.args[0]
    pl, v = container(I, st, a)
    if v[0] == 'a' and v[1] in ('Rc', 'Box'):
        if pl is None:
            raise Unmodelled('deref of by-value box')
        return one(st, ('r', (pl[0], pl[1] + ('*',))))
    if v[0] == 'str':
        return one(st, v)
    if v[0] == 't' and pl is not None and pl[0] == ('S', v[1]) and not pl[1]:
        return one(st, v)
    if short(c.impl_self) in ('Rc', 'Arc', 'Box') and v[0] == 't':
        return one(st, v)
    if short(c.impl_self) == 'String' and v[0] == 't':
        return one(st, v)
    if pl is not None:
        return one(st, ('r', pl))
    return one(st, v)


def m_clone(I, st, c):
    a = c.args[0]
    if a[0] == 'r':
        return one(st, I.read(st, a[1]))
    if a[0] == 't':
        return one(st, I.read(st, (('S', a[1]), ())))
    return one(st, a)


def m_ptr_eq(I, st, c):
    """the same place: certainly equal; different values: certainly not; else assumed not, the other case is unknown"""
    a, b = (I.deep(st, x) for x in c.args[:2])
    if a == b and not opaque(a):
        return one(st, TRUE)
    o = st.copy()
    o.notes = o.notes | {'opq'}
    if opaque(a) or opaque(b):
        st.notes = st.notes | {'opq'}
    return [(st, FALSE), (o, TRUE)]


def m_strclone(I, st, c):
    return one(st, sval(I, st, c.args[0]))


def m_box_new(I, st, c):
    return one(st, ('a', 'Rc' if short(c.impl_self) in ('Rc', 'Arc') else 'Box', None, (('*', c.args[0]),)))


def m_new_uninit(I, st, c):
    return one(st, ('a', 'Box', None, (('*', UNDEF),)))


def m_box_into_vec(I, st, c):
    v = c.args[0]
    inner = fld(v, '*') if v[0] == 'a' and v[1] == 'Box' else None
    for _ in range(4):
        if inner is not None and inner[0] == 'a' and inner[1] != 'array':
            inner = inner[3][0][1] if inner[3] else None
    if inner is None or inner[0] != 'a' or inner[1] != 'array':
        raise Unmodelled('box_assume_init_into_vec')
    return one(st, ('vec', None, tuple(x for _, x in inner[3])))


def m_mem_take(I, st, c):
    a = c.args[0]
    pl, v = container(I, st, a)
    ty = c.ty
    if 'HashMap' in ty:
        new = ('map', None, ())
    elif 'HashSet' in ty:
        new = ('set', None, ())
    elif 'Vec' in ty:
        new = emptyvec()
    elif 'String' in ty:
        new = ('str', ())
    elif 'Option' in ty:
        new = NONE
    elif ty in ('usize', 'isize', 'u32', 'i32', 'u64', 'i64'):
        new = K('int', 0)
    elif ty == 'bool':
        new = FALSE
    else:
        raise Unmodelled('mem::take of ' + ty)
    if pl is None:
        raise Unmodelled('mem::take place')
    I.write(st, pl, new, c.sp)
    return one(st, v)


def m_mem_replace(I, st, c):
    pl, v = container(I, st, c.args[0])
    I.write(st, pl, c.args[1], c.sp)
    return one(st, v)


def m_mem_swap(I, st, c):
    p1, v1 = container(I, st, c.args[0])
    p2, v2 = container(I, st, c.args[1])
    I.write(st, p1, v2, c.sp)
    I.write(st, p2, v1, c.sp)
    return one(st, UNIT)


def m_opt_take(I, st, c):
    pl, v = container(I, st, c.args[0])
    I.write(st, pl, NONE, c.sp)
    return one(st, v)


# ------------------------------------------------------------------ Vec / slice
def m_vec_new(I, st, c):
    return one(st, emptyvec())


def m_vec_push(I, st, c):
    pl, v = container(I, st, c.args[0])
    v = tovec(v)
    if pl is None:
        raise Unmodelled('push')
    I.write(st, pl, ('vec', v[1], v[2] + (c.args[1],)), c.sp)
    return one(st, UNIT)


def vpop(I, st, v):
    """(newvec, item) or None when known empty; splits"""
    if v[0] == 'vec' and v[2]:
        return ('vec', v[1], v[2][:-1]) if (v[1] is not None or v[2][:-1]) else emptyvec(), v[2][-1]
    if v[0] == 'vec' and v[1] is None:
        return None
    base = v[1] if v[0] == 'vec' else v
    if base[0] == 'w':
        n = I.vlen(st, base)
        if I.test(st, I.ieq(n, K('int', 0))):
            return None
        last = I.index(st, base, I.iadd(n, K('int', 1), -1))
        return T(('op', 'init', base)), last
    n = I.vlen(st, base)
    if I.test(st, I.ieq(n, K('int', 0))):
        return None
    return T(('op', 'init', base)), T(('op', 'last', base))


def m_vec_pop(I, st, c):
    pl, v = container(I, st, c.args[0])
    r = vpop(I, st, v)
    if r is None:
        return one(st, NONE)
    I.write(st, pl, r[0], c.sp)
    return one(st, Some(r[1]))


def m_len(I, st, c):
    pl, v = container(I, st, c.args[0])
    if v[0] == 'str' or 'str' in short(c.impl_self).lower():
        l = litof(sval(I, st, v))
        return one(st, K('int', len(l.encode())) if l is not None else T(('op', 'len', v)))
    return one(st, I.vlen(st, v))


def m_is_empty(I, st, c):
    pl, v = container(I, st, c.args[0])
    if v[0] == 'set' or v[0] == 'map':
        raise Unmodelled('is_empty of ' + v[0])
    if v[0] == 'str':
        s = I.strnorm(st, v)
        l = litof(s)
        if l is not None:
            return one(st, K('bool', l == ''))
        if s[0] == 'str' and any(p[0] in ('lit', 'c') for p in s[1]):
            return one(st, FALSE)
        return one(st, T(('op', 'strempty', s)))
    return one(st, I.ieq(I.vlen(st, v), K('int', 0)))


def elemref(pl, v, i):
    if pl is None:
        return None
    return ('r', (pl[0], pl[1] + (('x', i),)))


def vref(I, st, c, a, i):
    pl, v = container(I, st, a)
    if pl is None:
        if v[0] == 'subv':
            raise Unmodelled('index by value')
        root = ('H', (c.site, 'tmp'))
        st.mem[root] = v
        pl = (root, ())
    return elemref(pl, v, i)


def in_bounds(I, st, c, i, n):
    """continue in bounds; the out of bounds path is reported as a panic"""
    cond = I.ilt(i, n)
    if cond[0] == 'k':
        if not cond[2]:
            I.client.panic(I, st, 'index', c)
            return False
        return True
    if opaque(cond):
        return True
    r = I.decide(st, cond[1])
    if r is True:
        return True
    b = st.copy()
    if r is False or I.assume(b, cond[1], False):
        I.client.panic(I, b, 'index', c)
    if r is False:
        return False
    return I.assume(st, cond[1], True)


def m_index(I, st, c):
    a, i = c.args
    i = I.read(st, i[1]) if i[0] == 'r' else i
    pl, v = container(I, st, a)
    if 'HashMap' in c.impl_self:
        kv = I.deep(st, c.args[1])
        if not maphas(I, st, v, kv):
            I.client.panic(I, st, 'index', c)
            return []
        return one(st, ('r', (pl[0], pl[1] + (('e', kv),))))
    n = I.vlen(st, v)
    if i[0] == 'a' and str(i[1]).startswith('core::ops::range') or i[0] == 'a' and short(str(i[1])).startswith('Range'):
        kind = short(str(i[1]))
        if kind == 'RangeFull':
            return one(st, ('r', pl))
        lo = fld(i, 'start') if kind in ('Range', 'RangeFrom') else K('int', 0)
        hi = fld(i, 'end') if kind in ('Range', 'RangeTo') else None
        if kind in ('RangeInclusive', 'RangeToInclusive'):
            raise Unmodelled('inclusive range index')
        # start <= len
        if not in_bounds(I, st, c, lo, I.iadd(n if hi is None else hi, K('int', 1))):
            return []
        if hi is not None and not in_bounds(I, st, c, hi, I.iadd(n, K('int', 1))):
            return []
        if pl is None:
            raise Unmodelled('slice of value')
        return one(st, ('r', (pl[0], pl[1] + (('sub', lo, hi),))))
    if i[0] == 'a':
        raise Unmodelled('index by ' + str(i[1]))
    if not in_bounds(I, st, c, i, n):
        return []
    return one(st, vref(I, st, c, a, i))


def m_get(I, st, c):
    a, i = c.args
    if i[0] == 'a':
        raise Unmodelled('get by range')
    pl, v = container(I, st, a)
    n = I.vlen(st, v)
    if opaque(i) or opaque(n):
        if not I.test(st, T(('op', 'inb', i, n))):
            return one(st, NONE)
    elif not I.test(st, I.ilt(i, n)):
        return one(st, NONE)
    return one(st, Some(vref(I, st, c, a, i)))


def m_first(I, st, c):
    pl, v = container(I, st, c.args[0])
    if I.test(st, I.ieq(I.vlen(st, v), K('int', 0))):
        return one(st, NONE)
    return one(st, Some(vref(I, st, c, c.args[0], K('int', 0))))


def m_last(I, st, c):
    pl, v = container(I, st, c.args[0])
    n = I.vlen(st, v)
    if I.test(st, I.ieq(n, K('int', 0))):
        return one(st, NONE)
    return one(st, Some(vref(I, st, c, c.args[0], I.iadd(n, K('int', 1), -1))))


def m_split_first(I, st, c):
    pl, v = container(I, st, c.args[0])
    if I.test(st, I.ieq(I.vlen(st, v), K('int', 0))):
        return one(st, NONE)
    rest = ('r', (pl[0], pl[1] + (('sub', K('int', 1), None),)))
    return one(st, Some(tup(vref(I, st, c, c.args[0], K('int', 0)), rest)))


def m_clear(I, st, c):
    pl, v = container(I, st, c.args[0])
    new = {'vec': emptyvec(), 'str': ('str', ()), 'set': ('set', None, ()), 'map': ('map', None, ())}
    kind = {'Vec': 'vec', 'String': 'str', 'HashSet': 'set', 'HashMap': 'map'}[short(c.impl_self)]
    I.write(st, pl, new[kind], c.sp)
    return one(st, UNIT)


def m_slice_contains(I, st, c):
    pl, v = container(I, st, c.args[0])
    x = I.deep(st, c.args[1])
    if v[0] == 'vec':
        for it in v[2]:
            if I.test(st, I.eq_term(st, it, x)):
                return one(st, TRUE)
        if v[1] is None:
            return one(st, FALSE)
        v = v[1]
    while v[0] == 't' and v[1][0] == 'op' and v[1][1] == 'init':
        b = v[1][2]
        if I.decide(st, ('op', 'vhas', b, x)) is False:
            return one(st, FALSE)
        if not I.test(st, I.eq_term(st, T(('op', 'last', b)), x)):
            v = b
            continue
        break
    return one(st, T(('op', 'vhas', v, x)))


def m_append(I, st, c):
    pl, v = container(I, st, c.args[0])
    pl2, v2 = container(I, st, c.args[1])
    I.write(st, pl2, emptyvec(), c.sp)
    I.write(st, pl, vconcat(v, v2), c.sp)
    return one(st, UNIT)


def m_clone_from(I, st, c):
    pl, v = container(I, st, c.args[0])
    pl2, v2 = container(I, st, c.args[1])
    I.write(st, pl, I.deep(st, v2), c.sp)
    return one(st, UNIT)


def vconcat(v, v2):
    if v[0] == 'vec' and v[1] is None and not v[2]:
        return v2
    if v2[0] == 'vec' and v2[1] is None:
        v = tovec(v)
        return ('vec', v[1], v[2] + v2[2])
    return T(('op', 'concat', v, v2))


# ------------------------------------------------------------------ strings
def m_string_new(I, st, c):
    return one(st, ('str', ()))


def m_string_from(I, st, c):
    a = c.args[0]
    if a[0] == 'k' and a[1] == 'char':
        return one(st, ('str', (('c', a),)))
    if 'char' in str(c.f.get('targs')) or c.path.endswith('impl#85}::from'):
        return one(st, ('str', (('c', a),)))
    return one(st, sval(I, st, a))


def m_to_string(I, st, c):
    a = c.args[0]
    targ = (c.f.get('targs') or [''])[0]
    selfty = c.f.get('self_ty') or targ
    if selfty == 'char':
        v = I.read(st, a[1]) if a[0] == 'r' else (I.read(st, (('S', a[1]), ())) if a[0] == 't' else a)
        return one(st, ('str', (('c', v),)))
    if selfty in ('str', 'std::string::String', '&str', 'String'):
        return one(st, sval(I, st, a))
    v = I.deep(st, a)
    if v[0] == 'k' and v[1] == 'int':
        return one(st, ('str', (('lit', str(v[2])),)))
    return one(st, ('str', (('v', T(('op', 'display', v))),)))


def m_push(I, st, c):
    pl, v = container(I, st, c.args[0])
    s = strof(v)
    I.write(st, pl, ('str', s[1] + (('c', c.args[1]),)), c.sp)
    return one(st, UNIT)


def m_push_str(I, st, c):
    pl, v = container(I, st, c.args[0])
    s = strof(v)
    x = sval(I, st, c.args[1])
    I.write(st, pl, I.strnorm(st, ('str', s[1] + (x[1] if x[0] == 'str' else (('v', x),)))), c.sp)
    return one(st, UNIT)


def m_str_eq(I, st, c):
    a, b = sval(I, st, c.args[0]), sval(I, st, c.args[1])
    e = I.eq_term(st, a, b)
    if c.name == 'ne':
        e = I.bnot(e)
    return one(st, e)


def m_chars(I, st, c):
    s = sval(I, st, c.args[0])
    return one(st, ('it', 'chars', s, c.site, K('int', 0)))


def m_as_bytes(I, st, c):
    return one(st, T(('op', 'bytes', sval(I, st, c.args[0]))))


def m_parse(I, st, c):
    targs = c.f.get('targs') or ['?']
    ty = targs[0]
    s = sval(I, st, c.args[0])
    t = ('op', 'parse', ty, s)
    ok = T(('op', 'parses', ty, s))
    if I.test(st, ok):
        return one(st, Ok(T(t)))
    return one(st, Err(T(('op', 'parseerr', ty, s))))


def m_join(I, st, c):
    pl, v = container(I, st, c.args[0])
    return one(st, ('str', (('v', T(('op', 'join', I.deep(st, v), sval(I, st, c.args[1])))),)))


def m_char_pred(I, st, c):
    a = c.args[0]
    v = a
    n = 0
    while v[0] == 'r' and n < 6:
        v = I.read(st, v[1])
        n += 1
    if v[0] == 't':
        v = I.read(st, (('S', v[1]), ()))
    p = c.name
    if p == 'is_digit':
        if c.args[1] == K('int', 10):
            p = 'is_ascii_digit'
        else:
            raise Unmodelled('is_digit')
    m = CH.pred_mask(p)
    if m is None:
        raise Unmodelled('char predicate ' + p)
    if v[0] == 'k':
        return one(st, K('bool', bool(CH.mask_of(v[2]) & m)))
    return one(st, T(('op', 'cpred', p, v)))


# ------------------------------------------------------------------ ints
def m_checked(I, st, c):
    op = c.name.replace('checked_', '')
    a, b = c.args[0], c.args[1]
    ty = (c.impl_self or '')
    if op in ('add', 'mul') and repr(a) > repr(b):
        a, b = b, a
    ok = T(('op', 'fits', op, ty, a, b))
    if I.test(st, ok):
        if op == 'add':
            return one(st, Some(I.iadd(a, b)))
        if op == 'sub':
            return one(st, Some(I.iadd(a, b, -1)))
        if op == 'mul':
            return one(st, Some(T(('op', 'mul') + tuple(sorted((a, b), key=repr)))))
        return one(st, Some(T(('op', op, a, b))))
    return one(st, NONE)


def m_overflowing(I, st, c):
    """wrapping_/saturating_/overflowing_ operations: exact where the result fits"""
    kind, op = c.name.split('_', 1)
    a, b = c.args[0], c.args[1]
    x, y = (b, a) if op in ('add', 'mul') and repr(a) > repr(b) else (a, b)
    ty = c.impl_self or ''
    if a[0] in ('k', 't') and b[0] in ('k', 't') and not opaque(a) and not opaque(b) and op in (
            'add', 'sub', 'mul', 'pow'):
        if I.test(st, T(('op', 'fits', op, ty, x, y))):
            v = (I.iadd(a, b) if op == 'add' else I.iadd(a, b, -1) if op == 'sub' else
                 T(('op', 'mul') + tuple(sorted((a, b), key=repr))) if op == 'mul' else T(('op', op, a, b)))
            return one(st, tup(v, FALSE) if kind == 'overflowing' else v)
        v = T(('op', c.name, ty, a, b))
        return one(st, tup(v, TRUE) if kind == 'overflowing' else v)
    return one(st, T(('op', c.name, ty, a, b)))


def m_intfn(I, st, c):
    return one(st, T(('op', 'int' + c.name, c.args[0])))


def m_minmax(I, st, c):
    a, b = I.deep(st, c.args[0]), I.deep(st, c.args[1])
    n = c.name.replace('integer_', '')
    lo, hi = (a, b) if I.test(st, I.ilt(a, b, not signed(c))) else (b, a)
    return one(st, lo if n == 'min' else hi)


def m_clamp(I, st, c):
    v, lo, hi = (I.deep(st, x) for x in c.args[:3])
    u = not signed(c)
    if I.test(st, I.ilt(v, lo, u)):
        return one(st, lo)
    return one(st, hi if I.test(st, I.ilt(hi, v, u)) else v)


def m_vec_insert(I, st, c):
    pl, v = container(I, st, c.args[0])
    i, x = c.args[1], c.args[2]
    if pl is None:
        raise Unmodelled('insert')
    v = tovec(v)
    if v[1] is None and i[0] == 'k' and i[2] <= len(v[2]):
        I.write(st, pl, ('vec', None, v[2][:i[2]] + (x,) + v[2][i[2]:]), c.sp)
        return one(st, UNIT)
    d = I.ladd(I.lin(I.vlen(st, v)), I.lin(i), -1)
    if not d[0] and 0 <= d[1] <= len(v[2]):
        j = len(v[2]) - d[1]
        I.write(st, pl, ('vec', v[1], v[2][:j] + (x,) + v[2][j:]), c.sp)
        return one(st, UNIT)
    raise Unmodelled('insert at a symbolic index')


def m_vec_remove(I, st, c):
    pl, v = container(I, st, c.args[0])
    i = c.args[1]
    if pl is None or v[0] != 'vec' or v[1] is not None or i[0] != 'k':
        raise Unmodelled('remove')
    if i[2] >= len(v[2]):
        I.client.panic(I, st, 'index', c)
        return []
    x = v[2][i[2]]
    rest = v[2][:i[2]] + v[2][i[2] + 1:]
    if c.name == 'swap_remove' and i[2] < len(v[2]) - 1:
        rest = v[2][:i[2]] + (v[2][-1],) + v[2][i[2] + 1:-1]
    I.write(st, pl, ('vec', None, rest), c.sp)
    return one(st, x)


def m_reverse(I, st, c):
    pl, v = container(I, st, c.args[0])
    if pl is None or v[0] != 'vec' or v[1] is not None:
        raise Unmodelled('reverse')
    I.write(st, pl, ('vec', None, tuple(reversed(v[2]))), c.sp)
    return one(st, UNIT)


def signed(c):
    ty = c.f.get('impl_self') or (c.f.get('targs') or ['usize'])[0]
    return str(ty).lstrip('&').startswith('i')


def m_intcmp(I, st, c):
    a, b = I.deep(st, c.args[0]), I.deep(st, c.args[1])
    u = not signed(c)
    return one(st, {'eq': I.ieq(a, b, u), 'ne': I.bnot(I.ieq(a, b, u)), 'lt': I.ilt(a, b, u), 'gt': I.ilt(b, a, u),
                    'le': I.bnot(I.ilt(b, a, u)), 'ge': I.bnot(I.ilt(a, b, u))}[c.name])


# ------------------------------------------------------------------ atomics
def m_fetch_add(I, st, c):
    pl, v = container(I, st, c.args[0])
    cur = fld(v, 'v') if v[0] == 'a' and v[1] == 'Atomic' else (T(('.', v[1], 'v')) if v[0] == 't' else None)
    if cur is None or pl is None:
        raise Unmodelled('fetch_add')
    I.write(st, pl, ('a', 'Atomic', None, (('v', I.iadd(cur, c.args[1], 1 if c.name == 'fetch_add' else -1)),)), c.sp)
    return one(st, cur)


def m_atomic_new(I, st, c):
    return one(st, ('a', 'Atomic', None, (('v', c.args[0]),)))


def m_atomic_load(I, st, c):
    pl, v = container(I, st, c.args[0])
    return one(st, fld(v, 'v') if v[0] == 'a' else T(('.', v[1], 'v')))


def m_atomic_store(I, st, c):
    pl, v = container(I, st, c.args[0])
    I.write(st, pl, ('a', 'Atomic', None, (('v', c.args[1]),)), c.sp)
    return one(st, UNIT)


# ------------------------------------------------------------------ maps
def m_map_new(I, st, c):
    return one(st, ('map', None, ()))


def maphas(I, st, v, key):
    if v[0] == 'r':
        v = I.read(st, v[1])
    if v[0] == 'map':
        for ek, ev in reversed(v[2]):
            e = I.eq_term(st, ek, key)
            if e[0] == 'k':
                if e[2]:
                    return ev != GONE
                continue
            if opaque(e):
                return I.test(st, T(('op', 'has?', ek, key)))
            if I.test(st, e):
                return ev != GONE
        if v[1] is None:
            return False
        v = v[1]
    p = loops.pick(I, st, v, key)
    if p is not None:
        return bool(p[1]) or p[0] is not None and maphas(I, st, p[0], key)
    return I.test(st, T(('op', 'has', v, key)))


GONE = T(('opq', 'gone'))


def m_map_remove(I, st, c):
    """the entry is there no more; the map is not looked at as a whole after that"""
    pl, v = container(I, st, c.args[0])
    if pl is None:
        raise Unmodelled('remove')
    key = I.deep(st, c.args[1])
    if not maphas(I, st, v, key):
        return one(st, NONE)
    old = I.mapval(st, v, key)
    if old == GONE or old == UNDEF:
        raise Unmodelled('remove')
    I.write(st, (pl[0], pl[1] + (('e', key),)), GONE, c.sp)
    return one(st, Some(old))


def m_map_get(I, st, c):
    pl, v = container(I, st, c.args[0])
    key = I.deep(st, c.args[1])
    if not maphas(I, st, v, key):
        return one(st, NONE)
    if pl is None:
        raise Unmodelled('map by value')
    return one(st, Some(('r', (pl[0], pl[1] + (('e', key),)))))


def m_map_contains(I, st, c):
    pl, v = container(I, st, c.args[0])
    return one(st, K('bool', maphas(I, st, v, I.deep(st, c.args[1]))))


def m_map_insert(I, st, c):
    pl, v = container(I, st, c.args[0])
    key = I.deep(st, c.args[1])
    old = NONE
    if result_used(c) and maphas(I, st, v, key):
        old = Some(I.mapval(st, v, key))
    I.write(st, (pl[0], pl[1] + (('e', key),)), c.args[2], c.sp)
    return one(st, old)


ENTRY = 'std::collections::hash::map::Entry'


def m_entry(I, st, c):
    pl, v = container(I, st, c.args[0])
    key = I.deep(st, c.args[1])
    if pl is None:
        raise Unmodelled('entry of a map by value')
    e = ('a', 'MapSlot', None, (('map', ('r', pl)), ('key', key)))
    return one(st, ('a', ENTRY, 'Occupied' if maphas(I, st, v, key) else 'Vacant', (('0', e),)))


def slot(I, st, a):
    pl, v = container(I, st, a)
    if v[0] != 'a' or v[1] != 'MapSlot':
        raise Unmodelled('map entry')
    m = fld(v, 'map')[1]
    return (m[0], m[1] + (('e', fld(v, 'key')),)), m, fld(v, 'key')


def m_slot_ref(I, st, c):
    return one(st, ('r', slot(I, st, c.args[0])[0]))


def m_slot_key(I, st, c):
    return one(st, slot(I, st, c.args[0])[2])


def m_or_insert(I, st, c):
    e = c.args[0]
    if e[0] != 'a' or e[1] != ENTRY:
        raise Unmodelled('map entry')
    pl, m, key = slot(I, st, fld(e, '0'))
    if c.name == 'key':
        return one(st, key)
    full = e[2] == 'Occupied'
    if c.name in ('or_insert', 'or_default') and not full:
        if c.name == 'or_default':
            v = default_of((c.f.get('targs') or ['', ''])[1])
            if v is None:
                raise Unmodelled('default value')
        else:
            v = c.args[1]
        I.write(st, pl, v, c.sp)
    if c.name == 'or_insert_with' and not full:
        blocks = [
            {'s': [asg(4, {'k': 'agg', 'kind': 'tuple', 'ops': []}), asg(5, refm(2))],
             't': {'k': 'call', 'f': CALL_MUT, 'args': [mv(5), mv(4)], 'dest': L(3), 'dty': '?', 't': 1}},
            {'t': {'k': 'call', 'f': {'name': 'or_insert', 'path': 'x', 'impl_self': ENTRY, 'kind': 'item'},
                   'args': [mv(1), mv(3)], 'dest': L(0), 'dty': '?', 't': 2}},
            {'t': {'k': 'ret'}}]
        return Push(*loop_fn(I, c, 'or_insert_with', ['?'] * 6, blocks), c.args)
    if c.name == 'and_modify':
        if not full:
            return one(st, e)
        blocks = [
            {'t': {'k': 'call', 'f': {'name': 'into_mut', 'path': 'x', 'kind': 'item',
                                      'impl_self': 'std::collections::hash::map::OccupiedEntry'},
                   'args': [{'k': 'copy', 'p': L(1, ['v', 0, 'Occupied'], ['f', 0, '0'])}], 'dest': L(3), 'dty': '?', 't': 1}},
            {'s': [asg(4, {'k': 'agg', 'kind': 'tuple', 'ops': [mv(3)]}), asg(5, refm(2))],
             't': {'k': 'call', 'f': CALL_MUT, 'args': [mv(5), mv(4)], 'dest': L(6), 'dty': '()', 't': 2}},
            {'s': [asg(0, {'k': 'use', 'a': mv(1)})], 't': {'k': 'ret'}}]
        return Push(*loop_fn(I, c, 'and_modify', ['?'] * 7, blocks), c.args)
    return one(st, ('r', pl))


def default_of(ty):
    ty = ty.split('<')[0].split('::')[-1]
    return {'Vec': emptyvec(), 'HashSet': ('set', None, ()), 'HashMap': ('map', None, ()), 'String': ('str', ()),
            'usize': K('int', 0), 'u32': K('int', 0), 'i32': K('int', 0), 'u64': K('int', 0), 'bool': FALSE}.get(ty)


def m_slot_insert(I, st, c):
    pl, m, key = slot(I, st, c.args[0])
    if short(c.impl_self) == 'OccupiedEntry':
        old = I.read(st, pl)
        I.write(st, pl, c.args[1], c.sp)
        return one(st, old)
    I.write(st, pl, c.args[1], c.sp)
    return one(st, ('r', pl))


def m_map_iter(I, st, c):
    pl, v = container(I, st, c.args[0])
    kind = {'iter': 'map', 'into_iter': 'map', 'keys': 'keys', 'values': 'values', 'iter_mut': 'map'}[c.name]
    return one(st, ('it', kind, ('r', pl) if pl is not None else v, c.site, None))


def m_set_iter(I, st, c):
    pl, v = container(I, st, c.args[0])
    return one(st, ('it', 'set', I.deep(st, v), c.site, None))


# ------------------------------------------------------------------ sets
def m_set_new(I, st, c):
    return one(st, ('set', None, ()))


def m_set_from(I, st, c):
    a = c.args[0]
    v = a if a[0] == 'a' else I.deep(st, a)
    if v[0] == 'a' and v[1] == 'array':
        s = ('set', None, ())
        for _, x in v[3]:
            s = set_op(s, ('ins', I.deep(st, x)))
        return one(st, s)
    raise Unmodelled('HashSet::from')


def set_op(s, op):
    """append an operation, keeping idempotent runs normalised"""
    if s[0] != 'set':
        s = ('set', s, ())
    ops = list(s[2])
    if op[0] in ('ext', 'ins'):
        i = len(ops)
        while i > 0 and ops[i - 1][0] in ('ext', 'ins'):
            i -= 1
        tail = ops[i:]
        if op not in tail:
            tail = sorted(tail + [op], key=repr)
        ops = ops[:i] + tail
        if op[0] == 'ext' and s[1] is None and not s[2]:
            pass
    else:
        if op not in ops[-1:]:
            ops.append(op)
    return ('set', s[1], tuple(ops))


def sethas(I, st, s, x):
    """membership as a boolean value (may be symbolic)"""
    if s[0] == 'r':
        s = I.read(st, s[1])
    if s[0] == 'set':
        for op in reversed(s[2]):
            if op[0] in ('ins', 'rem'):
                e = I.eq_term(st, op[1], x)
                if e[0] != 'k':
                    e = K('bool', I.test(st, e))
                if e[2]:
                    return op[0] == 'ins'
            elif op[0] == 'ext':
                if sethas(I, st, op[1], x):
                    return True
        if s[1] is None:
            return False
        s = s[1]
    if s[0] == 't' and s[1][0] == 'op' and s[1][1] == 'compr':
        raise Unmodelled('membership in comprehension')
    p = loops.pick(I, st, s, x)
    if p is not None:
        return K('bool', True) if p[1] else sethas(I, st, p[0], x) if p[0] is not None else FALSE
    return I.test(st, T(('op', 'in', s, x)))


def m_set_contains(I, st, c):
    pl, v = container(I, st, c.args[0])
    return one(st, K('bool', sethas(I, st, I.deep(st, v), I.deep(st, c.args[1]))))


def m_set_insert(I, st, c):
    pl, v = container(I, st, c.args[0])
    x = I.deep(st, c.args[1])
    used = result_used(c)
    had = sethas(I, st, I.deep(st, v), x) if used else False
    I.write(st, pl, set_op(v, ('ins', x)), c.sp)
    return one(st, K('bool', not had))


def result_used(c):
    d = c.t.get('dest')
    if not d or d['p']:
        return True
    l = d['l']
    for b in c.frame.fn['blocks']:
        for s in b['s']:
            if s['s'] == '=' and uses(s['r'], l):
                return True
        t = b['t']
        if t['k'] == 'switch' and uses(t['d'], l):
            return True
        if t['k'] == 'call' and any(uses(a, l) for a in t['args']):
            return True
        if t['k'] == 'ret' and l == 0:
            return True
    return False


def uses(o, l):
    if isinstance(o, dict):
        if o.get('l') == l and 'p' in o:
            return True
        return any(uses(x, l) for x in o.values())
    if isinstance(o, list):
        return any(uses(x, l) for x in o)
    return False


def m_set_remove(I, st, c):
    pl, v = container(I, st, c.args[0])
    x = I.deep(st, c.args[1])
    had = sethas(I, st, I.deep(st, v), x) if result_used(c) else False
    I.write(st, pl, set_op(v, ('rem', x)), c.sp)
    return one(st, K('bool', had))


def m_set_size(I, st, c):
    """the number of members of a symbolic set: at least the one inserted last; otherwise free"""
    pl, v = container(I, st, c.args[0])
    v = I.deep(st, v)
    if v[0] not in ('set', 'map', 't'):
        raise Unmodelled('size of ' + v[0])
    low = 0
    if v[0] == 'map':
        if v[1] is None and not v[2]:
            return one(st, K('int', 0) if c.name == 'len' else TRUE)
        if v[2]:
            raise Unmodelled('size of a changed map')
    if v[0] == 'set':
        if v[1] is None and not v[2]:
            return one(st, K('int', 0) if c.name == 'len' else TRUE)
        if v[2] and v[2][-1][0] == 'ins':
            low = 1
            if v[1] is None and len(v[2]) == 1:
                return one(st, K('int', 1) if c.name == 'len' else FALSE)
    n = T(('setsize', I.mint(st, (c.site, 'size'))))
    if not I.assume(st, I.ilt(n, K('int', low)), False):
        raise Unmodelled('size of a set')
    return one(st, n if c.name == 'len' else I.ieq(n, K('int', 0)))


def m_set_subset(I, st, c):
    a, b = (I.deep(st, container(I, st, x)[1]) for x in c.args[:2])
    return one(st, T(('op', 'subset', a, b)))


def m_set_diff(I, st, c):
    a, b = (I.deep(st, container(I, st, x)[1]) for x in c.args[:2])
    return one(st, ('it', 'set', T(('op', c.name, a, b)), c.site, None))


# ------------------------------------------------------------------ iterators
def m_vec_iter(I, st, c):
    pl, v = container(I, st, c.args[0])
    if pl is None:
        raise Unmodelled('iter of value')
    return one(st, ('it', 'slice', ('r', pl), c.site, K('int', 0)))


def m_vec_into_iter(I, st, c):
    return one(st, ('it', 'vecval', c.args[0], c.site, K('int', 0)))


def m_ref_into_iter(I, st, c):
    return m_vec_iter(I, st, c)


def itplace(I, st, c):
    a = c.args[0]
    n = 0
    while a[0] == 'r' and n < 6:
        v = I.read(st, a[1])
        if v[0] == 'r':
            a = v
            n += 1
            continue
        return a[1], v
    raise Unmodelled('iterator place %s' % a[0])


def m_next(I, st, c):
    pl, it = itplace(I, st, c)
    if it[0] != 'it':
        raise Unmodelled('next on %s' % it[0])
    return it_next(I, st, c, pl, it)


def it_next(I, st, c, pl, it):
    kind = it[1]
    fn = NEXT.get(kind)
    if fn is None:
        raise Unmodelled('next of ' + kind)
    I.client.iter_step(I, st, it, c)
    return fn(I, st, c, pl, it)


def next_slice(I, st, c, pl, it):
    """slice/vec iteration by index; concrete prefix then symbolic"""
    _, kind, src, site, pos = it
    cp, v = container(I, st, src) if kind == 'slice' else (None, src)
    n = I.vlen(st, v)

    def item(i):
        if kind == 'slice':
            return ('r', (cp[0], cp[1] + (('x', i),)))
        return I.index(st, v, i)
    if pos[0] == 'k' and n[0] == 'k':
        if pos[2] < n[2]:
            x = item(pos)
            I.write(st, pl, it[:4] + (K('int', pos[2] + 1),), None, False)
            I.client.iter_next(I, st, it, x, c)
            return one(st, Some(x))
        I.client.iter_end(I, st, it, c)
        return one(st, NONE)
    return sym_next(I, st, c, pl, it, n, item, pos)


def sym_next(I, st, c, pl, it, n, item, pos):
    """symbolic iteration: one generic element, summarised by recency"""
    start = pos[1] if pos[0] == 'after' else pos
    first = pos[0] != 'after'
    if first:
        loops.begin(I, st, it)
    else:
        loops.step(I, st, it)
    end = st.copy()
    loops.end(I, end, it)
    outs = []
    feas = True
    if first and n is not None and not opaque(n):
        # no element at all iff start >= len
        feas = I.assume(end, I.ilt(start, n), False)
    elif first and n is not None:
        end.notes = end.notes | {'opq'}
    empty = None
    if first and n is None and kind_of_map(it[1]):
        v = it[2]
        if v[0] == 'r':
            v = container(I, st, v)[1]
        if v is not None and v[0] in ('map', 'set') and not v[2] and v[1] is not None:
            v = v[1]
        if v is not None and v[0] == 't' and not opaque(v):
            empty = T(('op', 'empty', v[1]))
            feas = I.assume(end, empty, True) if I.decide(end, empty) is not False else False
    if feas:
        I.write(end, pl, it[:4] + (('done', start),), None, False)
        I.client.iter_end(I, end, it, c)
        outs.append((end, NONE))
    more = st.copy()
    mid = it[3]
    cur = I.mint(more, mid)
    loops.item(I, more, mid, cur)
    ix = T(cur)
    ok = True
    if empty is not None:
        ok = I.decide(more, empty) is not True and I.assume(more, empty, False)
    if n is not None and not opaque(n):
        if first:
            ok = I.assume(more, I.ilt(start, n), True)
        n2 = n
        ok = ok and I.assume(more, I.ilt(ix, n2), True) and I.assume(more, I.ilt(ix, start), False)
    if ok:
        it2 = it[:4] + (('after', start),)
        I.write(more, pl, it2, None, False)
        # item is evaluated in the state after minting
        x = rebuild_item(I, more, c, it2, ix)
        I.client.iter_next(I, more, it2, x, c)
        outs.append((more, Some(x)))
    return outs


def kind_of_map(kind):
    return kind in ('map', 'keys', 'values', 'set', 'rmap', 'rkeys', 'rvalues', 'rset')


def rebuild_item(I, st, c, it, ix):
    kind, src = it[1], it[2]
    if kind in RKINDS:
        kind = kind[1:]
    if kind == 'slice':
        cp, v = container(I, st, src)
        return ('r', (cp[0], cp[1] + (('x', ix),)))
    if kind == 'vecval':
        return I.index(st, src, ix)
    if kind == 'chars':
        return T(('.', ('str', src), ('x', ix)))
    if kind in ('map', 'keys', 'values'):
        key = T(('key', src_term(src), ix))
        if kind == 'keys':
            return hold(st, c, key)
        if src[0] == 'r':
            val = ('r', (src[1][0], src[1][1] + (('e', key),)))
        elif src[0] == 't':
            val = T(('.', src[1], ('e', key)))
        else:
            val = T(('opq', 'mapitem'))
        if src[0] == 't' and it[1] == 'map':
            return tup(key, val)          # by value iteration
        if kind == 'values':
            return val
        return tup(hold(st, c, key), val)
    if kind == 'set':
        return hold(st, c, T(('elem', src, ix)))
    if kind in ('setval', 'gen'):
        return T(('elem', src, ix))
    if kind == 'range':
        return ix
    raise Unmodelled('item of ' + kind)


def src_term(src):
    return src


def hold(st, c, v):
    """a reference to a value that lives in the container"""
    return v        # symbolic: the term names both the reference and its pointee


def next_chars(I, st, c, pl, it):
    _, kind, s, site, pos = it
    lit = litof(s)
    if lit is not None:
        i = pos[2] if pos[0] == 'k' else None
        if i is not None:
            if i < len(lit):
                I.write(st, pl, it[:4] + (K('int', i + 1),), None, False)
                x = K('char', lit[i])
                I.client.iter_next(I, st, it, x, c)
                return one(st, Some(x))
            I.client.iter_end(I, st, it, c)
            return one(st, NONE)
    if pos[0] == 'done':
        return one(st, NONE)
    n = T(('op', 'nchars', s))
    return sym_next(I, st, c, pl, it, n, None, pos)


def next_map(I, st, c, pl, it):
    _, kind, src, site, pos = it
    v = container(I, st, src)[1] if src[0] == 'r' else src
    if v[0] == 'map' and v[1] is None and not v[2]:
        I.client.iter_end(I, st, it, c)
        return one(st, NONE)
    if pos is not None and pos[0] == 'done':
        return one(st, NONE)
    return sym_next(I, st, c, pl, it, None, None, pos if pos is not None else K('int', 0))


def next_range(I, st, c, pl, it):
    _, kind, (lo, hi), site, pos = it
    if pos[0] == 'k' and hi[0] == 'k':
        if pos[2] < hi[2]:
            I.write(st, pl, it[:4] + (K('int', pos[2] + 1),), None, False)
            I.client.iter_next(I, st, it, pos, c)
            return one(st, Some(pos))
        I.client.iter_end(I, st, it, c)
        return one(st, NONE)
    if pos[0] == 'done':
        return one(st, NONE)
    return sym_next(I, st, c, pl, it, hi, None, pos)


NEXT = {'slice': next_slice, 'vecval': next_slice, 'chars': next_chars, 'map': next_map, 'keys': next_map,
        'values': next_map, 'gen': next_map, 'set': next_map, 'setval': next_map, 'range': next_range}


def m_range_next(I, st, c):
    pl, v = itplace(I, st, c)
    if v[0] == 'it':
        return it_next(I, st, c, pl, v)
    if v[0] == 'a' and short(str(v[1])) == 'Range':
        it = ('it', 'range', (fld(v, 'start'), fld(v, 'end')), c.site, fld(v, 'start'))
        I.write(st, pl, it, None, False)
        return it_next(I, st, c, pl, it)
    raise Unmodelled('range next')


def m_gen_next(I, st, c):
    """next on an iterator of unknown type: a symbolic sequence of items"""
    pl, v = itplace(I, st, c)
    if v[0] == 't' and v[1][0] == 'in':
        it = ('it', 'gen', v, c.site, None)
        I.write(st, pl, it, None, False)
        return it_next(I, st, c, pl, it)
    if v[0] == 'it' and v[1] == 'gen':
        return it_next(I, st, c, pl, v)
    return None


def m_enum_next(I, st, c):
    """Enumerate over an index-addressed iterator starting at 0"""
    pl, v = itplace(I, st, c)
    if v[0] != 'a':
        raise Unmodelled('enumerate')
    it, cnt = fld(v, 'iter'), fld(v, 'count')
    if it[0] == 'it' and it[1] in ('slice', 'vecval') and it[4][0] in ('k', 'after', 'done'):
        ipl = (pl[0], pl[1] + ('iter',))
        start = it[4][1] if it[4][0] != 'k' else it[4]
        if it[4][0] == 'k' and cnt[0] == 'k' and it[4][2] != cnt[2]:
            return None
        res = []
        for s, o in it_next(I, st, c, ipl, it):
            if o[2] == 'None':
                res.append((s, NONE))
                continue
            it2 = I.read(s, ipl)
            x = fld(o, '0')
            if it2[4][0] == 'after':
                ix = T(('m', it2[3], 'cur'))
                if start != K('int', 0):
                    ix = I.iadd(ix, start, -1)
            else:
                ix = I.iadd(it2[4], K('int', 1), -1)
                I.write(s, (pl[0], pl[1] + ('count',)), it2[4], None, False)
            res.append((s, Some(tup(ix, x))))
        return res
    return None


def m_skip_next(I, st, c):
    pl, v = itplace(I, st, c)
    if v[0] == 'it':
        return it_next(I, st, c, pl, v)
    if v[0] != 'a':
        raise Unmodelled('skip')
    it, n = fld(v, 'iter'), fld(v, 'n')
    if it[0] == 'it' and it[1] in ('map', 'keys', 'values') and it[4] is None:
        it = it[:4] + (K('int', 0),)
    if it[0] == 'it' and it[1] in ('slice', 'vecval', 'chars', 'range', 'map', 'keys', 'values') and it[4][0] == 'k':
        it = it[:4] + (I.iadd(it[4], n),)
        I.write(st, pl, it, None, False)
        return it_next(I, st, c, pl, it)
    if it[0] == 'a' and n != K('int', 0):
        to = advanced(I, it, n)
        if to is not None:
            I.write(st, (pl[0], pl[1] + ('iter',)), to, None, False)
            I.write(st, (pl[0], pl[1] + ('n',)), K('int', 0), None, False)
    return None


def advanced(I, it, n):
    """an adapter over an index-addressed iterator, n items further"""
    if it[0] == 'it':
        if it[1] in ('map', 'keys', 'values') and it[4] is None:
            it = it[:4] + (K('int', 0),)
        if it[1] in ('slice', 'vecval', 'chars', 'range', 'map', 'keys', 'values') and it[4] and it[4][0] == 'k':
            return it[:4] + (I.iadd(it[4], n),)
        return None
    if it[0] != 'a' or short(it[1]) not in ('Enumerate', 'Copied', 'Cloned'):
        return None
    out = []
    for f, x in it[3]:
        if f in ('iter', 'it'):
            x = advanced(I, x, n)
            if x is None:
                return None
        elif f == 'count':
            x = I.iadd(x, n)
        out.append((f, x))
    return it[:3] + (tuple(out),)


def m_take_next(I, st, c):
    """Take over an index-addressed iterator: the quota is compared with the place reached, not counted down"""
    pl, v = itplace(I, st, c)
    if v[0] != 'a':
        raise Unmodelled('take')
    it, n = fld(v, 'iter'), fld(v, 'n')
    if it[0] == 't' and it[1][0] == 'in':
        it = ('it', 'gen', it, c.site, None)
    if not (it[0] == 'it' and it[1] in ('slice', 'vecval', 'chars', 'map', 'keys', 'values', 'gen')):
        return None
    ipl = (pl[0], pl[1] + ('iter',))
    if it[1] in ('map', 'keys', 'values', 'gen') and it[4] is None:
        it = it[:4] + (K('int', 0),)
    if it[4][0] == 'k' and n[0] == 'k':
        # nothing taken yet, or whole prefixes of known length: as written
        if n[2] == 0:
            return one(st, NONE)
    elif it[4][0] == 'done':
        return one(st, NONE)
    if it[4][0] == 'k':
        if it[1] in ('slice', 'vecval'):
            ln = I.vlen(st, container(I, st, it[2])[1] if it[1] == 'slice' else it[2])
            if ln[0] == 'k':
                return None
        elif it[1] == 'chars' and litof(it[2]) is not None:
            return None
        I.write(st, ipl, it, None, False)
        if n[0] != 'k' and not I.test(st, I.ilt(K('int', 0), n)):
            return one(st, NONE)
        return it_next(I, st, c, ipl, it)
    taken = I.iadd(I.iadd(T(('m', it[3], 'cur')), K('int', 1)), it[4][1], -1)
    if not I.test(st, I.ilt(taken, n)):
        if it[1] in ('slice', 'vecval'):
            ln = I.vlen(st, container(I, st, it[2])[1] if it[1] == 'slice' else it[2])
            if not opaque(ln) and not I.test(st, I.ilt(I.iadd(T(('m', it[3], 'cur')), K('int', 1)), ln)):
                return it_next(I, st, c, ipl, it)      # the quota ends with the list
        return one(st, NONE)
    return it_next(I, st, c, ipl, it)


def m_skip_new(I, st, c):
    it, n = c.args
    if it[0] == 'it' and it[1] in ('map', 'keys', 'values') and it[4] is None:
        return one(st, it[:4] + (n,))
    if it[0] == 'it' and it[1] in ('slice', 'vecval', 'chars') and it[4][0] == 'k':
        return one(st, it[:4] + (I.iadd(it[4], n),))
    return None


def m_take_new(I, st, c):
    return one(st, ('a', 'core::iter::adapters::take::Take', None, (('iter', c.args[0]), ('n', c.args[1]))))


def m_iter_id(I, st, c):
    return one(st, c.args[0])


def m_copied(I, st, c):
    """copied/cloned of an index iterator of references"""
    return None


REVKIND = {'slice': 'rslice', 'vecval': 'rvecval', 'chars': 'rchars', 'range': 'rrange'}


def m_rev(I, st, c):
    """a whole index-addressed iterator walked backwards"""
    it = c.args[0]
    if it[0] == 'a' and short(str(it[1])) == 'Range':
        it = ('it', 'range', (fld(it, 'start'), fld(it, 'end')), c.site, fld(it, 'start'))
    if it[0] == 'it' and it[1] in REVKIND and it[4][0] == 'k' and (it[1] == 'range' or it[4][2] == 0):
        return one(st, it[:1] + (REVKIND[it[1]],) + it[2:])
    raise Unmodelled('rev')


def next_rev(I, st, c, pl, it):
    _, kind, src, site, pos = it
    base = kind[1:]
    if pos[0] == 'done':
        return one(st, NONE)
    if base == 'range':
        n, lo = src[1], src[0]
    elif base == 'chars':
        lit = litof(src)
        n, lo = (K('int', len(lit)) if lit is not None else T(('op', 'nchars', src))), K('int', 0)
    else:
        n, lo = I.vlen(st, container(I, st, src)[1] if base == 'slice' else src), K('int', 0)
    if pos[0] == 'k' and n[0] == 'k' and lo[0] == 'k':
        i = n[2] - 1 - (pos[2] - lo[2])
        if i < lo[2]:
            I.client.iter_end(I, st, it, c)
            return one(st, NONE)
        I.write(st, pl, it[:4] + (K('int', pos[2] + 1),), None, False)
        x = K('char', lit[i]) if base == 'chars' else rebuild_item(I, st, c, (it[0], base) + it[2:], K('int', i))
        I.client.iter_next(I, st, it, x, c)
        return one(st, Some(x))
    return sym_next(I, st, c, pl, it, n, None, pos)


def m_nth(I, st, c):
    pl, it = itplace(I, st, c)
    if it[0] == 'it' and it[1] in ('slice', 'vecval') and it[4][0] == 'k':
        n = c.args[1]
        cp, v = container(I, st, it[2]) if it[1] == 'slice' else (None, it[2])
        i = I.iadd(it[4], n)
        if I.test(st, I.ilt(i, I.vlen(st, v))):
            x = ('r', (cp[0], cp[1] + (('x', i),))) if it[1] == 'slice' else I.index(st, v, i)
            I.write(st, pl, it[:4] + (I.iadd(i, K('int', 1)),), None, False)
            return one(st, Some(x))
        I.write(st, pl, it[:4] + (I.vlen(st, v),), None, False)
        return one(st, NONE)
    raise Unmodelled('nth')


def m_chars_nth(I, st, c):
    if c.args[0][0] != 'r':
        return None
    pl, it = itplace(I, st, c)
    n = c.args[1]
    if not (it[0] == 'it' and it[1] == 'chars' and it[4][0] == 'k' and n[0] == 'k') or litof(it[2]) is not None:
        return None
    if n[2] == 0:
        return m_next(I, st, c)
    i = I.iadd(it[4], n)
    if I.test(st, I.ilt(i, T(('op', 'nchars', it[2])))):
        I.write(st, pl, it[:4] + (I.iadd(i, K('int', 1)),), None, False)
        return one(st, Some(T(('.', ('str', it[2]), ('x', i)))))
    I.write(st, pl, it[:4] + (('done', i),), None, False)
    return one(st, NONE)


def m_nonzero(I, st, c):
    n = c.args[0]
    if I.test(st, I.ilt(K('int', 0), n)):
        return one(st, Some(n))
    return one(st, NONE)


def m_chars_last(I, st, c):
    it = c.args[0]
    if not (it[0] == 'it' and it[1] == 'chars' and it[4][0] == 'k') or litof(it[2]) is not None:
        return None
    if I.test(st, I.ilt(it[4], T(('op', 'nchars', it[2])))):
        return one(st, Some(T(('op', 'lastchar', it[2]))))
    return one(st, NONE)


def m_as_slice(I, st, c):
    raise Unmodelled('iter as_slice')


# ---- consumers: synthetic loops around the resolved `next`
def loop_fn(I, c, kind, locals_, blocks):
    key = ('SYN', kind, c.frame.key, c.frame.bb)
    fn = I.fns.get(key)
    if fn is None:
        fn = {'path': 'synth::%s@%s' % (kind, c.frame.key), 'name': kind, 'local': False, 'argc': len(c.args),
              'locals': [{'ty': t} for t in locals_], 'blocks': blocks, 'kind': 'Fn'}
        for b in blocks:
            b.setdefault('s', [])
            b.setdefault('cu', False)
            b['t'].setdefault('sp', c.sp)
        I.fns[key] = fn
    return key, fn


def L(n, *p):
    return {'l': n, 'p': list(p)}


def mv(n, *p):
    return {'k': 'move', 'p': L(n, *p)}


def asg(n, r):
    return {'s': '=', 'p': L(n), 'r': r}


def refm(n):
    return {'k': 'ref', 'mut': True, 'p': L(n)}


OPT = 'core::option::Option'
SOME0 = (['v', 1, 'Some'], ['f', 0, '0'])


def m_extend_vec(I, st, c):
    return consumer(I, st, c, 'extend_vec', {'name': 'push', 'path': 'alloc::vec::push', 'impl_self': 'alloc::vec::Vec',
                                             'kind': 'item'})


def consumer(I, st, c, kind, item_fn):
    """for x in iter(arg1) { item_fn(&mut *arg0, x) }"""
    it = c.t.get('iter')
    if not it:
        raise Unmodelled(kind + ' without iterator info')
    blocks = [
        {'t': {'k': 'call', 'f': it['into'], 'args': [mv(2)], 'dest': L(3), 'dty': '?', 't': 1}},
        {'s': [asg(4, refm(3))],
         't': {'k': 'call', 'f': it['next'], 'args': [mv(4)], 'dest': L(5), 'dty': '?', 't': 2}},
        {'s': [asg(6, {'k': 'discr', 'p': L(5), 'adt': OPT})],
         't': {'k': 'switch', 'd': mv(6), 'ty': 'isize', 'v': [[0, 4]], 'o': 3}},
        {'s': [asg(7, {'k': 'use', 'a': mv(5, *SOME0)})],
         't': {'k': 'call', 'f': item_fn, 'args': [{'k': 'copy', 'p': L(1)}, mv(7)], 'dest': L(8),
               'dty': '()', 't': 1}},
        {'s': [asg(0, {'k': 'use', 'a': {'k': 'const', 'ty': '()', 'zst': True}})], 't': {'k': 'ret'}},
    ]
    key, fn = loop_fn(I, c, kind, ['()', '?', '?', '?', '?', '?', '?', '?', '?'], blocks)
    return Push(key, fn, c.args)


def collector(I, st, c, kind, empty_fn, item_fn):
    it = c.t.get('iter')
    if not it:
        raise Unmodelled(kind + ' without iterator info')
    blocks = [
        {'t': {'k': 'call', 'f': it['into'], 'args': [mv(1)], 'dest': L(2), 'dty': '?', 't': 1}},
        {'t': {'k': 'call', 'f': empty_fn, 'args': [], 'dest': L(3), 'dty': '?', 't': 2}},
        {'s': [asg(4, refm(2))],
         't': {'k': 'call', 'f': it['next'], 'args': [mv(4)], 'dest': L(5), 'dty': '?', 't': 3}},
        {'s': [asg(6, {'k': 'discr', 'p': L(5), 'adt': OPT})],
         't': {'k': 'switch', 'd': mv(6), 'ty': 'isize', 'v': [[0, 5]], 'o': 4}},
        {'s': [asg(7, {'k': 'use', 'a': mv(5, *SOME0)}), asg(9, refm(3))],
         't': {'k': 'call', 'f': item_fn, 'args': [mv(9), mv(7)], 'dest': L(8), 'dty': '()', 't': 2}},
        {'s': [asg(0, {'k': 'use', 'a': mv(3)})], 't': {'k': 'ret'}},
    ]
    key, fn = loop_fn(I, c, kind, ['?'] * 10, blocks)
    return Push(key, fn, c.args)


VEC_NEW = {'name': 'new', 'path': 'alloc::vec::new', 'impl_self': 'alloc::vec::Vec', 'kind': 'item'}
VEC_PUSH = {'name': 'push', 'path': 'alloc::vec::push', 'impl_self': 'alloc::vec::Vec', 'kind': 'item'}
SET_NEW = {'name': 'new', 'path': 'x', 'impl_self': 'std::collections::hash::set::HashSet', 'kind': 'item'}
SET_INS = {'name': 'insert', 'path': 'x', 'impl_self': 'std::collections::hash::set::HashSet', 'kind': 'item'}
STR_NEW = {'name': 'new', 'path': 'x', 'impl_self': 'alloc::string::String', 'kind': 'item'}
STR_PUSH = {'name': 'push', 'path': 'x', 'impl_self': 'alloc::string::String', 'kind': 'item'}


def pipeline_base(v, path=()):
    """(path, iterator) of the base of an adaptor pipeline"""
    if v[0] == 'it':
        return path, v
    if v[0] == 'a' and isinstance(v[1], str) and short(v[1]) in ('Map', 'Filter', 'FilterMap', 'Copied', 'Cloned',
                                                                 'Inspect'):
        for n, x in v[3]:
            if n in ('iter', 'it'):
                return pipeline_base(x, path + (n,))
    return None


def comprehension(I, st, c, pipe):
    """set of outputs of a pipeline over a symbolic set/vec, as a comprehension term:
    ('compr', source, cases) with cases = frozenset of (facts about the item, output|None)"""
    pb = pipeline_base(pipe)
    it = c.t.get('iter')
    if pb is None or it is None:
        return None
    path, base = pb
    if base[1] not in ('set', 'setval', 'slice', 'vecval') or (base[4] is not None and base[4] != K('int', 0)):
        return None
    if base[1] in ('set', 'setval'):
        src = base[2]
    else:
        src = I.deep(st, base[2])
    if src[0] == 'set' and src[1] is None and all(o[0] != 'ext' for o in src[2]) and False:
        return None
    x = T(('citem',))
    s0 = st.copy()
    root = ('G', 'pipe')
    once = ('it', 'once', x, base[3], K('int', 0))
    s0.mem[root] = pipe
    s0.mem[root] = I.put(s0, pipe, path, once)
    s0.facts = {k: v for k, v in s0.facts.items()}
    cases = set()
    todo = [s0]
    f0 = set(s0.facts.items())
    for s, o in I.sub(s0, it['next'], [('r', (root, ()))]):
        delta = frozenset((k, v) for k, v in s.facts.items() if (k, v) not in f0)
        if o[0] != 'a':
            return None
        out = None if o[2] == 'None' else I.deep(s, fld(o, '0'))
        cases.add((delta, out))
    return T(('op', 'compr', src, frozenset(cases)))


def next_once(I, st, c, pl, it):
    if it[4][0] == 'k' and it[4][2] == 0:
        I.write(st, pl, it[:4] + (K('int', 1),), None, False)
        return one(st, Some(it[2]))
    return one(st, NONE)


NEXT['once'] = next_once
RKINDS = tuple(REVKIND.values())
for _k in RKINDS:
    NEXT[_k] = next_rev


def m_set_from_iter(I, st, c):
    a = c.args[0]
    r = comprehension(I, st, c, a)
    if r is not None:
        return one(st, ('set', None, (('ext', r),)))
    return collector(I, st, c, 'collect_set', SET_NEW, SET_INS)


def m_vec_from_iter(I, st, c):
    a = c.args[0]
    pb = pipeline_base(a)
    if pb is not None and pb[1][1] in ('set', 'setval'):
        r = comprehension(I, st, c, a)
        if r is not None:
            return one(st, ('vec', T(('op', 'elems', r)), ()))
    return collector(I, st, c, 'collect_vec', VEC_NEW, VEC_PUSH)


def m_string_from_iter(I, st, c):
    return collector(I, st, c, 'collect_string', STR_NEW, STR_PUSH)


def setlike(I, st, a):
    """set value denoted by an iterable argument, if it is a whole set"""
    v = I.deep(st, a) if a[0] in ('r', 't') else a
    return v


def m_set_extend(I, st, c):
    pl, v = container(I, st, c.args[0])
    a = c.args[1]
    targs = ' '.join(c.f.get('targs') or []) + ' ' + str((c.t.get('iter') or {}).get('ity'))
    if a[0] in ('r', 't', 'set') and 'HashSet' in targs and pipeline_base(a) is None:
        x = I.deep(st, a)
        I.write(st, pl, set_op(v, ('ext', x)), c.sp)
        return one(st, UNIT)
    if a[0] in ('r', 't', 'vec') and 'Vec<' in targs:
        x = I.deep(st, a)
        I.write(st, pl, set_op(v, ('ext', x)), c.sp)
        return one(st, UNIT)
    r = comprehension(I, st, c, a)
    if r is not None:
        I.write(st, pl, set_op(v, ('ext', r)), c.sp)
        return one(st, UNIT)
    return consumer(I, st, c, 'extend_set', SET_INS)


def m_vec_extend(I, st, c):
    pl, v = container(I, st, c.args[0])
    a = c.args[1]
    x = I.deep(st, a) if a[0] in ('r', 't') else a
    if x[0] == 'vec' or x[0] == 't':
        I.write(st, pl, vconcat(v, x), c.sp)
        return one(st, UNIT)
    return consumer(I, st, c, 'extend_vec', VEC_PUSH)


def m_position(I, st, c):
    """index of the first element satisfying the predicate: uninterpreted in (slice, predicate outcome)"""
    pl, it = itplace(I, st, c)
    if it[0] != 'it' or it[1] != 'slice':
        raise Unmodelled('position')
    cp, v = container(I, st, it[2])
    mid = (c.site, 'pos')
    x = T(('citem',))
    # cases of the predicate on a generic element
    root = ('G', 'posarg')
    s0 = st.copy()
    s0.mem[root] = c.args[1]
    f0 = set(s0.facts.items())
    callee = {'name': 'call_mut', 'trait': 'core::ops::function::FnMut', 'path': 'core::ops::function::FnMut::call_mut',
              'kind': 'unresolved'}
    cases = set()
    for s, o in I.sub(s0, callee, [('r', (root, ())), tup(x)]):
        if o[0] == 't' and not opaque(o):
            for b in (True, False):
                s2 = s.copy()
                if I.assume(s2, o[1], b):
                    cases.add((frozenset((k, v2) for k, v2 in s2.facts.items() if (k, v2) not in f0), b))
            continue
        if o[0] != 'k':
            raise Unmodelled('position predicate')
        cases.add((frozenset((k, v2) for k, v2 in s.facts.items() if (k, v2) not in f0), o[2]))
    t = ('op', 'position', I.deep(st, v), frozenset(x for x in cases if x[1]))
    if I.test(st, T(('op', 'exists', t))):
        return one(st, Some(T(t)))
    return one(st, NONE)


def m_default(I, st, c):
    ty = c.f.get('self_ty') or c.ty
    if 'HashMap' in ty:
        return one(st, ('map', None, ()))
    if 'HashSet' in ty:
        return one(st, ('set', None, ()))
    if ty.startswith('std::vec::Vec') or 'Vec<' in ty:
        return one(st, emptyvec())
    if ty.endswith('String'):
        return one(st, ('str', ()))
    if ty.startswith('std::option::Option'):
        return one(st, NONE)
    if ty in ('usize', 'isize', 'u32', 'i32', 'u64', 'i64', 'u8'):
        return one(st, K('int', 0))
    if ty == 'bool':
        return one(st, FALSE)
    return None


def m_unit(I, st, c):
    return one(st, UNIT)


def m_sort(I, st, c):
    pl, v = container(I, st, c.args[0])
    if pl is None:
        raise Unmodelled('sort')
    I.write(st, pl, T(('op', 'sorted', I.deep(st, v))), c.sp)
    return one(st, UNIT)


def m_generic_eq(I, st, c):
    """PartialEq on an unresolved generic type: content equality"""
    a, b = I.deep(st, c.args[0]), I.deep(st, c.args[1])
    e = I.eq_term(st, a, b)
    return one(st, I.bnot(e) if c.name == 'ne' else e)


def m_truncate(I, st, c):
    pl, v = container(I, st, c.args[0])
    n = c.args[1]
    if pl is None or v[0] != 'vec' or v[1] is not None or n[0] != 'k':
        raise Unmodelled('truncate')
    I.write(st, pl, ('vec', None, v[2][:n[2]]), c.sp)
    return one(st, UNIT)


STRFNS = ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'to_lowercase',
          'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim_left', 'trim_right',
          'replace', 'replacen', 'repeat')


WS = ' \t\n\x0b\x0c\r'


def m_strfn(I, st, c):
    """pure string functions: evaluated on literals, uninterpreted otherwise"""
    a = [I.deep(st, x) for x in c.args]
    v = apply_strfn(c.name, a)
    return one(st, v if v is not None else T(('op', 'strfn', c.name) + tuple(a)))


def apply_strfn(name, a):
    lit = litof(a[0])
    if lit is None:
        return None
    try:
        if len(a) == 1:
            r = {'trim': lambda: lit.strip(WS), 'trim_start': lambda: lit.lstrip(WS), 'trim_end': lambda: lit.rstrip(WS),
                 'trim_left': lambda: lit.lstrip(WS), 'trim_right': lambda: lit.rstrip(WS), 'to_lowercase': lit.lower, 'to_uppercase': lit.upper,
                 'to_ascii_lowercase': lit.lower, 'to_ascii_uppercase': lit.upper}[name]()
        elif a[1][0] == 'k' and a[1][1] == 'char':
            r = {'trim_matches': lit.strip, 'trim_start_matches': lit.lstrip,
                 'trim_end_matches': lit.rstrip}[name](a[1][2])
        elif name == 'replace' and a[1][0] == 'k' and a[2][0] != 'k' and litof(a[2]) is not None:
            r = lit.replace(a[1][2], litof(a[2]))
        elif name == 'replace' and litof(a[1]) and litof(a[2]) is not None:
            r = lit.replace(litof(a[1]), litof(a[2]))
        else:
            return None
    except KeyError:
        return None
    if not lit.isascii():
        return None
    return ('str', (('lit', r),) if r else ())


def m_strpred(I, st, c):
    """prefix, suffix, substring: evaluated on literals, uninterpreted otherwise"""
    a = [I.deep(st, x) for x in c.args]
    while a[1][0] == 'r':
        a[1] = I.deep(st, I.read(st, a[1][1]))
    s, p = litof(a[0]), a[1][2] if a[1][0] == 'k' and a[1][1] == 'char' else litof(a[1]) if a[1][0] != 'k' else None
    if p is None:
        raise Unmodelled(c.name)
    if s is not None:
        return one(st, K('bool', {'starts_with': s.startswith, 'ends_with': s.endswith, 'contains': lambda x: x in s}[c.name](p)))
    return one(st, T(('op', 'sp', c.name, a[0], a[1])))


def m_str_strip(I, st, c):
    """strip_prefix / strip_suffix with a literal"""
    a = [I.deep(st, x) for x in c.args]
    while a[1][0] == 'r':
        a[1] = I.deep(st, I.read(st, a[1][1]))
    s, p = litof(a[0]), a[1][2] if a[1][0] == 'k' and a[1][1] == 'char' else litof(a[1]) if a[1][0] != 'k' else None
    if not p:
        raise Unmodelled(c.name)
    front = c.name == 'strip_prefix'
    if s is not None:
        if not (s.startswith(p) if front else s.endswith(p)):
            return one(st, NONE)
        r = s[len(p):] if front else s[:len(s) - len(p)]
        return one(st, Some(('str', (('lit', r),) if r else ())))
    if I.test(st, T(('op', 'sp', 'starts_with' if front else 'ends_with', a[0], a[1]))):
        return one(st, Some(T(('op', 'strfn', c.name, a[0], a[1]))))
    return one(st, NONE)


def m_radix(I, st, c):
    """T::from_str_radix(text, constant)"""
    s, n = sval(I, st, c.args[0]), I.deep(st, c.args[1])
    m = re.search(r'(?:^|<|\s)([iu](?:8|16|32|64|128|size))\b', str(c.t.get('dty') or ''))
    if n[0] != 'k' or m is None:
        raise Unmodelled('from_str_radix')
    ty = m.group(1) + ('' if n[2] == 10 else '/%d' % n[2])
    if I.test(st, T(('op', 'parses', ty, s))):
        return one(st, Ok(T(('op', 'parse', ty, s))))
    return one(st, Err(T(('op', 'parseerr', ty, s))))


def m_str_pop(I, st, c):
    """the last character is taken off a text; which one it was is not followed"""
    pl, v = container(I, st, c.args[0])
    if pl is None or result_used(c):
        raise Unmodelled('pop of a text')
    v = I.deep(st, v)
    lit = litof(v)
    if lit is not None:
        r = ('str', (('lit', lit[:-1]),) if lit[:-1] else ())
    else:
        r = T(('op', 'strfn', 'unpush', v))
    I.write(st, pl, r, c.sp)
    return one(st, T(('opq', 'popped')))


def m_streqic(I, st, c):
    a = [I.deep(st, x) for x in c.args]
    a = [I.deep(st, I.read(st, x[1])) if x[0] == 'r' else x for x in a]
    s, p = litof(a[0]), litof(a[1])
    if s is not None and p is not None:
        return one(st, K('bool', s.lower() == p.lower()))
    return one(st, T(('op', 'eqic', a[0], a[1])))


def m_drain(I, st, c):
    """drain(..): the whole list, leaving an empty one"""
    pl, v = container(I, st, c.args[0])
    r = I.deep(st, c.args[1])
    if pl is None or not (r[0] == 'a' and short(str(r[1])) == 'RangeFull'):
        raise Unmodelled('drain of a part')
    v = I.deep(st, v)
    I.write(st, pl, emptyvec(), c.sp)
    return one(st, ('it', 'vecval', v, c.site, K('int', 0)))


def m_eqic(I, st, c):
    a, b = I.deep(st, c.args[0]), I.deep(st, c.args[1])
    if repr(a) > repr(b):
        a, b = b, a
    return one(st, T(('op', 'eqic', a, b)))


def counted(v):
    """does an adaptor pipeline number its items"""
    while v[0] == 'a' and isinstance(v[1], str):
        if short(v[1]) == 'Enumerate':
            return True
        nxt = [x for n, x in v[3] if n in ('iter', 'it')]
        if not nxt:
            return False
        v = nxt[0]
    return False


CALL_MUT = {'name': 'call_mut', 'trait': 'core::ops::function::FnMut', 'path': 'core::ops::function::FnMut::call_mut',
            'kind': 'unresolved'}


def m_search(I, st, c):
    """find / find_map / any / all / for_each / fold as a loop around the resolved `next`, for plain index-addressed
    iterators and pipelines that number their items"""
    it = c.t.get('iter')
    v = c.args[0]
    byval = c.name in ('for_each', 'fold')
    if v[0] == 'r':
        v = I.read(st, v[1])
    nx = I.fns.get(it['next'].get('inst')) if it else None
    if not it or not (counted(v) or v[0] == 'it' or nx is not None and nx.get('local')):
        return None
    tf = lambda b: {'k': 'use', 'a': {'k': 'const', 'ty': 'bool', 'bool': bool(b)}}
    use = lambda x: {'k': 'use', 'a': x}
    none = {'k': 'agg', 'kind': 'adt', 'adt': OPT, 'variant': 'None', 'ops': []}
    unit = use({'k': 'const', 'ty': '()', 'zst': True})
    fn = 3 if c.name == 'fold' else 2
    arg = [mv(12), mv(8)] if c.name == 'fold' else [mv(8)]
    after = {'for_each': {'k': 'goto', 't': 1}, 'fold': {'k': 'goto', 't': 1},
             'find_map': {'k': 'switch', 'd': mv(6), 'ty': 'isize', 'v': [[0, 1]], 'o': 5},
             'all': {'k': 'switch', 'd': mv(11), 'ty': 'bool', 'v': [[0, 7]], 'o': 1}}.get(
        c.name, {'k': 'switch', 'd': mv(11), 'ty': 'bool', 'v': [[0, 1]], 'o': 5})
    afters = {'find_map': [asg(6, {'k': 'discr', 'p': L(11), 'adt': OPT})], 'fold': [asg(12, use(mv(11)))]}.get(c.name, [])
    hit = {'find': {'k': 'agg', 'kind': 'adt', 'adt': OPT, 'variant': 'Some', 'ops': [mv(7)]},
           'find_map': use(mv(11))}.get(c.name, tf(1))
    miss = {'find': none, 'find_map': none, 'any': tf(0), 'all': tf(1), 'fold': use(mv(12))}.get(c.name, unit)
    blocks = [
        {'s': [asg(4, refm(1) if byval else use(mv(1)))] + ([asg(12, use(mv(2)))] if c.name == 'fold' else []),
         't': {'k': 'goto', 't': 1}},
        {'t': {'k': 'call', 'f': it['next'], 'args': [{'k': 'copy', 'p': L(4)}], 'dest': L(5), 'dty': '?', 't': 2}},
        {'s': [asg(6, {'k': 'discr', 'p': L(5), 'adt': OPT})],
         't': {'k': 'switch', 'd': mv(6), 'ty': 'isize', 'v': [[0, 6]], 'o': 3}},
        {'s': [asg(7, use(mv(5, *SOME0))),
               asg(8, refm(7) if c.name == 'find' else use({'k': 'copy', 'p': L(7)})),
               asg(9, {'k': 'agg', 'kind': 'tuple', 'ops': arg}), asg(10, refm(fn))],
         't': {'k': 'call', 'f': CALL_MUT, 'args': [mv(10), mv(9)], 'dest': L(11), 'dty': '?', 't': 4}},
        {'s': afters, 't': after},
        {'s': [asg(0, hit)], 't': {'k': 'ret'}},
        {'s': [asg(0, miss)], 't': {'k': 'ret'}},
        {'s': [asg(0, tf(0))], 't': {'k': 'ret'}},
    ]
    key, f = loop_fn(I, c, c.name, ['?'] * 13, blocks)
    return Push(key, f, c.args)


def m_fmtarg(I, st, c):
    """one argument of a format string"""
    ty = (c.f.get('targs') or ['?'])[-1].replace('&', '').strip()
    return one(st, ('a', 'FmtArg', None, (('how', K('str', c.name)), ('ty', K('str', ty)), ('v', I.deep(st, c.args[0])))))


def m_fmtnew(I, st, c):
    """the pieces of a format string: None for a placeholder with options"""
    t, a = c.args[0], c.args[1]
    a = I.deep(st, a)
    if t[0] == 'r':
        t = I.read(st, t[1])
    ps = template(t[2]) if t[0] == 'k' and t[1] == 'bytes' else None
    if ps is None or a[0] != 'a' or a[1] != 'array':
        return one(st, fmt_result(c))
    items = [x for _, x in a[3]]
    if any(p[0] == 'arg' and (p[1] >= len(items) or items[p[1]][1] != 'FmtArg') for p in ps):
        return one(st, fmt_result(c))
    return one(st, ('a', 'FmtArgs', None, tuple(
        (str(i), K('str', p[1]) if p[0] == 'lit' else ('a', 'FmtPiece', None, items[p[1]][3] + (('plain', K('bool', p[2])), ('cut', K('bool', p[3])))))
        for i, p in enumerate(ps))))


def template(hexes):
    b = bytes.fromhex(hexes)
    out, i, nxt = [], 0, 0
    try:
        while i < len(b):
            n = b[i]
            i += 1
            if n == 0:
                return out
            if n < 0x80:
                out.append(('lit', b[i:i + n].decode()))
                i += n
            elif n == 0x80:
                n = b[i] | b[i + 1] << 8
                out.append(('lit', b[i + 2:i + 2 + n].decode()))
                i += 2 + n
            elif n >= 0xC0:
                plain = not n & 0x37
                cut = n & 0x24 == 4
                if n & 1:
                    i += 4
                if n & 2:
                    i += 2
                if n & 4:
                    i += 2
                if n & 8:
                    nxt = b[i] | b[i + 1] << 8
                    i += 2
                out.append(('arg', nxt, plain, cut))
                nxt += 1
            else:
                return None
    except (IndexError, UnicodeDecodeError):
        return None
    return None


def m_fmtstr(I, st, c):
    v = I.deep(st, c.args[0])
    if v[0] == 'str' and all(p[0] == 'lit' for p in v[1]):
        return one(st, ('a', 'FmtArgs', None, (('0', K('str', ''.join(p[1] for p in v[1]))),)))
    return one(st, fmt_result(c))


STRS = ('str', 'std::string::String', 'String', 'alloc::string::String')


def fmt_pieces(I, st, v):
    """a formatted text as pieces of a string, None when not known"""
    v = I.deep(st, v)
    if v[0] != 'a' or v[1] != 'FmtArgs':
        return None
    out = []
    for _, p in v[3]:
        if p[0] == 'k':
            out.append(('lit', p[2]))
            continue
        f = dict(p[3])
        x, ty = f['v'], f['ty'][2]
        if f['how'][2] == 'new_display' and f['plain'][2]:
            if ty == 'char':
                out.append(('c', x))
                continue
            if ty in STRS:
                x = I.strnorm(st, x)
                out += list(x[1]) if x[0] == 'str' else [('v', x)]
                continue
            if x[0] == 'k' and x[1] == 'int':
                out.append(('lit', str(x[2])))
                continue
            out.append(('v', T(('op', 'display', x))))
            continue
        out.append(('v', T(('op', 'shown', f['how'][2] + ('' if f['plain'][2] else '+') + (
            ' cut' if f['cut'][2] and f['how'][2] == 'new_display' and ty in STRS else ''), x))))
    return out


def m_str_write(I, st, c):
    """write! and friends into a string"""
    pl, v = container(I, st, c.args[0])
    if c.name == 'write_char':
        ps = [('c', c.args[1])]
    elif c.name == 'write_str':
        x = sval(I, st, c.args[1])
        ps = list(x[1]) if x[0] == 'str' else [('v', x)]
    else:
        ps = fmt_pieces(I, st, c.args[1])
    if pl is None or ps is None:
        raise Unmodelled('write into a string')
    I.write(st, pl, I.strnorm(st, ('str', strof(v)[1] + tuple(p for p in ps if p != ('lit', '')))), c.sp)
    return one(st, core_ok())


def core_ok():
    return Ok(UNIT)


def m_format(I, st, c):
    ps = fmt_pieces(I, st, c.args[0])
    if ps is None:
        return one(st, ('str', (('v', T(('fmtv', c.site))),)))
    return one(st, I.strnorm(st, ('str', tuple(p for p in ps if p != ('lit', '')))))


TABLE = {
    ('Rc', 'deref'): m_deref, ('Box', 'deref'): m_deref, ('Vec', 'deref'): m_deref, ('String', 'deref'): m_deref,
    ('Rc', 'borrow'): m_deref, ('Rc', 'as_ref'): m_deref, ('Box', 'as_ref'): m_deref,
    ('Vec', 'deref_mut'): m_deref, ('Box', 'deref_mut'): m_deref,
    ('Vec', 'as_slice'): m_deref, ('Vec', 'as_mut_slice'): m_deref, ('Vec', 'as_ref'): m_deref,
    ('Vec', 'borrow'): m_deref,
    ('String', 'as_str'): m_deref, ('String', 'as_ref'): m_deref, ('String', 'borrow'): m_deref,
    ('Rc', 'clone'): m_clone, ('Vec', 'clone'): m_clone, ('HashSet', 'clone'): m_clone, ('HashMap', 'clone'): m_clone,
    ('String', 'clone'): m_strclone,
    ('Rc', 'new'): m_box_new, ('Box', 'new'): m_box_new, ('Box', 'new_uninit'): m_new_uninit,
    ('Rc', 'from'): m_box_new, ('Rc', 'ptr_eq'): m_ptr_eq,
    ('Vec', 'new'): m_vec_new, ('Vec', 'with_capacity'): m_vec_new, ('Vec', 'push'): m_vec_push,
    ('Vec', 'pop'): m_vec_pop, ('Vec', 'len'): m_len, ('Vec', 'is_empty'): m_is_empty, ('Vec', 'clear'): m_clear,
    ('Vec', 'insert'): m_vec_insert, ('Vec', 'remove'): m_vec_remove, ('Vec', 'swap_remove'): m_vec_remove,
    ('[T]', 'reverse'): m_reverse, ('Vec', 'truncate'): m_truncate,
    ('Vec', 'append'): m_append, ('Vec', 'clone_from'): m_clone_from, ('Vec', 'index'): m_index, ('Vec', 'index_mut'): m_index,
    ('Vec', 'into_iter'): m_vec_into_iter, ('Vec', 'extend'): m_vec_extend, ('Vec', 'from_iter'): m_vec_from_iter,
    ('Vec', 'extend_from_slice'): m_vec_extend, ('Vec', 'to_vec'): m_clone, ('[T]', 'to_vec'): m_clone,
    ('[T]', 'index'): m_index, ('[T]', 'index_mut'): m_index, ('[T]', 'len'): m_len, ('[T]', 'is_empty'): m_is_empty,
    ('[T]', 'first'): m_first, ('[T]', 'last'): m_last, ('[T]', 'get'): m_get, ('[T]', 'get_mut'): m_get,
    ('[T]', 'iter'): m_vec_iter, ('[T]', 'iter_mut'): m_vec_iter, ('[T]', 'contains'): m_slice_contains,
    ('[T]', 'split_first'): m_split_first, ('Vec', 'drain'): m_drain, ('String', 'pop'): m_str_pop,
    ('str', 'starts_with'): m_strpred, ('str', 'ends_with'): m_strpred, ('str', 'contains'): m_strpred,
    ('str', 'eq_ignore_ascii_case'): m_streqic, ('str', 'strip_prefix'): m_str_strip, ('str', 'strip_suffix'): m_str_strip,
    ('T', 'from_str_radix'): m_radix,
    ('[T]', 'join'): m_join, ('[T]', 'sort'): m_sort, ('[T]', 'sort_unstable'): m_sort,
    ("Vec<T, A>", 'into_iter'): m_ref_into_iter, ("&'a [T]", 'into_iter'): m_ref_into_iter,
    ("&'a mut [T]", 'into_iter'): m_ref_into_iter,
    ('HashMap', 'new'): m_map_new, ('HashMap', 'default'): m_map_new, ('HashMap', 'with_capacity'): m_map_new,
    ('HashMap', 'get'): m_map_get, ('HashMap', 'get_mut'): m_map_get, ('HashMap', 'contains_key'): m_map_contains,
    ('HashMap', 'insert'): m_map_insert, ('HashMap', 'iter'): m_map_iter, ('HashMap', 'keys'): m_map_iter,
    ('HashMap', 'remove'): m_map_remove, ('HashMap', 'values'): m_map_iter, ('HashMap', 'iter_mut'): m_map_iter, ('HashMap', 'into_iter'): m_map_iter,
    ('HashMap', 'index'): m_index, ('HashMap', 'entry'): m_entry,
    ('Entry', 'or_insert'): m_or_insert, ('Entry', 'or_insert_with'): m_or_insert,
    ('Entry', 'or_default'): m_or_insert, ('Entry', 'and_modify'): m_or_insert, ('Entry', 'key'): m_or_insert,
    ('OccupiedEntry', 'get'): m_slot_ref, ('OccupiedEntry', 'get_mut'): m_slot_ref,
    ('OccupiedEntry', 'into_mut'): m_slot_ref, ('OccupiedEntry', 'insert'): m_slot_insert,
    ('OccupiedEntry', 'key'): m_slot_key, ('VacantEntry', 'key'): m_slot_key,
    ('VacantEntry', 'into_key'): m_slot_key, ('VacantEntry', 'insert'): m_slot_insert,
    ("HashMap<K, V, S, A>", 'into_iter'): m_map_iter, ("HashMap<K, V, S>", 'into_iter'): m_map_iter,
    ('HashSet', 'new'): m_set_new, ('HashSet', 'default'): m_set_new, ('HashSet', 'with_capacity'): m_set_new,
    ('HashSet', 'from'): m_set_from, ('HashSet', 'insert'): m_set_insert, ('HashSet', 'remove'): m_set_remove,
    ('HashSet', 'contains'): m_set_contains, ('HashSet', 'iter'): m_set_iter, ('HashSet', 'extend'): m_set_extend,
    ('HashSet', 'from_iter'): m_set_from_iter, ('HashSet', 'is_subset'): m_set_subset,
    ('HashSet', 'difference'): m_set_diff, ('HashSet', 'union'): m_set_diff, ('HashSet', 'intersection'): m_set_diff,
    ('HashSet', 'into_iter'): m_set_iter, ('HashSet', 'len'): m_set_size, ('HashSet', 'is_empty'): m_set_size,
    ('HashMap', 'len'): m_set_size, ('HashMap', 'is_empty'): m_set_size,
    ("HashSet<T, S, A>", 'into_iter'): m_set_iter, ("HashSet<T, S>", 'into_iter'): m_set_iter,
    ('String', 'new'): m_string_new, ('String', 'with_capacity'): m_string_new, ('String', 'from'): m_string_from,
    ('String', 'push'): m_push, ('String', 'push_str'): m_push_str, ('String', 'eq'): m_str_eq,
    ('String', 'ne'): m_str_eq, ('str', 'eq'): m_str_eq, ('str', 'ne'): m_str_eq, ('str', 'to_owned'): m_strclone,
    ('str', 'to_string'): m_strclone, ('String', 'is_empty'): m_is_empty, ('str', 'is_empty'): m_is_empty,
    ('String', 'len'): m_len, ('str', 'len'): m_len, ('String', 'clear'): m_clear,
    ('str', 'chars'): m_chars, ('str', 'parse'): m_parse, ('T', 'to_string'): m_to_string,
    ('String', 'write_fmt'): m_str_write, ('String', 'write_str'): m_str_write, ('String', 'write_char'): m_str_write,
    ('String', 'to_string'): m_to_string, ('char', 'to_string'): m_to_string,
    ('String', 'from_iter'): m_string_from_iter,
    ('Iter', 'next'): m_next, ('IterMut', 'next'): m_next, ('IntoIter', 'next'): m_next, ('Drain', 'next'): m_next, ('Chars', 'next'): m_next,
    ('Keys', 'next'): m_next, ('Values', 'next'): m_next, ('Difference', 'next'): m_next, ('Union', 'next'): m_next,
    ('Rev', 'next'): m_next, ('Iter', 'nth'): m_nth, ('Iter', 'position'): m_position,
    ('Take', 'next'): m_take_next, ('Chars', 'last'): m_chars_last, ('Chars', 'nth'): m_chars_nth,
    ('Enumerate', 'next'): m_enum_next, ('Skip', 'next'): m_skip_next, ('Range', 'next'): m_range_next,
    ('Atomic', 'fetch_add'): m_fetch_add, ('Atomic', 'fetch_sub'): m_fetch_add, ('Atomic', 'new'): m_atomic_new,
    ('Atomic', 'load'): m_atomic_load, ('Atomic', 'store'): m_atomic_store, ('AtomicUsize', 'new'): m_atomic_new,
    ('Option', 'take'): m_opt_take, ('char', 'eq_ignore_ascii_case'): m_eqic,
    ('NonZero', 'new'): m_nonzero, ('NonZero', 'get'): m_id,
}
for _p in ('len_utf8', 'len_utf16', 'to_ascii_lowercase', 'to_ascii_uppercase'):
    TABLE[('char', _p)] = m_intfn
SEARCH = ('find', 'find_map', 'any', 'all', 'for_each', 'fold')
for _p in STRFNS:
    TABLE[('str', _p)] = m_strfn
for _p in list(CH.PREDS) + ['is_digit']:
    TABLE[('char', _p.split('(')[0])] = m_char_pred
for _t in ('usize', 'isize', 'u32', 'i32', 'u64', 'i64', 'u8'):
    TABLE[(_t, 'from_str_radix')] = m_radix
    for _o in ('add', 'sub', 'mul', 'pow', 'div', 'rem'):
        TABLE[(_t, 'checked_' + _o)] = m_checked
        for _k in ('wrapping_', 'saturating_', 'overflowing_'):
            TABLE[(_t, _k + _o)] = m_overflowing
    for _o in ('abs', 'signum', 'unsigned_abs', 'count_ones', 'leading_zeros'):
        TABLE[(_t, _o)] = m_intfn
    for _o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        TABLE[(_t, _o)] = m_intcmp
    TABLE[(_t, 'min')] = TABLE[(_t, 'max')] = m_minmax
    TABLE[(_t, 'clamp')] = m_clamp

PATHS = {
    'core::iter::traits::iterator::Iterator::nth': m_chars_nth, 'core::iter::Iterator::nth': m_chars_nth,
    'core::intrinsics::integer_min': m_minmax, 'core::intrinsics::integer_max': m_minmax,
    'core::mem::take': m_mem_take, 'core::mem::replace': m_mem_replace, 'core::mem::swap': m_mem_swap,
    'alloc::boxed::box_assume_init_into_vec_unsafe': m_box_into_vec,
    'alloc::fmt::format': m_format, 'core::fmt::rt::new_display': m_fmtarg, 'core::fmt::rt::new_debug': m_fmtarg,
    'core::fmt::new': m_fmtnew, 'core::fmt::from_str': m_fmtstr, 'core::hint::must_use': m_id, 'core::intrinsics::cold_path': m_unit,
    'core::hint::unreachable_unchecked::precondition_check': m_unit,
    'core::iter::traits::iterator::Iterator::skip': m_skip_new, 'core::iter::traits::iterator::Iterator::take': m_take_new,
    'core::iter::traits::iterator::Iterator::rev': m_rev,
    'core::iter::traits::iterator::Iterator::by_ref': m_id,
    'core::iter::traits::collect::into_iter': m_iter_id,
    'core::mem::drop': m_unit, 'core::iter::traits::iterator::Iterator::next': m_gen_next,
}
for _p in SEARCH:
    PATHS['core::iter::traits::iterator::Iterator::' + _p] = m_search
    TABLE[('Iter', _p)] = TABLE[('IterMut', _p)] = m_search
TRAITS = {
    ('PartialEq', 'eq'): None, ('PartialEq', 'ne'): None,
    ('Default', 'default'): m_default, ('ToString', 'to_string'): m_to_string,
}
TRAITS = {k: v for k, v in TRAITS.items() if v}
