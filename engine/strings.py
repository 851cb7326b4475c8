"""Is there a text that takes a path?  Conditions on one unknown text (comparisons with literals, pure string functions,
prefixes, suffixes) are evaluated on a small pool of texts made from the literals they mention."""
import re

WS = ' \t\n\x0b\x0c\r'
FNS = ('strfn', 'sp', 'eqic')
IDENT = re.compile(r'[A-Za-z][A-Za-z0-9_]*\Z')


class Unknown(Exception):
    pass


def has(x, tags):
    if isinstance(x, tuple):
        if len(x) > 1 and x[0] == 'op' and x[1] in tags:
            return True
        return any(has(y, tags) for y in x if isinstance(y, tuple))
    return False


def mentions(x, atom):
    if x == atom:
        return True
    return isinstance(x, tuple) and any(mentions(y, atom) for y in x if isinstance(y, tuple))


def lits(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'lit' and isinstance(x[1], str):
            out.add(x[1])
        elif len(x) == 3 and x[0] == 'k' and x[1] == 'char':
            out.add(x[2])
        else:
            for y in x:
                lits(y, out)


def strfn(name, s, a):
    if name in ('to_lowercase', 'to_ascii_lowercase'):
        return s.lower()
    if name in ('to_uppercase', 'to_ascii_uppercase'):
        return s.upper()
    if name == 'unpush':
        return s[:-1]
    if name == 'strip_prefix' and isinstance(a[0], str):
        return s[len(a[0]):] if s.startswith(a[0]) else s
    if name == 'strip_suffix' and isinstance(a[0], str):
        return s[:len(s) - len(a[0])] if s.endswith(a[0]) else s
    if not a:
        f = {'trim': s.strip, 'trim_start': s.lstrip, 'trim_left': s.lstrip, 'trim_end': s.rstrip, 'trim_right': s.rstrip}.get(name)
        if f:
            return f(WS)
    if len(a) == 1 and isinstance(a[0], str) and len(a[0]) == 1:
        f = {'trim_matches': s.strip, 'trim_start_matches': s.lstrip, 'trim_end_matches': s.rstrip}.get(name)
        if f:
            return f(a[0])
    if name == 'replace' and len(a) == 2 and all(isinstance(x, str) for x in a) and a[0]:
        return s.replace(*a)
    if name == 'repeat' and len(a) == 1 and isinstance(a[0], int) and a[0] < 9:
        return s * a[0]
    raise Unknown


def number(ty, s):
    """the number a text stands for, as parse and from_str_radix read it; None for none"""
    ty, _, radix = ty.partition('/')
    m = re.match(r'([iu])(8|16|32|64|128|size)\Z', ty)
    if not m:
        raise Unknown
    signed, bits = m.group(1) == 'i', 64 if m.group(2) == 'size' else int(m.group(2))
    if not re.match(r'[+-]?[0-9A-Za-z]+\Z' if signed else r'[+]?[0-9A-Za-z]+\Z', s) or not s.isascii():
        return None
    try:
        n = int(s, int(radix or 10))
    except ValueError:
        return None
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
    return n if lo <= n <= hi else None


NUMBERS = ('', '7', ' 7', '7 ', '+7', '-7', '-0', '007', '07', '70', '12', '-12', 'x', '1_0', '1,0', '0x1f', 'ff', 'b1', '1e3', '1.5', '7-', '7x', 'x7',
           '300', '70000', '4294967296', '-4294967296', '9223372036854775807', '9223372036854775808', '18446744073709551615',
           '18446744073709551616', '-9223372036854775808', '-9223372036854775809', '999999999999999999999999', '7\n', '\u0663')


def numbers(st, atom):
    """of a pool of texts, mostly numbers, those for which everything known about the atom holds; None when that cannot be said"""
    facts = about(st, atom) + [(('op', 'parses', '', ()), True)]
    try:
        return [x for x in pool(facts, (), False) if holds(facts[:-1], atom, x)]
    except Unknown:
        return None


def ev(x, atom, val):
    if x == atom:
        return val
    if not isinstance(x, tuple) or not x:
        raise Unknown
    h = x[0]
    if h == 't':
        return ev(x[1], atom, val)
    if h == 'k':
        return x[2]
    if h == 'str':
        return ''.join(p[1] if p[0] == 'lit' else ev(p[1], atom, val) for p in x[1])
    if h == 'lin':
        return x[2] + sum(ev(t, atom, val) * c for t, c in x[1])
    if h == 'op':
        a = x[2:]
        if x[1] == 'strfn':
            s = ev(a[1], atom, val)
            return strfn(a[0], s, [ev(y, atom, val) for y in a[2:]])
        if x[1] == 'parses':
            return number(a[0], ev(a[1], atom, val)) is not None
        if x[1] == 'parse':
            return number(a[0], ev(a[1], atom, val))
        if x[1] == 'sp':
            s, p = ev(a[1], atom, val), ev(a[2], atom, val)
            if not isinstance(p, str):
                raise Unknown
            return {'starts_with': s.startswith, 'ends_with': s.endswith, 'contains': lambda p: p in s}[a[0]](p)
        if x[1] == 'eqic':
            return ev(a[0], atom, val).lower() == ev(a[1], atom, val).lower()
        if x[1] in ('eq', 'ieq'):
            return ev(a[0], atom, val) == ev(a[1], atom, val)
        if x[1] == 'len':
            return len(ev(a[0], atom, val).encode())
        if x[1] == 'strempty':
            return ev(a[0], atom, val) == ''
        if x[1] == 'lt':
            return ev(a[0], atom, val) < ev(a[1], atom, val)
        if x[1] == 'le':
            return ev(a[0], atom, val) <= ev(a[1], atom, val)
    raise Unknown


def pool(facts, extra=(), identifiers=True):
    ls = set(extra)
    for k, _ in facts:
        lits(k, ls)
    out = ['q', 'Zz', 'zQz', 'Q1', 'qqqqqqqqqqqqqqqq']
    for l in sorted(ls):
        for x in (l, l.lower(), l.upper(), l.capitalize(), l.swapcase(), l + 'q', 'q' + l, 'q' + l + 'q', l + l, l + '_', l + 'S', l[:-1], l[1:]):
            out.append(x)
    two = sorted(x for x in ls if x)
    if len(two) <= 8:
        out += [a + b for a in two for b in two] + [a + 'q' + b for a in two for b in two]
    if not identifiers:
        out += [''] + [' ' + x for x in sorted(ls)] + [x + '\n' for x in sorted(ls)] + [' ', '\t', 'a b']
    if not identifiers and any(has(k, ('parses',)) for k, _ in facts):
        out += NUMBERS
        out += [y for l in sorted(ls) for y in (l + '7', '7' + l, l + '7' + l, '1' + l + '2')]
    seen, res = set(), []
    for x in out:
        if x not in seen and (not identifiers or IDENT.match(x)):
            seen.add(x)
            res.append(x)
    return res


def about(st, atom):
    return [(k, v) for k, v in st.facts.items() if mentions(k, atom)]


def texts(st, atom, identifiers=True, extra=()):
    """texts of the pool for which everything known about the atom holds; None when something known cannot be evaluated"""
    facts = about(st, atom)
    try:
        return [x for x in pool(facts, extra, identifiers) if holds(facts, atom, x)]
    except Unknown:
        return None


def pev(k, atom, x):
    """k with the text put in, evaluated where possible"""
    try:
        return ev(k, atom, x)
    except Unknown:
        pass
    if isinstance(k, tuple):
        return tuple(pev(y, atom, x) for y in k)
    return k


def holds(facts, atom, x):
    looked = {}
    for k, v in facts:
        if k[0] == 'b' and k[1][:2] == ('op', 'has') and not mentions(k[1][2], atom):
            # a look-up in an unknown table: free, but the same key is found or not found
            if looked.setdefault((k[1][2], pev(k[1][3], atom, x)), v) != v:
                return False
        elif k[0] == 'b':
            if bool(ev(k[1], atom, x)) != v:
                return False
        elif k[0] == 'iv':
            n = ev(k[1], atom, x)
            lo, hi, ex = v
            if lo is not None and n < lo or hi is not None and n > hi or ex and n in ex:
                return False
        else:
            raise Unknown
    return True


def atoms(x, out):
    """unknown texts under string functions"""
    if not isinstance(x, tuple):
        return
    if len(x) > 1 and x[0] == 'op' and x[1] in FNS:
        for y in x[2:] if x[1] == 'eqic' else x[3:]:
            leaf(y, out)
    for y in x:
        atoms(y, out)


def leaf(y, out):
    if not isinstance(y, tuple) or not y:
        return
    if y[0] == 't':
        return leaf(y[1], out)
    if y[0] == 'k':
        return
    if y[0] == 'str':
        for p in y[1]:
            if p[0] != 'lit':
                leaf(p[1], out)
        return
    if y[0] == 'op' and y[1] in FNS:
        return                       # found on its own
    out.add(y)


def differs(st, a, b, identifiers=False, extra=('\\', ' ', 'A', 'a ', 'aA')):
    """is there a text, possible on this path, for which these two spellings differ"""
    found = set()
    for x in (a, b):
        atoms(x, found)
    for t in found:
        if t[0] in ('la', 'ch'):
            continue
        ts = texts(st, t, identifiers, extra)
        try:
            if ts and any(ev(a, t, y) != ev(b, t, y) for y in ts):
                return True
        except Unknown:
            pass
    return False


def feasible(st):
    """False when a path that tests texts with string functions has no known text that takes it"""
    found = set()
    for k in st.facts:
        if k[0] in ('b', 'iv') and has(k, FNS):
            atoms(k, found)
    for a in found:
        if a[0] in ('la', 'ch') or a[0] == 'k':
            continue
        t = texts(st, a, False)
        if not t:
            return False
    return True
