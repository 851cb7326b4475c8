"""Finite partition of Unicode scalar values used as the character domain.

Every ASCII character is its own atom.  Non-ASCII characters are partitioned by
the standard predicates; literals that occur in the analysed code are split off
by `register` before an analysis starts.
"""

_ATOMS = []      # (name, example predicate dict)


def _ascii(i):
    c = chr(i)
    return dict(ch=c, alpha=c.isascii() and c.isalpha(), num=c.isdigit(), ws=c in ' \t\n\r\x0b\x0c',
                ctl=i < 32 or i == 127, up=c.isupper(), lo=c.islower(), ascii=True)


for _i in range(128):
    _ATOMS.append(_ascii(_i))
# non-ASCII classes
for _n, _p in [('alpha-lower', dict(alpha=True, lo=True)), ('alpha-upper', dict(alpha=True, up=True)),
               ('alpha-other', dict(alpha=True)), ('numeric', dict(num=True)), ('space', dict(ws=True)),
               ('control', dict(ctl=True)), ('space-control', dict(ws=True, ctl=True)), ('other', {})]:
    d = dict(ch=None, name=_n, alpha=False, num=False, ws=False, ctl=False, up=False, lo=False, ascii=False)
    d.update(_p)
    _ATOMS.append(d)
N = len(_ATOMS)
ALL = (1 << N) - 1
EOF = 1 << N            # extra atom used by tape domains only
ALLE = ALL | EOF


def mask(f):
    m = 0
    for i, a in enumerate(_ATOMS):
        if f(a):
            m |= 1 << i
    return m


ALPHA = mask(lambda a: a['alpha'])
NUM = mask(lambda a: a['num'])
ALNUM = ALPHA | NUM
WS = mask(lambda a: a['ws'])
DIGIT = mask(lambda a: a['ascii'] and a['num'])

PREDS = {
    'is_whitespace': WS,
    'is_alphabetic': ALPHA,
    'is_numeric': NUM,
    'is_alphanumeric': ALNUM,
    'is_ascii_digit': DIGIT,
    'is_ascii_alphabetic': mask(lambda a: a['ascii'] and a['alpha']),
    'is_ascii_alphanumeric': mask(lambda a: a['ascii'] and (a['alpha'] or a['num'])),
    'is_ascii_whitespace': mask(lambda a: a['ch'] in tuple(' \t\n\r\x0c') if a['ch'] else False),
    'is_ascii': mask(lambda a: a['ascii']),
    'is_control': mask(lambda a: a['ctl']),
    'is_lowercase': mask(lambda a: a['lo']),
    'is_uppercase': mask(lambda a: a['up']),
    'is_ascii_lowercase': mask(lambda a: a['ascii'] and a['lo']),
    'is_ascii_uppercase': mask(lambda a: a['ascii'] and a['up']),
    'is_ascii_punctuation': mask(lambda a: a['ascii'] and a['ch'] in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'),
    'is_ascii_graphic': mask(lambda a: a['ascii'] and 33 <= ord(a['ch']) < 127),
    'is_ascii_hexdigit': mask(lambda a: a['ascii'] and a['ch'] in '0123456789abcdefABCDEF'),
    'is_digit(10)': DIGIT,
}


def pred_mask(p):
    if isinstance(p, str):
        return PREDS.get(p)
    op, c = p
    o = ord(c)

    def f(a):
        if a['ch'] is None:
            x = 0x10000
        else:
            x = ord(a['ch'])
        return {'Lt': x < o, 'Le': x <= o, 'Gt': x > o, 'Ge': x >= o}[op]
    if o >= 128:
        return None
    return mask(f)


def mask_of(c):
    o = ord(c)
    if o < 128:
        return 1 << o
    # a non-ASCII literal: approximate by its class (not a singleton)
    import unicodedata
    up, lo, al = c.isupper(), c.islower(), c.isalpha()
    nu = not al and (c.isdigit() or unicodedata.category(c).startswith('N'))
    ws = c.isspace()
    name = ('alpha-lower' if lo else 'alpha-upper' if up else 'alpha-other') if al else \
        'numeric' if nu else 'space' if ws else 'other'
    for i, a in enumerate(_ATOMS):
        if a.get('name') == name:
            return 1 << i
    return ALL


def singleton(m):
    """exactly one character (class atoms stand for many)"""
    return m != 0 and m & (m - 1) == 0 and m < (1 << 128)


def show(m):
    out = []
    if m & EOF:
        out.append('end of input')
    n = m & ALL
    if bin(n).count('1') > 60:
        return 'all but {%s}' % ', '.join(names(ALL & ~n)) + (', or end of input' if m & EOF else '')
    return '{%s}' % ', '.join(names(n) + out)


def names(m):
    out = []
    for i, a in enumerate(_ATOMS):
        if m & (1 << i):
            out.append(repr(a['ch']) if a['ch'] else 'non-ASCII ' + a['name'])
    if len(out) > 12:
        out = out[:10] + ['... %d more' % (len(out) - 10)]
    return out
