"""auto.py gen OUT.json        -- list operator mutants of /repo's non-test source
   auto.py test OUT.json       -- keep those that build and pass the stable tests (adds 'alive')
   auto.py check OUT.json      -- run every check against the survivors (adds 'got')"""
import re, sys, json, os, subprocess, shutil, glob, concurrent.futures as cf, threading
REPO = '/repo'
CHECK = os.environ.get('CHECK', '/verif/check.py')
HEAVY = 'A02 A03 A04 G01 G02 G04 G05'.split()
LIGHT = 'L01 L02 S01 S02 V01 V02 V03 V04 V06 P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 G03 G06 A01 A05 A06 T01 T02 N01 N02 N03 E01 E02'.split()
SUBS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
        (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ 1\b', ''), (r' \+ 1\b', ' + 2'),
        (r' \+ ', ' - '), (r' - 1\b', ''), (r' - ', ' + '), (r' \+= ', ' -= '), (r'\+= 1', '+= 2'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'),
        (r'is_ok\(\)', 'is_err()'), (r'is_err\(\)', 'is_ok()'), (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'),
        (r'is_empty\(\)', 'is_empty() == false'), (r'\bif !', 'if '), (r'\bif (?!let|!)', 'if !'), (r'\.iter\(\)', '.iter().rev()'),
        (r'\.iter\(\)', '.iter().skip(1)'), (r'\.iter\(\)', '.iter().take(1)'), (r'\bcontinue\b', 'break'), (r'\bbreak;', 'continue;'),
        (r'Some\(([a-z_]\w*(?:\.\w+)*)\)$', 'None'), (r'Some\(([a-z_]\w*(?:\.\w+)*)\);$', 'None;'), (r'NonTerminal\b', 'Terminal'), (r'(?<!Non)Terminal\b', 'NonTerminal'),
        (r'Terminate\b', 'Empty'), (r'Empty\b', 'Terminate'), (r'\.pop\(\)', '.last().copied()'), (r'insert\(0, ', 'push('), (r'\.push\(', '.insert(0, '),
        (r'\.union\(', '.intersection('), (r'\.next\(\)', '.peek()'), (r'\bpeek\(\)', 'next()'), (r'\.or_insert_with', '.or_default_with'),
        (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\bwhile (?!let)(.*) \{$', r'if \1 {'), (r'\bfor (.*) in (.*) \{$', r'for \1 in (\2).into_iter().take(1) {'),
        (r'checked_add', 'checked_sub'), (r'checked_sub', 'checked_add'), (r'checked_mul', 'checked_add'), (r'checked_div', 'checked_rem'),
        (r"'([^'\\])'", "'~'"), (r'"([A-Za-z#$]\w*)"', r'"\1x"'), (r'next_sibling', 'first_child'), (r'first_child', 'next_sibling'), (r'\.clone\(\)\)\?', '.clone()).ok()'),
        (r'Err\(.*\)\?;', ';'), (r'\)\?;$', ').ok();'), (r'\.unwrap_or\(.*?\)', '.unwrap_or_default()'), (r'\.enumerate\(\)', '.enumerate().skip(1)'), (r'\.chars\(\)', '.chars().rev()'),
        (r'\.keys\(\)', '.keys().skip(1)'), (r'\.filter\(', '.skip_while('), (r'\.is_numeric\(\)', '.is_ascii_digit()'), (r'\.is_whitespace\(\)', '.is_ascii_whitespace()'), (r'\.is_alphanumeric\(\)', '.is_alphabetic()'), (r'\.is_alphabetic\(\)', '.is_alphanumeric()'),
        (r'return (Err|Ok)\(.*\);$', ''), (r'\.extend\(', '.clone_from('), (r'\.append\(', '.clone_from(')]


def gen():
    out = []
    for f in sorted(glob.glob(REPO + '/src/**/*.rs', recursive=True)):
        rel = os.path.relpath(f, REPO)
        if rel in ('src/main.rs', 'src/lib.rs', 'src/test_helpers.rs'):
            continue
        lines = open(f).read().split('\n')
        end = next((i for i, l in enumerate(lines) if re.match(r'\s*#\[cfg\(test\)\]', l)), len(lines))
        for i in range(end):
            l = lines[i]
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#['):
                continue
            seen = set()
            for a, b in SUBS:
                for m in re.finditer(a, l):
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                    if new != l and new not in seen:
                        seen.add(new)
                        out.append({'file': rel, 'line': i, 'old': l, 'new': new})
            if s.endswith(';') and not re.match(r'(let|pub|use|type|return Err|\}|\)|[a-z_]+: )', s) and (s.count('(') == s.count(')')) and not s.startswith('.'):
                out.append({'file': rel, 'line': i, 'old': l, 'new': ''})
            # swap two adjacent statements
            if i + 1 < end and s.endswith(';') and lines[i + 1].strip().endswith(';') and s.count('(') == s.count(')') and lines[i + 1].count('(') == lines[i + 1].count(')') \
                    and len(l) - len(l.lstrip()) == len(lines[i + 1]) - len(lines[i + 1].lstrip()) and not s.startswith(('.', 'pub', 'use', 'return', 'type', '}', ')')):
                out.append({'file': rel, 'line': i, 'old': l, 'new': lines[i + 1], 'swap': True})
            # statement twice
            if s.endswith(');') and not s.startswith(('let', 'return', '.', '}', ')')) and s.count('(') == s.count(')'):
                out.append({'file': rel, 'line': i, 'old': l, 'new': l + '\n' + l})
    for k, m in enumerate(out):
        m['id'] = k
    return out


loc = threading.local()
cnt = [0]
lk = threading.Lock()


def wdir():
    if not hasattr(loc, 'd'):
        with lk:
            cnt[0] += 1
            loc.d = '/tmp/am/w%d' % cnt[0]
        shutil.rmtree(loc.d, ignore_errors=True)
        shutil.copytree(REPO, loc.d, ignore=shutil.ignore_patterns('.git', 'target'))
    return loc.d


def put(d, m):
    p = os.path.join(REPO, m['file'])
    lines = open(p).read().split('\n')
    assert lines[m['line']] == m['old']
    if m.get('swap'):
        lines[m['line']], lines[m['line'] + 1] = lines[m['line'] + 1], lines[m['line']]
    else:
        lines[m['line']] = m['new']
    q = os.path.join(d, m['file'])
    open(q, 'w').write('\n'.join(lines))
    return p, q


STABLE = None


def results(d):
    a = results_(d, '--lib')
    if a is None or STABLE and not (STABLE[0] >= a[0]):
        return a
    return results_(d, '--workspace')


def results_(d, what):
    try:
        r = subprocess.run('ulimit -v 6000000; timeout -k 2 40 cargo test %s --no-fail-fast --offline -- --test-threads 2' % what, shell=True, executable='/bin/bash', cwd=d, capture_output=True, text=True,
                           env=dict(os.environ, CARGO_TARGET_DIR=d + '/target', CARGO_BUILD_JOBS='1'))
    except Exception:
        return None
    if 'could not compile' in r.stderr:
        return None
    return set(re.findall(r'^test (\S+).* \.\.\. FAILED', r.stdout, re.M)), len(re.findall(r'\.\.\. ok$', r.stdout, re.M))


def test(m):
    d = wdir()
    p, q = put(d, m)
    r = results(d)
    shutil.copy(p, q)
    m['alive'] = bool(r and r == STABLE)
    m['compiles'] = r is not None
    return m


def chk(m):
    d = '/tmp/am/c%d' % m['id']
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', 'target'))
    put(d, m)
    e = dict(os.environ, VERIF_REPO=d, VERIF_OUT='/tmp/am/out%d' % m['id'])
    m['got'], m['why'] = [], []
    for ids in (LIGHT, HEAVY):
        r = subprocess.run(['python3', CHECK] + ids, env=e, capture_output=True, text=True)
        m['got'] += sorted({l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')})
        m['why'] += [l.strip()[:200] for l in r.stdout.splitlines() if l.startswith('  ') and 'undecided' not in l][:3]
        if r.returncode not in (0, 1):
            m['got'] += ['rc%d' % r.returncode]
        if m['got']:
            break
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree('/tmp/am/out%d' % m['id'], ignore_errors=True)
    return m


if __name__ == '__main__':
    cmd, fn = sys.argv[1:3]
    os.makedirs('/tmp/am', exist_ok=True)
    if cmd == 'gen':
        ms = gen()
        json.dump(ms, open(fn, 'w'))
        print(len(ms))
    else:
        ms = json.load(open(fn))
        if cmd == 'test':
            d = wdir()
            STABLE = results(d)
            print('baseline', len(STABLE[0]), STABLE[1])
            todo = [m for m in ms if 'alive' not in m]
            f = test
        else:
            todo = [m for m in ms if m.get('alive') and 'got' not in m]
            f = chk
        n = 0
        with cf.ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
            for m in ex.map(f, todo):
                n += 1
                if n % 10 == 0:
                    json.dump(ms, open(fn + '.tmp', 'w'))
                    os.replace(fn + '.tmp', fn)
        json.dump(ms, open(fn, 'w'))
        print('done', n)
