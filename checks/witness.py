"""E01: a program outside the library that must type-check against /repo's current public items."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from engine import facts as FA

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(HERE, 'witness', 'outside.rs')


def check():
    """(rc, diagnostics of the witness, other output)"""
    tmp = tempfile.mkdtemp(prefix='witness-')
    try:
        os.mkdir(os.path.join(tmp, 'src'))
        shutil.copy(SRC, os.path.join(tmp, 'src', 'lib.rs'))
        with open(os.path.join(tmp, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "outside"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n'
                    '[dependencies]\nhenriks-parsing-project = { path = "%s" }\n' % FA.REPO)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, 'target'))
        for k in ('RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        p = subprocess.run(['cargo', 'check', '--offline', '--message-format=json'], cwd=tmp, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        ds = []
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-message':
                ds.append((m.get('target', {}).get('name'), m['message']))
        return p.returncode, ds, p.stderr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def sections():
    """line -> enclosing module of the witness; {module: number of functions}"""
    at, count, cur = {}, {}, 'items'
    for n, line in enumerate(open(SRC), 1):
        m = re.match(r'mod (\w+)', line)
        if m:
            cur = m.group(1)
        at[n] = cur
        if re.match(r'\s*fn ', line):
            count[cur] = count.get(cur, 0) + 1
        if line.startswith('}') and cur != 'items':
            cur = 'items'
    return at, count


def e01(F, rep):
    rep.rule('a program outside the library that implements its own machine, builds parsers from text and from rules made by '
             'hand, and looks at trees and errors type-checks against the public items of the current source')
    at, count = sections()
    rc, ds, err = check()
    bad = [(t, m) for t, m in ds if m.get('level') == 'error' and m.get('spans')]
    mine = [m for t, m in bad if t == 'outside']
    rep.roots.append('witness/outside.rs')
    for k, n in count.items():
        rep.ob('witness functions: ' + k, n)
    for m in mine:
        sp = next((s for s in m['spans'] if s.get('is_primary')), m['spans'][0])
        sec = at.get(sp['line_start'], 'items')
        code = (m.get('code') or {}).get('code') or ''
        text = (sp.get('text') or [{}])[0].get('text', '').strip()
        rep.violation('%s|%s|%s' % (sec, code, text), 'a user program no longer compiles: %s (in: %s)' % (m['message'], text),
                      '%s of the witness' % sec)
    if rc != 0 and not mine:
        rep.undec('the witness could not be checked: ' + (bad[0][1]['message'] if bad else err[-200:]))
