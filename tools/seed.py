#!/usr/bin/env python3
"""usage: seed.py FILE.py [names]
Builds /verif/seeded/<id>/ from FILE.py's S = [(id, property, edits, demo_rs, needs, breaks)] and confirms each:
applies, builds, stable tests pass, demo passes without and fails with it; then says which checks fire."""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('s', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
want = sys.argv[2:]
BASE = '1dd1ae9'
DEMO = '''#!/bin/bash
# run with cwd /repo; compiles the library and the program beside this script into a scratch folder and runs it
here="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
rustc --edition 2024 --cap-lints allow --crate-name henriks_parsing_project --crate-type rlib -C debuginfo=0 src/lib.rs -o "$T/libhenriks_parsing_project.rlib" || exit 2
rustc --edition 2024 --cap-lints allow -C debuginfo=0 --extern henriks_parsing_project="$T/libhenriks_parsing_project.rlib" "$here/demo.rs" -o "$T/demo" || exit 3
cd "$T" && timeout 60 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(s):
    sid, prop, edits, demo, needs, breaks = s
    w = '/tmp/seedw/' + sid
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/seedw', exist_ok=True)
    sh('git -C /repo archive --prefix=%s/ HEAD | tar x -C /tmp/seedw' % sid)
    sh('git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x', cwd=w)
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.rs', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    r0 = sh('bash %s/demo.sh' % d, cwd=w)
    for f, old, new in edits:
        p = w + '/src/' + f
        t = open(p).read()
        if t.count(old) < 1:
            return sid, 'NOMATCH %r' % old
        t = t.replace(old, new, 1)
        open(p, 'w').write(t)
    diff = sh('git diff', cwd=w).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    msgs = []
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
            base = set(sh('git -C /repo show %s:%s' % (BASE, cur)).stdout.splitlines())
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base:
            msgs.append('NOT-ORIGINAL: ' + l[:60])
    r1 = sh('bash %s/demo.sh' % d, cwd=w)
    if r0.returncode != 0:
        msgs.append('DEMO-FAILS-CLEAN %d %s' % (r0.returncode, (r0.stdout + r0.stderr)[-600:]))
    if r1.returncode in (0, 2, 3):
        msgs.append('DEMO-RC-PATCHED %d %s' % (r1.returncode, (r1.stdout + r1.stderr)[-600:] if r1.returncode else ''))
    t = sh('CARGO_TARGET_DIR=%s/target cargo test --workspace --no-fail-fast --offline 2>&1' % w, cwd=w)
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = {x.split('::', 1)[-1].split('::', 1)[-1] if False else x for x in base['stable']}
    passed = {l.split()[1] for l in t.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok')}
    failed = [l.split()[1] for l in t.stdout.splitlines() if l.startswith('test ') and 'FAILED' in l]
    failed = [f for f in failed if not f.startswith('src/') and any(x.endswith('::' + f) or x.endswith(':' + f) or f in x for x in stable)]
    if failed or len(passed) < 83:
        msgs.append('TESTS passed=%d failed=%s %s' % (len(passed), failed[:4], t.stdout[-300:] if len(passed) < 70 else ''))
    e = dict(os.environ, VERIF_REPO=w, VERIF_OUT='/tmp/seedw/out/' + sid)
    e.pop('VERIF_FACTS', None)
    r = subprocess.run(['python3', ROOT + '/check.py', 'all'], env=e, capture_output=True, text=True)
    got = sorted({l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')})
    shutil.rmtree(w, ignore_errors=True)
    out = '%s prop=%s got=%s %s' % ('caught' if prop in got else 'MISSED', prop, got, ' '.join(msgs))
    if os.environ.get('V'):
        out += '\n   ' + '\n   '.join(l[:200] for l in r.stdout.splitlines() if l.startswith('  '))
    return sid, out


with cf.ThreadPoolExecutor(5) as ex:
    for n, o in ex.map(one, [x for x in m.S if not want or x[0] in want]):
        print('%-16s %s' % (n, o), flush=True)
