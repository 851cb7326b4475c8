"""Extraction and loading of MIR facts for the code under analysis."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DRIVER = os.path.join(HERE, 'driver')
BIN = os.path.join(DRIVER, 'target', 'release', 'mirfacts')


class BuildError(Exception):
    pass


def build_driver():
    if os.path.exists(BIN):
        src = max(os.path.getmtime(os.path.join(DRIVER, 'src', f)) for f in os.listdir(os.path.join(DRIVER, 'src')))
        if os.path.getmtime(BIN) >= src:
            return
    p = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=DRIVER,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(BIN):
        raise BuildError('driver does not build:\n' + p.stdout[-3000:])


def extract():
    """run the driver over the current source of REPO; returns Facts"""
    build_driver()
    tmp = tempfile.mkdtemp(prefix='mirfacts-')
    try:
        env = dict(os.environ)
        root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True,
                              check=True).stdout.strip()
        env.update(LD_LIBRARY_PATH=os.path.join(root, 'lib'), MIRFACTS_OUT=tmp,
                   RUSTC_WORKSPACE_WRAPPER=BIN, CARGO_TARGET_DIR=os.path.join(tmp, 'target'))
        env.pop('RUSTFLAGS', None)
        p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib',
                            '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = [f for f in os.listdir(tmp) if f.endswith('-rlib.json') or f.endswith('-lib.json')]
        if p.returncode != 0 or not out:
            raise BuildError('cannot compile %s:\n%s' % (REPO, p.stdout[-3000:]))
        with open(os.path.join(tmp, out[0])) as fh:
            return Facts(json.load(fh))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Cfg:
    __slots__ = ('succ', 'pred', 'joins', 'heads', 'live')


def term_succ(t):
    k = t['k']
    if k == 'goto':
        return [t['t']]
    if k == 'drop':
        return [t['t']]
    if k == 'switch':
        return [b for _, b in t['v']] + [t['o']]
    if k == 'assert':
        return [t['t']]
    if k == 'call':
        return [t['t']] if t.get('t') is not None else []
    return []


def place_uses(p, uses):
    uses.add(p['l'])
    for e in p['p']:
        if e[0] == 'i':
            uses.add(e[1])


def op_uses(o, uses):
    if o and o.get('k') in ('copy', 'move'):
        place_uses(o['p'], uses)


def rv_uses(r, uses):
    for key in ('a', 'b'):
        if isinstance(r.get(key), dict):
            op_uses(r[key], uses)
    if isinstance(r.get('p'), dict):
        place_uses(r['p'], uses)
    for o in r.get('ops') or []:
        op_uses(o, uses)


class Facts:
    def __init__(self, d):
        self.raw = d
        self.crate = d['crate']
        self.fns = d['fns']
        self.adts = d['adts']
        self.statics = d['statics']
        self.roots = d['roots']
        self._cfg = {}
        self._norm()

    def _norm(self):
        for v in ('Option', 'Result'):
            pass
        self.adts.setdefault('core::option::Option', {'kind': 'enum', 'variants': [
            {'name': 'None', 'discr': 0, 'fields': []}, {'name': 'Some', 'discr': 1, 'fields': ['0']}]})
        self.adts.setdefault('core::result::Result', {'kind': 'enum', 'variants': [
            {'name': 'Ok', 'discr': 0, 'fields': ['0']}, {'name': 'Err', 'discr': 1, 'fields': ['0']}]})

    def cfg(self, key):
        c = self._cfg.get(key)
        if c is None:
            c = self._cfg[key] = self._mkcfg(self.fns[key])
        return c

    def _mkcfg(self, fn):
        bl = fn['blocks']
        n = len(bl)
        c = Cfg()
        c.succ = [[] if b.get('cu') else [s for s in term_succ(b['t'])] for b in bl]
        c.pred = [[] for _ in bl]
        for i, ss in enumerate(c.succ):
            for s in ss:
                c.pred[s].append(i)
        # loop heads: targets of DFS back edges
        c.heads = set()
        color = [0] * n
        stack = [(0, iter(c.succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 1:
                    c.heads.add(v)
                elif color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(c.succ[v])))
                    break
            else:
                color[u] = 2
                stack.pop()
        c.joins = {i for i in range(n) if len(c.pred[i]) > 1} | c.heads
        # liveness of locals (drops are not uses)
        use = [set() for _ in bl]
        kill = [set() for _ in bl]
        for i, b in enumerate(bl):
            u, k = use[i], kill[i]

            def useset(s):
                for x in s:
                    if x not in k:
                        u.add(x)
            for s in b['s']:
                if s['s'] == '=':
                    us = set()
                    rv_uses(s['r'], us)
                    if s['p']['p']:
                        place_uses(s['p'], us)
                    useset(us)
                    if not s['p']['p']:
                        k.add(s['p']['l'])
                elif s['s'] == 'dead':
                    k.add(s['l'])
            t = b['t']
            us = set()
            if t['k'] == 'switch':
                op_uses(t['d'], us)
            elif t['k'] == 'assert':
                op_uses(t['c'], us)
            elif t['k'] == 'call':
                for a in t['args']:
                    op_uses(a, us)
                if t.get('fop'):
                    op_uses(t['fop'], us)
                if t['dest']['p']:
                    place_uses(t['dest'], us)
            elif t['k'] == 'ret':
                us.add(0)
            useset(us)
        live = [set(u) for u in use]
        changed = True
        # live-out of calls: dest is killed on the edge
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in c.succ[i]:
                    out |= live[s]
                t = bl[i]['t']
                if t['k'] == 'call' and not t['dest']['p']:
                    out.discard(t['dest']['l'])
                new = use[i] | (out - kill[i])
                if new != live[i]:
                    live[i] = new
                    changed = True
        c.live = [frozenset(x) for x in live]
        return c

    # ------------------------------------------------------------- lookup
    def find(self, name=None, self_ty=None, trait=None, local=True, path=None, generic=True):
        """root instances of matching functions (one key per function)"""
        out = {}
        for k in self.roots:
            f = self.fns.get(k)
            if f is None or (local and not f['local']):
                continue
            if name is not None and f['name'] != name:
                continue
            if self_ty is not None and not (f.get('impl_self') or '').endswith(self_ty):
                continue
            if trait is not None and not (f.get('impl_trait') or '').endswith(trait):
                continue
            if trait is None and self_ty is not None and f.get('impl_trait'):
                continue
            if path is not None and path not in f['path']:
                continue
            if '#p' in k:
                continue
            out.setdefault(f['path'], k)
        return sorted(out.values())

    def one(self, **kw):
        r = self.find(**kw)
        return r[0] if len(r) == 1 else None

    def local_fns(self):
        seen = {}
        for k, f in self.fns.items():
            if f['local'] and isinstance(k, str) and '#p' not in k:
                seen.setdefault(f['path'], (k, f))
        return seen
