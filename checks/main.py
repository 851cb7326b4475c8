import json
import os
import resource
import time
import traceback

from engine import facts as FA
from . import analysis, build, common, edit, errtext, expect, first, follow, gram, graph, lexers, order, parse, persist, same, table, tree, view, vmops, vmtext, wiring, witness


def wired(fn, pid):
    def go(F, rep):
        fn(F, rep)
        wiring.wiring(F, rep, pid)
        if pid == 'A05':
            wiring.marks(F, rep)
    return go


def both(*fns):
    def go(F, rep):
        for fn in fns:
            fn(F, rep)
    return go


def alike(*types):
    """the property compares values of these types"""
    def go(F, rep):
        same.look(F, rep, types, False)
    return go


PROPS = {
    'A01': both(wired(first.a01, 'A01'), alike('sets::SetMemberWithEmpty')),
    'A02': both(wired(follow.a02, 'A02'), alike('sets::SetMember', 'sets::SetMemberWithEmpty')),
    'A03': both(wired(analysis.a03, 'A03'), alike('sets::SetMember')),
    'A04': both(wired(analysis.a04, 'A04'), alike('sets::SetMember')),
    'A05': wired(first.a05, 'A05'),
    'A06': wired(first.a06, 'A06'),
    'E01': witness.e01,
    'E03': same.e03,
    'E02': errtext.e02,
    'G01': both(gram.g01, same.keys),
    'G02': wired(gram.g02, 'G02'),
    'G03': table.g03,
    'G04': both(edit.g04, gram.g04),
    'G05': both(edit.g05, gram.g05),
    'G06': build.g06,
    'G07': gram.g07,
    'G08': gram.g08,
    'L01': lexers.l01,
    'L02': lexers.l02,
    'N01': graph.n01,
    'N02': graph.n02,
    'N03': graph.n03,
    'P01': parse.p01,
    'P02': parse.p02,
    'P03': both(parse.p03, alike('sets::SetMember')),
    'P04': parse.p04,
    'P05': parse.p05,
    'P06': both(parse.p06, alike('parser_data::Element')),
    'P07': order.p07,
    'P08': persist.p08,
    'P09': parse.p09,
    'P10': expect.p10,
    'S01': view.s01,
    'S02': view.s02,
    'T01': both(tree.t01, alike('tree::NodeId')),
    'T02': tree.t02,
    'V01': vmtext.v01,
    'V02': vmtext.v02,
    'V03': vmops.v03,
    'V04': vmops.v04,
    'V07': vmops.v07,
    'V06': vmtext.v06,
}
ROOT = common.ROOT
OUT = os.environ.get('VERIF_OUT', ROOT)


def known():
    """{(property, key): description} of recorded, unrepaired findings"""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property='):
                pid, _, rest = line[len('known: property='):].partition(' ')
                key, _, what = rest.partition(' :: ')
                out[(pid, key.strip())] = what
    return out


def evidence(rep, violations, found):
    cov = {
        'explanation': 'Abstract interpretation of the type-checked MIR of /repo\'s current source; '
                       'nothing is executed. Rules: ' + ' | '.join(rep.rules),
        'roots_analysed': rep.roots,
        'functions_analysed': sorted(rep.functions),
        'functions_analysed_count': len(rep.functions),
        'abstract_states': rep.states,
        'obligations': rep.obligations,
        'obligations_total': sum(rep.obligations.values()),
        'undecided': rep.undecided,
        'unmodelled_callees': rep.unmodelled,
        'known_findings': sorted(found),
    }
    ev = {'property': rep.pid, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - rep.t0, 3),
          'assumptions': ['the models of std functions in engine/models.py agree with std',
                          'paths on which a condition could not be modelled are counted as undecided, not as violations'],
          'violations': [{'key': k, 'what': m, 'where': w} for k, m, w in violations]}
    d = os.path.join(OUT, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % rep.pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, os.path.join(d, rep.pid + '.json'))


def check(pid, F, tier):
    rep = common.Report(pid, tier)
    try:
        PROPS[pid](F, rep)
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        rep.undec('internal error: %s: %s' % (type(e).__name__, e))
        rep.notes.append(traceback.format_exc(limit=6))
    kn = known()
    viol, found = [], []
    for k, (m, w) in sorted(rep.violations.items()):
        if (pid, k) in kn:
            found.append(k)
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kn[(pid, k)]))
        else:
            viol.append((k, m, w))
    evidence(rep, viol, found)
    print('%s: %d roots, %d functions, %d abstract states, %d obligations, %d undecided, %d violations (%.1f s)' % (
        pid, len(rep.roots), len(rep.functions), rep.states, sum(rep.obligations.values()),
        sum(rep.undecided.values()), len(viol), time.time() - rep.t0))
    for k in sorted(rep.undecided)[:10]:
        print('  undecided: %s (%d)' % (k, rep.undecided[k]))
    if os.environ.get('VERIF_DEBUG'):
        for n in rep.notes:
            print(n)
        for k, n in sorted(rep.unmodelled.items()):
            print('  unmodelled', k, n)
        for k, n in sorted(rep.obligations.items()):
            print('  ob', k, n)
    if not viol:
        return 0
    w = os.path.join(OUT, 'work')
    os.makedirs(w, exist_ok=True)
    rp = os.path.join(w, 'violation-%s.txt' % pid)
    with open(rp, 'w') as f:
        for k, m, wh in viol:
            f.write('%s\n  %s\n  at %s\n' % (k, m, wh))
    for k, m, wh in viol:
        print('  %s: %s [%s]' % (k, m, wh))
    print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1


def main(argv):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    tier = os.environ.get('VERIF_TIER', 'quick')
    pids = [a for a in argv if not a.startswith('-')]
    if '--thorough' in argv:
        tier = 'thorough'
    if pids == ['all']:
        pids = sorted(PROPS)
    ff = os.environ.get('VERIF_FACTS')
    if ff:
        F = FA.Facts(json.load(open(ff)))
    else:
        F = FA.extract()
    rc = 0
    for p in pids:
        rc |= check(p, F, tier)
    return rc
