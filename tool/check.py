#!/usr/bin/env python3
"""check.py <property> : decide one property from /repo's current source. Exit 0/1; 2 = no answer."""
import sys, os, json, time, importlib, glob, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from qdb.facts import Program, AnalysisBroken
from qdb import rule as R
import extract as X


def load_rules():
    for f in sorted(glob.glob(os.path.join(HERE, 'rules', '*.py'))):
        importlib.import_module('rules.' + os.path.basename(f)[:-3])


def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get('property') == pid and k.get('status') == 'known':
                    out[k['ident']] = k
    return out


def run(prog, pid, tier='quick'):
    t0 = time.time()
    cx = R.Ctx(prog, pid)
    cx.tier = tier
    for name, desc, fn in R.RULES[pid]:
        cx.rulename = name
        cx.perrule.setdefault(name, [0, 0])
        fn(cx)
        cx.cur = None
        if cx.perrule[name][0] == 0:
            raise AnalysisBroken('rule %s generated no obligation' % name)
    cx.wall = time.time() - t0
    return cx


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    load_rules()
    if pid not in R.RULES:
        print('no rules for', pid)
        return 2
    try:
        prog = Program()
        if prog.bad_tus:
            raise AnalysisBroken('translation units do not parse: %s' % prog.bad_tus)
        cx = run(prog, pid, tier)
    except (AnalysisBroken, X.ExtractError) as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 2
    kn = known(pid)
    new, old = [], []
    for v in cx.violations:
        (old if v.ident() in kn else new).append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the resolved syntax trees of every translation unit under /repo/src; rules: '
                           + '; '.join('%s: %s' % (n, d) for n, d, _ in R.RULES[pid]),
            'obligations': cx.obligations, 'discharged': cx.discharged,
            'rules': {k: {'obligations': a, 'discharged': b} for k, (a, b) in cx.perrule.items()},
            'functions_analysed': len(cx.functions), 'functions': sorted(cx.functions)[:400],
            'paths_analysed': cx.npaths, 'construct_sites': len(cx.sites),
            'program': {'functions': len(prog.fn), 'translation_units': len(prog.tus), 'records': len(prog.rec)},
            'samples': cx.samples[:40],
        },
        'assumptions': cx.assumptions + ['the qclient submodule is represented by declarations only (/verif/stubs)'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[v.ident()]['what']))
    if new:
        rp = os.path.join(VERIF, 'evidence', pid + '.replay.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('property %s rule %s\nconstruct: %s\n%s\n%s\n%s\n' % (pid, v.rule, v.site, v.msg, v.detail or '', '-' * 70))
        for v in new[:20]:
            print('%s: %s: %s' % (v.rule, v.site, v.msg))
            if v.detail:
                print('    ' + v.detail.split('\n')[0])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d functions=%d paths=%d wall=%.1fs' % (pid, cx.obligations, len(cx.functions), cx.npaths, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
