#!/usr/bin/env python3
"""Development aid (not a check): mutates one source file and lists the mutants no rule notices.
usage: mutate.py FILE PROP[,PROP..] [--fn substr] [--max N] [--lines a-b]"""
import sys, os, re, json, subprocess, shutil, random, argparse, time
from multiprocessing import Pool
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tool')
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import extract as X
import check
from qdb import rule as R
from qdb.facts import Program, AnalysisBroken

BASE = None
LINES = None
REL = None


def muts(lines, lo, hi):
    out = []
    def add(i, new, what):
        if new != lines[i]:
            out.append((i, new, what))
    incmt = False
    for i, l in enumerate(lines):
        if not (lo <= i + 1 <= hi):
            continue
        t = l.strip()
        if t.startswith('//') or t.startswith('#') or t.startswith('*') or t.startswith('/*') or not t:
            continue
        if re.match(r'(qdb_(info|warn|critical|event|log|misconfig|error)|std::cout|std::cerr)', t):
            continue
        code = l
        for a, b in (('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), ('true', 'false'), ('false', 'true'), (' + 1', ' + 2'), ('+1', ''), (' - 1', ''), ('-1', ''), ('++', '--'), ('+=', '-='), ('-=', '+=')):
            for m in re.finditer(re.escape(a) if not a.isalpha() else r'\b' + a + r'\b', code):
                add(i, code[:m.start()] + b + code[m.end():], '%s->%s' % (a, b))
        for m in re.finditer(r'(?<=[\w\)\s])\s(<|>)\s(?=[\w\(])', code):
            o = m.group(1)
            add(i, code[:m.start(1)] + o + '=' + code[m.end(1):], o + '->' + o + '=')
        m = re.match(r'(\s*(?:\}\s*else )?if\s*\()(.*)(\)\s*(?:\{|return.*;|continue;|break;|qdb_throw.*;|throw.*;)?\s*)$', code)
        if m:
            add(i, m.group(1) + '!(' + m.group(2) + ')' + m.group(3), 'negate if')
            add(i, m.group(1) + 'false && (' + m.group(2) + ')' + m.group(3), 'if false')
        for m in re.finditer(r'\b(\d+)\b', code):
            if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                continue
            add(i, code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():], 'const+1')
        if t.endswith(';') and not t.startswith(('return', 'break', 'using', 'typedef', 'static', 'const', 'public', 'private', '}', 'else', 'case', 'virtual', 'extern', 'friend', 'namespace', 'for')) and (re.match(r'^[\w\.\->:\*\[\]\(\)]+\s*(=|\+=|-=|\+\+|--|\(|;)', t) or t.startswith(('THROW_ON', 'std::scoped_lock', 'std::lock_guard', 'std::unique_lock', '++', 'if(')) ) :
            add(i, '', 'delete: ' + t[:60])
        if t in ('return;', 'break;', 'continue;'):
            add(i, '', 'delete ' + t)
        m = re.match(r'(\s*)return (.+);$', code)
        # argument swaps
        for m in re.finditer(r'\(([\w\.\->]+), ([\w\.\->]+)\)', code):
            add(i, code[:m.start()] + '(' + m.group(2) + ', ' + m.group(1) + ')' + code[m.end():], 'swap args')
        if '"' in t and not t.startswith('qdb_'):
            for m in re.finditer(r'"([^"]+)"', code):
                add(i, code[:m.start(1)] + m.group(1)[:-1] + ('x' if m.group(1)[-1] != 'x' else 'y') + code[m.end(1):], 'string')
        if 'nullptr' in t and '=' in t:
            pass
    return out


def work(job):
    wid, (i, new, what), props, rel, tus = job
    d = '/tmp/mut/w%d' % os.getpid()
    if not os.path.isdir(d):
        os.makedirs(d)
        shutil.copytree('/repo/src', d + '/src')
        os.symlink('/repo/deps', d + '/deps')
    path = os.path.join(d, rel)
    ls = list(LINES)
    ls[i] = new
    with open(path, 'w') as f:
        f.write('\n'.join(ls) + '\n')
    try:
        X.REPO = d
        fl = X.flags()
        ff = d + '/flags'
        open(ff, 'w').write('\n'.join(fl) + '\n')
        out = d + '/out'
        tool = X.build_tool()
        real = [t.replace('/repo/', d + '/') for t in tus]
        r = subprocess.run([tool, d + '/src/', out, ff] + real, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        recs = [json.loads(l) for l in open(out)]
        if any(x['R'] == 'tu' and not x['ok'] for x in recs):
            return (i, what, 'nocompile', new)
        frel = rel[4:]
        neww = [x for x in recs if x.get('file') == frel and x['R'] != 'tu']
        keys = set((x['R'], x.get('key') or x.get('name') or x.get('t')) for x in neww)
        # records of the file replaced; records without a file (records, enums) replaced by name
        nonfile = [x for x in recs if 'file' not in x and x['R'] != 'tu']
        keys |= set((x['R'], x.get('key') or x.get('name') or x.get('t')) for x in nonfile)
        base = [x for x in BASE if (x['R'], x.get('key') or x.get('name') or x.get('t')) not in keys and not (x.get('file') == frel and x['R'] == 'fn' and rel.endswith('.cc'))]
        allr = neww + nonfile + base
        X.extract = lambda verbose=False: (allr, {})
        import qdb.facts as F
        F._x.extract = X.extract
        prog = Program()
        res = []
        for p in props:
            try:
                cx = check.run(prog, p)
                if cx.violations:
                    return (i, what, 'killed ' + p, new)
            except (AnalysisBroken, X.ExtractError) as e:
                res.append('broken %s: %s' % (p, str(e)[:80]))
            except Exception as e:
                res.append('crash %s: %r' % (p, e))
        return (i, what, 'SURVIVED' if not res else res[0], new)
    finally:
        with open(path, 'w') as f:
            f.write('\n'.join(LINES) + '\n')


def main():
    global BASE, LINES
    ap = argparse.ArgumentParser()
    ap.add_argument('file'); ap.add_argument('props'); ap.add_argument('--max', type=int, default=400); ap.add_argument('--lines'); ap.add_argument('-v', action='store_true'); ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--only'); a = ap.parse_args()
    rel = a.file if a.file.startswith('src/') else 'src/' + a.file
    src = '/repo/' + rel
    LINES = open(src).read().split('\n')
    if LINES and LINES[-1] == '':
        LINES.pop()
    lo, hi = (int(x) for x in a.lines.split('-')) if a.lines else (1, len(LINES))
    check.load_rules()
    BASE, _ = X.extract()
    props = a.props.split(',')
    if rel.endswith('.cc'):
        tus = [src]
    else:
        inc = os.path.basename(rel)
        alltus, hdrs = X.sources()
        direct = [t for t in alltus if inc in open(t).read()]
        direct.sort(key=os.path.getsize)
        tus = direct[:2] + [V + '/stubs/instantiate.cc']
        if not direct:
            # two levels
            hh = [os.path.basename(h) for h in hdrs if inc in open(h).read()]
            direct = sorted([t for t in alltus if any(('/' + h in open(t).read() or '"' + h in open(t).read()) for h in hh)], key=os.path.getsize)
            tus = direct[:2] + [V + '/stubs/instantiate.cc']
    ms = muts(LINES, lo, hi)
    if a.only:
        import re
        ms = [m for m in ms if re.search(a.only, LINES[m[0]])]
    if len(ms) > a.max:
        random.Random(1).shuffle(ms)
        ms = sorted(ms[:a.max])
    print(len(ms), 'mutants;', tus)
    t0 = time.time()
    cnt = {}
    with Pool(a.j) as pool:
        for i, what, res, new in pool.imap(work, [(k, m, props, rel, tus) for k, m in enumerate(ms)]):
            k = res.split()[0]
            cnt[k] = cnt.get(k, 0) + 1
            if k in ('SURVIVED', 'broken', 'crash') or a.v:
                print('%-9s %4d %-12s | %s' % (res[:60], i + 1, what[:30], (new or LINES[i]).strip()[:120]))
                sys.stdout.flush()
    print(cnt, '%.0fs' % (time.time() - t0))
    subprocess.run('for d in /tmp/mut/w*; do rm -rf "$d"; done', shell=True)


if __name__ == '__main__':
    main()
