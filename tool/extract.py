"""Builds the fact extractor and runs it over every translation unit of /repo/src.

Facts are cached in /verif/.cache under a hash of everything they depend on, so a stale
cache can never be used: any edit of a source file changes the key."""
import hashlib, json, os, subprocess, sys, time, glob, tempfile, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QDB_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
CXX = 'clang++'
LLVM = '/usr/lib/llvm-18'


class ExtractError(Exception):
    pass


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def build_tool():
    src = os.path.join(VERIF, 'tool', 'qdbfacts.cc')
    os.makedirs(CACHE, exist_ok=True)
    key = _sha([src])[:16]
    out = os.path.join(CACHE, 'qdbfacts-' + key)
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    cmd = [CXX, '-O0', '-std=c++17', '-fno-rtti', '-I' + LLVM + '/include', '-D__STDC_CONSTANT_MACROS',
           '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp, '-L' + LLVM + '/lib',
           '-Wl,-rpath,' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ExtractError('extractor does not build:\n' + r.stdout[-3000:])
    os.rename(tmp, out)
    return out


def sources():
    src = os.path.join(REPO, 'src')
    tus, hdrs = [], []
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(('.cc', '.cpp', '.cxx')):
                tus.append(p)
            elif f.endswith(('.hh', '.h', '.hpp', '.in')):
                hdrs.append(p)
    return sorted(tus), sorted(hdrs)


def flags():
    fl = []
    for l in open(os.path.join(VERIF, 'stubs', 'flags.txt')):
        l = l.strip()
        if not l:
            continue
        fl.append(l.replace('/repo/', REPO + '/').replace('/verif/', VERIF + '/'))
    fl.append('-resource-dir=' + LLVM + '/lib/clang/18')
    return fl


def extract(verbose=False):
    """returns (list of fact records, stats)"""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    tus, hdrs = sources()
    if not tus:
        raise ExtractError('no sources under ' + REPO + '/src')
    stubs = sorted(glob.glob(os.path.join(VERIF, 'stubs', '**', '*'), recursive=True))
    stubs = [s for s in stubs if os.path.isfile(s)]
    key = _sha(tus + hdrs + stubs + [os.path.join(VERIF, 'tool', 'qdbfacts.cc'), os.path.join(VERIF, 'tool', 'extract.py')])[:24]
    final = os.path.join(CACHE, 'facts-' + key + '.json')
    if not os.path.exists(final):
        tool = build_tool()
        work = tempfile.mkdtemp(prefix='qdbx', dir=CACHE)
        try:
            ff = os.path.join(work, 'flags')
            with open(ff, 'w') as f:
                f.write('\n'.join(flags()) + '\n')
            alltus = tus + [os.path.join(VERIF, 'stubs', 'instantiate.cc')]
            # balance by a rough cost: headers dominate, so simply interleave
            order = sorted(alltus, key=lambda p: -os.path.getsize(p))
            n = min(os.cpu_count() or 4, 8)
            groups = [order[i::n * 2] for i in range(n * 2)]
            groups = [g for g in groups if g]
            pend = list(enumerate(groups))
            running = []
            while pend or running:
                while pend and len(running) < n:
                    i, g = pend.pop(0)
                    log = open(os.path.join(work, 'log%d' % i), 'w')
                    p = subprocess.Popen([tool, REPO + '/src/', os.path.join(work, 'out%d' % i), ff] + g, stdout=log, stderr=log)
                    running.append((p, i))
                for r in running[:]:
                    if r[0].poll() is not None:
                        running.remove(r)
                        if r[0].returncode != 0:
                            raise ExtractError('extractor failed: ' + open(os.path.join(work, 'log%d' % r[1])).read()[-2000:])
                time.sleep(0.02)
            seen = set()
            tmp = final + '.tmp%d' % os.getpid()
            with open(tmp, 'w') as out:
                for i in range(len(groups)):
                    with open(os.path.join(work, 'out%d' % i)) as f:
                        for line in f:
                            # cheap dedup key
                            rec = json.loads(line)
                            k = rec['R'] + '|' + (rec.get('key') or rec.get('t', '') + '|' + rec.get('name', '') or '') + ('|' + rec['file'] if rec['R'] == 'tu' else '')
                            if rec['R'] in ('fn', 'rec', 'enum', 'glob') and k in seen:
                                continue
                            seen.add(k)
                            out.write(line)
            os.rename(tmp, final)
            errs = []
            for i in range(len(groups)):
                errs.append(open(os.path.join(work, 'log%d' % i)).read())
            with open(final + '.log', 'w') as f:
                f.write('\n'.join(errs))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        # keep the cache small
        olds = sorted(glob.glob(os.path.join(CACHE, 'facts-*.json')), key=os.path.getmtime)
        for o in olds[:-4]:
            for x in (o, o + '.log'):
                if os.path.exists(x):
                    os.unlink(x)
    recs = []
    with open(final) as f:
        for line in f:
            recs.append(json.loads(line))
    return recs, {'extract_s': round(time.time() - t0, 2), 'key': key}


if __name__ == '__main__':
    r, s = extract(True)
    print(len(r), s)
    bad = [x['file'] for x in r if x['R'] == 'tu' and not x['ok']]
    print('not ok:', bad)
