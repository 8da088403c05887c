"""mutate.py OUTDIR [-j N] [-n COUNT] [-f REGEX] [-s SEED] : development aid, never run by a check.

Makes small changes to the library's original lines in scratch copies, keeps those which build and pass the
repository's tests, and runs every specification module against them: what no module notices is printed as
`survivor`, to be judged by hand (equivalent change, behaviour outside the properties, or a gap to close)."""
import argparse, glob, importlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time
os.environ['CRG_PROCS'] = '1'
import vlib
ROOT = vlib.ROOT
MODULES = ['frame', 'sync', 'structure', 'objects', 'passes', 'tracker', 'signals']
FIRST = {'DotExport': 'structure', 'FramePassDependencies': 'structure', 'Attachment': 'structure', 'FramePass.': 'structure', 'ResourceHandler': 'objects',
         'GraphContext': 'objects', 'RunnablePasses': 'passes', 'Signal': 'signals', 'LayerLayout': 'tracker', 'RecordContext': 'sync'}


def subs(line):
    """candidate replacements of a line"""
    out = []

    def each(pat, rep):
        for m in re.finditer(pat, line):
            new = line[:m.start()] + m.expand(rep) + line[m.end():]
            if new != line:
                out.append(new)
    each(r' == ', ' != '), each(r' != ', ' == ')
    each(r' && ', ' || '), each(r' \|\| ', ' && ')
    if not ('<' in line and '>' in line.replace('->', '')):
        each(r' < ', ' <= '), each(r' > ', ' >= '), each(r' <= ', ' < '), each(r' >= ', ' > ')
    each(r' \+ ', ' - '), each(r' - ', ' + '), each(r' \* ', ' / '), each(r' \+ 1u?\b', '')
    each(r'\btrue\b', 'false'), each(r'\bfalse\b', 'true')
    each(r'\bif \( (.*) \)$', r'if ( !( \1 ) )')
    each(r'\bif \( (.*) \)$', r'if ( false && ( \1 ) )')
    each(r'\bif \( (.*) \)$', r'if ( true || ( \1 ) )')
    each(r'\b(passIndex|index|arrayIndex|i)\b(?=[ ,\])])', '0u')
    each(r'\bmax\b', 'min'), each(r'\bmin\b', 'max')
    each(r'\.front\(\)', '.back()'), each(r'\.back\(\)', '.front()')
    each(r'baseMipLevel', 'baseArrayLayer'), each(r'baseArrayLayer', 'baseMipLevel')
    each(r'levelCount', 'layerCount'), each(r'layerCount', 'levelCount')
    each(r'\bwidth\b', 'height'), each(r'\bheight\b', 'width')
    each(r'_READ_BIT', '_WRITE_BIT'), each(r'_WRITE_BIT', '_READ_BIT')
    each(r'\bfrom\b', 'to'), each(r'\bto\b', 'from')
    each(r'\bsrc', 'dst'), each(r'\bdst', 'src')
    each(r'isInput\(\)', 'isOutput()'), each(r'isOutput\(\)', 'isInput()')
    each(r'\blhs\b', 'rhs'), each(r'\b1u\b', '2u'), each(r'\b0u\b', '1u')
    each(r'^(\s*)(break|continue);', r'\1;')
    each(r'!\s*(\w[\w.>-]*\()', r'\1')
    each(r'\+\+(\w+);', r'\1;')
    if re.match(r'^\s+[\w:>.()*-]+( = |\(|\.|->| \|= ).*;\s*$', line) and not re.match(r'^\s+(return|using|auto|const|Vk\w+ \w)', line):
        out.append(re.match(r'^\s*', line).group(0) + ';\n')
    return out


def candidates(pat):
    res = []
    for f in subprocess.run("git -C /repo ls-files 'source/RenderGraph/*.cpp' 'include/RenderGraph/*.hpp'", shell=True, capture_output=True, text=True).stdout.split():
        if pat and not re.search(pat, f):
            continue
        bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout.split('\n')
        lines = open('/repo/' + f).readlines()
        for n, ln in enumerate(lines):
            s = ln.strip()
            if not bl[n].startswith('^') or not s or s.startswith(('//', '*', '/*', '#', 'static_assert', 'CRG_API', '[[')) or 'assert' in s or 'delete;' in s or 'noexcept' in s or s.startswith(', uint32_t') or 'Logger' in s or 'operator' in s:
                continue
            for new in subs(ln):
                res.append((f, n, new))
    return res


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


class Tree:
    def __init__(self, d):
        self.d = d
        self.repo = d + '/repo'
        os.makedirs(d, exist_ok=True)
        sh('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s' % (self.repo, self.repo))
        os.makedirs(d + '/recipe', exist_ok=True)
        t = open('/opt/vp/recipe/CMakeLists.txt').read().replace('set( REPO /repo )', 'set( REPO %s )' % self.repo)
        open(d + '/recipe/CMakeLists.txt', 'w').write(t)
        r = sh('CC=gcc CXX=g++ cmake -S %s/recipe -B %s/b -G Ninja -DCMAKE_BUILD_TYPE=Debug && ninja -C %s/b -j2' % (d, d, d))
        assert r.returncode == 0, r.stdout[-2000:]
        self.flags = '-std=c++17 -O1 -w -DCRG_BUILD_STATIC -DCRG_VERSION_MAJOR=1 -DCRG_VERSION_MINOR=1 -DCRG_VERSION_BUILD=0 -I%s/include -I%s/source -I%s/harness' % (self.repo, self.repo, ROOT)
        self.srcs = sorted(glob.glob(self.repo + '/source/**/*.cpp', recursive=True)) + [ROOT + '/harness/mock.cpp', ROOT + '/harness/runner.cpp']
        os.makedirs(d + '/o', exist_ok=True)
        assert self.compile(self.srcs) and self.link()
        self.base = self.results()

    def obj(self, s):
        return self.d + '/o/' + re.sub(r'\W', '_', s) + '.o'

    def compile(self, srcs):
        for s in srcs:
            if sh('g++ %s -MMD -c %s -o %s' % (self.flags, s, self.obj(s))).returncode:
                return False
        return True

    def link(self):
        return sh('g++ %s -o %s/runner -lpthread' % (' '.join(self.obj(s) for s in self.srcs), self.d)).returncode == 0

    def touched(self, f):
        p = self.repo + '/' + f
        if f.endswith('.cpp'):
            return [p]
        return [s for s in self.srcs if p in open(self.obj(s)[:-2] + '.d').read()]

    def results(self):
        run = self.d + '/run'
        shutil.rmtree(run, ignore_errors=True)
        for s in glob.glob(self.repo + '/test/Test*.cpp'):
            t = os.path.basename(s)[:-4]
            os.makedirs('%s/%s' % (run, t))
            sh('cd %s/%s && (timeout 60 stdbuf -oL %s/b/%s > stdout.txt 2> stderr.txt; echo $? > status.txt)' % (run, t, self.d, t))
        return {l for l in sh('python3 /opt/vp/cases.py ' + run).stdout.split('\n') if l.startswith('PASS')}

    def trial(self, f, n, new, scens):
        p = self.repo + '/' + f
        lines = open(p).readlines()
        keep = list(lines)
        lines[n] = new
        open(p, 'w').writelines(lines)
        try:
            if sh('ninja -C %s/b -j2' % self.d).returncode:
                return 'nobuild', None
            if not self.base <= self.results():
                return 'tests', None
            ts = self.touched(f)
            if not self.compile(ts) or not self.link():
                return 'nobuild', None
            order = sorted(MODULES, key=lambda m: [0 if k in f and FIRST[k] == m else 1 for k in FIRST if k in f][:1] or [1])
            for m in order:
                mod = importlib.import_module(m)
                w = self.d + '/w'
                shutil.rmtree(w, ignore_errors=True)
                os.makedirs(w)
                try:
                    res, crashed = vlib.execute(self.d + '/runner', w, scens[m])
                    if crashed:
                        return 'killed', m + ' crash'
                    pr = {s['s']: mod.project(s, res[s['s']]) for s in scens[m]}
                    viol, cov, st, tn = vlib.validate(w, mod.MODULE, pr)
                except Exception as x:
                    return 'killed', m + ' ' + type(x).__name__
                if viol:
                    c = {}
                    for v in viol:
                        c[v['r']] = c.get(v['r'], 0) + 1
                    return 'killed', c
            return 'survivor', None
        finally:
            open(p, 'w').writelines(keep)
            sh('touch ' + p)

    def restore(self, f):
        self.compile(self.touched(f))


def worker(k, out, todo, lock, scens, done):
    t = Tree('%s/w%d' % (out, k))
    last = None
    while True:
        with lock:
            if done.value >= len(todo):
                return
            f, n, new = todo[done.value]
            done.value += 1
        while os.path.exists(out + '/pause'):
            time.sleep(2)
        if last and last != f:
            t.restore(last)
        t0 = time.time()
        try:
            r = t.trial(f, n, new, scens)
        except Exception as x:
            r = ('error', str(x)[-300:])
        last = f
        old = open('/repo/' + f).readlines()[n]
        with lock, open(out + '/results.jsonl', 'a') as g:
            g.write(json.dumps({'f': f, 'n': n + 1, 'old': old.strip(), 'new': new.strip(), 'r': r[0], 'by': r[1], 't': round(time.time() - t0)}) + '\n')


if __name__ == '__main__':
    a = argparse.ArgumentParser()
    a.add_argument('out'), a.add_argument('-j', type=int, default=6), a.add_argument('-n', type=int, default=100)
    a.add_argument('-f', default=''), a.add_argument('-s', type=int, default=1)
    o = a.parse_args()
    os.makedirs(o.out, exist_ok=True)
    scens = {m: importlib.import_module(m).scenarios('quick', 1) for m in MODULES}
    c = candidates(o.f)
    rnd = random.Random(o.s)
    rnd.shuffle(c)
    seen = set()
    if os.path.exists(o.out + '/results.jsonl'):
        seen = {(x['f'], x['n'], x['new']) for x in map(json.loads, open(o.out + '/results.jsonl'))}
    per, todo = {}, []
    for x in c:          # at most two changes of a line
        if per.get(x[:2], 0) < 2 and (x[0], x[1] + 1, x[2].strip()) not in seen:
            per[x[:2]] = per.get(x[:2], 0) + 1
            todo.append(x)
    todo = todo[:o.n]
    print(len(c), 'candidates,', len(todo), 'tried')
    lock, done = mp.Lock(), mp.Value('i', 0)
    ps = [mp.Process(target=worker, args=(k, o.out, todo, lock, scens, done)) for k in range(o.j)]
    [p.start() for p in ps]
    [p.join() for p in ps]
