"""Shared machinery: build the harness, execute scenarios on the real library,
hand the recorded behaviour to TLC, collect verdicts, write evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = int(os.environ.get('CRG_PROCS', '8'))


class CheckError(Exception):
    pass


def build(work, *how):
    out = os.path.join(work, 'build' + ''.join(how))
    os.makedirs(out, exist_ok=True)
    r = subprocess.run([os.path.join(ROOT, 'harness', 'build.sh'), out] + list(how), capture_output=True, text=True)
    exe = os.path.join(out, 'runner')
    if r.returncode or not os.path.exists(exe):
        raise CheckError('build failed:\n' + (r.stdout + r.stderr)[-4000:])
    return exe


def _run_chunk(exe, work, name, scens):
    """Runs scenarios in one runner process; on a crash goes on after the culprit."""
    res, crashed = {}, {}
    todo = list(scens)
    k = 0
    while todo:
        sf = os.path.join(work, '%s.%d.sc' % (name, k))
        tf = os.path.join(work, '%s.%d.tr' % (name, k))
        k += 1
        with open(sf, 'w') as f:
            for s in todo:
                f.write(json.dumps(dict(s.get('extra') or {}, s=s['s'], name=s['name'], ops=s['ops']), separators=(',', ':')) + '\n')
        with open(tf + '.err', 'w') as ef:
            p = subprocess.run([exe, sf, tf], stdout=subprocess.DEVNULL, stderr=ef)
        cur, done, eof = None, set(), False
        if os.path.exists(tf):
            with open(tf, errors='replace') as f:
                for line in f:
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        continue
                    e = ev['e']
                    if e == 'scen':
                        cur = ev['s']
                        res[cur] = []
                    elif e == 'eof':
                        eof = True
                    elif e == 'endscen':
                        done.add(ev['s'])
                        res[cur].append(ev)
                    elif cur is not None:
                        res[cur].append(ev)
        err = open(tf + '.err', errors='replace').read()[-600:]
        for x in (sf, tf, tf + '.err'):
            os.path.exists(x) and os.remove(x)
        if eof and p.returncode in (0, 66):     # 66: the sanitizer has reported something
            break
        if p.returncode == 2 or (p.returncode == 0):
            raise CheckError('runner rc=%d: %s' % (p.returncode, err))
        # crash or hang in scenario `cur`
        bad = cur if cur is not None and cur not in done else None
        if bad is None:
            raise CheckError('runner died outside a scenario rc=%d: %s' % (p.returncode, err))
        crashed[bad] = 'signal %d %s' % (-p.returncode, err.strip()[-300:])
        ids = [s['s'] for s in todo]
        todo = todo[ids.index(bad) + 1:]
        if len(crashed) >= 4:
            break       # enough to report: the rest is left unexplored
    return res, crashed


def execute(exe, work, scens):
    """-> {s: [events]}, {s: crash text}"""
    d = tempfile.mkdtemp(prefix='run.', dir=work)
    n = max(1, min(NPROC, len(scens) // 4 or 1))
    chunks = [scens[i::n] for i in range(n)]
    res, crashed = {}, {}
    with ThreadPoolExecutor(n) as ex:
        for r, c in ex.map(lambda i: _run_chunk(exe, d, 'c%d' % i, chunks[i]), range(n)):
            res.update(r)
            crashed.update(c)
    shutil.rmtree(d)
    return res, crashed


def tlc(work, module, cfg, env=None, args=(), heap='3g', timeout=800, workers=1):
    """Runs TLC on a copy of the specification directory.  -> (rc, output)"""
    meta = tempfile.mkdtemp(prefix='tlc.', dir=work)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
           '-Djava.io.tmpdir=' + meta, '-cp', TLAJARS, 'tlc2.TLC', '-noGenerateSpecTE', '-nowarning',
           '-workers', str(workers), '-metadir', os.path.join(meta, 'm'), '-config', cfg] + list(args) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        raise CheckError('TLC timeout on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def states_of(out):
    """distinct states, generated states from TLC's final statistics"""
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def validate(work, module, projected):
    """projected: {s: [lines]} -> (violations, coverage, states, transitions, scenarios accepted)
    Every scenario's lines start with a 'scen' event.  Chunks go to parallel TLC runs."""
    ids = sorted(projected, key=lambda s: -len(projected[s]))
    n = max(1, min(NPROC, len(ids)))
    total = sum(len(v) for v in projected.values())
    n = max(1, min(n, total // 1500 + 1))
    bins = [[0, []] for _ in range(n)]
    for s in ids:
        b = min(bins, key=lambda x: x[0])
        b[0] += len(projected[s]) + 2
        b[1].append(s)

    def one(i):
        tr = os.path.join(work, '%s.%d.nd' % (module, i))
        out = os.path.join(work, '%s.%d.out' % (module, i))
        mine, unexplained = list(bins[i][1]), []
        while mine:
            with open(tr, 'w') as f:
                for s in mine:
                    for ln in projected[s]:
                        f.write(json.dumps(ln, separators=(',', ':')) + '\n')
            rc, txt = tlc(work, module, module + '.cfg', {'TRACE': tr, 'OUT': out})
            if rc == 0 and os.path.exists(out):
                break
            # The specification has no step for some event: find whose it is and go on without that scenario.
            keep = os.path.join(work, 'failed.%s.%d.txt' % (module, i))
            open(keep, 'w').write(txt)
            at = re.findall(r'^/\\ l = (\d+)$', txt, re.M)
            bad = None
            if at:
                k = int(at[-1])
                for s in mine:
                    k -= len(projected[s])
                    if k <= 0:
                        bad = s
                        break
            if bad is None or len(unexplained) > 2:
                if unexplained:
                    break
                raise CheckError('TLC rc=%d on %s (trace %s)\n%s' % (rc, module, tr, txt[-3000:]))
            unexplained.append({'s': bad, 'i': int(at[-1]), 'r': 'unexplained', 'd': [txt[txt.find('Error:'):][:600]]})
            mine.remove(bad)
        if not mine or not os.path.exists(out):
            return {'viol': unexplained, 'cov': {}}, (0, 0)
        r = json.load(open(out))
        r['viol'] = r['viol'] + unexplained
        os.remove(tr)
        os.remove(out)
        return r, states_of(txt)

    viol, cov, st, tn = [], {}, 0, 0
    with ThreadPoolExecutor(n) as ex:
        for r, (a, b) in ex.map(one, range(n)):
            viol += r['viol']
            for k, v in (r['cov'] or {}).items():
                cov[k] = cov.get(k, 0) + v
            st += a
            tn += max(0, b - 1)
    return viol, cov, st, tn


def known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


GENERATED = []


def histories(work, module, cfg, **kw):
    """Behaviours enumerated by TLC from a generator specification, which prints each of them as JSON."""
    rc, txt = tlc(work, module, cfg, **kw)
    if rc != 0:
        raise CheckError('generator %s/%s rc=%d\n%s' % (module, cfg, rc, txt[-3000:]))
    out = []
    for ln in txt.splitlines():
        if ln.startswith('"') and ln.endswith('"'):
            out.append(json.loads(json.loads(ln)))
    a, b = states_of(txt)
    GENERATED.append({'module': module, 'cfg': cfg, 'distinct_states': a, 'generated': b, 'behaviours': len(out)})
    return out
