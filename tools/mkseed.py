"""mkseed.py [ID...] : (re)builds /verif/seeded/<id>/ from tools/seeds.py and confirms each one:
the change applies, builds, passes the repository's tests, and its demonstration tells it apart.
Works on /repo's working tree, which it restores."""
import json, os, shutil, subprocess, sys
import seeds
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = '''#!/bin/bash
# exit 0: the property holds for the scenario of scn.json; nonzero: it does not (or the code crashes)
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
CRG_REPO=$PWD bash "$D/h/build.sh" "$W" > "$W/log" 2>&1 || { tail -5 "$W/log"; exit 2; }
"$W/runner" "$D/scn.json" "$W/trace" 2> "$W/err" || { echo "runner failed"; tail -3 "$W/err"; exit 3; }
python3 "$D/look.py" "$W/trace"
'''
HEAD = '''import json, sys
ev = [json.loads(x) for x in open(sys.argv[1])]


def fail(*a):
    print('property broken:', *a)
    sys.exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    if sh('bash /opt/vp/build.sh').returncode:
        return 'does not build'
    sh('bash /opt/vp/test.sh /tmp/seed.t.json')
    d = json.load(open('/tmp/seed.t.json'))
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None
    if base is not None and not base <= set(d['passed']):
        return 'tests fail: %s' % sorted(base - set(d['passed']))[:5]
    if d.get('failed'):
        return 'tests fail: %s' % d['failed'][:5]
    return ''


def ours(patch):
    """The lines the change removes which are not of the original repository."""
    bad, path, n = [], None, 0
    for x in patch.split('\n'):
        if x.startswith('--- a/'):
            path = x[6:].strip()
        elif x.startswith('@@'):
            n = int(x.split()[1][1:].split(',')[0])
        elif x.startswith('-'):
            b = sh('git -C %s blame -s -L %d,%d HEAD -- %s' % (REPO, n, n, path)).stdout
            if not b.startswith('^fd8bd66'):
                bad.append(b.strip()[:90])
            n += 1
        elif not x.startswith(('+', '\\')):
            n += 1
    return bad


def main():
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
    want = sys.argv[1:]
    for s in seeds.SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, 'h'))
        for f in ('mock.hpp', 'mock.cpp', 'json.hpp', 'runner.cpp', 'build.sh'):
            shutil.copy(os.path.join(ROOT, 'harness', f), os.path.join(d, 'h', f))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'look.py'), 'w').write(HEAD + s['look'].strip('\n') + '\n')
        sc = s['scen']()
        with open(os.path.join(d, 'scn.json'), 'w') as f:
            for x in (sc if isinstance(sc, list) else [sc]):
                f.write(json.dumps(dict(x.get('extra') or {}, s=x['s'], name=x['name'], ops=x['ops'])) + '\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        msg = ''
        try:
            for path, old, new in s['edits']:
                p = os.path.join(REPO, path)
                t = open(p, newline='').read()
                crlf = '\r\n' in t
                o, n = (old.replace('\n', '\r\n'), new.replace('\n', '\r\n')) if crlf else (old, new)
                if t.count(o) != 1:
                    msg = 'edit of %s matches %d times' % (path, t.count(o))
                    break
                open(p, 'w', newline='').write(t.replace(o, n))
            open(os.path.join(d, 'patch.diff'), 'w', newline='').write(subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True).stdout.decode())
            if not msg:
                bad = ours(open(os.path.join(d, 'patch.diff'), newline='').read())
                msg = 'changes lines of ours: %s' % bad[:2] if bad else stable()
            if not msg:
                r = sh('bash %s/demo.sh' % d, cwd=REPO)
                if r.returncode == 0:
                    msg = 'demo passes with the change'
                else:
                    s['out'] = r.stdout.strip()[-200:] + r.stderr[-200:]
        finally:
            sh('git -C /repo checkout -- .')
        if not msg:
            r = sh('bash %s/demo.sh' % d, cwd=REPO)
            if r.returncode:
                msg = 'demo fails without the change: ' + r.stdout[-300:] + r.stderr[-300:]
        print(s['id'], s['property'], 'OK: ' + s['out'].replace('\n', ' | ') if not msg else 'REJECTED: ' + msg, flush=True)
        if msg and '-k' not in want:
            shutil.rmtree(d, ignore_errors=True)
    sh('bash /opt/vp/build.sh')


main()
