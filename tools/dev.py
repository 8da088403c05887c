"""dev.py MODULE [n] : generate, run, validate, summarise (development aid)."""
import collections, importlib, json, os, sys, tempfile, time
import vlib
mod = importlib.import_module(sys.argv[1])
tier = os.environ.get('VERIF_TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1'))
work = tempfile.mkdtemp(prefix='dev.', dir='/tmp')
exe = os.environ.get('CRG_RUNNER') or vlib.build(work)
sc = mod.scenarios(tier, seed)
if len(sys.argv) > 2:
    want = sys.argv[2].split(',')
    sc = [s for s in sc if str(s['s']) in want]
t = time.time()
res, crashed = vlib.execute(exe, work, sc)
print('ran', len(sc), 'in', round(time.time() - t, 1), 'crashed', len(crashed))
for s, c in list(crashed.items())[:5]:
    print('  crash', s, c)
t = time.time()
by = {s['s']: s for s in sc}
pr = {s: mod.project(by[s], res[s]) for s in by if s not in crashed}
print('projected', sum(map(len, pr.values())), 'lines', round(time.time() - t, 1))
t = time.time()
viol, cov, st, tn = vlib.validate(work, mod.MODULE, pr)
print('tlc', round(time.time() - t, 1), 's states', st)
for k in sorted(cov):
    print('  %-34s %d' % (k, cov[k]))
c = collections.Counter(v['r'] for v in viol)
print('violations', dict(c), 'in', len({v['s'] for v in viol}), 'scenarios')
seen = collections.Counter()
for v in viol:
    seen[v['r']] += 1
    if seen[v['r']] <= 3:
        print('  ', v)
if len(sys.argv) > 2:
    for s in pr:
        json.dump(by[s], open('/tmp/last.scn.json', 'w'))
        with open('/tmp/last.raw', 'w') as f:
            for e in res[s]:
                f.write(json.dumps(e) + '\n')
        with open('/tmp/last.nd', 'w') as f:
            for e in pr[s]:
                f.write(json.dumps(e) + '\n')
import shutil
shutil.rmtree(work)
