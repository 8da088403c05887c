"""check.py PROPERTY : decides one property on /repo's current working tree.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Other: error."""
import importlib, json, os, shutil, sys, tempfile, time, traceback
import vlib

# property -> trace modules (python module names), design models (TLA module, cfg quick, cfg thorough)
TABLE = {
    'C01': (['frame'], []), 'C02': (['frame'], []), 'C03': (['frame'], []),
    'C04': (['sync'], []), 'C05': (['sync'], []), 'C06': (['sync'], []),
    'C07': (['sync'], []), 'C08': (['sync'], []), 'C10': (['sync'], []),
    'C12': (['objects'], []), 'C13': (['objects'], []), 'C14': (['objects'], []), 'C16': (['objects'], []), 'C28': (['objects'], []), 'C29': (['objects'], []),
    'C11': (['passes'], []), 'C19': (['passes'], []), 'C20': (['passes'], []), 'C21': (['passes'], []), 'C22': (['passes'], []), 'C23': (['passes'], []),
    'C18': (['signals'], []), 'C25': (['tracker'], []),
    'C24': (['structure'], []), 'C26': (['structure'], []), 'C27': (['structure'], []), 'C30': (['structure'], []),
    'C31': (['frame'], []), 'C32': (['recorder'], []),
    'C33': (['faults', 'fsync', 'fframe', 'fpasses'], []),
    'C34': (['threads', 'tframe', 'tsync', 'tpasses', 'tobjects', 'races'], [('SharePlan', 'SharePlan.cfg', 'SharePlan2.cfg')]),
    'C09': (['frame'], []), 'C15': (['frame'], []), 'C17': (['frame'], []),
}


def run_traces(pid, modname, work, exe, tier, seed, ev):
    mod = importlib.import_module(modname)
    if hasattr(mod, 'build'):
        exe = mod.build(work)
        if not exe:
            print('NOTE %s cannot run here' % modname)
            ev['skipped'].append(modname)
            return []
    del vlib.GENERATED[:]
    scens = mod.scenarios(tier, seed)
    for g in vlib.GENERATED:
        ev['design'].append(g)
        ev['states'] += g['distinct_states']
        ev['transitions'] += g['generated']
    by = {s['s']: s for s in scens}
    out = []

    def go(ss):
        res, crashed = vlib.execute(exe, work, ss)
        pr, odd = {}, []
        for s in ss:
            if s['s'] in crashed or (crashed and s['s'] not in res):
                continue
            try:
                pr[s['s']] = mod.project(s, res[s['s']])
            except Exception as x:
                # behaviour that cannot even be related to the declarations
                odd.append({'s': s['s'], 'i': 0, 'r': 'unexplained', 'd': ['%s: %s' % (type(x).__name__, x)]})
        viol, cov, st, tn = vlib.validate(work, mod.MODULE, pr) if pr else ([], {}, 0, 0)
        if hasattr(mod, 'rename'):
            for v in viol:
                v['r'] = mod.rename(v['r'])
            cov = {mod.rename(r): n for r, n in cov.items() if '.' in r}
        viol += odd + [{'s': s, 'i': 0, 'r': pid + '.crash', 'd': [c]} for s, c in crashed.items()]
        return viol, cov, st, tn, res, pr

    viol, cov, st, tn, res, pr = go(scens)
    for v in viol:
        if v['r'] == 'unexplained':
            v['r'] = pid + '.unexplained'
    mine = [v for v in viol if v['r'].split('.')[0] == pid]
    ev['states'] += st
    ev['transitions'] += tn
    ev['traces'] += len(pr)
    ev['events'] += sum(map(len, pr.values()))
    rules = {k: n for k, n in cov.items() if k.split('.')[0] == pid}
    ev['guards'].update(rules)
    bad = {v['s'] for v in mine}
    for s in scens:
        if s['s'] not in bad and s['s'] in pr and len(pr[s['s']]) > 20 and len(ev['samples']) < 2:
            ev['samples'].append({'module': mod.MODULE, 'scenario': s['name'], 'ops': s['ops'][:40], 'first_events': pr[s['s']][:25]})
    if not mine:
        if not rules:
            raise vlib.CheckError('no guard of %s was evaluated by %s' % (pid, mod.MODULE))
        return []
    kn = [k for k in vlib.known() if k.get('property') == pid and k.get('status') == 'known']
    fresh, seen = [], {}
    for v in mine:
        s = by[v['s']]
        hit = [k for k in kn if k['rule'] == v['r'] and k['scenario'] == s['name']]
        if hit:
            seen[hit[0]['what']] = 1
        else:
            fresh.append(v)
    for w in seen:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    ev['known'] += sorted(seen)
    if not fresh:
        return []
    # keep only what a second execution repeats
    pick = []
    for v in fresh:
        if v['s'] not in pick:
            pick.append(v['s'])
    pick = pick[:6]
    # (threads which really run together: not every execution shows it)
    for _ in range(getattr(mod, 'TRIES', 1)):
        viol2 = go([by[s] for s in pick])[0]
        for v in viol2:
            if v['r'] == 'unexplained':
                v['r'] = pid + '.unexplained'
        again = {(v['s'], v['r']) for v in viol2}
        out = [v for v in fresh if (v['s'], v['r']) in again]
        if out:
            break
    if not out and hasattr(mod, 'TRIES'):
        print('NOTE a rejection did not repeat: %r' % fresh[:3])
        return []
    if not out and fresh:
        raise vlib.CheckError('a rejection did not repeat: %r' % fresh[:3])
    v = out[0]
    rp = os.path.join(vlib.ROOT, 'replays')
    os.makedirs(rp, exist_ok=True)
    path = os.path.join(rp, '%s.json' % pid)
    json.dump({'property': pid, 'module': modname, 'violations': out[:20], 'scenario': by[v['s']],
               'events': pr.get(v['s'], [])[:4000]}, open(path, 'w'))
    return [(path, out)]


def run_design(pid, spec, work, tier, ev):
    module, quick, thorough = spec
    cfg = quick if tier == 'quick' else thorough
    rc, txt = vlib.tlc(work, module, cfg, workers=4 if tier == 'quick' else 8, heap='8g')
    a, b = vlib.states_of(txt)
    if rc != 0:
        raise vlib.CheckError('design model %s/%s rc=%d\n%s' % (module, cfg, rc, txt[-3000:]))
    ev['states'] += a
    ev['transitions'] += b
    ev['design'].append({'module': module, 'cfg': cfg, 'distinct_states': a, 'generated': b})


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='crgv.', dir=os.environ.get('TMPDIR', '/tmp'))
    ev = {'states': 0, 'transitions': 0, 'traces': 0, 'events': 0, 'guards': {}, 'samples': [], 'design': [], 'known': [], 'skipped': []}
    found = []
    try:
        mods, designs = TABLE[pid]
        for d in designs:
            run_design(pid, d, work, tier, ev)
        exe = vlib.build(work)
        for m in mods:
            found += run_traces(pid, m, work, exe, tier, seed, ev)
    except vlib.CheckError as x:
        print('ERROR', x)
        sys.exit(3)
    except Exception:
        traceback.print_exc(file=sys.stdout)
        sys.exit(3)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = round(time.time() - t0, 2)
    cov = {'states': ev['states'], 'transitions': ev['transitions'], 'traces_validated_against_impl': ev['traces'],
           'samples': ev['samples'] or [{'none': 'no accepted trace'}], 'trace_events': ev['events'], 'guard_evaluations': ev['guards'],
           'design_models': ev['design'], 'known_findings_seen': ev['known'], 'skipped': ev['skipped'],
           'rule': 'scenarios generated from seed %d are executed on the library built from /repo and their recorded behaviour '
                   'is checked step by step by TLC against the specification' % seed}
    os.makedirs(os.path.join(vlib.ROOT, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
               'assumptions': ['the Vulkan device is a recording stand-in: commands are judged by the modelled rules of the Vulkan specification'],
               'wall_s': wall, 'violations': sum(len(f[1]) for f in found)},
              open(os.path.join(vlib.ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    for path, out in found:
        for v in out[:8]:
            print('  %s scenario %s event %s: %s' % (v['r'], v['s'], v['i'], json.dumps(v['d'])[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if found:
        sys.exit(1)
    print('OK property=%s traces=%d events=%d states=%d wall=%.1fs' % (pid, ev['traces'], ev['events'], ev['states'], wall))


main()
