"""Scenarios for Faults.tla (C33): Vulkan calls which fail."""
import random
import objects

MODULE = 'Faults'
PROPS = ['C33']
CALLS = {'compile': 45, 'run': 6, 'resetPipe': 2, 'rerecord': 4, 'cimage': 3, 'cview': 4, 'csampler': 1, 'cquad': 4}


def rename(rule):
    """a failure which costs something the other properties guarantee"""
    return rule if rule.startswith('C33') or '.' not in rule else 'C33.' + rule.split('.', 1)[1]


def faulty(s, scn, at, n):
    scn = dict(scn)
    scn['s'] = s
    scn['name'] = scn['name'] + ', failing calls'
    scn['ops'] = [{'op': 'faulty', 'n': n[i], 'do': o} if i in at else o for i, o in enumerate(scn['ops'])]
    return scn


def scenarios(tier, seed):
    rnd = random.Random(seed * 104729 + 5)
    q = tier == 'quick'
    out = []

    def places(scn, kinds):
        return [i for i, o in enumerate(scn['ops']) if o['op'] in kinds]

    def late(b):
        """passes which are enabled, hence initialised, only once the graph has been compiled"""
        b, ops, ids = dict(b), [], {}
        for o in b['ops']:
            if o['op'] == 'pass' and o.get('enabled', True):
                ids.setdefault(o['graph'], []).append(o['id'])
                o = dict(o, enabled=False, cfg=dict(o.get('cfg') or {}, enptr=True))
            ops.append(o)
            if o['op'] == 'compile':
                ops += [{'op': 'set', 'id': p, 'enabled': True} for p in ids.pop(o['id'], [])]
        b['ops'] = ops
        return b

    for _ in range(10 if q else 100):
        b = late(objects.graphs(0, random.Random(rnd.random())))
        p = places(b, ('run',))
        for i in p[:2]:
            for n in range(10):
                out.append(faulty(len(out) + 1, b, {i}, {i: n}))
    # every call of an operation in turn
    for _ in range(8 if q else 60):
        b = objects.graphs(0, random.Random(rnd.random()))
        p = places(b, ('compile', 'run', 'resetPipe', 'rerecord'))
        for i in [x for x in p if b['ops'][x]['op'] == 'compile'][:1] + rnd.sample(p, min(2, len(p))):
            for n in range(CALLS[b['ops'][i]['op']]):
                out.append(faulty(len(out) + 1, b, {i}, {i: n}))
    for _ in range(30 if q else 400):
        b = objects.caches(0, random.Random(rnd.random()))
        p = places(b, ('cimage', 'cview', 'csampler', 'cquad'))
        for i in rnd.sample(p, min(3, len(p))):
            for n in range(CALLS[b['ops'][i]['op']]):
                out.append(faulty(len(out) + 1, b, {i}, {i: n}))
    # several failures in one history
    for k in range(150 if q else 3000):
        b = (objects.graphs if k % 3 else objects.caches)(0, random.Random(rnd.random()))
        p = places(b, CALLS)
        at = rnd.sample(p, min(len(p), rnd.choice([1, 2, 3, 5])))
        out.append(faulty(len(out) + 1, b, set(at), {i: rnd.randrange(CALLS[b['ops'][i]['op']]) for i in at}))
    return out


def project(scn, evs):
    return objects.Proj(scn).run(evs)
