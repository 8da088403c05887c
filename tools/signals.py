"""Histories of signals: enumerated by TLC from SignalGen, and longer random ones."""
import random, tempfile, shutil
import vlib

MODULE = 'Signals'
PROPS = ['C18']
KEEP = {'sig', 'sigdel', 'connect', 'disconnect', 'condel', 'conmove', 'valid', 'emit', 'called', 'emitted'}


def wrap(s, name, hist, sigs, v0):
    ops = [{'op': 'sig', 'id': i} for i in sigs]
    arg = 0
    objs = set()

    def put(o, sig=None):
        nonlocal arg
        o = dict(o)
        if o['op'] == 'emit':
            o.setdefault('id', sig)
            arg += 1
            o['arg'] = 0 if v0 else arg
        if o['op'] == 'connect':
            o.setdefault('sig', sig)
            o['acts'] = [put(a, o['sig']) for a in o.get('acts', [])]
        if v0:
            o['v0'] = True
        return o
    for o in hist:
        o = put(o)
        ops.append(o)
        if o['op'] in ('connect', 'conmove'):
            objs.add(o['id'])
        elif o['op'] == 'condel':
            objs.discard(o['id'])
        if o['op'] == 'sigdel':
            sigs = [x for x in sigs if x != o['id']]
    end = []
    for x in sigs:
        end += [{'op': 'emit', 'id': x}]
    end += [{'op': 'valid', 'id': c} for c in sorted(objs)]
    for c in sorted(objs):
        end += [{'op': 'disconnect', 'id': c}] + [{'op': 'emit', 'id': x} for x in sigs]
    for o in ops[:0] + end:
        ops.append(put(o))
    if v0:
        for o in ops:
            o['v0'] = True
    return {'s': s, 'name': name, 'ops': ops}


def rnd(r, n):
    """A long history over several signals; slots may do several things, and signals may die."""
    nsig = r.randint(1, 3)
    sigs, objs, hist, slot = list(range(1, nsig + 1)), set(), [], 0
    for _ in range(n):
        k = r.choice(['connect'] * 4 + ['disconnect', 'condel', 'conmove', 'conmove', 'emit', 'emit', 'valid', 'sigdel'])
        if k == 'connect' and sigs:
            slot += 1
            c = r.choice(sorted(objs) + [len(objs) + 1 + r.randint(0, 3)] * 3)
            acts = []
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                a = r.choice(['self', 'other', 'connect', 'emit', 'move'])
                if a == 'self':
                    acts.append({'op': 'disconnect', 'id': c})
                elif a == 'other' and objs:
                    acts.append({'op': 'disconnect', 'id': r.choice(sorted(objs))})
                elif a == 'connect':
                    acts.append({'op': 'connect', 'id': 500 + slot * 4 + len(acts), 'slot': 500 + slot * 4 + len(acts), 'sig': r.choice(sigs)})
                elif a == 'emit' and nsig == len(sigs):
                    acts.append({'op': 'emit', 'id': r.choice(sigs)})
            hist.append({'op': 'connect', 'id': c, 'sig': r.choice(sigs), 'slot': slot, 'assign': r.random() < .5, 'acts': acts})
            objs.add(c)
        elif k in ('disconnect', 'condel') and objs:
            c = r.choice(sorted(objs))
            hist.append({'op': k, 'id': c})
            if k == 'condel':
                objs.discard(c)
        elif k == 'conmove' and objs:
            d = r.choice(sorted(objs))
            c = r.choice(sorted(objs) + [max(objs) + 1])
            hist.append({'op': 'conmove', 'id': c, 'from': d, 'assign': c in objs and (c == d or r.random() < .5)})
            objs.add(c)
        elif k == 'emit' and sigs:
            hist.append({'op': 'emit', 'id': r.choice(sigs)})
        elif k == 'valid' and objs:
            hist.append({'op': 'valid', 'id': r.choice(sorted(objs))})
        elif k == 'sigdel' and len(sigs) > 1 and r.random() < .3 and not any(a['op'] in ('emit', 'connect') for o in hist for a in o.get('acts', [])):
            x = sigs.pop(r.randrange(len(sigs)))
            hist.append({'op': 'sigdel', 'id': x})
            nsig = 99
    return hist, list(range(1, (nsig if nsig < 99 else 3) + 1))


def scenarios(tier, seed):
    out = []
    w = tempfile.mkdtemp(prefix='sig.')
    try:
        cfgs = ['SignalGen', 'SignalGenActs'] if tier == 'quick' else ['SignalGenDeep', 'SignalGenActs', 'SignalGenActsDeep']
        for c in cfgs:
            for h in sorted(vlib.histories(w, 'SignalGen', c + '.cfg', workers=4), key=repr):
                n = len(out) + 1
                out.append(wrap(n, 'signal history %d' % n, h, [1], n % 4 == 0))
    finally:
        shutil.rmtree(w)
    r = random.Random(seed * 7919 + 18)
    for _ in range(600 if tier == 'quick' else 6000):
        n = len(out) + 1
        h, s = rnd(r, r.randint(5, 30))
        out.append(wrap(n, 'random signal history %d' % n, h, s, n % 4 == 0))
    return out


def project(scn, evs):
    return [{'e': 'scen', 's': scn['s']}] + [{k: v for k, v in e.items()} for e in evs if e['e'] in KEEP]
