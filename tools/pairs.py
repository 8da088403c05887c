"""C34: two scenarios of another module executed by two threads which share a handler and a context.  Each thread's
part of what is recorded must satisfy what it would have to on its own."""
import random


def scenarios(base, rnd, n):
    by = {}
    for b in base:
        o = b['ops'][0]
        if o['op'] == 'ctx' and not any(x['op'] in ('ctx', 'dropctx', 'faulty', 'membits', 'reg', 'rename', 'unreg') for x in b['ops'][1:]):
            big = len(b['ops']) > 12
            by.setdefault(str((big, sorted(o.items(), key=str))), []).append(b)
    pools = [v for v in by.values() if len(v) > 1]
    size = [len(v[0]['ops']) for v in pools]       # mostly the long ones
    out = []
    for _ in range(n):
        a, b = rnd.sample(rnd.choices(pools, size)[0], 2)
        x = dict(a)
        x.update(s=len(out) + 1, name=a['name'] + ' with ' + b['name'], pair=(a, b), extra={'reuse': rnd.random() < .5, 'with': b['ops'], 'pre': [[-rnd.choice([3, 10, 30, 100, 300, 1000, 3000]), rnd.randrange(1 << 20)]]})
        out.append(x)
    return out


def part(evs, t):
    out = []
    for e in evs:
        if e['e'] not in ('threads', 'joined') and e.get('th', t) == t:
            e = dict(e)
            e.pop('th', None)
            out.append(e)
    return out


def project(mod, scn, evs):
    return sum((mod.project(dict(b, s=scn['s']), part(evs, t)) for t, b in enumerate(scn['pair'])), [])
