"""C34: requests made by threads to the handler and the context they share (Share.tla)."""
import random
import vlib
from sgen import Scn

MODULE = 'Share'
PROPS = ['C34']
BASE = {'image': 1, 'view': 14}


def request(o, t, i):
    """a request of the plan as the runner makes it"""
    k, d = o['k'], o['id']
    r = {'k': k, 'id': d}
    if k == 'newview':
        r = {'k': k, 'id': d, 'img': 1, 'mip': d - 1, 'name': 'V%d' % d}
    elif k in ('sampler', 'quad', 'newimage', 'reg', 'rename'):
        r['name'] = 't%dr%d' % (t, i)
    return r


# what is there before the threads start
BEFORE = [[], ['image1'], ['image2', 'reg1'], ['view1'], ['view1', 'view2', 'image2', 'newview3'], ['view2', 'reg1', 'sampler0', 'quad0']]


def scenario(s, prog, pre, before=()):
    ops = [{'op': 'ctx', 'id': 0, 'stack': 'call'}]
    for i in (1, 2):
        ops.append({'op': 'image', 'id': i, 'name': 'I%d' % i, 'type': 1, 'fmt': 37, 'ext': [16, 16, 1], 'mips': 4, 'layers': 2})
    for v in (1, 2):
        ops.append({'op': 'view', 'id': v, 'name': 'V%d' % v, 'img': 1, 'vt': 1, 'fmt': 37, 'asp': 'C', 'r': [v - 1, 1, 0, 1]})
    if before:
        ops.append({'op': 'threads', 'ctx': 0, 'progs': [[request({'k': b[:-1], 'id': int(b[-1])}, 9, i) for i, b in enumerate(before)]], 'pre': []})
    progs = [[request(o, t, i) for i, o in enumerate(p)] for t, p in enumerate(prog)]
    ops.append({'op': 'threads', 'ctx': 0, 'progs': progs, 'pre': pre})
    return {'s': s, 'name': 'threads', 'ops': ops}


def related(prog):
    """programs whose threads look into the same thing"""
    def lock(o):
        k = o['k']
        return {'newimage': 'i', 'image': 'i', 'dropimage': 'i', 'view': 'v', 'newview': 'v', 'dropview': 'v', 'sampler': 's', 'dropsampler': 's',
                'quad': 'b', 'dropquad': 'b'}.get(k, 'r')
    both = lambda p: {x for o in p for x in (lock(o), 'i' if o['k'] == 'view' else lock(o), 'r' if lock(o) in 'sb' else lock(o))}
    return both(prog[0]) & both(prog[1])


def plans(tier, rnd):
    work = vlib.tempfile.mkdtemp(prefix='plan.')
    try:
        h = vlib.histories(work, 'SharePlan', 'SharePlan2.cfg')
    finally:
        vlib.shutil.rmtree(work, ignore_errors=True)
    h = sorted(h, key=lambda p: vlib.json.dumps(p, sort_keys=True))
    ones = [p for p in h if len(p[0]) == 1 and related(p)]
    twos = [p for p in h if len(p[0]) == 2 and related(p)]
    return ones, twos


def scenarios(tier, seed):
    rnd = random.Random(seed * 7907 + 1)
    q = tier == 'quick'
    ones, twos = plans(tier, rnd)
    out = []

    def add(p, pre, before=None):
        out.append(scenario(len(out) + 1, p, pre, rnd.choice(BEFORE) if before is None else before))
    # every place where the first thread can be left for the other one
    for p in ones:
        for b in BEFORE:
            for k in range(1, 30 if p[0][0]['k'] in ('quad', 'view', 'image') else 18):
                if not q or k < 3 or rnd.random() < .3:
                    add(p, [[0, k]], b)
    for p in rnd.sample(twos, 300 if q else len(twos)):
        for _ in range(2 if q else 12):
            add(p, [[0, rnd.randrange(1, 36)]] if rnd.random() < .4 else [[-rnd.choice([2, 3, 5, 9]), rnd.randrange(1 << 20)]])
    # longer ones
    pool = [o for p in ones for o in p[0]]
    for _ in range(200 if q else 5000):
        n = rnd.choice([2, 2, 3])
        add([rnd.choices(pool, k=rnd.choice([2, 3, 4] if n == 2 else [1, 2])) for _ in range(n)], [[-rnd.choice([2, 3, 5, 9, 20]), rnd.randrange(1 << 20)]])
    return out


KIND = {'CreateImage': 'image', 'CreateImageView': 'view', 'CreateSampler': 'sampler', 'CreateBuffer': 'buffer'}


def project(scn, evs):
    out = []
    images, views, data = [], [], {}
    start = {'e': 'scen', 's': scn['s']}
    ctr = 0
    for e in evs:
        if e['e'] in ('image', 'view'):
            ctr += 1
            # (the data of what is declared is numbered first, images then views)
            (images if e['e'] == 'image' else views).append(e)
    start['images'] = [[e['lid'], n + 1] for n, e in enumerate(images)]
    start['views'] = [['V%d' % e['id'], e['lid'], len(images) + n + 1] for n, e in enumerate(views)]
    out.append(start)
    open_, told = {}, {}
    left, reg = [], []
    races = 0
    for e in evs:
        k, t = e['e'], e.get('th', -1)
        if k == 'inv':
            o = {'k': e['k'], 'id': e['id'], 'name': e['name'], 'mi': 0, 'mv': 0, 'vof': 0, 'im': 1, 'dels': [], 'h': 0, 'x': 0, 'ok': False, 'st': 'call of thread %d' % t}
            o['key'] = e['name']
            if o['k'] in ('reg', 'unreg', 'rename'):
                o['id'] += 5000000
            open_[t] = o
            out.append({'e': 'inv', 't': t, 'o': o})
        elif k == 'ret':
            o = open_.pop(t)
            o['h'], o['x'], o['ok'] = e['h'], e['x'], e['ok']
            out.append({'e': 'ret', 't': t})
        elif k in KIND:
            out.append({'e': 'new', 'h': e['h']})
            if t in open_:
                o = open_[t]
                if k == 'CreateImage':
                    o['mi'] = e['h'] if not o['mi'] else -1
                elif k == 'CreateImageView':
                    o['mv'], o['vof'] = (e['h'] if not o['mv'] else -1), e['img']
        elif k in ('DestroyImage', 'DestroyImageView', 'DestroySampler', 'DestroyBuffer'):
            out.append({'e': 'del', 'h': e['h']})
            if t in open_:
                open_[t]['dels'].append(e['h'])
        elif k == 'joined':
            races = e['races'] if e['races'] < 0 else races + e['races']
        elif k == 'leaks':
            reg += [[x[0], x[1], x[2].strip()] for x in e['items']]
        elif k == 'handlerGone':
            left += e['left']
    if races >= 0 and not scn.get('preempted', True):
        out.append({'e': 'races', 'n': races})

    def named(p, num):
        p = 'Leaked [%s](' % p
        xs = [x[len(p):-1] for x in left if x.startswith(p)]
        return [int(x[1:]) for x in xs] if num else xs
    out.append({'e': 'end', 'images': named('VkImage', True), 'views': named('VkImageView', True), 'samplers': len(named('VkSampler', False)),
                'quads': len(named('VkBuffer', False)) + len(named('VkDeviceMemory', False)), 'reg': reg})
    return out
