"""C34: threads which really run together, under the thread sanitizer: everything two of them do to the same data
is ordered (Share.tla, and what each was answered)."""
import random
import vlib
import pairs, threads, frame, sync, passes, objects

MODULE = 'Share'
PROPS = ['C34']
TRIES = 20


def build(work):
    exe = vlib.build(work, 'free')
    sf, tf = vlib.os.path.join(work, 'probe.sc'), vlib.os.path.join(work, 'probe.tr')
    open(sf, 'w').close()
    # (the sanitizer needs some control of where memory is mapped)
    p = vlib.subprocess.run([exe, sf, tf], stdout=vlib.subprocess.DEVNULL, stderr=vlib.subprocess.DEVNULL)
    return exe if p.returncode == 0 else None


def scenarios(tier, seed):
    rnd = random.Random(seed * 4243 + 1)
    q = tier == 'quick'
    ones, twos = threads.plans(tier, rnd)
    out = []
    for p in ones * (1 if q else 8):
        out.append(threads.scenario(0, p, [], rnd.choice(threads.BEFORE)))
    pool = [o for p in ones for o in p[0]]
    for _ in range(100 if q else 4000):
        n = rnd.choice([2, 2, 3])
        out.append(threads.scenario(0, [rnd.choices(pool, k=rnd.choice([2, 4, 8])) for _ in range(n)], [], rnd.choice(threads.BEFORE)))
    for m in (frame, sync, passes, objects):
        out += pairs.scenarios(m.scenarios('quick', seed), rnd, 40 if q else 1000)
    for i, s in enumerate(out):
        s['s'] = i + 1
        s['preempted'] = False
    return out


def project(scn, evs):
    if 'pair' not in scn:
        return threads.project(scn, evs)
    return [{'e': 'scen', 's': scn['s'], 'images': [], 'views': []}] + [{'e': 'races', 'n': e['races']} for e in evs if e['e'] == 'joined']
