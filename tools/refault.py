"""C33, on what is recorded: scenarios of another module in which calls fail, the failed operation being tried again."""
import random
import faults

KEPT = ('Create', 'Destroy', 'Allocate', 'Free', 'Update', 'Name', 'Bind', 'BufReq', 'ImgReq', 'MapMemory', 'UnmapMemory', 'FlushMemory', 'init')


def scenarios(base, rnd, n, kinds=('run', 'compile', 'record', 'rerecord', 'resetPipe')):
    out = []
    pick = [s for s in base if any(o['op'] in kinds for o in s['ops'])]
    for k in range(n):
        b = rnd.choice(pick)
        p = [i for i, o in enumerate(b['ops']) if o['op'] in kinds]
        at = rnd.sample(p, min(len(p), rnd.choice([1, 1, 2, 3])))
        out.append(faults.faulty(len(out) + 1, b, set(at), {i: rnd.randrange(40 if b['ops'][i]['op'] == 'compile' else 8) for i in at}))
    return out


def tries(evs):
    """the events of each attempt, the operation and whether it has failed"""
    cur, out, op = [], [], ''
    for e in evs:
        if e['e'] == 'arm':
            out.append((False, op, cur))
            cur, op = [], e['op']
        elif e['e'] == 'armed':
            out.append((e['fired'], op, cur))
            cur = []
        elif e['e'] != 'Failed':
            cur.append(e)
    return out + [(False, '', cur)]


def kept(e, op):
    # the passes of a compilation are made again
    return e['e'].startswith(KEPT) and 'cb' not in e and (e['e'] != 'init' or op != 'compile')


def project(mod, scn, evs):
    rest = []
    for failed, op, es in tries(evs):
        rest += [e for e in es if not failed or kept(e, op)]
    plain = dict(scn, ops=[o['do'] if o['op'] == 'faulty' else o for o in scn['ops']])
    return mod.project(plain, rest)
