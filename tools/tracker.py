"""Histories of layout trackers: enumerated by TLC from TrackGen, and longer random ones over several images."""
import random, tempfile, shutil
import vlib

MODULE = 'Tracker'
PROPS = ['C25']
LAYS = ['UNDEF', 'GENERAL', 'COLOR', 'DS_ATT', 'DS_RO', 'SHADER_RO', 'SRC', 'DST', 'PRESENT']
ACC = ['SH_R', 'SH_W', 'CO_R', 'CO_W', 'DS_R', 'DS_W', 'TR_R', 'TR_W']
ST = ['TOP', 'VS', 'FS', 'CS', 'TR', 'CO', 'EF', 'LF', 'BOT']
DEF = {'SRC': (['TR_R'], ['TR']), 'GENERAL': (['SH_R', 'SH_W'], ['CS'])}


def image(i, depth, mips, layers, typ):
    return {'op': 'image', 'id': i, 'type': typ, 'fmt': 37, 'ext': [16, 16, depth], 'mips': mips, 'layers': layers, 'usage': 255, 'name': 'I%d' % i}


def fixed(s, h, mips, layers):
    ops = [{'op': 'graph', 'id': 9, 'name': 'g'}, image(1, 1, mips, layers, 1), {'op': 'trk', 'id': 1}, {'op': 'trk', 'id': 2}]
    for o in h:
        o = dict(o)
        if o['op'] == 'tset':
            o.update(img=1, vt=5, asp='C', acc=DEF[o['lay']][0], st=DEF[o['lay']][1])
        ops.append(o)
    for t in (1, 2):
        for m in range(mips):
            for y in range(layers):
                ops.append({'op': 'tget', 'id': t, 'img': 1, 'vt': 1, 'asp': 'C', 'r': [m, 1, y, 1]})
        ops.append({'op': 'tget', 'id': t, 'img': 1, 'vt': 5, 'asp': 'C', 'r': [0, mips, 0, layers]})
    return {'s': s, 'name': 'tracker history %d' % s, 'ops': ops}


def rnd(s, r):
    ops = [{'op': 'graph', 'id': 99, 'name': 'g'}]
    ims = []
    for i in range(1, r.randint(2, 4)):
        d3 = r.random() < .4
        x = (i, r.choice([1, 2, 3, 4, 8, 9, 16]) if d3 else 1, r.randint(1, 5), 1 if d3 else r.randint(1, 6), d3)
        ims.append(x)
        ops.append(image(x[0], x[1], x[2], x[3], 2 if d3 else 1))
    nt = r.randint(1, 3)
    ops += [{'op': 'trk', 'id': k} for k in range(1, nt + 1)]
    trk = list(range(1, nt + 1))
    vid = 200
    views = []

    def where():
        nonlocal vid
        if views and r.random() < .3:
            return dict(view=r.choice(views))
        i, depth, mips, layers, d3 = r.choice(ims)
        m = r.randrange(mips)
        n = r.randint(1, mips - m)
        if d3 and r.random() < .6:
            # whole 3D views
            m, n = r.choice([(0, mips), (m, 1)])
            vt, rr = 2, [m, n, 0, 1]
        elif d3:
            # slices of one level
            slices = max(1, depth >> m)
            y = r.randrange(slices)
            vt, rr = (1, [m, 1, y, 1]) if r.random() < .5 else (5, [m, 1, y, r.randint(1, slices - y)])
        else:
            y = r.randrange(layers)
            rr = [m, n, y, r.randint(1, layers - y)]
            vt = 5 if rr[3] > 1 else r.choice([1, 5])
        if r.random() < .3:
            vid += 1
            ops.append({'op': 'view', 'id': vid, 'img': i, 'vt': vt, 'fmt': 37, 'asp': 'C', 'r': rr})
            views.append(vid)
            return dict(view=vid)
        return dict(img=i, vt=vt, asp='C', r=rr)
    for _ in range(r.randint(4, 25)):
        k = r.choice(['set'] * 4 + ['get'] * 4 + ['add', 'copy'])
        t = r.choice(trk)
        if k == 'set':
            w = where()
            ops.append(dict(op='tset', id=t, lay=r.choice(LAYS[1:]), acc=r.sample(ACC, r.randint(0, 2)), st=r.sample(ST, r.randint(1, 2)), **w))
        elif k == 'get':
            w = where()
            ops.append(dict(op='tget', id=t, **w))
        elif k == 'add' and len(trk) > 1:
            ops.append({'op': 'tadd', 'id': t, 'from': r.choice([x for x in trk if x != t])})
        elif k == 'copy':
            n = max(trk) + 1
            trk.append(n)
            ops.append({'op': 'tcopy', 'id': n, 'from': t})
    for i, depth, mips, layers, d3 in ims:
        for t in trk:
            for m in range(mips):
                for y in range(max(1, depth >> m) if d3 else layers):
                    if r.random() < .5:
                        ops.append({'op': 'tget', 'id': t, 'img': i, 'vt': 1, 'asp': 'C', 'r': [m, 1, y, 1]})
                if d3:
                    ops.append({'op': 'tget', 'id': t, 'img': i, 'vt': 2, 'asp': 'C', 'r': [m, 1, 0, 1]})
    return {'s': s, 'name': 'random tracker history %d' % s, 'ops': ops}


def scenarios(tier, seed):
    out = []
    w = tempfile.mkdtemp(prefix='trk.')
    try:
        cfg, m = ('TrackGen', 2) if tier == 'quick' else ('TrackGenDeep', 3)
        for h in sorted(vlib.histories(w, 'TrackGen', cfg + '.cfg', workers=4), key=repr):
            out.append(fixed(len(out) + 1, h, m, 2))
    finally:
        shutil.rmtree(w)
    r = random.Random(seed * 7919 + 25)
    for _ in range(700 if tier == 'quick' else 7000):
        out.append(rnd(len(out) + 1, r))
    return out


def project(scn, evs):
    ims, views, out = [], {}, []
    for o in scn['ops']:
        if o['op'] == 'image':
            ims.append({'id': o['id'], 'depth': o['ext'][2], 'mips': o['mips']})
        elif o['op'] == 'view':
            views[o['id']] = o
    todo = [o for o in scn['ops'] if o['op'] in ('trk', 'tset', 'tget', 'tadd', 'tcopy')]
    got = [e for e in evs if e['e'] in ('trk', 'tset', 'tget', 'tadd', 'tcopy')]
    assert [o['op'] for o in todo] == [e['e'] for e in got]
    for o, e in zip(todo, got):
        v = views.get(o.get('view'), o)
        x = {'e': o['op'], 'id': o['id']}
        if o['op'] in ('tset', 'tget'):
            x.update(img=v['img'], vt=v['vt'], r=v['r'])
            x['st'] = {'lay': o['lay'], 'acc': o['acc'], 'st': o['st']} if o['op'] == 'tset' else {'lay': e['s'][0], 'acc': e['s'][1], 'st': e['s'][2]}
        elif 'from' in o:
            x['from'] = o['from']
        out.append(x)
    return [{'e': 'scen', 's': scn['s'], 'images': ims}] + out
