"""Histories of record contexts used on their own: enumerated by TLC from RecGen, and longer random ones with actions."""
import random, shutil, struct, tempfile
import vlib

MODULE = 'Recorder'
PROPS = ['C32']
LAYS = ['GENERAL', 'COLOR', 'SHADER_RO', 'SRC', 'DST', 'PRESENT']
DLAYS = ['DS_ATT', 'DS_RO', 'SHADER_RO', 'SRC', 'DST', 'GENERAL']
ACC = ['SH_R', 'SH_W', 'CO_R', 'CO_W', 'DS_R', 'DS_W', 'TR_R', 'TR_W', 'HO_W', 'ME_W']
ST = ['VS', 'FS', 'CS', 'TR', 'CO', 'EF', 'LF']
DEF = {'SHADER_RO': (['SH_R'], ['FS']), 'GENERAL': (['SH_R', 'SH_W'], ['CS']), 'DST': (['TR_W'], ['TR'])}


def image(i, mips, layers, fmt=37):
    return {'op': 'image', 'id': i, 'type': 1, 'fmt': fmt, 'ext': [16, 16, 1], 'mips': mips, 'layers': layers, 'usage': 255, 'name': 'I%d' % i}


def fixed(s, h, mips, layers):
    ops = [{'op': 'ctx', 'id': 7}, {'op': 'graph', 'id': 9, 'name': 'g'}, image(1, mips, layers), {'op': 'cache', 'id': 8, 'ctx': 7},
           {'op': 'ucb', 'id': 6}, {'op': 'rc', 'id': 1, 'cache': 8}]
    for o in h:
        ops.append(dict(o, id=1, cb=6, img=1, vt=5, asp='C', acc=DEF[o['lay']][0], st=DEF[o['lay']][1]))
    for m in range(mips):
        for y in range(layers):
            ops.append({'op': 'rcget', 'id': 1, 'img': 1, 'vt': 1, 'asp': 'C', 'r': [m, 1, y, 1]})
    ops.append({'op': 'rcget', 'id': 1, 'img': 1, 'vt': 5, 'asp': 'C', 'r': [0, mips, 0, layers]})
    return {'s': s, 'name': 'record context history %d' % s, 'ops': ops}


def rnd(s, r):
    sep = r.random() < .2
    ops = [{'op': 'ctx', 'id': 7, 'sep': sep}, {'op': 'graph', 'id': 9, 'name': 'g'}, {'op': 'cache', 'id': 8, 'ctx': 7}, {'op': 'ucb', 'id': 6}]
    ims, views, vid = {}, {}, 200
    for i in range(1, r.randint(3, 5)):
        # aspects are not followed apart
        fmt = r.choice([37, 37, r.choice([128, 129, 129]) if not sep else 126])
        ims[i] = (fmt, r.randint(1, 3), r.randint(1, 3))
        ops.append(image(i, ims[i][1], ims[i][2], fmt))
    for b in (31, 32):
        ops.append({'op': 'buffer', 'id': b, 'n': 1, 'name': 'B%d' % b})
    recs = list(range(1, r.randint(2, 3)))
    ops += [{'op': 'rc', 'id': k, 'cache': 8} for k in recs]

    def asp(i):
        return {37: 'C', 126: 'D', 128: r.choice(['DS', 'D', 'S']), 129: r.choice(['DS', 'DS', 'D', 'S'])}[ims[i][0]]

    def rng(i, one=False):
        m, y = r.randrange(ims[i][1]), r.randrange(ims[i][2])
        return [m, 1, y, 1] if one else [m, r.randint(1, ims[i][1] - m), y, r.randint(1, ims[i][2] - y)]

    def view(i, rg, a):
        nonlocal vid
        for v, d in views.items():
            if (d['img'], d['r'], d['asp']) == (i, rg, a):
                return v
        vid += 1
        views[vid] = {'op': 'view', 'id': vid, 'img': i, 'vt': 5 if rg[3] > 1 else r.choice([1, 5]), 'fmt': ims[i][0], 'asp': a, 'r': rg}
        ops.append(views[vid])
        return vid

    def where(bar=False):
        i = r.choice(list(ims))
        rg, a = rng(i), asp(i)
        if r.random() < .5:
            return i, dict(view=view(i, rg, a))
        d = dict(img=i, asp=a, r=rg)
        if not bar or r.random() < .5:
            d['vt'] = 5 if rg[3] > 1 else 1
        return i, d

    def state(i=None):
        lays = LAYS if i is None or ims[i][0] == 37 else DLAYS
        lay = r.choice(lays)
        if lay in DEF and r.random() < .6:
            return dict(lay=lay, acc=DEF[lay][0], st=DEF[lay][1])
        return dict(lay=lay, acc=r.sample(ACC, r.randint(0, 2)), st=r.sample(ST, r.randint(1, 2)))
    # a pass whose attachments can be cleared
    tgt = [i for i in ims if ims[i][0] == 37]
    att = None
    if tgt and r.random() < .6:
        i = r.choice(tgt)
        n = r.choice([1, 2])
        vs = []
        for _ in range(n):
            v = view(i, rng(i, True), 'C')
            if v not in vs:
                vs.append(v)
        val = [r.randrange(8) / 8 for _ in range(4)]
        att = (vs, val)
        ops.append({'op': 'pass', 'id': 90, 'graph': 9, 'name': 'p', 'kind': 'custom', 'st': ['FS'], 'maxpass': len(vs),
                    'atts': [{'k': 'outColour', 'views': vs, 'val': val}]})
    for _ in range(r.randint(4, 22)):
        k = r.choice(['set', 'set', 'bar', 'bar', 'bar', 'bar', 'get', 'get', 'buf', 'buf', 'bufset', 'bufget', 'add', 'act', 'act', 'act', 'next', 'nextget'])
        t = r.choice(recs)
        if k == 'set':
            i, w = where()
            ops.append(dict(op='rcset', id=t, **w, **state(i)))
        elif k in ('get', 'nextget'):
            _, w = where()
            ops.append(dict(op='rc' + k, id=t, **w))
        elif k == 'bar':
            again = [o for o in ops if o['op'] in ('rcbar', 'rcset') and o['id'] == t]
            if again and r.random() < .3:
                # the state it has got lately, once more
                o = dict({k: v for k, v in again[-1].items() if k not in ('init', 'force')}, op='rcbar', cb=6)
            else:
                i, w = where(True)
                o = dict(op='rcbar', id=t, cb=6, **w, **state(i))
            if r.random() < .4:
                o['init'] = r.choice(['UNDEF', 'SHADER_RO', 'DST', 'GENERAL'])
            if r.random() < .2:
                o['force'] = True
            ops.append(o)
        elif k == 'bufset':
            ops.append(dict(op='rcbufset', id=t, buf=r.choice([31, 32]), acc=r.sample(ACC, r.randint(0, 2)), st=r.sample(ST, r.randint(1, 2))))
        elif k == 'bufget':
            ops.append(dict(op='rcbufget', id=t, buf=r.choice([31, 32])))
        elif k == 'buf':
            o = dict(op='rcbufbar', id=t, cb=6, buf=r.choice([31, 32]), off=r.choice([0, 16]), size=r.choice([-1, 16, 64]),
                     acc=r.choice([['SH_R'], ['SH_R', 'SH_W'], ['TR_W'], ['TR_R']]), st=r.choice([['FS'], ['CS'], ['TR']]))
            if r.random() < .4:
                o['init'] = [r.choice([['SH_W'], ['TR_W'], ['SH_R']]), r.choice([['FS'], ['CS'], ['TR']])]
            if r.random() < .2:
                o['force'] = True
            ops.append(o)
        elif k == 'add' and len(recs) > 1:
            ops.append({'op': 'rcadd', 'id': t, 'from': r.choice([x for x in recs if x != t])})
        elif k == 'next':
            ls = []
            for _ in range(r.randint(0, 2)):
                i = r.choice(list(ims))
                ls.append(dict(view=view(i, rng(i), asp(i)), **state(i)))
            st = state()
            ops.append(dict(op='rcnext', id=t, acc=st['acc'], st=st['st'], lays=ls))
        elif k == 'act':
            do = r.choice(['clear', 'clearAtt', 'copy', 'blit'])
            final = r.choice(['UNDEF', 'SHADER_RO', 'GENERAL'])
            o = dict(op='rcact', id=t, cb=6, do=do, final=final)
            if do == 'clearAtt':
                if not att:
                    continue
                o.update({'pass': 90, 'view': att[0][0], 'idx': r.randrange(len(att[0])) if len(att[0]) > 1 else r.randrange(3)})
            elif do == 'clear':
                i = r.choice(list(ims))
                o.update(view=view(i, rng(i), asp(i)), val=[r.randrange(8) / 8 for _ in range(4)] if ims[i][0] == 37 else [.5, 0], idx=0)
            else:
                c = [i for i in ims if ims[i][0] == 37] if do == 'blit' else list(ims)
                i = r.choice(c or [0])
                j = r.choice([x for x in c if ims[x][0] == ims[i][0]] or [0])
                if not i or not j:
                    continue
                a, b = rng(i, r.random() < .6), rng(j, r.random() < .6)
                if i == j and not (a[0] + a[1] <= b[0] or b[0] + b[1] <= a[0] or a[2] + a[3] <= b[2] or b[2] + b[3] <= a[2]):
                    continue
                ap = asp(i)
                o.update(src=view(i, a, ap), view=view(j, b, ap), idx=0)
                if do == 'copy':
                    o['ext'] = [r.randint(1, 9), r.randint(1, 9)]
                else:
                    o.update(so=[r.randint(0, 4), r.randint(0, 4)], se=[r.randint(1, 9), r.randint(1, 9)], do_=[r.randint(0, 4), r.randint(0, 4)],
                             de=[r.randint(1, 9), r.randint(1, 9)], filter=r.choice([0, 1]))
            ops.append(o)
    for i, (fmt, mips, layers) in ims.items():
        for t in recs:
            for m in range(mips):
                for y in range(layers):
                    if r.random() < .4:
                        ops.append({'op': 'rcget', 'id': t, 'img': i, 'vt': 1, 'asp': asp(i), 'r': [m, 1, y, 1]})
    # what a command needs must be declared before it
    order = {'ctx': 0, 'graph': 1, 'image': 2, 'cache': 2, 'buffer': 2, 'ucb': 2, 'rc': 3, 'view': 4, 'pass': 5}
    ops.sort(key=lambda o: order.get(o['op'], 9))
    return {'s': s, 'name': 'random record context history %d' % s, 'ops': ops}


def scenarios(tier, seed):
    out = []
    w = tempfile.mkdtemp(prefix='rec.')
    try:
        for cfg, m, y in [('RecGen', 2, 1)] + ([('RecGenDeep', 2, 2)] if tier != 'quick' else []):
            for h in sorted(vlib.histories(w, 'RecGen', cfg + '.cfg', workers=4), key=repr):
                out.append(fixed(len(out) + 1, h, m, y))
    finally:
        shutil.rmtree(w)
    r = random.Random(seed * 6007 + 32)
    for _ in range(700 if tier == 'quick' else 9000):
        out.append(rnd(len(out) + 1, r))
    return out


def milli(x):
    return int(round(x * 1000))


def bits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


CMD = ('Barrier', 'ClearColor', 'ClearDS', 'Blit', 'CopyImage')


def project(scn, evs):
    O = scn['ops']
    ims = [{'id': o['id'], 'depth': 1, 'mips': o['mips'], 'ds': o['fmt'] in (126, 128, 129)} for o in O if o['op'] == 'image']
    views = {o['id']: o for o in O if o['op'] == 'view'}
    passes = {o['id']: o for o in O if o['op'] == 'pass'}
    sep = [o.get('sep', False) for o in O if o['op'] == 'ctx'][0]
    handle, bufs = {}, {}
    todo = [o for o in O if o['op'].startswith('rc')]
    lids, born, ncre = {}, [], 0
    out = [{'e': 'scen', 's': scn['s'], 'images': ims, 'sep': sep}]
    lid = {ev['lid']: ev['id'] for ev in evs if ev['e'] == 'image'}
    names = {'I%d' % i['id']: i['id'] for i in ims}
    for ev in evs:
        if ev['e'] == 'Name' and ev['name'] in names:
            handle[ev['h']] = names[ev['name']]
        elif ev['e'] == 'buffer':
            bufs[ev['hs'][0]] = ev['id']

    def place(o):
        v = views.get(o.get('view'), o)
        return {'img': v['img'], 'vt': 5, 'r': v['r'], 'asp': sorted(v['asp'])}

    def norm(x):
        return sorted(x) if isinstance(x, list) else sorted(x)

    def barrier(ev):
        for b in ev['img']:
            yield 'i', {'c': 'Barrier', 'img': handle.get(b['img'], 0), 'old': b['old'], 'new': b['new'], 'sa': b['sa'], 'da': b['da'], 'ss': ev['ss'], 'ds': ev['ds'],
                        'r': b['r'], 'asp': norm(b['asp'])}
        for b in ev['buf']:
            yield 'b', {'b': bufs.get(b['b'], 0), 'sa': b['sa'], 'da': b['da'], 'ss': ev['ss'], 'ds': ev['ds'], 'off': b['off'], 'size': b['size']}
        for b in ev['mem']:
            yield 'm', {'mem': True}

    def region(x):
        y = {k: v for k, v in x.items() if k not in ('s', 'd')}
        for k in ('s', 'd'):
            y[k], y[k + 'a'] = x[k]['r'], norm(x[k]['asp'])
        return y

    def cmd(ev):
        e = ev['e']
        if e in ('ClearColor', 'ClearDS'):
            return {'c': e, 'img': handle.get(ev['img'], 0), 'dl': ev['lay'], 'val': ev['val'], 'rs': [{'r': x['r'], 'asp': norm(x['asp'])} for x in ev['rs']]}
        if e in ('Blit', 'CopyImage'):
            return {'c': e, 's': handle.get(ev['s'], 0), 'd': handle.get(ev['d'], 0), 'sl': ev['sl'], 'dl': ev['dl'], 'filter': ev.get('filter', 0), 'rs': [region(x) for x in ev['rs']]}
        return {'c': e, 'sl': '', 'dl': ''}

    cur = None
    for ev in evs:
        e = ev['e']
        if e == 'rcbarBegin':
            cur = []
        elif cur is not None and 'cb' in ev:
            cur.append(ev)
        elif e.startswith('rc'):
            o = todo.pop(0)
            assert o['op'] == e and o['id'] == ev['id']
            x = {'e': e, 'id': o['id']}
            for k in ('lay', 'acc', 'st', 'from', 'buf'):
                if k in o:
                    x[k] = o[k]
            if 's' in ev and e != 'rcnext':
                x.update(lay=ev['s'][0], acc=ev['s'][1], st=ev['s'][2])
            if e in ('rcset', 'rcget', 'rcnextget', 'rcbar'):
                x['w'] = place(o)
            if e in ('rcbar', 'rcbufbar'):
                allb = [b for c in cur if c['e'] == 'Barrier' for b in barrier(c)]
                x['bs'] = [b for k, b in allb if k == 'i']
                x['bufs'] = [b for k, b in allb if k == 'b']
                x['others'] = [{'c': c['e']} for c in cur if c['e'] != 'Barrier'] + [b for k, b in allb if k == 'm']
                x['force'] = o.get('force', False)
                x['init'] = o.get('init', 'UNDEF' if e == 'rcbar' else [[], []])
            if e == 'rcbufbar':
                x.update(off=o['off'], size=o['size'])
            if e == 'rcnext':
                x['lay'] = 'UNDEF'
                x['pipe'] = [{'lay': s[0], 'acc': s[1], 'st': s[2]} for s in ev['s']]
                x['lays'] = [{'w': place(n), 'lay': n['lay'], 'acc': n['acc'], 'st': n['st']} for n in o['lays']]
            if e == 'rcact':
                x['cmds'] = []
                for c in cur:
                    if c['e'] == 'Barrier':
                        x['cmds'] += [b if k == 'i' else {'c': 'other', 'sl': '', 'dl': ''} for k, b in barrier(c)]
                    else:
                        x['cmds'].append(cmd(c))
                do = o['do']
                ws = [place(o)]
                val = o.get('val', [])
                if do == 'clearAtt':
                    p = passes[o['pass']]['atts'][0]
                    ws = [place({'view': p['views'][0 if len(p['views']) == 1 else o['idx']]})]
                    val = p['val']
                if do in ('copy', 'blit'):
                    ws = [place({'view': o['src']})] + ws
                ds = any(i['ds'] for i in ims if i['id'] == ws[0]['img'])
                x.update(do='clear' if do == 'clearAtt' else do, ws=ws, final=o['final'], val=[milli(val[0]), bits(val[1])] if ds and val else [milli(q) for q in val],
                         p={'ext': o.get('ext', []), 'so': o.get('so', []), 'se': o.get('se', []), 'dof': o.get('do_', []), 'de': o.get('de', []), 'filter': o.get('filter', 0)})
            out.append(x)
            cur = None
    assert not todo
    return out
