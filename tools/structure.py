"""Programs of passes for the compiled transition graph, its export, merged views and attachment reports."""
import random, re, shutil, tempfile
import vlib
from decls import IMG, BUF, planes

MODULE = 'Structure'
PROPS = ['C24', 'C26', 'C27', 'C30']
LAYS = ['GENERAL', 'COLOR', 'DS_ATT', 'DS_RO', 'SHADER_RO', 'SRC', 'DST', 'D_ATT', 'D_RO', 'S_ATT', 'S_RO', 'PRESENT']
ACC = ['INDIRECT', 'INDEX', 'VATTR', 'UNIFORM', 'SH_R', 'SH_W', 'TR_R', 'TR_W']
ST = ['DI', 'VI', 'VS', 'FS', 'CS', 'TR']
COLOUR_KINDS = [k for k in IMG if IMG[k][0] in ('sampled', 'storage', 'transfer', 'none', 'colour')] + ['implC']
D_KINDS = [k for k in IMG if IMG[k][0] == 'depth'] + ['implD', 'sampled', 'inTransfer']
S_KINDS = [k for k in IMG if IMG[k][0] == 'stencil']
DS_KINDS = [k for k in IMG if IMG[k][0] == 'ds'] + ['implDS']


class B:
    def __init__(self, s, name):
        self.s, self.name, self.ops, self.n = s, name, [], 0
        self.decl = {}       # pass -> attachment declarations
        self.im, self.vw = {}, {}

    def id(self):
        self.n += 1
        return self.n

    def op(self, op, **kw):
        self.ops.append(dict(op=op, **kw))
        return kw.get('id')

    def image(self, fmt=37, mips=1, layers=1, depth=1, typ=1, flags=0):
        i = self.id()
        self.im[i] = dict(id=i, depth=depth, mips=mips, fmt=fmt, layers=layers)
        return self.op('image', id=i, type=typ, fmt=fmt, ext=[16, 16, depth], mips=mips, layers=layers, usage=255, flags=flags, name='I%d' % i)

    def view(self, img, r, vt=5, asp=None, fmt=None):
        i = self.id()
        fmt = fmt or self.im[img]['fmt']
        self.vw[i] = dict(img=img, r=r, vt=vt, asp=asp or planes(fmt), fmt=fmt)
        return self.op('view', id=i, img=img, vt=vt, fmt=fmt, asp=self.vw[i]['asp'], r=r, name='V%d' % i)

    def buffer(self, n=1):
        i = self.id()
        return self.op('buffer', id=i, n=n, name='B%d' % i)

    def passe(self, g, atts, deps=(), group=0, kind='custom'):
        i = self.id()
        self.op('pass', id=i, graph=g, name='P%d' % i, kind=kind, atts=atts, deps=list(deps), compute=kind == 'compute', **({'group': group} if group else {}))
        return i

    def scn(self):
        return {'s': self.s, 'name': self.name, 'ops': self.ops}


def img_att(r, kind, views, bind):
    a = {'k': kind, 'views': views, 'bind': bind}
    if kind.startswith('impl'):
        a['lay'] = r.choice(LAYS)
    return a


def buf_att(r, b, kind, buf, bind, off=0, size=-1):
    a = {'k': kind, 'buf': buf, 'bind': bind, 'off': off, 'size': size}
    if kind.startswith('impl'):
        a.update(acc=r.sample(ACC, r.randint(1, 2)), st=r.sample(ST, r.randint(1, 2)))
    if kind.endswith('View'):
        a['bv'] = b.op('bufview', id=b.id())
    return a


def dots(r, b, g, full=False):
    cfgs = [(w, c, i, gr, sp, si) for w in ('passes', 'transitions') for c in (0, 1) for i in (0, 1) for gr in (0, 1) for sp in (0, 1) for si in (0, 1)]
    for w, c, i, gr, sp, si in (cfgs if full else r.sample(cfgs, 3)):
        b.op('dot', id=g, what=w, colours=bool(c), ids=bool(i), groups=bool(gr), split=bool(sp), single=bool(si))


IMGK = {'r': ['sampled', 'inStorage', 'inTransfer', 'inColour', 'implC'], 'w': ['outStorage', 'outTransfer', 'outColour', 'clrStorage'],
        'rw': ['ioStorage', 'ioColour', 'ioTransfer', 'clrTransfer'], 'm': ['sampled', 'inStorage', 'inTransfer'], 'x': ['outStorage', 'outTransfer']}
DSK = {'r': ['sampled', 'inDepth', 'inTransfer', 'implD'], 'w': ['outDepth', 'outTransfer'], 'rw': ['ioDepth', 'ioTransfer'], 'm': ['sampled', 'inTransfer'], 'x': ['outStencil', 'outTransfer', 'ioStencil']}
BUFK = {'r': ['inBuf', 'inBufView', 'inTBuf', 'uniform', 'uniformView', 'implBuf'], 'w': ['outBuf', 'outBufView', 'outTBuf', 'clrBuf'], 'rw': ['ioBuf', 'ioTBuf', 'clrTBuf', 'ioBufView'],
        'm': ['inBuf', 'inTBuf'], 'x': ['outBuf', 'outTBuf']}


def enumerated(s, progs, r):
    """Programs enumerated by TLC, several graphs per scenario."""
    b = B(s, 'programs of StructGen')
    b.op('ctx', id=1)
    b.n = 1
    for p in progs:
        g = b.op('graph', id=b.id(), name='G%d' % (b.n))
        if r.random() < .3:
            # what is disjoint is the other aspect of the image
            kinds = DSK
            im = b.image(fmt=r.choice([128, 129, 130]), mips=2, layers=1)
            v = {'a': b.view(im, [0, 2, 0, 1], asp='D'), 'm': b.view(im, [1, 1, 0, 1], asp='D'), 'x': b.view(im, [0, 2, 0, 1], asp='S')}
        else:
            kinds = IMGK
            im = b.image(mips=2, layers=2)
            v = {'a': b.view(im, [0, 2, 0, 1]), 'm': b.view(im, [1, 1, 0, 1]), 'x': b.view(im, [0, 2, 1, 1])}
        b1, b2 = b.buffer(), b.buffer()
        n = len(p['use'])
        order = list(range(n))
        late = r.random() < .5
        if late:
            r.shuffle(order)
        ids = {}
        for k in order:
            u = p['use'][k]
            atts = []
            if u != '-':
                atts.append(img_att(r, r.choice(kinds[u]), [v.get(u, v['a'])], 0))
                atts.append(buf_att(r, b, r.choice(BUFK[u]), b2 if u == 'x' else b1, 1, *((16, 16) if u == 'm' else (0, -1))))
            ids[k] = b.passe(g, atts, [] if late else [ids[q - 1] for q in p['dep'][k]])
        if late:
            for k in order:
                for q in r.sample(p['dep'][k], len(p['dep'][k])):
                    b.op('dep', id=ids[k], on=ids[q - 1])
        b.op('compile', id=g, ctx=1)
        b.op('transitions', id=g)
        if r.random() < .3:
            dots(r, b, g)
    return b.scn()


def rnd(s, r):
    b = B(s, 'random program')
    b.op('ctx', id=1)
    b.n = 1
    g = b.op('graph', id=b.id(), name='GR')
    ims = []
    for _ in range(r.randint(1, 3)):
        t = r.random()
        if t < .2:
            ims.append(b.image(fmt=37, depth=r.choice([4, 8]), mips=r.randint(1, 3), typ=2))
        elif t < .4:
            ims.append(b.image(fmt=r.choice([128, 129, 130, 126, 125]), layers=r.randint(1, 2)))
        else:
            ims.append(b.image(fmt=37, mips=r.randint(1, 4), layers=r.randint(1, 4)))
    pool = {}
    for i in ims:
        im = b.im[i]
        vs = []
        for _ in range(r.randint(1, 5)):
            if im['depth'] > 1:
                m = r.randrange(im['mips'])
                sl = max(1, im['depth'] >> m)
                y = r.randrange(sl)
                vs.append(b.view(i, *r.choice([([0, im['mips'], 0, 1], 2), ([m, 1, 0, 1], 2), ([m, 1, y, r.randint(1, sl - y)], 5), ([m, 1, y, 1], 1)])))
            else:
                m, y = r.randrange(im['mips']), r.randrange(im['layers'])
                rr = r.choice([[0, im['mips'], 0, im['layers']], [m, 1, 0, im['layers']], [m, 1, y, 1], [m, r.randint(1, im['mips'] - m), y, r.randint(1, im['layers'] - y)]])
                asp = r.choice(['DS', 'D', 'S', 'DS']) if planes(im['fmt']) == 'DS' else planes(im['fmt'])
                vs.append(b.view(i, rr, 5 if rr[3] > 1 else r.choice([1, 5]), asp))
        # a pass does not use one view under two ids
        pool[i] = list({repr(sorted(b.vw[v].items())): v for v in vs}.values())
    bufs = [b.buffer(r.choice([1, 1, 2])) for _ in range(r.randint(0, 2))]
    groups, names = [0], ['ga', 'gb', 'gc']
    par = {}
    for _ in range(r.randint(0, 4)):
        p = r.choice(groups)
        nm = r.choice(names)
        if (p, nm) in par:
            continue
        i = b.id()
        b.op('group', id=i, name=nm, **({'parent': p} if p else {'graph': g}))
        par[(p, nm)] = i
        groups.append(i)
    n = r.randint(2, 7)
    ids, deps = [], {}
    perm = r.random() < .5
    pend = []
    for k in range(n):
        atts, used = [], set()
        i = b.n + 1
        for bind in range(r.choice([0, 1, 1, 2, 2, 3])):
            im = r.choice(ims)
            nv = r.choice([1, 1, 1, 2])
            cand = [v for v in pool[im] if v not in used]
            if cand and r.random() < .75:
                v0 = r.choice(cand)
                asp = b.vw[v0]['asp']
                kinds = {'C': COLOUR_KINDS, 'D': D_KINDS, 'S': S_KINDS, 'DS': DS_KINDS}[asp]
                views = [v0] + [v for v in cand if v != v0 and b.vw[v]['asp'] == asp][:nv - 1]
                used |= set(views)
                atts.append(img_att(r, r.choice(kinds), views, bind))
            elif bufs:
                off = r.choice([0, 0, 16, 32])
                atts.append(buf_att(r, b, r.choice(list(BUF)), r.choice(bufs), bind, off, r.choice([-1, 16, 8])))
        # an attachment over a merged view
        d = [q for q in ids if r.random() < .4]
        p = b.passe(g, atts, [] if perm else d, r.choice(groups))
        if r.random() < .25:
            im = r.choice(ims)
            vs = [v for v in pool[im] if v not in used]
            if len(vs) > 1:
                src = r.sample(vs, r.randint(2, min(3, len(vs))))
                asp = set(b.vw[v]['asp'] for v in src)
                m = b.id()
                b.op('merge', id=m, pass_=0, views=src)
                b.ops[-1]['pass'] = p
                del b.ops[-1]['pass_']
                kind = r.choice([k for k in ('outStorage', 'inStorage', 'sampled', 'ioStorage')]) if asp == {'C'} else 'sampled'
                b.op('att', id=p, att=img_att(r, kind, [m], 9))
        if perm:
            pend += [(p, q) for q in d]
        ids.append(p)
    r.shuffle(pend)
    for p, q in pend:
        b.op('dep', id=p, on=q)
    for p in ids:
        b.op('attinfo', id=p)
    b.op('compile', id=g, ctx=1)
    b.op('transitions', id=g)
    dots(r, b, g, r.random() < .15)
    return b.scn()


def merges(s, r):
    b = B(s, 'merged views')
    b.op('ctx', id=1)
    b.n = 1
    g = b.op('graph', id=b.id(), name='GR')
    for _ in range(r.randint(2, 5)):
        ds = r.random() < .3
        d3 = not ds and r.random() < .2
        mips, layers = r.randint(1, 5), (1 if d3 else r.randint(1, 12))
        flat = not ds and not d3 and r.random() < .15
        cube = not flat and layers >= 6 and r.random() < .7
        im = b.image(fmt=129 if ds else 37, mips=mips, layers=layers, depth=8 if d3 else 1, typ=2 if d3 else 0 if flat else 1, flags=16 if cube else 0)
        cubes = cube and r.random() < .3
        n = r.randint(1, 5)
        vs = []
        for _ in range(n):
            m, y = r.randrange(mips), r.randrange(layers)
            k = r.random()
            rr = [m, 1, y, 1] if k < .5 else [m, r.randint(1, mips - m), y, r.randint(1, layers - y)] if k < .9 else [0, mips, 0, layers]
            vt = 2 if d3 else (1 if rr[3] == 1 and r.random() < .6 else 5)
            if cubes:
                rr, vt = rr[:2] + [6 * r.randrange(layers // 6), 6], 3
            if flat:
                vt = {1: 0, 5: 4}[vt]
            vs.append(b.view(im, rr, vt, r.choice(['D', 'S', 'DS']) if ds else 'C'))
        if layers >= 6 and not cubes and r.random() < .5:
            q = r.choice([0, 0, layers % 6])
            vs += [b.view(im, [0, 1, y, 1], 0 if flat else 1, r.choice(['D', 'DS']) if ds else 'C') for y in range(q, min(layers, q + r.choice([5, 6, 6, 7, 12])))]
        first = b.vw[vs[0]]['asp']
        kind = {'C': r.choice(['sampled', 'inStorage', 'outStorage', 'ioStorage', 'inColour', 'outColour', 'ioColour', 'inTransfer', 'outTransfer', 'clrStorage']),
                'D': r.choice(D_KINDS), 'S': r.choice(S_KINDS), 'DS': r.choice(DS_KINDS)}[first]
        p = b.passe(g, [img_att(r, kind, [vs[0]] if r.random() < .6 else list(dict.fromkeys(vs)), r.randint(0, 7))])
        m = b.id()
        b.ops.append({'op': 'merge', 'id': m, 'pass': p, 'views': vs})
        if r.random() < .3:
            b.ops[-1].update(mm=False, ml=cubes or r.random() < .5)
        elif not cubes and r.random() < .3:
            b.ops[-1].update(ml=False)
        for k in range(len(vs)):
            b.op('resolve', view=m, index=k)
        b.op('resolve', view=r.choice(vs), index=r.randint(0, 3))
        b.ops.append({'op': 'mergeatt', 'pass': p, 'view': m, 'i': 0})
        b.op('attinfo', id=p)
        b.op('att', id=p, att=img_att(r, 'sampled' if ds else r.choice(['sampled', 'outStorage']), [m], 30))
        b.op('attinfo', id=p)
    return b.scn()


def attachments(s, r):
    """Every way of declaring an attachment, on its own pass."""
    b = B(s, 'every declaration')
    b.op('ctx', id=1)
    b.n = 1
    g = b.op('graph', id=b.id(), name='GR')
    for kind in list(IMG) + [('implC', y) for y in LAYS] + [('implDS', y) for y in LAYS if 'S' in y or 'D' in y]:
        lay = None
        if isinstance(kind, tuple):
            kind, lay = kind
        use = IMG[kind][0]
        ds = kind in ('implD', 'implDS') or use in ('depth', 'stencil', 'ds')
        fmt = r.choice([128, 129, 130]) if ds else 37
        im = b.image(fmt=fmt, layers=3)
        asp = ('D' if kind == 'implD' or use == 'depth' else 'S' if use == 'stencil' else 'DS') if ds else 'C'
        views = [b.view(im, [0, 1, k, 1], 1, asp) for k in range(r.choice([1, 1, 2, 3]))]
        a = img_att(r, kind, views, r.randint(0, 9))
        if lay:
            a['lay'] = lay
        p = b.passe(g, [a], kind=r.choice(['custom', 'compute']) if not ds else 'custom')
        b.op('attinfo', id=p)
    for kind in BUF:
        bu = b.buffer(r.choice([1, 1, 2]))
        p = b.passe(g, [buf_att(r, b, kind, bu, r.randint(0, 9), r.choice([0, 4, 64]), r.choice([-1, 4, 256]))])
        b.op('attinfo', id=p)
    return b.scn()


def scenarios(tier, seed):
    out = []
    quick = tier == 'quick'
    r = random.Random(seed * 104729 + 24)
    w = tempfile.mkdtemp(prefix='str.')
    try:
        progs = sorted(vlib.histories(w, 'StructGen', 'StructGen.cfg' if quick else 'StructGenDeep.cfg', workers=4), key=repr)
    finally:
        shutil.rmtree(w)
    for k in range(0, len(progs), 12):
        out.append(enumerated(len(out) + 1, progs[k:k + 12], r))
    for _ in range(10 if quick else 40):
        out.append(attachments(len(out) + 1, r))
    for _ in range(80 if quick else 800):
        out.append(merges(len(out) + 1, r))
    for _ in range(350 if quick else 4000):
        out.append(rnd(len(out) + 1, r))
    return out


COMBINED = ['inOut', 'uview', 'sview', 'trview', 'tbufIn', 'tbufOut', 'colIn', 'colOut', 'colInOut', 'depIn', 'depOut', 'depInOut', 'stInOut',
            'dsIn', 'dsOut', 'dsInOut', 'ds', 'trIn', 'trOut', 'sgIn', 'sgOut']
FACTS = ['image', 'buffer', 'in', 'out', 'nt', 'clr', 'sampled', 'storage', 'transfer', 'transition', 'depth', 'stencil', 'colour', 'clrImg', 'clrBuf', 'sin', 'sout', 'ubuf', 'sbuf', 'tbuf', 'trbuf', 'bview']
NODE = re.compile(r'^("(?:[^"\\]|\\.)*")\s*(?:->\s*("(?:[^"\\]|\\.)*")\s*)?(\[.*\])?\s*;?$')


def parse_dot(texts, pids):
    nodes, edges, ok, tid = [], [], True, {}

    def key(name):
        name = name[1:-1]
        if 'ransition to\\n' in name:
            return ['T', tid.setdefault(name, len(tid) + 1)]
        if name.startswith('External'):
            return ['X', 1 if 'Source' in name else 2]
        pid = pids.get(name.split('/')[-1])
        return ['P', pid] if pid else ['?', 0]
    for text in texts:
        stack = []
        for ln in text.splitlines():
            ln = ln.strip()
            if not ln:
                continue
            if ln.startswith('digraph'):
                ok &= not stack and ln.endswith('{')
                m = re.match(r'digraph\s+"([^"]*)"', ln)
                stack.append(m.group(1) if m else None)
            elif ln.startswith('subgraph'):
                ok &= bool(stack) and ln.endswith('{')
                stack.append('?')
            elif re.match(r'\w+\s*=', ln):
                if ln.startswith('label') and stack:
                    stack[-1] = ln.split('"')[1]
            elif ln == '}':
                ok &= bool(stack)
                if stack:
                    stack.pop()
            else:
                m = NODE.match(ln)
                if not m or not stack:
                    ok = False
                    continue
                if m.group(2):
                    lab = re.search(r'label\s*=\s*"([^"]*)"', m.group(3) or '')
                    edges.append({'f': key(m.group(1)), 't': key(m.group(2)), 'lab': lab.group(1) if lab else ''})
                else:
                    k = key(m.group(1))
                    nodes.append({'k': k[0], 'id': k[1], 'groups': [x for x in stack if x is not None]})
        ok &= not stack
    return nodes, edges, bool(ok)


def project(scn, evs):
    out = [{'e': 'scen', 's': scn['s']}]
    ims, views, lidname, bname = {}, {}, {}, {}
    gname, groups, passes = {}, {}, {}

    def sources(vid):
        """library views behind a view of the scenario"""
        x = views[vid]
        return [views_by_lid[q] for q in x['src']] if x['src'] else [x]
    views_by_lid = {}
    vev = {}
    bev = {}
    mev = {}
    for e in evs:
        if e['e'] == 'view':
            vev[e['id']] = e
        elif e['e'] == 'merge':
            mev[e['id']] = e
        elif e['e'] == 'buffer':
            bev[e['id']] = e

    # ---- declarations
    for o in scn['ops']:
        k = o['op']
        if k == 'image':
            ims[o['id']] = {'id': o['id'], 'depth': o['ext'][2], 'mips': o['mips'], 'cube': bool(o['flags'] & 16)}
        elif k == 'view' and o['id'] in vev:
            e = vev[o['id']]
            x = {'lid': e['lid'], 'img': o['img'], 'vt': o['vt'], 'fmt': o['fmt'], 'asp': list(o['asp']), 'r': o['r'], 'src': [], 'key': o['id']}
            views[o['id']] = x
            views_by_lid.setdefault(e['lid'], x)
            lidname.setdefault(e['lid'], o['name'])
        elif k == 'merge' and o['id'] in mev:
            e = mev[o['id']]
            srcs = [views[v] for v in o['views']]
            views[o['id']] = {'lid': e['d']['id'], 'img': srcs[0]['img'], 'vt': e['d']['vt'], 'fmt': e['d']['fmt'], 'asp': e['d']['asp'], 'r': e['d']['r'], 'src': [s['lid'] for s in srcs], 'key': o['id']}
            views_by_lid.setdefault(e['d']['id'], views[o['id']])
        elif k == 'buffer':
            bname[o['id']] = o['name']
        elif k == 'graph':
            gname[o['id']] = o['name']
        elif k == 'group':
            groups[o['id']] = (o.get('parent', 0), o['name'])
        elif k == 'pass':
            passes[o['id']] = {'g': o['graph'], 'name': o['name'], 'group': o.get('group', 0), 'deps': list(o['deps']), 'atts': list(o['atts'])}
        elif k == 'dep':
            passes[o['id']]['deps'].append(o['on'])
    # key of a view as the runner reports it: the first scenario view with that library view
    first_key = {}
    for v in sorted(views):
        first_key.setdefault(views[v]['lid'], v)
    keys = {v: first_key[views[v]['lid']] for v in views}
    pids = {p['name']: i for i, p in passes.items()}

    def path(p):
        r, q = [], p['group']
        while q:
            r.insert(0, groups[q][1])
            q = groups[q][0]
        return [gname[p['g']]] + r

    def use(x):
        return {'res': 'v', 'lid': x['lid'], 'im': ims[x['img']], 'fmt': x['fmt'], 'asp': x['asp'], 'vt': x['vt'], 'r': x['r']}

    def uses(p):
        o, i = [], []
        for a in p['atts']:
            if 'views' in a:
                _, inn, ou, _ = IMG[a['k']]
                us = [use(x) for x in sources(a['views'][0])]
            else:
                _, inn, ou, _ = BUF[a['k']]
                us = [{'res': 'b', 'buf': a['buf'], 'off': a['off'], 'size': a['size']}]
            if inn:
                i += us
            if ou:
                o += us
        return o, i

    def decl(p, a):
        im = 'views' in a
        u, inn, ou, clr = (IMG if im else BUF)[a['k']]
        if a['k'] == 'ioTransferNT':
            u = 'transfer'
        d = {'use': u, 'image': im, 'in': inn, 'out': ou, 'clear': clr, 'nt': a['k'] == 'ioTransferNT', 'wanted': a.get('lay', ''), 'acc': a.get('acc', []), 'st': a.get('st', []),
             'bind': a.get('bind', -1), 'view': a['k'].endswith('View'), 'owner': p}
        d['res'] = [keys[v] for v in a['views']] if im else [bev[a['buf']]['hs'], a['off'], a['size']]
        return d

    def got(e):
        g = {'facts': [f for f in FACTS if e.get(f)], 'more': [f for f in COMBINED if e.get(f)], 'acc': e['acc'], 'stG': e['stG'], 'stC': e['stC'], 'dt': e['dt'], 'bind': e['bind'], 'owner': e['owner']}
        if e['image']:
            g.update(lay0=e['lay0'], lay1=e['lay1'], ops=e['ops'], res=e['views'])
        else:
            g['res'] = [e['bufs'], e['range'][0], e['range'][1]]
        return g

    # ---- the run
    late = {i: list(p['atts']) for i, p in passes.items()}   # attachments declared so far
    ops = scn['ops']

    def flat(t):
        r = []
        for a, c, data, ol, il in t['v']:
            r.append({'a': a, 'c': c, 'res': 'v', 'data': data, 'o': ol, 'i': il, 'label': lidname.get(data, '?')})
        for a, c, bu in t['b']:
            r.append({'a': a, 'c': c, 'res': 'b', 'data': bu, 'o': bu, 'i': bu, 'label': bname.get(bu, '?')})
        return r
    # walk operations and events together
    ei = 0

    def take(*names):
        nonlocal ei
        while ei < len(evs):
            e = evs[ei]
            ei += 1
            if e['e'] in names:
                return e
        raise ValueError('missing ' + '/'.join(names))

    def many(name):
        """consecutive events of that name"""
        nonlocal ei
        r = []
        while ei < len(evs) and evs[ei]['e'] == name:
            r.append(evs[ei])
            ei += 1
        return r
    for o in ops:
        k = o['op']
        if k == 'merge':
            e = take('merge', 'opthrow')
            out.append({'e': 'merge', 'mm': bool(o.get('mm', True)), 'ml': bool(o.get('ml', True)), 'srcs': [dict(views[v], cube=ims[views[v]['img']]['cube']) for v in o['views']],
                        'got': {'img': views[o['views'][0]]['img'] if e['d']['img'] == vev[o['views'][0]]['d']['img'] else 0, 'fmt': e['d']['fmt'], 'r': e['d']['r'], 'asp': e['d']['asp'], 'vt': e['d']['vt'], 'src': e['d']['src']}})
        elif k == 'resolve':
            e = take('resolved')
            x = views[o['view']]
            out.append({'e': 'resolved', 'view': keys[o['view']], 'index': o['index'], 'got': e['got'], 'srcs': [first_key[q] for q in x['src']]})
        elif k == 'mergeatt':
            e = take('mergedAtt')
            d = decl(o['pass'], late[o['pass']][o['i']])
            out.append({'e': 'mergedAtt', 'want': {'view': keys[o['view']], 'n': 1, 'in': d['in'], 'out': d['out'], 'bind': -2 if d['use'] in ('transfer', 'impl', 'colour', 'depth', 'stencil', 'ds') else d['bind']},
                        'got': {'view': e['view'], 'n': e['n'], 'in': e['in'], 'out': e['out'], 'bind': -2 if d['use'] in ('transfer', 'impl', 'colour', 'depth', 'stencil', 'ds') else e['bind']}})
        elif k == 'att':
            late[o['id']].append(o['att'])
            passes[o['id']]['atts'].append(o['att'])
        elif k == 'attinfo':
            ds = [decl(o['id'], a) for a in late[o['id']]]
            got_ = []
            if ds:
                got_.append(take('attach'))
                while ei < len(evs) and evs[ei]['e'] == 'attach' and evs[ei]['p'] == got_[-1]['p'] and evs[ei]['i'] > got_[-1]['i']:
                    got_.append(evs[ei])
                    ei += 1
            out.append({'e': 'attCount', 'want': len(ds), 'got': len(got_)})
            rest = [got(e) for e in got_]
            # attachments are told apart by the resource they hold, then by their kind
            for d in ds:
                c = [g for g in rest if g['res'] == d['res'] and ('in' in g['facts']) == d['in'] and ('out' in g['facts']) == d['out']] or [g for g in rest if g['res'] == d['res']] or rest
                if d['image'] is False:
                    c = sorted(c, key=lambda g: g['bind'] != d['bind'])
                if c:
                    rest.remove(c[0])
                    if d['image'] == ('lay0' in c[0]):
                        out.append({'e': 'attach', 'decl': d, 'got': c[0]})
                    else:
                        out.append({'e': 'attCount', 'want': 1, 'got': 0})
        elif k == 'transitions':
            t = take('transitions')
            edges = many('edge')
            take('edgesEnd')
            g = o['id']
            ps = []
            for i, p in passes.items():
                if p['g'] == g:
                    ou, inn = uses(p)
                    ps.append({'p': i, 'deps': p['deps'], 'outs': ou, 'ins': inn, 'groups': path(p)})
            out.append({'e': 'prog', 'g': g, 'passes': ps})
            et = []
            for e in edges:
                et += flat(e['t'])
            out.append({'e': 'trans', 'g': g, 'ts': flat(t['t']), 'es': [{'a': e['a'], 'c': e['b']} for e in edges], 'et': et, 'nodes': sorted({e['b'] for e in edges})})
        elif k == 'dot':
            tx = {}
            while True:
                e = take('dot', 'dotEnd')
                if e['e'] == 'dotEnd':
                    break
                tx[e['key']] = e['text']
            if o['single'] or o['split']:
                sel = list(tx.values())
            else:
                sel = [tx.get('', '?')]
            n, es, ok = parse_dot(sel, pids)
            out.append({'e': 'dot', 'g': o['id'], 'what': o['what'], 'groups': o['groups'], 'split': o['split'], 'nodes': n, 'edges': es, 'ok': ok and not any(x['k'] == '?' for x in n)})
    return out
