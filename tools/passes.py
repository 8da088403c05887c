"""Scenarios and projection for Passes.tla (C11 C19 C20 C21 C22 C23)."""
import random, struct
from sgen import Scn
import decls, passgen

MODULE = 'Passes'
PROPS = ['C11', 'C19', 'C20', 'C21', 'C22', 'C23']
TRANSFER = ['copy', 'blit', 'mips', 'b2i', 'i2b', 'bcopy']


# ------------------------------------------------------------------ scenarios
def frames(s, rnd):
    """frames of passes with pipelines, whose variants, callbacks and programs change"""
    kinds = rnd.choice([['quad', 'mesh', 'compute', 'render'], ['compute', 'compute', 'quad'], ['quad', 'render', 'custom'], ['mesh', 'compute'],
                        ['render', 'render', 'quad', 'custom']])
    g = passgen.Rich(s, rnd, 'frames', kinds=kinds)
    sc = g.sc
    g.resources()
    gs = g.graphs(1, (1, 2, 3, 4))
    for x, ps, ins, outs, imgs in gs:
        for v in list(g.views):
            if g.views[v][0] in imgs and not g.sep and rnd.random() < .2 and sc.views[v]['r'][1] == sc.images[g.views[v][0]]['mips'] \
                    and sc.views[v]['r'][3] == sc.images[g.views[v][0]]['layers']:
                sc.op('input', id=x, view=v, lay='SHADER_RO' if g.views[v][0] in g.col else 'DS_RO')
        sc.op('compile', id=x, imap=imgs)
    ran = set()
    cur = {p: [d.get('enabled', True), d.get('index', 0)] for p, d in sc.passes.items()}
    for f in range(rnd.choice([1, 2, 3, 4, 5])):
        for x, ps, *_ in gs:
            for p in ps:
                if f:
                    kw = g.state(p, f)
                    if 'enabled' in kw:
                        cur[p] = [kw['enabled'], kw['index']]
                d = sc.passes[p]
                if d['kind'] in ('quad', 'mesh', 'compute') and f and rnd.random() < .25 and (d['kind'] != 'compute' or d.get('resettable')):
                    i = cur[p][1]
                    if (p, i) in ran:
                        prog = [] if 'creator' in d['cfg'] or rnd.random() < .3 else \
                            ([[32, g.new_module()]] if d['kind'] == 'compute' else passgen.VS_FS(g.new_module()))
                        sc.op('resetPipe', id=p, index=i, prog=prog)
            sc.op('run', id=x, wait=[])
            ran |= {(p, cur[p][1]) for p in ps if cur[p][0]}
    return sc.done()


def vec(r, lo, hi, z=0):
    return [r.randrange(lo, hi), r.randrange(lo, hi), z]


def transfers(s, rnd):
    """copies, blits and mip generation over images of every shape, each followed by users of what it wrote"""
    r = rnd
    sc = Scn(s, 'transfers')
    sc.ctx()
    sc.meta['sep'] = False
    ims = []
    for _ in range(r.choice([2, 3, 4])):
        ext = r.choice([[16, 16, 1], [16, 8, 1], [5, 3, 1], [1, 7, 1], [32, 4, 1], [1, 1, 1], [9, 9, 1]])
        top = max(ext).bit_length()
        m = r.choice([1, 2, top, top, max(1, top - 1)])
        m = min(m, top)
        l = r.choice([1, 1, 2, 3, 6])
        t = 1
        if r.random() < .12:
            t, l, ext = 2, 1, r.choice([[8, 8, 8], [4, 8, 2]])
            m = r.choice([1, 2, max(ext).bit_length()])
        fmt = r.choice([37, 44, 97]) if t == 2 or r.random() < .85 else 126
        ims.append(sc.image(fmt=fmt, ext=ext, mips=m, layers=l, type=t))
    bufs = [sc.buffer(r.choice([1, 1, 2, 3])) for _ in range(r.choice([1, 2, 3]))]
    cache = {}

    def view(im, rg):
        d = sc.images[im]
        vt = 2 if d['type'] == 2 else 5 if rg[3] > 1 else 1
        k = (im, tuple(rg))
        if k not in cache:
            cache[k] = sc.view(im, d['fmt'], decls.planes(d['fmt']), rg, vt)
        return cache[k]

    def some(im, same=None):
        d = sc.images[im]
        n = same or r.choice([1, 1, d['layers'], r.randrange(1, d['layers'] + 1)])
        if n > d['layers']:
            return None
        return [r.randrange(d['mips']), 1, r.randrange(d['layers'] - n + 1), n]
    # everything is declared before the graph
    g = sc.graph(name='g')
    ps = []
    todo = []
    for _ in range(r.choice([1, 2, 3, 4, 5])):
        kind = r.choice(TRANSFER + ['mips'])
        maxpass = r.choice([1, 1, 2, 3])
        o = {'kind': kind, 'maxpass': maxpass, 'atts': [], 'index': r.randrange(maxpass), 'enabled': True, 'cfg': {}}
        if kind == 'mips':
            n = r.choice([1, maxpass])
            vs = []
            for im in r.sample(ims, len(ims)):
                d = sc.images[im]
                k = r.choice([d['layers'], r.randrange(1, d['layers'] + 1)])
                if d['fmt'] != 126:
                    vs.append(view(im, [0, d['mips'], r.randrange(d['layers'] - k + 1), k]))
                if len(vs) == n:
                    break
            if len(vs) < n:
                vs = vs[:1]
            if not vs:
                continue
            o['atts'] = [{'k': 'ioTransfer', 'views': vs}]
            o['cfg'] = {'final': r.choice(['SHADER_RO', 'SRC', 'GENERAL'])}
        elif kind in ('copy', 'blit'):
            used = set()
            for _ in range(r.choice([1, 1, 2, 3]) if kind == 'copy' else 1):
                n = r.choice([1, maxpass])
                pair = []
                for k in ('inTransfer', 'outTransfer'):
                    vs = []
                    for i in range(n):
                        c = [im for im in ims if not pair or decls.planes(sc.images[im]['fmt']) == decls.planes(sc.images[sc.views[pair[0]['views'][0]]['img']]['fmt'])]
                        im = r.choice(c)
                        rg = some(im, sc.views[pair[0]['views'][min(i, len(pair[0]['views']) - 1)]]['r'][3] if pair else None)
                        if rg is None or sc.images[im]['type'] == 2:
                            break
                        sub = {(im, rg[0], y) for y in range(rg[2], rg[2] + rg[3])}
                        if sub & used:
                            break
                        used |= sub
                        vs.append(view(im, rg))
                    if len(vs) == n:
                        pair.append({'k': k, 'views': vs})
                if len(pair) == 2:
                    o['atts'] += pair
            if not o['atts']:
                continue
            o['cfg'] = {'ext': [r.randrange(1, 9), r.randrange(1, 9), 1]} if kind == 'copy' else \
                {'so': vec(r, 0, 5), 'se': vec(r, 1, 9, 1), 'do': vec(r, 0, 5), 'de': vec(r, 1, 9, 1), 'filter': r.choice([0, 1])}
            if kind == 'copy' and r.random() < .6:
                o['cfg']['final'] = r.choice(['SHADER_RO', 'SRC', 'GENERAL', 'DST'])
        elif kind in ('b2i', 'i2b'):
            b = r.choice([x for x in bufs if sc.buffers[x] in (1, maxpass)] or [0])
            im = r.choice(ims)
            n = r.choice([1, maxpass])
            rgs = [some(im) for _ in range(n)]
            if not b or sc.images[im]['type'] == 2 or len({str(x) for x in rgs}) < n:
                continue
            ba = {'k': 'inTBuf' if kind == 'b2i' else 'outTBuf', 'buf': b, 'off': r.choice([0, 0, 16, 64]), 'size': r.choice([64, 128, -1])}
            ia = {'k': 'outTransfer' if kind == 'b2i' else 'inTransfer', 'views': [view(im, x) for x in rgs]}
            o['atts'] = [ba, ia]
            o['cfg'] = {'io': vec(r, 0, 4), 'ie': vec(r, 1, 5, 1)}
        else:
            c = [x for x in bufs if sc.buffers[x] in (1, maxpass)]
            if len(c) < 2:
                continue
            a, b = r.sample(c, 2)
            o['atts'] = [{'k': 'inTBuf', 'buf': a, 'off': r.choice([0, 32]), 'size': 64}, {'k': 'outTBuf', 'buf': b, 'off': r.choice([0, 16]), 'size': 64}]
            o['cfg'] = {'off': r.choice([0, 8]), 'size': r.choice([16, 32])}
        todo.append(o)
        # a user of everything the pass touched
        if r.random() < .8:
            touched = sorted({sc.views[v]['img'] for a in o['atts'] if 'views' in a for v in a['views']})
            k = r.choice(['sampled', 'inTransfer', 'inStorage', 'outTransfer'])
            atts = []
            for im in touched:
                d = sc.images[im]
                kk = k if d['fmt'] != 126 or k != 'inStorage' else 'sampled'
                if kk != 'inStorage' or d['type'] != 2:
                    atts.append({'k': kk, 'views': [view(im, [0, d['mips'], 0, d['layers']])], 'bind': len(atts)})
            if atts:
                todo.append({'kind': 'custom', 'st': ['TR' if 'Transfer' in k else 'FS'], 'atts': atts, 'enabled': True, 'maxpass': 1})
    if not todo:
        todo.append({'kind': 'custom', 'st': ['FS'], 'atts': [], 'enabled': True, 'maxpass': 1})
    for im in ims:
        d = sc.images[im]
        if r.random() < .5:
            sc.op('input', id=g, view=view(im, [0, d['mips'], 0, d['layers']]), lay=r.choice(['SHADER_RO', 'DST', 'GENERAL']) if d['fmt'] != 126 else 'DS_RO')
    for o in todo:
        pid = sc.next()
        sc.pass_(pid, g, None, 'p%d' % pid, **o)
        if ps:
            sc.op('dep', id=pid, on=ps[-1])
            sc.passes[pid]['deps'].append(ps[-1])
        ps.append(pid)
    sc.op('compile', id=g, imap=ims)
    for f in range(r.choice([1, 1, 2, 3])):
        for p in ps:
            if f and r.random() < .5:
                sc.set(p, enabled=r.random() < .85, index=r.randrange(sc.passes[p]['maxpass']))
        sc.op('run', id=g, wait=[])
    return sc.done()


def scenarios(tier, seed):
    rnd = random.Random(seed * 15485863 + 5)
    q = tier == 'quick'
    out = []
    for f, n in ((frames, 320 if q else 6000), (transfers, 260 if q else 5000)):
        for _ in range(n):
            out.append(f(len(out) + 1, random.Random(rnd.random())))
    return out


# ----------------------------------------------------------------- projection
def milli(x):
    return int(round(x * 1000))


def bits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0] & 0x7FFFFFFF


BT = {'uniform': 6, 'uniformView': 4, 'inBuf': 7, 'outBuf': 7, 'clrBuf': 7, 'ioBuf': 7,
      'inBufView': 5, 'outBufView': 5, 'clrBufView': 5, 'ioBufView': 5}
DEFSAMP = [0, 0, 0, 2, 2, 2, 0, -500, 500]


class Proj:
    def __init__(self, scn):
        self.scn = scn
        self.img, self.bv, self.bind = {}, {}, {}

    def view(self, v):
        d = self.scn['views'][v]
        return [d['img'], d['vt'], d['fmt'], d['asp'], d['r']]

    def att(self, a):
        k = a['k']
        img = 'views' in a
        use, i, o, clr = (decls.IMG if img else decls.BUF)[k]
        x = dict(use=use, i=i, o=o, bind=a.get('bind', 0), vs=[], samp=[], val=[], blend=0, lay='', buf=[], bv=0, dt=-1)
        if img:
            x['vs'] = [self.view(v) for v in a['views']]
            x['lay'] = decls.layout_of(k, a.get('lay'), self.scn['meta'].get('sep', False), None)
            if use == 'sampled':
                x['dt'] = 1
                s = a.get('samp', DEFSAMP)
                x['samp'] = s[:6] + [milli(q) for q in s[6:]]
            if use == 'storage':
                x['dt'] = 3
            if 'val' in a:
                v = a['val'] + [0] * (4 - len(a['val']))
                x['val'] = [milli(q) for q in v] + [bits(v[1])]
            if 'blend' in a:
                x['blend'] = int(a['blend'])
        else:
            x['buf'] = [a['buf'], a['off'], a['size']]
            x['dt'] = BT.get(k, -1)
            x['bv'] = self.bv.get(a['bv'], -1) if 'bv' in a else 0
        return x

    def pass_(self, p, d):
        c = d.get('cfg', {})
        kind = d.get('kind', 'custom')
        atts = [self.att(a) for a in d['atts']]
        if kind in ('b2i', 'i2b') and atts and atts[0]['vs']:
            atts = atts[::-1]
        if kind == 'i2b':
            atts = atts[::-1]
        aspect = atts[0]['vs'][0][3] if kind == 'mips' else ''
        return {'id': p, 'kind': kind, 'n': d.get('maxpass', 1), 'atts': atts, 'c': {
            'progs': c.get('progs', []), 'layouts': c.get('layouts', []), 'push': [c['push']] if 'push' in c else [],
            'gc': c.get('gc', [1, 1, 1]), 'cb': [bool(c.get(k)) for k in ('cbx', 'cby', 'cbz')], 'ind': c.get('indirect', []),
            'size': c.get('size', []), 'pos': c.get('pos', [0, 0]), 'tex': c.get('tex', []), 'inst': c.get('inst', 1), 'cull': c.get('cull', 0),
            'dst': c.get('ds', []), 'vbinds': c.get('vbinds', []), 'vattrs': c.get('vattrs', []),
            'vb': c.get('vb', 0), 'ib': c.get('ib', 0), 'contents': c.get('contents', 0), 'ext': c.get('ext', []), 'final': c.get('final', 'UNDEF'),
            'so': c.get('so', []), 'se': c.get('se', []), 'dof': c.get('do', []), 'de': c.get('de', []), 'filter': c.get('filter', 0),
            'io': c.get('io', []), 'ie': c.get('ie', []), 'off': c.get('off', 0), 'sz': c.get('size', 0) if kind == 'bcopy' else 0, 'asp': aspect}}

    def obj(self, e, ev):
        h = ev['h']
        if e == 'CreateImageView':
            d = {'k': 'ImageView', 'd': [self.img.get(ev['img'], 0), ev['vt'], ev['fmt'], self.asp(ev['asp']), ev['r']]}
        elif e == 'CreateSampler':
            d = {'k': 'Sampler', 'd': [ev[x] for x in ('mag', 'min', 'mip', 'u', 'v', 'w', 'bias', 'minLod', 'maxLod')]}
        elif e == 'CreateDescriptorSetLayout':
            d = {'k': 'SetLayout', 'binds': [[b['b'], b['t'], b['n'], b['st']] for b in ev['binds']]}
        elif e == 'CreatePipelineLayout':
            d = {'k': 'PipelineLayout', 'sets': ev['sets'], 'push': ev['push']}
        elif e == 'CreateDescriptorPool':
            d = {'k': 'Pool', 'max': ev['max'], 'sizes': ev['sizes']}
        elif e == 'CreateRenderPass':
            d = {'k': 'RenderPass', 'atts': ev['atts'], 'cols': ev['subs'][0]['cols'], 'ds': ev['subs'][0]['ds']}
        elif e == 'CreateFramebuffer':
            d = {'k': 'Framebuffer', 'rp': ev['rp'], 'views': ev['views'], 'w': ev['w'], 'ht': ev['ht'], 'layers': ev['layers']}
        elif e == 'CreateGraphicsPipeline':
            d = {'k': 'graphics', **{x: ev[x] for x in ('layout', 'rp', 'subpass', 'stages', 'vps', 'scs', 'vbinds', 'vattrs', 'topo', 'cull', 'blends')},
                 'dst': [ev['dtest'], ev['dwrite'], ev['stest'], ev['dcmp']]}
        elif e == 'CreateComputePipeline':
            d = {'k': 'compute', 'layout': ev['layout'], 'stages': ev['stages']}
        else:
            return None
        return {'e': 'obj', 'h': h, 'd': d}

    @staticmethod
    def asp(a):
        return ''.join(a)

    def region(self, x):
        y = {k: v for k, v in x.items() if k not in ('s', 'd', 'i')}
        for k in ('s', 'd', 'i'):
            if k in x:
                y[k], y[k + 'a'] = x[k]['r'], self.asp(x[k]['asp'])
        return y

    def cmd(self, e, ev):
        im = lambda h: self.img.get(h, -h)
        if e == 'BindPipeline':
            return {'c': e, 'bp': ev['bp'], 'p': ev['p']}
        if e == 'BindDescriptorSets':
            return {'c': 'BindSets', 'bp': ev['bp'], 'layout': ev['layout'], 'first': ev['first'], 'sets': ev['sets'], 'dyn': ev['dyn']}
        if e == 'BindVertexBuffers':
            return {'c': 'BindVB', 'first': ev['first'], 'bs': ev['bs'], 'offs': ev['offs']}
        if e == 'BindIndexBuffer':
            return {'c': 'BindIB', 'a': [ev['b'], ev['off'], ev['t']]}
        if e == 'Dispatch':
            return {'c': e, 'a': ev['xyz']}
        if e == 'DispatchIndirect':
            return {'c': e, 'a': [ev['b'], ev['off']]}
        if e in ('Draw', 'DrawIndexed', 'DrawIndirect', 'DrawIndexedIndirect'):
            return {'c': e, 'a': ev['a']}
        if e == 'BeginRenderPass':
            return {'c': e, 'rp': ev['rp'], 'fb': ev['fb'], 'area': ev['area'], 'clears': ev['clears'], 'contents': ev['contents']}
        if e in ('EndRenderPass', 'exec', 'cfgend'):
            return {'c': e}
        if e == 'Barrier':
            return {'c': e, 'b': [{'img': im(b['img']), 'new': b['new'], 'r': b['r']} for b in ev['img']]}
        if e == 'Blit':
            return {'c': e, 's': im(ev['s']), 'sl': ev['sl'], 'd': im(ev['d']), 'dl': ev['dl'], 'filter': ev['filter'], 'rs': [self.region(x) for x in ev['rs']]}
        if e == 'CopyImage':
            return {'c': e, 's': im(ev['s']), 'sl': ev['sl'], 'd': im(ev['d']), 'dl': ev['dl'], 'rs': [self.region(x) for x in ev['rs']]}
        if e == 'CopyB2I':
            return {'c': e, 's': ev['s'], 'sl': 'SRC', 'd': im(ev['d']), 'dl': ev['dl'], 'rs': [self.region(x) for x in ev['rs']]}
        if e == 'CopyI2B':
            return {'c': e, 's': im(ev['s']), 'sl': ev['sl'], 'd': ev['d'], 'dl': 'DST', 'rs': [self.region(x) for x in ev['rs']]}
        if e == 'CopyBuffer':
            return {'c': e, 's': ev['s'], 'd': ev['d'], 'rs': ev['rs']}
        return None

    def run(self, evs):
        scn = self.scn
        for ev in evs:
            if ev['e'] == 'imap':
                self.img[ev['h']] = ev['id']
            elif ev['e'] == 'bufview':
                self.bv[ev['id']] = ev['h']
        resets = [o for o in scn['ops'] if o['op'] == 'resetPipe']
        out = [{'e': 'scen', 's': scn['s'], 'passes': [self.pass_(p, d) for p, d in scn['passes'].items()],
                'images': [{'id': i, 'fmt': d['fmt'], 'ext': d['ext'], 'mips': d['mips'], 'layers': d['layers'], 'samples': d.get('samples', 1)}
                           for i, d in scn['images'].items()]}]
        stop = False
        for ev in evs:
            e = ev['e']
            if e == 'teardown':
                break
            if e == 'buffer':
                out.append({'e': e, 'id': ev['id'], 'hs': ev['hs']})
            elif e == 'set':
                out.append({k: ev[k] for k in ('e', 'p', 'g', 'prim', 'verts', 'itype')})
            elif e == 'resetPipe':
                o = resets.pop(0)
                out.append({'e': 'reset', 'p': ev['p'], 'i': ev['idx'], 'prog': o['prog']})
            elif e == 'BindBufferMemory':
                self.bind[ev['mem']] = ev['b']
            elif e == 'UnmapMemory' and ev['mem'] in self.bind:
                out.append({'e': 'data', 'h': self.bind[ev['mem']], 'data': ev['data']})
            elif e == 'AllocateDescriptorSets':
                out.append({'e': 'alloc', 'pool': ev['pool'], 'layouts': ev['layouts'], 'sets': ev['sets']})
            elif e == 'UpdateDescriptorSets':
                out.append({'e': 'update', 'ws': ev['ws']})
            elif e == 'begin':
                out.append({'e': 'begin', 'p': ev['p'], 'i': ev['idx']})
            elif e == 'end':
                out.append({'e': 'end', 'p': ev['p']})
            elif e == 'runEnd':
                out.append({'e': 'runEnd'})
            elif e.startswith('Create'):
                o = self.obj(e, ev)
                if o:
                    out.append(o)
            elif e.startswith('Destroy') and 'h' in ev:
                out.append({'e': 'del', 'h': ev['h']})
            elif 'cb' in ev:
                c = self.cmd(e, ev)
                if c:
                    out.append({'e': 'cmd', **c})
        return out


def project(scn, evs):
    return Proj(scn).run(evs)
