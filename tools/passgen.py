"""Graphs whose passes use every kind of runnable pass with rich configurations (Objects.tla, Passes.tla)."""
import random
import decls, sync

VS_FS = lambda m: [[1, m], [16, m + 1]]
TARGETS = [k for k, x in decls.IMG.items() if x[0] in decls.ATTACHED]
KINDS = ['quad', 'quad', 'mesh', 'mesh', 'compute', 'compute', 'render', 'copy', 'blit', 'mips', 'b2i', 'i2b', 'bcopy', 'custom']


class Rich(sync.Gen):
    """kinds: pass kinds to draw from"""

    def __init__(self, s, rnd, name='random', kinds=KINDS, ctx=None):
        super().__init__(s, rnd, name)
        self.kinds = kinds
        self.module = 900
        self.mipviews = {}

    def resources(self):
        r, sc = self.rnd, self.sc
        for _ in range(r.choice([2, 3, 4])):
            m, l = r.choice([(1, 1), (1, 1), (3, 1), (5, 1), (1, 2), (3, 3)])
            im = sc.image(fmt=r.choice([37, 37, 44, 97]), ext=r.choice([[16, 16, 1], [16, 8, 1]]), mips=m, layers=l)
            self.col.append(im)
            self.image_views(im, 'C', m, l)
        if r.random() < .5:
            fmt = r.choice([124, 126, 128, 129, 130])
            im = sc.image(fmt=fmt, ext=[16, 16, 1])
            self.dep.append(im)
            self.image_views(im, 'DS' if fmt in (128, 129, 130) else 'D', 1, 1)
        for _ in range(r.choice([1, 2, 3])):
            self.bufs.append(sc.buffer(r.choice([1, 1, 2, 3])))
        self.bv = [sc.bufview() for _ in range(r.choice([0, 1, 2]))]

    def extent(self, v):
        d = self.sc.views[v]
        e = self.sc.images[d['img']]['ext']
        return tuple(max(1, x >> d['r'][0]) for x in e[:2])

    def new_module(self):
        self.module += 2
        return self.module

    def programs(self, kind, maxpass):
        n = maxpass if maxpass > 1 and self.rnd.random() < .6 else 1
        return [[[32, self.new_module()]] if kind == 'compute' else VS_FS(self.new_module()) for _ in range(n)]

    def buf_of(self, maxpass, plain=False):
        pool = [b for b in self.bufs if self.sc.buffers[b] == 1 or self.sc.buffers[b] == maxpass]
        return self.rnd.choice(pool) if pool else None

    def bindings(self, n):
        return self.rnd.sample(range(12), n)

    def descriptors(self, atts, taken, bt, maxpass, n, compute):
        r = self.rnd
        binds = self.bindings(n)
        for b in binds:
            k = r.choice(['sampled', 'sampled', 'inStorage', 'ioStorage', 'outStorage', 'buf', 'buf', 'uniform', 'bview'])
            a = None
            if k in ('buf', 'uniform', 'bview'):
                kk = {'buf': r.choice(['inBuf', 'outBuf', 'ioBuf', 'clrBuf']), 'uniform': 'uniform',
                      'bview': r.choice(['inBufView', 'ioBufView', 'uniformView', 'outBufView'])}[k]
                kw = {'bind': b}
                if k == 'bview':
                    if not self.bv:
                        continue
                    kw['bv'] = r.choice(self.bv)
                a = self.buf_att(kk, bt, maxpass, **kw)
            else:
                pool = self.col + self.dep if k == 'sampled' else self.col
                kw = {'bind': b}
                if k == 'sampled' and r.random() < .5:
                    kw['samp'] = [r.choice([0, 1]), r.choice([0, 1]), r.choice([0, 1]), r.choice([0, 1, 2]), r.choice([0, 2]), 0,
                                  r.choice([0, .5]), r.choice([-1, 0]), r.choice([1, 1000])]
                a = self.image_att(k, pool, taken, maxpass, **kw)
            if a:
                atts.append(a)

    def targets(self, atts, taken, maxpass, kind):
        """colour and depth attachments with one extent per variant; returns the extent of each variant"""
        r, sc = self.rnd, self.sc
        exts = {}
        vary = maxpass > 1 and r.random() < .6
        lays, deep = {}, r.random() < .4       # layers rendered to, per variant

        def view(i, pool, e=None, f=None):
            n = lays.get(i)
            v = self.pick(taken, pool, lambda q: sc.views[q]['r'][1] == 1 and (sc.views[q]['r'][3] == n if n else deep or sc.views[q]['r'][3] == 1)
                          and (e is None or self.extent(q) == e) and (f is None or sc.views[q]['fmt'] == f))
            if v is not None:
                lays.setdefault(i, sc.views[v]['r'][3])
            return v
        for k in range(r.choice([1, 1, 2])):
            n = maxpass if vary else 1
            vs = []
            for i in range(n):
                f = None
                if vs:
                    f = sc.views[vs[0]]['fmt']
                v = view(i, self.col, exts.get(i), f)
                if v is None:
                    break
                vs.append(v)
                exts.setdefault(i, self.extent(v))
            if len(vs) == n:
                k = r.choice(['outColour', 'ioColour', 'outColour', 'inColour'] if kind == 'render' else ['outColour', 'ioColour'])
                a = {'k': k, 'views': vs}
                if k == 'ioColour' and r.random() < .5:
                    a['blend'] = True
                if k == 'outColour':
                    a['val'] = [r.choice([0, .25, .5, 1]) for _ in range(4)]
                atts.append(a)
        if self.dep and r.random() < .4 and set(lays.values()) <= {1} and (not exts or set(exts.values()) == {(16, 16)}):
            d = r.choice(self.dep)
            k = {'D': 'Depth', 'S': 'Stencil', 'DS': 'DS'}[decls.planes(sc.images[d]['fmt'])]
            a = self.image_att(r.choice(['out', 'io', 'in']) + k, [d], taken, 1)
            if a:
                if a['k'].startswith('out'):
                    a['val'] = [r.choice([0, .5, 1]), 0, 0, 0] if k != 'Stencil' else [0, r.choice([1, 3]), 0, 0]
                atts.insert(r.randrange(len(atts) + 1), a)
                exts.setdefault(0, (16, 16))
        if len(exts) == 1 and maxpass > 1:
            exts = {i: exts[0] for i in range(maxpass)}
        return exts

    def make_pass(self, g, i, prev):
        r, sc = self.rnd, self.sc
        kind = r.choice(self.kinds)
        if kind in ('copy', 'blit', 'mips', 'b2i', 'i2b', 'bcopy', 'custom'):
            self.only = kind
            return super().make_pass(g, i, prev)
        taken, bt, atts, cfg = {}, set(), [], {}
        maxpass = r.choice([1, 1, 2, 2, 3])
        exts = {}
        if kind != 'compute':
            exts = self.targets(atts, taken, maxpass, kind)
            if not any(a['k'] in TARGETS for a in atts):
                return None
            if len(set(exts.values())) == 1 and r.random() < .6:
                cfg['size'] = list(exts[0])
        if kind in ('quad', 'mesh', 'compute'):
            cfg['progs'] = self.programs(kind, maxpass)
            cfg['layouts'] = [r.randrange(700, 720) for _ in range(r.choice([0, 0, 1, 2]))]
            if r.random() < .2 and len(cfg['progs']) == maxpass:
                cfg['creator'] = True
            if r.random() < .4:
                cfg['push'] = [32 if kind == 'compute' else 1, r.choice([0, 16]), r.choice([4, 64])]
            self.descriptors(atts, taken, bt, maxpass, r.choice([0, 1, 2, 3, 4]), kind == 'compute')
            if r.random() < .3:
                b = self.buf_of(maxpass)
                if b and b not in bt:
                    cfg['indirect'] = [b, r.choice([0, 16, 20, 32]), r.choice([0, 64])]
            if r.random() < .3 and kind != 'compute':
                cfg['pos'] = [r.choice([0, 2, 4]), r.choice([0, 1, 3])]
            if r.random() < .4 and kind != 'compute':
                cfg['ds'] = [r.choice([0, 1]), r.choice([0, 1]), r.choice([0, 1]), r.choice([1, 3, 4])]
        if kind == 'compute':
            cfg['gc'] = [r.choice([1, 2, 7]), r.choice([1, 3]), r.choice([1, 5])]
            for k in ('cbx', 'cby', 'cbz'):
                if r.random() < .35:
                    cfg[k] = True
        elif kind == 'quad':
            if r.random() < .6:
                cfg['tex'] = [r.random() < .5, r.random() < .5]
            if r.random() < .4:
                cfg['inst'] = r.choice([2, 5])
        elif kind == 'mesh':
            cfg['cull'] = r.choice([0, 1, 2, 3])
            for k in ('vb', 'ib'):
                if r.random() < .5:
                    b = self.buf_of(maxpass)
                    if b:
                        cfg[k] = b
            if 'vb' in cfg and r.random() < .7:
                cfg['vbinds'] = [[0, r.choice([12, 16, 32]), r.choice([0, 1])]]
                cfg['vattrs'] = [[n, 0, r.choice([103, 106, 109]), 8 * n] for n in range(r.choice([1, 2, 3]))]
        elif kind == 'render':
            cfg['contents'] = r.choice([0, 0, 1])
            for b in self.bindings(r.choice([0, 1])):
                a = self.image_att('sampled', self.col, taken, maxpass, bind=b)
                if a:
                    atts.append(a)
        pid = sc.next()
        o = {'kind': kind, 'cfg': cfg, 'maxpass': maxpass, 'atts': atts, 'index': r.randrange(maxpass), 'enabled': r.random() < .85,
             'resettable': kind != 'compute' and r.random() < .5 or kind == 'compute' and r.random() < .6}
        outs = [v for a in atts if 'views' in a and decls.IMG[a['k']][2] for v in a['views']]
        if outs and r.random() < .2:
            o['imp'] = [{'view': r.choice(outs), 'do': r.choice(['clear', 'mark'])}]
        sc.pass_(pid, g, None, 'p%d' % pid, **o)
        sc.passes[pid]['exts'] = exts
        self.link(pid, prev)
        return pid

    def link(self, pid, prev):
        for q in prev:
            if self.rnd.random() < .4 or q == prev[-1]:
                self.sc.op('dep', id=pid, on=q)
                self.sc.passes[pid]['deps'].append(q)

    def passkind(self):
        return self.rnd.choice(['gfx', 'comp', 'xfer', 'impl']) if self.only == 'custom' else self.only

    def graphs(self, ng=1, npass=(2, 3, 4, 5, 6)):
        """declares the graphs over disjoint images"""
        r, sc = self.rnd, self.sc
        gs = []
        keep = list(self.col), list(self.dep)
        for k in range(ng):
            if ng == 2:
                self.col = [im for n, im in enumerate(keep[0]) if n % 2 == k]
                self.dep = [im for n, im in enumerate(keep[1]) if n % 2 == k]
            g = sc.graph(name='g%d' % k)
            ps = []
            for i in range(r.choice(npass)):
                p = self.make_pass(g, i, ps)
                if p:
                    ps.append(p)
            if not ps:
                pid = sc.next()
                sc.pass_(pid, g, None, 'p%d' % pid, kind='custom', st=['FS'], maxpass=1, enabled=True, atts=[])
                ps.append(pid)
            gs.append((g, ps, {}, {}, self.col + self.dep))
        self.col, self.dep = keep
        return gs

    def state(self, p, f):
        """changes what a pass shows between frames"""
        r, sc = self.rnd, self.sc
        d = sc.passes[p]
        kw = {}
        if r.random() < .5:
            kw.update(enabled=r.random() < .8, index=r.randrange(d['maxpass']))
        if d['kind'] == 'compute' and r.random() < .5:
            kw['g'] = [r.randrange(1, 9) for _ in range(3)]
        if d['kind'] == 'mesh' and r.random() < .6:
            kw.update(prim=r.randrange(0, 30), verts=r.randrange(0, 40), itype=r.choice([0, 1]))
        if kw:
            sc.set(p, **kw)
        return kw
