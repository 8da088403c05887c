"""Scenarios and projection for Sync.tla (C04 C05 C06 C07 C08 C10)."""
import random, shutil, tempfile
from sgen import Scn
import decls, vlib

MODULE = 'Sync'
PROPS = ['C04', 'C05', 'C06', 'C07', 'C08', 'C10']
EXTERNAL = ['SHADER_RO', 'SRC', 'COLOR', 'GENERAL', 'DST', 'DS_ATT', 'DS_RO']
SHBUF = ['inBuf', 'inBuf', 'ioBuf', 'ioBuf', 'outBuf', 'outBuf', 'clrBuf', 'uniform', 'inBufView', 'outBufView', 'ioBufView', 'clrBufView',
         'uniformView', 'implBuf', 'implBufView']
# accesses and stages a buffer is explicitly transitioned to
WANTED = [(['INDIRECT'], ['DI']), (['INDEX'], ['VI']), (['VATTR'], ['VI']), (['VATTR', 'INDEX'], ['VI']), (['UNIFORM'], ['VS']),
          (['SH_R'], ['VS', 'FS']), (['SH_R'], ['CS']), (['TR_R'], ['TR']), (['SH_R', 'INDIRECT'], ['CS', 'DI'])]


# ------------------------------------------------------------------ generator
class Gen:
    def __init__(self, s, rnd, name='random'):
        self.rnd = rnd
        self.sc = Scn(s, name)
        self.sep = rnd.random() < .15
        self.sc.ctx(sep=self.sep)
        self.sc.meta['sep'] = self.sep
        self.col, self.dep, self.bufs = [], [], []
        self.views = {}      # view id -> (image, frozenset of (mip, layer))
        self.mergedviews = set()

    def resources(self):
        r, sc = self.rnd, self.sc
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            m, l = r.choice([(1, 1), (1, 1), (1, 1), (3, 1), (1, 2), (2, 2)])
            im = sc.image(fmt=r.choice([37, 37, 97]), ext=[16, 16, 1], mips=m, layers=l)
            self.col.append(im)
            self.image_views(im, 'C', m, l)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            fmt = r.choice([124, 125, 126, 128, 129, 129, 130] if not self.sep else [124, 126, 126, 127, 128, 129, 130])
            l = r.choice([1, 1, 2])
            im = sc.image(fmt=fmt, ext=[16, 16, 1], layers=l)
            self.dep.append(im)
            self.image_views(im, 'DS' if fmt in (128, 129, 130) else decls.planes(fmt), 1, l)
        for _ in range(r.choice([0, 1, 2])):
            self.bufs.append(sc.buffer(r.choice([1, 1, 2])))
        self.bv = [sc.bufview() for _ in range(2)] if self.bufs else []

    def image_views(self, im, asp, m, l):
        sc = self.sc
        fmt = sc.images[im]['fmt']
        self.add_view(im, fmt, asp, [0, m, 0, l], 1 if l == 1 else 5)
        if m > 1:
            for k in range(m):
                self.add_view(im, fmt, asp, [k, 1, 0, l], 1 if l == 1 else 5)
        if l > 1:
            for k in range(l):
                self.add_view(im, fmt, asp, [0, 1, k, 1], 1)

    def add_view(self, im, fmt, asp, rg, vt):
        v = self.sc.view(im, fmt, asp, rg, vt)
        self.views[v] = (im, frozenset((a, b) for a in range(rg[0], rg[0] + rg[1]) for b in range(rg[2], rg[2] + rg[3])))
        return v

    def pick(self, taken, pool, pred=lambda v: True):
        """a view which does not overlap what the pass already uses"""
        c = [v for v, (im, sub) in self.views.items() if im in pool and pred(v)
             and not (sub & taken.get(im, frozenset()))]
        if not c:
            return None
        v = self.rnd.choice(c)
        im, sub = self.views[v]
        taken[im] = taken.get(im, frozenset()) | sub
        return v

    def single(self, v):
        r = self.sc.views[v]['r']
        return r[1] == 1 and r[3] == 1

    def level(self, n):
        """one level, n layers: what attachments of one framebuffer share"""
        return lambda v: self.sc.views[v]['r'][1] == 1 and self.sc.views[v]['r'][3] == n

    def merged(self, taken, pid, merges, ims, layers=None):
        """a view made by the pass out of views of one image, which cover a rectangle together"""
        r, sc = self.rnd, self.sc
        pool = [im for im in ims if not taken.get(im) and (sc.images[im]['layers'] > 1 or sc.images[im]['mips'] > 1 and layers is None)]
        if layers is not None:
            pool = [im for im in pool if sc.images[im]['layers'] == layers]
        if not pool:
            return None
        im = r.choice(pool)
        d = sc.images[im]
        ways = []
        if d['layers'] > 1:
            ways.append([[0, 1, k, 1] for k in range(d['layers'])])
        if d['mips'] > 1 and layers is None:
            ways.append([[k, 1, 0, d['layers']] for k in range(d['mips'])])
            ways.append([[k, 1, 0, d['layers']] for k in range(2)])
        rs = r.choice(ways)
        src = [[v for v in self.views if v not in self.mergedviews and sc.views[v]['img'] == im and sc.views[v]['r'] == x][0] for x in rs]
        r.shuffle(src)
        m = sc.next()
        merges.append({'op': 'merge', 'id': m, 'pass': pid, 'views': src})
        rg = [min(x[0] for x in rs), max(x[0] + x[1] for x in rs) - min(x[0] for x in rs),
              min(x[2] for x in rs), max(x[2] + x[3] for x in rs) - min(x[2] for x in rs)]
        sc.views[m] = dict(id=m, img=im, vt=1 if rg[3] == 1 else 5, fmt=d['fmt'], asp=sc.views[src[0]]['asp'], r=rg)
        self.mergedviews.add(m)
        self.views[m] = (im, frozenset((a, b) for a in range(rg[0], rg[0] + rg[1]) for b in range(rg[2], rg[2] + rg[3])))
        taken[im] = taken.get(im, frozenset()) | self.views[m][1]
        return m

    def image_att(self, kind, pool, taken, maxpass, pred=lambda v: True, **kw):
        n = maxpass if maxpass > 1 and self.rnd.random() < .6 else 1
        vs = []
        for _ in range(n):
            v = self.pick(taken, pool, pred)
            if v is None:
                break
            vs.append(v)
        if len(vs) != n:
            return None
        a = {'k': kind, 'views': vs}
        a.update(kw)
        return a

    def passkind(self):
        return self.rnd.choice(['gfx', 'gfx', 'comp', 'comp', 'render', 'render', 'quad', 'copy', 'blit', 'mips', 'b2i', 'i2b', 'bcopy', 'xfer', 'impl'])

    def make_pass(self, g, i, prev):
        pid = self.try_pass(g, i, prev)
        if pid is None:
            for m in self.merges:
                del self.views[m['id']], self.sc.views[m['id']]
                self.mergedviews.discard(m['id'])
        return pid

    def try_pass(self, g, i, prev):
        r, sc = self.rnd, self.sc
        kind = self.passkind()
        taken, atts, o = {}, [], {}
        self.merges = merges = []
        maxpass = r.choice([1, 1, 1, 2])
        pid = sc.next()
        allim = self.col + self.dep

        def add(a):
            if a is not None:
                atts.append(a)
            return a
        if kind in ('gfx', 'comp', 'xfer', 'impl'):
            o = {'kind': 'custom', 'compute': kind == 'comp', 'st': [{'gfx': 'FS', 'comp': 'CS', 'xfer': 'TR', 'impl': 'FS'}[kind]]}
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                if kind == 'xfer':
                    m = self.merged(taken, pid, merges, allim) if r.random() < .12 else None
                    if m:
                        add({'k': r.choice(['inTransfer', 'outTransfer', 'ioTransfer', 'clrTransfer']), 'views': [m]})
                        continue
                    add(self.image_att(r.choice(['inTransfer', 'outTransfer', 'ioTransfer', 'clrTransfer']), allim, taken, maxpass))
                elif kind == 'impl':
                    v = self.image_att('implC', self.col, taken, maxpass, lay=r.choice(['SHADER_RO', 'SRC', 'COLOR', 'GENERAL']))
                    add(v)
                else:
                    k = r.choice(['sampled', 'sampled', 'inStorage', 'ioStorage', 'outStorage', 'clrStorage'])
                    if r.random() < .12:
                        m = self.merged(taken, pid, merges, allim if k == 'sampled' else self.col)
                        if m:
                            add({'k': k, 'views': [m], 'bind': len(atts)})
                            continue
                    add(self.image_att(k, allim if k == 'sampled' else self.col, taken, maxpass, bind=len(atts)))
            bt = set()
            for _ in range(r.choice([0, 1, 1])):
                k = r.choice(['inTBuf', 'outTBuf', 'ioTBuf', 'clrTBuf'] if kind == 'xfer' else SHBUF)
                if kind != 'impl':
                    add(self.buf_att(k, bt, maxpass, bind=len(atts)))
        elif kind in ('render', 'quad'):
            maxpass = 1
            o = {'kind': kind, 'cfg': {'size': [16, 16]}}
            if kind == 'quad':
                o['cfg'].update(progs=[[[1, 900], [16, 901]]], layouts=[])
                if r.random() < .3:
                    maxpass = 2
                    o['cfg']['progs'] = [[[1, 900], [16, 901]], [[1, 902], [16, 903]]]
            nl = 2 if r.random() < .4 and any(sc.images[im]['layers'] == 2 for im in (allim if kind == 'render' else self.col)) else 1
            for _ in range(r.choice([1, 1, 2])):
                k = r.choice(['outColour', 'ioColour', 'ioColour', 'outColour', 'inColour'] if kind == 'render' else ['outColour', 'ioColour'])
                m = self.merged(taken, pid, merges, self.col, 2) if nl == 2 and r.random() < .4 else None
                add({'k': k, 'views': [m]} if m else self.image_att(k, self.col, taken, maxpass, self.level(nl)))
            if self.dep and r.random() < (.6 if kind == 'render' else .2):
                d = r.choice(self.dep)
                k = {'D': 'Depth', 'S': 'Stencil', 'DS': 'DS'}[decls.planes(sc.images[d]['fmt'])]
                if k == 'DS' and not self.sep:
                    k = r.choice(['Depth', 'DS', 'Stencil'])
                k = r.choice(['out', 'io', 'in']) + k
                m = self.merged(taken, pid, merges, [d], 2) if nl == 2 and r.random() < .4 else None
                add({'k': k, 'views': [m]} if m else self.image_att(k, [d], taken, maxpass, self.level(nl)))
            if not any('olour' in a['k'] or 'Depth' in a['k'] or 'DS' in a['k'] or 'Stencil' in a['k'] for a in atts):
                return None
            for _ in range(r.choice([0, 1, 1, 2])):
                add(self.image_att('sampled', allim, taken, maxpass, bind=len(atts)))
            if self.bufs and r.random() < .2:
                add(self.buf_att(r.choice(['inBuf', 'uniform', 'uniformView', 'implBuf', 'implBuf']), set(), maxpass, bind=len(atts)))
        elif kind in ('copy', 'blit'):
            a = self.image_att('inTransfer', self.col, taken, maxpass, self.single)
            b = self.image_att('outTransfer', self.col, taken, maxpass, self.single)
            if not a or not b:
                return None
            atts += [a, b]
            o = {'kind': kind, 'cfg': {'ext': [4, 4, 1]}} if kind == 'copy' else \
                {'kind': kind, 'cfg': {'so': [0, 0, 0], 'se': [4, 4, 1], 'do': [0, 0, 0], 'de': [4, 4, 1], 'filter': 0}}
            if kind == 'copy' and r.random() < .4:
                o['cfg']['final'] = r.choice(['SHADER_RO', 'SRC', 'GENERAL'])
        elif kind == 'mips':
            maxpass = 1
            pool = [im for im in self.col if sc.images[im]['mips'] > 1]
            a = self.image_att('ioTransfer', pool, taken, 1, lambda v: sc.views[v]['r'][0] == 0 and sc.views[v]['r'][1] == sc.images[sc.views[v]['img']]['mips'])
            if not a:
                return None
            atts.append(a)
            o = {'kind': 'mips', 'cfg': {'final': r.choice(['SHADER_RO', 'SRC', 'GENERAL'])}}
        elif kind in ('b2i', 'i2b'):
            bt = set()
            a = self.buf_att('inTBuf' if kind == 'b2i' else 'outTBuf', bt, maxpass)
            b = self.image_att('outTransfer' if kind == 'b2i' else 'inTransfer', self.col, taken, maxpass, self.single)
            if not a or not b:
                return None
            atts += [a, b]
            o = {'kind': kind, 'cfg': {'io': [0, 0, 0], 'ie': [4, 4, 1]}}
        elif kind == 'bcopy':
            bt = set()
            a = self.buf_att('inTBuf', bt, maxpass)
            b = self.buf_att('outTBuf', bt, maxpass)
            if not a or not b:
                return None
            atts += [a, b]
            o = {'kind': kind, 'cfg': {'off': 0, 'size': 64}}
        if not atts:
            return None
        if merges:
            o['merges'] = merges
        o.update(maxpass=maxpass, atts=atts, index=r.randrange(maxpass), resettable=r.random() < .1,
                 enabled=r.random() < .85)
        outs = [v for a in atts if 'views' in a and decls.IMG[a['k']][2] for v in a['views'] if v not in self.mergedviews]
        if outs and r.random() < .45:
            o['imp'] = []
            for v in r.sample(outs, min(len(outs), r.choice([1, 1, 2]))):
                do = r.choice(['clear', 'clear', 'copy', 'blit', 'mark'])
                x = {'view': v, 'do': do}
                if do in ('copy', 'blit'):
                    t2 = {self.views[v][0]: self.views[v][1]}
                    asp = sc.views[v]['asp']
                    s = self.pick(t2, self.col if asp == 'C' else [], lambda q: sc.views[q]['r'][1] == 1 and q not in self.mergedviews)
                    if s is None or sc.views[v]['r'][1] != 1:
                        x['do'] = do = 'clear'
                    else:
                        x.update(src=s, ext=[4, 4], so=[0, 0], se=[4, 4], do_=[0, 0], de=[4, 4], filter=0)
                if do != 'mark' and r.random() < .6:
                    x['final'] = r.choice(['SHADER_RO', 'GENERAL', 'SRC'])
                o['imp'].append(x)
        sc.pass_(pid, g, None, 'p%d' % pid, **o)
        for q in prev:
            if r.random() < .5 or q == prev[-1]:
                sc.op('dep', id=pid, on=q)
                sc.passes[pid]['deps'].append(q)
        return pid

    def dslayouts(self, im):
        asp = decls.planes(self.sc.images[im]['fmt'])
        return [asp + '_ATT', asp + '_RO'] if self.sep and asp != 'DS' else EXTERNAL[5:]

    def buf_att(self, k, bt, maxpass, **kw):
        r = self.rnd
        pool = [b for b in self.bufs if b not in bt and (self.sc.buffers[b] == 1 or self.sc.buffers[b] == maxpass)]
        if not pool:
            return None
        b = r.choice(pool)
        bt.add(b)
        off, size = r.choice([(0, 64), (0, 64), (64, 64), (0, 128), (32, 64), (0, -1), (64, 62), (0, 30)])
        a = {'k': k, 'buf': b, 'off': off, 'size': size}
        a.update(kw)
        if k.endswith('View') and 'bv' not in a:
            if not self.bv:
                self.bv.append(self.sc.bufview())
            a['bv'] = r.choice(self.bv)
        if k.startswith('impl'):
            a['acc'], a['st'] = r.choice(WANTED)
        return a

    def build(self):
        r, sc = self.rnd, self.sc
        self.resources()
        ng = 1 if r.random() < .85 else 2
        gs = []
        keep = list(self.col), list(self.dep)
        shared = []
        if ng == 2 and self.col:
            shared = r.sample(self.col, 1)
        for k in range(ng):
            if ng == 2:
                # images are private to a graph unless the first one writes them from scratch in every frame
                mine = [im for n, im in enumerate(keep[0] + keep[1]) if im in shared or n % 2 == k]
                self.col = [im for im in keep[0] if im in mine]
                self.dep = [im for im in keep[1] if im in mine]
            g = sc.graph(name='g%d' % k)
            ins = {}
            for im in self.col + self.dep:
                if im in shared:
                    continue
                if r.random() < .35:
                    cands = EXTERNAL[:5] if im in self.col else self.dslayouts(im)
                    full = [v for v in self.views if self.views[v][0] == im][0]
                    ins[full] = r.choice(cands)
                    sc.op('input', id=g, view=full, lay=ins[full])
            ps = []
            if k == 0:
                for im in shared:
                    full = [v for v in self.views if self.views[v][0] == im][0]
                    pid = sc.next()
                    sc.pass_(pid, g, None, 'p%d' % pid, kind='custom', compute=True, st=['CS'], maxpass=1, enabled=True,
                             atts=[{'k': 'outStorage', 'views': [full], 'bind': 0}], pinned=True)
                    ps.append(pid)
            for i in range(r.choice([1, 2, 3, 4, 5, 6, 7])):
                p = self.make_pass(g, i, ps)
                if p:
                    ps.append(p)
            if not ps:
                pid = sc.next()
                sc.pass_(pid, g, None, 'p%d' % pid, kind='custom', st=['FS'], maxpass=1, enabled=True, atts=[])
                ps.append(pid)
            outs = {}
            for im in self.col + self.dep:
                if (ng == 1 or im not in shared) and r.random() < .25:
                    cv = [v for v in self.views if self.views[v][0] == im and v not in self.mergedviews]
                    v = r.choice(cv)
                    outs[v] = r.choice(EXTERNAL[:4] if im in self.col else self.dslayouts(im))
                    sc.op('output', id=g, view=v, lay=outs[v])
            gs.append((g, ps, ins, outs))
        if ng == 2:
            sc.op('graphdep', id=gs[1][0], on=gs[0][0])
        self.col, self.dep = keep
        for g, ps, ins, outs in gs:
            sc.op('compile', id=g, imap=self.col + self.dep)
        self.finish(gs, r.choice([1, 2, 3, 4]))
        return sc.done()

    def finish(self, gs, nframes):
        r, sc = self.rnd, self.sc
        sc.meta['ins'] = {g: [[v, lay] for v, lay in ins.items()] for g, ps, ins, outs in gs}
        sc.meta['outs'] = {g: [[v, lay] for v, lay in outs.items()] for g, ps, ins, outs in gs}
        for f in range(nframes):
            for g, ps, ins, outs in gs:
                for p in ps:
                    d = sc.passes[p]
                    if f and not d.get('pinned') and r.random() < .5:
                        sc.set(p, enabled=r.random() < .75, index=r.randrange(d['maxpass']))
            for g, ps, ins, outs in gs:
                sc.op('run', id=g, wait=[])
                for v in dict.fromkeys(r.sample(list(self.views), min(4, len(self.views))) + list(outs)):
                    sc.op('final', id=g, view=v, index=0)


PLANNED = {'sampled': ('gfx', 'sampled'), 'sampledC': ('comp', 'sampled'), 'inStorage': ('comp', 'inStorage'), 'ioStorage': ('comp', 'ioStorage'),
           'outStorage': ('comp', 'outStorage'), 'inTransfer': ('xfer', 'inTransfer'), 'outTransfer': ('xfer', 'outTransfer'),
           'ioColour': ('render', 'ioColour'), 'outColour': ('render', 'outColour')}


def planned(s, h):
    """a program of SyncPlan.tla: one use per pass of a two layer image, enabled frame by frame"""
    sc = Scn(s, 'planned')
    sc.ctx(sep=False)
    sc.meta['sep'] = False
    im = sc.image(fmt=37, ext=[16, 16, 1], layers=2)
    views = {(1, 2): sc.view(im, 37, 'C', [0, 1, 0, 2], 5), (1,): sc.view(im, 37, 'C', [0, 1, 0, 1], 1), (2,): sc.view(im, 37, 'C', [0, 1, 1, 1], 1)}
    g = sc.graph(name='g')
    ps = []
    for n, e in enumerate(h['prog']):
        v = views[tuple(sorted(e['v']))]
        how, kind = PLANNED[e['k']]
        pid = sc.next()
        o = {'kind': 'render', 'cfg': {'size': [16, 16]}} if how == 'render' else \
            {'kind': 'custom', 'compute': how == 'comp', 'st': [{'gfx': 'FS', 'comp': 'CS', 'xfer': 'TR'}[how]]}
        o.update(maxpass=1, index=0, enabled=n + 1 in h['on'][0], atts=[{'k': kind, 'views': [v]}])
        if how in ('gfx', 'comp'):
            o['atts'][0]['bind'] = 0
        if e['imp']:
            o['imp'] = [{'view': v, 'do': 'clear'}]
        sc.pass_(pid, g, None, 'p%d' % pid, **o)
        for q in ps:
            sc.op('dep', id=pid, on=q)
            sc.passes[pid]['deps'].append(q)
        ps.append(pid)
    sc.op('compile', id=g, imap=[im])
    sc.meta['ins'], sc.meta['outs'] = {g: []}, {g: []}
    for f, on in enumerate(h['on']):
        for n, p in enumerate(ps):
            if f and (n + 1 in on) != (n + 1 in h['on'][f - 1]):
                sc.set(p, enabled=n + 1 in on, index=0)
        sc.op('run', id=g, wait=[])
        for v in views.values():
            sc.op('final', id=g, view=v, index=0)
    return sc.done()


def scenarios(tier, seed):
    rnd = random.Random(seed * 104729 + 3)
    n = 500 if tier == 'quick' else 8000
    out = [Gen(i + 1, random.Random(rnd.random())).build() for i in range(n)]
    w = tempfile.mkdtemp(prefix='plan.')
    try:
        for cfg in ('SyncPlan', 'SyncPlanImp', 'SyncPlanLayers') if tier == 'quick' else (
                'SyncPlanDeep', 'SyncPlan', 'SyncPlanImp', 'SyncPlanImpDeep', 'SyncPlanLayersDeep', 'SyncPlanLayers'):
            hs = sorted(vlib.histories(w, 'SyncPlan', cfg + '.cfg', workers=4), key=repr)
            out += [planned(len(out) + 1 + i, h) for i, h in enumerate(hs)]
    finally:
        shutil.rmtree(w)
    return out


# ----------------------------------------------------------------- projection
def up4(n):
    """fills cover a multiple of four bytes"""
    return n if n == -1 else (n + 3) // 4 * 4


LOAD = ['LOAD', 'CLEAR', 'DONT_CARE']


class Proj:
    def __init__(self, scn):
        self.scn = scn
        self.sep = scn['meta'].get('sep', False)
        self.base, n = {}, 0
        for i, d in scn['images'].items():
            p = decls.planes(d['fmt'])
            self.base[i] = n
            n += len(p) * d['mips'] * d['layers']
        self.nr = n
        self.img = {}        # handle -> image
        self.vh = {}         # view handle -> (image, aspects, range)
        self.fb, self.rp = {}, {}
        # buffer segments
        self.cuts = {b: {0} for b in scn['buffers']}
        for p in scn['passes'].values():
            for a in p['atts']:
                if 'buf' in a:
                    self.cuts[a['buf']].add(a['off'])
                    if a['size'] != -1:
                        self.cuts[a['buf']].add(a['off'] + a['size'])
                        self.cuts[a['buf']].add(a['off'] + up4(a['size']))
        self.segs, k = {}, 0
        for b, n in scn['buffers'].items():
            cuts = sorted(self.cuts[b])
            for c in range(n):
                for i, x in enumerate(cuts):
                    k += 1
                    self.segs[(b, c, i)] = (k, x, cuts[i + 1] if i + 1 < len(cuts) else 1 << 40)
        self.nb = k
        self.bufh = {}       # handle -> (buffer, copy)

    def rids(self, im, asp, r, every=False):
        d = self.scn['images'][im]
        pl = decls.planes(d['fmt'])
        m, l = d['mips'], d['layers']
        nm = m - r[0] if r[1] == -1 else r[1]
        nl = l - r[2] if r[3] == -1 else r[3]
        out = []
        for ip, p in enumerate(pl):
            if p in asp or every:
                for a in range(r[0], r[0] + nm):
                    for b in range(r[2], r[2] + nl):
                        out.append(self.base[im] + (ip * m + a) * l + b + 1)
        return out

    def view(self, v, every=False):
        d = self.scn['views'][v]
        return self.rids(d['img'], d['asp'], d['r'], every)

    def seg(self, b, c, off, size):
        end = 1 << 40 if size == -1 else off + size
        return [k for (bb, cc, i), (k, x, y) in self.segs.items() if bb == b and cc == c and x < end and y > off]

    def hseg(self, h, off, size):
        if h not in self.bufh:
            return []
        b, c = self.bufh[h]
        return self.seg(b, c, off, size)

    def begin(self, ev):
        d = self.scn['passes'][ev['p']]
        i = ev['idx']
        comp = d['kind'] == 'compute' or bool(d.get('compute'))
        uses, bufs, clears = [], [], []
        for a in d['atts']:
            if 'views' in a:
                use, inp, outp, clr = decls.IMG[a['k']]
                v = a['views'][0] if len(a['views']) == 1 else a['views'][i]
                if use in decls.ATTACHED or use == 'none':
                    continue
                lay = decls.layout_of(a['k'], a.get('lay', ''), self.sep, self.scn['views'][v]['asp'])
                every = not self.sep
                u = {'r': self.view(v, every), 'lay': lay, 'st': [], 'acc': [], 'in': inp and not clr, 'out': outp}
                if use != 'impl':
                    u['st'] = decls.stage_of(use, comp)
                    u['acc'] = decls.access_of(use, inp, outp)
                uses.append(u)
                if clr:
                    clears.append({'k': 'i', 'r': self.view(v)})
            else:
                use, inp, outp, clr = decls.BUF[a['k']]
                n = self.scn['buffers'][a['buf']]
                c = 0 if n == 1 else i
                u = {'b': self.seg(a['buf'], c, a['off'], a['size']), 'in': inp, 'out': outp}
                if use == 'impl':
                    u.update(st=a['st'], acc=a['acc'])
                else:
                    u.update(st=decls.stage_of(use, comp), acc=['SH_R'] if a['k'] == 'uniformView' else decls.access_of(use, inp, outp))
                bufs.append(u)
                if clr:
                    clears.append({'k': 'b', 'r': [a['buf'] * 10 + c, a['off'], up4(a['size'])]})
        return {'e': 'begin', 'p': ev['p'], 'uses': uses, 'bufs': bufs, 'clears': clears}

    def run(self, evs):
        scn = self.scn
        out = [{'e': 'scen', 's': scn['s'], 'nr': self.nr, 'nb': self.nb}]
        cur, curp = None, None
        for ev in evs:
            e = ev['e']
            if e == 'imap':
                self.img[ev['h']] = ev['id']
            elif e == 'buffer':
                for c, h in enumerate(ev['hs']):
                    self.bufh[h] = (ev['id'], c)
            elif e == 'CreateImageView':
                self.vh[ev['h']] = (ev['img'], ev['asp'], ev['r'])
            elif e == 'CreateRenderPass':
                self.rp[ev['h']] = ev
            elif e == 'CreateFramebuffer':
                self.fb[ev['h']] = ev
            elif e == 'runBegin':
                cur = ev['g']
                ins = [[self.view(v, not self.sep), lay] for v, lay in scn['meta']['ins'].get(cur, [])]
                out.append({'e': e, 'ins': ins})
            elif e == 'runEnd':
                outs = [[self.view(v, not self.sep), lay] for v, lay in scn['meta']['outs'].get(cur, [])]
                out.append({'e': e, 'ok': ev['ok'], 'err': ev.get('err', ''), 'outs': outs})
                cur = None
            elif e == 'final':
                out.append({'e': e, 'r': self.view(ev['view'], not self.sep), 'lay': ev['lay']})
            elif cur is None:
                continue
            elif e == 'Barrier':
                img = []
                for b in ev['img']:
                    im = self.img[b['img']]
                    full = self.rids(im, 'CDS', b['r'])
                    part = self.rids(im, b['asp'], b['r'])
                    img.append({'r': part if self.sep else full, 'sa': b['sa'], 'da': b['da'], 'old': b['old'], 'new': b['new'],
                                'whole': bool(part) and (self.sep or len(part) == len(full))})
                buf = [{'b': self.hseg(b['b'], b['off'], b['size']), 'sa': b['sa'], 'da': b['da']} for b in ev['buf']]
                out.append({'e': 'bar', 'ss': ev['ss'], 'ds': ev['ds'], 'mem': ev['mem'], 'img': img, 'buf': buf})
            elif e in ('ClearColor', 'ClearDS'):
                im = self.img[ev['img']]
                r = []
                for x in ev['rs']:
                    r += self.rids(im, x['asp'], x['r'])
                suits = (e == 'ClearColor') == (decls.planes(self.scn['images'][self.img[ev['img']]]['fmt']) == 'C')
                out.append({'e': 'clr', 'r': r, 'lay': ev['lay'], 'suits': suits, 'zero': not any(ev['val'])})
            elif e == 'FillBuffer':
                b, c = self.bufh[ev['b']]
                out.append({'e': 'fill', 'b': self.hseg(ev['b'], ev['off'], ev['size']), 'buf': b * 10 + c, 'off': ev['off'], 'size': ev['size'], 'zero': not ev['data']})
            elif e in ('CopyImage', 'Blit'):
                s, d = self.img[ev['s']], self.img[ev['d']]
                S, D = [], []
                for x in ev['rs']:
                    S += self.layers(s, x['s'])
                    D += self.layers(d, x['d'])
                out.append({'e': 'xfer', 'src': S, 'sl': ev['sl'], 'dst': D, 'dl': ev['dl'], 'sb': [], 'db': []})
            elif e == 'CopyBuffer':
                sb, db = [], []
                for so, do, size in ev['rs']:
                    sb += self.hseg(ev['s'], so, size)
                    db += self.hseg(ev['d'], do, size)
                out.append({'e': 'xfer', 'src': [], 'sl': '', 'dst': [], 'dl': '', 'sb': sb, 'db': db})
            elif e == 'CopyB2I':
                D, sb = [], []
                for x in ev['rs']:
                    D += self.layers(self.img[ev['d']], x['i'])
                    sb += self.hseg(ev['s'], x['bo'][0], 16 * 4)
                out.append({'e': 'xfer', 'src': [], 'sl': '', 'dst': D, 'dl': ev['dl'], 'sb': sb, 'db': []})
            elif e == 'CopyI2B':
                S, db = [], []
                for x in ev['rs']:
                    S += self.layers(self.img[ev['s']], x['i'])
                    db += self.hseg(ev['d'], x['bo'][0], 16 * 4)
                out.append({'e': 'xfer', 'src': S, 'sl': ev['sl'], 'dst': [], 'dl': '', 'sb': [], 'db': db})
            elif e == 'implicit':
                x = scn['passes'][ev['p']]['imp'][ev['j']]
                out.append({'e': e, 'clears': x['do'] == 'clear', 'r': self.view(x['view'])})
            elif e == 'implicitEnd':
                out.append({'e': e})
            elif e == 'begin':
                curp = ev['p'], ev['idx']
                out.append(self.begin(ev))
            elif e == 'end':
                out.append({'e': e})
            elif e == 'BeginRenderPass':
                out.append(self.rpb(ev, curp))
            elif e == 'EndRenderPass':
                out.append({'e': 'rpe'})
        return out

    def layers(self, im, x):
        """image subresource layers"""
        return self.rids(im, x['asp'], x['r'])

    def rpb(self, ev, curp):
        rp, fb = self.rp[ev['rp']], self.fb[ev['fb']]
        sub = rp['subs'][0]
        d = self.scn['passes'][curp[0]] if curp else {'atts': []}
        decl = {}
        for a in d['atts']:
            if 'views' in a and decls.IMG[a['k']][0] in decls.ATTACHED:
                v = self.scn['views'][a['views'][0] if len(a['views']) == 1 else a['views'][curp[1]]]
                decl[(v['img'], tuple(v['r']))] = decls.IMG[a['k']] + (decls.layout_of(a['k'], '', self.sep, v['asp']),)
        atts = []
        for k, a in enumerate(rp['atts']):
            h, asp, r = self.vh[fb['views'][k]]
            lay, ds = a['init'], False
            for n, l in sub['cols']:
                if n == k:
                    lay = l
            if sub['ds'] and sub['ds'][0][0] == k:
                lay, ds = sub['ds'][0][1], True
            im = self.img[h]
            kind, inp, outp, _, want = decl.get((im, tuple(r)), ('colour', False, True, False, ''))
            ops = {'stencil': [(a['sload'], a['sstore'])], 'ds': [(a['load'], a['store']), (a['sload'], a['sstore'])]}.get(kind, [(a['load'], a['store'])])
            load = LOAD[max(x for x, _ in ops)]
            store = 'STORE' if all(y == 0 for _, y in ops) else 'DONT_CARE'
            keep = self.rids(im, {'depth': 'D', 'stencil': 'S', 'ds': 'DS', 'colour': 'C'}[kind], r)
            atts.append({'r': self.rids(im, 'CDS', r), 'keep': keep, 'init': a['init'], 'sub': lay, 'final': a['final'], 'load': load, 'store': store, 'want': want,
                         'in': inp, 'out': outp, 'ds': ds})
        return {'e': 'rpb', 'deps': rp['deps'], 'atts': atts}


def project(scn, evs):
    return Proj(scn).run(evs)
