"""Scenarios and projection for Objects.tla (C12 C13 C14 C16 C28 C29)."""
import random, shutil, tempfile
from sgen import Scn
import decls, passgen, vlib

MODULE = 'Objects'
PROPS = ['C12', 'C13', 'C14', 'C16', 'C28', 'C29']
RESET = ('quad', 'mesh', 'compute')


# ------------------------------------------------------------------ scenarios
def graphs(s, rnd):
    """whole frames: passes of every kind, pipelines replaced between frames, graphs destroyed early"""
    g = passgen.Rich(s, rnd, 'graphs', kinds=['quad', 'quad', 'mesh', 'mesh', 'compute', 'render', 'copy', 'mips', 'custom', 'blit', 'b2i'])
    sc = g.sc
    g.resources()
    if rnd.random() < .3:
        sc.ops.insert(1, {'op': 'membits', 'img': rnd.choice([1, 3, 4, 5, 6, 7]), 'buf': rnd.choice([2, 3, 4, 5, 6, 7])})
    gs = g.graphs(rnd.choice([1, 1, 2]))
    for x, ps, ins, outs, imgs in gs:
        for v in list(g.views):
            im = g.views[v][0]
            if im in imgs and rnd.random() < .15 and v == [q for q in g.views if g.views[q][0] == im][0] and not g.sep:
                sc.op('input', id=x, view=v, lay='SHADER_RO' if im in g.col else 'DS_RO')
        sc.op('compile', id=x, imap=imgs, vmap=[v for v in g.views if g.views[v][0] in imgs and rnd.random() < .3])
    ran = set()                                   # (pass, variant) recorded
    alive = {x[0] for x in gs}
    cur = {p: [d.get('enabled', True), d.get('index', 0)] for p, d in sc.passes.items()}
    for f in range(rnd.choice([2, 3, 4, 5, 6])):
        for x, ps, *_ in gs:
            if x not in alive:
                continue
            for p in ps:
                if f:
                    kw = g.state(p, f)
                    if 'enabled' in kw:
                        cur[p] = [kw['enabled'], kw['index']]
            for p in ps:
                d = sc.passes[p]
                if d['kind'] in RESET and f and rnd.random() < .3 and (d['kind'] != 'compute' or d.get('resettable')):
                    i = cur[p][1]
                    if (p, i) in ran:
                        prog = [] if 'creator' in d['cfg'] or rnd.random() < .5 else \
                            ([[32, g.new_module()]] if d['kind'] == 'compute' else passgen.VS_FS(g.new_module()))
                        sc.op('resetPipe', id=p, index=i, prog=prog)
        for x, ps, *_ in gs:
            if x in alive:
                sc.op('run', id=x, wait=[])
                ran |= {(p, cur[p][1]) for p in ps if cur[p][0]}
                for p in ps:
                    if sc.passes[p].get('resettable') and rnd.random() < .15:
                        if rnd.random() < .3:
                            sc.op('resetcb', id=p, index=cur[p][1])
                        sc.op('rerecord', id=p)
        if f and rnd.random() < .1:
            x = rnd.choice([q[0] for q in gs])
            if x in alive:
                sc.op('destroy', id=x)
                alive.discard(x)
    return sc.done()


OTHERS = {37: 43, 44: 50, 97: 98}     # formats of the same size


def caches(s, rnd):
    """requests to one or two resource caches of a context"""
    sc = Scn(s, 'caches')
    c = sc.ctx(mem=[rnd.choice([1, 2, 7, 1, 3, 6, 15]) for _ in range(rnd.choice([1, 2, 3]))] + [1, 2])
    ims, vws = [], []
    for _ in range(rnd.choice([1, 2, 3, 4])):
        fmt = rnd.choice([37, 44, 97, 126, 128, 129])
        m, l = rnd.choice([(1, 1), (3, 1), (1, 6), (3, 2)])
        t = rnd.choice([1, 1, 2]) if decls.planes(fmt) == 'C' and l == 1 else 1
        kw = {}
        if rnd.random() < .4:
            kw = {'samples': rnd.choice([1, 4]), 'tiling': rnd.choice([0, 1]), 'flags': rnd.choice([0, 8, 16]), 'usage': rnd.choice([4, 7, 22, 255])}
        i = sc.image(fmt=fmt, ext=rnd.choice([[16, 16, 1], [32, 8, 1], [64, 64, 1 if t != 2 else 4]]), mips=m, layers=l, type=t, **kw)
        ims.append(i)
        a = 'DS' if fmt in (128, 129) else decls.planes(fmt)
        pool = [(2 if t == 2 else 1 if l == 1 else 5, a, [0, m, 0, l]), (2 if t == 2 else 1, a, [0, 1, 0, 1]), (2 if t == 2 else 1, a, [m - 1, 1, l - 1, 1]),
                (2 if t == 2 else 1 if l == 1 else 5, a, [0, 1, 0, l])]
        for vt, asp, r in pool + rnd.choices(pool, k=3):
            if rnd.random() < .6:
                kw = {'flags': 1} if rnd.random() < .1 else {}
                if rnd.random() < .2:
                    kw['swz'] = rnd.choice([[1, 1, 1, 1], [3, 4, 5, 6], [3, 3, 3, 6], [5, 4, 3, 6], [3, 4, 5, 2], [3, 3, 5, 6]])
                asp = rnd.choice([asp, 'D']) if asp == 'DS' else asp
                vws.append(sc.view(i, fmt, asp, r, vt, **kw))
                if rnd.random() < .4:
                    # the same view, but for one of its components
                    twin = [(OTHERS.get(fmt, fmt), asp, vt), (fmt, 'S' if asp == 'D' and a == 'DS' else asp, vt),
                            (fmt, asp, {1: 5, 5: 3 if r[3] == 6 else 5, 2: 2}[vt])]
                    x = rnd.choice(twin)
                    vws.append(sc.view(i, x[0], x[1], r, x[2], **kw))
    cs = []
    for _ in range(rnd.choice([1, 1, 2])):
        k = sc.next()
        sc.op('cache', id=k, ctx=c)
        cs.append(k)
    img, vw = {}, {}       # what is alive: image -> cache, view -> cache
    canon = {}
    for v in vws:
        d = sc.views[v]
        canon[v] = str([d[k] for k in ('img', 'vt', 'fmt', 'asp', 'r')] + [d.get('flags', 0), d.get('swz', [3, 4, 5, 6])])
    alive = list(cs)
    descs = [[rnd.choice([0, 1]), rnd.choice([0, 1]), rnd.choice([0, 1]), rnd.choice([0, 1, 2]), rnd.choice([0, 1, 3]), rnd.choice([0, 2]),
              rnd.choice([0, .5, -1]), rnd.choice([-1, 0, 2]), rnd.choice([1, 12])] for _ in range(rnd.choice([1, 2, 3]))]
    for d in list(descs):
        e = list(d)
        k = rnd.randrange(9)
        e[k] = e[k] + 1 if k > 5 else 1 - e[k] if e[k] < 2 else 0
        descs.append(e)
    for _ in range(rnd.choice([6, 12, 20, 30])):
        if not alive:
            break
        k = rnd.choice(alive)
        o = rnd.choice(['cimage', 'cimage', 'cview', 'cview', 'cview', 'csampler', 'csampler', 'cquad', 'dimage', 'dview', 'dview', 'dropcache'])
        if o == 'cimage':
            i = rnd.choice(ims)
            img.setdefault(i, k)
            sc.op(o, id=k, img=i)
        elif o == 'cview' and vws:
            v = rnd.choice(vws)
            i = sc.views[v]['img']
            if canon[v] not in vw:
                img.setdefault(i, k)
                vw[canon[v]] = (k, i)
            sc.op(o, id=k, view=v)
        elif o == 'csampler':
            sc.op(o, id=k, d=rnd.choice(descs))
        elif o == 'cquad':
            sc.op(o, id=k, tex=rnd.random() < .6, u=rnd.random() < .5, v=rnd.random() < .5)
        elif o == 'dview' and vws:
            v = rnd.choice(vws)
            if vw.get(canon[v], (0,))[0] == k:
                del vw[canon[v]]
            sc.op(o, id=k, view=v)
        elif o == 'dimage':
            i = rnd.choice(ims)
            # only images no view is left of are destroyed
            if img.get(i) == k:
                if any(x[1] == i for x in vw.values()):
                    continue
                del img[i]
            sc.op(o, id=k, img=i)
        elif o == 'dropcache' and rnd.random() < .5:
            if any(q != k and img.get(i) == k for q, i in vw.values()):
                continue
            sc.op(o, id=k)
            alive.remove(k)
            vw = {q: x for q, x in vw.items() if x[0] != k}
            img = {i: q for i, q in img.items() if q != k}
    # the caches are destroyed in the order the views of one on the images of the other ask for
    while alive:
        ok = [k for k in alive if not any(q != k and img.get(i) == k for q, i in vw.values())]
        if not ok:
            for v, cv in canon.items():
                if cv in vw and vw[cv][0] in alive:
                    sc.op('dview', id=vw[cv][0], view=v)
                    del vw[cv]
            continue
        k = ok[0]
        sc.op('dropcache', id=k)
        alive.remove(k)
        vw = {q: x for q, x in vw.items() if x[0] != k}
    return sc.done()


TYPES = ['image', 'buffer', 'sampler', 'fence', 'pipeline', 'rp']


def registry(s, rnd):
    """objects of the user registered with a context"""
    sc = Scn(s, 'registry')
    c = sc.ctx()
    t = {h: rnd.choice(TYPES) for h in range(1, rnd.choice([3, 5, 8]))}
    for k in range(rnd.choice([3, 8, 16, 30])):
        h = rnd.choice(list(t))
        o = rnd.choice(['reg', 'reg', 'rename', 'unreg'])
        if o == 'unreg':
            sc.op(o, h=h, t=t[h], ctx=c)
        else:
            sc.op(o, h=h, t=t[h], name='n%d' % k, ctx=c)
        if rnd.random() < .1:
            t[h] = rnd.choice(TYPES)
    return sc.done()


def memtypes(s, rnd, mems):
    sc = Scn(s, 'memtypes')
    c = sc.ctx(mem=mems)
    n = len(mems)
    for mask in range(1 << n):
        for req in [0, 1, 2, 3, 4, 6, 7, 15]:
            sc.op('memtype', ctx=c, mask=mask, req=req)
    for req in (0, 1, 7):
        sc.op('memtype', ctx=c, mask=0xFFFFFFFF, req=req)
        sc.op('memtype', ctx=c, mask=0xFFFFFFFF ^ ((1 << n) - 1), req=req)
    return sc.done()


def cached(s, h):
    """a history of CacheGen.tla"""
    sc = Scn(s, 'cache history')
    c = sc.ctx(mem=[1, 7])
    im = sc.image(fmt=37, ext=[16, 16, 1], mips=2)
    v = [sc.view(im, 37, 'C', [0, 2, 0, 1]), sc.view(im, 37, 'C', [1, 1, 0, 1])]
    cs = [sc.next(), sc.next()]
    for k in cs:
        sc.op('cache', id=k, ctx=c)
    own, vw = 0, {}
    alive = set(cs)
    for x in h:
        k, o = cs[x['c'] - 1], x['o']
        if o in ('cview', 'dview'):
            sc.op(o, id=k, view=v[x['v'] - 1])
        elif o == 'csampler':
            sc.op(o, id=k, d=[1, 0, 0, 1, 2, 0, 0, -1, 1])
        elif o == 'dropcache':
            sc.op(o, id=k)
        else:
            sc.op(o, id=k, img=im)
        if o in ('cimage', 'cview'):
            own = own or k
            if o == 'cview':
                vw.setdefault(x['v'], k)
        elif o == 'dview' and vw.get(x['v']) == k:
            del vw[x['v']]
        elif o == 'dimage' and own == k:
            own = 0
        elif o == 'dropcache':
            alive.discard(k)
            own = 0 if own == k else own
            vw = {a: b for a, b in vw.items() if b != k}
    for k in sorted(alive, key=lambda k: k == own):
        sc.op('dropcache', id=k)
    return sc.done()


def lived(s, h):
    """a history of LifeGen.tla"""
    sc = Scn(s, 'life history')
    sc.ctx()
    t, o = (sc.image(fmt=37, ext=[16, 16, 1]) for _ in range(2))
    tv, ov = (sc.view(i, 37, 'C', [0, 1, 0, 1]) for i in (t, o))
    g = sc.graph(name='g')
    ps = [sc.next(), sc.next()]
    sc.pass_(ps[0], g, None, 'quad', kind='quad', maxpass=1, enabled=True, index=0, cfg={'progs': [[[1, 900], [16, 901]]], 'layouts': [], 'size': [16, 16]},
             atts=[{'k': 'outColour', 'views': [ov]}])
    sc.pass_(ps[1], g, None, 'compute', kind='compute', maxpass=1, enabled=True, index=0, resettable=True, cfg={'progs': [[[32, 902]]], 'layouts': [], 'gc': [1, 1, 1]},
             atts=[{'k': 'outStorage', 'views': [tv], 'bind': 0}])
    sc.op('compile', id=g, imap=[t, o])
    en, mod = True, 902
    for x in h:
        if x in ('run', 'record'):
            sc.op(x, id=g, wait=[])
        elif x == 'toggle':
            en = not en
            sc.set(ps[0], enabled=en, index=0)
        else:
            mod += 2
            sc.op('resetPipe', id=ps[int(x[5]) - 1], index=0, prog=[[1, mod], [16, mod + 1]] if x == 'reset1' else [[32, mod]])
    sc.op('run', id=g, wait=[])
    return sc.done()


def scenarios(tier, seed):
    rnd = random.Random(seed * 7919 + 11)
    q = tier == 'quick'
    out = []

    def add(n, f, *a):
        for _ in range(n):
            out.append(f(len(out) + 1, random.Random(rnd.random()), *a))
    add(150 if q else 2500, graphs)
    add(300 if q else 5000, caches)
    add(120 if q else 2000, registry)
    for _ in range(6 if q else 60):
        add(1, memtypes, [rnd.choice([0, 1, 2, 3, 4, 6, 7, 8, 15]) for _ in range(rnd.choice([1, 2, 3, 4]))])
    w = tempfile.mkdtemp(prefix='obj.')
    try:
        for mod, make in (('CacheGen', cached), ('LifeGen', lived)):
            for h in sorted(vlib.histories(w, mod, mod + ('.cfg' if q else 'Deep.cfg'), workers=4), key=repr):
                out.append(make(len(out) + 1, h))
    finally:
        shutil.rmtree(w)
    return out


# ----------------------------------------------------------------- projection
CREATES = {'CreateImage': 'Image', 'CreateImageView': 'ImageView', 'CreateSampler': 'Sampler', 'CreateBuffer': 'Buffer', 'CreateRenderPass': 'RenderPass',
           'CreateFramebuffer': 'Framebuffer', 'CreateDescriptorSetLayout': 'SetLayout', 'CreateDescriptorPool': 'DescriptorPool',
           'CreatePipelineLayout': 'PipelineLayout', 'CreateCommandPool': 'CommandPool', 'CreateSemaphore': 'Semaphore', 'CreateFence': 'Fence',
           'CreateEvent': 'Event', 'CreateQueryPool': 'QueryPool', 'CreateGraphicsPipeline': 'Pipeline', 'CreateComputePipeline': 'Pipeline', 'AllocateMemory': 'Memory'}


def bits(m):
    return [i for i in range(32) if m >> i & 1]


class Proj:
    def __init__(self, scn):
        self.scn = scn
        self.ext = {0} | set(range(700, 720)) | set(range(900, 1000))

    def own(self, hs):
        return sorted({h for h in hs if h not in self.ext})

    def params(self, k, ev):
        if k == 'Image':
            return [ev['type'], ev['fmt'], ev['ext'], ev['mips'], ev['layers'], ev['usage'], ev['flags'], ev['samples'], ev['tiling']]
        if k == 'ImageView':
            return [ev['flags'], ev['vt'], ev['fmt'], ''.join(ev['asp']), ev['r'], ev['swz']]
        if k == 'Sampler':
            return [ev[x] for x in ('mag', 'min', 'mip', 'u', 'v', 'w', 'bias', 'minLod', 'maxLod')]
        if k == 'Memory':
            return [ev['size'], ev['type']]
        return []

    def declared_image(self, i):
        d = self.scn['images'][i]
        return [d['type'], d['fmt'], d['ext'], d['mips'], d['layers'], d['usage'], d.get('flags', 0), d.get('samples', 1), d.get('tiling', 0)]

    def declared_view(self, v):
        d = self.scn['views'][v]
        return [d.get('flags', 0), d['vt'], d['fmt'], d['asp'], d['r'], d.get('swz', [3, 4, 5, 6])]

    def cmd(self, ev):
        """objects a command uses while it executes; objects which only have to exist when it is recorded"""
        e, r, only = ev['e'], [], []
        if e == 'BindPipeline':
            r = [ev['p']]
        elif e == 'BindDescriptorSets':
            r, only = ev['sets'], [ev['layout']]
        elif e == 'BindVertexBuffers':
            r = ev['bs']
        elif e in ('BindIndexBuffer', 'DispatchIndirect', 'FillBuffer'):
            r = [ev['b']]
        elif e in ('ClearColor', 'ClearDS'):
            r = [ev['img']]
        elif e in ('DrawIndirect', 'DrawIndexedIndirect'):
            r = [ev['a'][0]]
        elif e == 'BeginRenderPass':
            r = [ev['rp'], ev['fb']]
        elif e in ('ResetQueryPool', 'WriteTimestamp'):
            r = [ev['pool']]
        elif e == 'Barrier':
            r = [b['b'] for b in ev['buf']] + [b['img'] for b in ev['img']]
        elif e in ('Blit', 'CopyBuffer', 'CopyImage', 'CopyB2I', 'CopyI2B'):
            r = [ev['s'], ev['d']]
        elif e == 'PushConstants':
            only = [ev['layout']] if 'layout' in ev else []
        elif e not in ('BeginCommandBuffer', 'EndCommandBuffer', 'ResetCommandBuffer'):
            return None
        return self.own(r), self.own(only)

    def run(self, evs):
        scn = self.scn
        ims = {i: self.declared_image(i) for i in scn['images']}
        out = [{'e': 'scen', 's': scn['s']}]
        gof = {p: d['graph'] for p, d in scn['passes'].items()}
        one = {p: len(d.get('cfg', {}).get('progs', [0])) == 1 for p, d in scn['passes'].items()}
        nth, lid = {}, {}
        ops = [o['do'] if o['op'] == 'faulty' else o for o in scn['ops']]
        seq = {k: [o for o in ops if o['op'] == k] for k in ('csampler', 'cquad', 'ctx', 'memtype')}

        def opn(k):
            nth[k] = nth.get(k, 0) + 1
            return seq[k][nth[k] - 1]
        for ev in evs:
            e = ev['e']
            if e in CREATES:
                k = CREATES[e]
                n = {'e': 'new', 'h': ev['h'], 'k': k, 'par': [], 'cre': [], 'use': [], 'pr': self.params(k, ev)}
                if k == 'ImageView':
                    n['par'] = n['use'] = n['cre'] = [ev['img']]
                elif k == 'Framebuffer':
                    n['cre'] = self.own([ev['rp']] + ev['views'])
                    n['use'] = self.own(ev['views'])
                elif k == 'PipelineLayout':
                    n['cre'] = self.own(ev['sets'])
                elif k == 'Pipeline':
                    n['cre'] = self.own([ev['layout'], ev.get('rp', 0)])
                out.append(n)
            elif e in ('AllocateCommandBuffers', 'AllocateDescriptorSets'):
                cb = e == 'AllocateCommandBuffers'
                for j, h in enumerate(ev['cbs'] if cb else ev['sets']):
                    out.append({'e': 'new', 'h': h, 'k': 'CommandBuffer' if cb else 'DescriptorSet', 'par': [ev['pool']],
                                'cre': self.own([ev['pool']] + ([] if cb else ev['layouts'])), 'use': [], 'pr': []})
            elif e.startswith('Destroy') and e != 'DestroyDevice':
                if ev['h']:
                    out.append({'e': 'del', 'h': ev['h']})
            elif e == 'FreeMemory':
                out.append({'e': 'del', 'h': ev['h']})
            elif e in ('FreeCommandBuffers', 'FreeDescriptorSets'):
                for h in ev['cbs'] if 'cbs' in ev else ev['sets']:
                    out.append({'e': 'del', 'h': h})
            elif e == 'BindBufferMemory' or e == 'BindImageMemory':
                out.append({'e': 'mem', 'h': ev['b'] if 'b' in ev else ev['img'], 'mem': ev['mem'], 'off': ev['off'], 'want': 2 if 'b' in ev else 1})
            elif e == 'BufReq' or e == 'ImgReq':
                out.append({'e': 'req', 'h': ev['b'] if 'b' in ev else ev['img'], 'size': ev['size'], 'bits': bits(ev['bits'])})
            elif e == 'FlushMemory':
                for m, o, n, data in ev['rs']:
                    out.append({'e': 'flush', 'mem': m, 'off': o, 'size': n, 'data': data})
            elif e == 'UnmapMemory':
                out.append({'e': 'unmap', 'mem': ev['mem'], 'data': ev['data']})
            elif e == 'MapMemory':
                out.append({'e': 'touch', 'hs': [ev['mem']]})
            elif e == 'UpdateDescriptorSets':
                for w in ev['ws']:
                    refs = [x for a in w['img'] for x in a[:2]] + [a[0] for a in w['buf']] + list(w['tex'])
                    out.append({'e': 'upd', 'set': w['set'], 'b': w['b'], 'refs': self.own(refs)})
            elif e == 'WaitForFences':
                out.append({'e': 'wait', 'fs': ev['fs']})
            elif e == 'ResetFences':
                out.append({'e': 'touch', 'hs': ev['fs']})
            elif e == 'GetQueryPoolResults':
                out.append({'e': 'touch', 'hs': [ev['pool']]})
            elif e == 'QueueSubmit':
                for q in ev['subs']:
                    out.append({'e': 'submit', 'fence': ev['fence'], 'cbs': q['cbs'], 'sems': self.own(q['sigs'] + q['waits'])})
            elif e in ('BeginCommandBuffer', 'ResetCommandBuffer'):
                out.append({'e': 'rec', 'cb': ev['cb']})
            elif e == 'begin':
                out.append({'e': 'in', 'p': ev['p'], 'idx': ev['idx']})
            elif e == 'end':
                out.append({'e': 'in', 'p': 0, 'idx': 0})
            elif e == 'resetPipe':
                out += [{'e': 'win', 'o': gof[ev['p']]}, {'e': 'replace', 'p': ev['p'], 'idx': ev['idx'], 'all': one[ev['p']], 'g': gof[ev['p']]}]
            elif e == 'compiling':
                out.append({'e': 'win', 'o': ev['g']})
            elif e == 'runBegin':
                submitted = ev['submit']
                out.append({'e': 'win', 'o': ev['g']})
            elif e == 'runEnd':
                if submitted:
                    out.append({'e': 'ran', 'g': ev['g'], 'ok': ev['ok']})
            elif e == 'destroyRun':
                out.append({'e': 'idle'})
            elif e == 'teardown':
                out.append({'e': 'idle'})
            elif e == 'destroyedRun':
                out.append({'e': 'gone', 'o': ev['g']})
            elif e == 'droppedcache':
                out.append({'e': 'gone', 'o': ev['id']})
            elif e == 'cop':
                out.append({'e': 'cop'})
            elif e == 'buffer':
                self.ext |= set(ev['hs'])
            elif e in ('sem', 'bufview'):
                self.ext.add(ev['h'])
            elif e == 'image':
                lid[('i', ev['id'])] = ev['lid']
                out.append({'e': 'image', 'lid': ev['lid']})
            elif e == 'merge':
                lid[('v', ev['id'])] = ev['d']['id']
            elif e == 'view':
                d = scn['views'][ev['id']]
                lid[('v', ev['id'])] = ev['lid']
                out.append({'e': 'view', 'lid': ev['lid'], 'd': [d['img']] + self.declared_view(ev['id'])})
            elif e in ('imap', 'cimage'):
                i = ev['id'] if e == 'imap' else ev['img']
                out.append({'e': 'backing', 'c': ev.get('c', 0), 'id': lid[('i', i)], 'h': ev['h'], 'pr': ims[i], 'view': False, 'img': 0})
            elif e in ('vmap', 'cview'):
                v = ev['id'] if e == 'vmap' else ev['view']
                out.append({'e': 'backing', 'c': ev.get('c', 0), 'id': lid[('v', v)], 'h': ev['h'], 'pr': self.declared_view(v), 'view': True,
                            'img': lid[('i', scn['views'][v]['img'])]})
            elif e == 'dimage':
                out.append({'e': 'gone1', 'id': lid[('i', ev['img'])], 'c': ev['c'], 'r': ev['r'], 'view': False})
            elif e == 'dview':
                out.append({'e': 'gone1', 'id': lid[('v', ev['view'])], 'c': ev['c'], 'r': ev['r'], 'view': True})
            elif e == 'cache':
                pass
            elif e == 'csampler':
                d = opn('csampler')['d']
                out.append({'e': 'sampler', 'c': ev['c'], 'h': ev['h'], 'd': d[:6] + [int(x * 1000) for x in d[6:]]})
            elif e == 'cquad':
                o = opn('cquad')
                out.append({'e': 'quad', 'c': ev['c'], 'h': ev['h'], 'mem': ev['mem'], 'attrs': ev['attrs'], 'binds': ev['binds'], 'd': [int(o['tex']), int(o['u']), int(o['v'])]})
            elif e == 'ctx':
                out.append({'e': 'ctx', 'mem': opn('ctx').get('mem', [1, 2, 7])})
            elif e == 'memtype':
                out.append({'e': 'memtype', 'bits': bits(opn('memtype')['mask']), 'req': ev['req'], 'r': ev['r']})
            elif e in ('reg', 'rename', 'unreg'):
                out.append({'e': e, 'h': ev['h'], 't': ev['t'], 'name': ev['name']})
            elif e == 'regDone':
                out.append({'e': e})
            elif e == 'Name':
                out.append({'e': 'name', 'h': ev['h'], 't': ev['t'], 'name': ev['name']})
            elif e == 'Failed':
                out.append({'e': 'failed', 'call': ev['call']})
            elif e == 'arm':
                out.append({'e': 'try', 'op': ev['op']})
            elif e == 'armed':
                out.append({'e': 'tried', 'ok': ev['ok']})
            elif e == 'leaks':
                out.append({'e': e, 'items': [i[:2] for i in ev['items']]})
            elif e == 'endscen':
                out.append({'e': 'fin'})
            elif 'cb' in ev and self.cmd(ev) is not None:
                r, only = self.cmd(ev)
                if r or only:
                    out.append({'e': 'cmd', 'cb': ev['cb'], 'refs': r, 'only': only, 'pipe': ev['p'] if e == 'BindPipeline' else 0})
        # the operation that asked something of a cache owns what is created until it answers
        res = []
        for x in out:
            if x['e'] == 'cop':
                res.append({'e': 'win', 'o': -1})
                continue
            res.append(x)
        own = None
        for x in reversed(res):
            if x.get('c'):
                own = x['c']
            if x['e'] == 'win' and x['o'] == -1:
                x['o'] = own if own is not None else 0
        return res


def project(scn, evs):
    return Proj(scn).run(evs)
