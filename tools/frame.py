"""Scenarios and projection for Frame.tla (C01 C02 C03 C09 C15 C17)."""
import json, random, re, shutil, tempfile
from sgen import Scn
import vlib

MODULE = 'Frame'
PROPS = ['C01', 'C02', 'C03', 'C09', 'C15', 'C17', 'C31']
WORK = {'Draw', 'DrawIndexed', 'DrawIndirect', 'DrawIndexedIndirect', 'Dispatch', 'DispatchIndirect', 'BeginRenderPass',
        'Blit', 'CopyBuffer', 'CopyB2I', 'CopyI2B', 'CopyImage'}
EXEC = {'custom', 'compute', 'quad', 'render', 'mesh'}
STAGES = [['FS'], ['CS'], ['CO'], ['TR'], ['EF'], ['VS'], ['LF']]


def shape(kind, n, rnd):
    """dependency lists over 0..n-1"""
    d = {i: set() for i in range(n)}
    perm = list(range(n))
    rnd.shuffle(perm)
    if kind == 'chain':
        for a, b in zip(perm, perm[1:]):
            d[b].add(a)
    elif kind == 'fan':
        for b in perm[1:]:
            d[b].add(perm[0])
    elif kind == 'join':
        for a in perm[:-1]:
            d[perm[-1]].add(a)
    elif kind == 'none':
        pass
    else:
        pr = rnd.choice([0.15, 0.3, 0.5, 0.8])
        for i in range(n):
            for j in range(i):
                if rnd.random() < pr:
                    d[perm[i]].add(perm[j])
    if kind == 'cycle' and n > 1:
        for _ in range(rnd.randint(1, 2)):
            a, b = rnd.sample(range(n), 2)
            d[a].add(b)
    return d


def one_graph(sc, rnd, name, n, deps, opts):
    g = sc.graph(name=name)
    grp = [None]
    for _ in range(opts.get('groups', 0)):
        par = rnd.choice(grp)
        nm = rnd.choice(['a', 'b', 'c'])
        grp.append(sc.group(g, par, nm))
    views = opts['views']
    ps = []
    for i in range(n):
        kind = rnd.choice(opts.get('kinds', ['custom']))
        maxpass = rnd.choice([1, 1, 2, 3]) if kind in ('custom',) else 1
        o = {'kind': kind, 'maxpass': maxpass, 'pre': rnd.choice([0, 0, 1, 2]), 'post': rnd.choice([0, 0, 1, 2]),
             'enabled': opts.get('allen', True) or rnd.random() < .7, 'index': rnd.randrange(maxpass),
             'resettable': rnd.random() < .2, 'atts': []}
        gp = rnd.choice(grp)
        pid = sc.next()
        mine = rnd.sample(views, min(len(views), rnd.choice([0, 1, 1, 2, 3])))
        if kind == 'custom':
            o['st'] = rnd.choice(STAGES)
            o['compute'] = o['st'] == ['CS']
            for v in mine:
                vs = [v] if maxpass == 1 or rnd.random() < .5 else [rnd.choice(views) for _ in range(maxpass)]
                k = rnd.choice(['sampled', 'inStorage', 'ioStorage', 'outStorage', 'inTransfer', 'outTransfer', 'ioTransfer'])
                o['atts'].append({'k': k, 'views': vs, 'bind': len(o['atts'])})
        elif kind == 'compute':
            o['cfg'] = {'progs': [[[32, 900]]], 'layouts': [], 'gc': [1, 2, 3]}
            for v in mine:
                o['atts'].append({'k': 'inStorage', 'views': [v], 'bind': len(o['atts'])})
        elif kind == 'quad':
            t = sc.image(fmt=37, ext=[16, 16, 1])
            tv = sc.view(t, 37, 'C', [0, 1, 0, 1])
            o['cfg'] = {'progs': [[[1, 900], [16, 901]]], 'layouts': [], 'size': [16, 16]}
            o['atts'].append({'k': 'outColour', 'views': [tv]})
            for v in mine:
                o['atts'].append({'k': 'sampled', 'views': [v], 'bind': len(o['atts'])})
        if opts.get('imp') and rnd.random() < opts['imp']:
            o['imp'] = [{'view': v, 'do': 'mark'} for v in rnd.sample(views, min(len(views), rnd.choice([1, 1, 2])))]
            for x in o['imp']:
                src = [v for v in views if sc.views[v]['img'] != sc.views[x['view']]['img']]
                if src and rnd.random() < .35:
                    x.update(src=rnd.choice(src), do=rnd.choice(['copy', 'blit']), ext=[4, 4], so=[0, 0], se=[4, 4], do_=[0, 0], de=[4, 4], filter=0)
        sc.pass_(pid, g, gp, 'p%d' % i, **o)
        ps.append(pid)
        if opts.get('dups') and rnd.random() < .3:
            x = sc.pass_(sc.next(), g, gp, 'p%d' % rnd.randrange(i + 1), kind='custom')
        if opts.get('dups') and rnd.random() < .3 and grp[1:]:
            x = rnd.choice(grp[1:])
            sc.group(g, sc.parents[x], sc.gnames[x])
    for i in range(n):
        for j in sorted(deps[i]):
            sc.op('dep', id=ps[i], on=ps[j])
            sc.passes[ps[i]]['deps'].append(ps[j])
    for v in views:
        sc.op('input', id=g, view=v, lay='SHADER_RO')
    return g, ps


def frames(sc, rnd, gs, n, timers=True, allfirst=True):
    sems = [sc.sem() for _ in range(3)]
    for f in range(n):
        for g, ps in gs:
            for p in ps:
                d = sc.passes[p]
                if f == 1 and allfirst:
                    sc.set(p, enabled=True, index=rnd.randrange(d['maxpass']))
                elif f and rnd.random() < .6:
                    sc.set(p, enabled=rnd.random() < .6, index=rnd.randrange(d['maxpass']))
            w = []
            for _ in range(rnd.choice([0, 0, 1, 2, 3])):
                s = rnd.choice(sems + [0])
                w.append([s, [['FS'], ['CO', 'CS'], ['TR']][sems.index(s) if s else 0]])
            r = rnd.random()
            if r < .85:
                sc.op('run', id=g, wait=w, one=rnd.random() < .5, arr=rnd.random() < .5)
            else:
                sc.op('record', id=g)
            for p in ps:
                if sc.passes[p].get('resettable') and rnd.random() < .5:
                    if rnd.random() < .3:
                        d = sc.passes[p]
                        sc.set(p, enabled=rnd.random() < .8, index=rnd.randrange(d['maxpass']))
                    sc.op('rerecord', id=p)
            if timers and rnd.random() < .5:
                sc.op('gputime', graph=g)
                for p in ps:
                    if rnd.random() < .6:
                        sc.op('gputime', id=p)


def images(sc, rnd, n):
    vs = []
    for i in range(n):
        im = sc.image(fmt=37, ext=[32, 32, 1], mips=rnd.choice([1, 3]))
        vs.append(sc.view(im, 37, 'C', [0, 1, 0, 1]))
        if sc.images[im]['mips'] > 1 and rnd.random() < .4:
            vs.append(sc.view(im, 37, 'C', [1, 1, 0, 1]))
    return vs


def random_scenario(s, rnd):
    sc = Scn(s, 'random')
    sc.ctx(period=rnd.choice([1, 1, 2, 0.5, 4, 10, 40.5]))
    k = rnd.random()
    ng = 1 if k < .8 else 2
    views = images(sc, rnd, rnd.choice([1, 2, 3]))
    gs = []
    for i in range(ng):
        kind = rnd.choice(['rand', 'rand', 'rand', 'chain', 'fan', 'join', 'none', 'cycle'])
        n = rnd.choice([1, 2, 3, 4, 4, 5, 6, 8])
        g, ps = one_graph(sc, rnd, 'g%d' % i, n, shape(kind, n, rnd),
                          {'groups': rnd.choice([0, 0, 1, 2, 3]), 'views': views, 'allen': rnd.random() < .5,
                           'kinds': rnd.choice([['custom'], ['custom'], ['custom', 'compute'], ['custom', 'quad', 'compute']]),
                           'imp': rnd.choice([0, .4, .8]), 'dups': rnd.random() < .2})
        gs.append((g, ps))
    if ng == 2:
        sc.op('graphdep', id=gs[1][0], on=gs[0][0])
    for g, ps in gs:
        sc.op('compile', id=g)
    frames(sc, rnd, gs, rnd.choice([2, 3, 4, 5]))
    return sc.done()


def relayed(s, rnd):
    """disabled passes whose actions copy from what the actions of others stand in for"""
    sc = Scn(s, 'relay')
    sc.ctx()
    n = rnd.choice([2, 3, 4])
    vs = [sc.view(sc.image(fmt=37, ext=[16, 16, 1]), 37, 'C', [0, 1, 0, 1]) for _ in range(n)]
    g = sc.graph(name='g')
    ps = []
    for i in range(n + 1):
        imp = []
        if i < n:
            x = {'view': vs[i], 'do': 'mark'}
            if i and rnd.random() < .85:
                x.update(src=vs[rnd.randrange(i)], do=rnd.choice(['copy', 'blit']), ext=[4, 4], so=[0, 0], se=[4, 4], do_=[0, 0], de=[4, 4], filter=0,
                         final=rnd.choice(['UNDEF', 'SHADER_RO']))
            imp.append(x)
        atts = [{'k': 'outTransfer', 'views': [vs[i]]}] if i < n else [{'k': 'sampled', 'views': [v], 'bind': k} for k, v in enumerate(vs) if v == vs[-1] or rnd.random() < .2]
        p = sc.pass_(sc.next(), g, None, 'p%d' % i, kind='custom', st=['TR' if i < n else 'FS'], enabled=True, atts=atts, imp=imp)
        if ps:
            sc.op('dep', id=p, on=ps[-1])
            sc.passes[p]['deps'].append(ps[-1])
        ps.append(p)
    for v in vs:
        sc.op('input', id=g, view=v, lay='SHADER_RO')
    sc.op('compile', id=g)
    for f in range(4):
        for p in ps:
            sc.set(p, enabled=f == 0 or rnd.random() < (.35 if p != ps[-1] else .9), index=0)
        sc.op('run', id=g, wait=[])
    return sc.done()


def ordered(s, h):
    """a dependency relation of OrderGen.tla"""
    sc = Scn(s, 'relation')
    sc.ctx()
    g = sc.graph(name='g')
    ps = [sc.next() for _ in h['dep']]
    for i, p in enumerate(ps):
        sc.pass_(p, g, None, 'p%d' % i, kind='custom', st=['FS'], maxpass=1, enabled=True, atts=[])
    for i, p in enumerate(ps):
        for q in sorted(h['dep'][i]):
            sc.op('dep', id=p, on=ps[q - 1])
            sc.passes[p]['deps'].append(ps[q - 1])
    sc.op('compile', id=g)
    sc.op('run', id=g, wait=[])
    if len(h['on']) < len(ps):
        for i, p in enumerate(ps):
            if i + 1 not in h['on']:
                sc.set(p, enabled=False, index=0)
        sc.op('run', id=g, wait=[])
    return sc.done()


def performed(s, h):
    """a history of FrameGen.tla"""
    sc = Scn(s, 'history')
    sc.ctx(period=2)
    im = sc.image(fmt=37, ext=[16, 16, 1])
    v = sc.view(im, 37, 'C', [0, 1, 0, 1])
    g = sc.graph(name='g')
    ps = [sc.next(), sc.next()]
    sc.pass_(ps[0], g, None, 'first', kind='custom', st=['CS'], compute=True, maxpass=2, pre=1, post=1, enabled=True, index=0,
             atts=[{'k': 'outStorage', 'views': [v], 'bind': 0}], imp=[{'view': v, 'do': 'mark'}])
    sc.pass_(ps[1], g, None, 'second', kind='custom', st=['FS'], maxpass=1, enabled=True, atts=[{'k': 'sampled', 'views': [v], 'bind': 0}])
    sc.op('dep', id=ps[1], on=ps[0])
    sc.passes[ps[1]]['deps'].append(ps[0])
    sc.op('compile', id=g)
    en, idx = True, 0
    for o in list(h) + ['run', 'time0', 'time1', 'time2']:
        if o == 'run':
            sc.op('run', id=g, wait=[])
        elif o == 'record':
            sc.op('record', id=g)
        elif o == 'time0':
            sc.op('gputime', graph=g)
        elif o in ('time1', 'time2'):
            sc.op('gputime', id=ps[int(o[4]) - 1])
        else:
            en, idx = (not en, idx) if o == 'toggle' else (en, 1 - idx)
            sc.set(ps[0], enabled=en, index=idx)
    return sc.done()


def scenarios(tier, seed):
    rnd = random.Random(seed * 7919 + 1)
    n = 350 if tier == 'quick' else 6000
    out = []
    sc = Scn(0, 'empty')
    sc.ctx()
    g = sc.graph(name='g')
    sc.op('compile', id=g)
    out.append(sc.done())
    for i in range(n):
        out.append(random_scenario(i + 1, random.Random(rnd.random())))
    for i in range(n // 6):
        out.append(relayed(len(out), random.Random(rnd.random())))
    w = tempfile.mkdtemp(prefix='frm.')
    try:
        for mod, cfg, make in [('OrderGen', 'OrderGen', ordered), ('OrderGen', 'OrderGen4', ordered), ('FrameGen', 'FrameGen', performed)] if tier == 'quick' else \
                              [('OrderGen', 'OrderGen', ordered), ('OrderGen', 'OrderGenDeep', ordered), ('FrameGen', 'FrameGenDeep', performed)]:
            for h in sorted(vlib.histories(w, mod, cfg + '.cfg', workers=4), key=repr):
                out.append(make(len(out), h))
    finally:
        shutil.rmtree(w)
    return out


def project(scn, evs):
    """recorded events -> the events Frame.tla talks about"""
    P = scn['passes']
    ids = list(P)
    num = {p: i + 1 for i, p in enumerate(ids)}
    decl = {'passes': [], 'period': int(round(scn['period'] * 1000))}
    for p in ids:
        d = P[p]
        uses = []
        for i in range(d['maxpass']):
            uses.append([a['views'][0] if len(a['views']) == 1 else a['views'][i] for a in d['atts'] if 'views' in a])
        st = d.get('st', []) if d['kind'] == 'custom' else ['CS'] if d['kind'] == 'compute' else []
        decl['passes'].append({'g': d['graph'], 'deps': [num[x] for x in d['deps']], 'uses': uses,
                               'imps': [x['view'] for x in d.get('imp', [])], 'srcs': [x.get('src', 0) for x in d.get('imp', [])], 'pre': d.get('pre', 0), 'post': d.get('post', 0),
                               'en': d.get('enabled', True), 'idx': d.get('index', 0), 'st': st,
                               'hasExec': d['kind'] in EXEC, 'hasInit': d['kind'] == 'custom'})
    out = [{'e': 'scen', 's': scn['s'], 'decl': decl}]
    created, compiling = [], None
    label, running, inside = {}, 0, 0
    out_label, seen, body, again, marks = 0, {}, None, None, {b: a for a, b in num.items()}

    def word(ev):
        # one number per command, as recorded in whichever buffer; a render pass and its pipeline may be made anew for what precedes them
        if ev['e'] in ('BeginRenderPass', 'BindPipeline'):
            ev = {'e': ev['e']}
        k = json.dumps({x: y for x, y in sorted(ev.items()) if x != 'cb'})
        return seen.setdefault(k, len(seen) + 1)
    for ev in evs:
        e = ev['e']
        if again is not None:
            if e == 'rerecorded':
                if ev['made']:
                    out.append({'e': 'rerec', 'p': again['p'], 'cbs': sorted(again['cbs']), 'cmds': again['cmds']})
                again = None
                continue
            if e == 'BeginCommandBuffer':
                again['cbs'].add(ev['cb'])
            elif 'cb' in ev and e not in ('EndCommandBuffer', 'ResetQueryPool', 'WriteTimestamp', 'ResetCommandBuffer'):
                again['cmds'].append(word(ev))
            if e not in ('BeginCommandBuffer', 'EndCommandBuffer', 'WaitForFences', 'ResetFences', 'ResetCommandBuffer', 'init'):
                continue
        elif e == 'rerecord':
            again = {'p': num[ev['p']], 'cbs': set(), 'cmds': []}
            continue
        elif body is not None and 'cb' in ev and e not in ('ResetQueryPool', 'WriteTimestamp'):
            body.append(word(ev))
        if e == 'group':
            G = scn['groups'][ev['id']]
            out.append({'e': e, 'id': ev['id'], 'same': ev['same'], 'parent': G['parent'], 'name': G['name'],
                        'gname': ev['name'], 'full': ev['full'], 'prefix': scn['gfull'][G['parent']]})
        elif e == 'pass':
            d = P[ev['id']]
            label[(d['graph'], ev['lid'], ev['gname'])] = num[ev['id']]
            out.append({'e': e, 'p': num[ev['id']], 'ok': ev['ok'], 'lid': ev['lid'], 'g': d['graph'],
                        'parent': scn['canon'].get(d['parent'], d['parent']), 'name': d['name'], 'pname': ev['name'],
                        'full': ev['full'], 'prefix': scn['gfull'][d['parent']]})
        elif e == 'compiling':
            created, compiling = [], ev['g']
        elif e == 'created':
            created.append(num[ev['p']])
        elif e == 'compiled':
            out.append({'e': e, 'g': ev['id'], 'ok': ev['ok'], 'err': ev['err'], 'created': created})
            compiling = None
        elif e == 'set':
            out.append({'e': e, 'p': num[ev['p']], 'en': ev['enabled'], 'idx': ev['idx']})
        elif e == 'init':
            out.append({'e': e, 'p': num[ev['p']], 'idx': ev['idx']})
        elif e in ('pre', 'begin', 'exec', 'end', 'post', 'implicit', 'implicitEnd'):
            inside += (e == 'implicit') - (e == 'implicitEnd')
            out.append({'e': e, 'p': num[ev['p']], 'j': ev.get('j', 0) + (e in ('implicit', 'implicitEnd')), 'idx': ev['idx'], 'cb': ev['cb']})
        elif e == 'runBegin':
            running = ev['g']
            out.append({'e': e, 'g': ev['g'], 'submit': ev['submit'], 'waits': ev['waits']})
        elif e == 'runEnd':
            out.append({'e': e, 'g': ev['g'], 'ok': ev['ok'], 'ret': ev['ret'], 'err': ev.get('err', '')})
        elif e in ('CreateFence', 'WaitForFences', 'ResetFences', 'ResetCommandBuffer', 'BeginCommandBuffer', 'EndCommandBuffer',
                   'QueueSubmit', 'CreateQueryPool', 'ResetQueryPool', 'WriteTimestamp', 'GetQueryPoolResults', 'gpuBegin', 'gpuTime'):
            if e in ('gpuBegin', 'gpuTime'):
                ev = dict(ev, p=num.get(ev['p'], 0))
            out.append(ev)
        elif e == 'BeginLabel':
            m = re.match(r'\[(\d+)\] (.*)$', ev['name'])
            body = [word(ev)]
            out_label = label.get((running, int(m.group(1)), m.group(2)), 0) if m else 0
            out.append({'e': 'label', 'cb': ev['cb'], 'p': out_label})
        elif e == 'EndLabel':
            out.append({'e': 'unlabel', 'cb': ev['cb']})
            if body is not None and out_label and scn['passes'][marks[out_label]].get('resettable'):
                out.append({'e': 'body', 'p': out_label, 'cb': ev['cb'], 'cmds': body})
            body = None
        elif e in WORK and not inside:
            out.append({'e': 'work', 'k': e, 'cb': ev['cb']})
    return out
