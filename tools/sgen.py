"""Scenario builder: the operations for the harness plus the declarations the specification needs."""


class Scn:
    def __init__(self, s, name):
        self.s, self.name = s, name
        self.ops, self.n = [], 0
        self.passes, self.groups, self.images, self.views, self.buffers = {}, {}, {}, {}, {}
        self.parents, self.gnames, self.gfull, self.canon = {}, {}, {}, {}
        self.period = 1
        self._key = {}
        self.meta = {}

    def next(self):
        self.n += 1
        return self.n

    def op(self, op, **kw):
        self.ops.append(dict(op=op, **kw))

    def ctx(self, **kw):
        i = self.next()
        self.period = kw.get('period', 1)
        self.op('ctx', id=i, **kw)
        return i

    def graph(self, name=None):
        i = self.next()
        name = name or 'G%d' % i
        self.op('graph', id=i, name=name)
        self.gfull[i] = name
        return i

    def group(self, g, parent, name):
        i = self.next()
        par = parent or g
        par = self.canon.get(par, par)
        if parent:
            self.op('group', id=i, parent=parent, name=name)
        else:
            self.op('group', id=i, graph=g, name=name)
        self.groups[i] = {'parent': par, 'name': name}
        self.parents[i], self.gnames[i] = parent, name
        self.gfull[i] = self.gfull[par] + '/' + name
        self.canon[i] = self._key.setdefault((par, name), i)
        return i

    def image(self, fmt=37, ext=(16, 16, 1), mips=1, layers=1, type=1, usage=255, graph=None, **kw):
        i = self.next()
        o = dict(id=i, type=type, fmt=fmt, ext=list(ext), mips=mips, layers=layers, usage=usage, name='I%d' % i, **kw)
        if graph:
            o['graph'] = graph
        self.op('image', **o)
        self.images[i] = o
        return i

    def view(self, img, fmt, asp, r, vt=1, graph=None, **kw):
        i = self.next()
        o = dict(id=i, img=img, vt=vt, fmt=fmt, asp=asp, r=list(r), **kw)
        if graph:
            o['graph'] = graph
        self.op('view', **o)
        self.views[i] = o
        return i

    def buffer(self, n=1):
        i = self.next()
        self.op('buffer', id=i, n=n, name='B%d' % i)
        self.buffers[i] = n
        return i

    def bufview(self):
        i = self.next()
        self.op('bufview', id=i)
        return i

    def sem(self):
        i = self.next()
        self.op('sem', id=i)
        return i

    def pass_(self, pid, g, grp, name, **o):
        d = dict(op='pass', id=pid, graph=g, name=name, **{k: v for k, v in o.items() if k != 'deps'})
        if grp:
            d['group'] = grp
        self.ops.append(d)
        q = dict(o)
        q.update(graph=g, name=name, parent=grp or g, deps=[])
        q.setdefault('maxpass', 1)
        q.setdefault('atts', [])
        self.passes[pid] = q
        return pid

    def set(self, p, **kw):
        self.op('set', id=p, **kw)

    def done(self):
        return {'s': self.s, 'name': self.name, 'ops': self.ops, 'passes': self.passes, 'groups': self.groups,
                'images': self.images, 'views': self.views, 'buffers': self.buffers, 'gfull': self.gfull,
                'canon': self.canon, 'period': self.period, 'meta': self.meta}
