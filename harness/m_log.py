"""Footprint logs (reporting.FootprintLog): histories of additions, clears, reductions and views."""
import gc

import footprints  # noqa: F401
from footprints import reporting

COLLECTORS = ['alpha', 'beta', 'gamma']
CLASSES = ['pk.Aa', 'qk.Ab', 'pk.Ba', 'q.Zz', 'Ca']
ATTRS = ['kind', 'model', 'num']


class Node:
    """What an entry describes."""

    def __init__(self, name):
        self.tag = name

    def fullname(self):
        return self.tag


class Session:

    def __init__(self):
        self.logs = dict()
        self.nodes = dict()
        self.gone = set()

    def node(self, name):
        if name not in self.nodes:
            self.nodes[name] = Node(name)
        return self.nodes[name]

    def run(self, c):
        c = dict(c)
        try:
            c['res'] = getattr(self, 'op_' + c['op'])(c)
        except Exception as e:
            c['res'] = dict(k='exc', x=type(e).__name__)
        gc.collect()
        c['obs'] = {n: dict(weak=x.weak, ent=self.content(x)) for n, x in self.logs.items()}
        return c

    @staticmethod
    def content(log):
        return [[x.name, x.node is not None,
                 [[k.name, k.node is not None, [Session.item(y) for y in k]] for k in x]] for x in log]

    @staticmethod
    def item(y):
        y = dict(y)
        return [y.pop('name'), {a: str(b) for a, b in y.items()}]

    def op_mk(self, c):
        new = reporting.get(tag=c['log'], **(dict(log_maxlen=c['max']) if c['max'] >= 0 else dict()),
                            **(dict(weak=False) if not c['weak'] else dict()))
        if c['log'] in self.logs and new is not self.logs[c['log']]:
            return dict(k='other')
        self.logs[c['log']] = new
        return dict(k='ok')

    def op_add(self, c):
        log, what = self.logs[c['log']], c['what']
        if what == 'collector':
            node = self.node(c['node'])
            if c.get('via') == 'direct':
                log.add_collector(node, weak=log.weak)
            else:
                log.add(collector=node)
        elif what == 'candidate':
            node = self.node(c['node'])
            if c.get('via') == 'direct':
                log.add_candidate(node, weak=log.weak)
            else:
                log.add(candidate=node)
        elif what == 'attribute':
            if c.get('via') == 'direct':
                log.add_attribute(c['name'], **c['info'])
            else:
                log.add(attribute=c['name'], **c['info'])
        else:
            log.add(**c.get('info', {}))
        return dict(k='ok')

    def op_current(self, c):
        log = self.logs[c['log']]
        x = list(log)[c['i'] - 1]
        if c['j']:
            x = list(x)[c['j'] - 1]
        return dict(k='ok' if log.current(x) is x else 'other')

    def op_clear(self, c):
        self.logs[c['log']].clear()
        return dict(k='ok')

    def op_reduce(self, c):
        self.logs[c['log']].reduce_to_last()
        return dict(k='ok')

    def op_drop(self, c):
        self.gone.add(c['node'])
        self.nodes.pop(c['node'], None)
        return dict(k='ok')

    def op_view(self, c):
        log, m = self.logs[c['log']], c['m']
        if m == 'dict':
            kw = dict(force=True) if c.get('force') else dict()
            d = log.as_dict(stamp=c['stamp'], **kw)
            keys = list(d)
            if c['stamp']:
                stamps = [x.stamp.isoformat() for x in log]
                keys = [k[:-len(s) - 1] if k.endswith(' ' + s) else '?' + k for k, s in zip(keys, stamps)]
            return dict(k='dict', l=[[k, x] for k, x in zip(keys, d.values())])
        if m == 'xml':
            doc = log.as_xml(**(dict(force=True) if c.get('force') else dict())).doc
            root = doc.documentElement
            if root.getAttribute('tag') != c['log']:
                return dict(k='other')
            out = []
            for x in root.childNodes:
                kids = []
                for y in x.childNodes:
                    items = []
                    for z in y.childNodes:
                        at = {z.attributes.item(n).name: z.attributes.item(n).value for n in range(z.attributes.length)}
                        items.append([at.pop('name'), at])
                    kids.append([y.getAttribute('name'), items])
                out.append([x.getAttribute('name'), kids])
            return dict(k='xml', l=out)
        if m == 'xmllast':
            if not len(log):
                return dict(k='xmllast', l=[])
            return dict(k='xmllast', l=[[x['classname'], x['name'], x['why']] for x in log.as_xml().iter_last()])
        if m == 'whynot':
            d = log.whynot(c['sel'])
            return dict(k='none') if d is None else dict(k='why', d=d)
        if m == 'last':
            x = log.last
            return dict(k='none') if x is None else dict(k='entry', name=x.name, d=x.as_dict())
        if m == 'raw':
            a, b = [x.name for x in log], [x.name for x in log.items()]
            return dict(k='raw', len=len(log), l=a) if a == b else dict(k='other')
        raise ValueError(m)


def commands(rng, sess, i):
    def mk(name):
        return dict(op='mk', log=name, max=rng.choice([-1, 0, 1, 1, 2, 2, 3, 3, 4]), weak=rng.random() < .7)
    yield mk('l1')
    if rng.random() < .4:
        yield mk('l2')
    for _ in range(rng.randint(14, 30)):
        log = rng.choice(sorted(sess.logs))
        x = rng.random()
        if x < .2:
            c = dict(op='add', log=log, what='collector', node=rng.choice(COLLECTORS))
        elif x < .36:
            c = dict(op='add', log=log, what='candidate', node=rng.choice(CLASSES))
        elif x < .53:
            key = rng.choice(['why', 'why', 'only'])
            info = {key: rng.choice(['Missing value', 'Invalid value', 'Not in values'] if key == 'why' else ['No value found', 'Do not match'])}
            if rng.random() < .5:
                info['args'] = rng.choice(['a1', "('x', 'y')", '12', ''])
            c = dict(op='add', log=log, what='attribute', name=rng.choice(ATTRS), info=info)
        elif x < .55:
            c = dict(op='add', log=log, what='nothing', info={})
        elif x < .59:
            c = dict(op='clear', log=log)
        elif x < .63:
            c = dict(op='reduce', log=log)
        elif x < .66:
            ent = list(sess.logs[log])
            if not ent:
                continue
            n = rng.randint(1, len(ent))
            c = dict(op='current', log=log, i=n, j=rng.randint(0, len(list(ent[n - 1]))))
            del ent
        elif x < .69:
            if not sess.nodes:
                continue
            c = dict(op='drop', node=rng.choice(sorted(sess.nodes)))
        elif x < .71:
            c = mk(rng.choice(['l1', 'l2']))
        else:
            m = rng.choice(['dict', 'dict', 'dict', 'xml', 'xml', 'xmllast', 'whynot', 'last', 'raw'])
            c = dict(op='view', log=log, m=m)
            if m == 'dict':
                c['stamp'] = rng.random() < .5
            if m in ('dict', 'xml') and rng.random() < .15:
                c['force'] = True
            if m == 'whynot':
                c['sel'] = rng.choice(['', 'pk', 'A', 'b', 'zz', 'none'])
        if c.get('node') in sess.gone:
            continue
        if c['op'] == 'add' and rng.random() < .2 and c['what'] != 'nothing':
            c['via'] = 'direct'
        yield c
