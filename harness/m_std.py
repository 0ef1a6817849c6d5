"""Protected containers (stdtypes): creation in several ways, changes, comparisons, hashes, copies, exports."""
import contextlib
import copy
import os
import pickle
import re
import tempfile

import footprints
from footprints import FPDict, FPList, FPRegex, FPSet, FPStr, FPTuple, util

import executor

TYPES = dict(L=FPList, T=FPTuple, D=FPDict, E=FPSet, S=FPStr)


class Holder(footprints.FootprintBase):
    _footprint = dict(info='Holder', attr=dict(
        kind=dict(values=['holder']),
        pl=dict(type=FPList, optional=True), pt=dict(type=FPTuple, optional=True), pd=dict(type=FPDict, optional=True),
        ps=dict(type=FPSet, optional=True), px=dict(type=FPStr, optional=True)))


ATTR = dict(L='pl', l='pl', T='pt', t='pt', D='pd', d='pd', E='ps', e='ps', S='px', s='px')


@contextlib.contextmanager
def scratch():
    """A directory with two files."""
    with tempfile.TemporaryDirectory(prefix='vh_std_') as d:
        for x in 'pq':
            open(os.path.join(d, x), 'w').close()
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir('/')


class Session:

    def __init__(self):
        self.codec = executor.Session()
        self.v = {}

    def run(self, c):
        c = dict(c)
        try:
            c['res'] = getattr(self, 'op_' + c['op'])(c)
        except Exception as e:
            c['res'] = dict(k='exc', x=type(e).__name__)
        c['obs'] = {n: self.codec.enc(x) for n, x in self.v.items()}
        return c

    def op_mk(self, c):
        (k, p), via = c['val'], c['via']
        dec = self.codec.dec
        if k == 'S':
            x = FPStr(p) if via != 'copy' else FPStr(FPStr(p))
        elif via == 'once' or k not in 'LTDE':
            x = dec(c['val'])
        elif via == 'steps':
            x = TYPES[k]()
            order = [p[i - 1] for i in c['order']]
            if k == 'L':
                for y in p:
                    x.append(dec(y))
            elif k == 'T':
                for y in p:
                    x = TYPES[k](x + (dec(y),))
            elif k == 'E':
                for y in order:
                    x.add(dec(y))
                    x.add('temp%d' % len(x))
                for y in [y for y in x if isinstance(y, str) and y.startswith('temp')]:
                    x.remove(y)
            elif k == 'D':
                for a, b in order:
                    x[dec(a)] = None
                for a, b in p:
                    x[dec(a)] = dec(b)
        elif via == 'iter':
            order = [p[i - 1] for i in c['order']] if k in 'DE' else p
            x = TYPES[k](((dec(a), dec(b)) for a, b in order) if k == 'D' else (dec(y) for y in order))
        elif via == 'copy':
            x = TYPES[k](dec([k, p]))
        self.v[c['name']] = x
        return dict(k='ok')

    def op_change(self, c):
        x, a, b = self.v[c['name']], self.codec.dec(c['x']), self.codec.dec(c['y'])
        k = c['how']
        if isinstance(x, list):
            if k == 'add':
                x.append(a)
            elif k == 'insert':
                x.insert(0, a)
            elif k == 'del':
                x.remove(a)
            elif k == 'reverse':
                x.reverse()
            else:
                x.clear()
        elif isinstance(x, set):
            x.add(a) if k == 'add' else x.remove(a) if k == 'del' else x.clear() if k == 'clear' else x.insert
        elif isinstance(x, dict):
            if k == 'add':
                x[a] = b
            elif k == 'del':
                del x[a]
            elif k == 'clear':
                x.clear()
            else:
                x.insert
        else:
            x.append(a)
        return dict(k='ok')

    def op_plain(self, c):
        x = self.v[c['name']]
        self.v[c['to']] = (str.__str__(x) if isinstance(x, str) else dict(x) if isinstance(x, dict) else set(x) if isinstance(x, set)
                           else list(x) if isinstance(x, list) else tuple(x))
        return dict(k='ok')

    def op_eq(self, c):
        a, b = self.v[c['a']], self.v[c['b']]
        return dict(k='ok', eq=a == b, ne=a != b)

    def op_hash(self, c):
        a, b = hash(self.v[c['a']]), hash(self.v[c['b']])
        return dict(k='ok', same=a == b)

    def op_key(self, c):
        a, b = self.v[c['a']], self.v[c['b']]
        x, y = b in {a: 1}, b in {a}
        return dict(k='ok', found=x) if x == y else dict(k='other')

    def op_items(self, c):
        x = self.v[c['name']]
        enc = self.codec.enc

        def items():
            got = x.items() if hasattr(x, 'items') else x
            return [[enc(a), enc(b)] for a, b in got] if isinstance(x, dict) else [enc(y) for y in got]
        first = items()
        got = x.items() if hasattr(x, 'items') else None
        if isinstance(got, list):
            got.append('changed')
        return dict(k='ok', len=len(x), items=first, again=items(), iter=[enc(y) for y in x])

    def op_in(self, c):
        return dict(k='ok', found=self.codec.dec(c['x']) in self.v[c['name']])

    def op_copy(self, c):
        x = self.v[c['name']]
        y = copy.deepcopy(x) if c['how'] == 'deepcopy' else pickle.loads(pickle.dumps(x)) if c['how'] == 'pickle' else (
            copy.deepcopy(dict(k=[x]))['k'][0])
        self.v[c['to']] = y
        mutable = isinstance(x, (list, dict, set))
        return dict(k='ok', eq=x == y and type(x) is type(y), fresh=y is not x if mutable else True)

    def op_export(self, c):
        x = self.v[c['name']]
        if c['via'] == 'self':
            y = x.footprint_export()
        else:
            y = Holder(kind='holder', ps=x).footprint_export()['ps']
        return dict(k='ok', list=type(y) is list, l=[self.codec.enc(z) for z in y])

    def op_through(self, c):
        x = self.v[c['name']]
        k = ATTR[self.codec.enc(x)[0]]
        o = Holder(kind='holder', **{k: x})
        y = getattr(o, k)
        # Two values without any common part
        self.v[c['to']] = copy.deepcopy(y)
        return {'k': 'ok', 'val': self.codec.enc(y), 'is': y is x}

    def op_expand(self, c):
        x = self.v[c['name']]
        y = '{glob:n:p|q}' if c.get('glob') else 'p,q'
        with scratch():
            l = util.expand(dict(x=x, y=y) if c['first'] else dict(y=y, x=x))
        self.v[c['to']] = l[c['which'] - 1]['x']
        return dict(k='ok', l=[self.codec.enc(d['x']) for d in l])

    def op_regex(self, c):
        r = FPRegex(c['text'], flags=re.I) if c['icase'] else FPRegex(c['text'])
        for how in c['how']:
            r = copy.deepcopy(r) if how == 'deepcopy' else copy.copy(r) if how == 'copy' else copy.deepcopy([r])[0]
        pattern, flags = r.footprint_export()
        return dict(k='ok', full=[bool(r.fullmatch(t)) for t in c['texts']], match=[bool(r.match(t)) for t in c['texts']],
                    pattern=pattern, flags=flags, text=str(r))

    def op_drop(self, c):
        del self.v[c['name']]
        return dict(k='ok')


SCALARS = [['s', 'a'], ['s', 'b'], ['s', 'x,y'], ['s', 'B'], ['s', ''], ['i', '1'], ['i', '2'], ['i', '10'], ['i', '-3'], ['b', 'T'], ['b', 'F'], ['f', '1.0'],
           ['f', '2.5'], ['n', ''], ['S', 'a'], ['S', 'range(1,2)'], ['F', 'foo'], ['F', 'goo'], ['s', '1'], ['s', '10'], ['s', '2.5'], ['s', 'True']]
SIMPLE = [SCALARS[:5], SCALARS[5:9] + SCALARS[12:13], SCALARS, SCALARS[5:10] + SCALARS[-4:]]


def pyeq(a, b, codec):
    return codec.dec(a) == codec.dec(b)


def value(rng, codec, kinds='LTDES', depth=0, hashed=False, pool=None):
    pool = pool or rng.choice(SIMPLE)
    k = rng.choice(kinds)

    def sub(need):
        if depth >= 2 or rng.random() < .75:
            return rng.choice(pool)
        return value(rng, codec, 'LTDEt' if need or rng.random() < .7 else 'ltdeLTDE', depth + 1, need, pool)
    if k in 's':
        return rng.choice([x for x in SCALARS if x[0] == 's'])
    if k == 'S':
        return ['S', rng.choice(['a', 'x,y', '', 'range(1,2)', 'B'])]
    n = rng.choice([0, 1, 2, 2, 3, 3, 4])
    items, keys = [], []
    for _ in range(n):
        if k in 'dDeE':
            x = sub(True)
            try:
                y = codec.dec(x)
                if y in keys or hash(y) is None:
                    continue
            except TypeError:
                continue
            keys.append(y)
            items.append(x if k in 'eE' else [x, sub(hashed)])
        else:
            items.append(sub(hashed))
    return [k, items]


RX = ['\\d+', '[a-c]*x?', '(?:ab|cd)+', 'a.c', '\\w+\\d', '[^a]b', '', 'a?b?c?']


def rx_tree(text):
    lit = lambda s: ['seq', [['lit', c] for c in s]]        # noqa: E731
    digits, word = ['in', '0123456789'], ['in', 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_']
    return {'\\d+': ['plus', digits], '[a-c]*x?': ['seq', [['star', ['in', 'abc']], ['opt', ['lit', 'x']]]],
            '(?:ab|cd)+': ['plus', ['alt', [lit('ab'), lit('cd')]]], 'a.c': ['seq', [['lit', 'a'], ['any'], ['lit', 'c']]],
            '\\w+\\d': ['seq', [['plus', word], digits]], '[^a]b': ['seq', [['notin', 'a'], ['lit', 'b']]], '': ['seq', []],
            'a?b?c?': ['seq', [['opt', ['lit', x]] for x in 'abc']]}[text]


def commands(rng, sess, i):
    codec, n = sess.codec, [0]

    def new():
        n[0] += 1
        return 'v%d' % n[0]

    def mk(val):
        order = list(range(1, len(val[1]) + 1)) if val[0] != 'S' else []
        if val[0] in 'E':
            rng.shuffle(order)
        return dict(op='mk', name=new(), val=val, via=rng.choice(['once', 'steps', 'iter', 'copy']), order=order)
    yield mk(value(rng, codec))
    for _ in range(rng.randint(20, 36)):
        names = sorted(sess.v)
        if len(names) > 9:
            yield dict(op='drop', name=rng.choice(names))
            continue
        if not names:
            yield mk(value(rng, codec))
            continue
        a, b, x = rng.choice(names), rng.choice(names), rng.random()
        va = codec.enc(sess.v[a])
        fp = va[0] in 'LTDES'
        if x < .12:
            yield mk(value(rng, codec))
        elif x < .22:           # the same content, otherwise built
            if va[0] not in 'LTDE':
                continue
            val = [va[0], list(va[1])]
            if va[0] in 'ED':
                rng.shuffle(val[1])
            if rng.random() < .2 and va[0] in 'LTE':
                val[1] = [swap(rng, y) for y in val[1]]
                if va[0] == 'E':
                    ys = [codec.dec(y) for y in val[1]]
                    if any(y in ys[:j] for j, y in enumerate(ys)):
                        continue
            yield mk(val)
        elif x < .34:
            if va[0] not in 'LDE':
                continue
            pool = [codec.enc(y) for y in sess.v[a]] + SCALARS + [['l', []], ['L', [['i', '1']]], ['T', []], ['D', []]]
            yield dict(op='change', name=a, how=rng.choice(['add', 'add', 'add', 'del', 'del', 'insert' if va[0] == 'L' else 'add', 'reverse' if va[0] == 'L' else 'del', 'clear' if rng.random() < .2 else 'add']),
                       x=rng.choice(pool), y=rng.choice(SCALARS + [['l', []], ['l', [['i', '1']]]]))
        elif x < .4:
            yield dict(op='plain', name=a, to=new())
        elif x < .52:
            yield dict(op=rng.choice(['eq', 'eq', 'key']), a=a, b=b)
        elif x < .64:
            yield dict(op='hash', a=a, b=b)
        elif x < .7:
            if va[0] not in ('s', 'S'):
                yield dict(op='items', name=a)
        elif x < .74:
            if va[0] not in ('s', 'S'):
                yield dict(op='in', name=a, x=rng.choice([codec.enc(y) for y in sess.v[a]] + SCALARS + [['l', []], ['L', []]]))
        elif x < .8:
            yield dict(op='copy', name=a, to=new(), how=rng.choice(['deepcopy', 'deepcopy', 'inside', 'pickle']))
        elif x < .85:
            if va[0] == 'E':
                yield dict(op='export', name=a, via=rng.choice(['self', 'object']))
        elif x < .91:
            if va[0] != 's' or rng.random() < .4:
                yield dict(op='through', name=a, to=new())
        elif x < .97:
            if fp:
                yield dict(op='expand', name=a, to=new(), which=rng.randint(1, 2), first=rng.random() < .5, glob=rng.random() < .3)
        else:
            t = rng.choice(RX)
            yield dict(op='regex', icase=rng.random() < .4, text=t, rx=rx_tree(t), how=[rng.choice(['deepcopy', 'copy', 'inside']) for _ in range(rng.randint(0, 2))],
                       texts=rng.sample(['', 'a', 'abc', 'abcd', 'x', '12', '1a', 'a1', 'ab', 'cdab', 'axc', 'zb', 'ac', 'ABC', 'CDab', 'aXC', 'Zb', 'A1', 'AB', 'X'], 6))


def swap(rng, v):
    """An equal value, of another type."""
    return {('i', '1'): ['b', 'T'], ('b', 'T'): ['f', '1.0'], ('f', '1.0'): ['i', '1'], ('s', 'a'): ['S', 'a'], ('S', 'a'): ['s', 'a']}.get(
        tuple(v) if isinstance(v[1], str) else (), v)
