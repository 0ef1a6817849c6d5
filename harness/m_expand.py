"""Expansions of descriptions (util.expand) in a scratch directory."""
import os
import re  # noqa: F401
import shutil
import tempfile

import footprints  # noqa: F401
from footprints import util

import executor

NAMES = ['f1', 'f2', 'f10', 'fa', 'f_1', 'file_ab_12.txt', 'file_cd_3.txt', 'file_ab_12Xtxt', 'file__7.txt', 'file_ab_.txt', 'a-b-c', 'a-b', 'aXb',
         'x.y', 'x,y', '.hidden', 'F1', 'range(1,2)', '[glob:a]', 'x[glob:b]_y', 'aa', 'aaa', 'ab', 'ba', 'dir/f1', 'dir/f2', 'dir/sub/f3',
         'dir/.h', 'den/fa', 'f1\n', 'f\\1', 'f$1', 'f(1)', 'a{b}', 'c+d', 'f1.bak', '1', '12', 'abc_1', 'abc_2', 'def_2', 'def_3', 'r\\1_2', '{glob:a:x}']
RX = ['\\w+', '\\d+', '\\d*', '[a-z]+', '[^_]*', '.*', '.+?', '.*?', 'ab|cd', '(?:ab|cd)\\d*', '(a|b)+', '\\d{2}', '\\w{3}', 'a?', 'a??', '\\w', '.', '',
      '[a-f\\d]+', '\\D+', 'a*', 'a*b?', 'x\\[.*', '[A-Z]\\d', '\\w\\{', '(\\w)-?', '\\S+', '.', 'f\\.?', 'a{1}', '[^\\d]+', '\\W?\\w']
SAMPLES = ['', 'a', 'ab', 'cd', 'b', 'a1', '1', '12', '123', 'abc', 'aab', 'x', '_', '-a', 'A1', '.', 'f.', 'x[1', 'd,e', 'ab3']
BADRX = ['[a', '(a', 'a)', '*a', 'a**', '+', '\\q', '[z-a]', 'a\\']
GNAMES = ['a', 'b', 'n', 'num', 'k_1']
TEXT = ['f', '_', '.txt', 'file_', '-', '*', '?', '.', 'dir/', 'abc_', 'X', '{', '}', 'a', '', 'f1', '+', 'x*', 'd?', '(', '/', '*/', '.h', 'f\\', '$']
KEYS = ['f', 'g', 'x', 'y', 'z', 'w', 'k']


class Session:
    GLOBS = None

    def __init__(self):
        self.codec = executor.Session()
        self.given, self.out = {}, []
        self.base = tempfile.mkdtemp(prefix='vh_expand_')
        self.dir = os.path.join(self.base, 'd')
        os.mkdir(self.dir)
        os.chdir(self.dir)

    def close(self):
        os.chdir('/')
        shutil.rmtree(self.base, ignore_errors=True)

    def dec(self, pairs):
        return {k: self.codec.dec(v) for k, v in pairs}

    def enc(self, d):
        return [[k, self.codec.enc(v)] for k, v in d.items()]

    def run(self, c):
        c = dict(c)
        try:
            c['res'] = getattr(self, 'op_' + c['op'])(c)
        except Exception as e:
            c['res'] = dict(k='exc', x=type(e).__name__)
            if c['op'] != 'expand':
                raise
            self.out = []
        c['obs'] = dict(given=self.enc(self.given), out=[self.enc(x) for x in self.out])
        return c

    def op_files(self, c):
        """The directory gets this content; parents of the paths are part of it."""
        os.chdir(self.base)
        shutil.rmtree(self.dir)
        os.mkdir(self.dir)
        os.chdir(self.dir)
        for name in c['names']:
            p = os.path.join(self.dir, name)
            if os.path.isdir(p):
                continue
            if any(x.startswith(name + '/') for x in c['names']):
                os.mkdir(p)
            else:
                with open(p, 'w'):
                    pass
        return dict(k='ok')

    def op_expand(self, c):
        self.given = self.dec(c['desc'])
        self.out = []
        out = util.expand(self.given)
        if not isinstance(out, list) or not all(type(x) is dict for x in out):
            return dict(k='other')
        self.out = out
        return dict(k='ok', l=[self.enc(x) for x in out])

    def op_change(self, c):
        d = self.given if c['i'] == 0 else self.out[c['i'] - 1]
        if c['how'] == 'set':
            d[c['key']] = self.codec.dec(c['val'])
        elif c['how'] == 'del':
            del d[c['key']]
        else:
            v = d[c['key']]
            for i in c['path']:
                v = list(v.values())[i - 1] if isinstance(v, dict) else v[i - 1]
            if isinstance(v, list):
                v.append('grown')
            elif isinstance(v, dict):
                v['grown'] = 'grown'
            elif isinstance(v, set):
                v.add('grown')
        return dict(k='ok')


def closed(names):
    """Paths with their directories, in an order in which they can be made."""
    out = []
    for n in sorted(names):
        parts = n.split('/')
        for i in range(1, len(parts) + 1):
            p = '/'.join(parts[:i])
            if p not in out:
                out.append(p)
    return out


def word(rng):
    return rng.choice(['a', 'b', 'ab', 'x1', '', 'A', '1', '12', 'f1', 'none', '[glob:a]', '[glob:n]x', '<[glob:b]>[glob:a]', '[glob:zz]', 'range', '[glob:a',
                       'a b', '[glob:k_1][glob:k_1]', 'range(x)', '\\1', '[glob:num]\\g<0>'])


def scalar(rng):
    x = rng.random()
    if x < .55:
        return ['s', word(rng)]
    if x < .75:
        return ['i', str(rng.randint(0, 12))]
    if x < .8:
        return ['b', rng.choice('TF')]
    if x < .85:
        return ['n', '']
    if x < .9:
        return ['f', '1.5']
    if x < .95:
        return ['U', rng.choice(['ABC', 'X,Y', '[glob:a]', 'RANGE(1,2)'])]
    return ['F', 'foo']


def protected(rng, depth=0):
    k = rng.choice('SSLTDE')
    if k == 'S':
        return [k, rng.choice(['x,y', 'range(1,3)', '{glob:a:\\d+}', 'abc', '[glob:a],[glob:n]', ''])]
    if k == 'D':
        return [k, [[['s', key], value(rng, depth + 1)] for key in rng.sample(['x', 'y', 'in', '1'], rng.randint(0, 2))]]
    if k == 'E':
        return [k, [hashable(rng)] if rng.random() < .8 else []]
    return [k, [value(rng, depth + 1) for _ in range(rng.randint(0, 3))]]


def hashable(rng):
    return rng.choice([['s', word(rng)], ['i', '7'], ['s', 'p,q'], ['t', [['i', '1'], ['i', '2']]], ['S', 'x,y']])


def rangetext(rng):
    a = rng.randint(0, 4)
    s = rng.choice(['range(%d)' % a, 'range(%d,%d)' % (a, a + rng.randint(-1, 3)), 'range(%d,%d,%d)' % (a, a + rng.randint(0, 6), rng.randint(1, 3))])
    if rng.random() < .1:
        s = rng.choice([s.upper(), s.title(), 'range(0%d,3)' % a, 'range(1,4,0)' if rng.random() < .3 else 'range(2,2)', 'range(1,2,3,4)', 'range(1,2)x', 'xrange(1,2)',
                        'range(1, 2)', 'range()', 'range(-1,2)'])
    return s


def globtext(rng):
    out, used = '', []
    if rng.random() < .3:
        return rng.choice(['file_{glob:a:\\w+}_{glob:n:\\d+}.txt', 'f{glob:n:\\d+}', '{glob:a:\\w+}_{glob:b:\\d}', '{glob:a:.*}', 'dir/{glob:a:\\w+}', '*/{glob:b:.+}',
                           '{glob:a:\\w}{glob:b:\\w*}', '{glob:a:[a-z]+}-{glob:b:.}*', 'x{glob:a:.+}_{glob:b:\\w}', '{glob:k_1:[a-z]}{glob:num:\\d{2}}',
                           '{glob:a:.+}_{glob:b:\\w+}', '{glob:a:\\w+}-{glob:b:\\w+}-{glob:n:\\w+}', '{glob:a:a*}{glob:b:a*}', 'f{glob:n:\\d+}{glob:a:.*}'])
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .45:
            out += rng.choice(TEXT)
        else:
            name = rng.choice(GNAMES)
            if name in used and rng.random() < .8:
                continue
            used.append(name)
            rx = rng.choice(BADRX if rng.random() < .04 else RX)
            out += '{glob:' + name + ':' + rx + ('' if rng.random() < .02 else '}')
    if not used:
        out += '{glob:a:' + rng.choice(RX) + '}'
    return out


def value(rng, depth=0):
    x = rng.random()
    if depth >= 3:
        return scalar(rng)
    if x < .3:
        return scalar(rng)
    if x < .42:
        return [rng.choice('llt'), [value(rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 2, 2, 3]) if depth else rng.choice([0, 1, 2, 2, 3, 3]))]]
    if x < .46:
        els = []
        for _ in range(rng.randint(0, 3)):
            h = hashable(rng)
            if h not in els:
                els.append(h)
        return ['e', els]
    if x < .56:
        return ['s', rangetext(rng)]
    if x < .68:
        return ['s', ','.join(word(rng) for _ in range(rng.randint(1, 3))) + (',' if rng.random() < .1 else '')]
    if x < .82:
        return protected(rng, depth)
    if x < .9 and depth == 0:
        return ['s', globtext(rng)]
    if x < .95:
        return ['d', [[['s', key], scalar(rng)] for key in rng.sample(['in', 'out', '1', 'xx'], rng.randint(0, 2))]]
    return scalar(rng)


def texts(v):
    """The texts an item may have after its expansion (not the ones of globs)."""
    k, p = v
    if k in 'lte':
        return [t for x in p for t in texts(x)]
    if k in ('s', 'U'):
        m = re.match(r'range\((\d+)(?:,(\d+))?(?:,(\d+))?\)$', p, re.I)
        if m:
            a = int(m.group(1))
            return [str(x) for x in range(a, int(m.group(2) or a) + 1, int(m.group(3) or 1) or 1)]
        return p.split(',')
    if k in ('i', 'f'):
        return [p]
    if k == 'b':
        return ['True' if p == 'T' else 'False']
    if k == 'n':
        return ['None']
    return []


def matching(rng, desc, key, depth=0):
    """A dictionary which depends on another item."""
    others = [k for k, v in desc.items() if k != key and v[0] not in 'SLTDE' and v[0] not in 'dF']
    if not others:
        return value(rng)
    k = rng.choice(others)
    ts = [t for t in dict.fromkeys(texts(desc[k]))]
    if rng.random() < .04 and ts:
        ts.pop()
    if rng.random() < .3:
        ts.append('other')
    inner = []
    for t in ts:
        x = rng.random()
        if x < .12 and depth == 0:
            inner.append([['s', t], matching(rng, {a: b for a, b in desc.items() if a != k}, key, depth + 1)])
        else:
            inner.append([['s', t], value(rng, 1)])
    out = [[['s', k], ['d', inner]]]
    if rng.random() < .2:
        out.insert(rng.randint(0, 1), [['s', 'nokey'], scalar(rng)])
    return ['d' if rng.random() < .93 else 'D', out]


GLOB = re.compile(r'{glob:\w+:')


def strings(v):
    if v[0] in ('s', 'S', 'U'):
        yield v[1]
    elif isinstance(v[1], list):
        for x in v[1]:
            if v[0] in 'dD':
                yield from strings(x[0])
                yield from strings(x[1])
            else:
                yield from strings(x)


def cost(desc):
    n = 1
    for v in desc.values():
        n *= max(1, size(v))
    return n


def size(v):
    if v[0] in 'lte':
        return sum(size(x) for x in v[1])
    if v[0] in ('s', 'U'):
        return len(texts(v)) if not GLOB.search(v[1]) else 6
    return 1


def bigset(v):
    return v[0] == 'e' and len(v[1]) > 1 or (v[0] in 'lted' and any(
        bigset(x) if v[0] != 'd' else bigset(x[1]) for x in v[1]))


def okay(desc):
    """What is left out: large expansions, references within glob items, brackets in their text, and unusual paths."""
    if cost(desc) > (12 if any(bigset(v) for v in desc.values()) else 40):
        return False
    for v in desc.values():
        for t in strings(v):
            if GLOB.search(t) and v[0] != 'S' and ('[glob:' in t or re.search(r'(^|})[^{]*\[', t) or
                                                        re.search(r'^/|/$|//|(^|/)\.+(/|$)', t)):
                return False
    return True


def description(rng, globs=None):
    while True:
        desc = {}
        for k in rng.sample(KEYS, rng.randint(1, 5)):
            desc[k] = value(rng)
        for k in list(desc):
            if rng.random() < .15 and len(desc) > 1:
                desc[k] = matching(rng, desc, k)
        if rng.random() < .05:
            desc['index_expansion'] = ['i', str(rng.randint(0, 5))]
        pairs = list(desc.items())
        rng.shuffle(pairs)
        if globs is not None and globs != any(GLOB.search(t) for v in desc.values() if v[0] not in 'SLTDE' for t in strings(v)):
            continue
        if okay(desc):
            return [[k, v] for k, v in pairs]


def moving(v, d):
    """May the item change ?"""
    k, p = v
    if k in 'lte':
        return True
    if k in ('s', 'U'):
        return ',' in p or bool(re.match(r'range\(', p, re.I)) or bool(GLOB.search(p))
    return k == 'd' and any(x[0][1] in d for x in p)


def paths(v, at=()):
    """The places, in a container, of the containers which can be changed."""
    if v[0] in ('l', 'L', 'd', 'D', 'e', 'E'):
        yield list(at)
    if v[0] in ('l', 'L', 't', 'T'):
        for i, x in enumerate(v[1]):
            yield from paths(x, at + (i + 1,))
    elif v[0] in ('d', 'D'):
        for i, x in enumerate(v[1]):
            yield from paths(x[1], at + (i + 1,))


def likely(rng, desc):
    """File names which may match the glob items."""
    out = []
    for _, v in desc:
        for t in strings(v):
            if not GLOB.search(t):
                continue
            for _ in range(rng.randint(1, 4)):
                parts = re.split(r'{glob:\w+:((?:[^{}]|\\.|{\d+})*)}', t)
                name = ''
                for n, x in enumerate(parts):
                    if n % 2:
                        ok = []
                        try:
                            ok = [y for y in SAMPLES if re.fullmatch(x, y)]
                        except re.error:
                            pass
                        name += rng.choice(ok if ok and rng.random() < .85 else SAMPLES)
                    else:
                        name += x.replace('*', rng.choice(SAMPLES)).replace('?', 'q')
                if name and re.fullmatch(r'[^/\0]+(/[^/\0]+)*', name) and not re.search(r'(^|/)\.{1,2}(/|$)', name):
                    out.append(name)
    return out


def commands(rng, sess, i):
    for _ in range(rng.randint(5, 12)):
        desc = description(rng, sess.GLOBS)
        more = likely(rng, desc)
        if more or rng.random() < .1:
            names = rng.sample(NAMES, rng.randint(0, 6)) + more
            yield dict(op='files', names=closed([x for x in names if not any(y.startswith(x + '/') for y in names)]))
        yield dict(op='expand', desc=desc)
        d = dict(desc)
        expanded = len(sess.out) != 1 or any(sess.out[0].get(k) != sess.given.get(k) for k, v in desc if k != 'index_expansion')
        still = [k for k, v in desc if not moving(v, d) and list(paths(v))]
        for _ in range(rng.randint(0, 3 if len(sess.out) < 20 else 1)):
            c = dict(op='change', i=rng.randint(0, len(sess.out)))
            now = sess.given if c['i'] == 0 else sess.out[c['i'] - 1]
            if still and expanded and rng.random() < .6:
                key = rng.choice(still)
                if key not in now:
                    continue
                v = sess.codec.enc(now[key])
                at = list(paths(v))
                if v[0] != d[key][0] or not at:
                    continue
                yield dict(c, how='grow', key=key, path=rng.choice(at))
            elif rng.random() < .6 or not now:
                yield dict(c, how='set', key=rng.choice(KEYS + ['new']), val=scalar(rng))
            else:
                yield dict(c, how='del', key=rng.choice(list(now)))
    sess.close()
