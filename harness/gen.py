"""Random generation of commands.  A profile gives the weights of the operations and some probabilities."""
import json
import random

WORDS = ['x', 'y', 'z', 'alpha', 'b2', 'X', 'a-b', 'u v']
ODD = ['a\\1b', '\\g<0>', '50%', '{0}', 'a.b', 'p+q', 'None', 'back\\', '[', ']', '[]', 'a[b', '\\d', '%s', '$x']
SHADES = ['none', 'text', 'blank', 'zero', 'true', 'false']      # what a flag method of a class may return
ATTRS = {'kind': 'str', 'model': 'str', 'num': 'int', 'term': 'int', 'flag': 'bool', 'val': 'float', 'foo': 'Foo',
         'sub': 'FooSub', 'lst': 'FPList', 'dct': 'FPDict', 'st': 'FPSet', 'tup': 'FPTuple', 'up': 'Up',
         'Geo': 'str', 'txt': 'str', 'name': 'str', 'any': 'object', 'fps': 'FPStr', 'obj': 'obj', 'ctype': 'class',
         'weak': 'weak', 'wobj': 'wobj', 'path': 'str', 'nb': 'int',
         'plst': 'list', 'ptup': 'tuple', 'pdct': 'dict', 'pst': 'set'}
LEVELS = ['NONE', 'DEFAULT', 'TOOLBOX', 'DEBUG']
MODS = ['pk.a', 'pk.b', 'qk', 'pk', 'qk.pk.a']
TAGS = ['alpha', 'beta', 'gamma']
CONT = dict(FPList='L', list='L', FPTuple='T', tuple='T', FPDict='D', dict='D')
PLAIN = dict(L='l', T='t', D='d')
EXTRA = ['ext1', 'ext2', 'Ext3']

BASE = dict(
    p_nest=.05,
    ops=dict(cls=2, fp=0, find_all=2, find_any=1, find_best=2, load=2, pickup=1, default=1, new=1),
    classes=(2, 4), events=(10, 16),
    attrs=['model', 'num', 'flag', 'foo', 'lst', 'up', 'txt', 'Geo', 'name', 'val'], p_empty=.1,
    kinds=['x', 'y'], nattr=(1, 4), p_kind=0.9,
    tags=['alpha'],
    p_ref=0.1, p_alias=0.15, p_default=0.6, p_optional=0.45, p_values=0.3, p_outcast=0.1, p_remap=0.15, p_auto=0.05,
    p_only=0.15, p_level=0.3, p_abstract=0.15, p_inherit=0.35, p_odd=0.02, p_miss=0.06, p_bad=0.1, p_junk=0.2,
    p_none=0.05, p_given_opt=0.4, p_given_alias=0.25, p_hidden=0.1, p_reusable=0.15, p_noexplicit=0.05,
    p_partfp=0.1, p_two=0.15, p_clash=0.0, p_redefine=0.0, p_valuer=0.05, p_badref=0.02, p_cycle=0.02,
    access=['rxx', 'rxx', 'rxx', 'rwx', 'rwd'], p_multitag=0.15, p_wrongtype=0.05,
    p_chain=0, p_report=0, p_gone=0.06, p_rerun=0.03, p_cache=0, p_via=0.3, p_multibase=0.25, p_extname=0.15, p_cyclremap=0.05, p_info=0.1, p_shape=0.2, p_share=.05, p_after=0,
    p_deco=0, p_hooks=0, p_vis=0, p_derive=0, p_more=0, p_raw=0, p_both=.03, p_falsy=.05, p_feed=.4, p_near=.5, p_acyclic=.7, p_nonetext=.015, p_allopt=.05, p_nonedef=.07, p_upargs=.25, p_bare=.15,
)


class Gen:

    def __init__(self, rng, profile):
        self.r = rng
        self.p = dict(BASE)
        self.p.update(profile)
        self.aux = random.Random(str(rng.getstate()[1][:4]))     # later additions: the main sequence of choices is left as it is
        self.empties = self.aux.random() < self.p['p_empty']    # some classes have objects which are false
        if self.empties:
            self.p['attrs'] = [a for a in self.p['attrs'] if a != 'flag'] or ['num']
        self.n = 0
        self.ncls = 0
        self.wobj = None
        self.refnames = []
        self.allopt = False      # nothing mandatory in the class being defined
        self.refself = None      # the attribute which a value is made for
        self.rank = dict()       # references mostly go to attributes of a higher rank (no cycle)
        self.nfoo = 0
        self.types = dict()      # attribute -> type, for this history
        self.sess = None
        self.dropped = set()
        self.cache_ok = False
        self.wfoos = []
        self.pending = list()
        self.docs = 'doc' in self.p['ops']       # docstrings (which need sortable mappings)

    # -- utilities ---------------------------------------------------------

    def hit(self, name):
        return self.r.random() < (self.p[name] if isinstance(name, str) else name)

    def pick(self, seq):
        return self.r.choice(list(seq))

    def some(self, seq, lo, hi):
        seq = list(seq)
        self.r.shuffle(seq)
        return seq[:self.r.randint(min(lo, len(seq)), min(hi, len(seq)))]

    def ident(self, prefix):
        self.n += 1
        return prefix + str(self.n)

    # -- what is known of the session ----------------------------------------

    def fp(self, cid):
        return json.loads(self.sess.last['fp'][cid])

    def col(self, tag):
        c = self.sess.last['col'].get(tag)
        return json.loads(c) if c else dict(items=[], abs=[], inst=[], fast=[])

    def defaults(self):
        return json.loads(self.sess.last['set']['@'])

    def classes(self):
        return [c for c in self.sess.cls if c != 'FootprintBase']

    def concrete(self):
        return [c for c in self.classes() if not self.sess.cls[c].footprint_abstract()]

    def objects(self):
        return sorted(self.sess.objs)

    def ocls(self, o):
        return self.sess.cids[type(self.sess.objs[o])]

    # -- values -------------------------------------------------------------

    def word(self):
        return self.pick(ODD) if self.hit('p_odd') else self.pick(WORDS)

    def int(self):
        return str(self.r.choice([0, 1, 2, 3, 5, 12, 100, -1, 48]))

    def scalar(self):
        return self.pick([['s', self.word()], ['i', self.int()], ['b', 'T'], ['f', '2.5'], ['S', self.word()]])

    def items(self, hashable=False):
        out = [self.scalar() for _ in range(self.r.randint(0, 3))]
        if not hashable and self.hit(0.15):
            out.append(['l', [self.scalar()]])
        elif not hashable and self.hit('p_nest'):
            out.insert(0, self.nested())
        return out

    def nested(self):
        x = self.r.random()
        return ['l', [self.scalar()]] if x < .4 else ['L', [self.scalar(), ['l', []]]] if x < .6 else \
            ['d', [[['s', 'k'], self.scalar()]]] if x < .8 else ['D', [[['s', 'k'], ['l', [self.scalar()]]]]]

    def uniq(self, vals):
        seen, out = set(), []
        for v in vals:
            k = self.sess.dec(v)
            if k not in seen:
                seen.add(k)
                out.append(v)
        return out

    def value(self, typ, exact=False, ref=False):
        """A value of (or convertible to) this type."""
        r = self.r
        x = r.random()
        if ref and typ in ('str', 'Up', 'FPStr', 'Foo', 'object') and self.hit('p_ref'):
            return ['s', self.reftext()]
        if ref and typ == 'int' and self.hit(self.p['p_ref'] / 2):
            return ['s', self.ref(['num', 'term', 'nb'])]
        if typ == 'str':
            return ['s', self.word()] if x < .85 or exact else (['i', self.int()] if x < .9 else
                                                                ['S', self.word()] if x < .95 else ['f', '1.5'])
        if typ == 'FPStr':
            return ['S', self.word()] if x < .6 else ['s', self.word()]
        if typ == 'Up':
            return ['U', self.word().upper()] if x < .3 else ['s', self.word()] if x < .9 else ['i', self.int()]
        if typ == 'int':
            return ['i', self.int()] if x < .6 or exact else ['s', self.int()] if x < .9 else \
                ['f', '2.5'] if x < .93 else ['b', 'T'] if x < .96 else ['s', ' ' + self.int()]
        if typ == 'bool':
            return ['b', self.pick('TF')] if x < .7 else self.pick([['i', '0'], ['s', ''], ['s', 'x'], ['l', []], ['i', '1']])
        if typ == 'float':
            return ['f', self.pick(['0.5', '1.0', '2.5', '-1.5'])] if x < .6 else self.pick(
                [['s', '2.5'], ['i', '3'], ['s', ' 1.5 '], ['s', '-2'], ['b', 'T']])
        if typ == 'Foo':
            return ['F', self.pick(['f1', 'f2'])] if x < .5 else ['G', 'f3'] if x < .6 else ['s', self.pick(['f1', 'q', 'f5'])]
        if typ == 'FooSub':
            return ['G', self.pick(['f1', 'f3'])] if x < .6 else ['s', 'f3'] if x < .8 else ['F', 'f3']
        if typ in ('FPList', 'list'):
            return [self.pick(['L', 'l', 't']) if x < .8 else 'T', self.items()] if x < .9 else ['s', 'abc']
        if typ in ('FPTuple', 'tuple'):
            return [self.pick(['T', 't', 'l']), self.items()]
        if typ in ('FPSet', 'set'):
            k, v = self.pick(['E', 'e', 'l']), self.uniq(self.items(True))
            return [k, v if k == 'l' else v[:1]]      # (the order of a set, hence its text, is not specified)
        if typ in ('FPDict', 'dict'):
            return [self.pick(['D', 'd']), [[['s', k], self.nested() if self.hit('p_nest') else self.scalar()]
                                            for k in self.some('abc', 0, 2)]]
        if typ == 'object':
            objs = self.objects()
            return ['o', self.pick(objs)] if objs and x < .3 else self.scalar()
        if typ == 'class':
            return ['c', self.pick(['Foo', 'FooSub', 'Foo', 'FooSub', 'str'])]
        if typ == 'weak':
            return ['F', self.pick(self.wfoos)] if self.wfoos else ['n', '']
        if typ in self.sess.cls:
            ok = [o for o in self.objects() if isinstance(self.sess.objs[o], self.sess.cls[typ])]
            return ['o', self.pick(ok)] if ok else ['s', 'noobj']
        return ['s', self.word()]

    def anyvalue(self):
        x = self.r.random()
        if x < .1:
            return ['n', '']
        if x < .3 and self.objects():
            return ['o', self.pick(self.objects())]
        v = self.value(self.pick(['str', 'int', 'bool', 'float', 'Foo', 'FPList', 'FPDict', 'FPSet', 'Up', 'FPTuple']))
        if v[0] in 'eE':
            v = [v[0], v[1][:1]]      # the text of a set is not specified
        return v

    # -- references ------------------------------------------------------------

    def attrtype(self, a):
        if a not in self.types:
            self.types[a] = ATTRS.get(a, 'str')
        return self.types[a]

    def ref(self, names=None):
        """One reference."""
        r = self.r
        if names is None:
            names = list(self.p['attrs']) + ['kind']
            if self.hit('p_extname'):
                names = EXTRA
            elif self.hit('p_badref'):
                names = ['nowhere']
            elif self.refnames and self.hit('p_near'):
                names = self.refnames
        if self.refself is not None and names is not EXTRA and self.hit('p_acyclic'):
            def rank(n):
                return self.rank.setdefault(n, self.r.random())
            up = [n for n in names if rank(n) > rank(self.refself)]
            names = up or EXTRA
        n = self.pick(names)
        t = ATTRS.get(n, 'str')
        sub = fmt = ''
        if t == 'obj' or t in ('class', 'FPSet', 'set', 'weak', 'wobj', 'object'):
            if t == 'obj':
                sub = self.pick(['kind', 'model', 'num', 'fpm', 'txt', 'nosuch'])
            else:
                n, t = 'kind', 'str'
        elif self.hit(.3):
            words = ['upper', 'lower', 'strip', 'isdigit', 'nosuch']
            sub = self.pick({'str': words, 'FPStr': words, 'Up': words + ['sees', 'sees'], 'int': ['real', 'imag', 'numerator'],
                             'Foo': ['tag', 'size', 'child', 'shout', 'sees', 'brk', 'none', 'nothing', 'child:tag', 'child:child:size', 'child::tag'],
                             }.get('Foo' if t == 'FooSub' else t, ['nosuch']))
            if t == 'Foo' and self.hit(.03):
                sub = 'boom'
        if self.hit(.2):
            tt = {'upper': 'str', 'lower': 'str', 'strip': 'str', 'tag': 'str', 'size': 'int', 'real': 'int', 'imag': 'int',
                  'numerator': 'int', 'shout': 'str', 'brk': 'str', 'child:tag': 'str', 'child::tag': 'str', 'child:child:size': 'int',
                  'sees': 'str', '': t}.get(sub, 'str')
            if tt == 'int':
                fmt = self.pick(['03d', '4d', 'x', '>5', '05', ':03d', '!r:>4'] + (['s'] if self.hit(.1) else []))
            elif tt in ('str', 'Up', 'FPStr'):
                fmt = self.pick(['>6', '<5', '^7', '.2', '*^8', 's', '!r:', '!s:>4', '.upper:>5'] + (['03d'] if self.hit(.1) else []))
            elif tt in ('Foo', 'FooSub'):
                fmt = self.pick(['.tag:>5', '.size:03d', '!s:'] + (['.nosuch:>3', '>5'] if self.hit(.1) else []))
        dflt = self.pick(['01', 'dd']) if self.hit(.15) else ''
        return '[' + n + ((self.pick([':', '::']) + sub) if sub else '') + ('#' + dflt if dflt else '') + \
            ('%' + fmt if fmt else '') + ']'

    def reftext(self):
        out = ''
        for _ in range(1 if self.hit(.7) else 2):
            out += self.pick(['', '', 'p', 'a-', '_']) + self.ref()
        return out + self.pick(['', '', 'z', '/'])

    # -- definitions -------------------------------------------------------------

    def containers(self, typ):
        """Declared values of container types (equal containers of different types: which one is kept is not specified)."""
        k = CONT[typ]
        out = []
        for _ in range(self.r.randint(1, 3)):
            its = [self.pick([['s', self.word()], ['i', '5'], ['i', '12'], ['L', [['s', 'in']]]]) for _ in range(self.r.randint(0, 2))]
            v = [k, [[['s', 'abc'[i]], x] for i, x in enumerate(its)] if k == 'D' else its]
            if v not in out:
                out.append(v)
        return out

    def some_values(self, typ, lo=1, hi=3, cont=False):
        if cont and typ in CONT:
            return self.containers(typ)
        if typ in ('FPList', 'list', 'FPDict', 'dict', 'FPSet', 'set', 'FPTuple', 'tuple', 'object', 'bool', 'weak') or \
                typ in self.sess.cls:
            return None
        exact = not self.hit(.3)
        vals = [self.value(typ, exact) for _ in range(self.r.randint(lo, hi))]
        # equal values of different types: which one is kept is not specified
        out = self.uniq([v for v in vals if v[0] not in 'ltedLD' and v != ['s', 'None']])
        if typ in ('Foo', 'FooSub', 'Up', 'FPStr'):      # (also once converted)
            seen = set()
            out = [v for v in out if not (v[1] in seen or seen.add(v[1]))]
        if typ == 'int':
            seen = set()
            out = [v for v in out if not (int(self.sess.dec(v)) in seen or seen.add(int(self.sess.dec(v))))]
        return out or None

    def needed(self, c):
        """The mandatory attributes of a class."""
        return {k.lower() for k, d in self.fp(c)['attr'].items() if not d['optional']}

    def castable(self):
        """Could any value be converted to an object, as the session defaults give all its mandatory attributes?"""
        types = {d.get('typ') for c in self.classes() for d in self.fp(c)['attr'].values()} & set(self.classes())
        return any(self.needed(t) <= set(self.defaults()) for t in types)

    def raw_attr(self, a):
        r = dict()
        self.refself = a
        t = self.attrtype(a)
        if self.hit('p_wrongtype') and t not in ('weak', 'wobj'):
            t = self.pick(['str', 'int', 'Up', 'Foo'])
        isclass = False
        if t == 'obj':
            conc = [c for c in self.classes() if self.needed(c)]
            t = self.pick(conc) if conc else 'Foo'
        if t == 'wobj':
            if self.wobj is None:         # the same type in all the classes
                conc = [c for c in self.classes() if self.needed(c)]
                self.wobj = self.pick(conc) if conc else 'Foo'
            t = self.wobj
            r['access'] = self.pick(['rxx-weak', 'rwx-weak', 'rwd-weak'])
            if t == 'Foo':
                t = 'weak'
        if t == 'class':
            r['isclass'] = isclass = True
            r['typ'] = self.pick(['Foo', 'FooSub', 'Foo', 'object'])
            t = 'class'
        elif t == 'weak':
            r['typ'] = 'Foo'
            r['access'] = self.pick(['rxx-weak', 'rwx-weak', 'rwd-weak'])
        elif t != 'str' or self.hit(.2):
            r['typ'] = t
        weak = r.get('access', '').endswith('weak')
        if t == 'Up' and self.hit('p_upargs'):
            r['args'] = [['suffix', ['s', '_s']]]
        if t == 'int' and self.hit(.05):
            r['args'] = [['base', ['i', '16']]]
        if self.allopt or self.hit('p_optional') or (weak and self.hit(.5)):
            r['optional'] = True
        elif self.hit(.1):
            r['optional'] = False
        if self.hit('p_default') and (r.get('optional') or self.hit(.1)) and not weak:
            v = self.value(t, ref=True)
            if t in self.sess.cls:
                v = ['n', '']
            if v[0] == 'd':
                v = ['D', v[1]]
            if v[0] not in 'no':      # (an object given as a default is copied or not, depending on the definition)
                r['default'] = ['V', v] if self.hit('p_valuer') else v
        vals = None
        if not isclass and not weak and self.hit('p_values'):
            vals = self.some_values(t, cont=True)
            if vals:
                if t == 'Up' and self.hit('p_upargs'):       # the same words as in the other classes
                    more = [['U', v[1][:-2] if v[1].endswith('_s') else v[1]] for c in self.classes()
                            for v in self.fp(c)['attr'].get(a, dict(values=[]))['values'] if v[0] == 'U']
                    vals += [v for v in self.some(more, 0, 2) if v[1].lower() not in [w[1].lower() for w in vals]] if more else []
                if t == 'Up' and 'args' in r:      # as they are once converted
                    vals = [['U', v[1].upper() + '_s'] if v[0] in 'sU' and '!' not in v[1] and self.hit(.7) else v for v in vals]
                    vals = [v for i, v in enumerate(vals) if v[1] not in [w[1] for w in vals[:i]]]
                r['values'] = vals
        if not isclass and not weak and self.hit('p_outcast'):
            out = self.some_values(t, 1, 2, cont=True)
            if out:
                r['outcast'] = out
        if weak and r.get('typ') == 'Foo' and self.hit('p_values'):
            r[self.pick(['values', 'values', 'outcast'])] = [['F', w] for w in self.some(['w1', 'w2', 'w3', 'w4'], 1, 3)]
        if not isclass and not weak and self.hit('p_remap'):
            vs = self.some_values(t, 1, 2) or []
            pairs = []
            for v in vs:
                k = self.pick([['s', 'old'], ['s', 'k1'], ['i', '7'], self.scalar(), ['s', self.word()]])
                if self.docs and k[0] not in 'sS':
                    k = ['s', 'k2']
                pairs.append([k, v])
            if vs and self.hit(.3):
                pairs.append([['s', 'far'], pairs[0][0]])
            if vs and (vs[0][0] in 'sSU' or not self.docs) and self.hit('p_cyclremap'):
                pairs.append([vs[0], pairs[0][0]])
            pairs = self.dedup_pairs(pairs)
            if pairs:
                r['remap'] = pairs
        if vals and self.hit('p_auto') and not (self.docs and any(v[0] not in 'sSU' for v in vals)):
            r['auto'] = 'first'
            r['shape'] = 'list'
        if self.hit('p_alias') and not weak:
            r['alias'] = self.some(['al_' + a, 'ali', 'be_' + a], 1, 2)
        if 'access' not in r and self.hit(.6):
            r['access'] = self.pick(self.p['access'])
        if self.hit('p_info'):
            r['info'] = 'about ' + a
        if 'shape' not in r and self.hit('p_shape'):
            r['shape'] = self.pick(['set', 'list'])
        if self.p['p_vis'] and self.hit('p_vis'):
            if self.hit(.6):
                r['vis'] = self.pick(['DEFAULT', 'ADVANCED', 'GURU'])
            if self.hit(.7):
                r['z'] = self.pick([-150, -100, -99, -1, 0, 1, 1, 5, 99, 100, 120, 150])
        return r

    def dedup_pairs(self, pairs):
        out, seen = [], set()
        for k, v in pairs:
            x = self.sess.dec(k)
            try:
                if x in seen:
                    continue
                seen.add(x)
            except TypeError:
                continue
            out.append([k, v])
        return out

    def regexp(self, word):
        w = word or 'x'
        lits = [['lit', c] for c in w]
        x = self.r.random()
        if x < .3:
            return ['seq', lits]
        if x < .5:
            return ['seq', lits[:1] + [['star', ['any']]]]
        if x < .7:
            return ['alt', [['seq', lits], ['seq', [['lit', 'q']]]]]
        if x < .85:
            return ['seq', [['in', 'xyz' + w[0]], ['opt', ['lit', 'q']]]]
        return ['seq', [['notin', 'xq'], ['star', ['in', 'abcdefghijklmnopqrstuvwxyz']]]]

    def only(self, attrs):
        out = []
        for _ in range(1 if self.hit(.7) else 2):
            a = self.pick(attrs + ['kind']) if self.hit(.75) else self.pick(['Zone', 'model', 'kind', 'cycle'])
            t = self.attrtype(a) if a in self.p['attrs'] else 'str'
            if t not in ('str', 'int', 'Up', 'bool', 'float', 'Foo', 'FPStr'):
                continue
            if t == 'int' and a in attrs and self.hit(.6):
                key = self.pick(['after_', 'before_', '']) + a
                alts = [['i', self.int()] for _ in range(self.r.randint(1, 2))]
            elif t == 'str' and self.hit(.1):
                key, alts = self.pick(['after_', 'before_']) + a, [['s', self.pick(WORDS)]]
            elif t == 'str' and self.hit(.4):
                key, alts = a, [['R', self.regexp(self.pick(self.p['kinds'] + WORDS))]]
            else:
                key, alts = a, [self.value(t, True) for _ in range(self.r.randint(1, 2))]
            if t != 'str' and a == 'kind':
                continue
            if key not in [k for k, _ in out] and not any(v[0] in 'ltedLDTE' for v in alts):
                out.append([key, alts])
        return out

    def raw(self, attrs, kind=True):
        d = dict(attr={a: self.raw_attr(a) for a in attrs})
        self.refself = None
        if kind:
            k = dict(values=[['s', x] for x in self.some(self.p['kinds'], 1, 2)])
            if self.hit(.1):
                k['alias'] = ['genre']
            if self.allopt:
                k.update(optional=True, default=k['values'][0])
            if self.hit('p_remap') and self.hit(.5):
                k['remap'] = [[['s', 'kk'], k['values'][0]]]
            d['attr']['kind'] = k
        elif not attrs and self.hit(.5):
            del d['attr']
        if self.hit('p_only'):
            o = self.only(list(attrs))
            if o:
                d['only'] = o
        if self.hit('p_level'):
            lv = json.loads(self.sess.last['lv'])['levels']
            d['level'] = self.pick(lv)
        if self.hit('p_info'):
            d['info'] = 'info ' + self.word()
        if self.hit('p_shape'):
            d['shape'] = 'list'
        if self.hit(.5):
            d['oshape'] = self.pick(['single', 'list'])
        return d

    def parts(self, attrs, kind):
        """The way in which the definition is given."""
        parts = []
        if self.sess.fps and self.hit('p_partfp'):
            parts.append(dict(ref=self.pick(sorted(self.sess.fps))))
        if self.p['p_deco']:
            decos = sorted(f for f, x in self.sess.fps.items() if hasattr(x, 'decorators'))
            if decos and self.hit('p_deco'):
                parts.append({self.pick(['ref', 'ref', 'plain']): self.pick(decos)})
            if decos and self.hit(.4):
                parts.append({self.pick(['ref', 'ref', 'plain']): self.pick(decos)})
            if parts and self.hit(.2):
                return parts
        if self.classes() and self.hit(self.p['p_partfp'] / 3):
            parts.append(dict(cls=self.pick(self.classes())))
        if attrs and self.hit('p_two'):
            i = self.r.randint(0, len(attrs) - 1)
            parts.append(dict({'def': self.raw(attrs[:i + 1], False)}))
            parts.append(dict({'def': self.raw(attrs[i:] if self.hit(.5) else attrs[i + 1:], kind)}))
        else:
            parts.append(dict({'def': self.raw(attrs, kind)}))
        if len(parts) > 1 and self.hit(.3):
            self.r.shuffle(parts)
        # remappings derived from the order of the values only make sense where these values are given
        for i, p in enumerate(parts):
            for a, d in p.get('def', {}).get('attr', {}).items():
                if 'auto' in d and any(a in self.part_attrs(q) for q in parts[i + 1:]):
                    del d['auto']
        return parts

    def part_attrs(self, p):
        return p['def'].get('attr', {}) if 'def' in p else self.fp(p.get('ref') or p.get('plain') or p.get('cls'))['attr']

    def gen_fp(self):
        if self.hit('p_bare'):       # restrictions only, or even less
            o = self.only([]) if not self.p['p_deco'] or self.hit(.3) else None
            if not o and not self.p['p_deco']:
                return None
            c = dict(op='fp', id=self.ident('fp'), parts=[{'def': dict(only=o) if o else dict(info='bare')}])
        else:
            attrs = self.some(self.p['attrs'], 1, 3)
            c = dict(op='fp', id=self.ident('fp'), parts=self.parts(attrs, self.hit(.3)))
        if self.p['p_deco'] and self.hit('p_deco'):
            c['deco'] = [self.pick(['d1', 'd2', 'd3']) for _ in range(self.r.choice([0, 1, 1, 1, 2, 3]))]
            if len(c['deco']) != 1 or self.hit(.5):
                c['dform'] = 'list'
            else:
                c['dform'] = 'single'
            if self.hit(.06):
                c['deco'] = self.r.sample(c['deco'] + ['?'], len(c['deco']) + 1)
                c['dform'] = 'list'
        return c

    def c3_ok(self, bases):
        try:
            type('X', tuple(self.sess.cls[b] for b in bases), {}) if False else None
            mros = [list(self.sess.cls[b].__mro__) for b in bases] + [[self.sess.cls[b] for b in bases]]
            while any(mros):
                mros = [m for m in mros if m]
                for m in mros:
                    if not any(m[0] in n[1:] for n in mros):
                        h = m[0]
                        break
                else:
                    return False
                mros = [[x for x in n if x is not h] for n in mros]
            return True
        except Exception:
            return False

    def chain(self):
        """Attributes which refer to each other: a long chain, possibly through the extras, possibly a cycle."""
        n = self.r.choice([2, 3, 3, 4, 5, 5, 6, 8, 8, 10, 12, 18])
        names = ['z%02d' % i for i in range(n)]
        self.r.shuffle(names)
        attr = dict()
        cycle = self.hit(.4)
        for i, a in enumerate(names):
            r = dict(optional=True)
            if i < n - 1:
                nxt = names[i + 1]
                sub = self.pick(['', '', '', ':upper', '%s', '#dd']) if n < 12 else ''
                r['default'] = ['s', self.pick(['', 'p']) + '[' + nxt + sub + ']' + (
                    '[' + self.pick(names[i + 1:]) + ']' if n < 8 and self.hit(.3) else '')]
            elif cycle:
                x = self.r.random()
                to = self.pick(names[:-1]) if x < .5 else a if x < .65 else 'ext1'
                r['default'] = ['s', 'e[' + to + ']']
                if to == 'ext1':
                    v = ['s', '[' + self.pick(names + ['ext2', 'ext1']) + ']']
                    w = ['s', '[' + self.pick(names + ['ext1', 'ext2']) + ']']
                    self.pending.append(dict(op='setup', m='extras', pairs=[['ext1', v], ['ext2', w]]))
            else:
                r['default'] = ['s', self.pick(['end', '5', '[ext1#02]'])]
            attr[a] = r
        if self.hit(.3):
            attr[names[-1]]['optional'] = False
            attr[names[-1]].pop('default')
        order = list(attr)
        self.r.shuffle(order)
        d = dict(attr={a: attr[a] for a in order})
        d['attr']['kind'] = dict(values=[['s', 'x']])
        return d

    def gen_cls(self):
        cid = self.ident('c')
        attrs = self.some(self.p['attrs'], *self.p['nattr'])
        if self.hit('p_clash'):
            attrs.append(self.pick(self.p['tags']))
        bases = []
        if self.classes() and self.hit('p_inherit'):
            bases = [self.pick(self.classes())]
            if len(self.classes()) > 1 and self.hit('p_multibase'):
                b2 = self.pick(self.classes())
                if b2 != bases[0] and self.c3_ok([bases[0], b2]):
                    bases.append(b2)
                    b3 = self.pick(self.classes())
                    if self.hit(.5) and b3 not in bases and self.c3_ok(bases + [b3]):
                        bases.append(b3)
        self.refnames = sorted(set(attrs) | {k for b in bases for k in self.fp(b)['attr']}) + ['kind']
        abstract = self.hit('p_abstract')
        self.allopt = self.hit('p_allopt')
        kind = self.hit('p_kind') and not (bases and self.hit(.4))
        own = dict()
        if not bases or self.hit(.2):
            tags = self.some(self.p['tags'], 1, 1)
            if self.hit('p_multitag'):
                tags = self.some(self.p['tags'], 1, 2)
            own['collector'] = [t if self.hit(.8) else self.pick([t + 's', t.capitalize()]) for t in tags]
            if len(set(t.lower().rstrip('s') for t in own['collector'])) < len(own['collector']):
                own['collector'] = own['collector'][:1]
        if self.hit('p_reusable'):
            own[self.pick(['reusable', 'reusem'])] = self.hit(.3)
        if self.allopt:
            own['explicit'] = False
        elif self.hit('p_noexplicit'):
            own['explicit'] = self.hit(.3)
        py, mod = cid.upper(), self.pick(MODS)
        if self.hit('p_redefine') and self.classes():
            old = self.sess.cls[self.pick(self.classes())]
            py, mod = old.__name__, old.__module__
        parts = [{'def': self.chain()}] if self.hit('p_chain') else self.parts(attrs, kind)
        if bases and self.hit(.1):
            parts = []
        c = dict(op='cls', id=cid, py=py, mod=mod, bases=bases, parts=parts, abstract=abstract, own=own)
        if self.hit(.3):
            c['form'] = 'list'
        if self.p['p_hooks'] and self.hit('p_hooks'):
            known = sorted(set(attrs) | {k for b in bases for k in self.fp(b)['attr']})
            c['hooks'] = self.some(known, 1, 2) + (['nosuch'] if self.hit(.1) else [])
        if self.empties and self.aux.random() < .6:
            c['empty'] = self.aux.choice(['bool', 'len'])
        if self.aux.random() < .4:
            c['ownmark'] = True
        if self.aux.random() < .4:
            own['shade'] = self.aux.choice(SHADES)
        return c

    # -- descriptions ------------------------------------------------------------

    def shared(self, k, d):
        """A value which some other class declares for an attribute of that name."""
        vals = [v for c in self.classes() for v in self.fp(c)['attr'].get(k, dict(values=[]))['values'] if v[0] in 'siSUFG']
        return self.pick(vals) if vals else None

    def given(self, d):
        """A value for an attribute defined by d (as observed)."""
        t = d.get('typ', 'str')
        if d.get('isclass'):
            return ['c', self.pick(['Foo', 'FooSub'])] if self.hit(.85) else self.pick([['c', 'str'], ['s', 'Foo'], ['i', '1']])
        if d['access'].endswith('weak'):
            if t == 'Foo':
                return ['F', self.pick(self.wfoos)] if self.wfoos else None
            v = self.value(t)
            return v if v[0] == 'o' else None
        if self.hit('p_nonetext'):
            return ['s', 'None']
        if self.hit('p_bad'):
            v = self.anyvalue()
        elif d['remap'] and self.hit(.4):
            v = self.pick(d['remap'])[0]
        elif d['values'] and self.hit(.9):
            v = self.pick(d['values'])
            if v[0] == 'U' and v[1].endswith('_s') and ['suffix', ['s', '_s']] in d.get('args', []) and self.hit(.85):
                v = ['s', v[1][:-2]]
            elif v[0] == 'i' and ['base', ['i', '16']] in d.get('args', []) and self.hit(.6):
                v = ['s', format(int(v[1]), 'x')]
            elif v[0] in 'iSU' and self.hit(.3):
                v = ['s', v[1]]
            elif v[0] in 'FG' and self.hit(.3):
                v = ['s', v[1]]
            elif v[0] in PLAIN and self.hit(.6):
                v = [PLAIN[v[0]], v[1]]
                if v[0] != 'd' and self.hit(.3):
                    v = [v[0], [[PLAIN[x[0]], x[1]] if x[0] in PLAIN else x for x in v[1]]]
        elif d['outcast'] and self.hit(.2):
            v = self.pick(d['outcast'])
        else:
            v = self.value(t, ref=True)
        if v[0] in ('u', 'R', 'V'):
            v = ['s', self.word()]
        return v

    def desc_for(self, cid):
        fp = self.fp(cid)
        out = dict()
        self.refnames = sorted(fp['attr'])
        for k, d in fp['attr'].items():
            if d['optional'] and not self.hit('p_given_opt'):
                continue
            if not d['optional'] and self.hit('p_miss'):
                continue
            if k.lower() in self.defaults() and self.hit('p_nonedef'):    # None given, with a session default
                out[self.pick([k] + sorted(d['alias']) * 2)] = ['n', '']
                continue
            if k.lower() in self.defaults() and self.hit(.5):
                continue
            self.refself = k
            v = self.given(d)
            self.refself = None
            if v is not None and not d['values'] and not d.get('isclass') and not d['access'].endswith('weak') and self.hit('p_share'):
                v = self.shared(k, d) or v
            if v is None:
                continue
            if self.hit('p_none'):
                v = ['n', '']
            n = k
            if d['alias'] and self.hit('p_given_alias'):
                n = self.pick(d['alias'])
            out[n] = v
            if d['alias'] and self.hit('p_both'):      # the attribute and one of its aliases
                n = self.pick(d['alias']) if n == k else k
                w = out.get(n) or self.given(d)
                if w is not None:
                    out[n] = w
        return out

    def desc(self, tag=None, cid=None, hidden=False):
        items = []
        if cid is None:
            items = self.col(tag)['items'] if tag else []
            items = [c for c in items if c in self.sess.cls and c != 'FootprintBase']
            if tag and self.hit('p_gone') and self.concrete():
                items = self.concrete()         # maybe not in this collector (any more)
            cid = self.pick(items) if items else (self.pick(self.classes()) if self.classes() else None)
        out = self.desc_for(cid) if cid and not (self.hit('p_allopt') or not self.needed(cid) and self.hit(.3)) else dict()
        if not tag:
            items = []
        if cid and self.hit('p_feed'):         # what the references need
            miss = []
            for c in ([cid] if self.hit(.3) else set(items) | {cid}):
                at = self.fp(c)['attr']
                texts = json.dumps([list(out.values())] + [d['default'] for d in at.values()])
                miss += [n for n in EXTRA + sorted(ATTRS) if n not in at and n not in out and n not in miss and '[' + n in texts]
            for n in miss:
                have = [o for o in self.objects() if n in self.sess.objs[o]._attributes]
                if have and self.hit(.75):      # ... as attributes of objects
                    for o in self.some(have, 1, 2):
                        m = self.pick(['ob1', 'ob2'] + EXTRA)
                        if m not in out:
                            out[m] = ['o', o]
                if n not in out and self.hit(.9) and ATTRS.get(n, 'str') in ('str', 'int', 'Foo', 'Up', 'FPStr', 'bool', 'float', 'path'):
                    out[n] = self.pick([['i', '0'], ['s', ''], ['b', 'F']]) if self.hit('p_falsy') else \
                        self.value(self.pick(['str', 'str', 'int', 'Foo']))
        while self.hit('p_junk'):
            n = self.pick(EXTRA + ['junk'] + [a for a in self.p['attrs'] if ATTRS.get(a) in ('str', 'int', 'Foo', 'Up')])
            if n not in out:
                v = self.value(ATTRS.get(n, 'str'), ref=self.hit(.3))
                if n in EXTRA and self.objects() and self.hit(.3):
                    v = ['o', self.pick(self.objects())]
                elif n in EXTRA and self.hit('p_falsy'):
                    v = self.pick([['i', '0'], ['s', ''], ['b', 'F'], ['f', '0.0']])
                out[n] = v
        if hidden and self.hit('p_hidden'):
            out['_' + self.pick(['x', 'secret', 'emptywarning'])] = ['b', 'F']
        if hidden and self.p['p_report'] and self.hit(.4):
            out['_report_style'] = ['i', self.pick('0123')]
            if self.hit(.3):
                out['_report'] = ['b', self.pick('TF')]
        out.pop(tag, None)                     # the object itself, if any
        for k, v in out.items():
            if v[0] in 'eE' and k != 'st':
                out[k] = [v[0], v[1][:1]]      # the order of a set is not specified
        pairs = list(out.items())
        self.r.shuffle(pairs)
        return [[k, v] for k, v in pairs]

    def tag(self):
        return self.pick(self.p['tags'])

    def via(self, c, *choices):
        if self.hit('p_via'):
            v = self.pick(choices)
            if v == 'proxy' and c['tag'] not in self.sess.last['col']:
                return c
            c['via'] = v
        return c

    def gen_find_all(self):
        t = self.tag()
        return self.via(dict(op='find_all', tag=t, desc=self.desc(t)), 'proxy', 'upper')

    def gen_find_any(self):
        t = self.tag()
        return self.via(dict(op='find_any', tag=t, desc=self.desc(t), id=self.ident('o')), 'proxy', 'upper')

    def gen_find_best(self):
        t = self.tag()
        return self.via(dict(op='find_best', tag=t, desc=self.desc(t), id=self.ident('o')), 'proxy', 'upper')

    def gen_load(self):
        t = self.tag()
        return self.via(dict(op='load', tag=t, desc=self.kwdesc(self.desc(t, hidden=True)), id=self.ident('o')),
                        'proxy', 'upper', 'module')

    @staticmethod
    def kwdesc(desc):
        return [[k, v] for k, v in desc if k not in ('self', 'tag')]

    def gen_pickup(self):
        t = self.tag()
        d = self.desc(t, hidden=True)
        if self.hit(.12) and self.objects():
            d.append([t, ['o', self.pick(self.objects())]])
        elif self.hit(.1):
            d.append([t, ['n', '']])
        return self.via(dict(op='pickup', tag=t, desc=d, id=self.ident('o')), 'proxy', 'upper', 'module')

    def gen_default(self):
        t = self.tag()
        objs = [o for o in self.objects() if o in self.col(t)['inst']]
        if objs and self.hit(.6):
            o = self.pick(objs)
            fp = self.fp(self.ocls(o))
            x = self.sess.objs[o]
            d = []
            for k, a in fp['attr'].items():
                if a['optional'] and self.hit(.4) or a['access'].endswith('weak') or k not in x.footprint_attributes:
                    continue
                v = self.sess.enc(getattr(x, k))
                if v[0] in ('n', 'O', '?', 'R'):
                    continue
                if self.hit(.12):
                    v = self.given(a) or v
                d.append([k, v])
        else:
            d = self.desc(t, hidden=True)
        return self.via(dict(op='default', tag=t, desc=d, id=self.ident('o')), 'proxy', 'upper', 'module')

    def gen_new(self):
        pool = self.concrete() if not self.hit(.05) else self.classes()
        if not pool:
            return None
        cid = self.pick(pool)
        c = dict(op='new', cls=cid, desc=self.desc(cid=cid), id=self.ident('o'))
        if self.hit(.3):
            c['via'] = 'dict'
        c['desc'] = [[k, v] for k, v in c['desc'] if k not in ('checked', 'self')]
        return c

    # -- copies, attributes ---------------------------------------------------

    def gen_clone(self):
        if not self.objects():
            return None
        o = self.pick(self.objects())
        if self.dead(o):
            return None
        extra = dict()
        fp = self.fp(self.ocls(o))
        for k, d in fp['attr'].items():
            if self.hit(.25):
                v = self.given(d)
                if v is not None:
                    extra[k] = v
        if self.hit(.1):
            extra['junk'] = ['i', '1']
        c = dict(op='clone', src=o, desc=[[k, v] for k, v in extra.items()], id=self.ident('o'))
        c['full'] = self.hit(.3)
        if not extra:
            c['via'] = self.pick(['bare', ''])
        return c

    def has_weak(self, o, seen=None):
        """Does a copy of this object go through a weak attribute or an unnamed object ?"""
        x = self.sess.objs[o] if isinstance(o, str) else o
        seen = seen or set()
        if id(x) in seen:
            return False
        seen.add(id(x))
        for k in x.footprint_attributes:
            if 'weak' in type(x).footprint_access(k):
                return True
            v = getattr(x, k)
            if type(v).__name__ in ('FPSet', 'set'):
                continue
            stack = [v]
            while stack:
                y = stack.pop()
                if hasattr(y, 'footprint_attributes'):
                    if self.has_weak(y, seen):
                        return True
                elif isinstance(y, dict):
                    stack.extend(y.values())
                elif isinstance(y, (list, tuple)):
                    stack.extend(y)
        return False

    def gen_copies(self, op):
        if not self.objects():
            return None
        o = self.pick(self.objects())
        if self.has_weak(o):
            return None
        return dict(op=op, src=o, id=self.ident('o'))

    def gen_copy(self):
        if not self.objects():
            return None
        o = self.pick(self.objects())
        return None if self.dead(o) else dict(op='copy', src=o, id=self.ident('o'))

    def gen_deepcopy(self):
        return self.gen_copies('deepcopy')

    def gen_pickle(self):
        named = [(self.sess.cls[x].__module__, self.sess.cls[x].__name__) for x in self.classes()]
        if len(set(named)) != len(named):
            return None         # the name of a class must lead to this class
        c = self.gen_copies('pickle')
        if c and self.hit(.4):
            c['proto'] = self.r.randint(2, 5)
        return c

    def gen_aclone(self):
        objs = [o for o in self.objects() if not self.has_weak(o)]
        if not objs:
            return None
        o = self.pick(objs)
        at = {k: self.sess.enc(getattr(self.sess.objs[o], k)) for k in self.sess.objs[o].footprint_attributes}
        if any('o' == v[0] or 'O' == v[0] for v in at.values()):
            return None
        extra = dict()
        for k, d in self.fp(self.ocls(o))['attr'].items():
            if self.hit(.2):
                v = self.given(d)
                if v is not None:
                    extra[k] = v
        tags = [t for t in self.p['tags'] if o in self.col(t)['inst']] or self.p['tags']
        return dict(op='aclone', tag=self.pick(tags), src=o, desc=[[k, v] for k, v in extra.items()], id=self.ident('o'))

    def pick_attr(self):
        objs = [o for o in self.objects() if self.fp(self.ocls(o))['attr']]
        if not objs:
            return None
        o = self.pick(objs)
        fp = self.fp(self.ocls(o))['attr']
        rw = [k for k in fp if fp[k]['access'].startswith('rw')]
        k = self.pick(rw) if rw and self.hit(.8) else self.pick(sorted(fp))
        return o, k, fp[k]

    def dead(self, o):
        x = self.sess.objs[o]
        return any(self.sess.enc(getattr(x, k))[0] == 'dead' for k in x.footprint_attributes)

    def reaches(self, a, b):
        """Does object a contain object b (or is it the same)?"""
        if a == b:
            return True
        x = self.sess.objs.get(a)
        if x is None:
            return False
        for k in x.footprint_attributes:
            try:
                v = self.sess.enc(getattr(x, k))
            except AttributeError:
                continue
            if v[0] == 'o' and self.reaches(v[1], b):
                return True
        return False

    def gen_set(self):
        x = self.pick_attr()
        if x is None:
            return None
        o, k, d = x
        v = ['n', ''] if self.hit(.08) else self.anyvalue() if self.hit(.15) else (self.given(d) or ['n', ''])
        if (d.get('isclass') or d.get('typ') in self.sess.cls) and v[0] in 'dD':
            return None
        if d['access'].endswith('weak') and v[0] == 'F' and v[1] not in self.wfoos:
            return None
        if d['access'].endswith('weak') and v[0] not in ('F', 'n', 'o', 'i'):
            return None
        if d['access'].endswith('weak') and v[0] == 'o' and d.get('typ') in ('Foo', 'str'):
            return None
        if v[0] == 'o' and self.reaches(v[1], o):
            return None         # (there is no finite export of an object which contains itself)
        return dict(op='set', obj=o, attr=k, val=v)

    def gen_del(self):
        x = self.pick_attr()
        return None if x is None else dict(op='del', obj=x[0], attr=x[1])

    def gen_raw(self):
        x = self.pick_attr()
        if x is None:
            return None
        if self.hit(.3):
            return dict(op='raw', obj=x[0], attr=x[1], m='del')
        v = self.given(x[2]) or ['n', '']
        return dict(op='raw', obj=x[0], attr=x[1], m='set', val=v)

    def gen_revalue(self):
        """A lazy default (footprint_value) gets another value."""
        l = [(c, a) for c in self.classes() for a, d in self.fp(c)['attr'].items() if d['default'][0] == 'V']
        if not l:
            return None
        c, a = self.pick(l)
        v = self.value(self.fp(c)['attr'][a].get('typ', 'str'), ref=True)
        if v[0] in 'no' or v[0] == 'd':
            return None
        return dict(op='revalue', cls=c, attr=a, val=v)

    def gen_drop(self):
        return dict(op='drop', obj=self.pick(self.objects())) if self.objects() else None

    def gen_copymess(self):
        objs = [o for o in self.objects() if not self.has_weak(o)]
        return dict(op='copymess', src=self.pick(objs), m=self.pick(['deepcopy', 'pickle'])) if objs else None

    def gen_mkfoo(self):
        self.nfoo += 1
        self.wfoos.append('w%d' % self.nfoo)
        return dict(op='mkfoo', foo=self.wfoos[-1])

    def gen_dropfoo(self):
        if not self.wfoos:
            return None
        f = self.pick(self.wfoos)
        self.wfoos.remove(f)
        return dict(op='dropfoo', foo=f)

    def gen_export(self):
        if not self.objects():
            return None
        o = self.pick(self.objects())
        if 'copy' in self.p['ops'] and not self.has_weak(o) and not self.dead(o) and self.hit(.35):     # ... then copied
            for _ in range(self.r.randint(1, 2)):
                self.pending.append(dict(op='copy', src=o, id=self.ident('o')))
        return dict(op='export', obj=o, m=self.pick(['shallow', 'undefs'] + ([] if self.has_weak(o) else ['dict', 'export', 'export'])))

    # -- collectors --------------------------------------------------------------

    def level(self, known=.93):
        lv = json.loads(self.sess.last['lv'])['levels']
        return self.pick(lv) if lv and self.hit(known) else self.pick(['ZZ', 'new1'])

    def crit(self):
        m = self.pick(['package', 'package', 'reusable', 'abstract', 'higher', 'lower'])
        a = {'package': self.pick(MODS + ['pk.', 'pk.a.C', 'q', 'zz']), 'reusable': self.hit(.5), 'abstract': self.hit(.3),
             'higher': self.level(), 'lower': self.level()}[m]
        if m in ('higher', 'lower') and self.hit(.3):
            a = a.lower()
        if self.aux.random() < .15:
            m, a = 'shade', self.aux.choice(SHADES)
        return dict(crit=m, arg=a)

    def gen_filter(self):
        return dict(op='filter', tag=self.tag(), **self.crit())

    def gen_discard(self):
        return dict(op='discard', tag=self.tag(), **self.crit())

    def gen_resetlevel(self):
        return dict(op='resetlevel', tag='' if self.hit(.3) else self.tag(), arg=self.pick(MODS + ['pk.', 'zz']), level=self.level(.95))

    def gen_col_discard(self):
        t = self.tag()
        items = self.col(t)['items'] if self.hit(.85) else self.classes()
        items = [c for c in items if c in self.sess.cls and c != 'FootprintBase']
        if not items:
            return None
        c = self.pick(items)
        if self.hit('p_after'):
            self.pending.append(dict(op='find_all', tag=t, desc=self.desc(t, cid=c)))
        return dict(op='col', m='discard', tag=t, cls=c)

    def gen_col_add(self):
        t = self.tag()
        cs = self.concrete()
        return dict(op='col', m='add', tag=t, classes=self.some(cs, 1, 2)) if cs else None

    def gen_col_clear(self):
        return dict(op='col', m='clear', tag=self.tag())

    def gen_col_pop(self):
        return dict(op='col', m='pop', tag=self.tag())

    def gen_fasttrack(self):
        return dict(op='col', m='fasttrack', tag=self.tag(),
                    attrs=self.some(self.p['attrs'] + ['kind', 'kind', 'kind', 'nosuch'], 0, 3))

    def gen_col_report(self):
        return dict(op='col', m='report', tag=self.tag(), level=self.r.randint(0, 3))

    def gen_values(self):
        return dict(op='values', tag=self.tag(), attr=self.pick(self.p['attrs'] + ['kind', 'kind', 'nosuch']))

    def gen_attrmap(self):
        return dict(op='attrmap', tag=self.tag(), sel=self.hit(.5), only=self.some(self.p['attrs'] + ['kind'], 1, 2))

    def gen_listing(self):
        return dict(op='listing', m=self.pick(['catlist', 'catlist', 'cat', 'call', 'objects', 'objectsmap', 'iter', 'keys', 'values',
                                               'items', 'classes']))

    def gen_classes(self):
        return dict(op='listing', m='classes')

    def gen_levels(self):
        x = self.level(.95)
        return dict(op='levels', level=x.lower() if self.hit(.5) else x)

    def gen_show(self):
        c = dict(op='show', m=self.pick(['keys', 'map']), tag=self.tag(), sel=self.hit(.5), only=self.some(self.p['attrs'] + ['kind'], 1, 2))
        if len(c['only']) == 1 and self.hit(.5):
            c['single'] = True
        return c

    def gen_doc(self):
        names = sorted(self.sess.fps) + self.classes()
        return dict(op='doc', name=self.pick(names)) if names else None

    def gen_grep(self):
        t = '' if self.hit(.3) else self.tag()
        d = []
        if self.objects():
            o = self.sess.objs[self.pick(self.objects())]
            for k in self.some(o.footprint_attributes, 0, 2):
                if 'weak' in type(o).footprint_access(k):
                    continue
                v = self.sess.enc(getattr(o, k))
                if v[0] not in ('O', '?', 'R'):
                    d.append([k, v])
        if self.hit(.15):
            d.append([self.pick(self.p['attrs'] + ['nosuch']), self.anyvalue()])
        ks = set()
        d = [x for x in d if not (x[0] in ks or ks.add(x[0]))]
        return dict(op='grep', tag=t, desc=d)

    # -- names ---------------------------------------------------------------

    def gen_tag(self):
        t = self.pick(TAGS + ['garbage', 'delta'])
        return dict(op='tag', name=self.pick([t, t + 's', t.upper(), t.capitalize() + 's', t + 'ss', t.upper() + 'S']))

    def gen_proxy(self):
        t = self.pick(TAGS + ['garbage', 'nosuch'])
        return dict(op='proxy', name=self.pick([t, t + 's', '_' + t, t.upper()]))

    def gen_proxyhas(self):
        t = self.pick(TAGS + ['garbage', 'nosuch'])
        return dict(op='proxyhas', name=self.pick([t, t + 's', t.upper()]))

    def gen_addproxy(self):
        known = sorted(self.sess.prx)
        p = self.pick(known) if known and self.hit(.5) else self.ident('p')
        return dict(op='addproxy', id=p, own=self.some(TAGS + [t + 's' for t in TAGS] + ['mine'], 0, 2), clear=self.hit(.25))

    # -- priorities ------------------------------------------------------------

    def anylevel(self):
        x = self.level(.85) if self.hit(.7) else self.pick(['new1', 'new2', 'n3'])
        return x.lower() if self.hit(.3) else x

    def gen_prio(self, kinds=None):
        m = self.pick(kinds or ['extend', 'insert', 'insert_after', 'insert_before', 'addafter', 'addbefore', 'set_before', 'set_after',
                                'remove', 'delete', 'rerank', 'up', 'down', 'top', 'bottom', 'freeze', 'restore', 'reset', 'freezed',
                                'level', 'contains', 'levelbyindex', 'levelindex', 'nextlevel', 'prevlevel', 'cmp', 'eqname', 'copy'])
        lev = self.anylevel
        a = []
        if m in ('extend',):
            a = [lev() for _ in range(self.r.randint(0, 3))]
        elif m in ('insert_after', 'insert_before', 'addafter', 'addbefore', 'cmp', 'eqname'):
            a = [lev(), lev()]
        elif m in ('set_before', 'set_after'):
            a = [lev() for _ in range(self.r.randint(1, 4))]
        elif m == 'rerank':
            a = [lev(), self.r.randint(-6, 6)]
        elif m == 'levelbyindex':
            a = [self.r.randint(-2, 6)]
        elif m in ('freeze', 'restore'):
            a = [self.pick(['snap', 'Snap', 'other', 'default'])]
        elif m not in ('reset', 'freezed', 'copy'):
            a = [lev()]
        if m in ('remove', 'delete') and self.p.get('keep_default') and a[0].upper() in ('DEFAULT',):
            return None
        c = dict(op='prio', m=m, a=a)
        if self.hit(.4):
            c['via'] = 'name' if m == 'cmp' else 'obj'
        return c

    def gen_prio_order(self):
        """Changes of order only (used by the lookup profiles)."""
        return self.gen_prio(['rerank', 'up', 'down', 'top', 'bottom', 'set_before', 'set_after', 'extend', 'insert_after', 'reset',
                              'freeze', 'restore'])

    # -- setup -----------------------------------------------------------------

    def case(self, n):
        return self.pick([n, n, n.upper(), n.capitalize(), n.lower()])

    def pairs(self, names, lo=0, hi=2):
        out = dict()
        for n in self.some(names, lo, hi):
            n2 = self.case(n)
            if n2.lower() in [x.lower() for x in out]:
                continue
            t = self.attrtype(n) if n in self.p['attrs'] else 'str'
            if t in ('weak', 'wobj', 'obj', 'class') or t in self.sess.cls:
                continue
            v = ['s', self.pick(self.p['kinds'])] if n == 'kind' else self.value(t, ref=True)
            if v[0] in ('n', 'd', 'l', 't', 'e') or v == ['s', 'None']:
                continue
            if n not in self.p['attrs'] and n != 'kind' and self.hit('p_falsy'):
                v = self.pick([['i', '0'], ['s', '']])
            out[n2] = v
        return [[k, v] for k, v in out.items()]

    def defnames(self):
        return list(self.p['attrs']) + ['kind', 'Zone', 'cycle', 'ext1', 'Ext3']

    def gen_setup_defaults(self):
        m = self.pick(['replace', 'update', 'set', 'del'])
        if m == 'del':
            names = list(self.defaults())
            n = self.case(self.pick(names)) if names and self.hit(.85) else 'nosuch'
            return dict(op='setup', m='del', pairs=[[n, ['i', '0']]], setup='')
        c = dict(op='setup', m=m, pairs=self.pairs(self.defnames()), setup='')
        if m == 'update' and self.hit(.3):
            c['via'] = 'kw'
        elif m in ('replace', 'update') and self.hit(.12):       # with the defaults of another setup, or its own
            c['of'], c['pairs'] = self.pick(sorted(self.sess.setups) + ['', '']), []
        return c

    def gen_setup_named(self):
        known = sorted(self.sess.setups)
        if self.p['p_derive'] and self.hit('p_derive'):
            c = dict(op='setup', m='derive', setup=self.pick(['s1', 's2', 's3', 's4']), src=self.pick(known + ['']))
            if self.hit(.4):
                c['pairs'] = self.pairs(self.defnames())
            return c
        m = self.pick(['get', 'replace', 'update', 'set', 'del', 'lookup'])
        if m == 'get' or not known:
            c = dict(op='setup', m='get', setup=self.pick(['s1', 's2', 's3']), pairs=self.pairs(self.defnames()))
            if self.hit(.4):        # from the defaults of another setup
                c['of'] = self.pick(known + [''])
                c['pairs'] = []
            return c
        s = self.pick(known + [''])
        if m in ('replace', 'update') and self.hit(.4):
            return dict(op='setup', m=m, setup=s, pairs=[], of=self.pick(known + ['']))
        have = list(json.loads(self.sess.last['set']['@' + s]))
        n = self.case(self.pick(have)) if have and self.hit(.85) else 'nosuch'
        if m == 'del':
            return dict(op='setup', m='del', pairs=[[n, ['i', '0']]], setup=s)
        if m == 'lookup':
            return dict(op='setup', m='lookup', name=n, setup=s)
        return dict(op='setup', m=m, pairs=self.pairs(self.defnames()), setup=s)

    def gen_setup_lookup(self):
        have = list(self.defaults())
        return dict(op='setup', m='lookup', name=self.case(self.pick(have)) if have and self.hit(.8) else 'nosuch', setup='')

    def gen_setup_extras(self):
        out = []
        for n in self.some(EXTRA + (['kind', 'model'] if self.hit(.2) else []) + ([a for a in self.p['attrs'] if ATTRS.get(a) == 'str'] if self.hit(.3) else []), 0, 3):
            v = self.value(self.pick(['str', 'int', 'Foo', 'str']), ref=self.hit(.3))
            if self.hit('p_falsy'):
                v = self.pick([['i', '0'], ['s', ''], ['b', 'F']])
            if self.objects() and self.hit(.1):
                v = ['o', self.pick(self.objects())]
            if v[0] not in ('n', 'o'):
                out.append([n, v])
        return dict(op='setup', m='extras', pairs=out)

    def gen_setup_extended(self):
        return dict(op='setup', m='extended', flag=self.hit(.5))

    def gen_setup_fastmode(self):
        return dict(op='setup', m='fastmode', flag=self.hit(.6))

    def gen_setup_fastkeys(self):
        return dict(op='setup', m='fastkeys', names=self.some(self.p['attrs'] + ['kind'], 0, 3))

    def gen_setup_report(self):
        return dict(op='setup', m='report', level=self.r.randint(0, 3))

    def gen_setup_neutral(self):
        a, v = self.pick([('docstrings', 0), ('docstrings', 1), ('docstrings', 2), ('report_style', 0), ('report_style', 1),
                          ('report_style', 2), ('report_style', 3), ('lreport_len', 2), ('lreport_len', 100), ('shortnames', True),
                          ('shortnames', False)])
        if a == 'docstrings' and v:
            if not self.docs and any(x[0][0] not in 'sSU' for n in self.sess.last['fp']
                                     for d in self.fp(n)['attr'].values() for x in d['remap']):
                return None
            self.docs = True
        return dict(op='setup', m='neutral', attr=a, value=v)

    # -- queries ---------------------------------------------------------------

    def gen_report(self):
        t = self.tag()
        sel = self.pick(['', 'pk', 'PK.A', 'zz', '.'] + [self.sess.cls[c].__name__.lower() for c in self.classes()])
        if sel == '.':
            sel = ''
        return dict(op='report', tag=t, sel=sel.replace('PK.A', 'PK'), stamp=self.hit(.5), ord=self.r.randrange(1000))

    def gen_query(self):
        if not self.classes():
            return None
        cid = self.pick(self.classes())
        m = self.pick(['mandatory', 'optional', 'allkeys', 'values', 'level', 'couldbe', 'couldbe'])
        if self.p['p_more'] and self.hit('p_more'):
            m = self.pick(['outcast', 'access', 'info', 'clskind', 'fullname', 'realkind', 'abstract', 'reusable', 'asdict', 'track', 'track'])
        c = dict(op='query', cls=cid, m=m)
        attrs = sorted(self.fp(cid)['attr'])
        if m == 'track':
            c['desc'] = self.desc(cid=cid)
        if m in ('optional', 'values', 'outcast', 'access'):
            if not attrs:
                return None
            c['attr'] = self.pick(attrs)
        if m == 'couldbe':
            c['desc'] = self.desc(cid=cid)
        return c

    def rerun(self, c):
        """The same lookup again, at once or after a change of the switches; maybe with the same resolution cache."""
        d = dict(c)
        if 'id' in d:
            d['id'] = self.ident('o')
        if c['op'].startswith('find') and self.hit('p_cache'):
            c['cache'], d['cache'] = 'new', 'same'
            if self.hit(.4):      # ... for another description
                d['desc'] = self.desc(c['tag'])
            if self.hit(.3):
                d['op'] = self.pick(['find_all', 'find_any', 'find_best'])
                d.setdefault('id', self.ident('o'))
        elif self.hit(.4):
            x = self.pick(['setup_neutral', 'setup_report', 'col_report', 'setup_fastmode', 'fasttrack'])
            if x == 'setup_neutral' or x in self.p['ops']:
                c = getattr(self, 'gen_' + x)()
                if c is not None:
                    self.pending.append(c)
        self.pending.append(d)

    # -- the next command --------------------------------------------------------

    def lost(self, c):
        """Does this command refer to an object which is not held any more?"""
        def scan(v):
            if isinstance(v, list):
                if len(v) == 2 and v[0] == 'o' and isinstance(v[1], str) and v[1] not in self.sess.objs:
                    return True
                return any(scan(x) for x in v)
            return isinstance(v, dict) and any(scan(x) for x in v.values())
        if scan([v for k, v in c.items() if k != 'id']):
            return True
        return c['op'] != 'setup' and c.get('src', c.get('obj')) not in [None] + list(self.sess.objs)

    def next(self, sess):
        self.sess = sess
        while self.pending:
            c = self.pending.pop(0)
            if not self.lost(c):
                return c
        if self.ncls < self.p['classes'][0]:
            self.ncls += 1
            if self.p.get('p_fpfirst') and self.hit('p_fpfirst'):
                c = self.gen_fp()
                if c is not None:
                    return c
            return self.gen_cls()
        if self.castable() and self.defaults():
            return dict(op='setup', m='replace', pairs=[], setup='')
        for _ in range(50):
            ops = self.p['ops']
            m = self.r.choices(list(ops), weights=list(ops.values()))[0]
            if m in ('cls', 'fp') and 'DEFAULT' not in json.loads(sess.last['lv'])['levels']:
                continue
            if m == 'cls':
                if self.ncls >= self.p['classes'][1]:
                    continue
                self.ncls += 1
            c = getattr(self, 'gen_' + m)()
            if c is not None and self.lost(c):
                continue
            if c is not None:
                if m in ('find_all', 'find_any', 'find_best', 'load', 'default', 'new') and self.hit('p_rerun'):
                    self.rerun(c)
                if m in ('find_all', 'find_any', 'find_best', 'load', 'pickup') and self.hit('p_report'):
                    r = self.gen_report()
                    r['tag'] = c['tag']
                    self.pending.insert(0, r)
                return c
        return dict(op='setup', m='neutral', attr='docstrings', value=0)
