"""Execution of histories on the real library (public interface only), and projection of its state.

A command is a JSON object with an operation `op` and its arguments; its execution gives an event: the command
itself, its result `res` and the parts of the observed state which have changed (`obs`).
"""
import contextlib
import copy
import gc
import io
import json
import pickle
import random
import re
import types
import weakref

import bronx.fancies.loggers  # noqa: F401
import footprints
from footprints import access, collectors, config, doc, priorities, stdtypes

import vhtypes
from vhtypes import Foo, FooSub, Up, Valuer

TYPES = {
    'str': str, 'int': int, 'bool': bool, 'float': float, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set,
    'object': object, 'Foo': Foo, 'FooSub': FooSub, 'Up': Up, 'FPList': footprints.FPList,
    'FPTuple': footprints.FPTuple, 'FPDict': footprints.FPDict, 'FPSet': footprints.FPSet, 'FPStr': footprints.FPStr,
}
NAMES = {v: k for k, v in TYPES.items()}
SEQ = {'l': list, 'L': footprints.FPList, 't': tuple, 'T': footprints.FPTuple, 'e': set, 'E': footprints.FPSet}
SEQK = {v: k for k, v in SEQ.items()}
DCT = {'d': dict, 'D': footprints.FPDict}
DCTK = {v: k for k, v in DCT.items()}
PROXIES = (weakref.ProxyType, weakref.CallableProxyType)


def rx_text(n):
    """A regular expression as text, from its syntax tree."""
    k = n[0]
    if k == 'lit':
        return re.escape(n[1])
    if k == 'any':
        return '.'
    if k in ('in', 'notin'):
        return '[' + ('^' if k == 'notin' else '') + ''.join('\\' + c if c in '\\]^-[' else c for c in n[1]) + ']'
    if k == 'seq':
        return ''.join(rx_text(x) for x in n[1])
    if k == 'alt':
        return '(?:' + '|'.join(rx_text(x) for x in n[1]) + ')'
    if k in ('star', 'plus', 'opt'):
        return '(?:' + rx_text(n[1]) + ')' + {'star': '*', 'plus': '+', 'opt': '?'}[k]
    if k == 'grp':
        return '(?P<' + n[1] + '>' + rx_text(n[2]) + ')'
    raise ValueError(k)


SHADES = dict(none=None, text='x', blank='', zero=0, true=True, false=False)


class Hold:
    """Any object which is populated as a proxy."""


class Session:

    def __init__(self):
        self.cls = {'FootprintBase': footprints.FootprintBase}
        self.cids = {footprints.FootprintBase: 'FootprintBase'}
        self.fps = dict()
        self.objs = dict()
        self.names = dict()
        self.foos = dict()
        self.prx = dict()
        self.decos = dict()
        self.printed = self.before = None
        self.setups = dict()
        self.patterns = dict()
        self.depth = 0
        self.last = dict(fp=dict(), col=dict(), lv=None, set={'@': '{}', '#': '{}'}, obj=dict(), prx=dict())
        self.last['lv'] = self._json(self._obs_levels())
        self.last['col']['garbage'] = self._json(self._obs_collector('garbage'))

    # -- values --------------------------------------------------------------

    def name(self, obj, name=None):
        """The name of a footprint object (given once, for all its life)."""
        key = id(obj)
        if name is not None:
            self.names[key] = (name, weakref.ref(obj))
        known = self.names.get(key)
        if known is not None and known[1]() is obj:
            return known[0]
        return None

    def dec(self, v):
        k, p = v
        if k == 'n':
            return None
        if k == 's':
            return p
        if k == 'S':
            return footprints.FPStr(p)
        if k == 'U':
            return vhtypes._mkup(p)
        if k == 'u':
            return footprints.UNKNOWN
        if k == 'i':
            return int(p)
        if k == 'b':
            return p == 'T'
        if k == 'f':
            return float(p)
        if k in SEQ:
            return SEQ[k]([self.dec(x) for x in p])
        if k in DCT:
            return DCT[k]({self.dec(a): self.dec(b) for a, b in p})
        if k == 'F':
            held = self.foos.get(p)
            return held if type(held) is Foo else Foo(p)
        if k == 'G':
            held = self.foos.get(p)
            return held if type(held) is FooSub else FooSub(p)
        if k == 'o':
            return self.objs[p]
        if k == 'c':
            return TYPES[p] if p in TYPES else self.cls[p]
        if k == 'R':
            text = rx_text(p)
            self.patterns[text] = p
            return footprints.FPRegex(text)
        if k == 'V':
            return Valuer(self.dec(p))
        raise ValueError(k)

    def enc(self, x):
        if x is None:
            return ['n', '']
        if x is footprints.UNKNOWN:
            return ['u', '']
        t = type(x)
        if t in PROXIES:
            try:
                if isinstance(x, Foo):
                    x = x.shout.__self__
                elif isinstance(x, footprints.FootprintBase):
                    x = x.footprint_getattr.__self__
                else:
                    return ['?', 'proxy']
            except ReferenceError:
                return ['dead', '']
            t = type(x)
        if t is str:
            return ['s', x]
        if t is footprints.FPStr:
            return ['S', str(x)]
        if t is Up:
            return ['U', str(x)]
        if t is bool:
            return ['b', 'T' if x else 'F']
        if t is int:
            return ['i', str(x)]
        if t is float:
            return ['f', str(x)]
        if t in SEQK:
            return [SEQK[t], [self.enc(y) for y in x]]
        if t in DCTK:
            return [DCTK[t], [[self.enc(a), self.enc(b)] for a, b in x.items()]]
        if t is Foo:
            return ['F', x.tag]
        if t is FooSub:
            return ['G', x.tag]
        if t is Valuer:
            return ['V', self.enc(x.value)]
        if isinstance(x, type):
            if x in NAMES:
                return ['c', NAMES[x]]
            return ['c', self.cids.get(x, '?' + x.__name__)]
        if isinstance(x, footprints.FootprintBase):
            name = self.name(x)
            if name is not None:
                return ['o', name]
            if self.depth >= 3:
                return ['O*', self.cids.get(t, '?')]
            self.depth += 1
            try:
                return ['O', [self.cids.get(t, '?'), [[k, self.enc(getattr(x, k))] for k in x.footprint_attributes]]]
            finally:
                self.depth -= 1
        if t in (footprints.FPRegex, re.Pattern):
            return ['R', self.patterns.get(x.pattern, ['lit', '?' + x.pattern])]
        return ['?', t.__name__]

    def encmap(self, d):
        return {k: self.enc(v) for k, v in d.items()}

    def desc(self, pairs):
        return {k: self.dec(v) for k, v in pairs}

    def encdesc(self, d):
        return [[k, self.enc(v)] for k, v in d.items()]

    # -- definitions -----------------------------------------------------------

    def typ(self, name):
        return TYPES[name] if name in TYPES else self.cls[name]

    def raw_attr(self, r):
        a = dict()
        if 'info' in r:
            a['info'] = r['info']
        if 'typ' in r:
            a['type'] = self.typ(r['typ'])
        if 'args' in r:
            a['args'] = {k: self.dec(v) for k, v in r['args']}
        for k in ('default',):
            if k in r:
                a[k] = self.dec(r[k])
        for k in ('optional', 'access', 'isclass'):
            if k in r:
                a[k] = r[k]
        if 'vis' in r:
            a['doc_visibility'] = doc.visibility.level(r['vis'])
        if 'z' in r:
            a['doc_zorder'] = r['z']
        if 'alias' in r:
            a['alias'] = {'list': list, 'set': set}.get(r.get('shape'), tuple)(r['alias'])
        for k in ('values', 'outcast'):
            if k in r:
                vals = [self.dec(x) for x in r[k]]
                a[k] = set(vals) if (r.get('shape') == 'set' and 'auto' not in r) else vals
        if 'remap' in r or 'auto' in r:
            a['remap'] = {self.dec(x): self.dec(y) for x, y in r.get('remap', [])}
            if 'auto' in r:
                a['remap']['autoremap'] = r['auto']
        return a

    def raw(self, d):
        """A raw definition; `shape` only changes the way in which it is written."""
        out = dict()
        shape = d.get('shape')
        if 'attr' in d:
            attr = {k: self.raw_attr(r) for k, r in d['attr'].items()}
            out['attr'] = [{k: r} for k, r in attr.items()] if shape == 'list' else attr
        if 'only' in d:
            only = dict()
            for k, alts in d['only']:
                vals = [self.dec(x) for x in alts]
                form = d.get('oshape', 'tuple')
                only[k] = vals[0] if len(vals) == 1 and form == 'single' else (
                    list(vals) if form == 'list' else tuple(vals))
            out['only'] = [{k: v} for k, v in only.items()] if shape == 'list' else only
        if 'level' in d:
            out['priority'] = dict(level=priorities.top.level(d['level']))
        if 'info' in d:
            out['info'] = d['info']
        return out

    def part(self, p):
        if 'ref' in p:
            return self.fps[p['ref']]
        if 'plain' in p:
            return self.fps[p['plain']].as_footprint()
        if 'cls' in p:
            return self.cls[p['cls']].footprint_retrieve()
        return self.raw(p['def'])

    # -- execution ---------------------------------------------------------------

    def attrs_of(self, obj):
        return {k: self.enc(getattr(obj, k)) for k in obj.footprint_attributes}

    def keep(self, obj, name):
        self.objs[name] = obj
        self.name(obj, name)

    def res_obj(self, obj, name):
        """Result of a call which gives an object: a new one, an old one, or None."""
        if obj is None:
            return dict(k='none')
        known = self.name(obj)
        if known is not None:
            self.objs[known] = obj
            return dict(k='old', id=known)
        if not isinstance(obj, footprints.FootprintBase):
            return dict(k='other', t=type(obj).__name__)
        at = self.attrs_of(obj)
        self.keep(obj, name)
        return dict(k='obj', cls=self.cids.get(type(obj), '?' + type(obj).__name__), at=at)

    def collector(self, tag, via=''):
        if via == 'proxy':
            return getattr(footprints.proxy, tag + 's')
        if via == 'upper':
            return collectors.get(tag=tag.upper() + 's', report=footprints.setup.report)
        return collectors.get(tag=tag, report=footprints.setup.report)

    def op_fp(self, c):
        parts = [self.part(p) for p in c['parts']]
        before = self._json([self._frozen(x) for x in parts])
        try:
            if 'deco' in c:
                decos = [self.decorator(x) for x in c['deco']]
                kw = dict(decorator=decos[0] if c.get('dform') == 'single' else decos) if decos or c.get('dform') == 'list' else dict()
                new = footprints.DecorativeFootprint(*parts, **kw)
                res = dict(k='ok', deco=[getattr(x, 'vh', '?') for x in new.decorators])
            else:
                new = footprints.Footprint(*parts)
                res = dict(k='ok')
            self.fps[c['id']] = new
        finally:
            same = before == self._json([self._frozen(x) for x in parts])
        return res if same else dict(k='other', t='definition altered')

    def decorator(self, name):
        if name == '?':
            return 'not a callable'
        if name not in self.decos:
            def deco(cls):
                cls.vh_deco = list(cls.__dict__.get('vh_deco', ())) + [name]
                return cls
            deco.vh = name
            self.decos[name] = deco
        return self.decos[name]

    def _frozen(self, x):
        """The content of a raw definition (to check that it is never altered)."""
        if type(x) is dict:
            return {str(k): self._frozen(v) for k, v in x.items()}
        if type(x) in (list, tuple):
            return [type(x).__name__] + [self._frozen(v) for v in x]
        if type(x) is set:
            return sorted(str(self._frozen(v)) for v in x)
        if isinstance(x, footprints.Footprint):
            return ''     # observed
        if isinstance(x, priorities.PriorityLevel):
            return x.tag
        return self.enc(x)

    def op_cls(self, c):
        parts = [self.part(p) for p in c['parts']]
        def text(this, _name=self.name):
            return 'obj:' + (_name(this) or '?')
        d = {'__module__': c['mod'], '__str__': text, '__repr__': text, 'fpm': lambda this, guess, extras, _c=c['id']: 'fpm' + _c}
        if parts or c.get('form') == 'list':
            d['_footprint'] = parts[0] if (len(parts) == 1 and c.get('form') != 'list') else list(parts)
        if c['abstract'] or c.get('form') == 'list':
            d['_abstract'] = c['abstract']
        for k, v in c['own'].items():
            if k == 'reusem':     # told by the method instead of the attribute
                d['footprint_reusable'] = classmethod(lambda this, _v=v: _v)
            elif k == 'shade':
                d['footprint_shade'] = classmethod(lambda this, _v=SHADES[v]: _v)
            else:
                d['_' + k] = tuple(v) if isinstance(v, list) else v
        if c.get('empty'):        # the objects are false
            d['__bool__' if c['empty'] == 'bool' else '__len__'] = lambda this: 0 if c['empty'] == 'len' else False
        if c.get('ownmark'):      # a variable of the class, hidden by the one of the object
            d['vh_mark'] = 'class'
        for k in c.get('hooks', []):
            d['footprint_export_' + k] = lambda this, _x='hook-%s-%s' % (c['id'], k): _x
        bases = tuple(self.cls[b] for b in c['bases']) or (footprints.FootprintBase,)
        before = self._json([self._frozen(x) for x in parts])
        realcls = type(bases[0])(c['py'], bases, d)
        same = before == self._json([self._frozen(x) for x in parts])
        self.cls[c['id']] = realcls
        self.cids[realcls] = c['id']
        mod = _module(c['mod'])
        setattr(mod, c['py'], realcls)
        realcls.__qualname__ = c['py']
        return dict(k='ok', deco=list(realcls.__dict__.get('vh_deco', ()))) if same else dict(k='other', t='definition altered')

    def with_desc(self, c, fun):
        d = self.desc(c['desc'])
        try:
            return fun(d)
        finally:
            c['dpost'] = self.encdesc(d)

    def op_find_all(self, c):
        def fun(d):
            found = self.collector(c['tag'], c.get('via', '')).find_all(d, **self.cache(c))
            return dict(k='all', l=[dict(cls=self.cids.get(x, '?' + x.__name__), at=self.encmap(at), inp=sorted(inp))
                                    for x, at, inp in found])
        return self.with_desc(c, fun)

    def cache(self, c):
        """Two lookups in a row may share their resolution cache."""
        if c.get('cache') == 'new':
            self.rcache = collectors.ResolveCache()
            return dict(resolvecache=self.rcache)
        if c.get('cache') == 'same':
            return dict(resolvecache=self.rcache)
        return dict()

    def op_find_any(self, c):
        return self.with_desc(c, lambda d: self.res_obj(
            self.collector(c['tag'], c.get('via', '')).find_any(d, **self.cache(c)), c['id']))

    def op_find_best(self, c):
        return self.with_desc(c, lambda d: self.res_obj(
            self.collector(c['tag'], c.get('via', '')).find_best(d, **self.cache(c)), c['id']))

    def op_pickup(self, c):
        tag = c['tag']
        d = self.desc(c['desc'])
        given = d.get(tag) is not None
        try:
            via = c.get('via', '')
            if via == 'module':
                d = dict(d, tag=tag)
                out = footprints.pickup(d) if given else self.printing(tag, d, lambda: footprints.pickup(d))
                same = out is d
            else:
                col = self.collector(tag, via)
                out = col.pickup(d) if given else self.printing(tag, d, lambda: col.pickup(d))
                same = out is d
            if not same:
                return dict(k='other', t='not the given description')
            if given:
                return dict(k='ok')
            return self.res_obj(out.get(tag), c['id'])
        finally:
            c['dpost'] = self.encdesc(d)

    def op_load(self, c):
        tag, via = c['tag'], c.get('via', '')

        def load(d):
            if via == 'module':
                return footprints.load(tag=tag, **d)
            elif via == 'proxy':
                return getattr(footprints.proxy, tag)(**d)
            elif via.startswith('prx:'):
                return getattr(self.prx[via[4:]], tag)(**d)
            else:
                return self.collector(tag, via).load(**d)

        def fun(d):
            return self.res_obj(self.printing(tag, d, lambda: load(d)), c['id'])
        return self.with_desc(c, fun)

    def op_default(self, c):
        tag, via = c['tag'], c.get('via', '')

        def fun(d):
            if via == 'module':
                obj = footprints.default(tag=tag, **d)
            else:
                obj = self.collector(tag, via).default(**d)
            return self.res_obj(obj, c['id'])
        return self.with_desc(c, fun)

    def op_new(self, c):
        def fun(d):
            cls = self.cls[c['cls']]
            return self.res_obj(cls(d) if c.get('via') == 'dict' else cls(**d), c['id'])
        return self.with_desc(c, fun)

    def op_clone(self, c):
        def fun(d):
            src = self.objs[c['src']]
            kw = dict() if not d and c.get('via') == 'bare' else dict(extra=d)
            if c.get('full'):
                kw['full'] = True
            src.vh_mark = c['id']
            new = src.footprint_clone(**kw)
            return dict(self.res_obj(new, c['id']), mark=getattr(new, 'vh_mark', '') == c['id'])
        return self.with_desc(c, fun)

    def op_aclone(self, c):
        return self.with_desc(c, lambda d: self.res_obj(
            self.collector(c['tag']).almost_clone(self.objs[c['src']], **d), c['id']))

    def _pairs(self, a, b, out, memo):
        """Names of the objects of the copy b, in parallel with a."""
        if id(b) in memo or isinstance(a, type):
            return
        memo.add(id(b))
        if isinstance(a, footprints.FootprintBase) and isinstance(b, footprints.FootprintBase):
            if a is b:
                return
            if type(a) not in PROXIES:
                out.append((a, b))
                for k in a.footprint_attributes:
                    acc = type(a).footprint_access(k)
                    if 'weak' not in acc and k in b.footprint_attributes:
                        self._pairs(getattr(a, k), getattr(b, k), out, memo)
        elif isinstance(a, dict) and isinstance(b, dict):
            for k in a:
                if k in b:
                    self._pairs(a[k], b[k], out, memo)
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                self._pairs(x, y, out, memo)

    def op_copies(self, c):
        src = self.objs[c['src']]
        new = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
               'pickle': lambda x: pickle.loads(pickle.dumps(x, c.get('proto', pickle.DEFAULT_PROTOCOL)))}[c['op']](src)
        if type(new) is not type(src) or new is src:
            c['map'] = {}
            return dict(k='other', t=type(new).__name__)
        if c['op'] == 'copy':
            found = [(src, new)]
        else:
            found = list()
            self._pairs(src, new, found, set())
        c['map'] = dict()
        for i, (a, b) in enumerate(found):
            self.name(b, c['id'] + ('' if i == 0 else '_' + str(i)))
            c['map'][self.name(a)] = self.name(b)
        self.objs[c['id']] = new
        return dict(k='ok')

    op_copy = op_deepcopy = op_pickle = op_copies

    def op_copymess(self, c):
        """Change everything that can be changed in a copy which is not kept."""
        src = self.objs[c['src']]
        new = copy.deepcopy(src) if c['m'] == 'deepcopy' else pickle.loads(pickle.dumps(src))
        for k in new.footprint_attributes:
            _mess(getattr(new, k))
        return dict(k='ok')

    def op_set(self, c):
        setattr(self.objs[c['obj']], c['attr'], self.dec(c['val']))
        return dict(k='ok')

    def op_del(self, c):
        delattr(self.objs[c['obj']], c['attr'])
        return dict(k='ok')

    def op_raw(self, c):
        obj = self.objs[c['obj']]
        if c['m'] == 'set':
            obj.footprint_setattr(c['attr'], self.dec(c['val']))
        else:
            obj.footprint_delattr(c['attr'])
        return dict(k='ok')

    def op_revalue(self, c):
        self.cls[c['cls']].footprint_retrieve().attr[c['attr']]['default'].value = self.dec(c['val'])
        return dict(k='ok')

    def op_drop(self, c):
        del self.objs[c['obj']]
        return dict(k='ok')

    def op_mkfoo(self, c):
        self.foos[c['foo']] = (FooSub if c.get('sub') else Foo)(c['foo'])
        return dict(k='ok')

    def op_dropfoo(self, c):
        self.foos.pop(c['foo'], None)
        return dict(k='ok')

    def op_filter(self, c):
        col = self.collector(c['tag'])
        m, a = c['crit'], c['arg']
        if m == 'package':
            found = col.filter_package(a)
        elif m in ('reusable', 'abstract', 'shade'):
            found = col.filter_onflag('footprint_' + m, SHADES[a] if m == 'shade' else a)
        elif m == 'higher':
            found = col.filter_higher_level(a)
        else:
            found = col.filter_lower_level(a)
        return dict(k='set', l=[self.cids.get(x, '?' + x.__name__) for x in found])

    def op_discard(self, c):
        col = self.collector(c['tag'])
        m, a = c['crit'], c['arg']
        verbose = dict(verbose=bool(c.get('verbose')))
        if m == 'package':
            col.discard_package(a, **verbose)
        elif m in ('reusable', 'abstract', 'shade'):
            col.discard_onflag('footprint_' + m, SHADES[a] if m == 'shade' else a, **verbose)
        elif m == 'higher':
            col.discard_higher_level(a, **verbose)
        else:
            col.discard_lower_level(a, **verbose)
        return dict(k='ok')

    def op_resetlevel(self, c):
        if c['tag'] == '':
            footprints.reset_package_priority(c['arg'], c['level'])
        else:
            self.collector(c['tag']).reset_package_level(c['arg'], c['level'])
        return dict(k='ok')

    def op_col(self, c):
        col = self.collector(c['tag'])
        m = c['m']
        if m == 'discard':
            col.discard(self.cls[c['cls']])
        elif m == 'add':
            col.add(*[self.cls[x] for x in c['classes']])
        elif m == 'clear':
            col.clear()
        elif m == 'pop':
            out = col.pop()
            return dict(k='cls', c=self.cids.get(out, '?'))
        elif m == 'fasttrack':
            col.fasttrack = c['attrs']
        elif m == 'report':
            col.report = c['level']
        return dict(k='ok')

    def op_values(self, c):
        return dict(k='vals', l=[self.enc(x) for x in self.collector(c['tag']).get_values(c['attr'])])

    def op_attrmap(self, c):
        col = self.collector(c['tag'])
        m = col.build_attrmap(only=c['only']) if c['sel'] else col.build_attrmap()
        return dict(k='map', l=[dict(key=k, name=e['name'], module=e['module'], values=[self.enc(x) for x in e['values']],
                                     outcast=[self.enc(x) for x in e['outcast']]) for k, l in m.items() for e in l])

    def op_grep(self, c):
        d = self.desc(c['desc'])
        found = footprints.grep(**d) if c['tag'] == '' else self.collector(c['tag']).grep(**d)
        return dict(k='set', l=[self.name(x) or '?' for x in found])

    def op_tag(self, c):
        col = collectors.get(tag=c["name"], report=footprints.setup.report)
        same = collectors.get(tag=col.tag) is col and dict(collectors.items()).get(col.tag) is col
        return dict(k='tag', t=col.tag if same else '?')

    def _what(self, x):
        """What is an attribute of a proxy: a collector, its load method..."""
        if isinstance(x, collectors.Collector):
            return ('col', x.tag if collectors.get(tag=x.tag) is x else '?')
        if isinstance(x, types.MethodType) and isinstance(x.__self__, collectors.Collector):
            col = x.__self__
            return ('load' if x.__func__ is type(col).load and collectors.get(tag=col.tag) is col else '?', col.tag)
        return ('own', '') if x == 'own' else ('?', type(x).__name__)

    def op_proxy(self, c):
        x = getattr(footprints.proxy, c['name'])
        if x is None:
            return dict(k='none')
        k, t = self._what(x)
        return dict(k=k, t=t)

    def op_proxyhas(self, c):
        b = c['name'] in footprints.proxy
        if b != footprints.proxy.exists(c['name']):
            return dict(k='other', t='contains')
        got = footprints.proxy.getitem(c['name'])
        return dict(k='bool', b=b, got='none' if got is None else ':'.join(self._what(got)))

    def op_addproxy(self, c):
        if c['id'] not in self.prx:
            p = self.prx[c['id']] = Hold()
            for n in c['own']:
                setattr(p, n, 'own')
        if c.get('clear', False):
            footprints.setup.add_proxy(self.prx[c['id']], clear=True)
        else:
            footprints.setup.add_proxy(self.prx[c['id']])
        return dict(k='ok')

    def op_prio(self, c):
        p, m, a = priorities.top, c['m'], c['a']

        def lev(x):
            return '-' if x is None else x.tag if isinstance(x, priorities.PriorityLevel) and x.inset is p else '?'
        v = ''
        if m == 'extend':
            p.extend(*a)
        elif m == 'insert':
            v = lev(p.insert(a[0]))
        elif m == 'insert_after':
            v = lev(p.insert(tag=a[0], after=p.level(a[1]) if c.get('via') == 'obj' and p.level(a[1]) else a[1]))
        elif m == 'insert_before':
            v = lev(p.insert(tag=a[0], before=p.level(a[1]) if c.get('via') == 'obj' and p.level(a[1]) else a[1]))
        elif m in ('addafter', 'addbefore'):
            ref = p.level(a[1])
            if ref is None:
                raise ValueError('unknown level')
            v = lev(getattr(ref, m)(a[0]))
        elif m == 'set_before':
            priorities.set_before(a[0], *a[1:])
        elif m == 'set_after':
            priorities.set_after(a[0], *a[1:])
        elif m == 'remove':
            p.remove(p.level(a[0]) if c.get('via') == 'obj' and p.level(a[0]) else a[0])
        elif m in ('delete', 'up', 'down', 'top', 'bottom', 'nextlevel', 'prevlevel'):
            ref = p.level(a[0])
            if ref is None:
                raise ValueError('unknown level')
            out = getattr(ref, m)()
            v = '' if m == 'delete' else lev(out)
        elif m == 'rerank':
            v = lev(p.rerank(a[0], a[1]))
        elif m == 'freeze':
            p.freeze(a[0])
        elif m == 'restore':
            p.restore(a[0])
        elif m == 'reset':
            p.reset()
        elif m == 'freezed':
            v = list(p.freezed())
        elif m == 'level':
            v = lev(p.level(a[0]))
        elif m == 'contains':
            v = a[0] in p
        elif m == 'levelbyindex':
            v = lev(p.levelbyindex(a[0]))
        elif m == 'levelindex':
            v = p.levelindex(a[0])
        elif m == 'cmp':
            x, y = p.level(a[0]), p.level(a[1])
            if x is None or y is None:
                raise ValueError('unknown level')
            if c.get('via') == 'name':
                y = a[1]
            v = [x < y, x <= y, x == y, x >= y, x > y, x != y]
            if x.rank != x() or x.rank != p.levelindex(a[0]):
                v = ['rank']
        elif m == 'eqname':
            x = p.level(a[0])
            if x is None:
                raise ValueError('unknown level')
            v = x == a[1]
        elif m == 'copy':
            q = copy.deepcopy(p)
            for i, t in enumerate(q.levels):
                if q.level(t).inset is not q or q.level(t).rank != i or q() != q.levels or list(q) != list(q.levels):
                    raise RuntimeError('not a proper copy')
            v = list(q.levels)
            q.extend('zzcopy', *reversed(v))      # the copy is independent
            q.remove('zzcopy')
        return dict(k='ok', v=v)

    def op_setup(self, c):
        m = c['m']
        s = footprints.setup if c.get('setup', '') == '' else self.setups.get(c['setup'])
        d = dict(self.desc(c['pairs'])) if 'pairs' in c else None
        if 'of' in c:           # the defaults of another setup are given
            d = (footprints.setup if c['of'] == '' else self.setups[c['of']]).defaults
        if m == 'replace':
            s.defaults = d
        elif m == 'update':
            if c.get('via') == 'kw':
                s.defaults.update(**d)
            else:
                s.defaults.update(d)
        elif m == 'set':
            for k, v in d.items():
                s.defaults[k] = v
        elif m == 'del':
            for k in d:
                del s.defaults[k]
        elif m == 'get':
            new = config.get(tag=c['setup'], defaults=d)
            if c['setup'] in self.setups and self.setups[c['setup']] is not new:
                return dict(k='other', t='another setup')
            self.setups[c['setup']] = new
        elif m == 'derive':
            src = footprints.setup if c['src'] == '' else self.setups[c['src']]
            kw = dict(tag=c['setup'])
            if d is not None:
                kw['defaults'] = d
            new = []
            _printed(lambda: new.append(src(**kw)))
            if (c['setup'] in self.setups and self.setups[c['setup']] is not new[0]) or new[0] is not config.get(tag=c['setup']):
                return dict(k='other', t='another setup')
            for k in ('extended', 'fastmode', 'fatal', 'fastkeys', 'docstrings', 'shortnames', 'report', 'report_style', 'lreport_len',
                      'callback'):
                if c['setup'] not in self.setups and getattr(new[0], k) != getattr(src, k):
                    return dict(k='other', t='other values')
            self.setups[c['setup']] = new[0]
        elif m == 'extras':
            s.callback = (lambda: d) if d else None       # (always the same dictionary)
        elif m == 'extended':
            s.extended = c['flag']
        elif m == 'fastmode':
            s.fastmode = c['flag']
        elif m == 'fastkeys':
            s.fastkeys = tuple(c['names'])
        elif m == 'report':
            s.report = c['level']
        elif m == 'neutral':
            setattr(s, c['attr'], c['value'])
        elif m == 'lookup':
            return dict(k='val', v=self.enc(s.defaults[c['name']]))
        return dict(k='ok')

    def op_query(self, c):
        cls, m = self.cls[c['cls']], c['m']
        fp = cls.footprint_retrieve()
        if m == 'mandatory':
            return dict(k='set', l=list(cls.footprint_mandatory()))
        if m == 'optional':
            return dict(k='bool', b=cls.footprint_optional(c['attr']))
        if m == 'allkeys':
            a, b = fp.allkeys(), fp.as_opts()
            return dict(k='set', l=sorted(a)) if a == b else dict(k='other', t='as_opts')
        if m == 'values':
            return dict(k='vals', l=[self.enc(x) for x in cls.footprint_values(c['attr'])])
        if m == 'level':
            return dict(k='str', s=cls.footprint_level())
        if m == 'outcast':
            return dict(k='vals', l=[self.enc(x) for x in fp.get_outcast(c['attr'])])
        if m == 'access':
            return dict(k='str', s=cls.footprint_access(c['attr']))
        if m == 'info':
            return dict(k='str', s=fp.info)
        if m == 'clskind':
            return dict(k='str', s=cls.footprint_clskind())
        if m == 'fullname':
            return dict(k='str', s=cls.fullname())
        if m == 'realkind':
            return dict(k='str', s=cls.footprint_clsrealkind())
        if m == 'abstract':
            return dict(k='bool', b=cls.footprint_abstract())
        if m == 'reusable':
            return dict(k='bool', b=cls.footprint_reusable())
        if m == 'asdict':
            x, y = fp.as_copy(), fp.as_dict()
            for a in x['attr'].values():
                for z in ('values', 'outcast', 'alias', 'remap'):
                    a[z].clear()
                a.update(optional=True, default='messed')
            for z in ('attr', 'only'):
                x[z].clear()
                y[z] = dict()
            x['priority'].clear()
            y.pop('info')
            return dict(k='ok')
        if m == 'track':
            return dict(k='set', l=fp.track(self.desc(c['desc'])))
        if m == 'couldbe':
            def fun(d):
                got, inp = cls.footprint_couldbe(d, **(dict(mkreport=True) if c.get('mkreport') else dict()))
                return dict(k='yes', at=self.encmap(got), inp=sorted(inp)) if got else dict(k='no')
            return self.with_desc(c, fun)

    def told(self, why, args):
        """What is told along with a reason."""
        if why == 'Do not match':
            return ['l', [self.enc(x) for x in args]]
        if why in ('Not a subclass', 'Could not reclass'):
            known = lambda t: t if t in TYPES or t not in [x.__name__ for x in self.cids] else '?'
            return ['s', known(args)] if isinstance(args, str) else ['t', [['s', known(args[0])]] + [['s', x] for x in args[1:]]]
        return self.enc(args)

    def op_report(self, c):
        """All the views of the report of the last lookup."""
        col = self.collector(c['tag'])
        last = col.report_last
        if last is None:
            return dict(k='none')
        names = {x.fullname() for x in self.cids}
        out = dict(k='report')

        def items(d):
            return sorted([dict(c=cl, a=a, k=k, x=i[k]) for cl, at in d.items() for a, i in at.items()
                           for k in ('why', 'only') if k in i], key=str)
        def v_dict():
            d = last.as_dict()
            out['dict'], out['cls'] = items(d), list(d)
            out['fields'] = sorted({f for at in d.values() for i in at.values() for f in i})
            out['args'] = [dict(c=cl, a=a, k=k, x=i[k], v=self.told(i[k], i.get('args')))
                           for cl, at in d.items() for a, i in at.items() for k in ('why', 'only') if k in i]

        def v_log():
            d = list(col.report_log.as_dict(stamp=bool(c.get('stamp'))).values())[-1]
            out['log'], out['logcls'] = items(d), list(d)

        def v_why():
            d = col.report_whynot(c['sel'])
            out['why'], out['whycls'] = items(d), list(d)

        def v_xml():
            xml = col.report_log.as_xml()
            kids = [x for x in xml.doc.documentElement.lastChild.childNodes if x.tagName == 'class']
            out['xmlcls'] = [x.getAttribute('name') for x in kids]
            out['xml'] = [dict(c=x.getAttribute('name'), a=y.getAttribute('name'), k=k, x=y.getAttribute(k))
                          for x in kids for y in x.childNodes for k in ('why', 'only') if y.hasAttribute(k)]
            short = [dict(c=x['c'], a=x['a'], x=x['x'] if x['k'] == 'why' else '') for x in out['xml']]
            if short != [dict(c=x['classname'], a=x['name'], x=x['why']) for x in list(xml.iter_last())]:
                out['xml'] = []

        def v_flat():
            flat, got = last.as_flat(), []
            for key in ('why', 'only'):
                flat.reshuffle([key, 'attribute'], skip=False)
                got += _tree(_printed(flat.fulldump), names)
            out['flat'] = got

        def v_soft():
            out['soft'] = _tree(_printed(col.report_sorted().softprint), names)

        def v_ordered():
            out['ordered'] = _tree(_printed(last.as_tree().orderedprint), names)

        def v_dumper():
            out['dumper'] = _tree(_printed(last.as_tree().dumper), names)

        def v_light():
            out['light'], out['lightcls'] = _light(_printed(last.lightdump), names)
        views = [v_dict, v_log, v_why, v_xml, v_flat, v_soft, v_ordered, v_dumper, v_light]
        random.Random(c.get('ord', 0)).shuffle(views)      # in any order
        for v in views:
            v()
        p = self.before
        if p is not None and p['tag'] == c['tag']:
            x = dict(want=p['want'] and p['failed'], some=bool(p['text'].strip()), l=[])
            if x['some']:
                x['l'] = _light(p['text'], names)[0] if p['style'] == 0 else _tree(p['text'].split('\n', 3)[-1], names)
            out['printed'] = x
        return out

    def op_export(self, c):
        obj, m = self.objs[c['obj']], c['m']
        if m == 'undefs':
            return dict(k='at', at={k: ['n', ''] for k in obj.footprint_undefs()})
        d = {'shallow': obj.footprint_as_shallow_dict, 'dict': obj.footprint_as_dict, 'export': obj.footprint_export}[m]()
        at = self.encmap(d)
        for k in list(d):         # changes in the result do not change the object
            if m != 'shallow':
                _mess(d[k])
            d[k] = 'changed'
        d['zz'] = 1
        return dict(k='at', at=at)

    def op_listing(self, c):
        m, p = c['m'], footprints.proxy
        if m == 'catlist':
            return dict(k='list', l=[dict(n=n, name=k, t=self._what(v)[1]) for n, k, v in p.catlist()])
        if m in ('cat', 'call', 'objects'):
            lines = [x.split() for x in _printed(dict(cat=p.cat, call=p, objects=p.objects)[m]).splitlines() if x.strip()]
            return dict(k='list', l=[dict(n=int(x[0]), name=x[1], t=x[1][:-1]) for x in lines])
        if m == 'objectsmap':
            return dict(k='list', l=[dict(name=k, o=[self.name(x) or '?' for x in v]) for k, v in p.objectsmap().items()])
        if m == 'iter':
            return dict(k='list', l=[self._what(x)[1] for x in p])
        if m == 'keys':
            return dict(k='list', l=list(collectors.keys()))
        if m == 'values':
            return dict(k='list', l=[self._what(x)[1] for x in collectors.values()])
        if m == 'items':
            return dict(k='list', l=[k if self._what(x) == ('col', k) else '?' for k, x in collectors.items()])
        return dict(k='list', l=[self.cids.get(x, '?' + x.__name__) for x in footprints.collected_classes()])

    def op_levels(self, c):
        text = _printed(lambda: footprints.collected_priorities(c['level']))
        return dict(k='list', l=[dict(level=x.split(' - ')[0].strip(), name=x.split(' - ')[1].strip()) for x in text.splitlines()])

    def op_show(self, c):
        col = self.collector(c['tag'])
        only = dict()
        if c['sel']:
            only = dict(only=c['only'][0] if c.get('single') else c['only'])
        if c['m'] == 'keys':
            lines = [x.split() for x in _printed(lambda: col.show_attrkeys(**only)).splitlines()]
            return dict(k='list', l=[dict(attr=x[1], opt=x[2:] == ['[optional]']) for x in lines])
        out, cur = [], None
        for x in _printed(lambda: col.show_attrmap(**only)).splitlines():
            if x.startswith(' * ') and x.endswith(':'):
                y = x[3:-1].split()
                cur = dict(attr=y[0], opt=y[1:] == ['[optional]'])
            elif x.startswith('     ') and ' + ' in x and ' | ' not in x:
                y = x.split(' + ')
                out.append(dict(cur, name=y[0].strip(), mod=y[1].strip()))
        return dict(k='list', l=out)

    def op_doc(self, c):
        """Generated documentation of a footprint."""
        fp = self.fps[c['name']] if c['name'] in self.fps else self.cls[c['name']].footprint_retrieve()
        text = doc.format_docstring(fp, 2)
        out = dict(k='doc', attrs=[], only=[], alias=[], info='?', level='?')
        part, cur = '', None
        for x in text.splitlines():
            x = x[4:]
            if x.startswith('   Automatic parameters'):
                part = 'attrs'
            elif x.startswith('   Only clauses'):
                part = 'only'
            elif x.startswith('   Aliases of'):
                part = 'alias'
            elif x.startswith('   Decorators'):
                part = 'deco'
            m = re.match(r'     \* \*\*(.*?)\*\* (.*)$', x)
            if part == '' and x.startswith('     * info: '):
                out['info'] = x[len('     * info: '):]
            elif part == '' and x.startswith('     * priority: '):
                m = re.match(r'.*PriorityLevel::(\w+)', x)
                out['level'] = m.group(1) if m else '?'
            elif part == 'attrs' and m:
                y = re.match(r'\(:class:`(.*?)`\) - (\S+) - (.*)$', m.group(2))
                cur = dict(n=m.group(1), typ=y.group(1), access=y.group(2), info=y.group(3), optional=False, values=False,
                           outcast=False, remap=False, args=False)
                out['attrs'].append(cur)
            elif part == 'attrs':
                m = re.match(r'       \* (Optional|Values|Outcast|Remap|Args)(?:\. Default is |: )', x)
                if m:
                    cur[m.group(1).lower()] = True
            elif part == 'only' and m:
                out['only'].append(m.group(1))
            elif part == 'alias' and m:
                y = re.match(r'is an alias of (.*)\.$', m.group(2))
                out['alias'].append([m.group(1), y.group(1)])
        return out

    # -- observation ---------------------------------------------------------

    @staticmethod
    def _json(x):
        return json.dumps(x, sort_keys=True)

    def _obs_fp(self, fp):
        attr = dict()
        for k, a in fp.attr.items():
            acc = a['access']
            x = dict(default=self.enc(a['default']), optional=a['optional'],
                     access=acc if isinstance(acc, str) else acc.access_mode,
                     alias=sorted(a['alias']), values=[self.enc(v) for v in a['values']],
                     outcast=[self.enc(v) for v in a['outcast']],
                     remap=[[self.enc(p), self.enc(q)] for p, q in a['remap'].items()])
            for s in ('values', 'outcast'):
                x[s].sort(key=str)
            if 'type' in a:
                x['typ'] = NAMES.get(a['type']) or self.cids.get(a['type'], '?')
            if 'args' in a:
                x['args'] = [[n, self.enc(v)] for n, v in a['args'].items()]
            if 'isclass' in a:
                x['isclass'] = a['isclass']
            attr[k] = x
        only = list()
        for k, v in fp.only.items():
            if isinstance(v, str) or not hasattr(v, '__iter__'):
                v = (v,)
            only.append([k, [self.enc(y) for y in v]])
        return dict(attr=attr, only=only, level=fp.level.tag, info=fp.info)

    def _obs_collector(self, tag):
        c = dict(collectors.items())[tag]
        return dict(items=sorted(self.cids.get(x, '?' + x.__name__) for x in c.items()),
                    abs=sorted(self.cids.get(x, '?' + x.__name__) for x in c.abstract_classes.items()),
                    inst=sorted(self.name(x) or '?' + type(x).__name__ for x in c.instances()),
                    fast=sorted(c.fasttrack))

    @staticmethod
    def _obs_levels():
        return dict(levels=list(priorities.top.levels), frozen=list(priorities.top.freezed()))

    def _obs_proxy(self, p):
        out = dict()
        for k, v in vars(p).items():
            kind, t = self._what(v)
            out[k] = kind if kind == 'own' else kind + ':' + t
        return out

    def observe(self):
        now = dict(fp=dict(), col=dict(), set=dict(), obj=dict(), prx=dict())
        for n, fp in self.fps.items():
            now['fp'][n] = self._obs_fp(fp)
        for n, c in self.cls.items():
            if n != 'FootprintBase':
                now['fp'][n] = self._obs_fp(c.footprint_retrieve())
        for tag in collectors.keys():
            now['col'][tag] = self._obs_collector(tag)
        now['set']['@'] = self.encmap(footprints.setup.defaults)
        now['set']['#'] = self.encmap(footprints.setup.extras())
        for n, s in self.setups.items():
            now['set']['@' + n] = self.encmap(s.defaults)
        for n, o in self.objs.items():
            now['obj'][n] = self.attrs_of(o)
        for n, p in self.prx.items():
            now['prx'][n] = self._obs_proxy(p)
        delta = dict(lv=dict())
        for part, things in now.items():
            delta[part] = dict()
            old, new = self.last[part], dict()
            for n, x in things.items():
                new[n] = self._json(x)
                if old.get(n) != new[n]:
                    delta[part][n] = x
            self.last[part] = new
        lv = self._obs_levels()
        if self._json(lv) != self.last['lv']:
            self.last['lv'] = self._json(lv)
            delta['lv'] = lv
        return delta

    def printing(self, tag, d, fun):
        """A lookup which may print its report: what is expected (given the hidden arguments), and what is printed."""
        col, out = collectors.get(tag=tag), []
        want = bool(d.get('_emptywarning', True) and d.get('_report', col.report_auto))
        style = d.get('_report_style', col.report_style)
        text = _printed(lambda: out.append(fun()))
        self.printed = dict(tag=tag, want=want, style=style, text=text)
        return out[0]

    def run(self, cmd):
        """Execution of one command: the resulting event."""
        c = dict(cmd)
        self.before, self.printed = self.printed, None
        try:
            res = getattr(self, 'op_' + c['op'])(c)
        except Exception as trouble:
            res = dict(k='exc', x=type(trouble).__name__)
            c.setdefault('map', {})
        if self.printed is not None:
            self.printed['failed'] = res.get('k') == 'none'
        c['res'] = res
        gc.collect()
        c['obs'] = self.observe()
        return c


def _printed(fun):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fun()
    return out.getvalue()


def _light(text, names):
    """The (class, attribute, reason) and the classes told by a light dump."""
    cur, got, seen = None, [], []
    for line in text.splitlines():
        word = line.replace('=>', '').strip()
        if word in names:
            cur = word
            seen.append(word)
        elif cur and ' : {' in word:
            a, info = word.split(' : ', 1)
            for key in ('why', 'only'):
                m = re.search("['\"]" + key + "['\"]: '([^']*)'", info)
                if m:
                    got.append(dict(c=cur, a=a.strip(), k=key, x=m.group(1)))
    return got, seen


def _tree(text, names):
    """The (class, attribute, reason) told by a printed tree: names and reasons above the classes (or below, for a message)."""
    got, cur, pend = [], dict(), []
    for line in text.splitlines():
        line = line.strip()
        m = re.match(r'(?:class : )?(\S+)(?: = .*| \(.*\))$', line)
        if m and m.group(1) in names and not line.startswith('attribute'):
            pend.append(m.group(1))
            if line.startswith('class') or 'a' in cur:
                x = dict(cur, c=m.group(1))
                if len(x) == 4:
                    got.append(x)
                    pend.pop()
            continue
        for part in line.split(' | '):
            m = re.match(r'(why|only|attribute|attribute_name)(?:: | = )(.*?)(?: = dict\($|$)', part)
            if m:
                if m.group(1) in ('why', 'only'):
                    cur['k'], cur['x'] = m.group(1), m.group(2)
                else:
                    cur['a'] = m.group(2)
        if ' | ' in line and pend:
            got += [dict(cur, c=x) for x in pend]
            cur, pend = dict(), []
    return got


def _mess(x):
    """Change anything that can be changed in a value."""
    if type(x) in (list, footprints.FPList):
        for y in x:
            _mess(y)
        x.append('messed')
    elif type(x) in (tuple, footprints.FPTuple):
        for y in x:
            _mess(y)
    elif type(x) in (dict, footprints.FPDict):
        for y in x.values():
            _mess(y)
        x['messed'] = 1
    elif type(x) in (set, footprints.FPSet):
        x.add('messed')


def _module(name):
    """The classes of the histories live in (dummy) modules, so that they can be pickled."""
    import sys
    mod = sys.modules.get(name)
    if mod is None:
        mod = sys.modules[name] = types.ModuleType(name)
        mod.__path__ = []
        if '.' in name:
            _module(name.rpartition('.')[0])
    return mod
