"""C28: proxies and module level functions."""
from footprints import collectors, config, proxies

from ._common import *  # noqa: F401,F403
from ._common import ABSENT, CONVERR, T0, T1, Raw, coll, footprints, harness, isin, mkclass, same, sym_in
from symx.core import Infeasible

ASSUMPTIONS = {
    'C28': ['collector names and queried names from a list of near names (prefixes, case, plural, private)',
            'collectors are not named like the methods of the proxy', 'opaque attribute values'],
}

TAGS = ('zoo', 'zo', 'bus', 'Farm', 'boss')
QUERIES = ('zoo', 'zoos', 'zo', 'zos', 'bu', 'bus', 'farm', 'farms', 'Zoo', 'fARMS', 'z', 'oo', 'xzoo', 'zoo_', '_zoo', '__zoos', '_', 'nothing',
           'nothings', 'garbage', 'garbages', 's', '')


def clean(t):
    return t.lower().rstrip('s')


@harness('C28', bounds='up to 2 collectors among 4 names; 23 queried names (existing, singular, plural, near, private, unknown)',
         covers=('singular', 'plural', 'unknown', 'private'))
def queries(ctx):
    tags = set()
    for i in range(2):
        t = ctx.pick('tag{}'.format(i), (None,) + TAGS)
        if t:
            mkclass('C{}'.format(i), dict(attr=dict(k=dict(type=T0))), tag=t, order=i + 1)
            tags.add(clean(t))
    p = footprints.proxy if ctx.flag('default') else proxies.get(tag='mine')
    known = set(collectors.keys())
    ctx.check(tags <= known, 'keys')
    if 'bo' in tags:
        # (declared with a name which has several final s)
        for q in ('bo', 'bos', 'boss'):
            ctx.check(q in footprints.proxy and footprints.proxy.getitem(q) is coll('bo'), 'declared-name', q)
    q = ctx.pick('query', QUERIES)
    base = [t for t in known if q in (t, t + 's')]
    private = q.startswith('_')
    for i in range(2):
        if base or private or q.rstrip('s') not in known:
            # (a name with several final s is not asked for)
            ctx.check((q in p) == bool(base) and p.exists(q) == bool(base), 'membership', q)
            ctx.check(p.getitem(q, 'other') is (coll(base[0]) if base else 'other'), 'getitem', q)
            if q:
                got = getattr(p, q)
                if not base or private:
                    ctx.cover('private' if private else 'unknown')
                    ctx.check(got is None, 'something-for-unknown', q)
                elif q == base[0]:
                    ctx.cover('singular')
                    ctx.check(got == coll(base[0]).load, 'not-the-load-method', q)
                else:
                    ctx.cover('plural')
                    ctx.check(got is coll(base[0]), 'not-the-collector', q)
        ctx.check(set(collectors.keys()) == known, 'collector-created', q)
    ctx.check([id(c) for c in p] == [id(c) for c in collectors.values()], 'iteration')
    ctx.check(p.catlist() == [(len(coll(t)), t + 's', coll(t)) for t in sorted(known)], 'catlist')
    om = p.objectsmap()
    ctx.check(sorted(om) == sorted(t + 's' for t in known), 'objectsmap')


class Holder:
    pass


@harness('C28', bounds='1 or 2 objects registered before or after the creation of up to 2 collectors, with or without an entry of the same name '
         'before registration, cleared or not', covers=('kept', 'set', 'future'))
def registration(ctx):
    first = ctx.pick('first', TAGS)
    mkclass('C0', dict(attr=dict(k=dict(type=T0))), tag=first)
    f = clean(first)
    objs = []
    for i in range(2 if ctx.flag('two') else 1):
        o = Holder()
        old = {}
        for suffix in ('', 's'):
            if ctx.flag('has{}{}'.format(i, suffix)):
                old[f + suffix] = ctx.val('old{}{}'.format(i, suffix), Raw)
                setattr(o, f + suffix, old[f + suffix])
        clear = ctx.flag('clear{}'.format(i))
        how = ctx.pick('how{}'.format(i), ('kw', 'pos', 'twice'))
        if how == 'pos':
            footprints.setup.add_proxy(o, clear)
        elif clear or how == 'kw':
            footprints.setup.add_proxy(o, clear=clear)
        else:
            footprints.setup.add_proxy(o)
        if how == 'twice':
            footprints.setup.add_proxy(o)
        objs.append((o, old, clear))
    second = ctx.pick('second', TAGS)
    s = clean(second)
    if s != f:
        ctx.cover('future')
        for suffix in ctx.pick('entries-of-second', ((), ('',), ('s',))):
            for o, old, clear in objs:
                setattr(o, s + suffix, 'previous')
        if ctx.flag('by-class'):
            mkclass('C1', dict(attr=dict(k=dict(type=T0))), tag=second)
        else:
            collectors.get(tag=second)
    for o, old, clear in objs:
        for t in collectors.keys():
            for suffix, exp in (('', coll(t).load), ('s', coll(t))):
                n = t + suffix
                ctx.check(hasattr(o, n), 'entry-missing', n)
                if n in old and not clear:
                    ctx.cover('kept')
                    ctx.check(getattr(o, n) is old[n], 'entry-replaced', n)
                else:
                    ctx.cover('set')
                    ctx.check(getattr(o, n) == exp, 'wrong-entry', n)
        ctx.check(sorted(o.__dict__) == sorted([t for t in collectors.keys()] + [t + 's' for t in collectors.keys()]), 'other-entries',
                  sorted(o.__dict__))


@harness('C28', bounds='2 collectors with one class each, opaque values; module level load, pickup, default and grep against those of the '
         'collectors, the tag being given in any form; proxy load', covers=('found', 'nothing', 'reused'))
def module_functions(ctx):
    v0, v1 = ctx.val('v0', T0), ctx.val('v1', T0)
    c0 = mkclass('C0', dict(attr=dict(k=dict(type=T0, values=[v0]))), tag='zoo')
    c1 = mkclass('C1', dict(attr=dict(k=dict(type=T0, values=[v1]))), tag='garbage', order=2)
    tag = ctx.pick('tag', ('zoo', 'zoos', 'ZOO', None, 'garbage'))
    cls, val = (c1, v1) if tag in (None, 'garbage') else (c0, v0)
    base = 'garbage' if cls is c1 else 'zoo'
    x = ctx.val('x', T0)
    tg = dict(tag=tag) if tag else {}
    keep = []
    for c, v in ((c0, v0), (c1, v1)):
        if ctx.flag('live' + c.__name__):
            keep.append(c(k=v))
    how = ctx.pick('how', ('load', 'pickup', 'default', 'grep', 'proxy'))
    known = set(collectors.keys())
    if how == 'grep':
        got = footprints.grep(k=x)
        exp = [o for c in collectors.values() for o in c.grep(k=x)]
        ctx.check(len(got) == len(exp) and {id(o) for o in got} == {id(o) for o in exp}, 'grep', got)
        mine = [o for o in keep if o.k == x]
        ctx.check(len(got) == len(mine) and all([g for g in got if g is o] for o in mine), 'grep-content', got)
        ctx.cover('found' if got else 'nothing')
        return
    if how == 'load':
        obj = footprints.load(k=x, _emptywarning=False, **tg)
    elif how == 'pickup':
        rd = footprints.pickup(dict(k=x, u=3, _emptywarning=False, **tg))
        ctx.check(base in rd and rd.get('u') == 3 and 'tag' not in rd, 'pickup-description', rd)
        obj = rd[base]
        ctx.check(('k' in rd) == (obj is None), 'pickup-consumption', rd)
    elif how == 'default':
        obj = footprints.default(k=x, _emptywarning=False, **tg)
    else:
        obj = getattr(footprints.proxy, base)(k=x, _emptywarning=False)
    ctx.check(set(collectors.keys()) == known, 'collector-created')
    if x == val:
        ctx.cover('found')
        ctx.check(obj is not None and obj.__class__ is cls, 'class', obj)
        ctx.check(obj.k == x, 'value')
        reused = [o for o in keep if o is obj]
        ctx.check(bool(reused) == (how == 'default' and bool([o for o in keep if o.__class__ is cls])), 'reuse', (how, reused))
        if reused:
            ctx.cover('reused')
    else:
        ctx.cover('nothing')
        ctx.check(obj is None, 'found-in-other-collector', obj)


@harness('C28', bounds='up to 2 collectors with up to 2 classes and 2 instances; another one without any class or with an abstract one; catalogs of collectors and objects, printed or not; several proxies',
         covers=('objects', 'empty'))
def catalogs(ctx):
    import contextlib
    import io
    objs = {}
    ncls = {}
    for i in range(2):
        t = ctx.pick('tag{}'.format(i), (None, 'zoo', 'Farm', 'bus'))
        if t:
            cls = mkclass('C{}'.format(i), dict(attr=dict(k=dict(type=T0))), tag=t, order=i + 1, __hash__=lambda self: 3)
            ncls[clean(t)] = ncls.get(clean(t), 0) + 1
            objs.setdefault(clean(t), [])
            if ctx.flag('obj{}'.format(i)):
                objs[clean(t)].append(cls(k=ctx.val('k', T0)))
    ctx.cover('objects' if any(objs.values()) else 'empty')
    extra = ctx.pick('bare', (None, 'lone', 'abstract'))
    if extra:
        # (a collector which has no class, or an abstract one only)
        if extra == 'lone':
            collectors.get(tag=extra)
        else:
            mkclass('Abs', dict(attr=dict(k=dict(type=T0))), tag=extra, order=9, _abstract=True)
        ncls[extra] = 0
        objs[extra] = []
    p = proxies.get(tag='mine')
    ctx.check(proxies.get(tag='mine') is p and p is not footprints.proxy, 'same-proxy')
    ctx.check('mine' in proxies.keys() and any(x is p for x in proxies.values()) and
              any(k == 'mine' and x is p for k, x in proxies.items()), 'proxies-listed')
    for x in (p, footprints.proxy):
        cl = x.catlist()
        om = x.objectsmap()
        every = list(x)
        ctx.check(sorted(n for _, n, _ in cl) == sorted(om) == sorted(k + 's' for k in collectors.keys()), 'names', cl)
        ctx.check(len(every) == len(cl) and all(any(c is e for e in every) for _, _, c in cl), 'iteration')
        for t in ncls:
            l = [(n, c) for n, s, c in cl if s == t + 's']
            ctx.check(len(l) == 1 and l[0][0] == ncls[t] and l[0][1] is coll(t), 'catlist', l)
            ctx.check(sorted(map(id, om[t + 's'])) == sorted(map(id, objs[t])), 'objectsmap', t)
        for how in ('cat', 'call', 'objects'):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                x() if how == 'call' else getattr(x, how)()
            lines = [l.split() for l in out.getvalue().splitlines() if l.split()[1:2] and l.split()[0].isdigit()]
            for t in ncls:
                l = [l for l in lines if l[1] == t + 's']
                ctx.check(len(l) == 1 and int(l[0][0]) == (len(objs[t]) if how == 'objects' else ncls[t]), 'printed-' + how, lines)
            ctx.check(len(lines) == len(cl), 'printed-lines', lines)
