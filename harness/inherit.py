"""C11: declarations are merged along the inheritance, parents are untouched."""
from footprints import DecorativeFootprint, Footprint, priorities

from ._common import *  # noqa: F401,F403
from ._common import (ABSENT, FootprintBase, Infeasible, T0, T1, Raw, coll, footprints, harness, mkclass, same)

ASSUMPTIONS = {}

DEFAULTS = dict(optional=False, default=None, access='rxx', doc_zorder=0)
SETS = ('values', 'outcast', 'alias')


def decl(ctx, tag, props, names=('k',)):
    """A raw declaration: each property of each attribute given or not."""
    at = {}
    for n in names:
        if len(names) > 1 and not ctx.flag(tag + n + '.has'):
            continue
        d = {}
        for p in props:
            if not ctx.flag(tag + n + p):
                continue
            if p in ('values', 'outcast'):
                d[p] = [ctx.val(tag + n + p, T0)]
            elif p == 'default':
                d[p] = ctx.val(tag + n + p, T0)
            elif p == 'optional':
                d[p] = True
            elif p == 'alias':
                d[p] = ('al' + tag,)
            elif p == 'remap':
                d[p] = {'key' + tag[0]: ctx.val(tag + n + p, T0), 'common': ctx.val(tag + n + p, T0)}
            elif p == 'type':
                d[p] = T0
            elif p == 'info':
                d[p] = 'info ' + tag
            elif p == 'access':
                d[p] = 'rwx'
            elif p == 'doc_zorder':
                d[p] = {'a': 5, 'b': -200, 'c': 300, 'd': 7}.get(tag[0], 1)
            elif p == 'args':
                d[p] = dict(p=tag)
            elif p == 'weird':
                d[p] = 'x' + tag
        at[n] = d
    return at


def ref_complete(at):
    """Reference: the complete form of merged raw properties."""
    out = {}
    for n, d in at.items():
        c = dict(DEFAULTS)
        c.update(d)
        for s in SETS:
            c[s] = list(d.get(s, ()))
        c['remap'] = dict(d.get('remap', {}))
        c['doc_zorder'] = min(100, max(-100, c['doc_zorder']))
        out[n] = c
    return out


def ref_merge(*decls):
    """Reference merge: the later declaration prevails, property by property (remap and args: key by key)."""
    out = {}
    for at in decls:
        for n, d in at.items():
            o = out.setdefault(n, {})
            for p, v in d.items():
                if p in ('remap', 'args') and p in o:
                    o[p] = dict(o[p], **v)
                else:
                    o[p] = dict(v) if isinstance(v, dict) else v
    return out


def same_set(ctx, got, want):
    """Equal sets of values (as formulas)."""
    r = True
    for a, b in ((got, want), (want, got)):
        for x in a:
            r = ctx.and_(r, ctx.or_(False, *[(x is y) or (x == y) for y in b]))
    return r


def same_attr(ctx, got, want, label, sets=True):
    ctx.check(set(got) == set(want), label + '-attributes', (sorted(got), sorted(want)))
    for n, w in want.items():
        g = got[n]
        ctx.check(set(g) - {'doc_visibility'} == set(w) - {'doc_visibility'}, label + '-properties', (sorted(g), sorted(w)))
        ctx.check('doc_visibility' in g, label + '-complete')
        for p in w:
            if p in SETS:
                ctx.check(isinstance(g[p], set) or not sets, label + '-' + p)
                ctx.check(same_set(ctx, list(g[p]), list(w[p])), label + '-' + p, (n, g[p], w[p]))
            else:
                ctx.check(same(g[p], w[p]), label + '-' + p, (n, g[p], w[p]))


def snapshot(cls):
    """An independent copy of a declaration."""
    fp = cls._footprint
    return dict(attr={n: {p: (list(v) if isinstance(v, set) else dict(v) if isinstance(v, dict) else v)
                          for p, v in d.items()} for n, d in fp.attr.items()},
                only={k: v for k, v in fp.only.items()}, info=fp.info, level=fp.level, bind=list(fp.bind),
                keys=sorted(fp.as_dict()))


def same_snapshot(ctx, cls, old, label):
    new = snapshot(cls)
    same_attr(ctx, new['attr'], old['attr'], label, sets=False)
    for p in ('info', 'keys', 'bind'):
        ctx.check(new[p] == old[p], label + '-' + p)
    ctx.check(new['level'] is old['level'], label + '-level')
    ctx.check(same(new['only'], old['only']), label + '-only')


def alter(cls):
    """Change (nearly) everything in a declaration."""
    fp = cls._footprint
    for n, d in fp.attr.items():
        d['values'].add(T0.mk(777))
        d['outcast'].add(T0.mk(778))
        d['alias'].add('altered')
        d['remap']['altered'] = 1
        d['optional'] = not d['optional']
        d['default'] = 'altered'
        if 'args' in d:
            d['args']['altered'] = 1
    fp.attr['brandnew'] = dict(values=set())
    fp.only['altered'] = ('x',)
    fp.priority['level'] = priorities.top.NONE


PROPS = ('optional', 'default', 'values', 'remap')
MORE = ('type', 'info', 'access', 'doc_zorder', 'alias', 'outcast', 'args', 'weird')


def typed(at):
    """Every attribute must be of type T0 somewhere so that values need no conversion."""
    return {n: dict(d, type=T0) for n, d in at.items()}


def family(ctx, props, names, nbases, shape, first_only=False):
    """bases A (and B), child with a local declaration."""
    bases, refs = [], []
    for t in 'ab'[:nbases]:
        raw = typed(decl(ctx, t, props, names))
        bases.append(mkclass('Base' + t.upper(), dict(attr={n: dict(d) for n, d in raw.items()}),
                             _abstract=ctx.flag('abstract') if t == 'a' else False))
        refs.append(ref_complete(raw))
    snaps = [snapshot(b) for b in bases]
    for b, r in zip(bases, refs):
        same_attr(ctx, b._footprint.attr, r, 'base')
    local = []
    for t in ('c', 'd')[:2 if shape.startswith('list') else 1]:
        at = decl(ctx, t, props, names)
        for n in at:
            if not any(n in r for r in refs):
                at[n]['type'] = T0
        local.append(at)
    if shape == 'dict':
        fp = dict(attr={n: dict(d) for n, d in local[0].items()})
    elif shape == 'attrlist':
        fp = dict(attr=[{n: dict(d)} for n, d in local[0].items()])
    elif shape == 'object':
        fp = Footprint(attr={n: dict(d) for n, d in typed(local[0]).items()})
        local[0] = ref_complete(typed(local[0]))
    elif shape == 'list':
        fp = [dict(attr={n: dict(d) for n, d in x.items()}) for x in local]
    elif shape == 'listobj':
        fp = [Footprint(attr={n: dict(d) for n, d in typed(local[0]).items()}),
              dict(attr={n: dict(d) for n, d in local[1].items()})]
        local[0] = ref_complete(typed(local[0]))
    elif shape == 'listdeco':
        fp = [dict(attr={n: dict(d) for n, d in local[0].items()}),
              DecorativeFootprint(attr={n: dict(d) for n, d in typed(local[1]).items()}, decorator=lambda c: c)]
        local[1] = ref_complete(typed(local[1]))
    child = mkclass('Child', fp, base=tuple(bases))
    want = ref_complete(ref_merge(*(list(reversed(refs)) + local)))
    same_attr(ctx, child._footprint.attr, want, 'merged')
    if shape == 'object':
        same_attr(ctx, fp.attr, local[0], 'local-object')
    for b, s in zip(bases, snaps):
        same_snapshot(ctx, b, s, 'parent-changed')
    old = snapshot(child)
    alter(child)
    for b, s in zip(bases, snaps):
        same_snapshot(ctx, b, s, 'parent-altered')
    ctx.cover('merged')


@harness('C11', bounds='1 base and a local dict, list of attributes, Footprint object; 1 attribute, any subset of 4 properties on each side',
         covers=('merged',))
def one_base(ctx):
    family(ctx, PROPS, ('k',), 1, ctx.pick('shape', ('dict', 'attrlist', 'object')))


@harness('C11', bounds='1 base and a local declaration; 1 attribute, any subset of 8 other properties on the base, of the same on the child',
         covers=('merged',))
def other_props(ctx):
    props = ctx.pick('props', (MORE[:4], MORE[4:]))
    family(ctx, props, ('k',), 1, ctx.pick('shape', ('dict', 'object')))


@harness('C11', bounds='2 bases and a local dict; 1 attribute, any subset of 3 properties on each', covers=('merged',))
def two_bases(ctx):
    family(ctx, ctx.pick('props', (('default', 'values', 'remap'), ('optional', 'alias', 'info'))), ('k',), 2, 'dict')


class Plain:
    """A mixin without any declaration."""


@harness('C11', bounds='3 bases (or 2 around a mixin without declaration, or a chain of 3 generations, or a base which inherits from another base), '
         'each declaring the attribute or not, with any subset of 2 properties', covers=('merged',))
def many_bases(ctx):
    shape = ctx.pick('shape', ('three', 'mixin', 'mixinfirst', 'chain', 'diamond'))
    props = ctx.pick('props', (('default', 'remap'), ('values', 'info')))
    own = []
    for t in 'abc':
        at = decl(ctx, t, props) if ctx.flag(t + 'has') else {}
        own.append({n: dict(d, type=T0) for n, d in at.items()})
    def mk(name, t, base=FootprintBase):
        at = dict({n: dict(d) for n, d in own['abc'.index(t)].items()})
        at['z' + t] = dict(type=T0, optional=True)
        return mkclass(name, dict(attr=at), base=base)

    def full(*decls):
        return ref_complete(ref_merge(*decls))
    zs = [{'z' + t: dict(type=T0, optional=True)} for t in 'abc']
    raws = [dict(o, **z) for o, z in zip(own, zs)]
    local = dict(attr={})
    if shape == 'chain':
        A = mk('A', 'a')
        B = mk('B', 'b', A)
        C = mk('C', 'c', B)
        ra = full(raws[0])
        rb = full(ra, raws[1])
        want = full(rb, raws[2])
        parents = [(A, ra), (B, rb)]
        child = C
    else:
        A, C = mk('A', 'a'), mk('C', 'c')
        ra, rc = full(raws[0]), full(raws[2])
        if shape == 'diamond':
            B = mk('B', 'b', A)
            rb = full(ra, raws[1])
            bases, order = (B, A), (rb, ra)
        elif shape == 'three':
            B = mk('B', 'b')
            rb = full(raws[1])
            bases, order = (A, B, C), (ra, rb, rc)
        else:
            B, rb = None, None
            bases, order = ((A, Plain, C) if shape == 'mixin' else (Plain, A, C)), (ra, rc)
        child = mkclass('Child', local, base=bases)
        want = full(*reversed(order))
        parents = [(b, r) for b, r in ((A, ra), (B, rb), (C, rc)) if b is not None]
    for b, r in parents:
        same_attr(ctx, b._footprint.attr, r, 'parent')
    same_attr(ctx, child._footprint.attr, want, 'merged')
    alter(child)
    for b, r in parents:
        same_attr(ctx, b._footprint.attr, r, 'parent-altered')
    ctx.cover('merged')


@harness('C11', bounds='1 base and a local list of 2 declarations (dicts, Footprint or decorative objects); any subset of 3 properties on each',
         covers=('merged',))
def local_list(ctx):
    family(ctx, ctx.pick('props', (('default', 'values', 'remap'), ('optional', 'outcast', 'info'))), ('k',), 1,
           ctx.pick('shape', ('list', 'listobj', 'listdeco')))


@harness('C11', bounds='2 bases and a local dict; 2 attributes declared or not in each, with any subset of 2 properties', covers=('merged',))
def two_attributes(ctx):
    family(ctx, ('default', 'values'), ('k', 'x'), 2, 'dict')


@harness('C11', bounds='priority level, only entries, info over 2 bases (with attributes or only an only-clause) and a local declaration', covers=('merged', 'inherited'))
def others(ctx):
    top = priorities.top
    lv = (None, 'toolbox', 'debug')

    def mk(t):
        d = dict(attr={'k' + t: dict(type=T0, optional=True)}) if t == 'c' or ctx.flag('attr' + t) else {}
        l = ctx.pick('lv' + t, lv)
        if l:
            d['priority'] = dict(level=top.level(l))
        o = {}
        if ctx.flag('only' + t):
            o['k' + t] = (ctx.val('o' + t, T0),)
            o['common'] = (ctx.val('oc' + t, T0),)
            d['only'] = dict(o)
        if ctx.flag('info' + t):
            d['info'] = 'info ' + t
        if 'attr' not in d and not o:
            # (a base without attribute nor only entry contributes nothing)
            raise Infeasible()
        return d, top.level(l) if l else None, o, d.get('info')
    da, la, oa, ia = mk('a')
    db, lb, ob, ib = mk('b')
    dc, lc, oc, ic = mk('c')
    A = mkclass('A', da)
    B = mkclass('B', db)
    sa, sb = snapshot(A), snapshot(B)
    C = mkclass('C', dc, base=(A, B))
    fp = C._footprint
    # the declarations of the bases are complete: the first base always prevails on the second one
    ctx.check(fp.level is (lc or la or top.DEFAULT), 'level')
    ctx.check(fp.info == (ic or ia or 'Not documented'), 'info')
    ctx.check(same(dict(fp.only), dict(ob, **dict(oa, **oc))), 'only')
    ctx.check(sorted(fp.attr) == sorted(list(da.get('attr', ())) + list(db.get('attr', ())) + ['kc']), 'attributes')
    same_snapshot(ctx, A, sa, 'parent-changed')
    same_snapshot(ctx, B, sb, 'parent-changed')
    alter(C)
    same_snapshot(ctx, A, sa, 'parent-altered')
    same_snapshot(ctx, B, sb, 'parent-altered')
    ctx.cover('inherited' if lc is None else 'merged')


@harness('C11', bounds='the same declaration (dict or Footprint object) given to two classes, one being altered afterwards', covers=('merged',))
def shared(ctx):
    at = dict(k=dict(type=T0, values=[ctx.val('v', T0)], remap={'a': ctx.val('r', T0)}, args=dict(p=1)))
    fp = ctx.pick('kind', (lambda: dict(attr=at, only=dict(z=(1,))), lambda: Footprint(attr=at, only=dict(z=(1,))),
                           lambda: [Footprint(attr=at, only=dict(z=(1,)))]))()
    A = mkclass('A', fp)
    B = mkclass('B', fp)
    sa = snapshot(A)
    alter(B)
    same_snapshot(ctx, A, sa, 'sibling-altered')
    ctx.cover('merged')


@harness('C11', bounds='a footprint of up to 2 attributes (mandatory, optional, with up to 2 aliases, opaque values); its lists of names and copies, which are '
         'then altered', covers=('mandatory', 'optional', 'empty'))
def structure(ctx):
    at, al = {}, {}
    for n in ('k', 'x'):
        how = ctx.pick(n, ('no', 'mandatory', 'optional'))
        if how == 'no':
            continue
        ctx.cover(how)
        al[n] = ctx.pick('al' + n, ((), ('a' + n,), ('a' + n, 'b' + n)))
        at[n] = dict(type=T0, optional=how == 'optional', alias=al[n], values=[ctx.val('v' + n, T0)], remap={'r': ctx.val('r' + n, T0)},
                     args=dict(p=[1]))
    if not at:
        ctx.cover('empty')
    kw = dict(info='the info', only=dict(z=(1,)), attr=at)
    fp = Footprint(nodefault=True, **kw) if ctx.flag('nodefault') else Footprint(**kw)
    every = set(at) | {x for n in at for x in al[n]}
    ctx.check(fp.allkeys() == every == fp.as_opts(), 'keys', (fp.allkeys(), fp.as_opts()))
    ctx.check(sorted(fp.mandatory()) == sorted(n for n in at if not at[n]['optional']), 'mandatory')
    for n in at:
        ctx.check(fp.optional(n) == at[n]['optional'], 'optional')
    desc = {k: 1 for k in ('k', 'ak', 'bk', 'x', 'ax', 'bx', 'zz', 'K', 'a')}
    ctx.check(sorted(fp.track(desc)) == sorted(every), 'track', fp.track(desc))
    ctx.check(fp.info == 'the info' and list(fp.only) == ['z'], 'others')

    def intact(label):
        ctx.check(sorted(fp.attr) == sorted(at) and fp.info == 'the info', label)
        for n, d in at.items():
            g = fp.attr[n]
            ctx.check(g['optional'] == d['optional'] and sorted(g['alias']) == sorted(al[n]) and g['args'] == dict(p=[1]), label, g)
            ctx.check(same_set(ctx, g['values'], d['values']), label + '-values', g)
            ctx.check(list(g['remap']) == ['r'] and same(g['remap']['r'], d['remap']['r']), label + '-remap', g)
    intact('definition')
    cp = fp.as_copy()
    ctx.check(set(cp) == set(fp.as_dict()) and sorted(cp['attr']) == sorted(at), 'copy')
    for n in cp['attr']:
        ctx.check(same_set(ctx, cp['attr'][n]['values'], at[n]['values']), 'copy-values')
        cp['attr'][n]['values'].clear()
        cp['attr'][n]['alias'].add('new')
        cp['attr'][n]['remap']['new'] = 1
        cp['attr'][n]['optional'] = 'changed'
        cp['attr'][n]['args']['p'].append(2)
    cp['attr']['new'] = {}
    cp['info'] = 'changed'
    intact('copy-changes-definition')
    sh = fp.as_dict()
    ctx.check(sorted(sh['attr']) == sorted(at) and sh['info'] == 'the info', 'as-dict')
    sh['info'] = 'changed'
    sh['new'] = 1
    intact('dictionary-changes-definition')
    fp.allkeys().add('other')
    fp.as_opts().add('other')
    fp.mandatory().append('other')
    ctx.check(fp.allkeys() == every == fp.as_opts() and 'other' not in fp.mandatory(), 'lists-are-shared')


@harness('C11', bounds='footprints with or without the default entries, empty, with attributes or only-clauses, merged after a declaration that has an '
         'information text and a priority level, in a class or in another footprint', covers=('kept', 'empty'))
def without_defaults(ctx):
    top = priorities.top
    v = ctx.val('v', T0)
    base = dict(info='the info', priority=dict(level=top.TOOLBOX), attr=dict(k=dict(type=T0, optional=True, default=v)), only=dict(z=(1,)))
    content = ctx.pick('content', ('nothing', 'attribute', 'only'))
    own = dict(attr=dict(x=dict(type=T0, optional=True))) if content == 'attribute' else dict(only=dict(y=(2,))) if content == 'only' else {}
    fp = Footprint(nodefault=True, **own)
    ctx.cover('empty' if not own else 'kept')
    if ctx.flag('object'):
        base = Footprint(**base)
    if ctx.flag('class'):
        parent = mkclass('P', base, order=1)
        got = mkclass('C', fp, base=parent, order=2)._footprint
    else:
        got = Footprint(base, fp)
    ctx.check(got.info == 'the info' and got.level.tag == 'TOOLBOX', 'entries-lost', (got.info, got.level.tag))
    ctx.check(sorted(got.attr) == (['k', 'x'] if content == 'attribute' else ['k']), 'attributes', sorted(got.attr))
    ctx.check(sorted(got.only) == (['y', 'z'] if content == 'only' else ['z']), 'only', got.only)
    ctx.check(same(got.attr['k']['default'], v), 'default')
    ctx.check(sorted(fp.attr) == (['x'] if content == 'attribute' else []), 'merged-footprint-modified')
