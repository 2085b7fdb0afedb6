"""C04, C05, C06: which class is selected, whatever the index, the reports and the modes."""
from footprints import config, priorities

from ._common import *  # noqa: F401,F403
from ._common import (ABSENT, any_ranks, T0, T1, W0, Raw, RawU, coll, footprints, harness, inputs_for, isin, mkclass, same)

ASSUMPTIONS = {}


# -- C04 -------------------------------------------------------------------------

def sym_levels(ctx, n):
    """n levels with arbitrary distinct ranks."""
    names = ['LV{}'.format(i) for i in range(n)]
    ps = priorities.PrioritySet(levels=names)
    return ps, names, any_ranks(ctx, ps, names)


EXTRA = ('x', 'y')
DECL = ((), ('x',), ('x', 'y'))


def candidates(ctx, n, decl=DECL):
    """n classes: compatible or not with the value of k, declaring some optional attributes."""
    out = []
    for i in range(n):
        decls = ctx.pick('decl{}'.format(i), decl)
        attr = dict(k=dict(type=T0, values=[ctx.val('v{}'.format(i), T0)]))
        for a in decls:
            attr[a] = dict(type=T0, optional=True, alias=['al_' + a])
        out.append((attr, decls))
    return out


def fed(ctx, names=EXTRA):
    """How each extra attribute is given: description, alias, global default, None or not at all."""
    desc, sd, given = {}, {}, set()
    for a in names:
        how = ctx.pick('fed.' + a, ('no', 'desc', 'alias', 'setup', 'none'))
        if how == 'desc':
            desc[a] = ctx.val('in.' + a, T0)
        elif how == 'alias':
            desc['al_' + a] = ctx.val('in.' + a, T0)
        elif how == 'setup':
            sd[a] = ctx.val('in.' + a, T0)
        elif how == 'none':
            desc[a] = None
        if how in ('desc', 'alias', 'setup'):
            given.add(a)
    return desc, sd, given


def run_choice(desc, how):
    if how == 'load':
        return coll().load(_emptywarning=False, **desc)
    if how == 'modload':
        return footprints.load(tag='zoo', _emptywarning=False, **desc)
    if how == 'pickup':
        return coll().pickup(dict(desc, _emptywarning=False))['zoo']
    if how == 'default':
        return coll().default(_emptywarning=False, **desc)
    return getattr(coll(), how)(dict(desc))


def judge_choice(ctx, obj, table, rank, how='load'):
    """table: list of (class, compatible, number of inputs)."""
    ok = [t for t in table if t[1]]
    if not ok:
        ctx.cover('none')
        ctx.check(obj is None, 'result-out-of-nothing')
        return
    ctx.cover('some')
    ctx.check(obj is not None, 'no-result-although-compatible')
    mine = [t for t in ok if t[0] is obj.__class__]
    ctx.check(len(mine) == 1, 'incompatible-class-selected', obj.__class__.__name__)
    if how == 'find_any':
        return
    me = mine[0]
    for t in ok:
        if t is me:
            continue
        a, b = rank(t[0]), rank(me[0])
        better = ctx.or_(a > b, ctx.and_(a == b, t[2] > me[2]))
        ctx.check(ctx.not_(better), 'not-the-best', '{} {} instead of {} {}'.format(
            me[0].__name__, me[2], t[0].__name__, t[2]))
    if len(ok) > 1:
        ctx.cover('several')


@harness('C04', bounds='3 candidate classes sharing up to 2 levels of any distinct ranks (symbolic integers); 0-2 declared optional '
         'attributes each; each attribute not given/given/None/by alias/by global default', covers=('none', 'some', 'several'))
def symbolic_ranks(ctx):
    ps, names, ranks = sym_levels(ctx, 2)
    cands = candidates(ctx, 3, decl=DECL)
    desc, sd, given = fed(ctx)
    footprints.setup.defaults = sd
    desc['k'] = kv = ctx.val('in.k', T0)
    table = []
    for i, (attr, decls) in enumerate(cands):
        lev = 0 if i == 0 else ctx.choose('level{}'.format(i), 2)
        cls = mkclass('C{}'.format(i), dict(attr=attr, priority=dict(level=ps.level(names[lev]))), order=i + 1)
        cls.lev = names[lev]
        table.append((cls, list(attr['k']['values'])[0], len([d for d in decls if d in given])))
    obj = run_choice(desc, 'load')
    table = [(c, bool(v == kv), n) for c, v, n in table]
    judge_choice(ctx, obj, table, lambda c: ranks[c.lev])


@harness('C04', bounds='3 candidate classes of 3 levels of any distinct ranks; 0-1 given attribute; every entry point (load, module load, '
         'pickup, default, find_best, find_any); 2 class orders', covers=('none', 'some', 'several'))
def entry_points(ctx):
    ps, names, ranks = sym_levels(ctx, 3)
    cands = candidates(ctx, 3, decl=DECL[:2])
    desc = dict(x=ctx.val('in.x', T0)) if ctx.flag('x') else {}
    desc['k'] = kv = ctx.val('in.k', T0)
    rev = ctx.flag('reverse')
    table = []
    for i, (attr, decls) in enumerate(cands):
        cls = mkclass('C{}'.format(i), dict(attr=attr, priority=dict(level=ps.level(names[i]))),
                      order=(3 - i if rev else i + 1))
        cls.lev = names[i]
        table.append((cls, list(attr['k']['values'])[0], len([d for d in decls if d in desc])))
    how = ctx.pick('how', ('load', 'modload', 'pickup', 'default', 'find_best', 'find_any'))
    if rev and how == 'pickup':
        # while replacing at the same time a previous, abandoned result
        desc['zoo'] = None
    obj = run_choice(desc, how)
    table = [(c, bool(v == kv), n) for c, v, n in table]
    judge_choice(ctx, obj, table, lambda c: ranks[c.lev], how)


@harness('C04', bounds='2 candidate classes of the predefined levels, chosen before and after one change of the levels: rerank by any '
         'shift, top, bottom, up, down, freeze/restore, insertion, removal then re-creation of a level, level of a package reset, '
         'level of the declaration replaced',
         covers=('none', 'some', 'several', 'changed'))
def reranked(ctx):
    top = priorities.top
    table = []
    desc = dict(k=ctx.val('in.k', T0), x=ctx.val('in.x', T0))
    for i in range(2):
        decls = ctx.pick('decl{}'.format(i), ((), ('x',)))
        attr = dict(k=dict(type=T0, values=[ctx.val('v{}'.format(i), T0)]))
        for a in decls:
            attr[a] = dict(type=T0, optional=True)
        lv = ctx.pick('lv{}'.format(i), ('NONE', 'DEFAULT', 'TOOLBOX', 'DEBUG'))
        cls = mkclass('C{}'.format(i), dict(attr=attr, priority=dict(level=top.level(lv))), order=i + 1,
                      module='pk{}.mod'.format(i))
        table.append([cls, list(attr['k']['values'])[0], len(decls)])

    def rank(c):
        return list(top()).index(c.footprint_pl().tag)

    first = run_choice(desc, 'load')
    t1 = [(c, bool(v == desc['k']), n) for c, v, n in table]
    judge_choice(ctx, first, t1, rank)
    op = ctx.pick('op', ('rerank', 'top', 'bottom', 'up', 'down', 'restore', 'insert', 'recreate', 'package', 'replace'))
    who = table[ctx.choose('who', 2)][0]
    lev = who.footprint_pl()
    if op == 'rerank':
        top.rerank(lev.tag, ctx.sym_int('shift', -6, 6))
    elif op in ('top', 'bottom', 'up', 'down'):
        getattr(lev, op)()
    elif op == 'restore':
        top.freeze('keep')
        lev.top()
        top.restore(ctx.pick('frozen', ('keep', 'default')))
    elif op == 'insert':
        who._footprint.priority['level'] = top.insert('fresh', **{ctx.pick('side', ('after', 'before')): 'toolbox'})
    elif op == 'recreate':
        top.remove(lev.tag)
        top.insert(lev.tag, **{ctx.pick('side', ('after', 'before')): 'none' if lev.tag != 'NONE' else 'debug'})
    elif op == 'package':
        ctx.pick('reset', (lambda: coll().reset_package_level(who.__module__, 'debug'),
                           lambda: footprints.reset_package_priority(who.__module__, 'none')))()
    else:
        who._footprint.priority['level'] = top.level(ctx.pick('new', ('none', 'debug')))
    second = run_choice(desc, 'load')
    judge_choice(ctx, second, t1, rank)
    if first is not None and second.__class__ is not first.__class__:
        ctx.cover('changed')


# -- C05 -------------------------------------------------------------------------

def found_set(c, desc):
    return [(cl, res, sorted(inp)) for cl, res, inp in c.find_all(dict(desc))]


def same_found(ctx, a, b, label):
    ctx.check({x[0] for x in a} == {x[0] for x in b} and len(a) == len(b), label,
              '{} / {}'.format([x[0].__name__ for x in a], [x[0].__name__ for x in b]))
    bd = {x[0]: x for x in b}
    for cl, res, inp in a:
        ctx.check(same(res, bd[cl][1]), label + '-values')
        ctx.check(inp == bd[cl][2], label + '-inputs')


KINDS = ('mandval', 'mandvals', 'mandfree', 'optval', 'absent', 'remap', 'other', 'alias', 'args', 'outcast')


def keyed(ctx, i, kinds, name='k'):
    """Declaration of attribute ``name`` in class number i."""
    kind = ctx.pick('kind{}'.format(i), kinds)
    v = 'v{}'.format(i)
    if kind == 'absent':
        return dict(z=dict(type=T0, optional=True))
    if kind == 'mandfree':
        return {name: dict(type=T0)}
    fp = dict(type=T0, values=[ctx.val(v, T0)])
    if kind == 'mandvals':
        fp['values'].append(ctx.val(v, T0))
    elif kind == 'optval':
        fp['optional'] = True
    elif kind == 'remap':
        fp['remap'] = {ctx.val(v + 'rk', Raw): ctx.val(v + 'rv', T0)}
    elif kind == 'other':
        fp['type'] = W0
        fp['values'] = [ctx.val(v, W0)]
    elif kind == 'alias':
        fp['alias'] = ['al_' + name]
    elif kind == 'args':
        fp['args'] = dict(p=1)
    elif kind == 'outcast':
        fp['outcast'] = [ctx.val(v + 'o', T0)]
    return {name: fp}


def indexed_search(ctx, n, kinds, vkinds, early):
    c = coll()
    if early:
        c.fasttrack = ('k',)
    for i in range(n):
        mkclass('C{}'.format(i), dict(attr=keyed(ctx, i, kinds)), order=i + 1)
    desc = {}
    v = inputs_for(ctx, 'in.k', vkinds)
    if v is not ABSENT:
        desc['k'] = v
    if any(hasattr(x, '_footprint') and 'al_k' in x._footprint.allkeys() for x in c) and ctx.flag('alias'):
        desc['al_k'] = ctx.val('in.al_k', T0)
    if not early:
        c.fasttrack = ('k',)
    a = found_set(c, desc)
    c.fasttrack = ()
    b = found_set(c, desc)
    if b:
        ctx.cover('found')
    else:
        ctx.cover('notfound')
    same_found(ctx, a, b, 'fasttrack')


@harness('C05', bounds='1 class, key declared in any of 10 ways; value absent/None/raw/typed/subtyped/other type/unhashable; index created before '
         'or after the class', covers=('found', 'notfound'))
def one_class(ctx):
    indexed_search(ctx, 1, KINDS, (Raw, T0, T1, W0, RawU), ctx.flag('early'))


@harness('C05', bounds='2 classes, key declared in any of 10 ways each; value absent/None/raw/typed/other type; index created before or after '
         'the classes', covers=('found', 'notfound'))
def two_classes(ctx):
    indexed_search(ctx, 2, KINDS, (Raw, T0, W0), ctx.flag('early'))


@harness('C05', bounds='3 classes, key declared in any of 5 ways each; value raw/typed', covers=('found', 'notfound'))
def three_classes(ctx):
    indexed_search(ctx, 3, ('mandval', 'mandfree', 'optval', 'other', 'absent'), (Raw, T0), False)


@harness('C05', bounds='2 classes with 2 attributes, both being fast-track keys, declared in any of 3 ways each; values absent/raw/typed',
         covers=('found', 'notfound'))
def two_keys(ctx):
    c = coll()
    kinds = ('mandval', 'mandfree', 'optval')
    for i in range(2):
        attr = {}
        for a in 'kx':
            attr.update({a: list(keyed(ctx, '{}{}'.format(a, i), kinds, a).values())[0]})
        mkclass('C{}'.format(i), dict(attr=attr), order=i + 1)
    desc = {}
    for a in 'kx':
        v = inputs_for(ctx, 'in.' + a, (Raw, T0), none=False)
        if v is not ABSENT:
            desc[a] = v
    c.fasttrack = ctx.pick('keys', (('k', 'x'), ('x', 'nothing')))
    a = found_set(c, desc)
    c.fasttrack = ()
    b = found_set(c, desc)
    ctx.cover('found' if b else 'notfound')
    same_found(ctx, a, b, 'fasttrack')


@harness('C05', bounds='2 classes and an index, then up to 2 operations among: definition of a new class, discard, re-addition, pop, clear, '
         'package discard, index redefined; then a search', covers=('found', 'notfound', 'removed'))
def histories(ctx):
    changes(ctx, 2, ('nop', 'new', 'discard', 'readd', 'pop', 'clear', 'pack', 'reindex'), ('mandval', 'mandfree'))


@harness('C05', bounds='2 classes and an index, then up to 3 operations among: definition of a new class, discard, re-addition, index removed, '
         'index redefined; then a search', covers=('found', 'notfound', 'removed'))
def index_histories(ctx):
    changes(ctx, 3, ('nop', 'new', 'discard', 'readd', 'off', 'on'), ('mandval',), (Raw, T0))


def changes(ctx, nsteps, ops, kinds, classes=(Raw, T0)):
    c = coll()
    alive = []
    removed = []

    def new(i):
        alive.append(mkclass('C{}'.format(i), dict(attr=keyed(ctx, i, kinds)), order=i + 1,
                             module='pk{}.mod'.format(i)))

    new(0)
    new(1)
    c.fasttrack = ('k',)
    k = 2
    for step in range(nsteps):
        op = ctx.pick('op', ops)
        if op == 'new':
            new(k)
            k += 1
        elif op == 'discard' and alive:
            x = alive.pop(ctx.choose('w', len(alive)))
            c.discard(x)
            removed.append(x)
        elif op == 'readd' and removed:
            x = removed.pop()
            c.add(x)
            alive.append(x)
        elif op == 'pop' and alive:
            x = c.pop()
            alive.remove(x)
            removed.append(x)
        elif op == 'clear':
            c.clear()
            removed.extend(alive)
            alive[:] = []
        elif op == 'pack' and alive:
            x = alive.pop(0)
            c.discard_package(x.__module__, verbose=False)
            removed.append(x)
        elif op == 'reindex':
            c.fasttrack = ('k', 'x')
        elif op in ('off', 'on'):
            c.fasttrack = ('k',) if op == 'on' else ()
    desc = dict(k=ctx.val('in.k', ctx.pick('in.k.cls', classes)))
    a = found_set(c, desc)
    b = []
    for cl in alive:
        r, inp = cl.footprint_couldbe(dict(desc))
        if r:
            b.append((cl, r, sorted(inp)))
    if removed:
        ctx.cover('removed')
    ctx.cover('found' if b else 'notfound')
    same_found(ctx, a, b, 'fasttrack-history')


@harness('C05', bounds='2 classes; the value refers to the key in the index through text: plain words, templates and the special text None',
         covers=('found', 'notfound'))
def texts(ctx):
    c = coll()
    c.fasttrack = ('k',)
    for i in range(2):
        vals = ctx.pick('values{}'.format(i), (('a',), ('ab', 'b'), ('None',), ()))
        at = dict(k=dict(values=vals), x=dict(optional=True, default='b'))
        if not vals:
            del at['k']['values']
        if ctx.flag('opt{}'.format(i)):
            at['k'].update(optional=True, default='a')
        mkclass('C{}'.format(i), dict(attr=at), order=i + 1)
    desc = dict(k=ctx.pick('k', ('a', 'b', '[x]', 'a[x]', 'None', '[x', '[y#a]', None, 5, '')))
    if ctx.flag('x'):
        desc['x'] = ctx.pick('xv', ('a', 'b'))

    def search():
        try:
            return found_set(c, desc)
        except footprints.FootprintException as ex:
            return ex.__class__
    a = search()
    c.fasttrack = ()
    b = search()
    if isinstance(b, list):
        ctx.cover('found' if b else 'notfound')
    if isinstance(a, list) and isinstance(b, list):
        same_found(ctx, a, b, 'fasttrack-text')


# -- C06 -------------------------------------------------------------------------

REPORTS = (config.NO_REPORTING, config.ONERROR_REPORTING, config.LIGHT_REPORTING, config.FULL_REPORTING)


def configured(ctx, tag, cfg, make, desc):
    """Define the classes under a configuration and search."""
    s = footprints.setup
    s.fastmode = cfg['fastmode']
    s.fastkeys = cfg['fastkeys']
    s.report = cfg['report']
    s.lreport_len = cfg['rlen']
    classes = make(tag)
    c = footprints.collectors.get(tag=tag, report=s.report, lreport_len=s.lreport_len)
    try:
        allc = [(classes.index(cl), res, sorted(inp)) for cl, res, inp in c.find_all(dict(desc))]
        best = c.find_best(dict(desc))
        best = None if best is None else (classes.index(best.__class__), best.footprint_as_shallow_dict())
        anyc = c.find_any(dict(desc)) is not None
        return allc, best, anyc
    except footprints.FootprintException as ex:
        return ex.__class__.__name__


BASE = dict(fastmode=False, fastkeys=('nothing',), report=config.NO_REPORTING, rlen=100)


def compare_cfg(ctx, make, desc, variants):
    footprints.setup.nullreport = footprints.reporting.NullReport()
    ref = configured(ctx, 'zoo', BASE, make, desc)
    cfg = dict(BASE, **ctx.pick('cfg', variants))
    got = configured(ctx, 'zub', cfg, make, desc)
    if isinstance(ref, str) or isinstance(got, str):
        ctx.cover('error')
        # which error ends a hopeless search may depend on the mode (see C21), not its being hopeless
        if isinstance(ref, str) and not isinstance(got, str):
            ctx.check(got[1] is None, 'error-or-result', (ref, cfg))
        if isinstance(got, str) and not isinstance(ref, str):
            ctx.check(ref[1] is None, 'error-or-result', (got, cfg))
        return
    ctx.cover('found' if ref[1] else 'notfound')
    ctx.check(sorted(x[0] for x in ref[0]) == sorted(x[0] for x in got[0]), 'accepted-classes', cfg)
    gd = {x[0]: x for x in got[0]}
    for i, res, inp in ref[0]:
        ctx.check(same(res, gd[i][1]), 'resolved-values', cfg)
        ctx.check(inp == gd[i][2], 'inputs', cfg)
    ctx.check((ref[1] is None) == (got[1] is None) and ref[2] == got[2], 'found-or-not', cfg)
    if ref[1] is not None:
        ctx.check(ref[1][0] == got[1][0], 'selected-class', cfg)
        ctx.check(same(ref[1][1], got[1][1]), 'selected-values', cfg)


def allcfg():
    out = []
    for r in REPORTS:
        for fm in (False, True):
            for fk in ((), ('kind',), ('k2',), ('kind', 'k2')):
                out.append(dict(report=r, fastmode=fm, fastkeys=fk, rlen=1 if fk == ('k2',) else 100))
    return out


SOMECFG = (dict(report=config.ONERROR_REPORTING, fastkeys=('kind',)), dict(report=config.LIGHT_REPORTING, rlen=1, fastkeys=('k2',)),
           dict(report=config.FULL_REPORTING, fastkeys=('kind', 'k2')), dict(report=config.FULL_REPORTING, fastmode=True),
           dict(fastmode=True, fastkeys=('k2',)), dict(fastkeys=('kind',)),
           dict(report=config.ONERROR_REPORTING, fastmode=True))


def attr_of(ctx, n):
    fp = dict(type=T0)
    if ctx.flag(n + '.optional'):
        fp['optional'] = True
        if ctx.flag(n + '.default'):
            fp['default'] = ctx.val(n + '.d', T0)
    if ctx.flag(n + '.values'):
        fp['values'] = [ctx.val(n + '.v', T0)]
    con = ctx.pick(n + '.more', ('no', 'outcast', 'remap'))
    if con == 'outcast':
        fp['outcast'] = [ctx.val(n + '.o', T0)]
    elif con == 'remap':
        a, b = ctx.val(n + '.rk', T0), ctx.val(n + '.rv', T0)
        ctx.assume(a != b)
        fp['remap'] = {a: b}
    return fp


def clone_attr(fp):
    return {k: dict(v) for k, v in fp.items()}


@harness('C06', bounds='1 class of 2 attributes with up to a default, a value, an outcast or a remap entry each; values absent/raw/typed; 7 '
         'representative configurations', covers=('found', 'notfound'))
def attributes(ctx):
    at = {n: attr_of(ctx, n) for n in ('kind', 'k2')}
    desc = {}
    for n in at:
        v = inputs_for(ctx, 'in.' + n, (Raw, ) if n == 'k2' else (Raw, T0), none=(n == 'kind'))
        if v is not ABSENT:
            desc[n] = v

    def make(tag):
        return [mkclass('One', dict(attr=clone_attr(at)), tag=tag)]
    compare_cfg(ctx, make, desc, SOMECFG)


@harness('C06', bounds='1 class, 2 attributes, an only clause (value, after, before, pattern; on an attribute or on a global default); all the 64 '
         'configurations', covers=('found', 'notfound'))
def clauses(ctx):
    at = dict(kind=dict(type=T0, values=[ctx.val('kv', T0)]), k2=dict(type=T0, optional=True))
    form = ctx.pick('form', ('k2', 'after_k2', 'before_k2', 'zz', 'match'))
    only = {'k2' if form == 'match' else form: core_pred() if form == 'match' else ctx.val('only', T0)}
    desc = dict(kind=ctx.val('in.kind', T0))
    if ctx.flag('k2'):
        desc['k2'] = ctx.val('in.k2', T0)
    if ctx.flag('zz'):
        footprints.setup.defaults = dict(zz=ctx.val('in.zz', T0))

    def make(tag):
        return [mkclass('One', dict(attr=clone_attr(at), only={k: (v if hasattr(v, 'match') else (v,)) for k, v in only.items()}),
                        tag=tag)]
    compare_cfg(ctx, make, desc, allcfg())


def core_pred():
    from symx.core import Pred
    return Pred('only')


@harness('C06', bounds='2 classes of 2 attributes with one value each, any class and level order; values raw/typed; 7 configurations',
         covers=('found', 'notfound'))
def classes(ctx):
    ats = []
    for i in range(2):
        at = dict(kind=dict(type=T0, values=[ctx.val('kv{}'.format(i), T0)]),
                  k2=dict(type=T0, optional=ctx.flag('opt{}'.format(i)), values=[ctx.val('v{}'.format(i), T0)]))
        ats.append((at, ctx.pick('lv{}'.format(i), ('NONE', 'DEBUG'))))
    desc = dict(kind=ctx.val('in.kind', ctx.pick('kc', (Raw, T0))))
    if ctx.flag('k2'):
        desc['k2'] = ctx.val('in.k2', T0)
    # ties between candidates are free: avoid them
    def make(tag):
        return [mkclass('C{}'.format(i), dict(attr=clone_attr(at), priority=dict(level=priorities.top.level(lv))),
                        tag=tag, order=i + 1) for i, (at, lv) in enumerate(ats)]
    compare_cfg(ctx, make, desc, SOMECFG)


@harness('C06', bounds='1 class of 3 text attributes referring to each other (concrete templates, every order); all the 64 configurations',
         covers=('found', 'notfound'))
def templates(ctx):
    pool = ('a', '[k2]', '[zz]', '[kind]x', None)
    at = dict(kind=dict(optional=True, default=ctx.pick('kd', pool)),
              k2=dict(optional=ctx.flag('opt'), values=ctx.pick('vals', (('a', 'b', 'ax'), ()))),
              zz=dict(optional=True, default=ctx.pick('zd', ('a', '[kind]', None))))
    desc = {}
    v = ctx.pick('k2', (ABSENT, 'a', 'c', '[kind]', '[zz]', 'None'))
    if v is not ABSENT:
        desc['k2'] = v

    def make(tag):
        return [mkclass('One', dict(attr={k: {a: b for a, b in x.items() if not (a == 'values' and not b)} for k, x in at.items()}), tag=tag)]
    compare_cfg(ctx, make, desc, allcfg())
