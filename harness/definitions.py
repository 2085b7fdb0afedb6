"""C23, C25: definitions of classes, content of the collectors."""
import contextlib
import io

from footprints import FootprintInvalidDefinition, collectors, config, priorities

from ._common import *  # noqa: F401,F403
from ._common import (ABSENT, any_ranks, CONVERR, RawU, T0, T1, W0, FootprintBase, Raw, coll, footprints, harness, internal, isin, mkclass, same,
                      sym_in)
from symx.core import Infeasible

ASSUMPTIONS = {
    'C23': ['opaque values (equality, conversion outcome unknown); listed values to be converted differ from the typed ones', 'names taken from a list of near collisions (case, plural)',
            'class-valued attributes have no listed values'],
    'C25': ['level ranks are any distinct integers', 'class and package names taken from a list with common prefixes'],
}


def everywhere(cls):
    """Is this class known by any collector?"""
    return [c.tag for c in collectors.values() if cls in list(c.items()) or cls in list(c.abstract_classes.items())]


def names_everywhere(name):
    return [c.tag for c in collectors.values()
            for x in list(c.items()) + list(c.abstract_classes.items()) if x.__name__ == name]


# -- C23 -------------------------------------------------------------------------

NAMES = ('k', 'zoo', 'zoos', 'Zoo', 'ZOOS', 'ark')
TAGS = (('zoo',), ('zoos',), ('Zoo',), ('ark', 'zoo'), ('ARKS', 'Zooss'), ('other', 'zoo'))


@harness('C23', bounds='attribute name and alias among 6 (with the tag of a collector in any case or number), 6 collector lists of 1-2 tags, '
         'class concrete or abstract, name declared by the class or inherited, mandatory or optional',
         covers=('refused', 'accepted'))
def colliding_names(ctx):
    tags = ctx.pick('tags', TAGS)
    name = ctx.pick('name', NAMES)
    alias = ctx.pick('alias', (None,) + NAMES)
    abstract = ctx.flag('abstract')
    where = ctx.pick('where', ('own', 'inherited', 'list'))
    a = dict(type=T0)
    if alias:
        a['alias'] = {alias}
        if ctx.flag('optional'):
            # (with a mandatory attribute besides)
            a['optional'] = True
    base = FootprintBase
    fp = dict(attr={name: a})
    if 'optional' in a:
        fp['attr']['m'] = dict(type=T0)
    if where == 'inherited':
        base = mkclass('Parent', fp, tag='elsewhere', order=5)
        fp = dict(attr=dict(q=dict(type=T0, optional=True)))
    elif where == 'list':
        fp = [footprints.Footprint(fp), dict(attr=dict(q=dict(type=T0, optional=True)))]
    known = {name, alias}
    clean = {t.lower().rstrip('s') for t in tags}
    bad = bool(known & (clean | set(tags)))
    try:
        cls = mkclass('Cand', fp, tag=tags, base=base, _abstract=abstract)
        done = True
    except FootprintInvalidDefinition:
        done = False
    ctx.check(done == (not bad), 'accepted' if bad else 'refused', (tags, known))
    if bad:
        ctx.cover('refused')
        ctx.check(not names_everywhere('Cand'), 'refused-class-in-collector', names_everywhere('Cand'))
        for t in clean:
            ctx.check(not coll(t).find_all({name: ctx.val('x', T0), 'm': ctx.val('m', T0)}), 'refused-class-found')
    else:
        ctx.cover('accepted')
        ctx.check(sorted(everywhere(cls)) == sorted(clean), 'collectors', everywhere(cls))
        for t in clean:
            ctx.check((cls in coll(t).items()) == (not abstract), 'concrete-member')
            ctx.check((cls in coll(t).abstract_classes.items()) == abstract, 'abstract-member')


@harness('C23', bounds='explicit or not, abstract or not, 0-2 attributes mandatory or optional, own or inherited; then load, direct '
         'instantiation and default', covers=('refused', 'abstract', 'concrete'))
def explicit_abstract(ctx):
    explicit, abstract = ctx.flag('explicit'), ctx.flag('abstract')
    fp = {}
    for n in 'ab':
        how = ctx.pick(n, ('no', 'mandatory', 'optional'))
        if how != 'no':
            fp[n] = dict(type=T0, optional=how == 'optional')
    base = FootprintBase
    inherited = {}
    if ctx.flag('inherited'):
        inherited = dict(p=dict(type=T0, optional=ctx.flag('popt')))
        base = mkclass('Parent', dict(attr=inherited), tag='elsewhere', order=5)
    both = dict(inherited, **fp)
    if not both:
        # (a class without any attribute can only be instantiated directly)
        raise Infeasible()
    if not ctx.flag('flags-given'):
        # those of the base: explicit, as no flag is given; never abstract
        bits = {}
        explicit = base is FootprintBase
        abstract = False
    else:
        bits = dict(_explicit=explicit, _abstract=abstract)
    bad = explicit and not abstract and all(d['optional'] for d in both.values())
    from ._common import DetMeta
    try:
        cls = DetMeta('Cand', (base,), dict(__module__='modgen.pkg', _collector=('zoo',), _footprint=dict(attr=fp), _h=1, **bits))
        done = True
    except FootprintInvalidDefinition:
        done = False
    ctx.check(done == (not bad), 'accepted' if bad else 'refused')
    desc = {n: ctx.val('x' + n, T0) for n in both}
    obj = coll().load(_emptywarning=False, **desc)
    if bad or abstract:
        ctx.check(obj is None, 'loaded')
        ctx.check(coll().default(_emptywarning=False, **desc) is None, 'loaded by default')
        ctx.check(not [x for x in coll().items() if x.__name__ == 'Cand'], 'refused-or-abstract-in-collector')
    if bad:
        ctx.cover('refused')
        ctx.check(not names_everywhere('Cand'), 'refused-class-in-collector')
    elif abstract:
        ctx.cover('abstract')
        ctx.check(cls in coll().abstract_classes.items() and cls.footprint_abstract(), 'abstract-not-listed')
        for way in (lambda: cls(**desc), lambda: cls(dict(desc)), lambda: cls(dict(desc), checked=True), lambda: cls(checked=False, **desc)):
            try:
                way()
                ctx.fail('abstract-instantiated')
            except FootprintInvalidDefinition:
                pass
        ctx.check(len(coll().instances()) == 0, 'abstract-instance-tracked')
    else:
        ctx.cover('concrete')
        ctx.check(obj is not None and obj.__class__ is cls, 'concrete-not-loaded')
        ctx.check(cls(**desc).__class__ is cls, 'concrete-not-instantiated')
        ctx.check(cls not in coll().abstract_classes.items() and not cls.footprint_abstract(), 'concrete-listed-abstract')


def distinct(ctx, lst, kargs={}):
    """A value to be converted is not equal to a listed value of the type, before or after its conversion (equal values would be
    converted to equal ones)."""
    for i, v in enumerate(lst):
        if isinstance(v, T0):
            continue
        for j, w in enumerate(lst):
            if i != j and isinstance(w, T0):
                ctx.assume(ctx.not_(v == w))
        try:
            c = T0(v, **kargs)
        except CONVERR:
            continue
        for j, w in enumerate(lst):
            if not isinstance(w, T0):
                ctx.assume(ctx.not_(c == w))


@harness('C23', bounds='up to 3 listed and 1 outcast values, each an instance of the type, of a subclass, or to be converted (conversion of '
         'unknown outcome), with or without conversion arguments', covers=('refused', 'accepted', 'converted'))
def listed_values(ctx):
    d = dict(type=T0)
    if ctx.flag('args'):
        d['args'] = dict(p='1')
    lists = {}
    for key, n in (('values', ctx.choose('nv', 4)), ('outcast', ctx.choose('no', 2))):
        if n:
            lists[key] = [ctx.val('{}{}'.format(key, i), ctx.pick('cls.{}{}'.format(key, i), (T0, T1, Raw, W0)[:(4 if n < 3 else 2 if i else 3)]))
                          for i in range(n)]
            d[key] = list(lists[key]) if ctx.flag('list') else tuple(lists[key])
    exp = {}
    bad = False
    for key, lst in lists.items():
        distinct(ctx, lst, d.get('args', {}))
    for key, lst in lists.items():
        exp[key] = []
        for v in lst:
            if isinstance(v, T0):
                exp[key].append(v)
            else:
                try:
                    exp[key].append(T0(v, **d.get('args', {})))
                    ctx.cover('converted')
                except CONVERR:
                    bad = True
    try:
        cls = mkclass('Cand', dict(attr=dict(k=d)))
        done = True
    except CONVERR:
        done = False
    ctx.check(done == (not bad), 'accepted' if bad else 'refused')
    if bad:
        ctx.cover('refused')
        ctx.check(not names_everywhere('Cand'), 'refused-class-in-collector')
        return
    ctx.cover('accepted')
    fp = cls.footprint_retrieve()
    for key, got in (('values', fp.get_values('k')), ('outcast', fp.get_outcast('k'))):
        ctx.check(all(isinstance(v, T0) for v in got), 'not-of-the-type', (key, got))
        for v in got:
            ctx.check(sym_in(ctx, v, exp.get(key, [])), 'value-invented', (key, v))
        for v in exp.get(key, []):
            ctx.check(sym_in(ctx, v, got), 'value-lost', (key, v))
    ctx.check(sorted(map(id, cls.footprint_values('k'))) == sorted(map(id, fp.get_values('k'))), 'footprint_values')


@harness('C23', bounds='automatic remap to the first of 1 to 3 opaque values, of the type or to be converted, with or without another remap '
         'entry; any input', covers=('listed', 'other'))
def autoremap(ctx):
    n = ctx.choose('n', 3) + 1
    kind = ctx.pick('kind', (T0, Raw))
    vals = [ctx.val('v{}'.format(i), kind) for i in range(n)]
    rm = dict(autoremap=ctx.pick('form', ('first', ('first',), ['first'])))
    extra = None
    if ctx.flag('extra'):
        extra = ctx.val('rk', T0)
        rm[extra] = vals[-1]
        # (an entry given by hand for a listed value is not the question here)
        ctx.assume(ctx.not_(sym_in(ctx, extra, vals)))
    distinct(ctx, vals)
    for i, v in enumerate(vals):
        ctx.assume(ctx.not_(sym_in(ctx, v, vals[:i])))
    try:
        cls = mkclass('Cand', dict(attr=dict(k=dict(type=T0, values=list(vals), remap=rm))))
    except CONVERR:
        return
    x = ctx.val('x', ctx.pick('xcls', (T0, Raw)))
    obj = coll().load(_emptywarning=False, k=x)
    conv = [v if isinstance(v, T0) else T0(v) for v in vals]
    if isin(x, vals[1:]) or (extra is not None and x == extra):
        ctx.cover('listed')
        ctx.check(obj is not None, 'listed-value-rejected')
        ctx.check(isinstance(obj.k, T0), 'not-of-the-type')
        ctx.check(obj.k == conv[0], 'not-the-first', (obj.k, conv[0]))
    else:
        ctx.cover('other')
        try:
            exp = x if isinstance(x, T0) else T0(x)
        except CONVERR:
            exp = None
        if exp is not None and isin(exp, conv):
            ctx.check(obj is not None and isinstance(obj.k, T0), 'rejected-although-listed')
            ctx.check(obj.k == exp, 'remapped-although-not-listed')
        else:
            ctx.check(obj is None, 'value-out-of-list')


# -- C25 -------------------------------------------------------------------------

def sym_top(ctx, n):
    """Replace the ranks of the predefined levels by arbitrary distinct integers."""
    names = list(priorities.top.levels[:n])
    return names, any_ranks(ctx, priorities.top, names, 0, 20)


PKGS = ('modgen.pa', 'modgen.pab', 'other')
PREF = ('modgen', 'modgen.pa', 'modgen.pa.', 'modgen.pab.C1', 'other', 'zz', '')


def ontrue(cls):
    return True


def population(ctx, n=3, levels=None, pkgs=PKGS, flags=True):
    out = []
    for i in range(n):
        extra = {}
        f = None
        if flags:
            f = ctx.pick('flag{}'.format(i), ('no', True, False))
            if f != 'no':
                extra['onflag'] = classmethod(lambda c, f=f: f)
        fp = dict(attr=dict(k=dict(type=T0)))
        lv = None
        if levels:
            lv = ctx.pick('level{}'.format(i), levels)
            fp['priority'] = dict(level=priorities.top.level(lv))
        pk = ctx.pick('pkg{}'.format(i), pkgs)
        cls = mkclass('C{}'.format(i), fp, order=i + 1, module=pk, **extra)
        out.append(dict(cls=cls, flag=f, level=lv, name=pk + '.C{}'.format(i)))
    return out


def members(ctx, exp, label):
    got = list(coll().items())
    ctx.check(len(got) == len(exp) == len(coll()) and all(x['cls'] in coll() for x in exp) and
              {id(c) for c in got} == {id(x['cls']) for x in exp}, label, got)


def quiet(f, *a, **k):
    """(some methods print a line for each class)"""
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@harness('C25', bounds='3 classes among 3 packages with common prefixes, package filter and discard with 7 prefixes, '
         'then flag filter and discard (flag absent, true or false)', covers=('some', 'none'))
def packages_and_flags(ctx):
    pop = population(ctx, pkgs=PKGS)
    members(ctx, pop, 'initial')
    what = ctx.pick('what', ('package', 'flag'))
    if what == 'package':
        p = ctx.pick('prefix', PREF)
        sel = [x for x in pop if x['name'].startswith(p)]
        f, args, kw = 'package', (p,), {}
    else:
        v = ctx.pick('value', ('default', True, False))
        kw = {} if v == 'default' else dict(default=v)
        sel = [x for x in pop if x['flag'] is kw.get('default', True)]
        f, args = 'onflag', ('onflag',) if not kw or ctx.flag('named') else ('onflag', kw.pop('default'))
    got = getattr(coll(), 'filter_' + f)(*args, **kw)
    ctx.cover('some' if sel else 'none')
    ctx.check(len(got) == len(sel) and {id(c) for c in got} == {id(x['cls']) for x in sel}, 'filter', got)
    members(ctx, pop, 'filter-modifies')
    quiet(getattr(coll(), 'discard_' + f), *args, **kw)
    rest = [x for x in pop if x not in sel]
    members(ctx, rest, 'discard')
    # what has been discarded is not found any more, the others are
    found = coll().find_all(dict(k=ctx.val('k', T0)))
    ctx.check({id(x[0]) for x in found} == {id(x['cls']) for x in rest}, 'search-after-discard')
    # (a discarded class may come back)
    if sel:
        coll().add(sel[0]['cls'])
        members(ctx, rest + sel[:1], 're-added')


@harness('C25', bounds='3 classes whose flag method, inherited, redefined or missing, returns an opaque value; filter and discard on another opaque value',
         covers=('some', 'none'))
def flag_values(ctx):
    vals = [ctx.val('f{}'.format(i), ctx.pick('fk{}'.format(i), (T0, RawU))) for i in range(2)]
    base = mkclass('Base', dict(attr=dict(k=dict(type=T0))), order=1, myflag=classmethod(lambda c: vals[0]))
    pop = [(base, vals[0])]
    how = ctx.pick('sub', ('inherited', 'redefined'))
    sub = mkclass('Sub', {}, base=base, order=2, **({} if how == 'inherited' else dict(myflag=classmethod(lambda c: vals[1]))))
    pop.append((sub, vals[0] if how == 'inherited' else vals[1]))
    mkclass('Other', dict(attr=dict(k=dict(type=T0))), order=3)
    want = ctx.val('want', ctx.pick('wk', (T0, RawU)))
    got = coll().filter_onflag('myflag', want)
    quiet(coll().discard_onflag, 'myflag', default=want)
    n = 0
    for c, f in pop:
        k = len([x for x in got if x is c])
        n += k
        ctx.check(k <= 1, 'twice')
        ctx.check((f == want) if k else ctx.not_(f == want), 'filter', c.__name__)
        ctx.check((c in coll()) == (not k), 'discard', c.__name__)
    ctx.cover('some' if n else 'none')
    ctx.check(len(got) == n and len(coll()) == 3 - n, 'others')


@harness('C25', bounds='3 classes with any of 3 predefined levels of any distinct (symbolic) ranks; higher and lower filters and discards for any '
         'level, given by name in any case; discards chained', covers=('some', 'none', 'all'))
def levels(ctx):
    names, rs = sym_top(ctx, 3)
    pop = population(ctx, levels=names, pkgs=PKGS[:1], flags=False)
    lv = ctx.pick('ref', names)
    way = ctx.pick('way', ('higher', 'lower'))
    tag = ctx.pick('case', (lv, lv.lower()))

    def insel(x):
        return rs[x['level']] >= rs[lv] if way == 'higher' else rs[x['level']] < rs[lv]
    got = getattr(coll(), 'filter_{}_level'.format(way))(tag)
    for x in pop:
        n = len([c for c in got if c is x['cls']])
        ctx.check(n <= 1, 'twice')
        ctx.check(insel(x) == bool(n), 'filter', (x['name'], n))
    sel = [x for x in pop if [c for c in got if c is x['cls']]]
    ctx.cover('none' if not sel else 'all' if len(sel) == 3 else 'some')
    quiet(getattr(coll(), 'discard_{}_level'.format(way)), tag)
    rest = [x for x in pop if x not in sel]
    members(ctx, rest, 'discard')
    other = 'lower' if way == 'higher' else 'higher'
    quiet(getattr(coll(), 'discard_{}_level'.format(other)), tag)
    members(ctx, [], 'complementary-discard')


@harness('C25', bounds='3 classes of 3 packages at any of 3 levels of any distinct (symbolic) ranks; the level of a package is reset through '
         'the collector or for all collectors; filters and choices follow', covers=('reset', 'nothing'))
def reset_level(ctx):
    names, rs = sym_top(ctx, 3)
    pop = population(ctx, n=2, levels=names, flags=False)
    # a third one: subclass of the first, in another collector as well
    pk = ctx.pick('pkg2', PKGS)
    cls = mkclass('C2', {}, base=pop[0]['cls'], order=3, module=pk, tag=('zoo', 'farm'))
    pop.append(dict(cls=cls, level=pop[0]['level'], name=pk + '.C2'))
    lv = ctx.pick('new', names)
    p = ctx.pick('prefix', ('modgen.pa', 'modgen.pa.', 'other', 'zz'))
    if ctx.flag('module'):
        footprints.reset_package_priority(p, lv)
    else:
        coll().reset_package_level(p, lv)
    changed = 0
    for x in pop:
        if x['name'].startswith(p):
            changed += 1
            x['level'] = lv
        ctx.check(x['cls'].footprint_level().upper() == x['level'], 'level', (x['name'], x['cls'].footprint_level(), x['level']))
        ctx.check(x['cls'].footprint_pl().rank == rs[x['level']], 'rank')
    ctx.cover('reset' if changed else 'nothing')
    obj = coll().load(_emptywarning=False, k=ctx.val('k', T0))
    mine = [x for x in pop if x['cls'] is obj.__class__][0]
    ctx.check(ctx.and_(*[rs[mine['level']] >= rs[x['level']] for x in pop]), 'not-the-best-after-reset', mine['name'])
    got = coll().filter_higher_level(lv)
    for x in pop:
        ctx.check((rs[x['level']] >= rs[lv]) == bool([c for c in got if c is x['cls']]), 'filter-after-reset')


@harness('C25', bounds='3 classes in any of 2 collectors, concrete or abstract, registered by definition, discarded, popped, cleared or added again: '
         'histories of 2 operations', covers=('abstract', 'discarded', 'both'))
def membership(ctx):
    tags = ('zoo', 'farm')
    exp = {t: set() for t in tags}
    exa = {t: set() for t in tags}
    byid = {}
    classes = []
    for i in range(3):
        tg = ctx.pick('tags{}'.format(i), (('zoo',), ('farm',), tags)) if i < 2 else ('zoo',)
        ab = ctx.flag('abstract{}'.format(i)) if i < 2 else False
        cls = mkclass('C{}'.format(i), dict(attr=dict(k=dict(type=T0))), order=i + 1, tag=tg, _abstract=ab)
        classes.append(cls)
        byid[id(cls)] = cls
        if len(tg) > 1:
            ctx.cover('both')
        if ab:
            ctx.cover('abstract')
        for t in tg:
            (exa if ab else exp)[t].add(id(cls))

    def compare(label):
        for t in tags:
            c = coll(t)
            ctx.check({id(x) for x in c.items()} == exp[t] and len(c) == len(exp[t]) == len(list(c)), label + '-members', t)
            ctx.check({id(x) for x in c.abstract_classes.items()} == exa[t], label + '-abstract', t)
            for x in classes:
                ctx.check((x in c) == (id(x) in exp[t]), label + '-in', t)
    compare('initial')
    for n in range(2):
        op = ctx.pick('op{}'.format(n), ('discard', 'pop', 'clear', 'add', 'search'))
        t = ctx.pick('on{}'.format(n), tags)
        c = coll(t)
        if op == 'discard':
            ctx.cover('discarded')
            x = ctx.pick('who{}'.format(n), classes)
            c.discard(x)
            exp[t].discard(id(x))
        elif op == 'pop':
            try:
                x = c.pop()
                ctx.check(id(x) in exp[t], 'popped-what')
                exp[t].discard(id(x))
            except KeyError:
                ctx.check(not exp[t], 'pop-failed')
        elif op == 'clear':
            c.clear()
            exp[t].clear()
        elif op == 'add':
            c.add(classes[2])
            exp[t].add(id(classes[2]))
        else:
            found = c.find_all(dict(k=ctx.val('k{}'.format(n), T0)))
            ctx.check({id(x[0]) for x in found} == exp[t], 'search')
        compare(op)
    exp_all = {id(x) for c in footprints.collectors.values() for x in c.items()}
    ctx.check({id(x) for x in footprints.collected_classes()} == exp_all and
              len(footprints.collected_classes()) == len(exp_all), 'collected-classes')


@harness('C25', bounds='2 classes of up to 2 attributes with opaque values and outcast, mandatory or optional: attribute maps (all attributes, one '
         'name, a list of names, no name) and collected values', covers=('both', 'one', 'none'))
def maps(ctx):
    model = []
    for i in range(2):
        fp = {}
        for a in ('ka', 'mb'):
            how = ctx.pick('{}{}'.format(a, i), ('no', 'mandatory', 'optional'))
            if how == 'no':
                continue
            d = fp[a] = dict(type=T0, optional=how == 'optional')
            if a == 'ka':
                nv = ctx.choose('nv{}'.format(i), 3 - i)
                if nv:
                    d['values'] = [ctx.val('v{}{}'.format(i, j), T0) for j in range(nv)]
                if (i or nv < 2) and ctx.flag('out{}'.format(i)):
                    d['outcast'] = [ctx.val('o{}'.format(i), T0)]
        cls = mkclass('C{}'.format(i), dict(attr=fp), order=i + 1)
        model.append((cls, fp))
    only = ctx.pick('only', (None, ('ka',), ['ka', 'mb'], ('zz',), [], (), 'ka', 'k', 'kamb', 'mb'))
    given = only == ('ka',)
    start = {} if given else None
    amap = coll().build_attrmap(attrmap=start, only=only) if given else coll().build_attrmap(only=only)
    if given:
        ctx.check(amap is start, 'not-the-given-map')
    names = {}
    for cls, fp in model:
        for a, d in fp.items():
            if only is None or (a == only if isinstance(only, str) else a in only):
                names.setdefault(a + (' [optional]' if d['optional'] else ''), []).append((cls, d))
    ctx.check(sorted(amap) == sorted(names), 'attributes', sorted(amap))
    for key, lst in names.items():
        got = amap[key]
        ctx.check(len(got) == len(lst), 'classes', got)
        for cls, d in lst:
            g = [x for x in got if x['name'] == cls.__name__]
            ctx.check(len(g) == 1 and g[0]['module'] == cls.__module__, 'class', got)
            for what in ('values', 'outcast'):
                for v in d.get(what, []):
                    ctx.check(sym_in(ctx, v, g[0][what]), what + '-lost')
                for v in g[0][what]:
                    ctx.check(sym_in(ctx, v, d.get(what, [])), what + '-invented')
    # what is returned is not the definition itself
    for x in [x for lst in amap.values() for x in lst]:
        for what in ('values', 'outcast'):
            if isinstance(x[what], (list, set)):
                x[what].clear()
    vals = coll().get_values('ka')
    exp = [v for cls, fp in model if 'ka' in fp for v in fp['ka'].get('values', [])]
    ctx.cover('none' if not exp else 'both' if len(exp) > 2 else 'one')
    ctx.check(isinstance(vals, list), 'not-a-list')
    for v in exp:
        ctx.check(sym_in(ctx, v, vals), 'collected-value-lost')
    for v in vals:
        ctx.check(sym_in(ctx, v, exp), 'collected-value-invented')
    for a, b in zip(vals, vals[1:]):
        ctx.check(a < b, 'collected-values-not-sorted-or-repeated')
    ctx.check(coll().get_values('mb') == [] and coll().get_values('zz') == [], 'values-out-of-nothing')
    for key, lst in names.items():
        for cls, d in lst:
            name = key.partition(' ')[0]
            for what, now in (('values', cls.footprint_retrieve().get_values(name)), ('outcast', cls.footprint_retrieve().get_outcast(name))):
                for v in d.get(what, []):
                    ctx.check(sym_in(ctx, v, now), 'definition-modified', (what, name))


@harness('C25', bounds='2 classes of up to 2 attributes (mandatory, optional) at any of 3 levels in any of 2 collectors: printed tables of attributes '
         '(all, one name, several) and of classes above a level', covers=('listed', 'empty'))
def tables(ctx):
    names, rs = sym_top(ctx, 3)
    what = ctx.pick('what', ('attrkeys', 'attrmap', 'priorities'))
    model = []
    for i in range(2):
        fp, lv, tags = {}, names[i], ('zoo',)
        if what != 'priorities':
            for a in ('ka', 'mb'):
                how = ctx.pick('{}{}'.format(a, i), ('no', 'mandatory', 'optional'))
                if how != 'no':
                    fp[a] = dict(optional=how == 'optional', values=['v{}'.format(i)] if a == 'ka' and ctx.flag('v{}'.format(i)) else [])
        else:
            lv = ctx.pick('level{}'.format(i), names)
            tags = ctx.pick('tags{}'.format(i), (('zoo',), ('zoo', 'farm'), ('farm',)))
        cls = mkclass('C{}'.format(i), dict(attr=fp, priority=dict(level=footprints.priorities.top.level(lv))), order=i + 1, tag=tags)
        model.append((cls, fp, lv))
    out = io.StringIO()
    if what == 'priorities':
        ref = ctx.pick('ref', names)
        with contextlib.redirect_stdout(out):
            footprints.collected_priorities(ctx.pick('case', (ref, ref.lower())))
        lines = [l.split() for l in out.getvalue().splitlines() if l.strip()]
        ctx.cover('listed' if lines else 'empty')
        for cls, fp, lv in model:
            n = len([l for l in lines if l[-1] == cls.fullname()])
            ctx.check(n <= 1, 'listed-twice')
            ctx.check((rs[lv] >= rs[ref]) == bool(n), 'above-level', (cls.fullname(), lines))
            ctx.check(all(lv in l for l in lines if l[-1] == cls.fullname()), 'level-shown', lines)
        ctx.check(len(lines) == len([l for l in lines if l[-1] in [c.fullname() for c, _, _ in model]]), 'others-listed')
        return
    only = ctx.pick('only', (None, 'ka', 'kamb', ('mb',), ('ka', 'zz')))
    with contextlib.redirect_stdout(out):
        getattr(coll(), 'show_' + what)(**({} if only is None and ctx.flag('noarg') else dict(only=only)))
    text = out.getvalue()
    exp = {}
    for cls, fp, lv in model:
        for a, d in fp.items():
            if only is None or (a == only if isinstance(only, str) else a in only):
                exp.setdefault((a, d['optional']), []).append((cls, d))
    got = [l.split() for l in text.splitlines() if l.startswith(' *')]
    ctx.cover('listed' if exp else 'empty')
    got = sorted((l[1].rstrip(':'), '[optional]' in l[2:] or '[optional]:' in l[2:]) for l in got)
    ctx.check(got == sorted(exp), 'attributes-listed', (got, sorted(exp)))
    if what == 'attrmap':
        for (a, o), lst in exp.items():
            for cls, d in lst:
                n = len([l for l in text.splitlines() if l.split()[:1] == [cls.__name__]])
                ctx.check(n == len([1 for x in exp.values() for c, _ in x if c is cls]), 'classes-listed', text)
                for v in d['values']:
                    ctx.check(v in text, 'values-listed', text)


@harness('C25', bounds='filters, discards and resets with a level that does not exist: 2 classes at any of 3 levels', covers=('refused',))
def unknown_level(ctx):
    names, rs = sym_top(ctx, 3)
    pop = population(ctx, n=2, levels=names, flags=False, pkgs=PKGS[:1])
    what = ctx.pick('what', ('filter_higher_level', 'filter_lower_level', 'discard_higher_level', 'discard_lower_level', 'reset', 'reset-all',
                             'table'))
    tag = ctx.pick('tag', ('nolevel', 'nonesuch', 'x', ''))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if what == 'reset':
                coll().reset_package_level('modgen', tag)
            elif what == 'reset-all':
                footprints.reset_package_priority('modgen', tag)
            elif what == 'table':
                footprints.collected_priorities(tag)
            else:
                got = getattr(coll(), what)(tag)
                ctx.check(not got, 'classes-of-no-level', got)
    except (ValueError, KeyError):
        ctx.cover('refused')
    members(ctx, pop, what)
    for x in pop:
        pl = x['cls'].footprint_pl()
        ctx.check(pl is not None and pl.tag == x['level'] and pl.rank == rs[x['level']], 'level-modified', x['name'])


@harness('C25', bounds='2 classes declaring the same attribute with another type: opaque values, integers, texts or classes (which have no order); collected values',
         covers=('ordered', 'unordered'))
def mixed_values(ctx):
    exp = []
    kinds = []
    for i in range(2):
        kind = ctx.pick('kind{}'.format(i), ('opaque', 'int', 'text', 'class', 'none'))
        kinds.append(kind)
        vals = {'opaque': [ctx.val('v{}'.format(i), T0)], 'int': [3 + i, 1], 'text': ['b', 'a{}'.format(i)], 'class': [T0, T1], 'none': []}[kind]
        d = dict(type={'int': int, 'text': str}.get(kind, T0), optional=ctx.flag('opt{}'.format(i)))
        if kind == 'class':
            d['isclass'] = True
        if vals:
            d['values'] = list(vals)
        mkclass('C{}'.format(i), dict(attr=dict(k=d)), order=i + 1)
        exp.extend(vals)
    got = coll().get_values('k')
    ctx.check(isinstance(got, list) and all(any(v is x or v == x for v in got) for x in exp), 'lost', (got, exp))
    ctx.check(all(any(v is x or v == x for x in exp) for v in got), 'invented', (got, exp))
    ctx.check(not any(got[i] is got[j] or got[i] == got[j] for i in range(len(got)) for j in range(i)), 'repeated', got)
    if 'class' not in kinds and len(set(kinds) - {'none'}) < 2:
        ctx.cover('ordered')
        ctx.check(all(a < b for a, b in zip(got, got[1:])), 'not-sorted', got)
    else:
        ctx.cover('unordered')
    fmap = coll().build_attrmap(only='k')
    ctx.check(sum(map(len, fmap.values())) == 2, 'attribute-map', fmap)


@harness('C23', bounds='class-valued attribute with 0-2 authorised or excluded items among subclasses of the type, other classes, values and texts; by declaration or '
         'by inheritance', covers=('accepted', 'refused'))
def class_values(ctx):
    opts = dict(same=T0, sub=T1, other=W0, value=ctx.val('v', T0), text='T0')
    items = [opts[ctx.pick('item{}'.format(i), ('same', 'sub', 'other', 'value', 'text'))] for i in range(ctx.choose('n', 3))]
    what = ctx.pick('what', ('values', 'outcast'))
    attr = dict(k=dict(type=T0, isclass=True))
    good = all(isinstance(x, type) and issubclass(x, T0) for x in items)
    base = {}
    if ctx.flag('inherited'):
        base = dict(base=mkclass('Base', dict(attr=attr), _abstract=True))
        attr = dict(k={what: list(items)})
    else:
        attr['k'][what] = list(items)
    try:
        cls = mkclass('One', dict(attr=attr), order=2, **base)
    except Exception:
        ctx.cover('refused')
        ctx.check(not good, 'refused')
        ctx.check(not names_everywhere('One'), 'refused-class-in-collector')
        return
    ctx.cover('accepted')
    ctx.check(good, 'accepted')
    fp = cls.footprint_retrieve()
    got = fp.get_values('k') if what == 'values' else fp.get_outcast('k')
    ctx.check(set(map(id, got)) == set(map(id, items)) and len(got) == len(set(map(id, items))), 'classes-replaced', got)
