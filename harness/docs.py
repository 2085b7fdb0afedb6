"""C27: generated documentation."""
import re

from footprints import access, doc

from ._common import *  # noqa: F401,F403
from ._common import FootprintBase, T0, T1, Raw, coll, core, footprints, harness, any_ranks, isin, mkclass, same
from symx.core import Infeasible

ASSUMPTIONS = {
    'C27': ['detailed documentation (docstrings=2); lines of attributes and aliases are recognised by their Sphinx markup',
            'documentation orders are any integers of -300..300; ranks of the visibility levels are any distinct integers of 0..9'],
}

ATTR = re.compile(r'^\s*\* \*\*(.+?)\*\* \(:class:`(.*?)`\) - (\S+) - (.*)$')
ALIAS = re.compile(r'^\s*\* \*\*(.+?)\*\* is an alias of (.+)\.$')
SUB = re.compile(r'^\s*\* (Optional\. Default is|Values:|Outcast:|[A-Z]\w*:) ?(.*)$')


def parse(text):
    """[(name, type, access, info, {label: text})], [(alias, attr)]"""
    attrs, aliases = [], []
    for line in text.split('\n'):
        m = ATTR.match(line)
        if m:
            attrs.append(m.groups() + ({},))
            continue
        m = ALIAS.match(line)
        if m:
            aliases.append(m.groups())
            continue
        m = SUB.match(line)
        if m and attrs and m.group(1).rstrip(':') not in ('Info', 'Priority'):
            attrs[-1][4].setdefault(m.group(1).rstrip(':'), []).append(m.group(2))
    return attrs, aliases


def clamp(ctx, z):
    if z > 100:
        return 100
    return -100 if z < -100 else z


def ordered(ctx, names, model, rank, label='order'):
    """model: {name: (visibility, zorder)}"""
    for a, b in zip(names, names[1:]):
        (va, za), (vb, zb) = model[a], model[b]
        za, zb = clamp(ctx, za), clamp(ctx, zb)
        ra, rb = rank(va), rank(vb)
        ok = ctx.or_(ra < rb, ctx.and_(ra == rb, ctx.or_(za > zb, ctx.and_(za == zb, a < b))))
        ctx.check(ok, label, (a, b))


def zorder(ctx, n):
    return ctx.sym_int('z.' + n, -300, 300)


@harness('C27', bounds='3 attributes (4 sets of names) with any integer order, each of any of 3 visibility levels; 2 declaration orders; documentation of the class and of '
         'its footprint', covers=('end',))
def order3(ctx):
    footprints.setup.docstrings = 2
    names = ctx.pick('names', (('ab', 'a', 'b'), ('a', 'B', 'b'), ('_a', 'Z', 'a'), ('a10', 'a2', 'a_1')))
    model = {}
    for n in names:
        model[n] = (ctx.pick('vis.' + n, ('DEFAULT', 'ADVANCED', 'GURU')), zorder(ctx, n))
    attr = {n: dict(doc_visibility=doc.visibility.level(v), doc_zorder=z) for n, (v, z) in model.items()}
    if ctx.flag('reverse'):
        attr = {n: attr[n] for n in reversed(names)}
    cls = mkclass('One', dict(attr=attr))
    rk = {'DEFAULT': 0, 'ADVANCED': 1, 'GURU': 2}
    texts = [cls.__doc__]
    if ctx.flag('footprint'):
        texts.append(footprints.Footprint(dict(attr=attr)).__doc__)
    for txt in texts:
        got = [x[0] for x in parse(txt)[0]]
        ctx.check(sorted(got) == sorted(names), 'not-each-attribute-once', got)
        ordered(ctx, got, model, rk.get)
    ctx.cover('end')


@harness('C27', bounds='2 attributes with any integer order or none, visibility among 2 predefined levels of any distinct symbolic rank, '
         'one attribute inherited or not', covers=('inherited', 'own'))
def symbolic_ranks(ctx):
    footprints.setup.docstrings = 2
    lv = ('DEFAULT', 'GURU')
    names = ('ab', 'a')
    model, attr = {}, {}
    for n in names:
        v = ctx.pick('vis.' + n, (None,) + lv)
        z = zorder(ctx, n) if ctx.flag('given.' + n) else None
        model[n] = (v or 'DEFAULT', 0 if z is None else z)
        attr[n] = {}
        if v:
            attr[n]['doc_visibility'] = doc.visibility.level(v)
        if z is not None:
            attr[n]['doc_zorder'] = z
    rs = any_ranks(ctx, doc.visibility, lv, 0, 9)
    if ctx.flag('inherit'):
        ctx.cover('inherited')
        base = mkclass('Parent', dict(attr=dict(a=attr['a'])), tag='elsewhere')
        cls = mkclass('One', dict(attr=dict(ab=attr['ab'])), base=base)
    else:
        ctx.cover('own')
        cls = mkclass('One', dict(attr=attr))
    got = [x[0] for x in parse(cls.__doc__)[0]]
    ctx.check(sorted(got) == sorted(names), 'not-each-attribute-once', got)
    ordered(ctx, got, model, rs.get)
    # a more detailed look does not change the declaration
    fp = cls.footprint_retrieve()
    for n in names:
        z = clamp(ctx, model[n][1])
        ctx.check(fp.attr[n]['doc_zorder'] == z, 'recorded-order')


def snapshot(x):
    """A comparable image of a declaration."""
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [x.__class__] + [snapshot(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return [x.__class__] + sorted(id(v) if isinstance(v, core.Val) else v for v in x)
    return x if isinstance(x, (str, int, type(None))) else id(x)


@harness('C27', bounds='one attribute with any subset of type, optional/default, values, outcast, aliases (0-2), access mode, info, remap; a second '
         'plain one; documentation levels 1, 2 and unknown', covers=('optional', 'values', 'outcast', 'alias'))
def content(ctx):
    footprints.setup.docstrings = 2
    d = {}
    opt = ctx.pick('opt', ('mandatory', 'optional', 'default'))
    typed = ctx.flag('typed')
    if typed:
        d['type'] = T0
    if opt != 'mandatory':
        d['optional'] = True
        if opt == 'default':
            d['default'] = ctx.val('dflt', T0) if typed else 'dfl'
    for key in ('values', 'outcast'):
        n = ctx.choose(key, 2 if key == 'outcast' else 3)
        if n:
            d[key] = [ctx.val('{}{}'.format(key, i), T0) if typed else 'txt{}{}'.format(key, i) for i in range(n)]
    na = ctx.choose('alias', 3)
    if na:
        d['alias'] = {'al', 'am'} if na > 1 else ['al']
    acc = ctx.pick('access', (None, 'rwx', 'rwd'))
    if acc:
        d['access'] = acc
    if ctx.flag('info'):
        d['info'] = 'Some text'
    if ctx.flag('remap'):
        d['remap'] = {ctx.val('rk', T0): ctx.val('rv', T0)} if typed else dict(rk='rv')
    cls = mkclass('One', dict(attr=dict(k=d, z={})), tag='zoo')
    fp = cls.footprint_retrieve()
    attrs, aliases = parse(cls.__doc__)
    ctx.check([x[0] for x in attrs] == ['k', 'z'], 'attributes', attrs)
    name, tname, acs, info, sub = attrs[0]
    ctx.check(tname.split('.')[-1] == ('T0' if typed else 'str'), 'type', tname)
    ctx.check(acs == (acc or 'rxx') and attrs[1][2] == 'rxx', 'access', acs)
    ctx.check(info == ('Some text' if 'info' in d else 'Not documented, sorry.'), 'info', info)
    ctx.check(('Optional. Default is' in sub) == (opt != 'mandatory'), 'optional', sub)
    if opt != 'mandatory':
        ctx.cover('optional')
        txt = sub['Optional. Default is']
        ctx.check(len(txt) == 1 and (repr(d['default']) if opt == 'default' else 'None') in txt[0], 'default', txt)
    for key in ('values', 'outcast'):
        lab = key.capitalize()
        ctx.check((lab in sub) == (key in d), key, sub)
        if key in d:
            ctx.cover(key)
            vals = []
            for v in d[key]:
                if not isin(v, vals):
                    vals.append(v)
            ctx.check(len(sub[lab]) == 1, key + '-twice', sub)
            for v in vals:
                ctx.check(repr(v) in sub[lab][0], key + '-lost', (v, sub))
    ctx.check(not attrs[1][4], 'plain-attribute', attrs[1])
    exp = sorted((a, 'k') for a in d.get('alias', ()))
    if exp:
        ctx.cover('alias')
    ctx.check(sorted(aliases) == exp, 'aliases', aliases)
    before = snapshot(fp.as_dict())
    one = [doc.format_docstring(fp, lev, abstractfpobj=ab) for lev in (0, 1, 2, 3) for ab in (False, True)]
    two = [doc.format_docstring(fp, lev, abstractfpobj=ab) for lev in (0, 1, 2, 3) for ab in (False, True)]
    ctx.check(one == two, 'not-repeatable')
    ctx.check(snapshot(fp.as_dict()) == before, 'declaration-modified')
    obj = coll().load(_emptywarning=False, k=d['values'][0] if 'values' in d else ctx.val('x', T0) if typed else 'u', z='z')
    if obj is not None:
        ctx.check(obj.__class__ is cls, 'class')


@harness('C27', bounds='a new visibility level inserted before or after an existing one; 2 attributes at any of 4 levels', covers=('end',))
def new_levels(ctx):
    footprints.setup.docstrings = 2
    names = ['DEFAULT', 'ADVANCED', 'GURU']
    ref = ctx.pick('ref', names)
    how = ctx.pick('how', ('before', 'after'))
    # (before means before the reference in the documentation)
    getattr(doc, 'set_' + how)(ref.lower(), 'new')
    names.insert(names.index(ref) + (how == 'after'), 'NEW')
    model = {n: (ctx.pick('vis.' + n, names), ctx.sym_int('z.' + n, -3, 3)) for n in ('ab', 'a')}
    cls = mkclass('One', dict(attr={n: dict(doc_visibility=doc.visibility.level(v), doc_zorder=z) for n, (v, z) in model.items()}))
    got = [x[0] for x in parse(cls.__doc__)[0]]
    ctx.check(sorted(got) == ['a', 'ab'], 'not-each-attribute-once', got)
    ordered(ctx, got, model, names.index)
    ctx.cover('end')


def keep(cls):
    return cls


def keep_too(cls):
    return cls


@harness('C27', bounds='up to 2 only clauses (values, dates, hidden marker), info, priority level, other entries (bind, a custom one), up to 2 decorators; '
         'declared in the class, in a footprint or inherited; documentation of the class and of the footprint', covers=('only', 'entries', 'decorators'))
def sections(ctx):
    footprints.setup.docstrings = 2
    decl = dict(attr=dict(k={}, rel=dict(type=int)))
    only = {}
    for n in ('k', 'after_rel'):
        o = ctx.pick('only.' + n, (None, 'one', 'opaque', 'many') if n == 'k' else (None, 'one'))
        if o:
            only[n] = {'one': 3, 'opaque': ctx.val('o', Raw), 'many': ['p', 'q']}[o]
    if only:
        decl['only'] = only
    info = ctx.pick('info', (None, 'About it'))
    if info:
        decl['info'] = info
    lev = ctx.pick('level', (None, 'DEBUG'))
    if lev:
        decl['priority'] = dict(level=footprints.priorities.top.level(lev))
    other = ctx.pick('other', (None, ('bind', ['b1', 'b2']), ('custom', 'some'), ('custom', {'key': 'some'})))
    if other:
        decl[other[0]] = other[1]
    how = ctx.pick('how', ('class', 'footprint', 'decorative', 'inherited'))
    decos = []
    if how == 'class':
        fps = decl
    elif how == 'footprint':
        fps = footprints.Footprint(decl)
    elif how == 'decorative':
        decos = ctx.pick('decorators', ([keep], [keep, keep_too], keep))
        fps = footprints.DecorativeFootprint(decl, decorator=decos)
        decos = decos if isinstance(decos, list) else [decos]
    else:
        fps = dict(attr=dict(z={}))
    if how == 'inherited':
        cls = mkclass('One', fps, base=mkclass('Parent', decl, tag='elsewhere'))
    else:
        cls = mkclass('One', fps)
    before = snapshot(cls.footprint_retrieve().as_dict())
    texts = [(cls.__doc__, True)]
    if how in ('footprint', 'decorative'):
        texts.append((fps.__doc__, False))
    for txt, forclass in texts:
        lines = [x.strip() for x in txt.split('\n')]
        if forclass:
            ctx.check(lines.count('* info: ' + (info or 'Not documented')) == 1, 'info', txt)
            ctx.check(len([x for x in lines if x.startswith('* priority: ') and (lev or 'DEFAULT') in x]) == 1, 'priority', txt)
        got = [x for x in lines if x.startswith('* **') and ':class:' not in x and ' is an alias of ' not in x]
        ctx.check(got == ['* **{}** - {!s}'.format(n, only[n]) for n in sorted(only)], 'only', (got, only))
        ctx.check(txt.count('Only clauses:') == (1 if only else 0), 'only-section', txt)
        if only:
            ctx.cover('only')
        got = [x for x in lines if x.startswith('* bind: ') or x.startswith('* custom: ')]
        ctx.check(len(got) == (1 if other else 0), 'other', got)
        if other:
            ctx.cover('entries')
            ctx.check(got[0].startswith('* ' + other[0]) and all(w in got[0] for w in (['b1', 'b2'] if other[0] == 'bind' else ['some'])),
                      'other-entry', got)
        if decos:
            ctx.cover('decorators')
            ctx.check(txt.count('Decorators that will be applied') == 1, 'decorators', txt)
            got = [x for x in lines if x.startswith('* ') and 'keep' in x]
            ctx.check(len(got) == len(decos) and all(d.__name__ in x for d, x in zip(decos, got)), 'each-decorator', got)
        else:
            ctx.check('Decorators that will be applied' not in txt, 'no-decorator', txt)
        names = [x[0] for x in parse(txt)[0]]
        ctx.check(sorted(names) == sorted(['k', 'rel'] + (['z'] if how == 'inherited' else [])), 'attributes', names)
    ctx.check(snapshot(cls.footprint_retrieve().as_dict()) == before, 'declaration-modified')
