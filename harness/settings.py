"""C26: global settings."""
import itertools

from footprints import FootprintFatalError, FootprintUnreachableAttr

from ._common import *  # noqa: F401,F403
from ._common import ABSENT, CONVERR, T0, T1, Raw, coll, footprints, harness, isin, mkclass, same
from symx.core import Infeasible

ASSUMPTIONS = {
    'C26': ['opaque values (equality, conversion outcome unknown)', 'names of at most 3 letters in any letter case',
            'one object of one attribute among the values of the description'],
}


def anycase(ctx, name, word):
    """The word in any letter case."""
    return ''.join(c.upper() if c.isalpha() and ctx.flag('{}.{}'.format(name, i)) else c for i, c in enumerate(word))


def set_defaults(ctx, name, d):
    """All the ways to set the global defaults."""
    how = ctx.pick(name + '.how', ('assign', 'update', 'item', 'keywords'))
    if how == 'assign':
        footprints.setup.defaults = d
    elif how == 'update':
        footprints.setup.defaults = {}
        footprints.setup.defaults.update(d)
    elif how == 'item':
        footprints.setup.defaults = {}
        for k, v in d.items():
            footprints.setup.defaults[k] = v
    else:
        footprints.setup.defaults = {}
        footprints.setup.defaults.update(**d)


@harness('C26', bounds='attribute and default names of 3 letters in any letter case, 4 ways to set the defaults; value given, None or absent, '
         'by name or alias; mandatory or optional with declared default; then the defaults are replaced or emptied',
         covers=('applied', 'given', 'withdrawn', 'replaced', 'undefined'))
def letter_cases(ctx):
    aname = anycase(ctx, 'attr', 'ab')
    dname = anycase(ctx, 'dflt', 'ab')
    opt = ctx.pick('opt', ('mandatory', 'optional', 'default'))
    d = dict(type=T0, optional=opt != 'mandatory', alias={'al'})
    if opt == 'default':
        d['default'] = ctx.val('declared', T0)
    cls = mkclass('One', dict(attr={aname: d, 'q': dict(type=T0, optional=True)}))
    desc = {}
    how = ctx.pick('given', ('no', 'name', 'alias', 'none'))
    if how in ('name', 'alias'):
        desc[aname if how == 'name' else 'al'] = ctx.val('x', ctx.pick('xcls', (T0, T1)))
    elif how == 'none':
        desc[aname] = None
    gd = ctx.val('global', T0)
    set_defaults(ctx, 'first', {dname: gd})
    obj = coll().load(_emptywarning=False, **desc)

    def verdict(obj, g):
        val = desc.get(aname, desc.get('al'))
        if val is not None:
            ctx.cover('given')
            exp = val
        elif how == 'none' and opt == 'mandatory':
            ctx.check(obj is None, 'none-accepted')
            return
        elif g is not ABSENT:
            ctx.cover('applied')
            exp = g
        elif opt == 'mandatory':
            ctx.check(obj is None, 'found-without-value')
            return
        else:
            ctx.cover('undefined')
            exp = d.get('default')
        ctx.check(obj is not None, 'not-found')
        ctx.check(same(getattr(obj, aname), exp), 'value', (getattr(obj, aname), exp))
        ctx.check(obj.q is None, 'other-attribute', obj.q)
    verdict(obj, gd)
    after = ctx.pick('after', ('withdrawn', 'replaced', 'other', 'same'))
    g2 = gd
    if after == 'withdrawn':
        footprints.setup.defaults = {}
        g2 = ABSENT
    elif after == 'replaced':
        g2 = ctx.val('global2', T0)
        footprints.setup.defaults = {aname.upper() if ctx.flag('up') else aname.lower(): g2}
    elif after == 'other':
        footprints.setup.defaults = {'zz': ctx.val('zz', T0)}
        g2 = ABSENT
    if after != 'same':
        ctx.cover('replaced' if after == 'replaced' else 'withdrawn')
    way = ctx.pick('way', ('load', 'direct', 'default'))
    if way == 'load':
        obj2 = coll().load(_emptywarning=False, **desc)
    elif way == 'direct':
        try:
            obj2 = cls(**desc)
        except FootprintFatalError:
            obj2 = None
    else:
        del obj
        obj2 = coll().default(_emptywarning=False, **desc)
    verdict(obj2, g2)


SOURCES = ('attribute', 'object', 'callback', 'unused', 'default')


@harness('C26', bounds='a reference [x] with every combination of an attribute, an object of the description, the callback, an unused entry of '
         'the description and a global default named x; extended mode or not; load or direct instantiation; then settings are changed',
         covers=SOURCES + ('unreachable',))
def precedence(ctx):
    there = {s for s in SOURCES if ctx.flag(s)}
    extended = ctx.flag('extended')
    how = ctx.pick('how', ('load', 'direct', 'module'))
    attr = dict(t=dict(optional=True, default='a[x]b'))
    desc = {}
    if 'attribute' in there:
        attr['x'] = dict(optional=True)
        desc['x'] = 'attribute'
    cls = mkclass('One', dict(attr=attr, priority=dict(level=footprints.priorities.top.TOOLBOX)))
    if 'object' in there:
        other = mkclass('Other', dict(attr=dict(x=dict())), tag='farm', order=2)
        desc['o'] = other(x='object')
    if 'unused' in there and 'attribute' not in there:
        desc['x'] = 'unused'
    box = dict(x='callback')
    footprints.setup.callback = (lambda: dict(box)) if 'callback' in there else None
    set_defaults(ctx, 'd', {'X': 'default'} if 'default' in there else {})
    footprints.setup.extended = extended

    def build():
        try:
            if how == 'load':
                return coll().load(_emptywarning=False, **desc)
            if how == 'module':
                return footprints.load(tag='zoo', _emptywarning=False, **desc)
            return cls(**desc)
        except FootprintUnreachableAttr:
            return None

    def verdict(obj, there, extended):
        for s in SOURCES:
            if s in there and (s != 'default' or extended):
                ctx.cover(s)
                ctx.check(obj is not None and obj.t == 'a' + s + 'b', 'wrong-source', (getattr(obj, 't', None), s))
                return
        ctx.cover('unreachable')
        ctx.check(obj is None, 'replaced-by-nothing', getattr(obj, 't', None))
    verdict(build(), there, extended)
    change = ctx.pick('change', ('extended', 'callback', 'answer', 'defaults', 'none'))
    if change == 'extended':
        footprints.setup.extended = not extended
        verdict(build(), there, not extended)
    elif change == 'callback':
        if 'callback' in there:
            footprints.setup.callback = None
        else:
            footprints.setup.callback = lambda: dict(x='callback')
        verdict(build(), there ^ {'callback'}, extended)
    elif change == 'answer':
        # (the very same callback answers something else)
        if 'callback' not in there:
            return
        del box['x']
        verdict(build(), there ^ {'callback'}, extended)
        box['x'] = 'callback'
        verdict(build(), there, extended)
    elif change == 'defaults':
        footprints.setup.defaults = {} if 'default' in there else dict(x='default')
        verdict(build(), there ^ {'default'}, extended)
    else:
        footprints.setup.extended = None
        verdict(build(), there, extended)


@harness('C26', bounds='global default of an attribute to be remapped, converted and checked, opaque; callback called for each search; '
         'explicit falsy values', covers=('converted', 'rejected', 'explicit'))
def defaults_are_checked(ctx):
    d = dict(type=T0, optional=ctx.flag('optional'))
    if ctx.flag('values'):
        d['values'] = [ctx.val('v', T0)]
    if ctx.flag('remap'):
        rk, rv = ctx.val('rk', Raw), ctx.val('rv', T0)
        ctx.assume(rk != rv)
        d['remap'] = {rk: rv}
    cls = mkclass('One', dict(attr=dict(k=d)))
    gd = ctx.val('global', ctx.pick('gcls', (T0, Raw)))
    set_defaults(ctx, 'd', dict(K=gd))
    desc = {}
    if ctx.flag('explicit'):
        ctx.cover('explicit')
        desc['k'] = ctx.val('x', T0)
    calls = []
    footprints.setup.callback = lambda: calls.append(1) or dict(z=1)
    obj = coll().load(_emptywarning=False, **desc)
    v = desc.get('k', gd)
    for a, b in d.get('remap', {}).items():
        if v == a:
            v = b
    if not isinstance(v, T0):
        try:
            v = T0(v)
            ctx.cover('converted')
        except CONVERR:
            v = None
    if v is not None and 'values' in d and not isin(v, d['values']):
        v = None
    ctx.check(len(calls) > 0, 'callback-not-called')
    if v is None:
        ctx.cover('rejected')
        ctx.check(obj is None, 'accepted')
    else:
        ctx.check(obj is not None and isinstance(obj.k, T0), 'rejected')
        ctx.check(obj.k == v, 'value', (obj.k, v))
        ctx.check(bool(footprints.setup.defaults['k'] is gd) and len(footprints.setup.defaults) == 1, 'defaults-modified')


SETTINGS = dict(fastmode=True, fatal=False, extended=False, shortnames=True, docstrings=0, report=0, lreport_len=7, fastkeys=('zz',))


@harness('C26', bounds='settings derived from the current ones under another name, any 2 of 8 settings being replaced; opaque global defaults; then either '
         'of the settings is changed', covers=('derived', 'replaced'))
def derived(ctx):
    st = footprints.setup
    gd = ctx.val('global', T0)
    set_defaults(ctx, 'd', dict(A=gd))
    st.extended = True
    marker = type('Marker', (), {})()
    st.add_proxy(marker)
    st.callback = ctx.pick('callback', (None, dict))
    old = st.as_dict()
    kw = {}
    for i in range(2):
        n = ctx.pick('replaced{}'.format(i), (None,) + tuple(SETTINGS))
        if n:
            kw[n] = SETTINGS[n]
            ctx.cover('replaced')
    if ctx.flag('newdefaults'):
        kw['defaults'] = dict(B=ctx.val('other', T0))
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        alt = st(tag='alt', **kw)
        again = st()
    ctx.cover('derived')
    ctx.check(again is st, 'same-settings')
    ctx.check(alt is not st and alt.tag == 'alt' and footprints.config.get(tag='alt') is alt, 'other-settings')
    ctx.check('alt' in footprints.config.keys() and any(x is alt for x in footprints.config.values()) and
              any(k == 'alt' and x is alt for k, x in footprints.config.items()), 'listed')
    for n in SETTINGS:
        ctx.check(getattr(st, n) == old[n], 'settings-modified', n)
        ctx.check(getattr(alt, n) == kw.get(n, old[n]), 'derived-setting', (n, getattr(alt, n)))
    ctx.check(alt.callback is st.callback and set(alt.proxies) == set(st.proxies), 'derived-others')

    def defaults(x, exp, label):
        d = dict(x.defaults.items())
        ctx.check(sorted(d) == sorted(exp) and all(d[k] is v for k, v in exp.items()), label, d)
    mine, theirs = dict(a=gd), dict(b=kw['defaults']['B']) if 'defaults' in kw else dict(a=gd)
    defaults(st, mine, 'defaults')
    defaults(alt, theirs, 'derived-defaults')
    new = ctx.val('new', T0)
    who = ctx.pick('changed', ('st', 'alt'))
    (st if who == 'st' else alt).defaults.update(C=new)
    (mine if who == 'st' else theirs)['c'] = new
    (st if who == 'st' else alt).extended = False
    m2 = type('Marker', (), {})()
    (st if who == 'st' else alt).add_proxy(m2)
    defaults(st, mine, 'defaults-shared')
    defaults(alt, theirs, 'derived-defaults-shared')
    ctx.check((m2 in st.proxies) == (who == 'st') and (m2 in alt.proxies) == (who == 'alt'), 'proxies-shared')
    if who == 'alt':
        ctx.check(st.extended is True, 'extended-shared')
    # resolutions follow the main settings
    cls = mkclass('One', dict(attr=dict(a=dict(type=T0, optional=True), b=dict(type=T0, optional=True), c=dict(type=T0, optional=True))))
    o = cls()
    for n in 'abc':
        ctx.check(same(getattr(o, n), mine[n]) if n in mine else getattr(o, n) is None, 'resolution', n)
