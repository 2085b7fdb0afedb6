"""C29: class decorators and short method names."""
import footprints
from footprints import DecorativeFootprint, Footprint

from ._common import *  # noqa: F401,F403
from ._common import DetMeta, FootprintBase, T0, coll, harness, mkclass, same

ASSUMPTIONS = {
    'C29': ['decorators return the given class, or a class derived from it'],
}


class Calls:
    """Decorators which record the classes they were given."""

    def __init__(self):
        self.log = []

    def make(self, tag, sub=False):
        def deco(cls):
            self.log.append((tag, cls.__name__))
            if sub and not cls.__dict__.get('_derived'):
                return DetMeta(cls.__name__, (cls,), dict(__module__=cls.__module__, _h=9, _explicit=False, _abstract=False,
                                                          _collector=('zoo',), _derived=True))
            cls.marks = getattr(cls, 'marks', ()) + (tag,)
            return cls
        deco.__name__ = deco.__qualname__ = tag
        return deco


def footprints_pool(ctx, calls):
    """Plain and decorative footprints: {name: (footprint, decorators expected, attributes)}."""
    single = ctx.flag('single')
    a, b, c, d = (calls.make(n) for n in 'abcd')
    d1 = DecorativeFootprint(attr=dict(k=dict(type=T0)), decorator=a if single else [a])
    d2 = DecorativeFootprint(attr=dict(m=dict(type=T0, optional=True)), decorator=[b, c] if not single else [b])
    e2 = ['b'] if single else ['b', 'c']
    args = ctx.pick('parts', ((d1, d2), (d2, d1), (d2,), (dict(attr=dict(k=dict(type=T0))), d1)))
    exp, at = [], set()
    for x in args:
        if x is d1:
            exp.append('a')
            at.add('k')
        elif x is d2:
            exp.extend(e2)
            at.add('m')
        else:
            at.add('k')
    kw = {}
    own = ctx.pick('own', ('no', 'one', 'list'))
    if own != 'no':
        kw['decorator'] = d if own == 'one' else [d]
        exp.append('d')
    d3 = DecorativeFootprint(*args, attr=dict(z=dict(type=T0, optional=True)), **kw)
    plain = d3.as_footprint()
    return dict(d1=(d1, ['a'], {'k'}), d2=(d2, e2, {'m'}), d3=(d3, exp, at | {'z'}), plain=(plain, [], at | {'z'}),
                raw=(dict(attr=dict(q=dict(type=T0, optional=True))), [], {'q'}))


def names_of(fp):
    return [x.__name__ for x in fp.decorators]


@harness('C29', bounds='decorative footprints with 1 or 2 decorators (given alone or as a list), combined ones of up to 2 others with or without a '
         'decorator of their own, a plain copy; a class declared with one or a list of 2 of them, then a class inheriting it with a '
         'declaration of its own or not; documentation off, basic or detailed; an object of opaque values is loaded',
         covers=('applied', 'none', 'inherited'))
def applied_once(ctx):
    footprints.setup.docstrings = ctx.pick('docstrings', (0, 1, 2))
    calls = Calls()
    pool = footprints_pool(ctx, calls)
    before = {n: names_of(pool[n][0]) for n in ('d1', 'd2', 'd3')}
    for n in before:
        ctx.check(before[n] == pool[n][1], 'decorators', (n, before[n], pool[n][1]))
    ctx.check(not calls.log, 'applied-at-definition')
    ctx.check(not isinstance(pool['plain'][0], DecorativeFootprint), 'plain')

    def declare(name, base, use, order):
        decls = [pool[n][0] for n in use]
        d = dict(_footprint=decls[0] if len(decls) == 1 and ctx.flag(name + '.bare') else decls) if decls else {}
        n = len(calls.log)
        cls = DetMeta(name, (base,), dict(__module__='modgen.pkg', _h=order, _explicit=False, _abstract=False, _collector=('zoo',), **d))
        exp = [(t, name) for u in use for t in pool[u][1]]
        ctx.cover('applied' if exp else 'none')
        ctx.check(calls.log[n:] == exp, 'decorators-applied', (calls.log[n:], exp))
        ctx.check([x for x in coll().items() if x.__name__ == name] == [cls], 'registered', name)
        for u in use:
            ctx.check(pool[u][2] <= set(cls._footprint.attr), 'attributes', (u, sorted(cls._footprint.attr)))
        return cls, exp
    use = ctx.pick('use', (('d1',), ('d3',), ('plain',), ('d1', 'd2'), ('d2', 'd1'), ('raw', 'd3'), ('d2', 'plain')))
    one, exp = declare('One', FootprintBase, use, 1)
    again = ctx.pick('again', ((), ('raw',), ('d2',), ('plain', 'raw')))
    two, exp2 = declare('Two', one, again, 2)
    if exp and not exp2:
        ctx.cover('inherited')
    ctx.check(set(one._footprint.attr) <= set(two._footprint.attr), 'inherited-attributes')
    for n in before:
        ctx.check(names_of(pool[n][0]) == before[n], 'footprint-modified', n)
    k = ctx.val('k', T0)
    desc = {a: k for a in ('k', 'm') if a in two._footprint.attr}
    obj = two(**desc)
    for a, v in desc.items():
        ctx.check(same(getattr(obj, a), v), 'object')
    ctx.check(calls.log == exp + exp2, 'applied-later')


@harness('C29', bounds='a class declared with 2 decorative footprints, one of whose decorators gives another class (derived from the given one)',
         covers=('first', 'last'))
def replaced(ctx):
    calls = Calls()
    first = ctx.flag('first')
    ctx.cover('first' if first else 'last')
    d1 = DecorativeFootprint(attr=dict(k=dict(type=T0)), decorator=[calls.make('a', sub=first)])
    d2 = DecorativeFootprint(attr=dict(m=dict(type=T0, optional=True)), decorator=[calls.make('b', sub=not first)])
    cls = DetMeta('One', (FootprintBase,), dict(__module__='modgen.pkg', _h=1, _explicit=False, _abstract=False, _collector=('zoo',),
                                                _footprint=[d1, d2]))
    ctx.check([t for t, _ in calls.log] == ['a', 'b'], 'decorators-applied', calls.log)
    ctx.check(cls.__dict__.get('_derived') is True, 'not-the-decorated-class')
    ctx.check(coll().items is not None and list(coll().items()) == [cls], 'registered', list(coll().items()))
    v = ctx.val('k', T0)
    o = coll().load(_emptywarning=False, k=v)
    ctx.check(o is not None and o.__class__ is cls and same(o.k, v), 'loaded')
    ctx.check([x for x in coll().instances()] == [o], 'tracked')


@harness('C29', bounds='decorators which are not callable, alone or in a list, in any position, in a footprint combined with others or not',
         covers=('refused', 'accepted'))
def not_callable(ctx):
    calls = Calls()
    good = calls.make('a')
    ok = True
    lst = []
    for i in range(ctx.choose('n', 3)):
        bad = ctx.pick('bad{}'.format(i), (False, 'text', None, 3))
        ok = ok and bad is False
        lst.append(good if bad is False else bad)
    args = (DecorativeFootprint(attr=dict(k=dict()), decorator=[good]),) if ctx.flag('combined') else ()
    deco = lst[0] if len(lst) == 1 and ctx.flag('alone') else lst
    ctx.cover('accepted' if ok else 'refused')
    try:
        fp = DecorativeFootprint(*args, attr=dict(m=dict()), decorator=deco)
    except ValueError:
        ctx.check(not ok, 'good-decorator-refused', lst)
    else:
        ctx.check(ok, 'bad-decorator-accepted', lst)
        ctx.check(fp.decorators == [good] * (len(args) + len(lst)), 'decorators')


@harness('C29', bounds='short names asked by the class, by the settings, refused or by default; 2 methods, either short name already defined by the '
         'class as a method, as an attribute, or inherited; class method and property; a class that inherits', covers=('short', 'defined', 'none'))
def short_names(ctx):
    glob = ctx.flag('setting')
    footprints.setup.shortnames = glob
    own = ctx.pick('own', (None, True, False))
    short = glob if own is None else own

    def make(name):
        def f(self, *a):
            return (name,) + a
        f.__name__ = name
        return f
    ping, hop, old = make('ping'), make('hop'), make('old')
    d = dict(__module__='modgen.pkg', _h=1, _explicit=False, _abstract=False, _collector=('zoo',))
    if own is not None:
        d['_mkshort'] = own
    at = dict(k=dict(type=T0))
    how = ctx.pick('taken', ('no', 'method', 'attribute', 'inherited'))
    base = FootprintBase
    if how == 'method':
        d['ping'] = old
    elif how == 'attribute':
        at['ping'] = dict(type=T0, optional=True)
    elif how == 'inherited':
        base = type('Mixin', (), dict(ping=old))
        base = DetMeta('Base', (FootprintBase,), dict(__module__='modgen.pkg', _h=3, _abstract=True, _collector=('zoo',), ping=old, _mkshort=False))
    d.update(footprint_ping=ping, footprint_hop=classmethod(hop) if ctx.flag('cm') else hop, _footprint=dict(attr=at))
    cls = DetMeta('One', (base,), d)
    v = ctx.val('k', T0)
    o = cls(k=v)
    ctx.cover('none' if not short else 'defined' if how in ('method', 'attribute') else 'short')
    ctx.check(o.footprint_ping(1) == ('ping', 1) and o.footprint_hop(2) == ('hop', 2) and same(o.k, v), 'long-names')
    if short:
        ctx.check(o.hop(3) == ('hop', 3), 'short-name')
    else:
        ctx.check(not hasattr(o, 'hop'), 'short-name-unasked')
    if how == 'attribute':
        ctx.check(o.ping is None, 'attribute-replaced')
    elif how == 'method' or (how == 'inherited' and not short):
        ctx.check(o.ping(4) == ('old', 4), 'method-replaced')
    elif short:
        ctx.check(o.ping(5) == ('ping', 5), 'short-name-ping')
    else:
        ctx.check(not hasattr(o, 'ping'), 'short-name-unasked')
    # inheriting does not ask for short names by itself
    sub = DetMeta('Two', (cls,), dict(__module__='modgen.pkg', _h=2, _explicit=False, _abstract=False, _collector=('zoo',), footprint_jump=make('jump')))
    ctx.check(hasattr(sub, 'jump') == glob, 'short-name-inherited')
    ctx.check(sub(k=v).footprint_jump() == ('jump',), 'long-names')
