"""C01, C02, C03: what an accepted description yields, single and two attributes."""
from ._common import *  # noqa: F401,F403
from ._common import (ABSENT, CONVERR, FootprintBase, Infeasible, Raw, RawH, RawU, T0, T1, Val, W0,
                      coll, footprints, harness, hashable, inputs_for, isin, mkclass, pick_val, same, sym_in)

ASSUMPTIONS = {}


class DefObj:
    """A default with a deferred value."""

    def __init__(self, v):
        self.v = v
        self.calls = 0

    def footprint_value(self):
        self.calls += 1
        return self.v


def gen_attr(ctx, n, rich=True, defaults=('none', 'raw', 't0', 'obj'), nvalues=(0, 1, 2), noutcast=(0, 1),
             nremap=(0, 1, 2), alias=(0, 1), argsopt=(False,), isclass=False):
    """A symbolic attribute declaration named ``n``; returns (fpdict, spec)."""
    sp = dict(name=n)
    fp = dict(type=T0)
    sp['type'] = T0
    sp['args'] = {}
    if len(argsopt) > 1 and ctx.pick(n + '.args', argsopt):
        sp['args'] = dict(p=1)
        fp['args'] = dict(p=1)
    sp['optional'] = ctx.flag(n + '.optional')
    fp['optional'] = sp['optional']
    sp['default'] = None
    if sp['optional']:
        d = ctx.pick(n + '.default', defaults)
        if d == 'raw':
            sp['default'] = fp['default'] = ctx.val(n + '.dflt', Raw)
        elif d == 't0':
            sp['default'] = fp['default'] = ctx.val(n + '.dflt', T0)
        elif d == 'obj':
            v = ctx.val(n + '.dflt', T0)
            sp['default'] = v
            fp['default'] = DefObj(v)
    na = ctx.pick(n + '.nalias', alias)
    sp['alias'] = [n + '_al{}'.format(i) for i in range(na)]
    if na:
        fp['alias'] = list(sp['alias'])
    nv = ctx.pick(n + '.nvalues', nvalues)
    sp['values'] = [ctx.val(n + '.v', T0) for _ in range(nv)]
    if nv:
        fp['values'] = list(sp['values'])
    no = ctx.pick(n + '.noutcast', noutcast)
    sp['outcast'] = [ctx.val(n + '.o', T0) for _ in range(no)]
    if no:
        fp['outcast'] = list(sp['outcast'])
    nr = ctx.pick(n + '.nremap', nremap)
    sp['remap'] = []
    for _ in range(nr):
        a = ctx.val(n + '.rk', Raw)
        b = ctx.val(n + '.rv', Raw)
        sp['remap'].append((a, b))
    if nr:
        # only acyclic tables with distinct keys are considered here (C08: the others)
        if nr == 1:
            ctx.assume(sp['remap'][0][0] != sp['remap'][0][1])
        else:
            (a, b), (c, d) = sp['remap']
            ctx.assume(ctx.and_(a != b, c != d, a != c, ctx.not_(ctx.and_(b == c, d == a))))
        fp['remap'] = dict(sp['remap'])
    return fp, sp


def spec_source(sp, desc, sdefaults):
    """Where the raw value of an attribute comes from (reference model)."""
    n = sp['name']
    v = desc.get(n, ABSENT)
    if v is not ABSENT and not (sp['optional'] and v is None):
        return 'desc', v
    for a in sp['alias']:
        v = desc.get(a, ABSENT)
        if v is not ABSENT and not (sp['optional'] and v is None):
            return 'alias', v
    v = sdefaults.get(n, ABSENT)
    if v is not ABSENT:
        return 'setup', v
    if sp['optional']:
        if sp['default'] is None:
            return 'undef', None
        return 'default', sp['default']
    return 'missing', None


REJECT = ('reject', None)


def spec_value(ctx, sp, src, v):
    """Expected final value: ('value', v), ('undef', None) or REJECT."""
    if src == 'undef':
        return ('undef', None)
    if v is None:
        return REJECT
    # remapping, followed to the end
    for _ in range(len(sp['remap']) + 1):
        if not hashable(v):
            break
        for a, b in sp['remap']:
            if a == v:
                v = b
                break
        else:
            break
    if not isinstance(v, sp['type']):
        try:
            v = sp['type'](v, **sp['args'])
        except CONVERR + (footprints.FootprintException,):
            return REJECT
    if sp['values'] and not isin(v, sp['values']):
        return REJECT
    if sp['outcast'] and isin(v, sp['outcast']):
        return REJECT
    return ('value', v)


def build_desc(ctx, sp, kinds=(Raw, T0, T1, RawU), akinds=(Raw, T0), skinds=(Raw, T0)):
    desc = {}
    v = inputs_for(ctx, 'in.' + sp['name'], kinds)
    if v is not ABSENT:
        desc[sp['name']] = v
    for a in sp['alias']:
        v = inputs_for(ctx, 'in.' + a, akinds)
        if v is not ABSENT:
            desc[a] = v
    sd = {}
    v = inputs_for(ctx, 'in.setup.' + sp['name'], skinds, none=False)
    if v is not ABSENT:
        sd[sp['name']] = v
    return desc, sd


def outcome(ctx, cls, desc, how):
    """Run the real resolution: the object, or None."""
    if how == 'load':
        return coll().load(_emptywarning=False, **desc)
    try:
        return cls(**desc)
    except footprints.FootprintFatalError:
        return None


def judge(ctx, prop, obj, items, desc={}):
    """items: list of (spec, source, raw value)."""
    if prop == 'C01':
        if obj is not None:
            ctx.cover('accepted')
            for sp, src, v in items:
                got = getattr(obj, sp['name'])
                if got is None:
                    ctx.check(sp['optional'] and src == 'undef', 'mandatory-or-given-attribute-is-none', sp['name'])
                    ctx.cover('undef')
                    continue
                ctx.check(isinstance(got, sp['type']), 'wrong-type', sp['name'])
                if sp['values']:
                    ctx.check(sym_in(ctx, got, sp['values']), 'not-in-values', sp['name'])
                    ctx.cover('values')
                if sp['outcast']:
                    ctx.check(ctx.not_(sym_in(ctx, got, sp['outcast'])), 'in-outcast', sp['name'])
                    ctx.cover('outcast')
        else:
            ctx.cover('rejected')
        return
    exp = [spec_value(ctx, sp, src, v) for sp, src, v in items]
    if prop == 'C03':
        ok = all(e is not REJECT for e in exp)
        if ok:
            ctx.cover('must-accept')
            ctx.check(obj is not None, 'valid-description-rejected')
        else:
            ctx.cover('must-reject')
        return
    if prop == 'C02':
        if any(e is REJECT for e in exp):
            return
        if obj is None:
            # (an explicit None given to an optional attribute, or to its aliases, is not a value: see also C03)
            ctx.check(not any(sp['optional'] and desc.get(n, 0) is None for sp, _, _ in items for n in [sp['name']] + sp['alias']),
                      'none-is-not-a-value')
            return
        for (sp, src, v), e in zip(items, exp):
            got = getattr(obj, sp['name'])
            ctx.cover('src-' + src)
            if e[0] == 'undef':
                ctx.check(got is None, 'undefined-optional-is-not-none', sp['name'])
            else:
                ctx.check(same(got, e[1]), 'wrong-value', '{} from {}: {!r} instead of {!r}'.format(
                    sp['name'], src, got, e[1]))



class Both(T0):
    """A type whose conversion may also fail with a TypeError or a footprint error."""
    __slots__ = ()
    _convname = 'Both'
    _errors = (ValueError, TypeError, footprints.FootprintException)


def run(ctx, prop, fps, sps, desc, sd, how, extra=None):
    cls = mkclass('One', dict(attr=fps, **(extra or {})))
    footprints.setup.defaults = sd
    obj = outcome(ctx, cls, desc, how)
    items = []
    for sp in sps:
        src, v = spec_source(sp, desc, sd)
        items.append((sp, src, v))
    judge(ctx, prop, obj, items, desc)


def sources(ctx, prop):
    """All the sources of a value, few constraints."""
    fp, sp = gen_attr(ctx, 'k', nvalues=(0, 1), noutcast=(0,), nremap=(0, 1), alias=(0, 1))
    desc, sd = build_desc(ctx, sp)
    run(ctx, prop, dict(k=fp), [sp], desc, sd, ctx.pick('how', ('load', 'direct')))


def two_aliases(ctx, prop):
    fp, sp = gen_attr(ctx, 'k', nvalues=(0,), noutcast=(0,), nremap=(0,), alias=(2,), defaults=('none', 'raw'))
    kinds = (Raw, T0)
    desc, sd = build_desc(ctx, sp, kinds=kinds, akinds=kinds, skinds=(Raw,))
    # which of two given aliases prevails is not specified: at most one is given
    ctx.assume(sum(1 for a in sp['alias'] if desc.get(a) is not None) < 2)
    run(ctx, prop, dict(k=fp), [sp], desc, sd, 'load')


class T0H(T0):
    """A value of the expected type which cannot be hashed (like a tuple of lists)."""
    __slots__ = ()

    def __hash__(self):
        raise TypeError('unhashable value')


def constraints(ctx, prop):
    """All the constraints on a value given by the description or by default."""
    fp, sp = gen_attr(ctx, 'k', nvalues=(0, 1, 2), noutcast=(0, 1, 2), nremap=(0, 1, 2), alias=(0,),
                      defaults=('raw', 't0'), argsopt=(False, True))
    v = inputs_for(ctx, 'in.k', (Raw, T0, T1, RawU, RawH, T0H), none=False)
    desc = {} if v is ABSENT else {'k': v}
    run(ctx, prop, dict(k=fp), [sp], desc, {}, 'load')


def errors(ctx, prop):
    """Conversions failing with each of the documented error kinds."""
    sp = dict(name='k', type=Both, args={}, optional=ctx.flag('optional'), default=None, alias=[], values=[],
              outcast=[], remap=[])
    fp = dict(type=Both, optional=sp['optional'])
    nv = ctx.choose('nv', 2)
    if nv:
        sp['values'] = [ctx.val('v', Both)]
        fp['values'] = list(sp['values'])
    no = ctx.choose('no', 2)
    if no:
        sp['outcast'] = [ctx.val('o', Both)]
        fp['outcast'] = list(sp['outcast'])
    v = inputs_for(ctx, 'in.k', (Raw, RawU, W0, Both), none=False)
    desc = {} if v is ABSENT else {'k': v}
    run(ctx, prop, dict(k=fp), [sp], desc, {}, ctx.pick('how', ('load', 'direct')))


class Sub(T1):
    __slots__ = ()


def classes(ctx, prop):
    """Class-valued attributes (isclass)."""
    opts = (T0, T1, Sub, W0, 'inst', 'val', 'str')
    opt = ctx.flag('optional')
    fp = dict(type=T1, isclass=True, optional=opt)
    if opt and ctx.flag('default'):
        fp['default'] = T1
    vals = ctx.pick('values', ((), (T1,), (Sub, T1), (Sub,)))
    out = ctx.pick('outcast', ((), (Sub,), (T1,)))
    if vals:
        fp['values'] = list(vals)
    if out:
        fp['outcast'] = list(out)
    o = ctx.pick('given', (ABSENT,) + opts)
    if o is ABSENT:
        desc = {}
    else:
        desc = dict(k={'inst': ctx.val('i', T1), 'val': ctx.val('r', RawU), 'str': 'T1'}.get(o, o)
                    if isinstance(o, str) else o)
    cls = mkclass('One', dict(attr=dict(k=fp)))
    obj = outcome(ctx, cls, desc, ctx.pick('how', ('load', 'direct')))
    if o is ABSENT:
        ok = opt
        want = fp.get('default', None)
    else:
        ok = o in (T1, Sub)
        want = o
    if want in (T1, Sub):
        ok = ok and want not in out and (not vals or want in vals)
    if prop == 'C01':
        if obj is not None:
            ctx.cover('accepted')
            ctx.check(obj.k is None and opt and o is ABSENT or
                      isinstance(obj.k, type) and issubclass(obj.k, T1), 'not-a-subclass')
            ctx.check(obj.k is None or (not vals or obj.k in vals) and obj.k not in out, 'constraints')
    elif prop == 'C03':
        ctx.cover('must-accept' if ok else 'must-reject')
        ctx.check((obj is not None) == ok, 'class-valued')
    else:
        if obj is not None and ok:
            ctx.cover('src-desc')
            ctx.check(obj.k is want, 'class-valued-value')


def pairs(ctx, prop):
    """Two attributes: the constraints of one never leak on the other."""
    fps, sps, desc, sd = {}, [], {}, {}
    for n in ('kind', 'k2'):
        fp, sp = gen_attr(ctx, n, nvalues=(0, 1), noutcast=(0, 1) if n == 'k2' else (0,), nremap=(0, 1) if n == 'kind' else (0,),
                          alias=(0,), defaults=('none', 't0'))
        fps[n] = fp
        sps.append(sp)
        d, s = build_desc(ctx, sp, kinds=(Raw, T1), skinds=(T0,))
        desc.update(d)
        sd.update(s)
    run(ctx, prop, fps, sps, desc, sd, 'load')


def text_none(ctx, prop):
    """Text attributes: plain texts, and the special text 'None' which counts as no value."""
    # (the last one is equal to an internal marker, without being the same object)
    pool = ('', 'abc', 'None', 'none', '0', 'None ', ''.join(['__unk', 'nown__']))
    opt = ctx.flag('optional')
    fp = dict(optional=opt)
    if opt:
        dflt = ctx.pick('default', (None,) + pool)
        fp['default'] = dflt
    else:
        dflt = None
    given = ctx.pick('given', (ABSENT, None, 0, 12, True) + pool)
    if ctx.flag('values'):
        vals = ['', 'abc', 'None', '0', '12']
        fp['values'] = vals
    else:
        vals = None
    desc = {} if given is ABSENT else dict(k=given)
    cls = mkclass('One', dict(attr=dict(k=fp)))
    obj = outcome(ctx, cls, desc, ctx.pick('how', ('load', 'direct')))
    src = given
    if given is ABSENT or (given is None and opt):
        src = dflt if opt else None
        undef = opt and dflt is None
    else:
        undef = False
    exp = None if undef else (None if src is None else str(src))
    ok = undef or (exp is not None and exp != 'None' and (vals is None or exp in vals))
    if prop == 'C03':
        ctx.cover('must-accept' if ok else 'must-reject')
        ctx.check((obj is not None) == ok, 'text', (given, dflt))
    elif obj is not None:
        ctx.cover('accepted' if prop == 'C01' else 'src-desc')
        if prop == 'C02':
            ctx.check(same(obj.k, exp), 'text-value', (given, dflt, obj.k))
        else:
            ctx.check(obj.k is None and undef or isinstance(obj.k, str) and obj.k != 'None' and
                      (vals is None or obj.k in vals), 'text-valid', (given, dflt, obj.k))


def _register():
    covers = dict(
        sources=dict(C01=('accepted', 'rejected', 'values', 'undef'),
                     C02=('src-desc', 'src-alias', 'src-setup', 'src-default', 'src-undef'),
                     C03=('must-accept', 'must-reject')),
        two_aliases=dict(C01=('accepted',), C02=('src-alias',), C03=('must-accept', 'must-reject')),
        constraints=dict(C01=('accepted', 'rejected', 'values', 'outcast'), C02=('src-desc', 'src-default'),
                         C03=('must-accept', 'must-reject')),
        errors=dict(C01=('accepted', 'rejected'), C02=('src-desc',), C03=('must-accept', 'must-reject')),
        classes=dict(C01=('accepted',), C02=('src-desc',), C03=('must-accept', 'must-reject')),
        pairs=dict(C01=('accepted', 'rejected', 'values', 'outcast'), C02=('src-desc', 'src-default', 'src-setup'),
                   C03=('must-accept', 'must-reject')),
        text_none=dict(C01=('accepted',), C02=('src-desc',), C03=('must-accept', 'must-reject')),
    )
    bounds = dict(
        sources='1 attribute; mandatory/optional; default none/raw/typed/deferred; 0-1 alias; 0-1 value; 0-1 remap entry; '
                'description value absent/None/raw/typed/subtyped/unhashable; alias absent/None/raw/typed; global default '
                'absent/raw/typed; load or direct instantiation',
        two_aliases='1 attribute with 2 aliases, at most one given',
        constraints='1 attribute; 0-2 values, 0-2 outcast, 0-2 acyclic remap entries, conversion arguments or not; value '
                    'absent/raw/typed/subtyped/unhashable (two raw forms, one typed)',
        errors='1 attribute whose conversion may fail with ValueError, TypeError or a footprint exception; 0-1 value, 0-1 outcast',
        classes='1 class-valued attribute with 0-2 authorised and 0-1 excluded classes; given classes, instances, unhashable values, texts',
        pairs='2 attributes (one being a default fast key) with 0-1 value, outcast or remap each',
        text_none='1 text attribute; texts among empty/None-like/digits/one equal to an internal marker (concrete pool)')
    for f in (sources, two_aliases, constraints, errors, classes, pairs, text_none):
        for prop in ('C01', 'C02', 'C03'):
            harness(prop, name=f.__name__, bounds=bounds[f.__name__], covers=covers[f.__name__][prop])(
                lambda ctx, f=f, prop=prop: f(ctx, prop))


_register()


@harness('C02', bounds='an optional attribute with a deferred default whose value changes between 3 resolutions (load, search, direct or refused), '
         'declared by the class or inherited; values given or not, remapped or not', covers=('deferred', 'given'))
def deferred_defaults(ctx):
    now = []
    a = dict(type=T0, optional=True, default=type('Later', (), dict(footprint_value=lambda self: now[-1]))())
    r = ctx.val('ra', T0), ctx.val('rb', T0)
    if ctx.flag('remap'):
        ctx.assume(r[0] != r[1])
        a['remap'] = {r[0]: r[1]}
    cls = mkclass('One', dict(attr=dict(k=a, m=dict(type=T0))))
    if ctx.flag('inherited'):
        coll().discard(cls)
        cls = mkclass('Two', dict(attr=dict(o=dict(type=T0, optional=True))), base=cls, order=2)
    for i in range(3):
        now.append(ctx.val('d{}'.format(i), T0))
        desc = dict(m=ctx.val('m', T0))
        exp = now[-1]
        if ctx.flag('given{}'.format(i)):
            exp = desc['k'] = ctx.val('in{}'.format(i), T0)
            ctx.cover('given')
        else:
            ctx.cover('deferred')
        if 'remap' in a and exp == r[0]:
            exp = r[1]
        how = ctx.pick('how{}'.format(i), ('load', 'any', 'direct', 'refused'))
        if how == 'load':
            o = coll().load(**desc)
        elif how == 'any':
            o = coll().find_any(desc)
        elif how == 'direct':
            o = cls(**desc)
        else:
            del desc['m']
            ctx.check(coll().find_any(desc) is None, 'invalid-accepted')
            continue
        ctx.check(o is not None and same(o.k, exp), 'deferred-default', (i, how))


@harness('C02', bounds='direct instantiation from up to 2 dictionaries, another object and keywords, each giving an attribute (by name or alias, possibly None) or '
         'not; already checked or not', covers=('keyword', 'first', 'second', 'default'))
def constructor(ctx):
    own = ctx.val('own', T0)
    fp = dict(k=dict(type=T0, optional=True, default=own, alias=['al']), m=dict(type=T0))
    cls = mkclass('One', dict(attr=fp))
    m = ctx.val('m', T0)
    checked = ctx.flag('checked')
    holder = ctx.pick('m-in', ('first', 'keyword'))
    parts = []
    for n in ('first', 'second', 'keyword'):
        d = {}
        v = ctx.pick(n, ('no', 'value', 'none') if checked else ('no', 'value', 'none', 'alias'))
        if v != 'no':
            d['al' if v == 'alias' else 'k'] = None if v == 'none' else ctx.val('k-' + n, T0)
        if n == holder:
            d['m'] = m
        parts.append(d)
    copies = [dict(d) for d in parts]
    merged = {}
    for d in parts:
        merged.update(d)
    if checked:
        ctx.assume('k' in merged)
    args = [parts[0], parts[1]]
    if ctx.flag('other'):
        args.insert(ctx.choose('where', 3), ctx.pick('what', (None, 'text', 7)))
    o = cls(*args, checked=checked, **parts[2]) if checked or ctx.flag('explicit') else cls(*args, **parts[2])
    ctx.check(all(list(d) == list(c) and all(d[k] is c[k] for k in c) for d, c in zip(parts, copies)), 'argument-modified')
    exp = merged.get('k')
    if exp is None and not checked:
        exp = merged.get('al')
        if exp is None:
            exp = own
    ctx.cover('default' if exp is own else 'keyword' if exp is not None and (exp is parts[2].get('k') or exp is parts[2].get('al')) else
              'second' if exp is not None and (exp is parts[1].get('k') or exp is parts[1].get('al')) else 'first')
    ctx.check(o.k is None if exp is None else same(o.k, exp) if exp is own else o.k is exp, 'value', (o.k, exp))
    ctx.check(o.m is m, 'other-attribute')
    if not checked:
        # neither the object nor what it was built from sees the changes of the other one
        parts[0]['m'] = parts[2]['m'] = ctx.val('changed', T0)
        ctx.check(o.m is m, 'attributes-shared')
