"""C16, C17, C18, C19, C20: live objects, default loading, pickup, copies."""
import copy
import gc
import pickle
import sys
import types
import weakref

from footprints import config, priorities, reporting

from ._common import *  # noqa: F401,F403
from ._common import (ABSENT, FootprintBase, T0, T1, alive, internal, Raw, RawU, coll, footprints, harness, inputs_for, isin, mkclass, same)
from symx.core import Infeasible

ASSUMPTIONS = {}

MODNAME = 'modgen.pkg'


def mk(name, fpdef, **kw):
    """A class with deterministic instance hashes, known to pickle."""
    kw.setdefault('__hash__', lambda self: 3)
    cls = mkclass(name, fpdef, **kw)
    for m in ('modgen', MODNAME):
        if m not in sys.modules:
            sys.modules[m] = types.ModuleType(m)
    setattr(sys.modules[MODNAME], name, cls)
    return cls


def attrs_of(o):
    d = o.__dict__.get('_attributes')
    if not isinstance(d, dict):     # (kept somewhere else)
        names = set(o.footprint_attributes)
        for d in list(o.__dict__.values()):
            if isinstance(d, dict) and set(d) == names:
                break
        else:
            d = {k: UNDEF if o.footprint_getattr(k) is None else o.footprint_getattr(k) for k in names}
    return dict(d)


def same_attrs(ctx, o, old, label):
    new = attrs_of(o)
    ctx.check(sorted(new) == sorted(old), label + '-keys', (sorted(new), sorted(old)))
    for k, v in old.items():
        ctx.check(same(new[k], v), label + '-value', k)


# -- C16 -------------------------------------------------------------------------

def conv(v):
    """Reference conversion to T0: (ok, value)."""
    if isinstance(v, T0):
        return True, v
    try:
        return True, T0(v)
    except (ValueError, TypeError):
        return False, None


def ref_resolve(desc, values, dflt):
    """Reference resolution for attributes k (mandatory) and x (optional): dict or None."""
    k = desc.get('k')
    if k is None:
        return None
    ok, k = conv(k)
    if not ok or (values and not isin(k, values)):
        return None
    x = desc.get('x')
    if x is None:
        x = dflt
    if x is not None:
        ok, x = conv(x)
        if not ok:
            return None
    return dict(k=k, x=x)


UNDEF = footprints.UNKNOWN


def default_case(ctx, ninst, nclass, mods, rkinds, values=(False, True), how=('method', 'module')):
    dflt = ctx.val('dx', T0) if ctx.flag('default') else None
    vals = [ctx.val('v', T0)] if ctx.pick('values', values) else []
    classes = []
    for i in range(nclass):
        at = dict(k=dict(type=T0, access='rwd'), x=dict(type=T0, optional=True, access='rwd'))
        if dflt is not None:
            at['x']['default'] = dflt
        if vals:
            at['k']['values'] = list(vals)
        classes.append(mk('C{}'.format(i), dict(attr=at), order=i + 1, _reusable=ctx.flag('reusable{}'.format(i))))
    insts = []
    for j in range(ninst):
        cl = classes[ctx.choose('class{}'.format(j), nclass)]
        d = dict(k=vals[0] if vals else ctx.val('i{}k'.format(j), T0))
        if ctx.flag('i{}x'.format(j)):
            d['x'] = ctx.val('i{}x'.format(j), T0)
        o = cl(**d)
        mod = ctx.pick('mod{}'.format(j), mods)
        if mod == 'set':
            o.x = ctx.val('new{}'.format(j), T0)
        elif mod == 'delx':
            del o.x
        elif mod == 'delk':
            del o.k
        insts.append(o)
    desc = {}
    for n in ('k', 'x'):
        v = inputs_for(ctx, 'in.' + n, rkinds, none=(n == 'x'))
        if v is not ABSENT:
            desc[n] = v
    before = [attrs_of(o) for o in insts]
    ref = ref_resolve(desc, vals, dflt)
    good = []
    for o in insts:
        if ref is None or not o.footprint_reusable():
            continue
        a = attrs_of(o)
        if set(a) != {'k', 'x'}:
            continue
        okk = a['k'] == ref['k']
        if not okk:
            continue
        if ref['x'] is None or a['x'] is UNDEF:
            if ref['x'] is None and a['x'] is UNDEF:
                good.append(o)
            continue
        if a['x'] == ref['x']:
            good.append(o)
    if ctx.pick('how', how) == 'method':
        obj = coll().default(_emptywarning=False, **desc)
    else:
        obj = footprints.default(tag='zoo', _emptywarning=False, **desc)
    for o, a in zip(insts, before):
        same_attrs(ctx, o, a, 'instance-modified')
    if good:
        ctx.cover('reused')
        ctx.check(any(obj is o for o in good), 'not-reused' if not any(obj is o for o in insts) else 'wrong-reuse')
    else:
        ctx.cover('loaded')
        ctx.check(not any(obj is o for o in insts), 'wrong-reuse')
        if ref is None:
            ctx.check(obj is None, 'object-from-invalid-description')
        else:
            ctx.check(obj is not None, 'nothing-loaded')
            ctx.check(same(obj.k, ref['k']), 'loaded-value')
            ctx.check(obj.x is None if ref['x'] is None else same(obj.x, ref['x']), 'loaded-value-x')


@harness('C16', bounds='1 live instance of 1 class (reusable or not), modified (attribute assigned or deleted) or not; 2 attributes, default, 0-1 '
         'value; request absent/None/raw/typed; method or module function', covers=('reused', 'loaded'))
def one_instance(ctx):
    default_case(ctx, 1, 1, ('no', 'set', 'delx', 'delk'), (Raw, T0))


@harness('C16', bounds='2 live instances of 2 classes, assigned or not; requests absent/typed', covers=('reused', 'loaded'))
def two_instances(ctx):
    default_case(ctx, 2, 2, ('no', 'set'), (T0,), values=(False,), how=('method',))


@harness('C16', bounds='2 live instances of 1 class, modified or not; requests absent/raw', covers=('reused', 'loaded'))
def modified_instances(ctx):
    default_case(ctx, 2, 1, ('no', 'set', 'delx', 'delk'), (Raw,), values=(False, True), how=('method',))


@harness('C16', bounds='a live instance dropped, or made under other global defaults, before the request', covers=('reused', 'loaded'))
def changed_world(ctx):
    cls = mk('C', dict(attr=dict(k=dict(type=T0), x=dict(type=T0, optional=True))))
    k = ctx.val('k', T0)
    g1, g2 = ctx.val('g1', T0), ctx.val('g2', T0)
    h1 = ctx.pick('d1', (None, 'set'))
    h2 = ctx.pick('d2', (None, 'set'))
    footprints.setup.defaults = dict(x=g1) if h1 else {}
    o = cls(k=k)
    wr = weakref.ref(o)
    footprints.setup.defaults = dict(x=g2) if h2 else {}
    if ctx.flag('drop'):
        del o
        obj = coll().default(k=k)
        ctx.check(wr() is None, 'instance-kept-alive')
        ctx.check(same(obj.k, k), 'loaded')
        ctx.check(same(obj.x, g2) if h2 else obj.x is None, 'loaded-x')
        ctx.cover('loaded')
        return
    obj = coll().default(k=k)
    if h1 and h2:
        reuse = bool(g1 == g2)
    else:
        reuse = not h1 and not h2
    ctx.cover('reused' if reuse else 'loaded')
    ctx.check((obj is o) == reuse, 'reuse')
    ctx.check(same(obj.x, g2) if h2 else obj.x is None, 'value')


@harness('C16', bounds='requests without any key at all, by name or by alias, or with hidden keys: 1 live instance, all its attributes being given by the settings, declared '
         'defaults or not at all; modified or not', covers=('reused', 'loaded'))
def bare_request(ctx):
    glob, own = ctx.val('glob', T0), ctx.val('own', T0)
    kind = ctx.pick('kind', ('mandatory', 'default', 'free'))
    k = dict(mandatory=dict(type=T0), default=dict(type=T0, optional=True, default=own), free=dict(type=T0, optional=True))[kind]
    cls = mk('C', dict(attr=dict(k=dict(k, access='rwd', alias=['al']))), _reusable=True)
    footprints.setup.defaults = {'k': glob} if ctx.flag('global') else {}
    given = ctx.val('given', T0)
    o = cls(k=given)
    mod = ctx.pick('mod', ('no', 'set', 'del'))
    if mod == 'set':
        o.k = given = ctx.val('new', T0)
    elif mod == 'del':
        del o.k
    desc = {}
    req = ctx.pick('request', ('nothing', 'name', 'alias', 'hidden', 'other'))
    if req in ('name', 'alias'):
        desc['k' if req == 'name' else 'al'] = ctx.val('req', T0)
    elif req == 'hidden':
        desc['_report'] = False
    elif req == 'other':
        desc['u'] = ctx.val('u', Raw)
    want = desc.get('k', desc.get('al', glob if footprints.setup.defaults else own if kind == 'default' else None))
    obj = coll().default(**desc) if ctx.flag('method') else footprints.default(tag='zoo', **desc)
    if want is not None and mod != 'del' and want == given:
        ctx.cover('reused')
        ctx.check(obj is o, 'not-reused')
        return
    ctx.cover('loaded')
    ctx.check(obj is not o, 'wrong-reuse')
    if want is None and kind == 'mandatory':
        ctx.check(obj is None, 'object-from-invalid-description')
    else:
        ctx.check(obj is not None and (obj.k is None if want is None else same(obj.k, want)), 'loaded-value')


@harness('C16', bounds='a live instance whose weak attribute refers to an object alive or not, given again, replaced or not given',
         covers=('reused', 'loaded', 'dead'))
def weak_attribute(ctx):
    mk('C', dict(attr=dict(k=dict(type=T0), x=dict(type=T0, optional=True, access=ctx.pick('access', ('rxx-weak', 'rwd-weak', 'rxx'))))))
    k, x, y = ctx.val('k', T0), ctx.val('x', T0), ctx.val('y', T0)
    o = coll().load(k=k, x=x)
    same_x = bool(x == y)
    weak = 'weak' in o.footprint_access('x')
    dead = ctx.flag('dead')
    if dead:
        del x
    desc = dict(k=k)
    if ctx.flag('again'):
        desc['x'] = y
    obj = coll().default(**desc)
    reuse = 'x' in desc and same_x and not (dead and weak)
    if dead and weak:
        ctx.cover('dead')
    ctx.cover('reused' if reuse else 'loaded')
    ctx.check((obj is o) == reuse, 'reuse')
    ctx.check(obj is not None and same(obj.k, k), 'value')


# -- C17 -------------------------------------------------------------------------

def tracked(c):
    return list(c.instances())


def check_live(ctx, live, where, label):
    for tag, classes in where.items():
        want = [o for o in live if o.__class__ in classes]
        got = tracked(coll(tag))
        ctx.check(len(got) == len(want) and all(any(g is w for g in got) for w in want), label,
                  '{}: {} instead of {}'.format(tag, len(got), len(want)))


def create(ctx, cls, how, live, k, tag):
    if how == 'load':
        return coll(tag).load(k=k)
    if how == 'direct':
        return cls(k=k)
    src = [o for o in live if o.__class__ is cls]
    if not src:
        return None
    if how == 'clone':
        return src[-1].footprint_clone()
    if how == 'clonefull':
        return src[0].footprint_clone(full=True, extra=dict(k=k))
    if how == 'pickle':
        return pickle.loads(pickle.dumps(src[-1]))
    if how == 'copy':
        return copy.copy(src[0])
    if how == 'deepcopy':
        return copy.deepcopy(src[-1])
    if how == 'default':
        return coll(tag).default(k=k)


HOWS = ('load', 'direct', 'clone', 'clonefull', 'pickle', 'copy', 'deepcopy', 'default')


def track_case(ctx, n, hows):
    # (the first class is the first or the second one of its second collector, reusable or not)
    first = ctx.flag('bfirst')
    reuse = dict(_reusable=ctx.flag('reusable'))
    if first:
        B = mk('B', dict(attr=dict(k=dict(type=T0))), tag='zub')
    A = mk('A', dict(attr=dict(k=dict(type=T0))), tag=('zoo', 'zub'), **reuse)
    if not first:
        B = mk('B', dict(attr=dict(k=dict(type=T0))), tag='zub', **reuse)
    where = {'zoo': {A}, 'zub': {A, B}}
    live = []
    for step in range(n):
        op = ctx.pick('op', ('new',) + (('drop', 'fail') if live else ()))
        if op == 'new':
            cls = A if step == 0 else ctx.pick('cls', (A, B))
            how = ctx.pick('how', hows if live else ('load', 'direct'))
            if how in ('load', 'default') and cls is B:
                continue
            o = create(ctx, cls, how, live, ctx.val('k', T0), 'zoo')
            if o is not None and not any(o is x for x in live):
                live.append(o)
                ctx.cover('new-' + how)
        elif op == 'drop':
            i = ctx.choose('which', len(live))
            wr = weakref.ref(live[i])
            o = None
            del live[i]
            ctx.check(wr() is None, 'kept-alive')
            ctx.cover('dropped')
        else:
            # a failed creation leaves nothing behind
            try:
                A()
            except footprints.FootprintFatalError:
                pass
            ctx.check(coll('zoo').load(_emptywarning=False) is None, 'failed-load')
        check_live(ctx, live, where, 'tracked')


@harness('C17', bounds='2 classes (reusable or not) in 2 collectors; 3 creations (load, direct, clone, full clone, pickle, copy, deep copy, default), failures or '
         'drops in any order', covers=('dropped',) + tuple('new-' + h for h in HOWS))
def three_events(ctx):
    track_case(ctx, 3, HOWS)


@harness('C17', bounds='2 classes in 2 collectors; 4 events, instances made by load, direct or unpickling', covers=('dropped', 'new-pickle'))
def four_events(ctx):
    track_case(ctx, 4, ('load', 'direct', 'pickle'))


@harness('C17', bounds='up to 3 instances of 2 classes with different attributes; any criteria on 2 attributes and an unknown one, by method '
         'or module function', covers=('match', 'nomatch'))
def grep(ctx):
    A = mk('A', dict(attr=dict(k=dict(type=T0), x=dict(type=T0, optional=True, access='rwd'))))
    B = mk('B', dict(attr=dict(k=dict(type=T0))))
    objs = []
    for i in range(ctx.pick('n', (1, 3))):
        cl = ctx.pick('cls', (A, B)) if i else A
        d = dict(k=ctx.val('k', T0))
        if cl is A and ctx.flag('hasx'):
            d['x'] = ctx.val('x', T0)
        o = cl(**d)
        if 'x' in d and i == 0 and ctx.flag('del'):
            del o.x
        objs.append(o)
    crit = {}
    for n in ('k', 'x'):
        v = inputs_for(ctx, 'c.' + n, (T0, Raw) if n == 'k' else (T0,), none=(n == 'x'))
        if v is not ABSENT:
            crit[n] = v
    extra = ctx.pick('extra', ('no', 'unknown', 'realkind'))
    if extra == 'unknown':
        crit['nope'] = None
    elif extra == 'realkind':
        crit['realkind'] = 'footprintbase'
    got = coll().grep(**crit) if ctx.flag('method') else footprints.grep(**crit)
    for o in objs:
        ok = True
        for n, v in crit.items():
            if n == 'nope':
                ok = False
            elif n == 'realkind':
                pass
            elif n == 'x' and (o.__class__ is B or 'x' not in attrs_of(o)):
                ok = False
            else:
                cur = attrs_of(o)[n]
                cur = None if cur is UNDEF else cur
                ok = ok and bool(cur == v)
            if not ok:
                break
        ctx.cover('match' if ok else 'nomatch')
        ctx.check((sum(1 for g in got if g is o) == 1) == ok, 'grep')
    ctx.check(len(got) <= len(objs), 'grep-more')


@harness('C17', bounds='up to 2 instances of 2 classes in 2 collectors, one of which is explicitly withdrawn (once, twice, by another collector)',
         covers=('withdrawn',))
def withdrawn(ctx):
    A = mk('A', dict(attr=dict(k=dict(type=T0))), tag=('zoo', 'farm'))
    B = mk('B', dict(attr=dict(k=dict(type=T0))), order=2)
    v = [ctx.val('a', T0), ctx.val('b', T0)]
    objs = [A(k=v[0]), ctx.pick('cls', (A, B))(k=v[1])]
    exp = {t: [o for o in objs if t == 'zoo' or o.__class__ is A] for t in ('zoo', 'farm')}
    x = ctx.pick('who', objs)
    t = ctx.pick('from', ('zoo', 'farm'))
    for _ in range(ctx.pick('times', (1, 2))):
        coll(t).delobsitem(x, dict())
    ctx.cover('withdrawn')
    exp[t] = [o for o in exp[t] if o is not x]
    c = ctx.val('c', T0)
    for n in exp:
        got = coll(n).instances()
        ctx.check(sorted(map(id, got)) == sorted(map(id, exp[n])), 'tracked', (n, got))
        got = coll(n).grep(k=c)
        for o in objs:
            ctx.check((o.k == c) if any(o is g for g in got) else (o not in exp[n] or ctx.not_(o.k == c)), 'grep', n)
    # a change of the object does not bring it back
    coll(t).updobsitem(x, dict())
    ctx.check(sorted(map(id, coll(t).instances())) == sorted(map(id, exp[t])), 'tracked-after-update')


@harness('C17', bounds='2 instances with a weak attribute whose object is alive or not; grep on it', covers=('match', 'nomatch'))
def grep_weak(ctx):
    A = mk('A', dict(attr=dict(k=dict(type=T0, access='rxx-weak'))))
    v = [ctx.val('a', T0), ctx.val('b', T0)]
    objs = [A(k=x) for x in v]
    c = ctx.val('c', T0)
    want = [bool(x == c) for x in v]
    d = ctx.pick('dead', (None, 0, 1))
    if d is not None:
        v[d] = None
        want[d] = False
    got = coll().grep(k=c)
    for o, w in zip(objs, want):
        ctx.cover('match' if w else 'nomatch')
        ctx.check(any(g is o for g in got) == w, 'grep-weak')


# -- C18 -------------------------------------------------------------------------

@harness('C18', bounds='2 classes (0-2 attributes with alias); descriptions with any subset of attribute, alias, unrelated, other class and hidden '
         'keys; object already present, None or absent; collector method or module function',
         covers=('found', 'notfound', 'kept'))
def pickup(ctx):
    v = ctx.val('v', T0)
    # (the truth value of an object, whatever it is, does not matter)
    truth = ctx.pick('truth', ({}, dict(__len__=lambda s: 0), dict(__bool__=lambda s: False)))
    A = mk('A', dict(attr=dict(k=dict(type=T0, values=[v]), x=dict(type=T0, optional=True, alias=['al', 'al2'])),
                     priority=dict(level=priorities.top.DEBUG)), order=1, **truth)
    B = mk('B', dict(attr=dict(k=dict(type=T0, values=[v]), other=dict(type=T0, alias=['oal']))), order=2, **truth)
    desc = {}
    for n in ('k', 'x', 'al', 'al2', 'other', 'oal', 'free'):
        if n == 'k' or ctx.flag('has.' + n):
            desc[n] = ctx.val('in.' + n, T0)
    hid = ctx.pick('hidden', ('no', 'one', 'options'))
    if hid == 'one':
        desc['_hidden'] = 1
    elif hid == 'options':
        desc['_report'] = False
        desc['_report_style'] = 1
    desc['_emptywarning'] = False
    have = ctx.pick('have', ('absent', 'none', 'A', 'B'))
    if have == 'none':
        desc['zoo'] = None
    elif have == 'A':
        desc['zoo'] = held = A(k=v)
    elif have == 'B':
        desc['zoo'] = held = B(k=v, other=v)
    orig = dict(desc)
    seen = len(tracked(coll()))
    how = ctx.pick('how', ('coll', 'module', 'cache'))
    if how == 'coll':
        out = coll().pickup(desc)
    elif how == 'module':
        desc['tag'] = 'zoo'
        out = footprints.pickup(desc)
    else:
        out = coll().pickup_and_cache(desc)[0]
    ctx.check(out is desc, 'another-description')
    ctx.check('zoo' in out, 'no-entry')
    if have in ('A', 'B'):
        ctx.cover('kept')
        ctx.check(out['zoo'] is held, 'held-object-replaced')
        ctx.check(len(tracked(coll())) == seen, 'search-not-skipped')
        gone = held.__class__
    else:
        match = bool(orig['k'] == v)
        if match:
            ctx.cover('found')
            ctx.check(out['zoo'].__class__ is A or ('other' in orig or 'oal' in orig) and out['zoo'].__class__ is B, 'selected')
            ctx.check(out['zoo'].__class__ is A, 'selected-level')
        else:
            ctx.cover('notfound')
            ctx.check(out['zoo'] is None, 'entry-is-not-none')
        gone = A if match else None
    keys = {'A': ('k', 'x', 'al', 'al2'), 'B': ('k', 'other', 'oal')}.get(gone.__name__ if gone else None, ())
    want = {n for n in orig if not n.startswith('_') and n not in keys} | {'zoo'}
    ctx.check(set(out) == want, 'keys', '{} instead of {}'.format(sorted(out), sorted(want)))
    for n in want - {'zoo'}:
        ctx.check(out[n] is orig[n], 'value-changed', n)


KEYS = ('_hidden', '__x', '_', '__', '_k', '_report_', 'k_', 'al_', 'report', 'emptywarning', 'K', 'x_y', 'kk', '', ' k', 'tag_', 'zoos', '_zoo',
        'footprint', '__class__')


@harness('C18', bounds='any two keys among 20 (underscores at any place, near the names of attributes, aliases and collectors) with a value or None, '
         'attributes given None, a value or nothing, by name or alias', covers=('found', 'notfound'))
def odd_keys(ctx):
    v = ctx.val('v', T0)
    A = mk('A', dict(attr=dict(k=dict(type=T0, values=[v]), x=dict(type=T0, optional=True, alias=['al']))), order=1)
    desc = dict(k=ctx.val('in.k', T0), _emptywarning=False)
    for n in ('x', 'al'):
        g = ctx.pick('in.' + n, (ABSENT, None, T0))
        if g is not ABSENT:
            desc[n] = g and ctx.val('in.' + n, g)
    a = ctx.choose('key1', len(KEYS))
    b = ctx.choose('key2', len(KEYS))
    if b >= a:
        raise Infeasible()
    for i in (a, b):
        desc[KEYS[i]] = ctx.pick('odd', (1, None))
    orig = dict(desc)
    out = coll().pickup(desc)
    match = bool(orig['k'] == v)
    ctx.cover('found' if match else 'notfound')
    ctx.check(out is desc and (out['zoo'].__class__ is A if match else out['zoo'] is None), 'entry')
    gone = ('k', 'x', 'al') if match else ()
    want = {n for n in orig if not n.startswith('_') and n not in gone} | {'zoo'}
    ctx.check(set(out) == want, 'keys', '{} instead of {}'.format(sorted(out), sorted(want)))
    for n in want - {'zoo'}:
        ctx.check(out[n] is orig[n], 'value-changed', n)


# -- C19 -------------------------------------------------------------------------

def deep(x, seen=None):
    """A structural snapshot in which atoms are kept by identity."""
    if isinstance(x, dict):
        return ('dict', x.__class__, [(k, deep(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (x.__class__, [deep(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (x.__class__, [(id(v), v) for v in x])
    if isinstance(x, footprints.Footprint):
        d = x.__dict__
        return ('fp', deep(d['_fp'] if '_fp' in d else [v for v in d.values() if isinstance(v, dict)]))
    if isinstance(x, FootprintBase):
        return ('obj', id(x), deep(attrs_of(x)))
    return ('atom', x)


def unchanged(a, b):
    if a[0] == 'atom' and b[0] == 'atom':
        return a[1] is b[1] or (a[1].__class__ is b[1].__class__ and isinstance(a[1], (str, int, float)) and a[1] == b[1])
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            if x and isinstance(x, tuple) and x[0] in ('atom', 'dict', 'fp', 'obj') or isinstance(x, (list, tuple)):
                if not unchanged_seq(x, y):
                    return False
        elif x is not y and not (isinstance(x, (str, int)) and x == y):
            return False
    return True


def unchanged_seq(x, y):
    if x.__class__ is not y.__class__ or len(x) != len(y):
        return False
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == 'atom':
        return unchanged(x, y)
    for a, b in zip(x, y):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if not unchanged_seq(a, b):
                return False
        elif a is not b and not (isinstance(a, (str, int)) and isinstance(b, (str, int)) and a == b):
            return False
    return True


#: The public settings (those which are neither compared apart nor objects that a search may use)
SETTINGS = sorted(k for k in {k for k in footprints.setup.__dict__} | {
    k for c in type(footprints.setup).__mro__ for k, v in c.__dict__.items() if isinstance(v, property)}
    if not k.startswith('_') and k not in ('nullreport', 'proxies', 'defaults'))


class World:
    """Everything a search is not supposed to change."""

    def __init__(self, desc, classes, cbdict):
        self.parts = lambda: dict(
            description=deep(desc), declarations=[deep(c._footprint) for c in classes],
            defaults=deep(dict(footprints.setup.defaults)), extras=deep(cbdict),
            members=sorted(c.__name__ for c in coll()),
            levels=list(priorities.top()),
            setup=deep({k: getattr(footprints.setup, k) for k in SETTINGS}))
        self.old = self.parts()

    def check(self, ctx, label):
        new = self.parts()
        for p, v in self.old.items():
            ctx.check(unchanged_seq(v, new[p]) if isinstance(v, (list, tuple)) else v == new[p], label + p)


def outcome(f):
    """(status, comparable result)"""
    try:
        r = f()
    except footprints.FootprintException as ex:
        return ('error', ex.__class__, None)
    except (ValueError, AttributeError) as ex:
        return ('error', ex.__class__, None)
    if r is None or r is False:
        return ('none', None, None)
    def vals(d):
        return {k: alive(v) for k, v in d.items()}
    if isinstance(r, list):
        return ('list', [x[0] for x in r], [vals(x[1]) for x in r] + [sorted(x[2]) for x in r])
    if isinstance(r, tuple):
        if not isinstance(r[0], dict):
            return ('none', None, sorted(r[1]))
        return ('couldbe', None, [vals(r[0]), sorted(r[1])])
    return ('obj', r.__class__, vals(r.footprint_as_shallow_dict()))


def run_twice(ctx, desc, classes, cbdict, hows):
    how = ctx.pick('how', hows)
    cache = footprints.collectors.ResolveCache() if how == 'cached' else None
    f = dict(load=lambda: coll().load(_emptywarning=False, **desc), find_all=lambda: coll().find_all(desc),
             find_best=lambda: coll().find_best(desc), find_any=lambda: coll().find_any(desc),
             direct=lambda: classes[0](**desc), directd=lambda: classes[0](desc), couldbe=lambda: classes[0].footprint_couldbe(desc),
             report=lambda: classes[0].footprint_couldbe(desc, mkreport=True),
             cached=lambda: coll().find_all(desc, resolvecache=cache))[how]
    w = World(desc, classes, cbdict)
    a = outcome(f)
    w.check(ctx, 'changed-')
    b = outcome(f)
    w.check(ctx, 'changed-again-')
    ctx.cover(a[0])
    ctx.check(a[0] == b[0] and a[1] == b[1], 'not-repeatable', (a, b))
    ctx.check(same(a[2], b[2]), 'not-repeatable-values')
    return a


ALLHOWS = ('load', 'find_all', 'find_best', 'find_any', 'direct', 'directd', 'couldbe', 'report', 'cached')


@harness('C19', bounds='1 class, 2 attributes with any of remap/alias/default/values/outcast/weak; values absent/None/raw/typed; every search entry point; '
         '2 report levels', covers=('obj', 'none', 'error', 'list'))
def opaque(ctx):
    at = {}
    desc = {}
    for n in ('k', 'x'):
        fp = dict(type=T0)
        feat = ctx.pick('feat' + n, ('plain', 'remap', 'alias', 'default', 'values', 'outcast', 'weak') if n == 'k'
                        else ('plain', 'default', 'deferred'))
        if feat == 'remap':
            fp['remap'] = {ctx.val('rk', Raw): ctx.val('rv', Raw)}
        elif feat == 'alias':
            fp['alias'] = ['al']
            if ctx.flag('al'):
                desc['al'] = ctx.val('in.al', Raw)
        elif feat == 'default':
            fp.update(optional=True, default=ctx.val('d', Raw))
        elif feat == 'deferred':
            v = ctx.val('d', T0)
            fp.update(optional=True, default=type('Def', (), dict(footprint_value=lambda self: v))())
        elif feat == 'values':
            fp['values'] = [ctx.val('v', T0)]
        elif feat == 'outcast':
            fp['outcast'] = [ctx.val('v', T0)]
        elif feat == 'weak':
            fp['access'] = 'rwx-weak'
        at[n] = fp
        v = inputs_for(ctx, 'in.' + n, (Raw, T0) if n == 'k' else (Raw,), none=(n == 'k'))
        if v is not ABSENT:
            desc[n] = v
    glob = ctx.pick('glob', ('no', 'yes', 'none'))
    if glob != 'no':
        footprints.setup.defaults = dict(x=ctx.val('g', T0) if glob == 'yes' else None, **(dict(z=None) if glob == 'none' else {}))
    footprints.setup.report = ctx.pick('report', (config.ONERROR_REPORTING, config.FULL_REPORTING))
    cls = mk('A', dict(attr=at))
    keep = run_twice(ctx, desc, [cls], {}, ALLHOWS)
    del keep


@harness('C19', bounds='text attributes with templates on attributes, extra parameters given by a callback, an object of the description and its unused '
         'entries, global defaults; mutable values (lists, dictionaries, sets) in description and defaults; every search entry point',
         covers=('obj', 'none', 'error', 'list'))
def mutable(ctx):
    other = mk('Other', dict(attr=dict(inner=dict(type=list), txt=dict(optional=True, default='T'))), tag='oth')
    ob = other(inner=[1, [2]])
    cbdict = dict(cb='C', shared='cb', lst=[1])
    if ctx.flag('callback'):
        footprints.setup.callback = lambda: cbdict
    at = dict(t=dict(optional=True, default=ctx.pick('tpl', ('[txt]', '[cb]', '[shared]', '[g]', '[u]', '[lst]', '[none#x]', '[none]', '[d:keys]'))),
              d=dict(type=dict, optional=True, default=dict(a=[1])),
              l=dict(type=ctx.pick('lt', (list, set, footprints.FPList)), remap={'x': 'y'}))
    desc = dict(l=ctx.pick('l', ([1, [2]], (1,), {1}, 'x')))
    if ctx.flag('obj'):
        desc['o'] = ob
    if ctx.flag('unused'):
        desc['u'] = ['u', {}]
    if ctx.flag('given'):
        desc['d'] = dict(b=[2])
    if ctx.flag('glob'):
        footprints.setup.defaults = dict(g=[3], L=[4], e=None, f='')
    cls = mk('A', dict(attr=at, only=dict(g=([3],)) if ctx.flag('only') else {}))
    run_twice(ctx, desc, [cls, other], cbdict, ALLHOWS)


# -- C20 -------------------------------------------------------------------------

def make_obj(ctx, full=True):
    """An object with attributes defined, defaulted or undefined, remapped, converted, assigned."""
    at = dict(k=dict(type=T0, access='rwx'), x=dict(type=T0, optional=True, access='rwx'))
    dx = ctx.flag('defaultx')
    if dx:
        at['x']['default'] = ctx.val('dx', T0)
    if ctx.flag('remap'):
        a, b = ctx.val('ra', T0), ctx.val('rb', T0)
        ctx.assume(a != b)
        at['k']['remap'] = {a: b}
    if full and ctx.flag('values'):
        at['k']['outcast'] = [ctx.val('o', T0)]
    at['l'] = dict(type=list, optional=True)
    cls = mk('A', dict(attr=at))
    d = dict(k=ctx.val('in.k', ctx.pick('kcls', (Raw, T0) if full else (T0,))))
    if ctx.flag('givenx'):
        d['x'] = ctx.val('in.x', T0)
    if ctx.flag('l'):
        d['l'] = [1, [2]]
    o = coll().load(_emptywarning=False, **d)
    if o is None:
        return None, None
    mod = ctx.pick('mod', ('no', 'set', 'none'))
    try:
        if mod == 'set':
            o.k = ctx.val('new', T0)
        elif mod == 'none':
            o.x = None
    except ValueError:
        return None, None
    return cls, o


def values_of(o):
    return {n: getattr(o, n) for n in ('k', 'x', 'l')}


def same_values(ctx, a, b, label, but=()):
    va, vb = values_of(a) if not isinstance(a, dict) else a, values_of(b) if not isinstance(b, dict) else b
    for n in va:
        if n not in but:
            ctx.check(va[n] is None and vb[n] is None or va[n] is not None and vb[n] is not None and same(va[n], vb[n]), label,
                      '{}: {!r} / {!r}'.format(n, va[n], vb[n]))


@harness('C20', bounds='an object with 3 attributes (raw/typed, remapped, defaulted, undefined, list) loaded then possibly assigned; clone with any subset of '
         '2 attributes replaced, full or not', covers=('cloned', 'replaced', 'refused'))
def clones(ctx):
    cls, o = make_obj(ctx)
    if o is None:
        return
    o.loose = 'free'
    before = values_of(o)
    raw = attrs_of(o)
    extra = {}
    for n in ('k', 'x'):
        if ctx.flag('new' + n):
            extra[n] = ctx.val('extra.' + n, T0)
    full = ctx.flag('full')
    out = cls._footprint.attr['k']['outcast']
    rm = cls._footprint.attr['k']['remap']
    exp = dict(before)
    exp.update(extra)
    if 'k' in extra:
        while exp['k'] in rm:
            exp['k'] = rm[exp['k']]
        if isin(exp['k'], list(out)):
            exp['k'] = None
    try:
        c = o.footprint_clone(full=full, extra=dict(extra) if extra or ctx.flag('emptyextra') else None)
    except footprints.FootprintFatalError:
        ctx.cover('refused')
        ctx.check('k' in extra and exp['k'] is None, 'clone-refused')
        return
    ctx.cover('replaced' if extra else 'cloned')
    ctx.check(c is not o and c.__class__ is cls, 'clone-class')
    ctx.check(exp['k'] is not None, 'invalid-clone')
    same_values(ctx, c, exp, 'clone-value')
    ctx.check(getattr(c, 'loose', None) == ('free' if full else None), 'clone-free-attribute')
    ctx.check(any(c is i for i in coll().instances), 'clone-untracked')
    # changing the clone does not change the original
    try:
        c.k = ctx.val('after', T0)
    except ValueError:
        pass
    c.x = None
    same_values(ctx, o, before, 'original-changed')
    for n, v in raw.items():
        ctx.check(attrs_of(o)[n] is v, 'original-changed')


@harness('C20', bounds='the same objects; pickled (3 protocols), copied, deep-copied; then the copy is altered', covers=('pickle', 'copy', 'deepcopy'))
def pickles(ctx):
    cls, o = make_obj(ctx, full=False)
    if o is None:
        return
    before = values_of(o)
    if before['l']:
        before['l'] = copy.deepcopy(before['l'])
    how = ctx.pick('how', ('pickle0', 'pickle2', 'pickle5', 'copy', 'deepcopy'))
    if how.startswith('pickle'):
        c = pickle.loads(pickle.dumps(o, protocol=int(how[6:])))
        ctx.cover('pickle')
    else:
        c = getattr(copy, how)(o)
        ctx.cover(how)
    ctx.check(c is not o and c.__class__ is cls, how + '-class')
    same_values(ctx, c, before, how + '-value')
    ctx.check(sorted(c.footprint_attributes) == ['k', 'l', 'x'], how + '-attributes')
    ctx.check(sorted(c.footprint_undefs()) == sorted(n for n in before if before[n] is None), how + '-undefs')
    ctx.check(any(c is i for i in coll().instances), how + '-untracked')
    # changing either one does not change the other
    one, other = (c, o) if ctx.flag('alterscopy') else (o, c)
    if how == 'copy':
        before['l'] = one.l         # (the very same values are shared)
    one.k = ctx.val('after', T0)
    one.x = ctx.pick('afterx', (None, T0.mk(7)))
    if how != 'copy' and one.l is not None:
        one.l[1].append(3)
    same_values(ctx, other, before, 'original-changed' if one is c else 'copy-changed')


@harness('C20', bounds='the same objects; dictionary views (shallow, deep), exports with and without hooks, lists of attributes; then the views are altered',
         covers=('view',))
def views(ctx):
    cls, o = make_obj(ctx, full=False)
    if o is None:
        return
    before = values_of(o)
    if before['l']:
        before['l'] = copy.deepcopy(before['l'])
    for n, v in (('shallow', o.footprint_as_shallow_dict()), ('dict', o.footprint_as_dict()), ('export', o.footprint_export())):
        ctx.check(sorted(v) == ['k', 'l', 'x'], n + '-keys')
        same_values(ctx, v, before, n + '-value')
        if n != 'shallow' and v['l'] is not None:
            v['l'][1].append(5)
        v['k'] = None
        v['new'] = 1
        same_values(ctx, o, before, n + '-changes-original')
    ctx.check(o.footprint_attributes == ['k', 'l', 'x'], 'attributes')
    ctx.check(sorted(o.footprint_undefs()) == sorted(n for n in before if before[n] is None), 'undefs')
    ctx.cover('view')


@harness('C20', bounds='the same objects (listed type excepted); almost clones through a collector, with any subset of 2 attributes replaced (by a value or None), of an object of this '
         'collector or another one', covers=('cloned', 'replaced', 'refused'))
def almost(ctx):
    cls, o = make_obj(ctx)
    if o is None:
        return
    before = values_of(o)
    raw = attrs_of(o)
    dst = coll()
    if ctx.flag('elsewhere'):
        mk('B', dict(attr=dict(k=dict(type=T0), x=dict(type=T0, optional=True), l=dict(type=list, optional=True))), tag='farm', order=2)
        dst = coll('farm')
    extra = {}
    for n in ('k', 'x'):
        how = ctx.pick('new' + n, (None, 'value', 'none'))
        if how:
            extra[n] = ctx.val('extra.' + n, T0) if how == 'value' else None
    want = {n: v for n, v in before.items() if v is not None}
    want.update(extra)
    extra0 = dict(extra)
    c = dst.almost_clone(o, **extra)
    ctx.check(all(extra[n] is extra0[n] for n in extra0), 'arguments-modified')
    ref = dst.load(_emptywarning=False, **want)
    if ref is None:
        ctx.cover('refused')
        ctx.check(c is None, 'invalid-almost-clone')
    else:
        ctx.cover('replaced' if extra else 'cloned')
        ctx.check(c is not None and c is not o and c.__class__ is ref.__class__, 'almost-clone-class', c)
        same_values(ctx, c, ref, 'almost-clone-value')
        ctx.check(c.l is None or c.l is not before['l'], 'list-shared')
        ctx.check(any(c is i for i in dst.instances), 'almost-clone-untracked')
    same_values(ctx, o, before, 'original-changed')
    for n, v in raw.items():
        ctx.check(attrs_of(o)[n] is v, 'original-changed')


@harness('C20', bounds='objects of up to 3 attributes of different types (texts, integers, lists, undefined, opaque): list of names and values, identity '
         'of the class', covers=('comparable', 'mixed'))
def names_and_values(ctx):
    kinds = dict(text='t', int=3, list=[1], none=None)
    at, d, exp = {}, {}, {}
    for n in ('b', 'a', 'c'):
        k = ctx.pick(n, ('no', 'text', 'int', 'list', 'none'))
        if k != 'no':
            at[n] = dict(type=type(kinds[k]) if k != 'none' else str, optional=k == 'none')
            exp[n] = kinds[k]
            if k != 'none':
                d[n] = kinds[k]
    cls = mk('A', dict(attr=at, info='the info'))
    o = cls(**d)
    ctx.cover('comparable' if len({type(v) for v in exp.values()}) < 2 else 'mixed')
    vals = [None if v is footprints.UNKNOWN else v for v in o.footprint_attributes_values]
    rest = list(vals)
    for v in exp.values():
        ctx.check(any(v is x or type(v) is type(x) and v == x for x in rest), 'value-missing', (v, vals))
        rest = [x for i, x in enumerate(rest) if i != [j for j, y in enumerate(rest) if v is y or type(v) is type(y) and v == y][0]]
    ctx.check(not rest, 'values-invented', rest)
    ctx.check(o.footprint_attributes == sorted(exp), 'names')
    for n in exp:
        ctx.check(o.footprint_has_attribute(n) and cls.footprint_optional(n) == at[n]['optional'], 'has-attribute', n)
    ctx.check(not o.footprint_has_attribute('zz') and not o.footprint_has_attribute('A'), 'has-unknown')
    ctx.check(sorted(cls.footprint_mandatory()) == sorted(n for n in exp if not at[n]['optional']), 'mandatory')
    ctx.check(o.footprint_clsname() == 'A' and cls.footprint_clskind() == 'a' and cls.fullname().endswith('.A'), 'class-names')
    ctx.check(o.footprint_info == 'the info' and o.footprint is cls.footprint_retrieve(), 'footprint')
    ctx.check(str(len(exp)) in str(o).rpartition('footprint=')[2], 'text', str(o))


class Exporting(T0):
    __slots__ = ()

    def footprint_export(self):
        return ('exported', self.e)


class Exporting2(T0):
    __slots__ = ()

    def export_dict(self):
        return ('exported2', self.e)


@harness('C20', bounds='exports with value hooks, object hooks; 3 attributes', covers=('hook',))
def export_hooks(ctx):
    kinds = (T0, Exporting, Exporting2)
    at = {n: dict(type=T0, optional=True) for n in ('a', 'b', 'c')}
    hook = ctx.pick('hook', (None, 'a', 'b'))
    extra = {}
    if hook:
        extra['footprint_export_' + hook] = lambda self: ('method', hook)
    cls = mk('A', dict(attr=at), **extra)
    d = {}
    for n in ('a', 'b'):
        k = ctx.pick('k' + n, kinds + (None,))
        if k:
            d[n] = ctx.val(n, k)
    o = cls(**d)
    ex = o.footprint_export()
    ctx.check(sorted(ex) == ['a', 'b', 'c'], 'keys')
    ctx.check(ex['c'] is None, 'undefined')
    for n in ('a', 'b'):
        v = d.get(n)
        if n == hook:
            ctx.check(ex[n] == ('method', hook), 'method-hook')
        elif v is None:
            ctx.check(ex[n] is None, 'undefined')
        elif isinstance(v, Exporting):
            ctx.check(ex[n][0] == 'exported' and ex[n][1] is v.e, 'value-hook')
        elif isinstance(v, Exporting2):
            ctx.check(ex[n][0] == 'exported2' and ex[n][1] is v.e, 'value-hook')
        else:
            ctx.check(same(ex[n], v), 'value')
        ctx.cover('hook')
