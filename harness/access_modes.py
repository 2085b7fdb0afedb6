"""C09: access modes."""
import copy
import weakref

from ._common import *  # noqa: F401,F403
from ._common import (ABSENT, T0, T1, W0, Raw, RawU, coll, footprints, harness, hashable, isin, mkclass, same)

ASSUMPTIONS = {}

MODES = ('rxx', 'rwx', 'rwd', 'rxx-weak', 'rwx-weak', 'rwd-weak')
DELETED = type('DELETED', (), {'__repr__': lambda s: 'DELETED'})()


def target(v):
    """The object behind a weak proxy (or the object itself)."""
    return v.__deepcopy__({}) if isinstance(v, weakref.ProxyTypes) else v


def read(o, n):
    try:
        return target(getattr(o, n))
    except AttributeError:
        return DELETED


def expect_set(sp, v):
    """Reference model of an assignment: (accepted, stored value)."""
    if v is not None and not isinstance(v, T0):
        try:
            v = T0(v, **sp.get('args', {}))
        except (ValueError, TypeError):
            return False, None
    if sp['values'] and not isin(v, sp['values']):
        return False, None
    if sp['outcast'] and isin(v, sp['outcast']):
        return False, None
    return True, v


def same_state(ctx, o, st, label):
    got = read(o, 'k')
    if st is DELETED or got is DELETED:
        ctx.check(got is st, label, '{!r} instead of {!r}'.format(got, st))
    elif st is None or got is None:
        ctx.check(got is st, label, '{!r} instead of {!r}'.format(got, st))
    else:
        ctx.check(same(got, st), label, '{!r} instead of {!r}'.format(got, st))


def declare(ctx, mode, full):
    sp = dict(values=[], outcast=[])
    fp = dict(type=T0, access=mode)
    if ctx.flag('optional'):
        fp['optional'] = True
    con = ctx.pick('con', ('no', 'values', 'outcast', 'both', 'args') if full else ('no', 'values'))
    if con == 'args':
        sp['args'] = fp['args'] = dict(p=1)
    if con in ('values', 'both'):
        sp['values'] = [ctx.val('v', T0) for _ in range(2)]
        fp['values'] = list(sp['values'])
    if con in ('outcast', 'both'):
        sp['outcast'] = [ctx.val('o', T0)]
        fp['outcast'] = list(sp['outcast'])
    return fp, sp


def start(ctx, sp, name, optional):
    """A valid initial value (kept alive by the harness)."""
    if optional and ctx.flag(name + '.undef'):
        return ABSENT
    v = sp['values'][0] if sp['values'] else ctx.val(name, T0)
    if sp['outcast']:
        ctx.assume(v != sp['outcast'][0])
    return v


def create(cls, v, keep):
    if v is ABSENT:
        return cls(x=1)
    keep.append(v)
    return cls(k=v, x=1)


def apply(ctx, mode, sp, o, st, kinds, keep):
    """One operation on o in state st: new state."""
    op = ctx.pick('op', kinds)
    if op == 'del':
        ok = mode.startswith('rwd') and st is not DELETED
        try:
            del o.k
            done = True
        except AttributeError:
            done = False
        ctx.check(done == ok, 'delete-' + ('refused' if ok else 'allowed'), mode)
        if done:
            ctx.cover('deleted')
        else:
            ctx.cover('delete-refused')
        return DELETED if done else st
    if op == 'raw':
        for f in (lambda: o.footprint_setattr('k', None), lambda: o.footprint_delattr('k'),
                  lambda: o.footprint_setattr('k', None, auth=1)):
            try:
                f()
                ctx.fail('unauthorized-access')
            except AttributeError:
                pass
        ctx.cover('raw')
        return st
    v = None if op is None else ctx.val('new', op)
    keep.append(v)
    if mode.startswith('rxx'):
        ok, new = False, None
    else:
        ok, new = expect_set(sp, v)
    try:
        o.k = v
        done = True
    except (AttributeError, ValueError, TypeError) as ex:
        done = False
        if mode.startswith('rxx'):
            ctx.check(isinstance(ex, AttributeError), 'read-only-error')
    ctx.check(done == ok, 'assignment-' + ('refused' if ok else 'allowed'), (mode, op))
    if not done:
        ctx.cover('set-refused')
        return st
    ctx.cover('set')
    if new is not v and 'weak' in mode:
        # the converted object has no owner
        try:
            o.k.e
            ctx.fail('weak-value-kept-alive')
        except ReferenceError:
            pass
        keep.append(new)
        try:
            o.k = new
        except Exception:
            ctx.fail('assignment-refused')
    return new


def sequence(ctx, n, full, kinds):
    mode = ctx.pick('mode', MODES)
    fp, sp = declare(ctx, mode, full)
    cls = mkclass('One', dict(attr=dict(k=fp, x=dict(type=int))))
    keep = []
    init = [start(ctx, sp, 'i{}'.format(i), fp.get('optional', False)) for i in range(2)]
    objs = [create(cls, v, keep) for v in init]
    st = [None if v is ABSENT else v for v in init]
    for step in range(n):
        w = ctx.choose('who', 2) if step else 0     # (the two instances play the same part)
        st[w] = apply(ctx, mode, sp, objs[w], st[w], kinds, keep)
        for i in (0, 1):
            same_state(ctx, objs[i], st[i], 'state-after-operation' if i == w else 'other-instance-changed')
    # a future instance behaves as if nothing had happened
    new = create(cls, init[1], keep)
    same_state(ctx, new, None if init[1] is ABSENT else init[1], 'future-instance-changed')
    ctx.check(new.x == 1 and objs[0].x == 1, 'other-attribute-changed')
    s = apply(ctx, mode, sp, new, None if init[1] is ABSENT else init[1], ('del', T0), keep)
    same_state(ctx, new, s, 'future-instance-operation')
    for i in (0, 1):
        same_state(ctx, objs[i], st[i], 'past-instance-changed')


@harness('C09', bounds='6 access modes, mandatory/optional, 0-2 values, 0-1 outcast, with or without conversion arguments; 1 operation (assignment of any value or None, deletion, '
         'unauthorized access) then one on a future instance', covers=('deleted', 'delete-refused', 'set', 'set-refused', 'raw'))
def one_step(ctx):
    sequence(ctx, 1, True, ('del', 'raw', None, Raw, T0, T1, RawU))


@harness('C09', bounds='6 access modes, mandatory/optional, 0 or 2 values; 2 operations on 2 instances, then one on a future instance',
         covers=('deleted', 'delete-refused', 'set', 'set-refused'))
def two_steps(ctx):
    sequence(ctx, 2, False, ('del', None, Raw, T0))


@harness('C09', bounds='6 access modes, no constraint; 3 operations on 2 instances, then one on a future instance',
         covers=('deleted', 'delete-refused', 'set', 'set-refused'))
def three_steps(ctx):
    mode = ctx.pick('mode', MODES)
    sp = dict(values=[], outcast=[])
    cls = mkclass('One', dict(attr=dict(k=dict(type=T0, access=mode, optional=True))))
    keep = [ctx.val('i', T0), ctx.val('j', T0)]
    objs = [cls(k=keep[0]), cls(k=keep[1])]
    st = keep[:2]
    for step in range(3):
        w = ctx.choose('who', 2)
        st[w] = apply(ctx, mode, sp, objs[w], st[w], ('del', Raw, T0), keep)
        for i in (0, 1):
            same_state(ctx, objs[i], st[i], 'state-after-operation' if i == w else 'other-instance-changed')
    new = cls(k=keep[0])
    same_state(ctx, new, keep[0], 'future-instance-changed')


@harness('C09', bounds='6 access modes, no constraint; an object and its shallow copy, its clone or an object with the same values; 2 operations on either',
         covers=('deleted', 'delete-refused', 'set', 'set-refused'))
def copied(ctx):
    mode = ctx.pick('mode', MODES)
    sp = dict(values=[], outcast=[])
    cls = mkclass('One', dict(attr=dict(k=dict(type=T0, access=mode, optional=True))))
    keep = [ctx.val('i', T0)]
    objs = [cls(k=keep[0])]
    st = [keep[0]]
    if ctx.flag('before'):
        st[0] = apply(ctx, mode, sp, objs[0], st[0], (None, Raw), keep)
    how = ctx.pick('how', ('copy', 'clone', 'cloneextra'))
    if how == 'copy':
        objs.append(copy.copy(objs[0]))
        st.append(st[0])
    elif how == 'clone':
        if 'weak' in mode:
            return
        objs.append(objs[0].footprint_clone())
        st.append(st[0])
    else:
        keep.append(ctx.val('extra', T0))
        objs.append(objs[0].footprint_clone(extra=dict(k=keep[-1])))
        st.append(keep[-1])
    for step in range(2):
        w = ctx.choose('who', 2)
        st[w] = apply(ctx, mode, sp, objs[w], st[w], ('del', None, Raw, T0), keep)
        for i in (0, 1):
            same_state(ctx, objs[i], st[i], 'state-after-operation' if i == w else 'other-instance-changed')


@harness('C09', bounds='6 access modes; the given or assigned object is dropped by its owner', covers=('weak', 'strong'))
def ownership(ctx):
    mode = ctx.pick('mode', MODES)
    cls = mkclass('One', dict(attr=dict(k=dict(type=T0, access=mode, optional=True))))
    how = ctx.pick('how', ('init', 'load', 'set', 'default'))
    v = ctx.val('v', T0)
    wr = weakref.ref(v)
    e = v.e
    if how == 'init':
        o = cls(k=v)
    elif how == 'load':
        o = coll().load(k=v)
    elif how == 'set':
        o = cls()
        if mode.startswith('rxx'):
            return
        o.k = v
    else:
        footprints.setup.defaults = dict(k=v)
        o = cls()
        footprints.setup.defaults = {}
    ctx.check(same(target(o.k), T0.mk(e)), 'value')
    del v
    if 'weak' in mode:
        ctx.cover('weak')
        ctx.check(wr() is None, 'weak-attribute-keeps-object-alive', how)
    else:
        ctx.cover('strong')
        ctx.check(wr() is not None and same(o.k, wr()), 'strong-attribute-lost', how)


@harness('C09', bounds='5 concrete classes assigned to a class-valued attribute in each mode', covers=('set', 'refused'))
def classes(ctx):
    mode = ctx.pick('mode', MODES[:3])
    cls = mkclass('One', dict(attr=dict(k=dict(type=T0, isclass=True, access=mode, optional=ctx.flag('opt')))))
    a, b = cls(k=T0), cls(k=T1)
    v = ctx.pick('v', (T0, T1, W0, ctx.val('i', T0), 'T0', 3))
    try:
        a.k = v
        ok = True
    except (ValueError, AttributeError):
        ok = False
    ctx.cover('set' if ok else 'refused')
    ctx.check(ok == (v in (T0, T1) and mode != 'rxx'), 'class-assignment')
    ctx.check(a.k is (v if ok else T0) and b.k is T1, 'class-value')


@harness('C09', bounds='a class, its subclass redefining (or not) the mode of one attribute; operations on instances of both',
         covers=('deleted', 'set', 'set-refused', 'delete-refused'))
def subclasses(ctx):
    m1 = ctx.pick('mode', MODES[:3])
    m2 = ctx.pick('submode', (None,) + MODES[:3])
    sp = dict(values=[], outcast=[])
    up = mkclass('Up', dict(attr=dict(k=dict(type=T0, access=m1, optional=True))))
    down = mkclass('Down', dict(attr=dict(k=dict(access=m2))) if m2 else {}, base=up)
    keep = [ctx.val('i', T0), ctx.val('j', T0)]
    objs = [up(k=keep[0]), down(k=keep[1])]
    st = keep[:2]
    modes = [m1, m2 or m1]
    for w in (0, 1) if ctx.flag('first') else (1, 0):
        st[w] = apply(ctx, modes[w], sp, objs[w], st[w], ('del', 'raw', Raw, T0), keep)
        for i in (0, 1):
            same_state(ctx, objs[i], st[i], 'state')
