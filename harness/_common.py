"""Helpers shared by the harnesses (import after footprints is importable)."""
import weakref

import footprints
from footprints import FootprintBase, FootprintBaseMeta
from symx import core
from symx.core import Infeasible, Pred, Raw, RawH, RawU, T0, T1, Val, W0, same  # noqa: F401
from symx.runner_env import harness  # noqa: F401

CONVERR = (ValueError, TypeError)


class DetMeta(FootprintBaseMeta):
    """Deterministic hash for the generated classes, so that the iteration
    order over sets of classes is an explicit choice of the harness."""

    def __hash__(cls):
        return cls.__dict__.get('_h', 1)


def mkclass(name, fpdef, tag='zoo', base=FootprintBase, order=1, module='modgen.pkg', **extra):
    """Create a footprint based class, registered in collector ``tag``."""
    d = dict(__module__=module, _collector=(tag,) if isinstance(tag, str) else tuple(tag),
             _footprint=fpdef, _h=order, _explicit=False, _abstract=False)
    d.update(extra)
    bases = base if isinstance(base, tuple) else (base,)
    return DetMeta(name, bases, d)


def coll(tag='zoo'):
    return footprints.collectors.get(tag=tag)


def pick_val(ctx, name, kinds):
    """A symbolic value whose Python class is one of ``kinds`` (shape choice)."""
    k = ctx.pick(name + '.cls', kinds)
    if k is None:
        return None
    return ctx.val(name, k)


ABSENT = type('ABSENT', (), {'__repr__': lambda s: 'ABSENT'})()


def inputs_for(ctx, name, kinds, none=True, absent=True):
    """A possibly absent / None / opaque value."""
    opts = ([ABSENT] if absent else []) + ([None] if none else []) + list(kinds)
    k = ctx.pick(name + '.cls', opts)
    if k is ABSENT or k is None:
        return k
    return ctx.val(name, k)


def hashable(v):
    try:
        hash(v)
    except TypeError:
        return False
    return True


def isin(v, seq):
    """Python-level membership by equality (forks on symbolic equalities)."""
    for x in seq:
        if x is v or x == v:
            return True
    return False


def sym_in(ctx, v, seq):
    """Membership as one formula (no fork)."""
    r = False
    for x in seq:
        r = ctx.or_(r, (x is v) or (x == v))
    return r


def internal(f):
    """Access to an internal of the code under test: unknown when it is not there (no verdict)."""
    try:
        return f()
    except (AttributeError, KeyError) as ex:
        raise core.EngineError('internal not found: {!r}'.format(ex))


def patch_ranks(pset, rs):
    """Make ``pset`` answer the positions ``rs`` (until the next path: see symx/snapshot.py)."""
    ps = footprints.priorities.PrioritySet
    old = ps.__dict__['levelindex']

    def levelindex(self, tag):
        u = str(tag).upper()
        return rs[u] if self is pset and u in rs else old(self, tag)
    ps.levelindex = levelindex
    # comparing two levels gives a plain boolean (which forks), as it does with the ranks of a list
    lv = footprints.priorities.PriorityLevel
    for n in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__'):
        f = lv.__dict__.get(n)
        if f is not None and not getattr(f, '_plain', False):
            setattr(lv, n, _plain(f))
    return old


def _plain(f):
    def compare(self, other):
        r = f(self, other)
        return r if r is NotImplemented else bool(r)
    compare._plain = True
    return compare


_hooked = []


def ranks_hooked():
    """Is the position of a level always asked to ``levelindex``?  (tried once, on a small set)"""
    if not _hooked:
        ps = footprints.priorities.PrioritySet
        old, res = ps.__dict__.get('levelindex'), False
        try:
            s = ps(levels=['pa', 'pb'])
            a, b = s.level('pa'), s.level('pb')
            patch_ranks(s, dict(PA=7, PB=3))
            res = (a.rank, b.rank, a(), b()) == (7, 3, 7, 3) and a > b and a >= b and b < a and b <= a and \
                a != b and not (a < b or a <= b or b > a or b >= a or a == b)
        except Exception:
            pass
        finally:
            if old is not None:
                ps.levelindex = old
        _hooked.append(bool(res))
    return _hooked[0]


def any_ranks(ctx, pset, names, low=0, high=50):
    """Any order of the levels ``names`` of ``pset``: {name: rank}.

    The ranks are symbolic integers, which the set answers.  Should the code compare the levels without
    asking, the order is chosen among all of them, and set."""
    rs = {n: ctx.sym_int('rank.' + n, low, high) for n in names}
    for i, a in enumerate(names):
        for b in names[:i]:
            ctx.assume(rs[a] != rs[b])
    if ranks_hooked():
        patch_ranks(pset, rs)
    else:
        todo, order = list(names), []
        while todo:
            n = ctx.pick('next{}'.format(len(order)), tuple(todo)) if todo[1:] else todo[0]
            ctx.assume(rs[n] == len(pset) - len(todo))
            order.append(n)
            todo.remove(n)
        pset.extend(*order)
    return rs


def alive(v):
    """The object behind a weak proxy, a marker if it is dead, or the value itself."""
    if isinstance(v, weakref.ProxyTypes):
        try:
            v.__class__
            return v.__deepcopy__({})
        except ReferenceError:
            return 'DEAD'
    return v
