"""C14, C15: priority sets and levels."""
from footprints import priorities

from ._common import *  # noqa: F401,F403
from ._common import footprints, harness

ASSUMPTIONS = {}

PrioritySet, PriorityLevel = priorities.PrioritySet, priorities.PriorityLevel


class Model:
    """Reference: a plain list of names."""

    def __init__(self, names):
        self.cur = [x.upper() for x in names]
        self.frozen = {'default': list(self.cur)}


def consistent(ctx, ps, m, label):
    got = list(ps())
    ctx.check(got == m.cur, label, '{} instead of {}'.format(got, m.cur))
    ctx.check(list(ps) == m.cur and list(ps.levels) == m.cur and len(ps) == len(m.cur), label + '-views')
    for i, n in enumerate(m.cur):
        lv = ps.level(n.lower())
        ctx.check(isinstance(lv, PriorityLevel) and lv.tag == n and lv.inset is ps, label + '-level', n)
        ctx.check(lv.rank == i and lv() == i and ps.levelindex(n) == i, label + '-rank', n)
        ctx.check(ps.levelbyindex(i).tag == n, label + '-index', n)
        ctx.check(getattr(ps, n).tag == n and n in ps and lv in ps, label + '-attribute', n)


def move(cur, tag, pos):
    cur = [x for x in cur if x != tag]
    cur.insert(pos, tag)
    return cur


def pick_tag(ctx, m, name, unknown=True):
    """An existing level, a new name or an unknown one."""
    n = len(m.cur)
    i = ctx.choose(name, n + (1 if unknown else 0)) if n + (1 if unknown else 0) > 0 else 0
    return m.cur[i] if i < n else 'ZZ'


def as_given(ctx, ps, tag, forms=('upper', 'lower')):
    f = ctx.pick('form', forms)
    if f == 'lower':
        return tag.lower()
    if f == 'level':
        lv = ps.level(tag)
        return lv if lv is not None else tag
    return tag


OPS = ('extend', 'extend2', 'insert', 'insertnone', 'remove', 'rerank', 'freeze', 'restore', 'reset', 'up', 'down', 'top',
       'bottom', 'addafter', 'addbefore', 'delete')


def operate(ctx, ps, m, ops=OPS):
    """Apply one operation on the real set and on the model."""
    op = ctx.pick('op', ops)
    cur = m.cur
    new = cur
    f = None
    if op == 'extend':
        t = pick_tag(ctx, m, 'tag')
        g = as_given(ctx, ps, t)
        f, new = (lambda: ps.extend(g)), [x for x in cur if x != t] + [t]
    elif op == 'extend2':
        t, u = pick_tag(ctx, m, 'tag'), 'NEW'
        if t == u:
            return None
        f, new = (lambda: ps.extend(u.lower(), t, t.lower())), [x for x in cur if x not in (t, u)] + [u, t]
    elif op == 'insert':
        t = pick_tag(ctx, m, 'tag')
        r = pick_tag(ctx, m, 'ref')
        side = ctx.pick('side', ('after', 'before'))
        g = as_given(ctx, ps, r, ('upper', 'lower', 'level'))
        f = lambda: ps.insert(t.lower(), **{side: g})  # noqa: E731
        if r not in cur or r == t:
            new = None
        else:
            new = [x for x in cur if x != t]
            new.insert(new.index(r) + (side == 'after'), t)
    elif op == 'insertnone':
        t = pick_tag(ctx, m, 'tag')
        if ctx.flag('notag'):
            f = lambda: ps.insert()  # noqa: E731
        else:
            f, new = (lambda: ps.insert(t)), [x for x in cur if x != t] + [t]
    elif op == 'remove':
        t = pick_tag(ctx, m, 'tag')
        g = as_given(ctx, ps, t, ('upper', 'lower', 'level'))
        f = lambda: ps.remove(g)  # noqa: E731
        new = [x for x in cur if x != t] if t in cur else None
    elif op == 'rerank':
        t = pick_tag(ctx, m, 'tag')
        s = ctx.sym_int('shift', -5, 5)
        g = as_given(ctx, ps, t)
        f = lambda: ps.rerank(g, s)  # noqa: E731
        if t not in cur:
            new = None
        else:
            new = move(cur, t, max(0, int(cur.index(t) + s)))
    elif op == 'freeze':
        t = ctx.pick('ftag', ('keep', 'Other', 'default', 'DEFAULT'))
        f = lambda: ps.freeze(t)  # noqa: E731
        if t.lower() == 'default':
            new = None
        else:
            m.frozen[t.lower()] = list(cur)
    elif op == 'restore':
        t = ctx.pick('rtag', ('keep', 'KEEP', 'other', 'unknown', 'Default'))
        f = lambda: ps.restore(t)  # noqa: E731
        new = list(m.frozen[t.lower()]) if t.lower() in m.frozen else None
    elif op == 'reset':
        f, new = ps.reset, list(m.frozen['default'])
    else:
        t = pick_tag(ctx, m, 'tag', unknown=False)
        if not cur:
            return None
        lv = ps.level(t)
        i = cur.index(t)
        if op == 'up':
            f, new = lv.up, move(cur, t, i + 1)
        elif op == 'down':
            f, new = lv.down, move(cur, t, max(0, i - 1))
        elif op == 'top':
            f, new = lv.top, move(cur, t, len(cur))
        elif op == 'bottom':
            f, new = lv.bottom, move(cur, t, 0)
        elif op == 'delete':
            f, new = lv.delete, [x for x in cur if x != t]
        else:
            u = pick_tag(ctx, m, 'newtag')
            if u == t:
                return None
            new = [x for x in cur if x != u]
            new.insert(new.index(t) + (op == 'addafter'), u)
            f = (lambda: lv.addafter(u)) if op == 'addafter' else (lambda: lv.addbefore(u))
    back = None
    try:
        back = f()
        done = True
    except Exception as ex:
        ctx.check(isinstance(ex, (ValueError, KeyError, AttributeError, TypeError)), 'error-kind', repr(ex))
        done = False
    if new is None:
        ctx.cover('refused')
        # nothing sensible can be done: whatever the way it is refused, nothing may change
    else:
        ctx.cover('done')
        ctx.check(done, 'operation-refused', (op, cur))
        m.cur = new
        if done and op in ('insert', 'rerank', 'up', 'down', 'top', 'bottom', 'addafter', 'addbefore'):
            moved = u if op.startswith('add') else t
            ctx.check(isinstance(back, PriorityLevel) and back.tag == moved, 'given-level', (op, moved, back))
    return op


class Scale(PrioritySet):
    """Some other kind of set."""


def startset(ctx, nmax):
    names = ('Aa', 'bb', 'CC', 'dD')[:ctx.pick('size', tuple(range(nmax + 1)) if nmax < 4 else (nmax,))]
    return (PrioritySet if len(names) % 2 else Scale)(levels=names), Model(names)


@harness('C14', bounds='sets of 0-3 levels; 2 operations among 16 kinds, on any existing or unknown level in any case or as a level object, '
         'with any reference, any frozen state, any shift in -5..5', covers=('done', 'refused'))
def two_operations(ctx):
    ps, m = startset(ctx, 3)
    consistent(ctx, ps, m, 'initial')
    for _ in range(2):
        operate(ctx, ps, m)
        consistent(ctx, ps, m, 'state')
    ctx.check(sorted(ps.freezed()) == sorted(m.frozen), 'freezed')


SMALL = ('extend', 'insert', 'remove', 'rerank', 'freeze', 'restore', 'reset')


@harness('C14', bounds='sets of 3 levels; 3 operations among extend, insert, remove, freeze, restore, reset, top, down', covers=('done', 'refused'))
def three_operations(ctx):
    ps, m = PrioritySet(levels=('aa', 'bb', 'cc')), Model(('aa', 'bb', 'cc'))
    for _ in range(3):
        operate(ctx, ps, m, ('extend', 'remove', 'freeze', 'restore', 'reset', 'top', 'down', 'addafter'))
        consistent(ctx, ps, m, 'state')


@harness('C14', tier='thorough', bounds='sets of 4 levels; 3 operations among the 16 kinds', covers=('done', 'refused'))
def three_any(ctx):
    ps, m = startset(ctx, 4)
    for _ in range(3):
        operate(ctx, ps, m)
        consistent(ctx, ps, m, 'state')


@harness('C14', bounds='module level set_before/set_after on the predefined set with 1-2 new or existing levels, then reset', covers=('done',))
def module_level(ctx):
    top = priorities.top
    m = Model(('none', 'default', 'toolbox', 'debug'))
    consistent(ctx, top, m, 'initial')
    r = ctx.pick('ref', m.cur)
    new = ctx.pick('new', (('one',), ('one', 'two'), ('none', 'one')))
    if r.lower() in new:
        return
    after = ctx.flag('after')
    (priorities.set_after if after else priorities.set_before)(r.lower(), *new)
    cur = [x for x in m.cur if x.lower() not in new]
    i = cur.index(r) + (1 if after else 0)
    m.cur = cur[:i] + [x.upper() for x in new] + cur[i:]
    consistent(ctx, top, m, 'state')
    top.reset()
    m.cur = m.frozen['default']
    consistent(ctx, top, m, 'reset')
    ctx.cover('done')


# -- C15 -------------------------------------------------------------------------

def sixops(ctx, a, b, ra, rb, label):
    for n, got, want in (('eq', a == b, ra == rb), ('ne', a != b, ra != rb), ('lt', a < b, ra < rb), ('le', a <= b, ra <= rb),
                         ('gt', a > b, ra > rb), ('ge', a >= b, ra >= rb)):
        ctx.check(got is want or got == want, label + '-' + n, (ra, rb, got))


def compare_all(ctx, ps, cur, label):
    for i, x in enumerate(cur):
        a = ps.level(x)
        for j, y in enumerate(cur):
            b = ps.level(y)
            sixops(ctx, a, b, i, j, label + '-levels')
            for t in (y, y.lower(), y.capitalize()):
                sixops(ctx, a, t, i, j, label + '-names')
        ctx.check(a.nextlevel() is (ps.level(cur[i + 1]) if i + 1 < len(cur) else None), label + '-next')
        ctx.check(a.prevlevel() is (ps.level(cur[i - 1]) if i else None), label + '-prev')


def ranks(ctx, held, cur, label):
    """Levels obtained earlier (they may no longer be in the set)."""
    there = [x for x in held if x in cur]
    for x in there:
        i = cur.index(x)
        ctx.check(held[x].rank == i, label + '-rank', (x, i))
        for y in there:
            ctx.check((held[x] < held[y]) == (i < cur.index(y)), label + '-order', (x, y))
            ctx.check((held[x] >= y.lower()) == (i >= cur.index(y)), label + '-order-name', (x, y))


@harness('C15', bounds='sets of 2 or 4 levels, compared between up to 2 operations (any of 8 kinds, any shift); all pairs, all operators, against levels and names',
         covers=('done', 'moved'))
def reordered(ctx):
    names = ('aa', 'bb', 'cc', 'dd')[:ctx.pick('size', (2, 4))]
    ps, m = PrioritySet(levels=names), Model(names)
    old = list(m.cur)
    held = {x: ps.level(x) for x in old}
    ranks(ctx, held, old, 'before')
    for _ in range(2):
        operate(ctx, ps, m, ('extend', 'remove', 'rerank', 'reset', 'up', 'down', 'top', 'addbefore'))
        ranks(ctx, held, m.cur, 'held')
    compare_all(ctx, ps, m.cur, 'after')
    if m.cur != old:
        ctx.cover('moved')


@harness('C15', bounds='any index in -6..6 on sets of 0-4 levels', covers=('inside', 'outside'))
def indexes(ctx):
    names = ('aa', 'bb', 'cc', 'dd')[:ctx.choose('size', 5)]
    ps = PrioritySet(levels=names)
    i = ctx.sym_int('index', -6, 6)
    got = ps.levelbyindex(i)
    if got is None:
        ctx.cover('outside')
        ctx.check(ctx.or_(i < 0, i >= len(names)), 'no-level-although-inside')
    else:
        ctx.cover('inside')
        ctx.check(ctx.and_(i >= 0, i < len(names), i == got.rank), 'level-by-index')
        ctx.check(got.tag == names[got.rank].upper(), 'level-tag')


class Odd:
    """An object whose text is the name of a level."""

    def __str__(self):
        return 'aa'


@harness('C15', bounds='equality with a pool of objects which are not the name of a level, and lookup', covers=('junk',))
def junk(ctx):
    ps = PrioritySet(levels=('aa', 'bb', 'cc'))
    lv = ps.level(ctx.pick('level', ('aa', 'bb', 'cc')))
    x = ctx.pick('junk', (None, '', 'zz', 'b', 'bbb', ' bb', 'bb ', 'bb\n', 0, 1, 2.5, True, (), ('bb',), ['bb'], {'bb': 1}, object(), b'bb',
                          'none', 'None', '__dict__', '_levels', 'extend'))
    ctx.cover('junk')
    ctx.check((lv == x) is False and (lv != x) is True, 'equal-to-junk', repr(x))
    if isinstance(x, str):
        ctx.check(ps.level(x) is None and x not in ps, 'junk-lookup', x)
    ctx.check((ps.level('aa') == Odd()) is True and (ps.level('bb') == Odd()) is False, 'text-of-object')


@harness('C14', bounds='sets of 1-3 levels after an operation of 16 kinds; the set is copied (deeply), then either of them is changed by another operation',
         covers=('done', 'refused'))
def copies(ctx):
    import copy
    ps, m = startset(ctx, 3)
    operate(ctx, ps, m)
    cp, mc = copy.deepcopy(ps), copy.deepcopy(m)
    consistent(ctx, cp, mc, 'copy')
    one = ctx.flag('original')
    operate(ctx, ps if one else cp, m if one else mc, ('extend', 'remove', 'rerank', 'restore', 'top'))
    ctx.cover('done')
    consistent(ctx, ps, m, 'original-after')
    consistent(ctx, cp, mc, 'copy-after')


@harness('C15', bounds='lookups of levels by level objects, names in any case and names which do not exist, positions asked by such names', covers=('known', 'unknown'))
def lookups(ctx):
    names = ('aa', 'bb', 'cc')
    ps = PrioritySet(levels=names)
    n = ctx.pick('name', names + ('zz', 'a', ''))
    t = ctx.pick('case', (n, n.upper(), n.capitalize()))
    known = n in names
    ctx.cover('known' if known else 'unknown')
    lv = ps.level(t)
    ctx.check((lv is not None) == known and (t in ps) == known, 'level', t)
    if known:
        ctx.check(lv.tag == n.upper() and ps.level(lv) is lv and lv in ps and ps.levelindex(t) == names.index(n), 'known-level', t)
        ctx.check(lv.as_dump().startswith(n.upper()), 'dump', lv.as_dump())
    else:
        try:
            ps.levelindex(t)
            ctx.check(False, 'position-of-nothing')
        except ValueError:
            pass
    ctx.check(list(ps()) == [x.upper() for x in names], 'modified')
