"""C24: protected containers."""
import copy
import itertools
import pickle
import re

from footprints import stdtypes, util
from footprints.stdtypes import FPDict, FPList, FPRegex, FPSet, FPStr, FPTuple

from ._common import *  # noqa: F401,F403
from ._common import Raw, coll, core, footprints, harness, mkclass, same
from symx.core import Infeasible, Val

ASSUMPTIONS = {
    'C24': ['elements are opaque values of unknown equality and order; their hash is one of two values, equal for equal elements',
            'containers of at most 3 elements'],
}


class HVal(Val):
    """An opaque value which chooses its hash."""
    __slots__ = ('h',)

    def __hash__(self):
        return self.h

    def __deepcopy__(self, memo):
        return memo.setdefault(id(self), hmk(self.e, self.h, self.tag))

    def __copy__(self):
        return hmk(self.e, self.h, self.tag)

    def __reduce__(self):
        return (hrebuild, (self.e if isinstance(self.e, int) else core.CUR.intern(self.e), self.h, self.tag))


def hmk(e, h, tag):
    v = HVal.mk(e, tag)
    v.h = h
    return v


def hrebuild(e, h, tag):
    return hmk(e if isinstance(e, int) else core.CUR.unintern(e), h, tag)


def elems(ctx, name, n, nh=2):
    out = []
    for i in range(n):
        v = ctx.val('{}{}'.format(name, i), HVal)
        v.h = (11, 12)[ctx.choose('{}{}.hash'.format(name, i), nh if i else 1)]
        for w in out:
            if w.h != v.h:
                ctx.assume(ctx.not_(v == w))
        out.append(v)
    return out


def plain(x):
    """The plain counterpart."""
    return {FPDict: dict, FPList: list, FPSet: set, FPTuple: tuple, FPStr: str}[x.__class__](x)


def equalpair(ctx, a, b, label):
    ctx.check(a == b and b == a and not a != b, label + '-not-equal', (a, b))
    if a.__class__.__hash__ is not None and b.__class__.__hash__ is not None:
        ctx.check(hash(a) == hash(b), label + '-hash', (a, b))


def survives(ctx, x, mutable=True):
    """Copy, deep copy, pickle, expansion."""
    ctx.check(x == plain(x) and plain(x) == x, 'plain-not-equal', x)
    for how, f in (('copy', copy.copy), ('deepcopy', copy.deepcopy), ('pickle', lambda a: pickle.loads(pickle.dumps(a)))):
        y = f(x)
        ctx.check(y.__class__ is x.__class__, how + '-class', y.__class__)
        equalpair(ctx, x, y, how)
        if mutable:
            ctx.check(y is not x, how + '-same-object')
    for desc, n in ((dict(a=x, b='u'), 1), (dict(a=x, b=['u', 'w']), 2), (dict(b=x), 1)):
        key = 'a' if 'a' in desc else 'b'
        res = util.expand(desc)
        ctx.check(len(res) == n, 'expanded', res)
        for r in res:
            ctx.check(r[key].__class__ is x.__class__, 'expansion-class', r)
            equalpair(ctx, x, r[key], 'expansion')


@harness('C24', bounds='sets of 0 to 3 elements added in every order, some possibly equal, after removal or not', covers=('merged', 'distinct'))
def sets(ctx):
    n = ctx.choose('n', 4)
    els = elems(ctx, 'x', n)
    perm = ctx.pick('perm', list(itertools.permutations(range(n))))
    a = FPSet(els)
    b = FPSet()
    other = ctx.val('tmp', HVal)
    other.h = 12
    tmp = ctx.flag('with-removal') and n < 3
    if tmp:
        for v in els:
            ctx.assume(ctx.not_(other == v))
        b.add(other)
    for i in perm:
        b.add(els[i])
    if tmp:
        b.discard(other)
    ctx.cover('merged' if len(a) < n else 'distinct')
    equalpair(ctx, a, b, 'order')
    ctx.check(a == set(els), 'plain-set')
    ctx.check(hash(a) == hash(FPSet(frozenset(els))), 'frozen')
    its = a.items()
    ctx.check(len(its) == len(a) and isinstance(its, tuple), 'items', its)
    for v in els:
        ctx.check([w for w in its if w == v], 'items-lost')
    exp = a.footprint_export()
    ctx.check(isinstance(exp, list) and len(exp) == len(a), 'export', exp)
    for v, w in zip(exp, exp[1:]):
        ctx.check(v < w, 'export-not-sorted', exp)
    for v in exp:
        ctx.check(v in a, 'export-invented', exp)
    # elements which cannot be sorted
    m = FPSet(list(els) + ['txt', 3])
    exp = m.footprint_export()
    ctx.check(isinstance(exp, list) and len(exp) == len(m) and 'txt' in exp and 3 in exp, 'unsortable-export', exp)
    if perm == tuple(range(n)) and not tmp:
        survives(ctx, a)


@harness('C24', bounds='dictionaries of 0 to 3 items of opaque keys and values inserted in every order, some keys possibly equal, with '
         'replacement or removal of items', covers=('merged', 'distinct'))
def dicts(ctx):
    n = ctx.choose('n', 4)
    keys = elems(ctx, 'k', n)
    vals = elems(ctx, 'v', n)
    for i in range(n):
        # (the value of equal keys would depend on the order)
        for j in range(i):
            ctx.assume(ctx.implies(keys[i] == keys[j], vals[i] == vals[j]))
    perm = ctx.pick('perm', list(itertools.permutations(range(n))))
    a = FPDict(zip(keys, vals))
    how = ctx.pick('how', ('set', 'replace', 'remove', 'update'))
    b = FPDict()
    if n and how in ('replace', 'remove'):
        b[keys[perm[-1]]] = keys[0]
        if how == 'remove':
            del b[keys[perm[-1]]]
        for i in perm:
            b[keys[i]] = vals[i]
    elif how == 'update':
        b.update([(keys[i], vals[i]) for i in perm])
    else:
        for i in perm:
            b.setdefault(keys[i], vals[i])
    ctx.cover('merged' if len(a) < n else 'distinct')
    equalpair(ctx, a, b, 'order')
    ctx.check(a == dict(zip(keys, vals)), 'plain-dict')
    ctx.check(len(a.items()) == len(a), 'items')
    for k, v in zip(keys, vals):
        ctx.check(a[k] == v, 'content')
        ctx.check([1 for x, y in a.items() if x == k and y == v], 'items-lost')
    if perm == tuple(range(n)):
        survives(ctx, a)


@harness('C24', bounds='lists and tuples of 0 to 3 elements, compared with another of 0 to 3 elements', covers=('equal', 'different'))
def sequences(ctx):
    cls = ctx.pick('cls', (FPList, FPTuple))
    n = ctx.choose('n', 4)
    m = ctx.choose('m', 4)
    els = elems(ctx, 'x', n)
    oth = elems(ctx, 'y', m) if n != m or n < 3 else elems(ctx, 'y', m, nh=1)
    for v in els:
        for w in oth:
            if v.h != w.h:
                ctx.assume(ctx.not_(v == w))
    a, b = cls(els), cls(oth)
    if a == b:
        ctx.cover('equal')
        ctx.check(n == m, 'equal-lengths')
        for v, w in zip(els, oth):
            ctx.check(v == w, 'equal-elements')
        equalpair(ctx, a, b, 'equal')
    else:
        ctx.cover('different')
        if n == m:
            ctx.check(ctx.not_(ctx.and_(*[v == w for v, w in zip(els, oth)])), 'elements-equal-but-not-sequences')
    if m:
        return
    its = a.items()
    ctx.check(isinstance(its, list) and len(its) == n and its is not a, 'items', its)
    for v, w in zip(its, els):
        ctx.check(v is w, 'items-content')
    its.append(0)
    ctx.check(len(a) == n, 'items-not-a-copy')
    survives(ctx, a, mutable=cls is FPList)
    if cls is FPList:
        h = hash(a)
        a.append(els[0] if n else 0)
        ctx.check(hash(a) == hash(FPList(list(els) + [els[0] if n else 0])), 'hash-after-change')
        a.pop()
        ctx.check(hash(a) == h, 'hash-after-restoration')


SPECIAL = (None, 0, False, '', (), 0.0, 1, True, 'x', frozenset())


@harness('C24', bounds='containers of 2 or 3 elements, one opaque and two among 10 special values (None, false values, equal values of different types), '
         'in any order', covers=('end',))
def special_elements(ctx):
    kind = ctx.pick('kind', (FPList, FPTuple, FPSet, FPDict))
    els = [ctx.pick('a', SPECIAL), ctx.pick('b', SPECIAL)]
    if ctx.flag('opaque'):
        els += elems(ctx, 'x', 1)
        if ctx.flag('first'):
            els.reverse()
    if kind is FPDict:
        content = [(k, els[0]) for k in els]
    else:
        content = list(els)
    a = kind(content)
    full = {FPList: list, FPTuple: tuple, FPSet: set, FPDict: dict}[kind](content)
    ctx.check(a == full and len(a) == len(full), 'plain', (a, full))
    its = a.items()
    ctx.check(len(its) == len(full), 'items', its)
    for v in full.items() if kind is FPDict else full:
        ctx.check(any(v is w or v == w for w in its), 'items-lost', (v, its))
    if kind in (FPList, FPTuple):
        ctx.check(all(v is w for v, w in zip(its, els)), 'items-order', its)
    # equal contents written differently
    twin = [{0: False, 1: True}.get(v, v) if isinstance(v, (int, float)) else v for v in els]
    b = kind([(k, twin[0]) for k in twin] if kind is FPDict else twin)
    equalpair(ctx, a, b, 'twins')
    if kind is FPSet:
        exp = a.footprint_export()
        ctx.check(isinstance(exp, list) and len(exp) == len(full) and all(v in a for v in exp), 'export', exp)
    survives(ctx, a, mutable=kind is not FPTuple)
    cls = mkclass('One', dict(attr=dict(k=dict(type=kind))))
    obj = coll().load(_emptywarning=False, k=full)
    ctx.check(obj is not None and obj.k == full and obj.k.__class__ is kind, 'attribute')
    ctx.check(len(obj.footprint_export()['k']) == len(full), 'attribute-export')
    ctx.check(cls(k=a).k == full, 'attribute-direct')
    ctx.cover('end')


TEXTS = ('', 'x', 'a,b', '1-4-2', 'a,b,1-3', 'a.{glob:n:.*}', '[k:m]', ' u ', 'None')


@harness('C24', bounds='protected texts among 9 (with commas, ranges, glob parts, references)', covers=('end',))
def texts(ctx):
    t = ctx.pick('txt', TEXTS)
    a = FPStr(t)
    ctx.check(a == t and t == a and hash(a) == hash(t) and len(a) == len(t) and a.upper() == t.upper(), 'plain-text')
    ctx.check({a: 1} == {t: 1} and a in {t}, 'as-key')
    survives(ctx, a, mutable=False)
    n = ctx.pick('flags', (0, 2))
    r = FPRegex('a.*', n)
    for x in (r, copy.copy(r), copy.deepcopy(r), pickle.loads(pickle.dumps(r))):
        ctx.check(x.footprint_export() == ('a.*', re.compile('a.*', n).flags), 'regex-export')
        ctx.check(bool(x.match('Abc')) == bool(n) and bool(x.match('abc')), 'regex-match')
    ctx.cover('end')


@harness('C24', bounds='protected containers of 0-2 elements nested in one another, in any order, and used as attribute values (given protected or '
         'plain), exported', covers=('nested', 'converted'))
def nested_and_attributes(ctx):
    n = ctx.choose('n', 3)
    els = elems(ctx, 'x', n)
    perm = ctx.pick('perm', list(itertools.permutations(range(n))))
    pels = [els[i] for i in perm]
    a = FPDict(u=FPSet(els), w=FPDict(zip(els, range(7, 7 + n))))
    b = FPDict(w=FPDict([(els[i], 7 + i) for i in perm]), u=FPSet(pels))
    if not (n == 2 and els[0] == els[1]):
        ctx.cover('nested')
        equalpair(ctx, a, b, 'nested')
        equalpair(ctx, FPList([a, 1]), FPList([b, 1]), 'nested-list')
        equalpair(ctx, FPSet([a, 1]), FPSet([1, b]), 'nested-set')
        survives(ctx, a)
    kind = ctx.pick('kind', (FPList, FPSet, FPTuple, FPDict))
    content = dict(zip(els, range(n))) if kind is FPDict else list(els)
    cls = mkclass('One', dict(attr=dict(k=dict(type=kind))))
    given = kind(content)
    if ctx.flag('plain'):
        given = plain(given)
        ctx.cover('converted')
    obj = coll().load(_emptywarning=False, k=given)
    ctx.check(obj is not None and obj.k.__class__ is kind, 'attribute')
    equalpair(ctx, obj.k, kind(content), 'attribute')
    exp = obj.footprint_export()['k']
    if kind is FPSet:
        ctx.check(isinstance(exp, list) and len(exp) == len(obj.k), 'attribute-export', exp)
        for v, w in zip(exp, exp[1:]):
            ctx.check(v < w, 'attribute-export-not-sorted', exp)
    else:
        ctx.check(exp == given or exp == kind(content), 'attribute-export', exp)
