"""C10: only clauses."""
from footprints import config

from symx.core import Pred

from ._common import *  # noqa: F401,F403
from ._common import (ABSENT, T0, T1, Raw, coll, footprints, harness, isin, mkclass, same)

ASSUMPTIONS = {}


def item(ctx, name, pred=True):
    if pred and ctx.flag(name + '.pred'):
        return Pred(name)
    return ctx.val(name, T0)


def entry(ctx, form, n, few=False):
    """An entry and its alternatives."""
    pred = not form.startswith(('after_', 'before_'))
    nalt = ctx.pick('shape' + n, ('bare', 'one', 'two', 'none') if few else ('bare', 'one', 'two'))
    if nalt == 'none':
        return [[], (), set(), {}][ctx.choose('empty' + n, 4)], []
    alts = [item(ctx, 'a{}{}'.format(n, j), pred) for j in range(2 if nalt == 'two' else 1)]
    if nalt == 'bare':
        return alts[0], alts
    return (tuple(alts) if ctx.flag('tuple') else list(alts)) if nalt == 'two' else tuple(alts), alts


def satisfied(ctx, form, alts, values):
    """Reference model."""
    name = form.partition('_')[2] if form.startswith(('after_', 'before_')) else form
    v = values.get(name)
    if v is None:
        return None
    r = False
    for a in alts:
        if form.startswith('after_'):
            c = v >= a
        elif form.startswith('before_'):
            c = v < a
        elif isinstance(a, Pred):
            c = a.match(v)
        else:
            c = v == a
        r = ctx.or_(r, c)
    return r


def run(ctx, forms, reports=(config.NO_REPORTING, config.ONERROR_REPORTING, config.FULL_REPORTING)):
    only, model = {}, []
    for n, f in enumerate(forms):
        if f in only:
            continue
        only[f], alts = entry(ctx, f, str(n), few=len(forms) == 1)
        model.append((f, alts))
    attr = dict(m=dict(type=T0), k=dict(type=T0, optional=True))
    desc = dict(m=ctx.val('in.m', T0))
    if ctx.flag('given'):
        desc['k'] = ctx.val('in.k', T0)
    sd = {}
    if ctx.flag('global'):
        n = ctx.pick('gname', ('z', 'Z'))
        sd[n] = ctx.val('in.z', T0)
    footprints.setup.defaults = sd
    footprints.setup.report = ctx.pick('report', reports)
    # the name of a global default may be written in any letter case in the clause too
    mixed = ctx.pick('case', (lambda x: x, lambda x: x.replace('z', 'Z'))) if any('z' in f for f in forms) else (lambda x: x)
    cls = mkclass('One', dict(attr=attr, only={mixed(k): v for k, v in only.items()}))
    values = dict(desc)
    if sd:
        values['z'] = list(sd.values())[0]
    how = ctx.pick('how', ('load', 'any'))
    if how == 'load':
        obj = coll().load(_emptywarning=False, **desc)
    else:
        obj = coll().find_any(dict(desc))
    exp = True
    for f, alts in model:
        s = satisfied(ctx, f, alts, values)
        if s is None:
            ctx.cover('novalue')
            s = False
        exp = ctx.and_(exp, s)
    if obj is not None:
        ctx.cover('selected')
        ctx.check(exp, 'selected-in-spite-of-only', sorted(only))
        ctx.check(same(obj.m, desc['m']) and (obj.k is None if 'k' not in desc else same(obj.k, desc['k'])), 'values')
    else:
        ctx.cover('excluded')
        ctx.check(ctx.not_(exp), 'excluded-although-satisfied', sorted(only))


FORMS = ('k', 'after_k', 'before_k', 'z', 'after_z', 'before_z')


@harness('C10', bounds='1 entry of any of 6 forms (attribute or global default; value/pattern, after, before), 0-2 alternatives or a bare one; '
         'attribute given or undefined, global default present or not in any case; 3 report levels; load or find_any',
         covers=('selected', 'excluded', 'novalue'))
def one_entry(ctx):
    run(ctx, (ctx.pick('form', FORMS),))


@harness('C10', bounds='2 entries of any of the 6 forms, 1-2 alternatives; 1 report level', covers=('selected', 'excluded', 'novalue'))
def two_entries(ctx):
    a = ctx.choose('form0', len(FORMS))
    b = ctx.choose('form1', len(FORMS))
    if a == b:
        return
    run(ctx, (FORMS[a], FORMS[b]), reports=(config.ONERROR_REPORTING,))


@harness('C10', bounds='1 entry on an attribute whose value is converted, remapped or defaulted', covers=('selected', 'excluded'))
def resolved_value(ctx):
    form = ctx.pick('form', ('k', 'after_k', 'before_k'))
    only, alts = entry(ctx, form, '0')
    fp = dict(type=T0)
    desc = {}
    how = ctx.pick('how', ('raw', 'remap', 'default', 'alias', 'setup'))
    if how == 'raw':
        desc['k'] = ctx.val('in', Raw)
    elif how == 'remap':
        a, b = ctx.val('rk', T0), ctx.val('rv', T0)
        ctx.assume(a != b)
        fp['remap'] = {a: b}
        desc['k'] = a
    elif how == 'default':
        fp.update(optional=True, default=ctx.val('d', T0))
    elif how == 'alias':
        fp['alias'] = ['al']
        desc['al'] = ctx.val('in', T0)
    else:
        footprints.setup.defaults = dict(k=ctx.val('in', T0))
    free = mkclass('Free', dict(attr=dict(k=dict(fp))), tag='free')
    ref = footprints.collectors.get(tag='free').load(_emptywarning=False, **desc)
    mkclass('One', dict(attr=dict(k=dict(fp)), only={form: only}))
    obj = coll().load(_emptywarning=False, **desc)
    if ref is None:
        ctx.check(obj is None, 'selected-although-invalid')
        return
    exp = satisfied(ctx, form, alts, dict(k=ref.k))
    ctx.cover('selected' if obj is not None else 'excluded')
    ctx.check(exp if obj is not None else ctx.not_(exp), 'wrong-selection')


@harness('C10', bounds='an only clause given as a list, inherited and completed by a subclass; both classes searched',
         covers=('selected', 'excluded'))
def inherited(ctx):
    f1, a1 = ctx.pick('form0', ('k', 'after_k')), None
    o1, a1 = entry(ctx, f1, '0')
    f2 = ctx.pick('form1', ('k', 'before_k'))
    o2, a2 = entry(ctx, f2, '1')
    aslist = ctx.flag('aslist')
    up = mkclass('Up', dict(attr=dict(k=dict(type=T0)), only=[{f1: o1}] if aslist else {f1: o1}), order=1)
    down = mkclass('Down', dict(only=[{f2: o2}] if aslist else {f2: o2}), base=up, order=2)
    desc = dict(k=ctx.val('in.k', T0))
    got = {c for c, r, i in coll().find_all(desc)}
    e1 = satisfied(ctx, f1, a1, desc)
    e2 = satisfied(ctx, f2, a2, desc)
    if f1 != f2:
        e2 = ctx.and_(e1, e2)
    for cl, e in ((up, e1), (down, e2)):
        ctx.cover('selected' if cl in got else 'excluded')
        ctx.check(e if cl in got else ctx.not_(e), 'wrong-selection', cl.__name__)
