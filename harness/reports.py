"""C21, C22: the reports."""
import contextlib
import io

from footprints import config, priorities, reporting, util  # noqa: F401

from ._common import *  # noqa: F401,F403
from ._common import (ABSENT, CONVERR, T0, T1, W0, Pred, Raw, coll, footprints, harness, internal, isin, mkclass)
from symx.core import Infeasible

ASSUMPTIONS = {
    'C21': ['opaque values (equality, conversion outcome unknown)', 'at most 2 classes of 2 attributes and 2 consecutive searches',
            'reasons are read from the last report entry, its dictionary view, whynot and the printed reports'],
    'C22': ['histories of at most 5 operations (6 in the thorough tier) on one log', 'entry names taken from two collectors and two classes'],
}

# the texts a user reads
MISSING = 'Missing value'
OUTSIDE = 'Not in values'
OUTCAST = 'Outcast value'
RECLASS = 'Could not reclass'
SUBCLASS = 'Not a subclass'
NOTFOUND = 'No value found'
NOTMATCH = 'Do not match'


# -- C21 -------------------------------------------------------------------------

def decl(ctx, n, defaults=True):
    """A declaration: (dict for the code, default)."""
    d = dict(type=T0)
    kind = ctx.pick('kind.' + n, ('plain', 'values', 'outcast', 'both'))
    if kind in ('values', 'both'):
        d['values'] = [ctx.val('v.' + n, T0)]
    if kind in ('outcast', 'both'):
        d['outcast'] = [ctx.val('o.' + n, T0)]
    opt = ctx.pick('opt.' + n, ('mandatory', 'optional', 'default') if defaults else ('mandatory', 'optional'))
    if opt != 'mandatory':
        d['optional'] = True
    if opt == 'default':
        d['default'] = ctx.val('d.' + n, Raw)
    return d


def reason(d, given):
    """The reason which applies to a value for a declaration (None: valid)."""
    v = given
    opt = d.get('optional', False)
    if v is ABSENT or (v is None and opt):
        if not opt:
            return MISSING
        v = d.get('default')
        if v is None:
            return None
    if v is None:
        return MISSING
    if isin(v, d.get('remap', {})):
        v = [d['remap'][x] for x in d['remap'] if x == v][0]
    if d.get('isclass'):
        if not (isinstance(v, type) and issubclass(v, d['type'])):
            return SUBCLASS
    elif not isinstance(v, d['type']):
        try:
            v = d['type'](v)
        except CONVERR:
            return RECLASS
    if d.get('values') and not isin(v, d['values']):
        return OUTSIDE
    if d.get('outcast') and isin(v, d['outcast']):
        return OUTCAST
    return None


def given(ctx, n, kinds=(ABSENT, None, T0, Raw)):
    k = ctx.pick('in.' + n, kinds)
    return k if k in (ABSENT, None) else ctx.val('x.' + n, k)


def entries(entry):
    """{class name: [(attribute, reason)]} of a report entry."""
    out = {}
    for kid in entry:
        lst = out.setdefault(kid.name, [])
        for it in kid:
            lst.append((it['name'], it.get('why', it.get('only'))))
    return out


def judge(ctx, entry, model, onlys, found=()):
    """model: {class: {attr: reason}}; onlys: {class: (entry attribute, reason) or None}."""
    rep = entries(entry)
    dic = entry.as_dict()
    names = sorted(c.fullname() for c in model)
    ctx.check(sorted(rep) == names and sorted(dic) == names, 'examined-classes', (sorted(rep), sorted(dic)))
    for c, table in model.items():
        blamed = rep[c.fullname()]
        oly = onlys.get(c)
        valid = all(r is None for r in table.values()) and oly is None
        if valid:
            ctx.check(not blamed and not dic[c.fullname()], 'selected-class-blamed', blamed)
            continue
        ctx.check(len(blamed) > 0, 'rejected-without-reason')
        for a, why in blamed:
            ctx.cover(str(why))
            if why in (NOTFOUND, NOTMATCH):
                ctx.check(all(r is None for r in table.values()), 'only-entry-blamed-before-attributes', (a, why))
                ctx.check(oly is not None and (a, why) == oly, 'wrong-only-entry', (a, why, oly))
            else:
                ctx.check(a in table, 'unknown-attribute-blamed', a)
                ctx.check(table[a] is not None, 'valid-attribute-blamed', (a, why))
                ctx.check(table[a] == why, 'wrong-reason', (a, why, table[a]))
        dd = dic[c.fullname()]
        ctx.check(sorted(dd) == sorted({a for a, w in blamed}), 'dictionary-attributes', dd)
        for a in dd:
            ctx.check((a, dd[a].get('why', dd[a].get('only'))) in blamed, 'dictionary-reason', dd[a])
    return rep


def search(ctx, desc, how):
    if how == 'load':
        return coll().load(_emptywarning=False, **desc)
    return getattr(coll(), how)(dict(desc)) or None


LEVELS = (config.ONERROR_REPORTING, config.LIGHT_REPORTING, config.FULL_REPORTING)


def settings(ctx, modes=True):
    footprints.setup.report = ctx.pick('report', LEVELS)
    if modes:
        m = ctx.pick('mode', ('normal', 'fast', 'fastkeys'))
        footprints.setup.fastmode = m == 'fast'
        footprints.setup.fastkeys = ('k',) if m == 'fastkeys' else ()


ALLATTR = (MISSING, OUTSIDE, OUTCAST, RECLASS)


@harness('C21', bounds='one class of 2 attributes (plain/values/outcast/both, mandatory/optional/default), each given/None/absent/to be '
         'converted; normal or fast mode, any fast key; 3 report levels',
         covers=ALLATTR)
def two_attributes(ctx):
    settings(ctx)
    fp = dict(k=decl(ctx, 'k'), m=decl(ctx, 'm', defaults=False))
    cls = mkclass('One', dict(attr=fp))
    desc = {}
    for n in fp:
        v = given(ctx, n)
        if v is not ABSENT:
            desc[n] = v
    obj = search(ctx, desc, 'load')
    table = {n: reason(d, desc.get(n, ABSENT)) for n, d in fp.items()}
    good = all(r is None for r in table.values())
    ctx.check((obj is not None) == good, 'outcome')
    if good:
        if footprints.setup.report != config.ONERROR_REPORTING:
            judge(ctx, coll().report_last, {cls: table}, {})
        return
    judge(ctx, coll().report_last, {cls: table}, {})


@harness('C21', bounds='two classes of one or two attributes with opposite constraints; load, find_all, find_any, find_best, class test with '
         'its own report; whynot with 8 patterns', covers=ALLATTR + ('several', 'nobody-asked'))
def two_classes(ctx):
    settings(ctx, modes=False)
    fps = [dict(k=decl(ctx, 'a', defaults=False)), dict(k=decl(ctx, 'b', defaults=False), z=dict(type=T0, optional=True))]
    if ctx.flag('zvalues'):
        fps[1]['z']['values'] = [ctx.val('zv', T0)]
    how = ctx.pick('how', ('load', 'find_all', 'find_any', 'find_best', 'couldbe'))
    rev = how in ('find_all', 'find_any') and ctx.flag('reverse')
    classes = [mkclass('Alpha', dict(attr=fps[0]), order=2 if rev else 1), mkclass('Beta', dict(attr=fps[1]), order=1 if rev else 2)]
    desc = {}
    for n, kinds in (('k', (T0, Raw, ABSENT)), ('z', (ABSENT, T0))):
        v = given(ctx, n, kinds)
        if v is not ABSENT:
            desc[n] = v
    if how == 'couldbe':
        with contextlib.redirect_stdout(io.StringIO()):
            res, u = classes[1].footprint_couldbe(dict(desc), mkreport=True)
        model = {classes[1]: {n: reason(d, desc.get(n, ABSENT)) for n, d in fps[1].items()}}
        good = all(r is None for r in model[classes[1]].values())
        ctx.check(bool(res) == good, 'outcome')
        judge(ctx, reporting.get(tag='void').last, model, {})
        return
    obj = search(ctx, desc, how)
    model = {c: {n: reason(d, desc.get(n, ABSENT)) for n, d in fp.items()} for c, fp in zip(classes, fps)}
    goods = [c for c in classes if all(r is None for r in model[c].values())]
    ctx.check((obj is not None) == bool(goods), 'outcome')
    if goods:
        return
    ctx.cover('several')
    rep = judge(ctx, coll().report_last, model, {})
    if how != 'load':
        return
    pat, who = ctx.pick('pattern', (('Alpha', (0,)), ('alpha', (0,)), ('BETA', (1,)), ('modgen', (0, 1)), ('', (0, 1)),
                                    ('zzz', ()), ('pkg.beta$', (1,)), ('^a', ())))
    if not who:
        ctx.cover('nobody-asked')
    why = coll().report_whynot(pat)
    ctx.check(sorted(why) == sorted(classes[i].fullname() for i in who), 'whynot-classes', sorted(why))
    for c in why:
        ctx.check(sorted((a, i.get('why', i.get('only'))) for a, i in why[c].items()) == sorted(rep[c]), 'whynot-reasons', why[c])


@harness('C21', bounds='one class, one attribute always there and one possibly undefined, only clause with up to 2 entries (equality, pattern, '
         'after, before) on the attributes or on a global default', covers=(NOTFOUND, NOTMATCH, RECLASS))
def onlys(ctx):
    settings(ctx)
    forms = [ctx.pick('only0', ('m', 'k', 'after_k', 'z')), ctx.pick('only1', (None, 'before_m', 'after_m', 'k', 'after_z', 'before_z'))]
    only, model = {}, []
    for i, f in enumerate(forms):
        if f is None or f in only:
            continue
        if f in ('m', 'k', 'z') and ctx.flag('pred{}'.format(i)):
            only[f] = (Pred('p{}'.format(i)),)
        else:
            only[f] = (ctx.val('a{}'.format(i), T0),)
        model.append((f, only[f][0]))
    fp = dict(m=dict(type=T0), k=dict(type=T0, optional=True))
    cls = mkclass('One', dict(attr=fp, only=only))
    desc = {}
    for n, kinds in (('m', (T0, Raw)), ('k', (ABSENT, T0))):
        v = given(ctx, n, kinds)
        if v is not ABSENT:
            desc[n] = v
    sd = dict(z=ctx.val('zd', T0)) if ctx.flag('global') else {}
    footprints.setup.defaults = sd
    obj = search(ctx, desc, 'load')
    table = {n: reason(d, desc.get(n, ABSENT)) for n, d in fp.items()}
    verdict = []
    if all(r is None for r in table.values()):
        res = {n: (desc[n] if isinstance(desc.get(n), T0) else T0(desc[n])) for n in desc}
        res.update(sd)
        for f, a in model:
            n = f.partition('_')[2] if '_' in f else f
            if n not in res:
                verdict.append((n, NOTFOUND))
                continue
            ok = (res[n] >= a if f.startswith('after') else res[n] < a if f.startswith('before')
                  else a.match(res[n]) if isinstance(a, Pred) else res[n] == a)
            if not ok:
                verdict.append((n, NOTMATCH))
    good = all(r is None for r in table.values()) and not verdict
    ctx.check((obj is not None) == good, 'outcome')
    if good:
        return
    last = coll().report_last
    rep = entries(last)
    ctx.check(sorted(rep) == [cls.fullname()], 'examined-classes')
    blamed = rep[cls.fullname()]
    # any of the unsatisfied entries may be the reported one
    pickd = [v for v in verdict if v in blamed]
    judge(ctx, last, {cls: table}, {cls: pickd[0] if pickd else (verdict[0] if verdict else None)})


@harness('C21', bounds='one class with a class-valued attribute and a remapped attribute', covers=(SUBCLASS, OUTSIDE, OUTCAST))
def classes_and_remap(ctx):
    settings(ctx)
    c = dict(type=T0, isclass=True)
    v = ctx.val('rv', T0)
    r = dict(type=T0, remap={ctx.val('rk', T0): v})
    r[ctx.pick('constraint', ('values', 'outcast'))] = [ctx.val('rc', T0)]
    fp = dict(c=c, r=r)
    cls = mkclass('One', dict(attr=fp))
    desc = dict(c=ctx.pick('c', (T0, T1, W0, 3)), r=ctx.val('x', T0))
    # (one step of remapping)
    ctx.assume(ctx.not_(v == list(r['remap'])[0]))
    obj = search(ctx, desc, 'load')
    cr = reason(c, desc['c'])
    table = dict(c=cr, r=reason(r, desc['r']))
    good = all(x is None for x in table.values())
    ctx.check((obj is not None) == good, 'outcome')
    if not good:
        judge(ctx, coll().report_last, {cls: table}, {})


@harness('C21', bounds='two consecutive failed searches, with light (length 1 or 2), full or on-error reports; each report is about its own '
         'search', covers=('kept', 'dropped'))
def two_searches(ctx):
    footprints.setup.report = ctx.pick('report', LEVELS)
    footprints.setup.lreport_len = ln = ctx.pick('len', (1, 2))
    fp = dict(k=decl(ctx, 'k', defaults=False))
    cls = mkclass('One', dict(attr=fp))
    n = 0
    models = []
    for i in range(2):
        v = given(ctx, 'k{}'.format(i), (ABSENT, T0, Raw))
        desc = {} if v is ABSENT else dict(k=v)
        obj = search(ctx, desc, 'load')
        table = dict(k=reason(fp['k'], v))
        ctx.check((obj is not None) == (table['k'] is None), 'outcome')
        if table['k'] is not None:
            models.append(table)
            judge(ctx, coll().report_last, {cls: table}, {})
        elif footprints.setup.report != config.ONERROR_REPORTING:
            models.append(table)
            judge(ctx, coll().report_last, {cls: table}, {})
    exp = models if footprints.setup.report == config.FULL_REPORTING else models[-ln:]
    ctx.cover('kept' if exp == models else 'dropped')
    log = list(coll().report_log)
    ctx.check(len(log) == len(exp) == len(coll().report_log), 'number-of-reports', len(log))
    for e, t in zip(log, exp):
        judge(ctx, e, {cls: t}, {})
    d = coll().report_log.as_dict(stamp=False)
    ctx.check(len(d) == len(exp), 'number-of-reports-in-dict', list(d))


@harness('C21', bounds='the 4 printed report styles, one class of two attributes and an only entry', covers=(MISSING, OUTSIDE, NOTMATCH))
def printed(ctx):
    footprints.setup.report = ctx.pick('report', LEVELS)
    footprints.setup.report_style = style = ctx.pick('style', (
        config.RAW_REPORTINGSTYLE, config.FLAT_REPORTINGSTYLE, config.FACTORIZED1_REPORTINGSTYLE, config.FACTORIZED2_REPORTINGSTYLE))
    fps = [dict(kcol=dict(type=T0, values=[ctx.val('v0', T0)]), mcol=dict(type=T0)), dict(kcol=dict(type=T0))]
    lim = ctx.val('lim', T0)
    classes = [mkclass('Alpha', dict(attr=fps[0])), mkclass('Beta', dict(attr=fps[1], only=dict(kcol=lim)), order=2)]
    desc = {}
    for n, kinds in (('kcol', (T0, Raw, ABSENT)), ('mcol', (T0, ABSENT))):
        v = given(ctx, n, kinds)
        if v is not ABSENT:
            desc[n] = v
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        obj = coll().load(**desc)
    model = {c: {n: reason(d, desc.get(n, ABSENT)) for n, d in fp.items()} for c, fp in zip(classes, fps)}
    only = None
    if model[classes[1]]['kcol'] is None:
        k = desc['kcol'] if isinstance(desc['kcol'], T0) else T0(desc['kcol'])
        if not k == lim:
            only = ('kcol', NOTMATCH)
    goods = [c for c in classes if all(r is None for r in model[c].values()) and not (c is classes[1] and only)]
    ctx.check((obj is not None) == bool(goods), 'outcome')
    txt = out.getvalue()
    if goods:
        ctx.check(txt == '', 'printed-without-failure', txt)
        return
    rep = judge(ctx, coll().report_last, model, {classes[1]: only})
    for c in rep:
        ctx.check(c in txt, 'class-not-printed', txt)
        for a, w in rep[c]:
            ctx.check(a in txt and w in txt, 'entry-not-printed', (c, a, w, txt))
    said = {w for c in rep for a, w in rep[c]}
    for w in (MISSING, OUTSIDE, OUTCAST, RECLASS, SUBCLASS, NOTFOUND, NOTMATCH):
        ctx.check(w in said or w not in txt, 'reason-invented', w)


# -- C22 -------------------------------------------------------------------------

class Node:
    """What a log expects from a collector (tag) and from a class (fullname)."""

    def __init__(self, name):
        self.tag = name

    def fullname(self):
        return self.tag


COLS = (Node('cola'), Node('colb'))
CLSS = (Node('pk.Aa'), Node('pk.Bb'))


def views_ok(ctx, log, model, views):
    """model: list of [collector name, [ (class name, [(attribute, why)]) ]]."""
    if any(len({c for c, a in m[1]}) < len(m[1]) for m in model):
        # a class examined twice under one collector has one entry only in the dictionaries: nothing is said about them
        views = [v for v in views if v in ('len', 'xml')]
        ctx.cover('twice')
    if 'len' in views:
        ctx.check(len(log) == len(model) and len(list(log)) == len(model), 'length', (len(log), len(model)))
    if 'last' in views:
        if model:
            ctx.check(log.last is not None and log.last.name == model[-1][0], 'last-entry')
            ctx.check(flatdict(log.last.as_dict()) == expdict(model[-1]), 'last-content', log.last.as_dict())
        else:
            ctx.check(log.last is None, 'last-of-empty')
    if 'whynot' in views:
        w = log.whynot('pk')
        if model:
            ctx.check(flatdict(w) == {c: a for c, a in expdict(model[-1]).items() if a}, 'whynot', w)
        else:
            ctx.check(w is None, 'whynot-of-empty')
    if 'dict' in views:
        d = log.as_dict(stamp=False)
        ctx.check(list(d) == ['{}_{:04d}'.format(m[0], i + 1) for i, m in enumerate(model)], 'dict-keys', list(d))
        for (k, v), m in zip(d.items(), model):
            ctx.check(flatdict(v) == expdict(m), 'dict-content', v)
    if 'sdict' in views:
        d = log.as_dict()
        # (the date in the key is the creation time of the entry, which may be the same for two entries)
        keys = [m[0] + ' ' + e.stamp.isoformat() for m, e in zip(model, log)]
        if len(set(keys)) == len(keys):
            ctx.check(list(d) == keys, 'stamped-dict-keys', list(d))
            for (k, v), m in zip(d.items(), model):
                ctx.check(flatdict(v) == expdict(m), 'stamped-dict-content', v)
    if 'xml' in views:
        root = log.as_xml().root
        kids = [n for n in root.childNodes]
        ctx.check([n.getAttribute('name') for n in kids] == [m[0] for m in model], 'xml-entries')
        for n, m in zip(kids, model):
            got = sorted((c.getAttribute('name'), tuple((a.getAttribute('name'), a.getAttribute('why')) for a in c.childNodes))
                         for c in n.childNodes)
            exp = sorted((c, tuple(a)) for c, a in m[1])
            if len({c for c, a in m[1]}) < len(m[1]):
                # (the entries of such a class may be gathered or not)
                got, exp = [sorted({(c,) for c, a in x} | {(c, y) for c, a in x for y in a}) for x in (got, exp)]
            ctx.check(got == exp, 'xml-content', got)


def flatdict(d):
    return {c: {a: i.get('why') for a, i in v.items()} for c, v in d.items()}


def expdict(m):
    out = {}
    for c, attrs in m[1]:
        out[c] = dict(attrs)
    return out


VIEWS = ('xml', 'dict', 'sdict', 'last', 'whynot', 'len')


def history(ctx, nops, ops, views, maxlens):
    maxlen = ctx.pick('maxlen', maxlens)
    log = reporting.get(tag='c22log', log_maxlen=maxlen, weak=ctx.flag('weak'))
    model = []
    cur = None           # None, ('col', entry) or ('cls', entry, class entry)
    n = 0
    for i in range(nops):
        op = ctx.pick('op{}'.format(i), ops)
        if op == 'col':
            c = COLS[n % 2]
            log.add(collector=c)
            ent = [c.tag, []]
            model.append(ent)
            if maxlen is not None and len(model) > maxlen:
                ctx.cover('dropped')
                del model[:len(model) - maxlen]
            cur = ('col', ent)
        elif op == 'cls':
            c = CLSS[(n + 1) // 2 % 2]
            try:
                log.add(candidate=c)
                done = True
            except reporting.FootprintBadLogEntry:
                done = False
            ctx.check(done == (cur is not None), 'candidate-acceptance', op)
            if done:
                ce = (c.fullname(), [])
                cur[1][1].append(ce)
                cur = ('cls', cur[1], ce)
            else:
                ctx.cover('refused')
        elif op == 'attr':
            try:
                log.add(attribute='a{}'.format(n), why='w{}'.format(n))
                done = True
            except reporting.FootprintBadLogEntry:
                done = False
            ctx.check(done == (cur is not None and cur[0] == 'cls'), 'attribute-acceptance')
            if done:
                cur[2][1].append(('a{}'.format(n), 'w{}'.format(n)))
            else:
                ctx.cover('refused')
        elif op == 'bad':
            try:
                log.add(other=1)
                ctx.fail('bad-entry-accepted')
            except reporting.FootprintBadLogEntry:
                pass
        elif op == 'clear':
            log.clear()
            model[:] = []
            cur = None
        elif op == 'reduce':
            log.reduce_to_last()
            del model[:-1]
        elif op in VIEWS:
            views_ok(ctx, log, model, (op,))
        n += 1
    views_ok(ctx, log, model, views)
    ctx.cover('end')


@harness('C22', bounds='histories of 4 operations among add collector/class/attribute, wrong add, clear, reduce, then a view, read before or not; '
         'maximum length none, 0, 1, 2; weak or not', covers=('end', 'refused', 'dropped', 'twice'))
def additions(ctx):
    history(ctx, 4, ('col', 'cls', 'attr', 'bad', 'clear', 'reduce'), ctx.pick('view', [(v,) for v in VIEWS]), (None, 0, 1, 2))


@harness('C22', bounds='histories: collector, class, attribute, then one view, then 2 operations, then any view twice', covers=('end',))
def stale_views(ctx):
    maxlen = ctx.pick('maxlen', (None, 1, 3))
    log = reporting.get(tag='c22log', log_maxlen=maxlen)
    ents = []

    def col(i):
        e = [COLS[i % 2].tag, []]
        log.add(collector=COLS[i % 2])
        ents.append(e)
        if maxlen is not None:
            del ents[:-maxlen]
        return e

    def cls(i, e):
        log.add(candidate=CLSS[i])
        ce = (CLSS[i].tag, [])
        e[1].append(ce)
        return ce

    e = col(0)
    c = cls(0, e)
    log.add(attribute='x', why='w0')
    c[1].append(('x', 'w0'))
    if ctx.flag('second'):
        e = col(1)
        c = cls(0, e)
    v1 = ctx.pick('view1', VIEWS[:5])
    views_ok(ctx, log, ents, (v1,))
    alive = True
    for i in range(2):
        op = ctx.pick('op{}'.format(i), ('attr', 'cls', 'col', 'clear', 'reduce', 'view'))
        if op == 'attr':
            if not alive or c is None:
                continue
            log.add(attribute='y{}'.format(i), why='w1')
            c[1].append(('y{}'.format(i), 'w1'))
        elif op == 'cls':
            if not alive or len(e[1]) > 1:
                continue
            c = cls(1, e) if e[1] else cls(0, e)
        elif op == 'col':
            e = col(i)
            c, alive = None, True
        elif op == 'clear':
            log.clear()
            del ents[:]
            alive = False
        elif op == 'reduce':
            log.reduce_to_last()
            del ents[:-1]
        else:
            views_ok(ctx, log, ents, (ctx.pick('between', VIEWS[:5]),))
    v2 = ctx.pick('view2', VIEWS)
    views_ok(ctx, log, ents, (v2,))
    views_ok(ctx, log, ents, VIEWS)
    ctx.cover('end')


@harness('C22', tier='thorough', bounds='histories of 6 operations, views included, then all the views', covers=('end', 'refused', 'dropped'))
def long_histories(ctx):
    history(ctx, 6, ('col', 'cls', 'attr', 'clear', 'reduce', 'xml', 'dict'), VIEWS, (None, 1, 2, 3))


@harness('C22', bounds='symbolic maximum length 0..3, 0 to 5 additions of collectors, then a reduction or a clearing, then 0 to 4 additions',
         covers=('end',))
def bounded(ctx):
    m = ctx.sym_int('maxlen', 0, 3)
    maxlen = m.__index__()
    log = reporting.get(tag='c22log', log_maxlen=maxlen)
    names = []
    for phase in range(2):
        for i in range(ctx.choose('n{}'.format(phase), 6 - phase)):
            log.add(collector=COLS[i % 2])
            names.append(COLS[i % 2].tag)
            ctx.check(len(log) <= maxlen, 'too-long')
        del names[:max(0, len(names) - maxlen)]
        ctx.check([x.name for x in log] == names, 'oldest-not-dropped-first', [x.name for x in log])
        if phase == 0:
            how = ctx.pick('how', ('none', 'clear', 'reduce'))
            if how == 'clear':
                log.clear()
                names = []
            elif how == 'reduce':
                log.reduce_to_last()
                names = names[-1:]
            ctx.check([x.name for x in log] == names, 'after-reduction', [x.name for x in log])
    ctx.cover('end')


@harness('C22', bounds='two attribute entries of opaque names and reasons in one class, before and after a first reading; the two reasons of '
         'equal names are both in the list, the last one in the dictionaries', covers=('same', 'different'))
def opaque_names(ctx):
    log = reporting.get(tag='c22log', log_maxlen=ctx.pick('maxlen', (None, 1)))
    if ctx.flag('previous'):
        log.add(collector=COLS[1])
    log.add(collector=COLS[0])
    log.add(candidate=CLSS[0])
    names = [ctx.val('name{}'.format(i), Raw) for i in range(2)]
    whys = [ctx.val('why{}'.format(i), Raw) for i in range(2)]
    for i in range(2):
        if i and ctx.flag('read'):
            v = ctx.pick('view', ('as_dict', 'as_xml'))
            getattr(log, v)()
        log.add(attribute=names[i], why=whys[i])
    got = [(x['name'], x['why']) for kid in log.last for x in kid]
    ctx.check(len(got) == 2, 'entries')
    ctx.check(ctx.and_(*[ctx.and_(g[0] == n, g[1] == w) for g, n, w in zip(got, names, whys)]), 'entries-content', got)
    for d in (log.as_dict(stamp=False), log.as_dict()):
        last = d[list(d)[-1]]['pk.Aa']
        if names[0] == names[1]:
            ctx.cover('same')
            ctx.check(len(last) == 1 and (list(last.values())[0]['why'] == whys[1]), 'dict-of-equal-names', last)
        else:
            ctx.cover('different')
            ctx.check(len(last) == 2, 'dict-of-two-names', last)
            for n, w in zip(names, whys):
                ctx.check(last[n]['why'] == w, 'dict-of-two-names-content', last)


def printed_tree(text, indent=4):
    """The paths of a tree printed with an indentation."""
    path, out = [], []
    for line in text.splitlines():
        if not line.strip():
            continue
        depth = (len(line) - len(line.lstrip(' ')) - 1) // indent - 1
        left, sep, right = line.strip().partition(' : ' if ' : ' in line else ' = ')
        path = path[:depth] + [(left, right.partition(' (')[0] if ' : ' in line else right)]
        if ' : ' in line:
            out.append(tuple(path))
    return out


@harness('C22', bounds='a report of 2 classes with up to 2 and 1 rejections (3 near names, 3 reasons); the last report sorted by names then reasons, or with '
         'another order and other selected values, printed in any way; flat reorganisations; iteration on the last entry, dumps',
         covers=('empty', 'several', 'selected'))
def rearranged(ctx):
    log = reporting.get(tag='c22log')
    log.add(collector=COLS[0])
    model = []
    for i, c in enumerate(CLSS):
        log.add(candidate=c)
        seen = set()
        for j in range(ctx.choose('n{}'.format(i), 3 - i)):
            name = ctx.pick('name', ('kind', 'kinder', 'a'))
            if name in seen:
                raise Infeasible()
            seen.add(name)
            key, why = ctx.pick('why', (('why', MISSING), ('why', OUTSIDE), ('only', NOTMATCH)))
            log.add(attribute=name, **{key: why})
            model.append((c.fullname(), name, key, why))
    ctx.cover('empty' if not model else 'several')
    before = [[dict(item) for item in kid] for kid in log.last]
    what = ctx.pick('what', ('soft', 'ordered', 'nice', 'flat', 'last', 'dump', 'missingkey'))
    ordering = ctx.pick('ordering', (None, ((('name',), ('a', 'kind')), (('why', 'only'), (NOTMATCH, OUTSIDE))),
                                     ((('why', 'only'), (OUTSIDE,)), (('name',), ('kind',))))) if what in ('soft', 'ordered', 'nice') else None
    kw = dict(ordering=ordering) if ordering else {}
    out = io.StringIO()
    if what in ('soft', 'ordered', 'nice'):
        tree = log.last.as_tree(**kw)
        with contextlib.redirect_stdout(out):
            if what == 'nice':
                tree.dumper(maxdepth=ctx.pick('maxdepth', (0, 1, 2, 5)), group=ctx.pick('group', (1, 2)))
            else:
                getattr(tree, what + 'print')()
        text = out.getvalue()
        namefirst = ordering is None or ordering[0][0] == ('name',)
        ctx.check(text.count('pk.Aa') + text.count('pk.Bb') == len(model), 'leaves', text)
        for c, n, k, w in model:
            ctx.check(n in text and w in text, 'entry-not-printed', (n, w, text))
        ctx.check([[dict(item) for item in kid] for kid in log.last] == before, 'entries-modified', what)
        if what == 'nice':
            return
        exp = sorted(((('attribute_name', n), (k, w)) if namefirst else ((k, w), ('attribute_name', n))) + (('class', c),) for c, n, k, w in model)
        got = printed_tree(text)
        ctx.check(sorted(got) == exp, 'tree', (sorted(got), exp))
        if what == 'ordered':
            sel = [dict(ordering)[k] for k in dict(ordering)] if ordering else [('kind',), (MISSING,)]
            for depth in range(2):
                last = {}
                for p in got:
                    if p[:depth + 1] == last.get('path'):
                        continue
                    r = [i for i, v in enumerate(sel[depth]) if p[depth][1].startswith(v)]
                    r = r[0] if r else 99
                    if last.get('parent') == p[:depth]:
                        ctx.check(last['r'] <= r, 'selected-values-first', (got, sel))
                        ctx.cover('selected')
                    last = dict(parent=p[:depth], path=p[:depth + 1], r=r)
    elif what == 'flat':
        flat = log.last.as_flat()
        sort, skip = ctx.pick('sort', (['why', 'attribute'], ['attribute', 'why'], ['only', 'attribute'])), ctx.flag('skip')
        for _ in range(2 if ctx.flag('again') else 1):
            flat.reshuffle(sort, skip=skip)
        with contextlib.redirect_stdout(out):
            flat.fulldump()
        text = out.getvalue()
        exp = [m for m in model if skip or m[2] in sort]
        ctx.check(text.count('pk.Aa') + text.count('pk.Bb') == len(exp), 'flat-entries', (text, exp))
        for c, n, k, w in exp:
            ctx.check(c in text and n in text and w in text, 'flat-entry', (c, n, w, text))
    elif what == 'last':
        got = [(d['classname'], d['name'], d['why']) for d in list(log.as_xml().iter_last())]
        ctx.check(sorted(got) == sorted((c, n, w if k == 'why' else '') for c, n, k, w in model), 'last-iteration', got)
    elif what == 'dump':
        how = ctx.pick('how', ('full', 'stamped', 'xml', 'xmllast', 'light'))
        with contextlib.redirect_stdout(out):
            if how == 'xml':
                log.as_xml()()
            elif how == 'xmllast':
                print(log.as_xml().dump_last())
            elif how == 'light':
                log.last.lightdump()
            else:
                log.fulldump(**(dict(stamp=True) if how == 'stamped' else {}))
        text = out.getvalue()
        ctx.check('pk.Aa' in text and 'pk.Bb' in text, 'classes-dumped', text)
        for c, n, k, w in model:
            ctx.check(n in text and w in text, 'entry-dumped', (n, w, text))
        for w in (MISSING, OUTSIDE, NOTMATCH):
            ctx.check(w not in text or w in [m[3] for m in model], 'reason-invented', w)
    else:
        # (sorting by something which is not in every entry is an error)
        try:
            log.last.as_tree(ordering=((('only',), ()),))
            ctx.check(all(m[2] == 'only' for m in model), 'missing-key-accepted')
        except KeyError:
            ctx.check(any(m[2] != 'only' for m in model), 'key-refused')
    ctx.check([[dict(item) for item in kid] for kid in log.last] == before, 'entries-modified', what)
