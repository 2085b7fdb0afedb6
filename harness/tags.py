"""C30: what is known under a tag (collectors, settings, proxies, reports)."""
from footprints import collectors, config, proxies, reporting

from ._common import *  # noqa: F401,F403
from ._common import T0, coll, footprints, harness, mkclass, same

ASSUMPTIONS = {
    'C30': ['tags of one or two characters (symbolic, over a stated alphabet, or from a pool of near names)', 'a tag has another letter than its final s', 'opaque values'],
}
MODULES = dict(collectors=collectors, config=config, proxies=proxies, reporting=reporting)


def norm(t):
    """The name under which a collector is known: without letter case nor final s."""
    t = t.lower()
    while t.endswith('s'):
        t = t[:-1]
    return t


def listed(ctx, mod, known, label):
    """The module tells exactly these entries: {tag: object}."""
    ks, vs, its = list(mod.keys()), list(mod.values()), list(mod.items())
    ctx.check(ks == sorted(known), label + '-keys', (ks, sorted(known)))
    ctx.check(len(vs) == len(known) and all(any(x is v for v in vs) for x in known.values()), label + '-values')
    ctx.check(len(its) == len(known) and all(any(k == t and x is v for t, v in its) for k, x in known.items()), label + '-items')


@harness('C30', bounds='two tags of 1-2 symbolic characters among z, Z, s and S; each first used by get, by a class, by two names of a class, '
         'by a load or a default loading', covers=('same', 'other'))
def collector_names(ctx):
    known = dict(collectors.items())
    tags, classes = [], {}
    for i in range(2):
        # (a plain text from here on: it is a key of tables)
        t = str(ctx.sym_str('tag{}'.format(i), 1 + ctx.choose('len{}'.format(i), 2), 'zZsSy'))
        ctx.assume(norm(t) != '')
        tags.append(t)
    how = [ctx.pick('how{}'.format(i), ('get', 'class', 'names', 'load', 'default')) for i in range(2)]
    ctx.cover('same' if norm(tags[0]) == norm(tags[1]) else 'other')
    first = {}
    for i, t in enumerate(tags):
        n = norm(t)
        before = known.get(n)
        if how[i] == 'get':
            c = collectors.get(tag=t)
        elif how[i] in ('load', 'default'):
            o = getattr(footprints, how[i])(tag=t, k=ctx.val('k{}'.format(i), T0), _emptywarning=False)
            ctx.check((o is None) == (n not in classes), 'loaded', (t, o))
            ctx.check(o is None or o.__class__ in classes[n], 'loaded-class', o)
            c = collectors.get(tag=t)
        else:
            cls = mkclass('C{}'.format(i), dict(attr=dict(k=dict(type=T0))), tag=(t,) if how[i] == 'class' else (t, t + 's', t.upper()), order=i + 1)
            classes.setdefault(n, []).append(cls)
            c = collectors.get(tag=t)
        ctx.check(before is None or c is before, 'another-collector', t)
        known[n] = first.setdefault(n, c)
        ctx.check(c is first[n] and c.tag == n and isinstance(c, collectors.Collector), 'tag', (t, c.tag))
        listed(ctx, collectors, known, 'collectors')
    for n, c in known.items():
        got = list(c.items())
        exp = classes.get(n, [])
        ctx.check(n not in first or len(got) == len(c) == len(exp) and all(any(x is g for g in got) for x in exp), 'classes', (n, got))
        for t in (n, n + 's', n.upper(), n.title() + 'ss'):
            ctx.check(collectors.get(tag=t) is c, 'not-the-collector', t)
    for n, l in classes.items():
        for cls in l:
            o = cls(k=ctx.val('o', T0))
            for m, c in known.items():
                live = [x for x in c.instances if x is o]
                ctx.check(len(live) == (1 if m == n else 0), 'instances', (m, n, len(live)))
    # (the one without name)
    ctx.check(collectors.get() is known['garbage'] if 'garbage' in known else True, 'default-collector')
    listed(ctx, collectors, known, 'collectors')


@harness('C30', bounds='a collector created by get or by a class; report level, length and style, report name and registration given, set globally or not, '
         'opaque attribute values; asked for again with other settings', covers=('bounded', 'unbounded', 'shared', 'unregistered'))
def collector_settings(ctx):
    st = footprints.setup
    level = ctx.pick('level', (config.NO_REPORTING, config.LIGHT_REPORTING, config.ONERROR_REPORTING, config.FULL_REPORTING))
    size = 1 + ctx.choose('size', 3)
    style = ctx.pick('style', (config.RAW_REPORTINGSTYLE, config.FLAT_REPORTINGSTYLE))
    how = ctx.pick('how', ('get', 'class'))
    kw = dict(report=level, lreport_len=size, report_style=style)
    register, tag = True, 'footprint-zoo'
    if how == 'class':
        for k, v in kw.items():
            setattr(st, k, v)
        v = ctx.val('v', T0)
        cls = mkclass('One', dict(attr=dict(k=dict(type=T0, values=[v]))))
        c = collectors.get(tag='zoo')
    else:
        if ctx.flag('unregistered'):
            register = kw['register'] = False
            ctx.cover('unregistered')
        if ctx.flag('named'):
            tag = kw['report_tag'] = 'shared-log'
        c = collectors.get(tag='Zoos', **kw)
        v = ctx.val('v', T0)
        cls = mkclass('One', dict(attr=dict(k=dict(type=T0, values=[v]))))
    other = dict(report=config.FULL_REPORTING if level != config.FULL_REPORTING else config.NO_REPORTING, lreport_len=9, report_style=3,
                 report_tag='ignored', register=not register)
    for k in ('report', 'lreport_len', 'report_style'):
        setattr(st, k, other[k])
    ctx.check(collectors.get(tag='zoo', **other) is c, 'another-collector')
    mkclass('Two', dict(attr=dict(k=dict(type=T0), m=dict(type=T0))), order=2)
    ctx.check((c.report, c.lreport_len, c.report_style, c.register, c.report_tag) == (level, size, style, register, tag), 'settings',
              (c.report, c.lreport_len, c.report_style, c.register, c.report_tag))
    log = c.report_log
    ctx.check(reporting.get(tag=tag) is log and log.tag == tag, 'report-log', log.tag)
    ctx.check('ignored' not in reporting.keys(), 'report-created')
    if tag == 'shared-log':
        ctx.cover('shared')
        d = collectors.get(tag='barn', report_tag=tag)
        ctx.check(d is not c and d.report_log is log, 'shared-report-log')
    else:
        d = collectors.get(tag='barn')
        ctx.check(d is not c and d.report_log is not log and d.report_log is reporting.get(tag='footprint-barn'), 'own-report-log')
    ctx.check((d.report, d.lreport_len, d.report_style, d.register) ==
              (config.ONERROR_REPORTING, config.DFLT_MAXLEN_LIGHT_REPORTING, config.RAW_REPORTINGSTYLE, True), 'default-settings')
    x = ctx.val('x', T0)
    for i in range(4):
        o = c.load(k=x, _emptywarning=False)
        ctx.check((o is not None) == (x == v), 'found')
        exp = {config.NO_REPORTING: 0, config.ONERROR_REPORTING: 0 if o is not None else i + 1}.get(level, i + 1)
        exp = min(exp, size) if level != config.FULL_REPORTING else exp
        ctx.check(len(log) == exp, 'log-length', (level, i, len(log), exp))
        if o is not None:
            ctx.check(bool([y for y in c.instances if y is o]) == register, 'instances')
    ctx.cover('unbounded' if level == config.FULL_REPORTING else 'bounded')


@harness('C30', bounds='two tags of 1-2 symbolic characters for settings, proxies or reports; asked for several times', covers=('same', 'other'))
def other_tables(ctx):
    which = ctx.pick('table', ('config', 'proxies', 'reporting'))
    mod = MODULES[which]
    c = collectors.get(tag='zoo')
    known = dict(mod.items())
    listed(ctx, mod, known, 'before')
    if which != 'reporting':
        ctx.check(mod.get() is mod.get(tag='default') is {'config': footprints.setup, 'proxies': footprints.proxy}[which], 'default-entry')
    tags = [str(ctx.sym_str('tag{}'.format(i), 1 + ctx.choose('len{}'.format(i), 2), 'zZs')) for i in range(2)]
    got = []
    for t in tags:
        x = mod.get(tag=t)
        ctx.check(t not in known or known[t] is x, 'another-object', t)
        ctx.check(t in known or all(x is not y for y in known.values()), 'object-of-another-tag', t)
        known[t] = x
        got.append(x)
        ctx.check(x.tag == t, 'tag', (t, x.tag))
        listed(ctx, mod, known, which)
    ctx.cover('same' if tags[0] == tags[1] else 'other')
    ctx.check((got[0] is got[1]) == (tags[0] == tags[1]), 'shared')
    # what is done to one is not seen by the other ones
    a, b = got
    if which == 'config':
        v = ctx.val('v', T0)
        a.defaults.update(k=v)
        a.extended = False
        a.fatal = False
        exp = a is b
        ctx.check(('k' in b.defaults) == exp and b.extended == (not exp) and b.fatal == (not exp), 'settings-shared')
        ctx.check('k' not in footprints.setup.defaults and footprints.setup.extended and footprints.setup.fatal, 'default-settings-changed')
        cls = mkclass('One', dict(attr=dict(k=dict(type=T0, optional=True))))
        ctx.check(cls().k is None, 'default-of-other-settings')
    elif which == 'reporting':
        a.add(collector=c)
        ctx.check(len(a) == 1 and len(b) == (1 if a is b else 0), 'report-shared', (len(a), len(b)))
        b.clear()
        ctx.check(len(b) == 0 and len(a) == (0 if a is b else 1), 'report-cleared')
        ctx.check(all(len(x) == 0 for x in known.values() if x is not a), 'report-of-others')
    listed(ctx, mod, known, which)


@harness('C30', bounds='up to 3 collectors, asked for with registration of the instances or not, before or between the definitions of a class and of a class built upon it, '
         'each declared in 1 or 2 of them', covers=('tracked', 'untracked'))
def registered(ctx):
    names = ('zoo', 'barn', 'attic')
    reg = {}

    def ask(n, i):
        if ctx.flag('ask{}{}'.format(n, i)):
            r = ctx.flag('reg{}{}'.format(n, i))
            c = collectors.get(tag=n, register=r)
            ctx.check(c.register == reg.setdefault(n, r), 'registration-changed', n)
    ask('zoo', 0)
    ask('barn', 0)
    mine = ctx.pick('mine', (('zoo',), ('zoo', 'barn'), ('barn', 'Zoos'), ('garbage', 'zoo')))
    a = mkclass('One', dict(attr=dict(k=dict(type=T0))), tag=mine)
    for n in mine:
        reg.setdefault(norm(n), True)
    ask('attic', 1)
    theirs = ctx.pick('theirs', (None, ('attic', 'zoo'), ('attic',)))
    d = dict(attr=dict(m=dict(type=T0, optional=True)))
    b = mkclass('Two', d, base=a, order=2, tag=theirs or mine)
    for n in theirs or ():
        reg.setdefault(norm(n), True)
    for cls, where in ((a, mine), (b, theirs or mine)):
        where = [norm(n) for n in where]
        o = coll(where[0]).load(k=ctx.val('k', T0), _emptywarning=False) if ctx.flag('load' + cls.__name__) and cls is b else cls(k=ctx.val('k', T0))
        if o.__class__ is not cls:
            where = [norm(n) for n in mine]
        for n in names + ('garbage',):
            exp = n in where and reg.get(n, True)
            got = [x for x in collectors.get(tag=n).instances if x is o]
            ctx.check(len(got) == int(exp), 'instances', (n, where, len(got)))
            ctx.cover('tracked' if exp else 'untracked')
