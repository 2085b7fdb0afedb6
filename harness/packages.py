"""C25: filters on package names, with symbolic names and prefixes."""
import contextlib
import io

from ._common import *  # noqa: F401,F403
from ._common import coll, footprints, harness, mkclass

INSTRUMENT = True
ASSUMPTIONS = {'C25': ['package names: symbolic characters over the alphabet "ab."']}




def prefixed(full, p):
    """Independent meaning of "name starting with": character by character."""
    return len(p) <= len(full) and all(bool(full[i] == p[i]) for i in range(len(p)))


@harness('C25', bounds='2 classes whose module has a symbolic name of 1-3 characters (class names also), prefix of 0-4 symbolic characters; filter, discard and '
         'reset of the level (one collector, all collectors)', covers=('some', 'none', 'all', 'inside'))
def symbolic_packages(ctx):
    _packages(ctx, 2, 3, 4)


@harness('C25', tier='thorough', bounds='same with 3 classes, names of 1-4 characters, prefix of 0-6', covers=('some', 'none', 'all', 'inside'))
def symbolic_packages_longer(ctx):
    _packages(ctx, 3, 4, 6)


def _packages(ctx, ncls, maxmod, maxpre):
    what = ctx.pick('what', ('filter', 'discard', 'reset', 'reset-all'))
    pop = []
    for n in range(ncls):
        cls = mkclass('ab'[n % 2], dict(attr=dict(k=dict(type=int))), order=n + 1)
        mod = ctx.sym_str('module', 1 + ctx.choose('len', maxmod), 'ab.')
        cls.__module__ = mod
        pop.append((cls, str.__add__(str.__add__(mod, '.'), 'ab'[n % 2]) if isinstance(mod, str) and type(mod) is str
                    else [*(mod[i] for i in range(len(mod))), '.', 'ab'[n % 2]]))
    p = ctx.sym_str('prefix', ctx.choose('plen', maxpre + 1), 'ab.')
    lev = {c: c.footprint_level() for c, _ in pop}
    if what == 'filter':
        got = coll().filter_package(p)
        ctx.check(len(coll()) == ncls, 'filter-modifies')
        sel = {c: len([x for x in got if x is c]) for c, _ in pop}
        ctx.check(len(got) == sum(sel.values()), 'others')
    elif what == 'discard':
        with contextlib.redirect_stdout(io.StringIO()):
            coll().discard_package(p, **({} if ctx.flag('verbose') else dict(verbose=False)))
        sel = {c: int(c not in coll()) for c, _ in pop}
    else:
        if what == 'reset':
            coll().reset_package_level(p, 'TOOLBOX')
        else:
            footprints.reset_package_priority(p, 'toolbox')
        sel = {c: int(c.footprint_level().upper() == 'TOOLBOX') for c, _ in pop}
        for c, _ in pop:
            if not sel[c]:
                ctx.check(c.footprint_level() == lev[c], 'level-modified')
        ctx.check(len(coll()) == ncls, 'reset-modifies')
    for c, full in pop:
        ctx.check(sel[c] == int(prefixed(full, p)), what, (c.__name__, sel[c]))
    n = sum(sel.values())
    ctx.cover('some' if 0 < n < ncls else 'all' if n else 'none')
    if len(p) == 1 and not n:
        for _, full in pop:
            if any(bool(full[i] == p[0]) for i in range(1, len(full))):
                ctx.cover('inside')
