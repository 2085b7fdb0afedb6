"""C10: only clauses on texts (alternatives given bare, listed, patterns)."""
from symx.core import char_in

from ._common import *  # noqa: F401,F403
from ._common import coll, footprints, harness, mkclass

INSTRUMENT = True
ASSUMPTIONS = {'C10': ['texts: symbolic characters over a stated alphabet; patterns among a stated list']}

NAMES = ('k', 'a_b', 'after_z', 'g_h')   # three attributes and a global default
PATTERNS = {
    'a.': lambda s: len(s) > 1 and char_in(s[0], 'a'),
    '.*b$': lambda s: len(s) > 0 and (char_in(s[-1], 'b')),
    '[bc]?$': lambda s: len(s) == 0 or (len(s) == 1 and char_in(s[0], 'bc')),
}



@harness('C10', bounds='1-2 entries (value, after_, before_) on one of 3 attributes or a global default whose names may hold underscores; texts of at most 2 '
         'symbolic characters; alternatives: a bare text, 1-2 listed ones, a compiled pattern of 3, mixed lists',
         covers=('selected', 'excluded', 'bare', 'pattern'))
def texts(ctx):
    _texts(ctx, 1)


@harness('C10', tier='thorough', bounds='same with texts of at most 3 characters and 2 entries', covers=('selected', 'excluded', 'bare', 'pattern'))
def texts_two(ctx):
    _texts(ctx, 2)


def _texts(ctx, nent):
    only, entries = {}, {}
    for n in range(nent):
        name = ctx.pick('name', NAMES[n:n + 3] if n else NAMES)
        form = ctx.pick('form', ('', 'after_', 'before_'))
        shape = ctx.pick('shape', ('bare', 'list', 'tuple', 'mixed', 'pattern') if not form else ('bare', 'list', 'tuple'))
        if name == 'after_z' and not form:
            # (a plain entry named after_z is an after entry about z)
            name, form = 'k', ''
        a = ctx.sym_str('alt', ctx.choose('altlen', 3), 'abc')
        b = ctx.sym_str('alt', 1, 'abc') if shape in ('list', 'tuple', 'mixed') else None
        p = ctx.pick('pattern', sorted(PATTERNS)) if shape in ('mixed', 'pattern') else None
        rx = footprints.re.compile(p) if p else None
        val = {'bare': a, 'list': [a, b], 'tuple': (b, a), 'mixed': [a, rx, b], 'pattern': rx}[shape]
        only[form + name] = val
        entries[form + name] = (name, form, [x for x in (a, b) if x is not None] if shape != 'pattern' else [], p)
        if shape in ('bare', 'pattern'):
            ctx.cover(shape)
    model = list(entries.values())
    desc = {n: ctx.sym_str('in.' + n, ctx.choose('len.' + n, 3) if any(n == m[0] for m in model) else 1, 'abc')
            for n in NAMES if n != 'g_h'}
    gl = ctx.sym_str('in.g', ctx.choose('len.g', 3) if any(m[0] == 'g_h' for m in model) else 1, 'abc')
    footprints.setup.defaults = dict(g_h=gl)
    mkclass('One', dict(attr={n: dict(type=str) for n in desc}, only=only))
    obj = coll().load(_emptywarning=False, **desc)
    exp = True
    for name, form, alts, pat in model:
        v = gl if name == 'g_h' else desc[name]
        ok = False
        for a in alts:
            if form == 'after_':
                ok = ok or bool(v >= a)
            elif form == 'before_':
                ok = ok or bool(v < a)
            else:
                ok = ok or bool(v == a)
        if pat is not None and not ok:
            ok = bool(PATTERNS[pat](str.__str__(v)))
        exp = exp and ok
    ctx.cover('selected' if exp else 'excluded')
    ctx.check((obj is not None) == exp, 'wrong-selection', (only, desc, gl, obj))
