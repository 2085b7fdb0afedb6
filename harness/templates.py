"""C07, C08: substitution of the bracketed references, termination."""
from footprints import FootprintException, FootprintMaxIter, FootprintUnreachableAttr

from symx.core import char_in, concrete, wrap

from ._common import *  # noqa: F401,F403
from ._common import ABSENT, T0, Raw, coll, footprints, harness, mkclass, same
from symx.core import Infeasible

INSTRUMENT = True
ASSUMPTIONS = {
    'C07': ['texts: symbolic characters over a stated alphabet; the operations of the code on texts (in, [], re, format...) are '
            'redirected to a character by character symbolic implementation'],
    'C08': ['a path which does not end within the step budget (40 s) is a non termination'],
}

WORD = (lambda c: c.isalnum() or c == '_')


# -- reference model: an independent parser of references -----------------------------

def run(s, i, cond):
    j = i
    while j < len(s) and char_in(s[j], cond):
        j += 1
    return j


def parse_ref(s, i):
    """A reference starting at s[i]: (end, key, members, fallback, format) or None."""
    if not char_in(s[i], '['):
        return None
    j = run(s, i + 1, WORD)
    if j == i + 1:
        return None
    key = s[i + 1:j]
    members = None
    if j < len(s) and char_in(s[j], ':'):
        k = run(s, j, lambda c: c == ':' or WORD(c))
        if k - j < 2:
            return None
        members = s[j:k]
        j = k
    fallback = None
    if j < len(s) and char_in(s[j], '#'):
        k = run(s, j + 1, WORD)
        if k == j + 1:
            return None
        fallback = s[j + 1:k]
        j = k
    fmt = None
    if j < len(s) and char_in(s[j], '%'):
        k = run(s, j + 1, lambda c: c != ']')
        if k == j + 1:
            return None
        fmt = s[j + 1:k]
        j = k
    if j < len(s) and char_in(s[j], ']'):
        return j + 1, key, members, fallback, fmt
    return None


def plain(s):
    return str.__str__(s)


def split_members(m):
    """Names of the members (None for an empty one)."""
    out, cur, i = [], '', 0
    # leading colons, unless there is nothing else
    while i < len(m) and char_in(m[i], ':'):
        i += 1
    if i == len(m):
        return [None]
    while i < len(m):
        if char_in(m[i], ':'):
            out.append(cur)
            cur = ''
            while i < len(m) and char_in(m[i], ':'):
                i += 1
            if i == len(m):
                out.append(None)
                return out
        else:
            cur += m[i]
            i += 1
    out.append(cur)
    return out


class Unknown(Exception):
    pass


class NoValue(Exception):
    pass


def rewrite(s, value):
    """Leftmost references first, until there are none.  value(key, members, fallback, fmt) -> text"""
    s = plain(s)
    for _ in range(40):
        for i in range(len(s)):
            ref = parse_ref(s, i)
            if ref is not None:
                end, key, members, fallback, fmt = ref
                s = s[:i] + plain(value(wrap(key), members, fallback, fmt)) + s[end:]
                break
        else:
            return wrap(s)
    raise Infeasible()


def pyformat(x, fmt):
    fmt = concrete(fmt)
    fmt = ('{0' + fmt + '}') if ':' in fmt or '!' in fmt else ('{0:' + fmt + '}')
    try:
        return fmt.format(x)
    except (ValueError, AttributeError, LookupError, TypeError):
        raise BadFormat


class BadFormat(Exception):
    pass


def outcome(**desc):
    try:
        obj = coll().load(_emptywarning=False, **desc)
    except FootprintUnreachableAttr:
        return 'unknown', None
    except FootprintMaxIter:
        return 'cycle', None
    except (ValueError, AttributeError) as ex:
        return 'format', repr(ex)
    return ('value', obj.t) if obj is not None else ('none', None)


@harness('C07', bounds='any template of at most 6 characters among [ ] x k : # % backslash; x is an attribute with any text of at most '
         '2 characters among a, backslash and brackets; k is unknown',
         covers=('replaced', 'kept', 'unknown', 'fallback', 'member', 'nested', 'badformat'))
def free_template(ctx):
    _free(ctx, 6)


@harness('C07', tier='thorough', bounds='same with templates of at most 8 characters', covers=('replaced', 'kept', 'unknown', 'fallback', 'member'))
def free_template_long(ctx):
    _free(ctx, 8)


def _free(ctx, maxlen):
    n = ctx.choose('tlen', maxlen + 1)
    t = ctx.sym_str('t', n, '[]xk:#%\\')
    m = 1 + ctx.choose('xlen', 2)
    x = ctx.sym_str('x', m, 'a[]\\')
    order = ctx.flag('tfirst')
    attr = {'t': dict(type=str), 'x': dict(type=str)}
    if not order:
        attr = {'x': attr['x'], 't': attr['t']}
    mkclass('One', dict(attr=attr))
    kind, got = outcome(t=t, x=x)
    cnt = [0]

    def value(key, members, fallback, fmt):
        cnt[0] += 1
        if not (key == 'x'):
            if fallback is None:
                raise Unknown
            ctx.cover('fallback')
            return fallback
        if members is not None:
            # (no such member on a text)
            raise NoValue
        if fmt is not None:
            ctx.cover('format')
            return pyformat(x, fmt)
        return x

    try:
        exp = rewrite(t, value)
    except Unknown:
        ctx.cover('unknown')
        ctx.check(kind == 'unknown', 'unknown-accepted', (kind, got))
        return
    except NoValue:
        ctx.cover('member')
        ctx.check(kind == 'none', 'missing-member-accepted', (kind, got))
        return
    except BadFormat:
        ctx.cover('badformat')
        ctx.check(kind == 'format', 'bad-format-accepted', (kind, got))
        return
    ctx.cover('replaced' if cnt[0] else 'kept')
    if cnt[0] > 1:
        ctx.cover('nested')
    ctx.check(kind == 'value', 'not-resolved', (kind, got, exp))
    ctx.check(got == exp, 'text', (got, exp))


@harness('C07', bounds='the reference [n%F] or [x%F] (integer 7, text of 1 symbolic character) with literal text before and after, F any format of 1-3 '
         'characters among blank d 0 > : s ! r [', covers=('formatted', 'badformat'))
def formats(ctx):
    _formats(ctx, ' d0>:s!r[', 3)


@harness('C07', tier='thorough', bounds='same with 1-4 characters among blank d 0 > : s ! [ .', covers=('formatted', 'badformat'))
def formats_longer(ctx):
    _formats(ctx, ' d0>:s![.', 4)


def _formats(ctx, alphabet, maxlen):
    f = ctx.sym_str('f', 1 + ctx.choose('flen', maxlen), alphabet)
    key = ctx.pick('key', ('n', 'x'))
    x = ctx.sym_str('x', 1, 'a\\')
    mkclass('One', dict(attr=dict(t=dict(type=str), x=dict(type=str), n=dict(type=int))))
    kind, got = outcome(t='<[' + key + '%' + f + ']>', x=x, n='7')
    try:
        exp = '<' + pyformat(7 if key == 'n' else concrete(x), f) + '>'
    except BadFormat:
        ctx.cover('badformat')
        ctx.check(kind == 'format', 'bad-format-accepted', (f, kind, got))
        return
    ctx.cover('formatted')
    ctx.check(kind == 'value' and got == exp, 'text', (f, kind, got, exp))


class Sub:
    name = 'sn'

    def up(self, guess, extras):
        return 'U' + str(extras['e'])


class Obj:
    """An object with members of every kind."""
    year = 2024
    none = None
    sub = Sub()
    text = 'Tx'

    def __str__(self):
        return '<o\\1>'

    def meth(self, guess, extras):
        return 'M' + str(extras['e'])

    def nothing(self, guess, extras):
        return None

    def late(self, guess, extras):
        # (fails until the attribute n is an integer)
        return 'L{:d}'.format(guess['n'] + 1)

    def calc(self):
        return 7


REFS = ('[x]', '[n]', '[m]', '[y]', '[df]', '[gl]', '[o]', '[e]', '[eo]', '[u]', '[yal]', '[u#zz]', '[x#zz]', '[e#zz]', '[X]',
        '[o:year]', '[o::year]', '[o:sub:name]', '[o:sub::up]', '[o:meth]', '[o:none]', '[o:nothing]', '[o:absent]',
        '[o:sub:absent]', '[x:strip]', '[e:upper]', '[n:real]', '[eo:year]', '[eo:late]', '[eo:meth]', '[eo:none]', '[eo:absent]',
        '[eo:sub::name:upper]', '[eo:sub:name::upper]', '[u:year#zz]', '[o:year#zz]', '[o:absent#zz]', '[u#zz%03d]', '[n%03d]', '[x%>4s]', '[e%>4s]', '[o:year%06d]', '[o%.year:05d]',
        '[o%.calc:03d]', '[x%!r]', '[n%zz]', '[o%03d]', '[o%.absent:03d]', '[eo:text:lower%<4s]', '[eo%.sub.name:>3s]', '[n#9%02d]', '[]',
        '[x y]', '[x:]', '[x#]', '[x%]', '[n% d]', '[n% 4d]', '[x%:>4s]', '[x% ^5s]', '[o:year% d]', '[u# ]')
SECOND = ('', '[x]', '[n%02d]', '[eo:late]', '[u#\\]', '[o:year]')


def evaluate(key, members, fallback, fmt, final, extras):
    key = concrete(key)
    if key in final:
        v = final[key]
    elif key in extras:
        v = extras[key]
    elif fallback is not None:
        return fallback
    else:
        raise Unknown
    for m in split_members(members) if members is not None else ():
        m = m if m is None else concrete(m)
        v = concrete(v) if isinstance(v, str) else v
        sub = None if m is None else getattr(v, m, None)
        if sub is None:
            raise NoValue
        if callable(sub):
            v = sub() if type(sub) is type(''.strip) else sub(final, extras)
            if v is None:
                raise NoValue
        else:
            v = sub
    if fmt is None:
        return v if isinstance(v, str) else str(v)
    fmt = concrete(fmt)
    v = concrete(v) if isinstance(v, str) else v
    if fmt.startswith('.') and ':' in fmt:
        path, spec = fmt[1:].split(':', 1)
        try:
            for p in path.split('.'):
                v = getattr(v, p)
            return format(v() if callable(v) else v, spec)
        except (ValueError, AttributeError, TypeError):
            raise BadFormat
    return pyformat(v, fmt)


@harness('C07', bounds='two references among 62 forms (attribute given, converted, remapped, aliased, defaulted, global; extra parameter; members, '
         'methods, fallbacks, formats, malformed ones), with one symbolic character of literal text at one of 3 places or none, '
         'substituted texts of 1 symbolic character, template declared first or last',
         covers=('value', 'none', 'unknown', 'format'))
def reference_forms(ctx):
    _forms(ctx, [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)])


@harness('C07', tier='thorough', bounds='same with at most one symbolic character of literal text at each of the 3 places',
         covers=('value', 'none', 'unknown', 'format'))
def reference_forms_more(ctx):
    _forms(ctx, [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)])


def _forms(ctx, lens):
    ref1 = ctx.pick('ref1', REFS)
    ref2 = ctx.pick('ref2', SECOND)
    lits = [ctx.sym_str('lit', n, 'a\\[]') for n in ctx.pick('lens', lens)]
    t = lits[0] + ref1 + lits[1] + ref2 + lits[2]
    x = ctx.sym_str('x', 1, 'a\\]')
    e = ctx.sym_str('e', 1, 'b\\')
    attr = {'x': dict(type=str), 'n': dict(type=int), 'm': dict(type=str, remap={'p': 'r', 'r': 'q'}), 'y': dict(type=str, alias=['yal']),
            'df': dict(type=str, optional=True, default='dv'), 'gl': dict(type=str, optional=True), 'o': dict(type=Obj)}
    if ctx.flag('tfirst'):
        attr = dict([('t', dict(type=str))] + list(attr.items()))
    else:
        attr['t'] = dict(type=str)
    mkclass('One', dict(attr=attr))
    footprints.setup.defaults = dict(gl='g\\1')
    o, eo = Obj(), Obj()
    kind, got = outcome(t=t, x=x, n='07', m='p', yal='yv', o=o, e=e, eo=eo)
    final = dict(x=x, n=7, m='q', y='yv', df='dv', gl='g\\1', o=o)
    extras = dict(e=e, eo=eo, yal='yv')
    try:
        exp = ('value', rewrite(t, lambda *a: evaluate(*a, final, extras)))
    except Unknown:
        exp = ('unknown', None)
    except NoValue:
        exp = ('none', None)
    except BadFormat:
        exp = ('format', None)
    ctx.cover(exp[0])
    ctx.check(kind == exp[0], 'outcome', (t, kind, got, exp))
    if kind == 'value':
        ctx.check(got == exp[1], 'text', (t, got, exp))


class Falsy:
    """An object whose truth value is false."""
    year = 0

    def __bool__(self):
        return False

    def __str__(self):
        return 'F'

    def __eq__(self, other):
        return isinstance(other, Falsy)

    __hash__ = None


FALSY = (0, '', [], False, 0.0, Falsy(), 'None', b'')


@harness('C07', bounds='references to an extra parameter, a converted attribute, a default or a global default whose value is one of 8 false values, '
         'with or without fallback, member or format, once or twice, and 0-1 symbolic character of literal text', covers=('value', 'format', 'none'))
def falsy_references(ctx):
    v = ctx.pick('v', FALSY)
    where = ctx.pick('where', ('extra', 'attr', 'default', 'global'))
    form = ctx.pick('form', ('[k]', '[k#zz]', '[k%s]', '[k#zz%s]', '[k:year]', '[k:year#zz]', '[k#zz%>3s]', '[k#]', '[k:real#zz]'))
    t = ctx.sym_str('lit', ctx.choose('n', 2), 'a[\\') + form + ctx.pick('then', ('', '-', '[k#yy]'))
    attr = dict(t=dict(type=str))
    desc = dict(t=t)
    kd = dict(type=type(v))
    if isinstance(v, str) and where != 'extra' and (v == 'None' or where == 'default'):
        # (texts which stand for no value)
        raise Infeasible()
    if where == 'extra':
        desc['k'] = v
    elif where == 'attr':
        desc['k'] = v
        attr['k'] = kd
    elif where == 'default':
        attr['k'] = dict(kd, optional=True, default=v)
    else:
        attr['k'] = dict(kd, optional=True)
        footprints.setup.defaults = dict(k=v)
    if ctx.flag('kfirst'):
        attr = dict(reversed(list(attr.items())))
    mkclass('One', dict(attr=attr))
    kind, got = outcome(**desc)
    try:
        exp = ('value', rewrite(t, lambda *a: evaluate(*a, dict(k=v), {})))
    except NoValue:
        exp = ('none', None)
    except BadFormat:
        exp = ('format', None)
    if exp[1] == 'None':
        # (a text which stands for no value)
        raise Infeasible()
    ctx.cover(exp[0])
    ctx.check(kind == exp[0], 'outcome', (t, kind, got, exp))
    if kind == 'value':
        ctx.check(got == exp[1], 'text', (t, got, exp))


# -- C08 -----------------------------------------------------------------------------

def graph_outcome(values, extras):
    """Reference model: the text of each attribute, or 'cycle' / 'unknown'."""
    memo = {}

    def render(text, stack):
        # (concrete texts of literals and references)
        out = ''
        for piece in text:
            if not piece.startswith('['):
                out += piece
                continue
            key = concrete(piece[1:2])
            word = None
            if len(piece) > 3 and piece[2:3] == '#':
                word = piece[3:-1]
            elif len(piece) > 3:
                key = concrete(piece[1:-1])
            if key not in values and key not in extras:
                if word is None:
                    raise Unknown
                out += word
                continue
            if key in stack:
                raise Cycle
            out += render((values if key in values else extras)[key], stack + (key,))
        return out
    for k in values:
        try:
            memo[k] = render(values[k], (k,))
        except Unknown:
            memo[k] = 'unknown'
        except Cycle:
            memo[k] = 'cycle'
    return memo


class Cycle(Exception):
    pass


def run_graph(ctx, values, extras, order):
    mkclass('One', dict(attr={k: dict(type=str) for k in order}))
    desc = {k: wrap(''.join(v)) for k, v in list(values.items()) + list(extras.items())}
    try:
        obj = coll().load(_emptywarning=False, **desc)
        got = 'value' if obj is not None else 'none'
    except FootprintMaxIter:
        obj, got = None, 'cycle'
    except FootprintUnreachableAttr:
        obj, got = None, 'unknown'
    exp = graph_outcome(values, extras)
    bad = {v for v in exp.values() if v in ('cycle', 'unknown')}
    if bad:
        for b in bad:
            ctx.cover(b)
        ctx.check(got in bad, 'outcome', (values, extras, got, exp))
    else:
        ctx.cover('value')
        ctx.check(got == 'value', 'not-resolved', (values, extras, got, exp))
        for k in values:
            ctx.check(getattr(obj, k) == exp[k], 'text', (k, getattr(obj, k), exp))


@harness('C08', bounds='all the reference graphs between 3 attributes and 2 extra parameters where each text holds at most one reference (its '
         'key is a symbolic character: any attribute, extra or unknown key), with or without fallback, and a literal before it',
         covers=('value', 'cycle', 'unknown'))
def graphs(ctx):
    values, extras = {}, {}
    for k in 'abcef':
        form = ctx.pick('form.' + k, ('literal', 'reference') + (('fallback',) if k in 'ab' else ()))
        txt = ('l',)
        if form != 'literal':
            txt += ('[' + ctx.sym_str('key.' + k, 1, 'abcefu') + ('#w]' if form == 'fallback' else ']'),)
        (values if k in 'abc' else extras)[k] = txt
    run_graph(ctx, values, extras, 'abc' if ctx.flag('order') else 'cab')


def double(ctx, keys, maxf):
    values, extras = {}, {}
    for k in 'abef':
        txt = ()
        for j in range(ctx.choose('nref.' + k, 3 if k != 'f' else maxf + 1)):
            txt += ('-', '[' + ctx.sym_str('key.' + k, 1, keys) + ']')
        (values if k in 'ab' else extras)[k] = txt + ('.',)
    run_graph(ctx, values, extras, 'ab' if ctx.flag('order') else 'ba')


@harness('C08', bounds='two attributes and an extra parameter with up to two references each (any key), another extra without reference',
         covers=('value', 'cycle', 'unknown'))
def double_references(ctx):
    double(ctx, 'abefu', 0)


@harness('C08', tier='thorough', bounds='two attributes and two extra parameters with up to two references each (any key)',
         covers=('value', 'cycle', 'unknown'))
def double_references_more(ctx):
    double(ctx, 'abefu', 2)


def chain_names(ctx, n, rots):
    """Names for the successive attributes of a chain, in any rotation and direction of the alphabet."""
    names = ['a{:02d}'.format(i) for i in range(n)]
    rot = ctx.pick('rot', rots)
    names = names[rot:] + names[:rot]
    if ctx.flag('reverse'):
        names.reverse()
    return names


@harness('C08', bounds='acyclic chains of 2 to 12 attributes, named in any rotation and direction of the alphabet and declared in any direction, '
         'ended by a chain of 0 to 3 extras; each link through one or two references', covers=('value',))
def chains(ctx):
    n = ctx.pick('n', (2, 3, 5, 8, 12))
    m = ctx.choose('extras', 4)
    names = chain_names(ctx, n, tuple(range(n)))
    exts = ['e{:d}'.format(i) for i in range(m)]
    every = names + exts
    double = ctx.choose('double', n)
    values, extras = {}, {}
    for i, k in enumerate(every):
        txt = ('v',) if i == len(every) - 1 else (('[' + every[i + 1] + ']',) * (2 if i == double else 1))
        (values if i < n else extras)[k] = txt
    run_graph(ctx, values, extras, names if ctx.flag('order') else names[::-1])


@harness('C08', bounds='acyclic chains of 20, 40 and 80 attributes, named in the order of the references, in the reverse one or from the middle, '
         'declared in either direction', covers=('value',))
def long_chains(ctx):
    n = ctx.pick('n', (20, 40, 80))
    names = chain_names(ctx, n, (0, n // 2))
    values = {k: ('v',) if i == n - 1 else ('[' + names[i + 1] + ']',) for i, k in enumerate(names)}
    run_graph(ctx, values, {}, names if ctx.flag('order') else names[::-1])


@harness('C08', bounds='an extra parameter of any text of at most 4 characters and another of at most 2 among [ ] e f, referred to by an '
         'attribute of at most 2 characters followed by a reference and 0 or 2 brackets', covers=('ended', 'value', 'cycle'))
def free_extras(ctx):
    _extras(ctx, 4, 2, 2)


@harness('C08', tier='thorough', bounds='same with at most 4, 3 and 2 characters', covers=('ended', 'value', 'cycle'))
def free_extras_more(ctx):
    _extras(ctx, 4, 3, 2)


def _extras(ctx, le, lf, lt):
    e = ctx.sym_str('e', 1 + ctx.choose('elen', le), '[]ef')
    f = ctx.sym_str('f', ctx.choose('flen', lf + 1), '[]ef')
    t = ctx.sym_str('t', ctx.choose('tlen', lt + 1), '[]ef') + ctx.pick('head', ('[e]', '[f]')) + ctx.pick('tail', ('', ']]'))
    mkclass('One', dict(attr=dict(t=dict(type=str))))

    def value(key, members, fallback, fmt):
        if not (key == 'e'):
            if not (key == 'f'):
                raise Unknown
            return f
        return e
    kind, got = outcome(t=t, e=e, f=f)
    ctx.cover('ended')
    ctx.cover(kind)
    # (the cycles are left aside: what matters is that it ended)
    if kind == 'value':
        try:
            exp = rewrite(t, value)
        except Unknown:
            ctx.fail('unknown-accepted', (t, e, f, got))
        ctx.check(got == exp, 'text', (t, e, f, got, exp))
    elif kind == 'cycle':
        try:
            rewrite(t, value)
        except Unknown:
            return      # (an unknown key might be met later)
        except Infeasible:
            return
        ctx.fail('not-a-cycle', (t, e, f))
    else:
        ctx.check(kind == 'unknown', 'outcome', (t, e, f, kind, got))


@harness('C08', bounds='remap tables of up to 3 symbolic entries (any cycle or chain), any value', covers=('value', 'cycle', 'none'))
def remaps(ctx):
    n = 1 + ctx.choose('n', 3)
    tab = {}
    for i in range(n):
        k = ctx.val('k', Raw)
        for x in tab:
            ctx.assume(x != k)
        tab[k] = ctx.val('v', T0 if ctx.flag('vcls') else Raw)
    mkclass('One', dict(attr=dict(t=dict(type=T0, remap=tab))))
    v = ctx.val('x', Raw)
    try:
        obj = coll().load(_emptywarning=False, t=v)
        got = ('value', obj.t) if obj is not None else ('none', None)
    except FootprintException as ex:
        got = ('error', ex)
    cur = v
    for _ in range(n + 1):
        for k in tab:
            if k == cur:
                nxt = tab[k]
                break
        else:
            break
        if nxt == cur:
            break
        cur = nxt
    else:
        ctx.cover('cycle')
        ctx.check(got[0] in ('error', 'none'), 'cycle-accepted', got)
        return
    if not isinstance(cur, T0):
        try:
            cur = T0(cur)
        except (ValueError, TypeError):
            ctx.cover('none')
            ctx.check(got[0] == 'none', 'unconvertible-accepted', got)
            return
    ctx.cover('value')
    ctx.check(got[0] == 'value', 'not-resolved', got)
    ctx.check(same(got[1], cur), 'value', (got[1], cur))


class Loop:
    """An object whose method fails a given number of times, or always."""

    def __init__(self, n):
        self.n = n

    def late(self, guess, extras):
        if self.n:
            self.n -= 1
            raise RuntimeError('not yet')
        return 'ok'

    def never(self, guess, extras):
        return '[o:late]'


@harness('C08', bounds='references to the method of an extra parameter which always fails, or fails 0 to 3 times, from 1 to 3 attributes, '
         'with other references', covers=('value', 'error'))
def failing_methods(ctx):
    always = ctx.flag('always')
    n = 10 ** 9 if always else ctx.choose('times', 4)
    names = ['a', 'b', 'c'][:1 + ctx.choose('nattr', 3)]
    desc = {}
    for i, k in enumerate(names):
        desc[k] = ctx.pick('form', ('[o:late]', 'x[o:late]-[e]', '[e][o:late]', '[o:never]')) if i == 0 else '[a]'
    mkclass('One', dict(attr={k: dict(type=str) for k in (names if ctx.flag('order') else names[::-1])}))
    try:
        obj = coll().load(_emptywarning=False, o=Loop(n), e='ee', **desc)
    except FootprintException:
        ctx.cover('error')
        ctx.check(always, 'resolvable-refused', desc)
        return
    except Exception as ex:
        ctx.fail('undocumented-error', repr(ex))
    ctx.check(not always, 'failing-method-accepted', desc)
    ctx.check(obj is not None, 'not-found')
    ctx.cover('value')
    exp = {'[o:late]': 'ok', 'x[o:late]-[e]': 'xok-ee', '[e][o:late]': 'eeok', '[o:never]': 'ok'}[desc['a']]
    for k in names:
        ctx.check(getattr(obj, k) == exp, 'text', (k, getattr(obj, k)))
