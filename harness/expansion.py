"""C12, C13: expansion of descriptions, file globbing."""
import collections
import contextlib
import os
import re
import shutil
import tempfile
import warnings

from footprints import stdtypes, util
from symx.core import Infeasible, char_in, concrete, wrap

from ._common import *  # noqa: F401,F403
from ._common import Raw, Val, footprints, harness, same

INSTRUMENT = True
warnings.simplefilter('ignore', FutureWarning)
ASSUMPTIONS = {
    'C12': ['elements are opaque values', 'texts: symbolic characters over a stated alphabet'],
    'C13': ['texts: symbolic characters over a stated alphabet', 'the glob module is modelled as the wildcard matching of the names of a small tree of folders '
            '(replays use real files)', 'file names without comma'],
}
DIGITS = '0123456789'


def raw(s):
    return str.__str__(s)


# -- reference model of the expansion --------------------------------------------------

def is_fp(v):
    return isinstance(v, (stdtypes.FPDict, stdtypes.FPList, stdtypes.FPSet, stdtypes.FPStr, stdtypes.FPTuple))


def parse_range(t):
    """The integers described by a range(...) text, or None."""
    if len(t) < 8:
        return None
    for c, x in zip('range', t):
        if not char_in(x, lambda a: a.lower() == c):
            return None
    if not char_in(t[5], '(') or not char_in(t[-1], ')'):
        return None
    nums, cur = [], ''
    for c in t[6:-1]:
        if char_in(c, DIGITS):
            cur += c
        elif char_in(c, ','):
            if not cur:
                return None
            nums.append(cur)
            cur = ''
        else:
            return None
    if not cur:
        return None
    nums.append(cur)
    if len(nums) > 3:
        return None
    nums = [int(concrete(wrap(x))) for x in nums]
    lo, hi, step = nums[0], nums[1] if len(nums) > 1 else nums[0], nums[2] if len(nums) > 2 else 1
    if step == 0:
        raise Infeasible()
    out = []
    while lo <= hi:
        out.append(lo)
        lo += step
    return out


def alternatives(v):
    """The list of what stands for a value after one step, or None if it is left as it is."""
    if is_fp(v):
        return None
    if isinstance(v, (list, tuple, set)):
        return list(v)
    if isinstance(v, str):
        t = raw(v)
        r = parse_range(t)
        if r is not None:
            return r
        parts, cur, seen = [], '', False
        for c in t:
            if char_in(c, ','):
                parts.append(wrap(cur))
                cur, seen = '', True
            else:
                cur += c
        return parts + [wrap(cur)] if seen else None
    return None


def ready(d, k):
    """The entry which selects in the dictionary d[k], if it is fully expanded."""
    v = d[k]
    if isinstance(v, dict) and not is_fp(v):
        for x in v:
            if x in d and x != k and alternatives(d[x]) is None and not isinstance(d[x], (list, tuple, set)) and ready(d, x) is None \
                    and not (isinstance(d[x], dict) and any(y in d for y in d[x])):
                return x
    return None


def expected(d):
    for k in d:
        alts = alternatives(d[k])
        if alts is None:
            x = ready(d, k)
            if x is None:
                continue
            sel = d[x] if isinstance(d[x], str) else str(d[x])
            alts = [d[k][x][y] for y in d[k][x] if y == sel]
            if not alts:
                raise Infeasible()
            alts = alts[:1]
        out = []
        for a in alts:
            nd = dict(d)
            nd[k] = a
            out.extend(expected(nd))
        return out
    return [d]


def eqv(a, b):
    """Same final value (texts compared by content and class up to the symbolic one)."""
    if isinstance(a, str) and isinstance(b, str):
        return (isinstance(a, stdtypes.FPStr) == isinstance(b, stdtypes.FPStr)) and wrap(raw(a)) == wrap(raw(b))
    return same(a, b)


def snapshot(v):
    if isinstance(v, dict):
        return (v.__class__, [(k, snapshot(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (v.__class__, [snapshot(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return (v.__class__, [id(x) for x in v])
    return v


def verify(ctx, desc):
    before = snapshot(desc)
    exp = expected(dict(desc))
    res = util.expand(desc)
    ctx.check(same_snap(before, snapshot(desc)), 'argument-modified', (before, desc))
    ctx.check(isinstance(res, list) and len(res) == len(exp), 'count', (desc, res, exp))
    ids = {id(desc)}
    unordered = any(isinstance(v, set) and not is_fp(v) for v in desc.values())
    left = list(exp)
    for i, r in enumerate(res):
        ctx.check(id(r) not in ids, 'shared-result')
        ids.add(id(r))
        ctx.check(r.get('index_expansion') == i + 1 and r['index_expansion'].__class__ is int, 'numbering', (i, r))
        if unordered:
            # (the elements of a set come in any order)
            for j, e in enumerate(left):
                if set(r) == set(e) | {'index_expansion'} and all(bool(eqv(r[k], e[k])) for k in e):
                    del left[j]
                    break
            else:
                ctx.fail('value', (r, left))
            continue
        e = exp[i]
        ctx.check(set(r) == set(e) | {'index_expansion'}, 'entries', (r, e))
        for k in e:
            ctx.check(eqv(r[k], e[k]), 'value', (k, r[k], e[k]))
    ctx.cover('none' if not exp else 'one' if len(exp) == 1 else 'many')


def same_snap(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_snap(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_snap(x, y) for x, y in zip(a, b))
    return a is b or (not isinstance(a, Val) and a.__class__ is b.__class__ and bool(a == b))


KINDS = ('plain', 'none', 'list0', 'list1', 'list2', 'tuple2', 'set2', 'fplist', 'fptuple', 'fpset', 'fpdict', 'fpstr', 'nested', 'text', 'comma',
         'range', 'dict', 'int', 'empty')


def mkvalue(ctx, name, kinds):
    k = ctx.pick(name, kinds)
    v = lambda: ctx.val(name + '.v', Raw)   # noqa: E731
    if k == 'plain':
        return v()
    if k == 'none':
        return None
    if k.startswith('list'):
        return [v() for _ in range(int(k[4:]))]
    if k == 'tuple2':
        return (v(), v())
    if k == 'set2':
        a, b = v(), v()
        ctx.assume(a != b)
        return {a, b}
    if k == 'fplist':
        return stdtypes.FPList([v(), v()])
    if k == 'fptuple':
        return stdtypes.FPTuple((v(), v()))
    if k == 'fpset':
        a, b = v(), v()
        ctx.assume(a != b)
        return stdtypes.FPSet({a, b})
    if k == 'fpdict':
        return stdtypes.FPDict(a={'x': 1}, z=v())
    if k == 'fpstr':
        return stdtypes.FPStr(ctx.pick(name + '.fp', ('x,y', 'range(1,3)', '{glob:n:.*}')))
    if k == 'nested':
        return [[v(), v()], v(), (v(),), 'p,q', stdtypes.FPList([v()]), 'range(2,3)', {'zz': [1, 2]}]
    if k == 'text':
        return ctx.pick(name + '.t', ('abc', 'range(1', 'range()', 'xrange(1)', 'range(1)x', '{globn:.*}', '[glob:n]'))
    if k == 'comma':
        return ctx.pick(name + '.t', ('p,q', ',', 'p,', 'range(1;2),q', 'p,q,r'))
    if k == 'range':
        return ctx.pick(name + '.t', ('range(2)', 'range(1,3)', 'range(3,1)', 'range(0,6,3)', 'RANGE(1,2)'))
    if k == 'dict':
        return {'zz': [v(), 'a,b'], 'yy': v()}
    if k == 'int':
        return 3
    return ''


@harness('C12', bounds='two entries of any of 19 kinds (opaque values; lists, tuples and sets of up to 2 elements, nested ones; protected '
         'containers and text; comma separated, range and ordinary texts; dictionaries) and a third one of 5 kinds',
         covers=('none', 'one', 'many'))
def products(ctx):
    desc = {'p': mkvalue(ctx, 'p', KINDS), 'q': mkvalue(ctx, 'q', KINDS),
            'r': mkvalue(ctx, 'r', ('plain', 'list2', 'fpdict', 'nested', 'range'))}
    verify(ctx, desc)


@harness('C12', bounds='a text of at most 5 symbolic characters among comma, a, 1, parentheses, space, with or without range( before and ) after, '
         'and a list of two elements', covers=('none', 'many'))
def texts(ctx):
    _texts(ctx, 5)


@harness('C12', tier='thorough', bounds='same with at most 6 characters', covers=('none', 'many'))
def texts_long(ctx):
    _texts(ctx, 6)


def _texts(ctx, n):
    t = ctx.sym_str('t', ctx.choose('len', n + 1), ',a12() ')
    form = ctx.pick('form', ('', 'range', 'RANGE', 'prange'))
    if form:
        t = form + '(' + t + ')'
    two = [ctx.val('v'), ctx.val('v')]
    desc = {'t': t, 'l': two} if ctx.flag('order') else {'l': two, 't': t}
    verify(ctx, desc)


@harness('C12', bounds='ranges of one to three numbers of one symbolic digit (two for the second), non zero step', covers=('none', 'one', 'many'))
def ranges(ctx):
    nb = 1 + ctx.choose('nb', 3)
    txt = ctx.sym_str('a', 1, DIGITS)
    if nb > 1:
        txt = txt + ',' + ctx.sym_str('b', 1 + ctx.choose('blen', 2), '0123')
    if nb > 2:
        txt = txt + ',' + ctx.sym_str('c', 1, '12345')
    verify(ctx, {'x': ctx.val('v'), 't': 'range(' + txt + ')'})


SEL = ('comma', 'range', 'list', 'ints', 'text', 'int', 'fpstr', 'dict', 'tuple', 'nested')


@harness('C12', bounds='1 to 24 entries to be expanded (lists of one opaque element, ranges, comma separated texts, dictionaries keyed by the previous '
         'one), at most one of them having two alternatives', covers=('one', 'many'))
def many_entries(ctx):
    n = 1 + ctx.choose('n', 24)
    kind = ctx.pick('kind', ('list', 'set', 'range', 'text', 'dict'))
    two = ctx.pick('two', (None, 'first', 'last'))
    desc, models = {}, {}
    for i in range(n):
        k = 'e%02d' % i
        double = two == 'first' and i == 0 or two == 'last' and i == n - 1
        if kind == 'list':
            desc[k] = [Raw.mk(i)] + ([Raw.mk(100)] if double else [])
            models[k] = list(desc[k])
        elif kind == 'set':
            desc[k] = {i, 100} if double else {i}
            models[k] = list(desc[k])
        elif kind == 'range':
            desc[k] = 'range(%d,%d)' % (i, i + 1 if double else i)
            models[k] = [i, i + 1] if double else [i]
        elif kind == 'text':
            desc[k] = 'x%d,' % i if double else ['x%d' % i]
            models[k] = ['x%d' % i, ''] if double else ['x%d' % i]
        elif i == 0:
            desc[k] = ['0', '1'] if double else ['0']
            models[k] = list(desc[k])
        else:
            desc[k] = {'e%02d' % (i - 1): {'0': '0', '1': '1'}}
            models[k] = None
    if kind == 'dict' and two == 'last':
        return
    orig = dict(desc)
    out = util.expand(desc)
    ctx.check(desc == orig, 'argument-modified')
    want = [{}]
    for k, alts in models.items():
        want = [dict(w, **{k: a}) for w in want for a in (alts if alts is not None else [w['e%02d' % (int(k[1:]) - 1)]])]
    ctx.cover('one' if len(want) == 1 else 'many')
    ctx.check(len(out) == len(want), 'number', (len(out), len(want)))
    for j, (o, w) in enumerate(zip(out, want)):
        ctx.check(same(o, dict(w, index_expansion=j + 1)), 'result', (o, w))


@harness('C12', bounds='a dictionary keyed by another entry (before or after it) whose value is one of 10 kinds, itself possibly selected by a third '
         'entry (plain, ordered or protected dictionary), with items that are opaque, lists, texts to be expanded or dictionaries; another list entry',
         covers=('one', 'many'))
def selections(ctx):
    sel = ctx.pick('sel', SEL)
    a, b = ctx.sym_str('a', 1, 'xy2'), ctx.sym_str('b', 1, 'xy2')
    kv = {'comma': a + ',' + b, 'range': 'range(1,2)', 'list': [a, b], 'ints': [1, 2], 'text': a, 'int': 2, 'fpstr': stdtypes.FPStr('x'),
          'dict': {'z': {'1': 'x', '2': 'y,2'}}, 'tuple': (a,), 'nested': [[a, 1], 'range(1,2)']}[sel]
    item = ctx.pick('item', ('plain', 'list', 'comma', 'dict', 'protected', 'keyed'))
    one = {'plain': ctx.val('i'), 'list': [ctx.val('i'), ctx.val('i')], 'comma': 'm,n', 'dict': {'zz': ctx.val('i')},
           'protected': stdtypes.FPList([1, 2]), 'keyed': {'z': {'1': 'u', '2': 'v,w', 'x': 'o'}}}[item]
    tab = {'x': one, 'y': ctx.val('j'), '2': 'two', '1': ctx.val('k')}
    d = {'k': tab}
    how = ctx.pick('class', ('dict', 'fpdict', 'ordered'))
    if how == 'fpdict':
        d = stdtypes.FPDict(d)
    elif how == 'ordered':
        # (any other class of dictionary is a dictionary)
        d = collections.OrderedDict(d)
    entries = [('d', d), ('k', kv), ('z', ctx.pick('z', ('range(1,2)', '1', [1, 2])))]
    order = ctx.pick('order', ((0, 1, 2), (1, 0, 2), (2, 1, 0), (0, 2, 1), (1, 2, 0), (2, 0, 1)))
    verify(ctx, dict(entries[i] for i in order))


@harness('C12', bounds='dictionaries keyed by nothing, by a protected container or by each other, left as they are', covers=('one', 'many'))
def unselected(ctx):
    k = ctx.pick('k', (stdtypes.FPList([1, 2]), stdtypes.FPTuple(('x',)), stdtypes.FPSet({'x'})))
    d = ctx.pick('d', ({'k': {'x': 1}}, {'w': {'x': 1}}, {}, {'w': [1, 2], 'v': 'a,b'}))
    l = ctx.pick('l', ('plain', [1, 2], 'a,b'))
    entries = [('d', d), ('k', k), ('l', l)]
    order = ctx.pick('order', ((0, 1, 2), (1, 0, 2), (2, 1, 0)))
    desc = dict(entries[i] for i in order)
    before = snapshot(desc)
    res = util.expand(desc)
    ctx.check(same_snap(before, snapshot(desc)), 'argument-modified')
    n = 1 if l == 'plain' else 2
    ctx.cover('one' if n == 1 else 'many')
    ctx.check(len(res) == n, 'count', res)
    for i, r in enumerate(res):
        ctx.check(r == dict(d=d, k=k, l=l if n == 1 else (l.split(',') if isinstance(l, str) else l)[i], index_expansion=i + 1), 'value', r)
        ctx.check(r['k'].__class__ is k.__class__, 'protected-class')


# -- C13 --------------------------------------------------------------------------------

def wild(p, s):
    """Shell wildcard matching (pattern: concrete text)."""
    if not p:
        return not s
    c = p[0]
    if c == '*':
        return any(wild(p[1:], s[i:]) for i in range(len(s) + 1))
    if not s:
        return False
    if c == '?':
        return wild(p[1:], s[1:])
    if c == '[':
        j = 1
        if p[j:j + 1] == '!':
            j += 1
        j = p.find(']', j + 1)
        if j > 0:
            body = p[1:j]
            neg = body.startswith('!')
            body = body[1:] if neg else body
            if len(body) > 2 and '-' in body[1:-1]:
                raise AssertionError('unexpected character range')
            return char_in(s[0], lambda a: (a in body) != neg) and wild(p[j + 1:], s[1:])
    return char_in(s[0], c) and wild(p[1:], s[1:])


@contextlib.contextmanager
def directory(ctx, names, folders=()):
    """A directory with the given files and folders (real ones, but for the symbolic exploration)."""
    if ctx.symbolic:
        from symx.symstr import GlobModule

        def handler(pattern, recursive=False, hidden=False):
            def steps(ps, ns):
                if not ps or not ns:
                    return not ps and not ns
                if recursive and ps[0] == '**':
                    if len(ps) > 1 and steps(ps[1:], ns):
                        return True
                    return (hidden or not char_in(ns[0][0], '.')) and (len(ps) == len(ns) == 1 or steps(ps, ns[1:]))
                return (hidden or ps[0].startswith('.') or not char_in(ns[0][0], '.')) and wild(ps[0], ns[0]) and steps(ps[1:], ns[1:])
            p = concrete(pattern)
            return [n for n in names if steps(p.split('/'), raw(n).split('/'))]
        GlobModule.handler = staticmethod(handler)
        try:
            yield
        finally:
            GlobModule.handler = None
        return
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='symx-glob-')
    try:
        os.chdir(tmp)
        for n in names:
            if n in folders:
                os.mkdir(n)
            else:
                with open(n, 'w'):
                    pass
        yield
    finally:
        os.chdir(here)
        shutil.rmtree(tmp)


def filename(ctx, name, length, alphabet):
    n = ctx.sym_str(name, length, alphabet)
    if length == 1:
        ctx.assume(n != '.')
    if length == 2:
        ctx.assume(n != '..')
    return n


def word(s):
    return len(s) > 0 and all(char_in(c, lambda a: a.isalnum() or a == '_') for c in s)


PARTS = {
    r'\w+': word,
    r'\d+': lambda s: len(s) > 0 and all(char_in(c, DIGITS) for c in s),
    r'.*': lambda s: True,
    r'[^.\]]{2}': lambda s: len(s) == 2 and all(char_in(c, lambda a: a not in '.]') for c in s),
    r'a|1': lambda s: len(s) == 1 and char_in(s, 'a1'),
    r'a(?:1|\.)?': lambda s: len(s) in (1, 2) and char_in(s[0], 'a') and (len(s) == 1 or char_in(s[1], '1.')),
    r'(\[)?1': lambda s: (len(s) == 1 and char_in(s, '1')) or (len(s) == 2 and char_in(s[0], '[') and char_in(s[1], '1')),
}


def matches(parts, s, fixed=None):
    """Does the whole text match? parts: characters (with wildcards) and (name, predicate)."""
    if not parts:
        return not s
    p = parts[0]
    if isinstance(p, tuple):
        for i in range(len(s) + 1):
            if fixed is not None:
                if i != len(fixed[p[0]]) or not same_text(s[:i], fixed[p[0]]):
                    continue
            if p[1](s[:i]) and matches(parts[1:], s[i:], fixed):
                return True
        return False
    if char_in(p, '*'):
        return any(matches(parts[1:], s[i:], fixed) for i in range(len(s) + 1))
    if not s:
        return False
    if char_in(p, '?'):
        return matches(parts[1:], s[1:], fixed)
    return same_text(p, s[0]) and matches(parts[1:], s[1:], fixed)


def same_text(a, b):
    return bool(wrap(raw(a)) == wrap(raw(b)))


def selected(parts, s):
    """Is this file (path) selected? A part or a wildcard never spans a separator, hidden entries have to be asked for."""
    steps = [[]]
    for p in parts:
        if p == '/':
            steps.append([])
        else:
            steps[-1].append(p)
    names = s.split('/')
    if len(names) != len(steps):
        return False
    for p, n in zip(steps, names):
        if (isinstance(p[0], tuple) or not char_in(p[0], '.')) and char_in(n[0], '.'):
            return False
        if not matches(p, n):
            return False
    return True


def run_glob(ctx, names, text, parts, gnames, folders=()):
    fpstr = stdtypes.FPStr('=[glob:{}]'.format(gnames[-1]))
    desc = {'f': text, 'i': ''.join('<[glob:{}]>'.format(g) for g in gnames), 'p': fpstr, 'u': '[glob:zz][n]', 'o': 3}
    if ctx.flag('order'):
        desc = dict(reversed(list(desc.items())))
    copy = dict(desc)
    with directory(ctx, names, folders):
        res = util.expand(desc)
    ctx.check(list(desc) == list(copy) and all(desc[k] is copy[k] for k in copy), 'argument-modified')
    sel = [n for n in names if selected(parts, raw(n))]
    if len(sel) > 1 and not sel[0] < sel[1]:
        sel[0], sel[1] = sel[1], sel[0]
    ctx.cover('{}'.format(len(sel)))
    ctx.check(len(res) == len(sel), 'selected', (names, text, res, sel))
    for i, (r, n) in enumerate(zip(res, sel)):
        ctx.check(same_text(r['f'], n), 'file', (names, text, r, n))
        ctx.check(r['index_expansion'] == i + 1, 'numbering', r)
        ctx.check(r['o'] == 3 and same_text(r['u'], '[glob:zz][n]'), 'unrelated', r)
        got = raw(r['i'])
        caps = {}
        # the captured texts, found by their lengths (the names have neither < nor >)
        pos = 0
        for g in gnames:
            ctx.check(got[pos:pos + 1] == '<' and got.find('>', pos) > 0, 'captured', (got, r))
            end = got.find('>', pos)
            caps[g] = got[pos + 1:end]
            pos = end + 1
        ctx.check(pos == len(got), 'captured', (got, r))
        ctx.check(isinstance(r['p'], stdtypes.FPStr) and same_text(r['p'], '=' + caps[gnames[-1]]), 'captured-protected', r)
        ctx.check(matches(parts, raw(n), caps), 'captured-text', (n, text, caps))


@harness('C13', bounds='one named part among 7 expressions between two literal texts of at most one symbolic character (any of a 1 . [ ] * ? \\), '
         'one or two files whose names have 1 to 3 symbolic characters among a 1 . [ ] backslash', covers=('0', '1', '2'))
def one_part(ctx):
    _one(ctx, (1,), 3)


@harness('C13', tier='thorough', bounds='same with literal texts of up to 2 characters before and one file', covers=('0', '1'))
def longer_literals(ctx):
    _one(ctx, (2,), 4, 1)


@harness('C13', tier='thorough', bounds='literal texts of 1 and 2 characters, two names of 1 to 4 characters', covers=('0', '1', '2'))
def one_part_long(ctx):
    _one(ctx, (1, 2), 4)


def _one(ctx, lens, maxname, nbmax=2):
    rex = ctx.pick('re', list(PARTS))
    l1 = ctx.sym_str('l1', ctx.pick('l1len', (0,) + lens), 'a.[]*?\\')
    l2 = ctx.sym_str('l2', ctx.choose('l2len', 2), '1].*?')
    nb = 1 + ctx.choose('nb', nbmax)
    n = 1 + ctx.choose('n1', maxname)
    names = [filename(ctx, 'n1', n, 'a1.[]\\')]
    if nb == 2:
        names.append(filename(ctx, 'n2', 1 + ctx.choose('n2', maxname - 1), 'a1.]'))
        ctx.assume(names[0] != names[1])
    text = l1 + '{glob:n:' + rex + '}' + l2
    parts = list(raw(l1)) + [('n', PARTS[rex])] + list(raw(l2))
    run_glob(ctx, names, text, parts, ['n'])


@harness('C13', bounds='names which look like references to the parts of the pattern or to other entries, preceded and followed by 0-1 symbolic '
         'character among a 1 . ] and a blank, one or two files', covers=('0', '1', '2'))
def reference_names(ctx):
    mid = ctx.pick('mid', ('[glob:n]', '[n]', '[o]', '[glob:zz]', '\\1', '\\g(0)', '[glob:n', 'None', '%s', '[glob:n:a]'))
    names = [ctx.sym_str('a', ctx.choose('na', 2), 'a1.] ') + mid + ctx.sym_str('b', ctx.choose('nb', 2), 'a1.]')]
    if ctx.flag('two'):
        names.append('zz')
    text = ctx.pick('text', ('{glob:n:.*}', 'a{glob:n:.*}', '*{glob:n:.*}1'))
    pre, post = text.split('{')[0], text.split('}')[1]
    parts = list(pre) + [('n', PARTS['.*'])] + list(post)
    run_glob(ctx, names, text, parts, ['n'])


@harness('C13', bounds='two named parts among 5 expressions, separated by a literal text of at most one character, names of 1 to 4 characters',
         covers=('0', '1'))
def two_parts(ctx):
    opts = (r'\w+', r'\d+', r'.*', r'a|1', r'a(?:1|\.)?')
    r1, r2 = ctx.pick('r1', opts), ctx.pick('r2', opts)
    l1 = ctx.sym_str('l1', ctx.choose('l1len', 2), 'a.?')
    l2 = ctx.sym_str('l2', ctx.choose('l2len', 2), '.*]')
    names = [filename(ctx, 'n1', 1 + ctx.choose('n1', 4), 'a1.]')]
    text = l1 + '{glob:n:' + r1 + '}' + l2 + '{glob:mm:' + r2 + '}'
    parts = list(raw(l1)) + [('n', PARTS[r1])] + list(raw(l2)) + [('mm', PARTS[r2])]
    run_glob(ctx, names, text, parts, ['n', 'mm'])


@harness('C13', bounds='a tree of up to 2 folders with symbolic names of 1 character, each with or without a file of 1-2 symbolic characters, and a file '
         'beside; 9 patterns with a separator (literal, wildcards, parts on either or both sides) and 5 without', covers=('0', '1', '2'))
def folders(ctx):
    d1 = ctx.sym_str('d1', 1, 'a1]')
    names, dirs = [d1], [d1]
    if ctx.flag('file1'):
        names.append(d1 + '/' + filename(ctx, 'n1', 1 + ctx.choose('len1', 2), 'a1.'))
    if ctx.flag('two'):
        d2 = ctx.sym_str('d2', 1, 'a1b')
        ctx.assume(d1 != d2)
        names.append(d2)
        dirs.append(d2)
        names.append(d2 + '/' + filename(ctx, 'n2', 1, 'a1'))
    else:
        beside = filename(ctx, 'n3', 1 + ctx.choose('len3', 2), 'a1.')
        ctx.assume(beside != d1)
        names.append(beside)
    rex = ctx.pick('re', (r'\w+', r'.*', r'a|1'))
    f = ('n', PARTS[rex])
    g = ('mm', PARTS[r'.*'])
    n, m = '{glob:n:' + rex + '}', '{glob:mm:.*}'
    text, parts, gn = ctx.pick('pattern', (
        ('a/' + n, ['a', '/', f], ['n']), ('?/' + n, ['?', '/', f], ['n']), ('*/' + n, ['*', '/', f], ['n']),
        (n + '/a', [f, '/', 'a'], ['n']), (n + '/*', [f, '/', '*'], ['n']), (n + '/' + m, [f, '/', g], ['n', 'mm']),
        (m + '/' + n, [g, '/', f], ['mm', 'n']), ('*/.' + n, ['*', '/', '.', f], ['n']),
        (m + n, [g, f], ['mm', 'n']), ('**/' + n, ['*', '*', '/', f], ['n']), ('**' + n, ['*', '*', f], ['n']),
        (n, [f], ['n']), ('*' + n, ['*', f], ['n']), ('?' + n, ['?', f], ['n'])))
    run_glob(ctx, names, text, parts, gn, dirs)


@harness('C13', bounds='two or three files whose names have 1 or 2 symbolic characters among both letter cases, digits, dash and underscore: sorted order',
         covers=('2', '3'))
def order(ctx):
    text = ctx.pick('text', ('{glob:n:.*}', 'f{glob:n:.*}', '{glob:n:.*}f'))
    pre, post = text.split('{')[0], text.split('}')[1]
    nb = 2 + ctx.choose('nb', 2)
    names = [ctx.sym_str('n', 1 + ctx.choose('len', 2) if nb == 2 else 1, 'aBbA1_-~') for _ in range(nb)]
    for i in range(nb):
        for j in range(i):
            ctx.assume(names[i] != names[j])
    full = [pre + n + post for n in names]
    with directory(ctx, full):
        res = util.expand({'f': text, 'i': '[glob:n]'})
    ctx.cover(str(nb))
    ctx.check(len(res) == nb, 'selected', res)
    for a, b in zip(res, res[1:]):
        ctx.check(a['f'] < b['f'], 'not-sorted', (full, text))
    for r in res:
        ctx.check(same_text(pre + r['i'] + post, r['f']), 'captured-text', r)
        ctx.check(any(same_text(r['f'], n) for n in full), 'unknown-file', r)


@harness('C13', bounds='any expression of at most 3 symbolic characters among a ( ) { } [ 1 backslash within a named part followed by any of 6 texts '
         '(another part, with the same name or not)', covers=('valid', 'invalid'))
def malformed(ctx):
    _malformed(ctx, 3)


@harness('C13', tier='thorough', bounds='same with at most 4 characters', covers=('valid', 'invalid'))
def malformed_long(ctx):
    _malformed(ctx, 4)


def _malformed(ctx, n):
    e = ctx.sym_str('e', ctx.choose('len', n + 1), 'a(){}[1\\')
    name = ctx.pick('name', ('n', 'n1', '1n'))
    tail = ctx.pick('tail', ('', '}', 'x', '{glob:n:a}', '{glob:m:a}', '(?P<m>a)}{glob:m:a}'))
    text = '{glob:' + name + ':' + e + '}' + tail
    files = ['a', '1', 'aa', 'aa}', 'ax', 'a}', 'a11', 'a{1}']
    with directory(ctx, files):
        try:
            res = util.expand({'f': text})
        except ValueError:
            res = None
    t = concrete(text)
    # reference: split in parts, then the regular expressions as they are
    exp, names, pos = '', [], 0
    ok = True
    while ok and pos < len(t):
        m = re.match(r'\{glob:(\w+):', t[pos:])
        if not m:
            exp += {'*': '.*', '?': '.'}.get(t[pos], re.escape(t[pos]))
            pos += 1
            continue
        depth, i = 0, pos + m.end()
        start = i
        while i < len(t):
            esc = i > start and t[i - 1] == '\\'
            if t[i] == '{' and not esc:
                depth += 1
            elif t[i] == '}' and not esc:
                if not depth:
                    break
                depth -= 1
            i += 1
        ok = i < len(t) and m.group(1) not in names
        names.append(m.group(1))
        part = t[start:i]
        if ok:
            try:
                re.compile(part)
            except re.error:
                ok = False
        exp += '(?P<{}>{})'.format(m.group(1), part)
        pos = i + 1
    if ok:
        try:
            exp = re.compile(exp)
        except re.error:
            ok = False
    if not ok:
        ctx.cover('invalid')
        ctx.check(res is None, 'malformed-accepted', (t, res))
        return
    ctx.cover('valid')
    ctx.check(res is not None, 'valid-refused', t)
    ctx.check([r['f'] for r in res] == sorted(f for f in files if exp.fullmatch(f)), 'selected', (t, res))
