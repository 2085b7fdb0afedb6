"""Texts with symbolic characters, and a symbolic regular expression matcher.

A symbolic character is a private-use code point (from BASE on) standing for a z3
integer constant restricted to a finite alphabet.  A ``SymStr`` is a real ``str``
whose buffer may hold such code points: slicing, concatenation, joining or
formatting move them around untouched, whereas everything which inspects
characters is redefined here and asks the solver.  Whatever is not redefined
falls back on concretisation (each feasible value is then explored apart).
"""
import os
import re as _re
import re._constants as C
import re._parser as _parser

import z3

from . import core
from .engine import SymBool, SymInt, mkbool

BASE = 0xF0000
FIRST = chr(BASE)


class Char:
    __slots__ = ('term', 'dom')

    def __init__(self, term, dom):
        self.term = term
        self.dom = frozenset(dom)


def table():
    return core.CUR.path_tokens


def new_char(term, dom):
    t = table()
    cp = BASE + len(t)
    t[cp] = Char(term, dom)
    return chr(cp)


def raw(s):
    return str.__str__(s)


def has_sym(s):
    return bool(s) and max(raw(s)) >= FIRST


def wrap(s):
    """The SymStr of a text which holds symbolic characters (and the text itself otherwise)."""
    if type(s) is SymStr:
        return s
    if type(s) is str and has_sym(s):
        return str.__new__(SymStr, s)
    return s


def mkstr(chars):
    return wrap(''.join(chars))


def char_in(ch, cond):
    """Decide whether a character belongs to a set of characters / satisfies a predicate (forks)."""
    pred = cond if callable(cond) else cond.__contains__
    if ch < FIRST:
        return bool(pred(ch))
    info = table()[ord(ch)]
    yes = frozenset(a for a in info.dom if pred(a))
    if not yes:
        return False
    no = info.dom - yes
    if not no:
        return True
    side = yes if len(yes) <= len(no) else no
    e = z3.Or(*[info.term == ord(a) for a in sorted(side)])
    if side is no:
        e = z3.Not(e)
    r = core.CUR.decide(e)
    # (what is known on this path)
    info.dom = yes if r else no
    return r


def term(ch):
    return z3.IntVal(ord(ch)) if ch < FIRST else table()[ord(ch)].term


def str_eq(a, b):
    """Equality of two texts (bool, or SymBool when undecided)."""
    a, b = raw(a), raw(b)
    if len(a) != len(b):
        return False
    if a == b:
        return True
    conj = []
    for x, y in zip(a, b):
        if x == y:
            continue
        if x < FIRST and y < FIRST:
            return False
        dx = {x} if x < FIRST else table()[ord(x)].dom
        dy = {y} if y < FIRST else table()[ord(y)].dom
        if not (dx & dy):
            return False
        if len(a) == 1 and (x < FIRST or y < FIRST):
            return char_in(y, x) if x < FIRST else char_in(x, y)
        conj.append(term(x) == term(y))
    return mkbool(z3.And(*conj))


def str_lt(a, b, orequal):
    a, b = raw(a), raw(b)
    n = min(len(a), len(b))
    if len(a) != len(b):
        res = z3.BoolVal(len(a) < len(b))
    else:
        res = z3.BoolVal(orequal)
    for i in reversed(range(n)):
        x, y = term(a[i]), term(b[i])
        res = z3.Or(x < y, z3.And(x == y, res))
    return mkbool(res)


def concretize(s):
    """One concrete text for the rest of the path."""
    if not isinstance(s, str) or not has_sym(s):
        return raw(s) if type(s) is SymStr else s
    out = []
    for ch in raw(s):
        if ch < FIRST:
            out.append(ch)
        else:
            v = chr(core.CUR.concretize(table()[ord(ch)].term))
            table()[ord(ch)].dom = frozenset(v)
            out.append(v)
    return ''.join(out)


def deep_concretize(x):
    if type(x) is SymStr or type(x) is str:
        return concretize(x)
    if type(x) in (list, tuple):
        return type(x)(deep_concretize(y) for y in x)
    return x


SPACES = ' \t\n\r\x0b\x0c'


class SymStr(str):

    def __new__(cls, value='', *a):
        if a:
            return str(value, *a)
        if isinstance(value, str):
            return wrap(raw(value)) if type(value) is not SymStr else value
        return wrap(str(value))

    def __eq__(self, o):
        return str_eq(self, o) if isinstance(o, str) else False

    def __ne__(self, o):
        if not isinstance(o, str):
            return True
        r = str_eq(self, o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def __lt__(self, o):
        return str_lt(self, o, False) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return str_lt(self, o, True) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return str_lt(o, self, False) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return str_lt(o, self, True) if isinstance(o, str) else NotImplemented

    def __hash__(self):
        return hash(concretize(self))

    def __str__(self):
        return self

    def __repr__(self):
        if core.CUR.quiet:
            m = core.CUR.model
            return repr(''.join(c if c < FIRST else chr(m.eval(table()[ord(c)].term, model_completion=True).as_long())
                                for c in raw(self)))
        # (containers only: repr() and the !r conversions are exact, see sx_repr and sx_format)
        return "'" + raw(self) + "'"

    def __format__(self, spec):
        return raw(self) if spec in ('', 's') else format(concretize(self), spec)

    def __getitem__(self, i):
        return wrap(raw(self)[i])

    def __iter__(self):
        for c in raw(self):
            yield wrap(c)

    def __add__(self, o):
        return wrap(raw(self) + raw(o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return wrap(raw(o) + raw(self)) if isinstance(o, str) else NotImplemented

    def __mul__(self, n):
        return wrap(raw(self) * n)

    __rmul__ = __mul__

    def __mod__(self, args):
        return wrap(concretize(self) % args)

    def __contains__(self, sub):
        return str_find(self, sub) >= 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (str, (concretize(self),))

    def __reduce_ex__(self, proto):
        return self.__reduce__()

    def find(self, sub, start=0, end=None):
        return str_find(self, sub, start, end)

    def index(self, sub, start=0, end=None):
        r = str_find(self, sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rfind(self, sub):
        r = raw(self)
        for i in reversed(range(len(r) - len(sub) + 1)):
            if sub_at(r, i, raw(sub)):
                return i
        return -1

    def startswith(self, pre, *a):
        if a:
            return self[slice(*a)].startswith(pre) if has_sym(self) else raw(self).startswith(pre, *a)
        if isinstance(pre, tuple):
            return any(self.startswith(p) for p in pre)
        return len(pre) <= len(self) and sub_at(raw(self), 0, raw(pre))

    def endswith(self, suf, *a):
        if a:
            return wrap(raw(self)[slice(*a)]).endswith(suf)
        if isinstance(suf, tuple):
            return any(self.endswith(p) for p in suf)
        return len(suf) <= len(self) and sub_at(raw(self), len(self) - len(suf), raw(suf))

    def count(self, sub):
        n, pos = 0, 0
        while True:
            i = str_find(self, sub, pos)
            if i < 0:
                return n
            n += 1
            pos = i + max(1, len(sub))

    def replace(self, old, new, count=-1):
        if not old:
            return wrap(concretize(self).replace(old, raw(new), count))
        r, out, pos = raw(self), [], 0
        while count:
            i = str_find(self, old, pos)
            if i < 0:
                break
            out.append(r[pos:i] + raw(new))
            pos = i + len(old)
            count -= 1
        return wrap(''.join(out) + r[pos:])

    def split(self, sep=None, maxsplit=-1):
        r = raw(self)
        if sep is None:
            m = SymRe(_re.compile(r'\s+')).split(self.strip(), maxsplit if maxsplit > 0 else 0)
            return [x for x in m if len(x)]
        out, pos = [], 0
        while maxsplit:
            i = str_find(self, sep, pos)
            if i < 0:
                break
            out.append(wrap(r[pos:i]))
            pos = i + len(sep)
            maxsplit -= 1
        out.append(wrap(r[pos:]))
        return out

    def partition(self, sep):
        i = str_find(self, sep)
        r = raw(self)
        return (wrap(r[:i]), sep, wrap(r[i + len(sep):])) if i >= 0 else (self, '', '')

    def rpartition(self, sep):
        i = self.rfind(sep)
        r = raw(self)
        return (wrap(r[:i]), sep, wrap(r[i + len(sep):])) if i >= 0 else ('', '', self)

    def lstrip(self, chars=None):
        r, cs = raw(self), SPACES if chars is None else chars
        i = 0
        while i < len(r) and char_in(r[i], cs):
            i += 1
        return wrap(r[i:])

    def rstrip(self, chars=None):
        r, cs = raw(self), SPACES if chars is None else chars
        i = len(r)
        while i > 0 and char_in(r[i - 1], cs):
            i -= 1
        return wrap(r[:i])

    def strip(self, chars=None):
        x = self.lstrip(chars)
        return x.rstrip(chars)

    def join(self, it):
        return wrap(raw(self).join(raw(x) for x in it))

    def _every(self, pred):
        return bool(len(self)) and all(char_in(c, pred) for c in raw(self))

    def isdigit(self):
        return self._every(str.isdigit)

    def isalnum(self):
        return self._every(str.isalnum)

    def isalpha(self):
        return self._every(str.isalpha)

    def isspace(self):
        return self._every(str.isspace)

    def format(self, *a, **k):
        return wrap(concretize(self).format(*a, **k))


def _cased(name):
    nat = getattr(str, name)

    def meth(self):
        out = []
        for ch in raw(self):
            if ch < FIRST:
                out.append(nat(ch))
                continue
            info = table()[ord(ch)]
            changed = sorted(a for a in info.dom if nat(a) != a)
            if any(len(nat(a)) != 1 for a in changed):
                return nat(concretize(self))
            if changed:
                t = info.term
                for a in changed:
                    t = z3.If(info.term == ord(a), z3.IntVal(ord(nat(a))), t)
                ch = new_char(t, [nat(a) for a in info.dom])
            out.append(ch)
        return mkstr(out)
    meth.__name__ = name
    return meth


for _n in ('lower', 'upper', 'casefold', 'swapcase'):
    setattr(SymStr, _n, _cased(_n))


def _fallback(name):
    nat = getattr(str, name)

    def meth(self, *a, **k):
        r = nat(concretize(self), *[deep_concretize(x) for x in a], **k)
        return r
    meth.__name__ = name
    return meth


for _n in dir(str):
    if not _n.startswith('__') and _n not in SymStr.__dict__ and _n != 'maketrans':
        setattr(SymStr, _n, _fallback(_n))


def sub_at(r, i, sub):
    return all((x == y) or char_same(x, y) for x, y in zip(r[i:i + len(sub)], sub))


def char_same(x, y):
    if x < FIRST and y < FIRST:
        return x == y
    return bool(str_eq(x, y))


def str_find(s, sub, start=0, end=None):
    r, sub = raw(s), raw(sub)
    n = len(r) if end is None else min(end, len(r))
    for i in range(max(0, start), n - len(sub) + 1):
        if sub_at(r, i, sub):
            return i
    return -1


# -- regular expressions -----------------------------------------------------------

class SymMatch:
    def __init__(self, rex, s, groups, pos):
        self.re = rex
        self.string = s
        self._g = groups
        self.pos = pos
        self.endpos = len(s)

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[concretize(g)]
        return g

    def span(self, g=0):
        return self._g.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g):
        i = self._idx(g)
        if i < 0 or i > self.re.groups:
            raise IndexError('no such group')
        sp = self._g.get(i)
        return None if sp is None else wrap(raw(self.string)[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(default if self._one(i) is None else self._one(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: default if self._one(i) is None else self._one(i) for n, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return max((i for i in self._g if i), default=None)

    def expand(self, tpl):
        return wrap(expand_template(self.re, concretize(tpl), self))


CATS = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s', C.CATEGORY_NOT_SPACE: r'\S',
        C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}
CATRE = {k: _re.compile(v) for k, v in CATS.items()}


def in_pred(items, flags):
    """Predicate of a character set."""
    def one(a):
        res = False
        neg = False
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                res = res or ord(a) == av
            elif op is C.RANGE:
                res = res or av[0] <= ord(a) <= av[1]
            elif op is C.CATEGORY:
                res = res or CATRE[av].match(a) is not None
            else:
                raise core.EngineError('regex set {}'.format(op))
        return res != neg

    if flags & _re.IGNORECASE:
        return lambda a: (one(a) or one(a.lower()) or one(a.upper())) if items[0][0] is not C.NEGATE else one(a)
    return one


def m_seq(ops, i, r, pos, g, flags, k):
    """Match ops[i:] at pos, then the continuation k(pos, groups); first success in priority order."""
    if i == len(ops):
        return k(pos, g)
    op, av = ops[i]

    def nxt(p, gg):
        return m_seq(ops, i + 1, r, p, gg, flags, k)

    if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
        if pos >= len(r):
            return None
        if op is C.LITERAL or op is C.NOT_LITERAL:
            ref = chr(av)
            if flags & _re.IGNORECASE:
                refl = ref.lower()
                pred = (lambda a: a.lower() == refl)
            else:
                pred = (lambda a: a == ref)
            if ref >= FIRST:
                raise core.EngineError('symbolic pattern')
            ok = char_in(r[pos], pred)
            if op is C.NOT_LITERAL:
                ok = not ok
        elif op is C.ANY:
            ok = True if flags & _re.DOTALL else not char_in(r[pos], '\n')
        else:
            ok = char_in(r[pos], in_pred(av, flags))
        return nxt(pos + 1, g) if ok else None
    if op is C.SUBPATTERN:
        gid, add, rem, sub = av
        fl = (flags | add) & ~rem

        def close(p, gg):
            if gid is not None:
                gg = dict(gg)
                gg[gid] = (pos, p)
            return nxt(p, gg)
        return m_seq(list(sub), 0, r, pos, g, fl, close)
    if op is C.BRANCH:
        for alt in av[1]:
            res = m_seq(list(alt), 0, r, pos, g, flags, nxt)
            if res is not None:
                return res
        return None
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def rep(n, p, gg, last):
            def more():
                if hi is not C.MAXREPEAT and n >= hi:
                    return None
                if n >= lo and p == last:
                    return None     # (an empty iteration is not repeated)
                return m_seq(sub, 0, r, p, gg, flags, lambda p2, g2: rep(n + 1, p2, g2, p))
            if n < lo:
                return more()
            if op is C.MAX_REPEAT:
                res = more()
                return res if res is not None else nxt(p, gg)
            res = nxt(p, gg)
            return res if res is not None else more()
        return rep(0, pos, g, -1)
    if op is C.AT:
        n = len(r)
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if flags & _re.MULTILINE and av is C.AT_BEGINNING:
                raise core.EngineError('multiline')
            ok = pos == 0
        elif av is C.AT_END:
            ok = pos == n or (pos == n - 1 and char_in(r[pos], '\n'))
        elif av is C.AT_END_STRING:
            ok = pos == n
        elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = CATRE[C.CATEGORY_WORD]

            def word(p):
                return 0 <= p < n and char_in(r[p], lambda a: w.match(a) is not None)
            ok = (word(pos - 1) != word(pos)) == (av is C.AT_BOUNDARY)
        else:
            raise core.EngineError('regex position {}'.format(av))
        return nxt(pos, g) if ok else None
    if op is C.GROUPREF:
        sp = g.get(av)
        if sp is None:
            return None
        sub = r[sp[0]:sp[1]]
        if pos + len(sub) > len(r) or not sub_at(r, pos, sub):
            return None
        return nxt(pos + len(sub), g)
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, sub = av
        if direction < 0:
            w = sub.getwidth()
            if w[0] != w[1] or pos - w[0] < 0:
                res = None
            else:
                res = m_seq(list(sub), 0, r, pos - w[0], g, flags, lambda p, gg: gg)
        else:
            res = m_seq(list(sub), 0, r, pos, g, flags, lambda p, gg: gg)
        if op is C.ASSERT:
            return nxt(pos, res) if res is not None else None
        return nxt(pos, g) if res is None else None
    if op is C.ATOMIC_GROUP:
        res = m_seq(list(av), 0, r, pos, g, flags, lambda p, gg: (p, gg))
        return None if res is None else nxt(*res)
    raise core.EngineError('regex operation {}'.format(op))


def expand_template(rex, tpl, m):
    """Replacement template with its escapes."""
    out = []
    for x in _parser.parse_template(tpl, rex.real):
        if isinstance(x, int):
            v = m.group(x)
            out.append('' if v is None else raw(v))
        else:
            out.append(x)
    return ''.join(out)


class SymRe:
    """A compiled regular expression which also works on symbolic texts."""

    def __init__(self, real):
        self.real = real
        self._tree = None

    def __getattr__(self, name):
        return getattr(self.__dict__['real'], name)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __eq__(self, o):
        return isinstance(o, SymRe) and self.real == o.real

    def __hash__(self):
        return hash(self.real)

    @property
    def tree(self):
        if self._tree is None:
            self._tree = list(_parser.parse(self.real.pattern, self.real.flags & ~_re.DEBUG))
        return self._tree

    def _at(self, r, pos, k=None, nonempty=False, full=False):
        def end(p, g):
            if nonempty and p == pos or full and p != len(r):
                return None
            g = dict(g)
            g[0] = (pos, p)
            return g
        return m_seq(self.tree, 0, r, pos, {}, self.real.flags, end)

    def _do(self, s, pos, search, full=False, nonempty=False):
        s = wrap(s)
        r = raw(s)
        while pos <= len(r):
            g = self._at(r, pos, nonempty=nonempty, full=full)
            if g is not None:
                return SymMatch(self, s, g, pos)
            if not search:
                return None
            pos += 1
            nonempty = False
        return None

    @staticmethod
    def _sym(s):
        return isinstance(s, str) and (type(s) is SymStr or has_sym(s)) and has_sym(s)

    def match(self, s, *a):
        if not self._sym(s):
            return self.real.match(conc0(s), *a)
        if a:
            raise core.EngineError('match with positions')
        return self._do(s, 0, False)

    def fullmatch(self, s, *a):
        return self.real.fullmatch(conc0(s), *a) if not self._sym(s) else self._do(s, 0, False, full=True)

    def search(self, s, *a):
        return self.real.search(conc0(s), *a) if not self._sym(s) else self._do(s, a[0] if a else 0, True)

    def finditer(self, s):
        if not self._sym(s):
            return self.real.finditer(conc0(s))
        return self._iter(s)

    def _iter(self, s):
        pos, adv = 0, False
        while True:
            m = self._do(s, pos, True, nonempty=adv)
            if m is None:
                return
            yield m
            pos = m.end()
            adv = m.end() == m.start()

    def findall(self, s):
        if not self._sym(s):
            return self.real.findall(conc0(s))
        out = []
        for m in self._iter(s):
            if self.real.groups == 0:
                out.append(m.group())
            elif self.real.groups == 1:
                out.append(m.groups('')[0])
            else:
                out.append(m.groups(''))
        return out

    def subn(self, repl, s, count=0):
        if not self._sym(s) and not callable(repl) and not self._sym(repl):
            return self.real.subn(conc0(repl), conc0(s), count)
        out, pos, n = [], 0, 0
        s = wrap(s)
        r = raw(s)
        for m in (self._iter(s) if self._sym(s) else self.real.finditer(conc0(s))):
            if count and n >= count:
                break
            out.append(r[pos:m.start()])
            if callable(repl):
                v = repl(m)
                if not isinstance(v, str):
                    raise TypeError('sequence item: expected str instance, {} found'.format(type(v).__name__))
                out.append(raw(v))
            elif any(char_in(c, '\\') for c in raw(repl)):
                out.append(expand_template(self, concretize(repl), m))
            else:
                out.append(raw(repl))
            pos = m.end()
            n += 1
        out.append(r[pos:])
        return wrap(''.join(out)), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if not self._sym(s):
            return self.real.split(conc0(s), maxsplit)
        out, pos = [], 0
        s = wrap(s)
        r = raw(s)
        for m in self._iter(s):
            if maxsplit and len(out) >= maxsplit * (1 + self.real.groups):
                break
            out.append(wrap(r[pos:m.start()]))
            out.extend(m.groups())
            pos = m.end()
        out.append(wrap(r[pos:]))
        return out


def conc0(s):
    return raw(s) if type(s) is SymStr else s


class ReModule:
    """Stands for the ``re`` module in the code under test."""

    def __getattr__(self, name):
        return getattr(_re, name)

    def compile(self, pattern, flags=0):
        if isinstance(pattern, SymRe):
            return pattern
        return SymRe(_re.compile(concretize(pattern), flags))

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s, count)

    def subn(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).subn(repl, s, count)

    def escape(self, s):
        if not has_sym(s):
            return _re.escape(conc0(s))
        return wrap(''.join(('\\' + c) if char_in(c, lambda a: len(_re.escape(a)) > 1) else c for c in raw(s)))


RE = ReModule()


# -- hooks called by the instrumented code --------------------------------------------

def sx_in(a, b):
    """``a in b``"""
    if type(a) is str and has_sym(a):
        a = wrap(a)
    if type(a) is SymStr:
        if type(b) in (str, SymStr):
            return str_find(b, a) >= 0
        if type(b) in (dict, set, frozenset, type({}.keys())) or type(b).__name__ in ('defaultdict', 'OrderedDict'):
            for k in b:
                if isinstance(k, str) and k == a:
                    return True
            return False
        if isinstance(b, dict) or isinstance(b, (set, frozenset)):
            return concretize(a) in b
    if type(b) is str and isinstance(a, str) and has_sym(b):
        return str_find(b, a) >= 0
    return a in b


def sx_get(b, k):
    """``b[k]``"""
    if type(k) is str and has_sym(k):
        k = wrap(k)
    if type(k) is SymStr and isinstance(b, dict):
        if type(b) in (dict,) or type(b).__name__ == 'OrderedDict':
            for x in b:
                if isinstance(x, str) and x == k:
                    return b[x]
            raise KeyError(k)
        return b[concretize(k)]
    return wrap(b[k]) if type(b) is str else b[k]


def sx_mget(b, *a, **kw):
    """``b.get(...)``"""
    if a and not kw and type(b) is dict and isinstance(a[0], str) and has_sym(a[0]):
        for x in b:
            if isinstance(x, str) and x == wrap(a[0]):
                return b[x]
        return a[1] if len(a) > 1 else None
    return b.get(*a, **kw)


def sx_format(b, *a, **kw):
    """``b.format(...)``"""
    if isinstance(b, str):
        b = concretize(b)
        if '!' in b:
            a, kw = [deep_concretize(x) for x in a], {k: deep_concretize(x) for k, x in kw.items()}
        return wrap(b.format(*a, **kw))
    if a and isinstance(a[0], str):
        a = (concretize(a[0]),) + a[1:]
        if '!' in a[0]:
            a, kw = [deep_concretize(x) for x in a], {k: deep_concretize(x) for k, x in kw.items()}
        return wrap(b.format(*a, **kw))
    return b.format(*a, **kw)


def sx_text(meth, b, *a, **kw):
    """``b.startswith(...)`` and the like: on a plain text, the argument may be symbolic"""
    if type(b) is str and any(has_sym(x) for y in a for x in (y if isinstance(y, tuple) else (y,)) if isinstance(x, str)):
        b = str.__new__(SymStr, b)
    return getattr(b, meth)(*a, **kw)


def sx_unbound(meth):
    """``str.lower`` and the like, which would see the raw buffer"""
    f = getattr(str, meth)
    if meth in ('maketrans', 'join', 'format', 'format_map'):
        return f

    def unbound(s, *a, **kw):
        return sx_text(meth, s, *a, **kw) if isinstance(s, str) else f(s, *a, **kw)
    return unbound


def sx_join(b, *a):
    r = b.join(*a)
    return wrap(r) if isinstance(r, str) else r


def sx_fstr(s):
    return wrap(s)


def sx_mod(a, b):
    if isinstance(a, str):
        a = concretize(a)
        return wrap(a % (deep_concretize(b) if '%r' in a else b))
    return a % b


def sx_add(a, b):
    r = a + b
    return wrap(r) if type(r) is str else r


def sx_int(*a):
    return int(*[concretize(x) if isinstance(x, str) else x for x in a])


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)


def sx_float(*a):
    return float(*[concretize(x) if isinstance(x, str) else x for x in a])


def sx_hash(x):
    return 0 if type(x) is SymStr else hash(x)


sx_deep = deep_concretize


def sx_repr(x):
    return repr(deep_concretize(x))


def sx_getattr(o, n, *a):
    if isinstance(o, str) and has_sym(o):
        # (so that the methods found are the built-in ones)
        nat = getattr(raw(o), concretize(n), *a)
        return getattr(concretize(o), concretize(n)) if callable(nat) else nat
    return getattr(o, concretize(n), *a)


def sx_hasattr(o, n):
    return hasattr(o, concretize(n))


class GlobModule:
    """Stands for the ``glob`` module in the code under test."""
    handler = None

    def __getattr__(self, name):
        import glob
        return getattr(glob, name)

    def glob(self, pattern, **kw):
        if GlobModule.handler is not None and not kw.get('dir_fd') and kw.get('root_dir') in (None, '', '.', os.curdir):
            return GlobModule.handler(wrap(pattern), kw.get('recursive', False), kw.get('include_hidden', False))
        import glob
        return glob.glob(concretize(pattern), **kw)

    def iglob(self, pattern, **kw):
        return iter(self.glob(pattern, **kw))


GLOB = GlobModule()
