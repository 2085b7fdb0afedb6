"""Symbolic execution context shared by every harness.

A harness is a Python function ``h(ctx)`` which drives the *real* footprints
code (imported from /repo/src) with values obtained from ``ctx``:

* in symbolic mode (``SymCtx``, see engine.py) these values are backed by z3
  terms and every branch the real code takes on them is decided by the solver;
* in concrete mode (``ConcreteCtx`` below, no z3 needed) they are plain Python
  values read from a counterexample file, so that the same harness replays the
  counterexample against the unmodified code under the project's interpreter.

Only ``BaseException`` subclasses are used for engine control flow so that an
``except Exception`` of the code under test never swallows them.
"""


class EngineControl(BaseException):
    """Base of the engine's own control flow exceptions."""


class Infeasible(EngineControl):
    """The current path is excluded by an assumption."""


class CheckFailed(EngineControl):
    """A property assertion does not hold on the current path."""

    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label = label
        self.detail = detail


class EngineError(EngineControl):
    """The engine cannot decide (solver unknown, unsupported operation)."""


class StepLimit(EngineControl):
    """The code under test exceeded the step budget (non termination)."""


# The context in use (set by the engine / by the replay driver)
CUR = None


def ctx():
    return CUR


def set_ctx(c):
    global CUR
    CUR = c


HASH = 7


class Val:
    """An opaque, hashable value known only through its equality class.

    ``e`` is an int (concrete mode) or a z3 Int term (symbolic mode).  Two Vals
    are equal iff their ``e`` are equal, whatever their Python class (as 1 and
    1.0 are); the truth value and the conversions are unknown functions of
    ``e``; the order is the order of the ``e``.
    """

    __slots__ = ('e', '__weakref__', 'tag')

    def __new__(cls, *args, **kw):
        return object.__new__(cls)

    @classmethod
    def mk(cls, e, tag=None):
        self = object.__new__(cls)
        self.e = e
        self.tag = tag
        return self

    def __hash__(self):
        return HASH

    def __eq__(self, other):
        if self is other:
            return True
        if isinstance(other, Val):
            return CUR.eq(self.e, other.e)
        return False

    def __ne__(self, other):
        if self is other:
            return False
        if isinstance(other, Val):
            return CUR.ne(self.e, other.e)
        return True

    def _cmp(self, op, other):
        if isinstance(other, Val):
            return CUR.cmp(op, self.e, other.e)
        return NotImplemented

    def __lt__(self, other):
        return self._cmp('<', other)

    def __le__(self, other):
        return self._cmp('<=', other)

    def __gt__(self, other):
        return self._cmp('>', other)

    def __ge__(self, other):
        return self._cmp('>=', other)

    def __bool__(self):
        return bool(CUR.ufb('truth', self.e))

    def __repr__(self):
        return '<{}:{}>'.format(self.__class__.__name__, self.tag)

    __str__ = __repr__

    def __deepcopy__(self, memo):
        new = self.__class__.mk(self.e, self.tag)
        memo[id(self)] = new
        return new

    def __copy__(self):
        return self.__class__.mk(self.e, self.tag)

    def __reduce__(self):
        return (_rebuild, (self.__class__, self.e if isinstance(self.e, int) else CUR.intern(self.e), self.tag))


def _rebuild(cls, e, tag):
    if not isinstance(e, int):
        e = CUR.unintern(e)
    return cls.mk(e, tag)


class Raw(Val):
    """A value which belongs to none of the model types."""
    __slots__ = ()


class RawU(Val):
    """An unhashable value (like a list)."""
    __slots__ = ()
    __hash__ = None


class RawH(Val):
    """A value whose class is hashable but which is not (like a tuple of lists)."""
    __slots__ = ()

    def __hash__(self):
        raise TypeError('unhashable value')


def convert(cls, v, args, errors=(ValueError,)):
    """Conversion of a Val to a model type: unknown (partial) function."""
    if not isinstance(v, Val):
        raise ValueError('cannot convert {!r}'.format(v))
    name = cls._convname + args
    if CUR.ufb('convok_' + name, v.e):
        if len(errors) and False:
            pass
        return cls.mk(CUR.ufi('conv_' + name, v.e), tag=(name, v.tag))
    kind = CUR.ufpick('converr_' + name, v.e, len(errors))
    raise errors[kind]('cannot convert {!r}'.format(v))


class T0(Val):
    """A model attribute type: calling it converts a value, or fails."""
    __slots__ = ()
    _convname = 'T0'
    _errors = (ValueError, TypeError)

    def __new__(cls, v=None, **args):
        return convert(cls, v, ''.join('_{}={}'.format(k, args[k]) for k in sorted(args)),
                       cls._errors)


class T1(T0):
    """A subclass of T0 (its instances are acceptable wherever T0 is)."""
    __slots__ = ()
    _convname = 'T1'


class W0(Val):
    """An unrelated model type."""
    __slots__ = ()
    _convname = 'W0'
    _errors = (ValueError, TypeError)

    def __new__(cls, v=None, **args):
        return convert(cls, v, ''.join('_{}={}'.format(k, args[k]) for k in sorted(args)),
                       cls._errors)


class Pred:
    """An object with a ``match`` method: unknown predicate over Vals."""

    def __init__(self, name):
        self.name = name

    def match(self, v):
        if not isinstance(v, Val):
            raise TypeError('expected a value')
        return CUR.ufb('match_' + self.name, v.e)


def same(a, b):
    """Semantic identity of two results: same Python class and equal values.

    Returns something ``ctx.check`` accepts (bool or SymBool).
    """
    if isinstance(a, Val) or isinstance(b, Val):
        if a is b:
            return True
        if a.__class__ is not b.__class__:
            return False
        return CUR.eq(a.e, b.e)
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        res = True
        for k in a:
            if k not in b:
                return False
            res = CUR.and_(res, same(a[k], b[k]))
        return res
    if isinstance(a, (list, tuple)) and a.__class__ is b.__class__:
        if len(a) != len(b):
            return False
        res = True
        for x, y in zip(a, b):
            res = CUR.and_(res, same(x, y))
        return res
    if a.__class__.__name__ in ('SymInt', 'SymStr') or b.__class__.__name__ in ('SymInt', 'SymStr'):
        return a == b
    return a.__class__ is b.__class__ and a == b


def char_in(ch, cond):
    """Whether a character satisfies a predicate / belongs to a text (forks when it is symbolic)."""
    if CUR.symbolic:
        from . import symstr
        return symstr.char_in(ch, cond)
    return bool(cond(ch)) if callable(cond) else ch in cond


def wrap(s):
    """A text made of characters which may be symbolic."""
    if CUR.symbolic:
        from . import symstr
        return symstr.wrap(s)
    return s


def concrete(s):
    """One concrete text (each feasible one is explored apart)."""
    if CUR.symbolic:
        from . import symstr
        return symstr.concretize(s)
    return s


class ConcreteCtx:
    """Replays a counterexample: every request is answered from a record."""

    symbolic = False

    def __init__(self, record):
        self.rec = record
        self._n = {}
        self.tables = {k: {tuple(a): r for a, r in v} for k, v in record.get('funcs', {}).items()}
        self.trace = []
        self.notes = {}

    def _name(self, name):
        i = self._n.get(name, 0)
        self._n[name] = i + 1
        return '{}#{}'.format(name, i)

    # -- values ------------------------------------------------------------
    def choose(self, name, n):
        return self.rec['inputs'].get(self._name(name), 0) if n > 1 else 0

    def pick(self, name, seq):
        return seq[self.choose(name, len(seq))]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def sym_bool(self, name):
        return bool(self.rec['inputs'].get(self._name(name), False))

    def sym_int(self, name, lo, hi):
        return int(self.rec['inputs'].get(self._name(name), lo))

    def val(self, name, cls=Raw):
        return cls.mk(int(self.rec['inputs'].get(self._name(name), 0)), tag=name)

    def sym_str(self, name, length, alphabet):
        return str(self.rec['inputs'].get(self._name(name), alphabet[0] * length))

    # -- operations on Val terms ---------------------------------------------
    def eq(self, a, b):
        return a == b

    def ne(self, a, b):
        return a != b

    def cmp(self, op, a, b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]

    def ufb(self, name, *args):
        return bool(self.tables.get(name, {}).get(tuple(args), False))

    def ufi(self, name, *args):
        t = self.tables.setdefault(name, {})
        return int(t.setdefault(tuple(args), 1000 + len(t)))

    def ufpick(self, name, arg, n):
        return int(self.tables.get(name, {}).get((arg,), 0)) % n if n > 1 else 0

    def intern(self, e):
        return e

    unintern = intern

    # -- logic -----------------------------------------------------------------
    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or bool(b)

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, label, detail=''):
        if not cond:
            raise CheckFailed(label, detail)

    def fail(self, label, detail=''):
        raise CheckFailed(label, detail)

    def cover(self, label):
        self.notes[label] = self.notes.get(label, 0) + 1

    def lit(self, s):
        return s
