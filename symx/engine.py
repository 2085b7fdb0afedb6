"""Symbolic executor: DFS over the paths of a harness, forks decided by z3."""

import gc
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import z3

from . import core
from .core import (CheckFailed, EngineControl, EngineError, Infeasible,
                   StepLimit, Val)

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)

INT = z3.IntSort()
BOOL = z3.BoolSort()


def _expr(x):
    if isinstance(x, (SymInt, SymBool)):
        return x.e
    return x


class SymBool:
    """A Boolean known as a z3 term; testing its truth forks the path."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.CUR.decide(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.e))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(z3.Not(_b(r)))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.e, _b(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.e, _b(o)))
        return NotImplemented
    __ror__ = __or__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __repr__(self):
        return 'SymBool({})'.format(self.e)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _b(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def mkbool(e):
    """Fold constant terms to Python booleans."""
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _i(o):
    if isinstance(o, SymInt):
        return o.e
    if isinstance(o, SymBool):
        return z3.If(o.e, 1, 0)
    if isinstance(o, (bool, int)):
        return z3.IntVal(int(o))
    return None


class SymInt:
    """An integer known as a z3 term."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f):
        oe = _i(o)
        if oe is None:
            return NotImplemented
        return mkint(f(self.e, oe))

    def _rel(self, o, f):
        oe = _i(o)
        if oe is None:
            if isinstance(o, float):
                return f(self.__index__(), o)
            return NotImplemented
        return mkbool(f(self.e, oe))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e < 0, -self.e, self.e))
    def __floordiv__(self, o): return self.__index__() // (o.__index__() if isinstance(o, SymInt) else o)
    def __rfloordiv__(self, o): return o // self.__index__()
    def __mod__(self, o): return self.__index__() % (o.__index__() if isinstance(o, SymInt) else o)
    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.__index__()
        return o % self.__index__()

    def __eq__(self, o):
        oe = _i(o)
        if oe is None:
            return False
        return mkbool(self.e == oe)

    def __ne__(self, o):
        oe = _i(o)
        if oe is None:
            return True
        return mkbool(self.e != oe)

    def __lt__(self, o): return self._rel(o, lambda a, b: a < b)
    def __le__(self, o): return self._rel(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._rel(o, lambda a, b: a > b)
    def __ge__(self, o): return self._rel(o, lambda a, b: a >= b)

    def __bool__(self):
        return core.CUR.decide(self.e != 0)

    def __index__(self):
        return core.CUR.concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __str__(self):
        return str(self.__index__())

    def __repr__(self):
        return 'SymInt({})'.format(self.e)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class StrTerms:
    """The characters of a symbolic text."""

    def __init__(self, terms):
        self.terms = terms

    def model_str(self, m):
        return ''.join(chr(m.eval(t, model_completion=True).as_long()) for t in self.terms)


class Stats:
    FIELDS = ('paths', 'infeasible', 'forks', 'queries', 'obligations', 'folded',
              'solver_s', 'choices', 'cex')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])


class SymCtx:
    """One exploration (a DFS sub-tree) of a harness."""

    symbolic = True
    quiet = False        # (True: no decision any more on this path)

    def __init__(self, unknown_timeout=60000):
        self.solver = z3.Solver()
        self.solver.set('timeout', unknown_timeout)
        self.stats = Stats()
        self.funs = {}
        self.dec = []        # decisions: [value, alternatives(list of values), pushed]
        self.model = None
        self.covers = {}
        self._consts = {}

    # -- path management -----------------------------------------------------
    def start_path(self):
        self.pos = 0
        self._n = {}
        self.inputs = []     # (name, kind, term or value)
        self.apps = []       # uninterpreted function applications met
        self.interned = []
        self.model = None
        self.trace = []
        self._appkeys = {}
        self.path_tokens = {}

    def _push(self, cond):
        self.solver.push()
        if cond is not None:
            self.solver.add(cond)

    def _chk(self, *assumptions):
        t0 = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            raise EngineError('solver unknown: ' + self.solver.reason_unknown())
        return r == z3.sat

    def _get_model(self):
        if self.model is None:
            if not self._chk():
                raise EngineError('path condition infeasible (engine bug)')
            self.model = self.solver.model()
        return self.model

    def decide(self, e):
        """Decide a z3 Boolean on the current path (forking if both are possible)."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            if d[2] is None:
                # a prefix handed over by another worker: (re)assert
                self._push(e if d[0] else z3.Not(e))
                d[2] = True
            return bool(d[0])
        m = self._get_model()
        v = m.eval(e, model_completion=True)
        side = z3.is_true(v)
        if not side and not z3.is_false(v):
            raise EngineError('undecided model evaluation of {}'.format(e))
        other = z3.Not(e) if side else e
        mine = e if side else z3.Not(e)
        if self._chk(other):
            self.stats.forks += 1
            # explore True first for determinism of the order
            self._push(mine)
            self.dec.append([side, [not side], True])
            # the model still satisfies the path condition
        else:
            self._push(None)
            self.dec.append([side, [], True])
        self.pos += 1
        return side

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            # smallest feasible value first would need optimisation: take the
            # model's, and exclude it on the other branch
            if self.pos < len(self.dec):
                d = self.dec[self.pos]
                v = d[3]
                self.pos += 1
                if d[2] is None:
                    self._push(e == v if d[0] else e != v)
                    d[2] = True
                if d[0]:
                    return v
                continue
            m = self._get_model()
            v = m.eval(e, model_completion=True).as_long()
            if self._chk(e != v):
                self.stats.forks += 1
                self._push(e == v)
                self.dec.append([True, [False], True, v])
            else:
                self._push(None)
                self.dec.append([True, [], True, v])
            self.pos += 1
            n += 1
            return v

    def next_path(self):
        """Backtrack; return False when the sub-tree is exhausted."""
        while self.dec:
            d = self.dec[-1]
            if d[1]:
                v = d[1].pop(0)
                self.solver.pop()
                d[0] = v
                d[2] = None
                return True
            self.dec.pop()
            self.solver.pop()
        return False

    def pending_prefixes(self):
        """All unexplored alternatives as prefixes for other workers."""
        out = []
        for i, d in enumerate(self.dec):
            for alt in d[1]:
                pre = [[x[0]] + x[3:] for x in self.dec[:i]] + [[alt] + d[3:]]
                out.append(pre)
        return out

    # -- inputs ----------------------------------------------------------------
    def _name(self, name):
        i = self._n.get(name, 0)
        self._n[name] = i + 1
        return '{}#{}'.format(name, i)

    def _const(self, name, sort):
        k = (name, sort)
        c = self._consts.get(k)
        if c is None:
            c = self._consts[k] = z3.Const(name, sort)
        return c

    def choose(self, name, n):
        """A shape variable in 0..n-1 (always forked)."""
        if n <= 1:
            return 0
        name = self._name(name)
        c = self._const(name, INT)
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            v = d[0]
            if d[2] is None:
                self._push(c == v)
                d[2] = True
        else:
            v = 0
            self._push(c == 0)
            self.dec.append([0, list(range(1, n)), True])
            self.pos += 1
            self.stats.choices += 1
        self.inputs.append((name, v))
        return v

    def pick(self, name, seq):
        return seq[self.choose(name, len(seq))]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def sym_bool(self, name):
        name = self._name(name)
        c = self._const(name, BOOL)
        self.inputs.append((name, c))
        return SymBool(c)

    def sym_int(self, name, lo, hi):
        name = self._name(name)
        c = self._const(name, INT)
        self.inputs.append((name, c))
        self._axiom(z3.And(c >= lo, c <= hi))
        return SymInt(c)

    def val(self, name, cls=core.Raw):
        tag = name
        name = self._name(name)
        c = self._const(name, INT)
        self.inputs.append((name, c))
        return cls.mk(c, tag=tag)

    def sym_str(self, name, length, alphabet):
        from .symstr import mkstr, new_char
        name = self._name(name)
        chars = []
        terms = []
        for j in range(length):
            c = self._const('{}.{}'.format(name, j), INT)
            terms.append(c)
            chars.append(new_char(c, alphabet))
        if terms:
            self._axiom(z3.And(*[z3.Or(*[c == ord(a) for a in alphabet]) for c in terms]))
        self.inputs.append((name, StrTerms(terms)))
        return mkstr(chars)

    def lit(self, s):
        return s

    def _axiom(self, cond):
        """Assert a constraint on fresh inputs (kept in step with the decision stack)."""
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            if d[2] is None:
                self._push(cond)
                d[2] = True
        else:
            self._push(cond)
            self.dec.append([True, [], True])
            self.pos += 1
            self.model = None

    # -- Val terms ---------------------------------------------------------------
    @staticmethod
    def _t(e):
        return z3.IntVal(e) if isinstance(e, int) else e

    def eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return mkbool(self._t(a) == self._t(b))

    def ne(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a != b
        return mkbool(self._t(a) != self._t(b))

    def cmp(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        a, b = self._t(a), self._t(b)
        return mkbool({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])

    def _fun(self, name, arity, rsort):
        k = (name, arity, rsort)
        f = self.funs.get(k)
        if f is None:
            f = self.funs[k] = z3.Function(name, *([INT] * arity + [rsort]))
        return f

    def _app(self, name, args, rsort):
        args = [self._t(a) for a in args]
        t = self._fun(name, len(args), rsort)(*args)
        key = (name, t.get_id())
        if key not in self._appkeys:
            self._appkeys[key] = t
            self.apps.append((name, args, t))
        return t

    def ufb(self, name, *args):
        return SymBool(self._app(name, args, BOOL))

    def ufi(self, name, *args):
        return self._app(name, args, INT)

    def ufpick(self, name, arg, n):
        if n <= 1:
            return 0
        t = self._app(name, (arg,), INT)
        for i in range(n - 1):
            if self.decide(t == i):
                return i
        if not self.decide(t == n - 1):
            raise Infeasible()
        return n - 1

    def intern(self, e):
        self.interned.append(e)
        return ('term', len(self.interned) - 1)

    def unintern(self, e):
        return self.interned[e[1]]

    # -- logic ----------------------------------------------------------------
    def and_(self, *a):
        return mkbool(z3.And(*[_b(x) for x in a]))

    def or_(self, *a):
        return mkbool(z3.Or(*[_b(x) for x in a]))

    def not_(self, a):
        return mkbool(z3.Not(_b(a)))

    def implies(self, a, b):
        return mkbool(z3.Implies(_b(a), _b(b)))

    def assume(self, cond):
        cond = _b(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond) or not self.decide_assume(cond):
            raise Infeasible()

    def decide_assume(self, e):
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            if d[2] is None:
                self._push(e)
                d[2] = True
            return bool(d[0])
        self.stats.queries += 0
        ok = self._chk(e)
        if ok:
            self._push(e)
            self.dec.append([True, [], True])
            self.model = None
        else:
            self._push(None)
            self.dec.append([False, [], True])
        self.pos += 1
        return ok

    def check(self, cond, label, detail=''):
        """Discharge: no value on this path makes ``cond`` false."""
        cond = mkbool(_b(cond)) if not isinstance(cond, bool) else cond
        self.stats.obligations += 1
        if cond is True:
            self.stats.folded += 1
            return
        if cond is False:
            self._get_model()
            raise CheckFailed(label, detail)
        if self._chk(z3.Not(cond.e)):
            self.model = self.solver.model()
            raise CheckFailed(label, detail)

    def fail(self, label, detail=''):
        self.stats.obligations += 1
        self._get_model()
        raise CheckFailed(label, detail)

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    # -- counterexamples --------------------------------------------------------
    def record(self, label, detail):
        self.quiet = True
        try:
            return self._record(label, detail)
        finally:
            self.quiet = False

    def _record(self, label, detail):
        m = self._get_model()
        inputs = {}
        for name, t in self.inputs:
            if isinstance(t, (int, bool)):
                inputs[name] = int(t)
            elif isinstance(t, StrTerms):
                inputs[name] = t.model_str(m)
            else:
                v = m.eval(t, model_completion=True)
                inputs[name] = v.as_long() if z3.is_int(v) else z3.is_true(v)
        funcs = {}
        for name, args, t in self.apps:
            a = [m.eval(x, model_completion=True).as_long() for x in args]
            v = m.eval(t, model_completion=True)
            v = v.as_long() if z3.is_int(v) else z3.is_true(v)
            tab = funcs.setdefault(name, [])
            if [a, v] not in tab:
                tab.append([a, v])
        return dict(label=label, detail=str(detail)[:2000], inputs=inputs, funcs=funcs)


def _run_slice(job):
    """Explore up to ``maxpaths`` paths of a sub-tree (in a worker process)."""
    from . import runner_env
    hname, prefix, maxpaths, maxsecs = job
    harness = runner_env.HARNESSES[hname]
    sys.setrecursionlimit(6000)     # (the symbolic matcher recurses along the texts)
    c = SymCtx()
    c.dec = [[p[0], [], None] + p[1:] for p in prefix]
    core.set_ctx(c)
    runner_env.begin_slice()
    cexs = []
    error = None
    sample = None
    t0 = time.time()
    n = 0
    more = True
    while more:
        c.start_path()
        runner_env.begin_path()
        done = True
        try:
            harness(c)
        except Infeasible:
            c.stats.infeasible += 1
            done = False
        except CheckFailed as ex:
            c.stats.cex += 1
            try:
                cexs.append(c.record(ex.label, ex.detail))
            except EngineError as eng:
                error = 'EngineError: {}'.format(eng)
        except EngineError as ex:
            error = 'EngineError: {}\n{}'.format(ex, traceback.format_exc()[-1500:])
        except StepLimit as ex:
            c.stats.cex += 1
            cexs.append(c.record('step-limit', str(ex)))
        except EngineControl as ex:
            error = '{}: {}'.format(type(ex).__name__, ex)
        except Exception as ex:     # escaped from the code under test (or from the harness)
            c.stats.cex += 1
            tb = traceback.format_exc()
            try:
                cexs.append(c.record('unexpected-exception:{}'.format(type(ex).__name__), tb[-1500:]))
            except EngineError as eng:
                error = 'EngineError: {}'.format(eng)
        finally:
            runner_env.end_path()
        if c.pos < len(c.dec) and not error and done and not cexs:
            error = 'EngineError: nondeterministic replay (path used {} of {} decisions)'.format(c.pos, len(c.dec))
        if done:
            c.stats.paths += 1
            if sample is None and not cexs and not error and n == 0:
                try:
                    sample = c.record('sample', '')
                except EngineError:
                    pass
        n += 1
        if error:
            break
        # decisions beyond the point where the path stopped are stale
        more = c.next_path()
        if len(cexs) >= 3:
            break
        if more and (n >= maxpaths or time.time() - t0 > maxsecs):
            break
        if n % 400 == 0:
            gc.collect()
    pend = []
    if more and not error:
        # current path (already advanced) + all the other alternatives
        pend = c.pending_prefixes()
        pend.append([[d[0]] + d[3:] for d in c.dec])
    gc.collect()
    return dict(h=hname, stats=c.stats.as_dict(), covers=c.covers, cex=cexs, error=error,
                pending=pend, sample=sample, funcs=runner_env.functions_seen(), secs=time.time() - t0)


def explore(hnames, workers=8, budget_s=600, slice_paths=200, slice_s=4.0, on_result=None,
            stop_on_cex=True, max_paths=None):
    """Explore the given harnesses to exhaustion (or budget)."""
    res = {h: dict(stats=Stats(), covers={}, cex=[], error=None, samples=[], complete=False, secs=0.0)
           for h in hnames}
    funcs = set()
    t0 = time.time()
    queue = [(h, []) for h in hnames]
    inflight = 0
    outstanding = {h: 1 for h in hnames}
    ctxm = mp.get_context('fork')
    pool = ctxm.Pool(workers, maxtasksperchild=200)
    import queue as q
    doneq = q.Queue()
    stop = False

    def cb(r):
        doneq.put(r)

    def eb(ex):
        doneq.put(dict(fatal='{}: {}'.format(type(ex).__name__, ex)))

    try:
        while (queue or inflight) and not stop:
            while queue and inflight < workers * 2:
                h, pre = queue.pop()
                small = len(queue) < workers * 2
                pool.apply_async(_run_slice, ((h, pre, 15 if small and len(pre) == 0 else slice_paths,
                                               0.3 if small else slice_s),),
                                 callback=cb, error_callback=eb)
                inflight += 1
            try:
                r = doneq.get(timeout=5)
            except q.Empty:
                if time.time() - t0 > budget_s:
                    break
                continue
            inflight -= 1
            if 'fatal' in r:
                for h in hnames:
                    res[h]['error'] = res[h]['error'] or r['fatal']
                break
            d = res[r['h']]
            d['stats'].merge(r['stats'])
            d['secs'] += r['secs']
            for k, v in r['covers'].items():
                d['covers'][k] = d['covers'].get(k, 0) + v
            d['cex'].extend(r['cex'])
            if r['sample'] is not None and len(d['samples']) < 12:
                d['samples'].append(r['sample'])
            if r['error'] and not d['error']:
                d['error'] = r['error']
            funcs.update(r['funcs'])
            outstanding[r['h']] += len(r['pending']) - 1
            if outstanding[r['h']] == 0:
                d['complete'] = True
            if d['error']:
                # this harness cannot be decided any further; go on with the others
                queue = [x for x in queue if x[0] != r['h']]
            else:
                for p in r['pending']:
                    queue.append((r['h'], p))
            if on_result:
                on_result(res)
            ncex = sum(len(x['cex']) for x in res.values())
            if stop_on_cex and ncex >= 12:
                stop = True
            if time.time() - t0 > budget_s:
                break
    finally:
        pool.terminate()
        pool.join()
    return res, sorted(funcs), time.time() - t0
