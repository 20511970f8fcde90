"""pyvc: a deductive verifier for the real Python functions of /repo.

A *harness* states a contract: it draws inputs (`H.int`, `H.real`, `H.bool`, `H.pick`), assumes the precondition
(`H.assume`), calls the real function and states the postcondition (`H.check`).  The same harness text is run in three modes:

* symbolic: inputs are z3 terms wrapped in proxies.  The functions of /repo execute as they are (their own byte code, imported
  from the current working tree); every branch on a symbolic value is decided by the path explorer, which enumerates all
  feasible paths; every `H.check` becomes a proof obligation `path condition => claim`, discharged by z3 (cvc5 second).
  Loops over sequences of symbolic length are cut by invariants (see sv/loops.py).
* concrete replay: the inputs of a counter-model are fed to the untouched functions.
* random: seeded random inputs (run-time contract checking), also the CPython cross-check of the engine.
"""
from . import env
env.z3path()
import builtins
import contextlib
import itertools
import math
import random
import subprocess
import sys
import types
import tempfile
import time
import traceback
from fractions import Fraction

import z3

z3.set_param('smt.random_seed', 0)


class Unsupported(Exception):
    """The engine cannot follow this construct: the proof is undecided, never a violation."""


class PathEnd(BaseException):
    """The current symbolic path ends here (loop back edge, infeasible assumption)."""


class Skip(Exception):
    """Concrete run outside the precondition."""


class CheckFailed(Exception):
    def __init__(self, label, msg=''):
        super().__init__(f'{label}: {msg}' if msg else label)
        self.label = label
        self.msg = msg


_CTX = None          # current symbolic path context


def ctx():
    if _CTX is None:
        raise Unsupported('symbolic value outside of a symbolic run')
    return _CTX


# ------------------------------------------------------------------------------------------------ terms

def _rv(x):
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if type(x) is int:
        return z3.RealVal(x)
    f = Fraction(x)
    return z3.RealVal(f)


def _isreal(x):
    return type(x) is SReal or type(x) is float or (hasattr(x, 'dtype') and getattr(x, 'dtype', None) is not None
                                                     and not type(x) is SInt and 'float' in str(x.dtype))


def _num(x):
    """python number or proxy -> (z3 term, is_real) or None"""
    t = type(x)
    if t is SInt:
        return x.e, False
    if t is SReal:
        return x.e, True
    if t is SBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), False
    if t is bool:
        return z3.IntVal(1 if x else 0), False
    if t is int:
        return z3.IntVal(x), False
    if t is float:
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('infinite float in symbolic arithmetic')
        return _rv(x), True
    if t is Fraction:
        return z3.RealVal(x), True
    if hasattr(x, 'item') and hasattr(x, 'dtype'):
        try:
            return _num(x.item())
        except (ValueError, TypeError):
            return None
    return None


def _isinf(x):
    return type(x) is float and math.isinf(x)


def _pair(a, b):
    x, y = _num(a), _num(b)
    if x is None or y is None:
        return None
    (e, r), (f, q) = x, y
    if r or q:
        if not r:
            e = z3.ToReal(e)
        if not q:
            f = z3.ToReal(f)
        return e, f, True
    return e, f, False


def _wrap(e, real):
    return SReal(e) if real else SInt(e)


def trunc(e):
    """int(real term)"""
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def _floordiv(e, f, real):
    if real:
        return z3.ToReal(z3.ToInt(e / f))
    return z3.If(f > 0, e / f, (-e) / (-f))


class _Num:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, fn):
        p = _pair(self, o)
        if p is None:
            return NotImplemented
        return _wrap(fn(p[0], p[1]), p[2])

    def _rbin(self, o, fn):
        p = _pair(o, self)
        if p is None:
            return NotImplemented
        return _wrap(fn(p[0], p[1]), p[2])

    def __add__(self, o): return o if _isinf(o) else self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return o if _isinf(o) else self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o): return -o if _isinf(o) else self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return o if _isinf(o) else self._rbin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._rbin(o, lambda a, b: a * b)

    def _div(self, a, b):
        p = _pair(a, b)
        if p is None:
            return NotImplemented
        e, f, real = p
        if not real:
            e, f = z3.ToReal(e), z3.ToReal(f)
        if bool(SBool(f == 0)):
            raise ZeroDivisionError('division by zero')
        return SReal(e / f)

    def __truediv__(self, o): return self._div(self, o)
    def __rtruediv__(self, o): return self._div(o, self)

    def _fdiv(self, a, b):
        p = _pair(a, b)
        if p is None:
            return NotImplemented
        e, f, real = p
        if bool(SBool(f == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        return _wrap(_floordiv(e, f, real), real)

    def __floordiv__(self, o): return self._fdiv(self, o)
    def __rfloordiv__(self, o): return self._fdiv(o, self)

    def _mod(self, a, b):
        q = self._fdiv(a, b)
        if q is NotImplemented:
            return q
        return a - b * q

    def __mod__(self, o): return self._mod(self, o)
    def __rmod__(self, o): return self._mod(o, self)

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('power')

    def __rpow__(self, o): raise Unsupported('power')
    def __neg__(self): return type(self)(-self.e)
    def __pos__(self): return self
    def __abs__(self): return type(self)(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, fn):
        p = _pair(self, o)
        if p is None:
            if type(o) is float and (math.isinf(o)):
                return NotImplemented
            return NotImplemented
        return SBool(fn(p[0], p[1]))

    def __lt__(self, o):
        if type(o) is float and math.isinf(o): return o > 0
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        if type(o) is float and math.isinf(o): return o > 0
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        if type(o) is float and math.isinf(o): return o < 0
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        if type(o) is float and math.isinf(o): return o < 0
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if type(o) is float and math.isinf(o): return False
        r = self._cmp(o, lambda a, b: a == b)
        return r

    def __ne__(self, o):
        if type(o) is float and math.isinf(o): return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return bool(SBool(self.e != 0))

    def __repr__(self):
        return f'<{z3.simplify(self.e)}>'

    def __format__(self, spec):
        return repr(self)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


class SInt(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __int__(self):
        return concretize(self)

    def __index__(self):
        return concretize(self)

    def __hash__(self):
        return hash(concretize(self))

    def __float__(self):
        return float(concretize(self))

    def __round__(self, n=None): return self
    def __ceil__(self): return self
    def __floor__(self): return self
    def __trunc__(self): return self

    def is_integer(self): return True

    def __rshift__(self, k):
        if type(k) is not int:
            raise Unsupported('shift by a symbolic amount')
        return self // (1 << k)

    def __lshift__(self, k):
        if type(k) is not int:
            raise Unsupported('shift by a symbolic amount')
        return self * (1 << k)

    @property
    def real(self): return self


class SReal(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __ceil__(self): return SInt(-z3.ToInt(-self.e))
    def __floor__(self): return SInt(z3.ToInt(self.e))
    def __trunc__(self): return SInt(trunc(self.e))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round with digits')
        fl = z3.ToInt(self.e)
        d = self.e - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        return SInt(z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))

    def __hash__(self): raise Unsupported('hash of a symbolic real')
    def __float__(self): raise Unsupported('C-level float() of a symbolic real')
    def __int__(self): return concretize(SInt(trunc(self.e)))
    def is_integer(self): return SBool(z3.IsInt(self.e))


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o): return SBool(z3.And(self.e, _b(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.e, _b(o)))
    __ror__ = __or__
    def __xor__(self, o): return SBool(z3.Xor(self.e, _b(o)))
    __rxor__ = __xor__
    def __invert__(self): return SBool(z3.Not(self.e))

    def _i(self): return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __neg__(self): return -self._i()

    def __eq__(self, o):
        if type(o) in (SBool, bool):
            return SBool(self.e == _b(o))
        return self._i() == o

    def __ne__(self, o):
        if type(o) in (SBool, bool):
            return SBool(self.e != _b(o))
        return self._i() != o

    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __hash__(self): return hash(bool(self))
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __repr__(self): return f'<{z3.simplify(self.e)}>'
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def _b(x):
    if type(x) is SBool:
        return x.e
    if x is True or x is False:
        return z3.BoolVal(x)
    if type(x).__name__ == 'bool_':
        return z3.BoolVal(bool(x))
    if type(x) in (SInt, SReal):
        return x.e != 0
    if type(x) is int:
        return z3.BoolVal(x != 0)
    return z3.BoolVal(bool(x))


def is_sym(x):
    return type(x) in (SInt, SReal, SBool)


def concretize(x, limit=24):
    """Fork over the possible values of an integer term (complete when it terminates)."""
    c = ctx()
    e = z3.simplify(x.e)
    if z3.is_int_value(e):
        return e.as_long()
    for _ in range(limit):
        v = c.some_value(x.e)
        if v is None:
            raise Unsupported('cannot concretize')
        if c.decide(x.e == v):
            return v
    raise Unsupported('too many values to concretize')


# logic over plain and symbolic booleans -------------------------------------------------------------

def And(*xs):
    _values(xs)
    if any(type(x) is SBool for x in xs):
        return SBool(z3.And([_b(x) for x in xs]))
    return all(xs)


def _values(xs):
    if any(callable(x) for x in xs):
        raise TypeError('a function where a truth value is expected')


def Or(*xs):
    _values(xs)
    if any(type(x) is SBool for x in xs):
        return SBool(z3.Or([_b(x) for x in xs]))
    return any(xs)


def Not(x):
    return SBool(z3.Not(x.e)) if type(x) is SBool else (not x)


def Implies(a, b):
    """b may be a thunk (evaluated only if a is not False)"""
    if type(a) is SBool:
        if z3.is_false(z3.simplify(a.e)):
            return True
        b = b() if callable(b) else b
        return SBool(z3.Implies(a.e, _b(b)))
    if not a:
        return True
    return b() if callable(b) else b


def Ite(c, a, b):
    if type(c) is not SBool:
        return a if c else b
    p = _pair(a, b)
    if p is None:
        raise Unsupported('ite of non-numbers')
    return _wrap(z3.If(c.e, p[0], p[1]), p[2])


def Max(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x > r, x, r)
    return r


def Min(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x < r, x, r)
    return r


def quot(a, b):
    """a / b in specifications: total (any value where b is 0)"""
    if not is_sym(a) and not is_sym(b):
        return a / b if b else 0
    e, f, real = _pair(a, b)
    return SReal((e if real else z3.ToReal(e)) / (f if real else z3.ToReal(f)))


def eq(a, b):
    """equality of numbers that may be symbolic, as a formula"""
    p = _pair(a, b)
    if p is None:
        return a == b
    if not is_sym(a) and not is_sym(b):
        return a == b
    return SBool(p[0] == p[1])


# ------------------------------------------------------------------------------------------------ contexts

class PathCtx:
    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.trace = []           # decisions taken
        self.alts = []            # positions whose other branch is feasible
        self.solver = z3.Solver()
        self.solver.set('timeout', eng.branch_ms)
        self.pc = []
        self.counter = itertools.count()
        self.inputs = {}          # name -> (term, kind)
        self.axioms = []
        self.depth = 0

    def fresh(self, sort, base='k'):
        n = f'{base}!{next(self.counter)}'
        return z3.Const(n, sort)

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trace)
        if time.time() > self.eng.deadline:
            raise Unsupported('time limit of the harness')
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(e if d else z3.Not(e))
            return d
        if i > self.eng.max_decisions:
            raise Unsupported('too many decisions on one path')
        t = self.solver.check(e)
        f = self.solver.check(z3.Not(e))
        self.eng.solver_calls += 2
        if t == z3.unsat and f == z3.unsat:
            raise PathEnd()
        if t == z3.unsat:
            d, alt = False, False
        elif f == z3.unsat:
            d, alt = True, False
        else:
            d, alt = True, True
        self.trace.append(d)
        if alt:
            self.alts.append(i)
        self.add(e if d else z3.Not(e))
        return d

    def some_value(self, e):
        r = self.solver.check()
        if r != z3.sat:
            if r == z3.unsat:
                raise PathEnd()
            return None
        v = self.solver.model().eval(e, model_completion=True)
        return v.as_long() if z3.is_int_value(v) else None


class Obligation:
    __slots__ = ('label', 'status', 'backend', 'ms', 'model', 'detail')

    def __init__(self, label, status, backend, ms, model=None, detail=''):
        self.label, self.status, self.backend, self.ms, self.model, self.detail = label, status, backend, ms, model, detail


def _cvc5(pc, goal, ms):
    s = z3.Solver()
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        out = subprocess.run(['cvc5', f'--tlimit={ms}', name], capture_output=True, text=True, timeout=ms / 1000 + 5).stdout
    except Exception:
        out = ''
    finally:
        import os
        os.unlink(name)
    return out.strip().splitlines()[0] if out.strip() else 'unknown'


class H:
    """Harness handle, common interface of the three modes."""
    symbolic = False

    And, Or, Not, Implies, Ite, Max, Min, eq = map(staticmethod, (And, Or, Not, Implies, Ite, Max, Min, eq))

    def all(self, xs):
        xs = list(xs)
        return And(*xs) if xs else True

    def any(self, xs):
        xs = list(xs)
        return Or(*xs) if xs else False


class SymH(H):
    symbolic = True

    def __init__(self, eng, c):
        self.eng = eng
        self.c = c

    def _in(self, name, sort, kind):
        assert name not in self.c.inputs, f'duplicate input {name}'
        t = z3.Const(name, sort)
        self.c.inputs[name] = (t, kind)
        return t

    def int(self, name, lo=None, hi=None, rlo=None, rhi=None):
        t = self._in(name, z3.IntSort(), 'int')
        if lo is not None:
            self.c.add(t >= lo)
        if hi is not None:
            self.c.add(t <= hi)
        return SInt(t)

    def real(self, name, lo=None, hi=None, **_):
        t = self._in(name, z3.RealSort(), 'real')
        if lo is not None:
            self.c.add(t >= _rv(lo))
        if hi is not None:
            self.c.add(t <= _rv(hi))
        return SReal(t)

    def bool(self, name):
        return SBool(self._in(name, z3.BoolSort(), 'bool'))

    def pick(self, name, options):
        """enumerates the options (one path each)"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        t = self._in(name, z3.IntSort(), 'int')
        self.c.add(z3.And(t >= 0, t < len(options)))
        for i in range(len(options) - 1):
            if self.c.decide(t == i):
                return options[i]
        return options[-1]

    def assume(self, cond):
        if hasattr(cond, 'assume'):
            cond.assume()
            return
        e = z3.simplify(_b(cond))
        if z3.is_true(e):
            return
        self.c.add(e)
        if self.c.solver.check() == z3.unsat:
            raise PathEnd()

    def check(self, cond, label, detail=''):
        if hasattr(cond, 'prove'):
            cond.prove(self.eng, self.c, label)
            return
        self.eng.prove(self.c, _b(cond), label, detail)

    def note(self, *a):
        pass


class ConcH(H):
    """replay of a model, or random inputs"""

    def __init__(self, values=None, rand=None):
        self.values = values or {}
        self.rand = rand
        self.drawn = {}
        self.checked = []

    def _get(self, name, gen, conv):
        if name in self.values:
            v = conv(self.values[name])
        elif self.rand is not None:
            v = gen()
        else:
            v = None
        return v

    def int(self, name, lo=None, hi=None, rlo=None, rhi=None):
        def gen():
            a = lo if lo is not None else (rlo if rlo is not None else -50)
            b = hi if hi is not None else (rhi if rhi is not None else max(a, 0) + 50)
            if rlo is not None:
                a = max(a, rlo)
            if rhi is not None:
                b = min(b, rhi)
            r = self.rand.random()
            if r < 0.1:
                return a
            if r < 0.17:
                return b
            if b - a > 12:
                if r < 0.4:
                    return a + self.rand.randint(0, 12)
                if r < 0.47:
                    return b - self.rand.randint(0, 12)
                if r < 0.65 and a < 0 < b:
                    return max(a, min(b, self.rand.randint(-12, 12)))
            return self.rand.randint(a, b)
        v = self._get(name, gen, int)
        if v is None:
            v = lo if lo is not None else 0
        self.drawn[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def real(self, name, lo=None, hi=None, rlo=None, rhi=None):
        def gen():
            a = lo if lo is not None else (rlo if rlo is not None else -20.)
            b = hi if hi is not None else (rhi if rhi is not None else max(a, 0) + 40.)
            r = self.rand.random()
            if r < 0.1:
                return float(a)
            if r < 0.5:
                return float(self.rand.randint(math.ceil(a), max(math.ceil(a), math.floor(b))))
            return self.rand.uniform(a, b)
        v = self._get(name, gen, float)
        if v is None:
            v = float(lo if lo is not None else 0)
        self.drawn[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def bool(self, name):
        v = self._get(name, lambda: self.rand.random() < 0.5, bool)
        v = bool(v)
        self.drawn[name] = v
        return v

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self._get(name, lambda: self.rand.randrange(len(options)), int)
        v = 0 if v is None else v
        if not 0 <= v < len(options):
            raise Skip()
        self.drawn[name] = v
        return options[v]

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, detail=''):
        self.checked.append(label)
        if not cond:
            raise CheckFailed(label, str(detail() if callable(detail) else detail))

    def note(self, *a):
        pass


# ------------------------------------------------------------------------------------------------ builtins seen by /repo

class _IntMeta(type):
    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return builtins.hash(builtins.int)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __call__(cls, x=0, *a):
        t = type(x)
        if t is SInt:
            return x
        if t is SReal:
            return SInt(trunc(x.e))
        if t is SBool:
            return x._i()
        if not a and hasattr(t, '__int__') and not isinstance(x, (builtins.int, builtins.float, str)):
            r = t.__int__(x)
            return r
        return builtins.int(x, *a)


class sym_int(metaclass=_IntMeta):
    dtype = __import__('numpy').dtype(builtins.int)      # numpy and scipy accept it where a dtype is expected


class _FloatMeta(type):
    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return builtins.hash(builtins.float)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __call__(cls, x=0.0):
        t = type(x)
        if t is SReal:
            return x
        if t is SInt:
            return SReal(z3.ToReal(x.e))
        return builtins.float(x)


class sym_float(metaclass=_FloatMeta):
    dtype = __import__('numpy').dtype(builtins.float)


def _fold(args, kw, better):
    if kw.get('key') is not None:
        return None
    return None


def _mk_extreme(native, gt):
    def f(*args, **kw):
        if len(args) == 1 and hasattr(args[0], 'sym_extreme'):
            return args[0].sym_extreme(gt, **kw)
        if len(args) == 1 and hasattr(args[0], 'sym_max' if gt else 'sym_min'):
            return args[0].sym_max(**kw) if gt else args[0].sym_min(**kw)
        if len(args) == 1:
            xs = builtins.list(args[0])
        else:
            xs = builtins.list(args)
        key = kw.get('key')
        if key is None and len(xs) > 1:
            if builtins.all(not _isinf(x) and _num(x) is not None and not hasattr(x, 'dtype') for x in xs) and builtins.any(is_sym(x) for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    r = Ite(x > r if gt else x < r, x, r)
                return r
            T = _time_class()
            if T is not None and builtins.all(type(x) is T for x in xs) and \
                    builtins.any(is_sym(x.value) for x in xs):
                r = xs[0].value
                for x in xs[1:]:
                    r = Ite(x.value > r if gt else x.value < r, x.value, r)
                t = T.__new__(T)
                t.value = r
                return t
        if len(args) == 1:
            return native(xs, **kw)
        return native(*xs, **{k: v for k, v in kw.items() if k != 'default'})
    return f


def _time_class():
    m = sys.modules.get('sampo.schemas.time')
    return getattr(m, 'Time', None)


sym_max = _mk_extreme(builtins.max, True)
sym_min = _mk_extreme(builtins.min, False)


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.range)

    def __call__(cls, *a):
        if not builtins.any(is_sym(x) for x in a):
            return builtins.range(*a)
        from .seq import SymRange
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        return SymRange(lo, hi, st)


def sym_len(x):
    f = getattr(x, 'sym_len', None)
    return f() if f is not None else builtins.len(x)


def sym_enumerate(x, start=0):
    from .seq import SymSeq, SymEnumerate
    return SymEnumerate(x, start) if isinstance(x, SymSeq) else builtins.enumerate(x, start)


def sym_any(xs):
    return xs.sym_exists(lambda x: x, 'any') if hasattr(xs, 'sym_exists') else builtins.any(xs)


def sym_all(xs):
    return not xs.sym_exists(lambda x: Not(x), 'all') if hasattr(xs, 'sym_exists') else builtins.all(xs)


def sym_sorted(xs, **kw):
    return xs.sym_sorted(**kw) if hasattr(xs, 'sym_sorted') else builtins.sorted(xs, **kw)


def sym_sum(xs, start=0):
    return start + xs.sym_sum() if hasattr(xs, 'sym_sum') else builtins.sum(xs, start)


def _sym_range(lo, hi, st):
    i = lo
    if is_sym(st):
        raise Unsupported('symbolic range step')
    n = 0
    while (i < hi) if st > 0 else (i > hi):
        yield i
        i = i + st
        n += 1
        if n > 40:
            raise Unsupported('loop bound')


class sym_range(metaclass=_RangeMeta):
    pass


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)

    def __call__(cls, *a):
        if len(a) == 1:
            t = builtins.type(a[0])
            return builtins.int if t is SInt else builtins.float if t is SReal else builtins.bool if t is SBool else t
        return builtins.type(*a)

    def __getitem__(cls, x):
        return builtins.type[x]

    def __or__(cls, x):
        return builtins.type | x

    def __ror__(cls, x):
        return x | builtins.type


class sym_type(metaclass=_TypeMeta):
    pass


SHADOW = {'int': sym_int, 'type': sym_type, 'float': sym_float, 'max': sym_max, 'min': sym_min, 'range': sym_range, 'len': sym_len,
          'enumerate': sym_enumerate, 'any': sym_any, 'all': sym_all, 'sum': sym_sum, 'sorted': sym_sorted}


def _has_sym(x, depth=3):
    if is_sym(x):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(_has_sym(y, depth - 1) for y in x)
    if type(x).__name__ == 'ndarray' and x.dtype == object:
        return any(is_sym(y) for y in x.flat)
    return False


class NpShim:
    """numpy as seen by SAMPO modules: number arrays made by zeros/ones/full/empty hold objects, so that symbolic values can be
    stored; everything else is numpy's own (element-wise operations on object arrays call the operators of the elements)"""

    def __init__(self, np):
        self.__dict__['_np'] = np

    def __getattr__(self, n):
        return getattr(self._np, n)

    @staticmethod
    def _numeric(dtype):
        return dtype in (None, int, float, sym_int, sym_float, 'int', 'float') or getattr(dtype, '__module__', '') == 'numpy'

    def _obj(self, shape, v):
        a = self._np.empty(shape, dtype=object)
        a[...] = v
        return a

    def zeros(self, shape, dtype=None, **k):
        if dtype is bool:
            return self._np.zeros(shape, dtype=bool)
        return self._obj(shape, 0) if self._numeric(dtype) else self._np.zeros(shape, dtype=dtype, **k)

    def ones(self, shape, dtype=None, **k):
        return self._obj(shape, 1) if self._numeric(dtype) else self._np.ones(shape, dtype=dtype, **k)

    def full(self, shape, v, dtype=None, **k):
        return self._obj(shape, v)

    def empty(self, shape, dtype=None, **k):
        return self._obj(shape, 0) if self._numeric(dtype) else self._np.empty(shape, dtype=dtype, **k)

    def zeros_like(self, a, dtype=None, **k):
        return self._obj(len(a) if not hasattr(a, 'shape') else a.shape, 0) if self._numeric(dtype) else self._np.zeros_like(a, dtype, **k)

    def arange(self, *a, **k):
        if builtins.any(is_sym(x) for x in a):
            from .npsym import SymInts
            if len(a) > 2 or k:
                raise Unsupported('arange with a step')
            return SymInts([(0, a[0]) if len(a) == 1 else (a[0], a[1])])
        return self._np.arange(*a, **k)

    def concatenate(self, arrs, *a, **k):
        from .npsym import SymInts
        arrs = list(arrs)
        if builtins.any(isinstance(x, SymInts) for x in arrs):
            parts = []
            for x in arrs:
                parts += x.parts if isinstance(x, SymInts) else [(v, v + 1) for v in x]
            return SymInts(parts)
        return self._np.concatenate(arrs, *a, **k)

    def abs(self, x, *a, **k):
        return abs(x) if not isinstance(x, self._np.ndarray) else self._np.abs(x, *a, **k)

    def array(self, x, dtype=None, **k):
        if _has_sym(x):
            if dtype is not None and not self._numeric(dtype) and dtype is not object:
                raise Unsupported('numpy array of symbolic values with dtype')
            return self._np.array(x, dtype=object)
        if dtype is sym_int:
            dtype = int
        if dtype is sym_float:
            dtype = float
        return self._np.array(x, dtype=dtype, **k) if dtype is not None else self._np.array(x, **k)


@contextlib.contextmanager
def shadow_builtins(extra=None):
    """`int`, `float`, `max`, `min`, `range` as seen by SAMPO modules accept symbolic values; nothing else is changed."""
    saved = []
    names = dict(SHADOW)
    names.update(extra or {})
    try:
        for mname, mod in list(sys.modules.items()):
            if mod is None or not (mname == 'sampo' or mname.startswith('sampo.')):
                continue
            d = vars(mod)
            for k, v in names.items():
                saved.append((d, k, d.get(k, _MISSING)))
                if k in d and k in SHADOW:
                    continue
                d[k] = v
            if isinstance(d.get('np'), types.ModuleType):
                saved.append((d, 'np', d['np']))
                d['np'] = NpShim(d['np'])
        yield
    finally:
        for d, k, old in reversed(saved):
            if old is _MISSING:
                d.pop(k, None)
            else:
                d[k] = old


_MISSING = object()


@contextlib.contextmanager
def patched(*triples):
    saved = []
    try:
        for obj, name, val in triples:
            saved.append((obj, name, obj.__dict__.get(name, _MISSING) if hasattr(obj, '__dict__') else getattr(obj, name)))
            setattr(obj, name, val)
        yield
    finally:
        for obj, name, old in reversed(saved):
            if old is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)


# contract stubs --------------------------------------------------------------------------------------

def time_stub():
    """`Time.set_time` by its contract (proved in C19): value := clamp(int(value)), no branching."""
    from sampo.schemas import time as tm
    INF = tm.TIME_INF
    orig = tm.Time.set_time

    def set_time(self, value):
        v = sym_int(value)
        if type(v) is SInt:
            self.value = SInt(z3.If(v.e > INF, z3.IntVal(INF), z3.If(v.e < -INF, z3.IntVal(-INF), v.e)))
        else:
            orig(self, value)
    return (tm.Time, 'set_time', set_time)


def time_stub_exact():
    """as time_stub without the clamp: sound only under the stated side condition |value| < TIME_INF (checked per use)"""
    from sampo.schemas import time as tm
    orig = tm.Time.set_time

    def set_time(self, value):
        v = sym_int(value)
        if type(v) is SInt:
            self.value = v
        else:
            orig(self, value)
    return (tm.Time, 'set_time', set_time)


class _Table(dict):
    """stands in for a scipy matrix that has to hold symbolic entries"""
    def __init__(self, shape, dtype=None, **k):
        super().__init__()
        self.shape = shape

    def __missing__(self, k):
        return 0


def matrix_stub():
    """The adjacency matrix of a graph holds symbolic weights (the weights themselves are checked in C13)."""
    from sampo.schemas import graph
    return (graph, 'dok_matrix', _Table)


def _time_shims():
    """Python insists that __bool__ returns a real bool: the symbolic truth value is decided (forked) first."""
    T = _time_class()
    if T is None:
        return []
    orig = T.__dict__.get('__bool__')
    if orig is None:
        return []
    return [(T, '__bool__', lambda self: True if orig(self) else False)]


# ------------------------------------------------------------------------------------------------ engine

class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.paths = 0
        self.ended = 0
        self.unsupported = []
        self.exceptions = []
        self.secs = 0.0
        self.solver_calls = 0
        self.complete = True

    @property
    def discharged(self):
        return sum(o.status == 'proved' for o in self.obls)

    @property
    def refuted(self):
        return [o for o in self.obls if o.status == 'refuted']

    @property
    def unknown(self):
        return [o for o in self.obls if o.status == 'unknown']

    @property
    def proved(self):
        return bool(self.obls) and self.complete and not self.refuted and not self.unknown and not self.unsupported

    def summary(self):
        by = {}
        for o in self.obls:
            by.setdefault(o.label, [0, 0])
            by[o.label][0] += 1
            by[o.label][1] += o.status == 'proved'
        return dict(harness=self.name, paths=self.paths, obligations=len(self.obls), discharged=self.discharged,
                    unsupported=sorted(set(self.unsupported))[:5], seconds=round(self.secs, 2), complete=self.complete,
                    backends=sorted({o.backend for o in self.obls if o.status == 'proved'}),
                    solver_ms=round(sum(o.ms for o in self.obls)),
                    labels={k: f'{v[1]}/{v[0]}' for k, v in by.items()})


class Engine:
    def __init__(self, name, secs=30, max_paths=4000, branch_ms=2000, prove_ms=8000, max_decisions=1000, use_cvc5=True,
                 stop_on_refuted=3):
        self.name = name
        self.secs = secs
        self.max_paths = max_paths
        self.branch_ms = branch_ms
        self.prove_ms = prove_ms
        self.max_decisions = max_decisions
        self.use_cvc5 = use_cvc5
        self.solver_calls = 0
        self.stop_on_refuted = stop_on_refuted
        self.deadline = time.time() + secs

    def prove(self, c, goal, label, detail=''):
        if getattr(c, 'quiet', False):
            return
        g = z3.simplify(goal)
        t0 = time.time()
        if z3.is_true(g):
            self.res.obls.append(Obligation(label, 'proved', 'simplifier', 0.0))
            return
        s = z3.Solver()
        s.set('timeout', self.prove_ms)
        for p in c.pc:
            s.add(p)
        s.add(z3.Not(g))
        r = s.check()
        self.solver_calls += 1
        ms = (time.time() - t0) * 1000
        if r == z3.unsat:
            self.res.obls.append(Obligation(label, 'proved', 'z3', ms))
        elif r == z3.sat:
            self.res.obls.append(Obligation(label, 'refuted', 'z3', ms, self.model(c, s.model()),
                                            str(detail() if callable(detail) else detail)))
        else:
            out = _cvc5(c.pc, g, self.prove_ms) if self.use_cvc5 else 'unknown'
            ms = (time.time() - t0) * 1000
            if out == 'unsat':
                self.res.obls.append(Obligation(label, 'proved', 'cvc5', ms))
            else:
                self.res.obls.append(Obligation(label, 'unknown', 'z3+cvc5', ms, None, s.reason_unknown()))
        # the claim may be used from here on
        c.add(g)

    def model(self, c, m):
        out = {}
        for name, (t, kind) in c.inputs.items():
            v = m.eval(t, model_completion=True)
            try:
                if kind == 'int':
                    out[name] = v.as_long()
                elif kind == 'bool':
                    out[name] = bool(z3.is_true(v))
                else:
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    out[name] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            except Exception:
                out[name] = 0
        return out

    def run(self, fn, stubs=()):
        global _CTX
        self.res = Result(self.name)
        t0 = time.time()
        self.deadline = t0 + self.secs
        stack = [[]]
        while stack:
            if len(self.res.refuted) >= self.stop_on_refuted:
                self.res.complete = False
                break
            if self.res.paths >= self.max_paths or time.time() > self.deadline:
                self.res.complete = False
                self.res.unsupported.append(f'path/time limit ({self.res.paths} paths)')
                break
            prefix = stack.pop()
            c = PathCtx(self, prefix)
            _CTX = c
            SymH.current = None
            n_before = len(self.res.obls)
            try:
                trip = _time_shims() + [s() for s in stubs]
                with shadow_builtins(), patched(*trip):
                    fn(SymH(self, c))
                self.res.ended += 1
            except PathEnd:
                pass
            except Unsupported as ex:
                self.res.unsupported.append(str(ex)[:200])
            except (NameError, UnboundLocalError) as ex:
                self.res.unsupported.append('name: ' + str(ex)[:160])
            except RecursionError:
                self.res.unsupported.append('recursion')
            except z3.Z3Exception as ex:
                self.res.unsupported.append('z3: ' + str(ex)[:120])
            except Exception as ex:
                # an exception of the code under test on a feasible path: refuted "no exception" obligation
                origin, where = env.classify(ex)
                r = c.solver.check()
                if r == z3.unsat:
                    pass
                elif origin != 'repo':
                    self.res.unsupported.append(f'harness: {type(ex).__name__}: {str(ex)[:160]} '
                                                + ' | '.join(x.strip()[-110:] for x in traceback.format_tb(ex.__traceback__)[-3:]))
                else:
                    kind = 'refuted' if r == z3.sat and not isinstance(ex, (TypeError, AttributeError)) else 'unknown'
                    if kind == 'unknown':
                        self.res.unsupported.append(f'{type(ex).__name__}: {str(ex)[:120]} at {where}')
                    self.res.obls.append(Obligation('no-exception', kind, 'z3', 0.0,
                                                    self.model(c, c.solver.model()) if r == z3.sat else None,
                                                    f'{type(ex).__name__}: {ex} at {where}'))
            finally:
                _CTX = None
            self.res.paths += 1
            for i in reversed(c.alts):
                if i >= len(prefix):
                    stack.append(c.trace[:i] + [not c.trace[i]])
        self.res.secs = time.time() - t0
        self.res.solver_calls = self.solver_calls
        return self.res


def replay(fn, model):
    """Run the harness on concrete inputs with the untouched code. -> None | (label, message)"""
    h = ConcH(values=model)
    try:
        fn(h)
    except Skip:
        return None
    except CheckFailed as ex:
        return ex.label, ex.msg
    except Unsupported:
        return None
    except Exception as ex:
        kind, where = env.classify(ex)
        if kind != 'repo':
            return None
        return 'no-exception', f'{type(ex).__name__}: {ex} at {where}'
    return None


def random_run(fn, seed, n, secs):
    """Run-time contract checking with seeded random inputs. -> (evaluated, skipped, labels, failure|None)"""
    t0 = time.time()
    ev = sk = 0
    labels = {}
    for i in range(n):
        if time.time() - t0 > secs:
            break
        h = ConcH(rand=random.Random(f'{seed}/{i}'))
        try:
            fn(h)
            ev += 1
            for l in h.checked:
                labels[l] = labels.get(l, 0) + 1
        except Skip:
            sk += 1
        except CheckFailed as ex:
            return ev, sk, labels, (ex.label, ex.msg, dict(h.drawn), i)
        except Unsupported:
            sk += 1
        except Exception as ex:
            kind, where = env.classify(ex)
            if kind != 'repo':
                labels['harness: ' + str(ex)[:120]] = 1
                sk += 1
                continue
            return ev, sk, labels, ('no-exception', f'{type(ex).__name__}: {ex} at {where}', dict(h.drawn), i)
    return ev, sk, labels, None
