"""Sequences of symbolic length.

A `SymSeq` has a symbolic length n and elements given by a function of the (symbolic) index, usually built from uninterpreted
z3 functions.  Universally quantified facts about a sequence are kept as Python functions and instantiated at every index
term that is ever used (`touch`); a quantified goal is proved for a fresh index.  So all proof obligations handed to the
solvers are quantifier-free.
"""
from . import env
env.z3path()
import z3
from . import pyvc
from .pyvc import SInt, SBool, SReal, Unsupported, _num, _b, And, Implies, Ite, Not, is_sym


def _i(x):
    return x if type(x) is SInt else SInt(z3.IntVal(int(x)))


def _key(x):
    return z3.simplify(x.e).sexpr() if type(x) is SInt else str(int(x))


_NONE = object()


def _distinct(a, b):
    """two stand-ins without an equality of their own may stand for the same thing: their comparison decides nothing (unless they are `individual`s)"""
    if a is b:
        return
    own = [type(x).__module__.split('.')[0] in ('sv', 'checks') for x in (a, b)]
    if all(own) and not getattr(a, 'individual', False) and type(a).__eq__ is object.__eq__ and type(b).__eq__ is object.__eq__:
        raise Unsupported(f'comparison of {type(a).__name__} with {type(b).__name__}')


class SymSeq:
    """get(i) -> element at index i (0 <= i < n assumed by the caller)"""

    def __init__(self, n, get, name='seq'):
        self.n = n
        self.get_fn = get
        self.name = name
        self.touched = {}
        self.facts = []
        self.pair_facts = []
        c = pyvc.ctx()
        if type(n) is SInt:
            c.add(n.e >= 0)

    # -- facts ------------------------------------------------------------------------------------------
    def touch(self, i):
        k = _key(i)
        if k in self.touched:
            return i
        self.touched[k] = i
        for f in list(self.facts):
            _add(f(i))
        for f in list(self.pair_facts):
            for j in list(self.touched.values()):
                _add(f(i, j))
                _add(f(j, i))
        return i

    def fact(self, f):
        """for every index i in range: f(i)"""
        def g(i):
            try:
                return Implies(And(0 <= i, i < self.n), lambda: f(i))
            except Outside:
                return True
        self.facts.append(g)
        for i in list(self.touched.values()):
            _add(g(i))

    def pair_fact(self, f):
        """for all i < j in range: f(i, j)"""
        g = lambda i, j: Implies(And(0 <= i, i < j, j < self.n), lambda: f(i, j))
        self.pair_facts.append(g)
        ts = list(self.touched.values())
        for i in ts:
            for j in ts:
                _add(g(i, j))

    # -- python protocol ----------------------------------------------------------------------------------
    def sym_len(self):
        return self.n

    def __len__(self):
        return pyvc.concretize(self.n) if type(self.n) is SInt else self.n

    def __bool__(self):
        return bool(self.n > 0) if is_sym(self.n) else self.n > 0

    def at(self, i):
        self.touch(i)
        return self.get_fn(i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('slice step of a symbolic sequence')
            lo = self._bound(i.start, 0)
            hi = self._bound(i.stop, self.n)
            return Slice(self, lo, hi)
        if type(i) is int and i < 0:
            i = self.n + i
        elif type(i) is SInt:
            if bool(i < 0):
                i = self.n + i
        i = _i(i)
        if not (And(0 <= i, i < self.n)):
            raise IndexError('list index out of range')
        return self.at(i)

    def _bound(self, x, default):
        if x is None:
            return default
        if (x < 0):
            x = self.n + x
            x = Ite(x < 0, 0, x) if is_sym(x) else max(0, x)
        return Ite(x > self.n, self.n, x) if is_sym(x) or is_sym(self.n) else min(x, self.n)

    def __iter__(self):
        """forks over the possible lengths (bounded unrolling): only for loops that are not cut by an invariant"""
        raise Unsupported(f'iteration over the symbolic sequence {self.name} without an invariant')

    def __copy__(self):
        return self

    # -- contracts of builtins over the whole sequence ----------------------------------------------------
    def root(self):
        """the sequence on whose indices facts are instantiated"""
        return self

    def sym_extreme(self, gt, key=None, default=_NONE):
        """max/min: the first element that no element exceeds"""
        if not bool(self.n > 0):
            if default is _NONE:
                raise ValueError('max() arg is an empty sequence')
            return default
        k = key or (lambda x: x)
        w = fresh_int('extreme', 0)
        _add(w < self.n)
        best = self.at(w)
        b = k(best)
        le = (lambda x: x <= b) if gt else (lambda x: x >= b)
        lt = (lambda x: x < b) if gt else (lambda x: x > b)
        self.root().fact(quiet(lambda i: And(le(k(self.at(i))), Implies(i < w, lambda: lt(k(self.at(i)))))))
        return best

    def sym_exists(self, f, name):
        """fork: some element has f (a witness is known), or no element has it"""
        c = pyvc.ctx()
        if bool(SBool(c.fresh(z3.BoolSort(), name))):
            w = fresh_int(name, 0)
            _add(w < self.n)
            if not bool(f(self.at(w))):
                raise pyvc.PathEnd()
            return True
        self.root().fact(quiet(lambda i: pyvc.Not(f(self.at(i)))))
        return False

    def __contains__(self, x):
        def same(y):
            _distinct(x, y)
            return x == y
        return self.sym_exists(same, 'member')


class Slice(SymSeq):
    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi
        n = hi - lo
        self.n = Ite(n < 0, 0, n) if is_sym(n) else max(0, n)
        self.name = base.name + '[:]'
        self.touched, self.facts, self.pair_facts = {}, [], []

    def at(self, i):
        return self.base.at(_i(self.lo + i))

    def touch(self, i):
        self.base.touch(_i(self.lo + i))
        return super().touch(i)


class SymRange(SymSeq):
    def __init__(self, lo, hi, step=1):
        if is_sym(step):
            raise Unsupported('symbolic step')
        self.lo, self.hi, self.step = lo, hi, step
        span = (hi - lo) if step > 0 else (lo - hi)
        s = abs(step)
        n = span if s == 1 else (span + (s - 1)) // s
        self.n = Ite(n < 0, 0, n)
        self.name = 'range'
        self.touched, self.facts, self.pair_facts = {}, [], []

    def at(self, i):
        return self.lo + i * self.step

    def __iter__(self):
        return pyvc._sym_range(self.lo, self.hi, self.step)



class SymEnumerate(SymSeq):
    def __init__(self, base, start=0):
        self.base, self.start = base, start
        self.n = base.n
        self.name = 'enumerate'
        self.touched, self.facts, self.pair_facts = {}, [], []

    def at(self, i):
        return self.start + i, self.base.at(i)

    def root(self):
        return self.base.root()


class Mapped(SymSeq):
    """[f(x) for x in base], element-wise"""

    def __init__(self, base, f, name='map'):
        self.base, self.f, self.n, self.name = base, f, base.n, name
        self.touched, self.facts, self.pair_facts = {}, [], []
        self.memo = {}

    def root(self):
        return self.base.root()

    def at(self, i):
        self.base.touch(i)
        k = _key(i)
        if k not in self.memo:
            self.memo[k] = self.f(self.base.at(i))
        return self.memo[k]

    def sym_sum(self):
        """contract of sum: prefix sums; `prefix` and `total` of the base sequence are known to the specification"""
        b = self.base
        pre = getattr(b, 'prefix', None)
        if pre is None:
            raise Unsupported('sum over a symbolic sequence')
        value, prefix = pre
        i = fresh_int('summand', 0)
        c = pyvc.ctx()
        if bool(i < self.n):                         # an arbitrary summand; the sum itself is used on the other path
            r = self.some(i)
            c.eng.prove(c, _b((r[0] if r else 0) == value(i)), 'the numbers that are summed up')
            raise pyvc.PathEnd()
        return prefix(self.n)

    def some(self, i):
        return [self.at(i)]


class Filtered(SymSeq):
    """[f(x) for x in base if ...]: only whether it is empty is known"""

    def __init__(self, base, f, name='filter'):
        self.lazy, self.name = Lazy(base, f, name), name
        self.touched, self.facts, self.pair_facts = {}, [], []
        self._n = None

    @property
    def n(self):
        if self._n is None:
            some = self.lazy.sym_exists(lambda x: True, self.name)
            self._n = fresh_int('length', 1) if some else SInt(z3.IntVal(0))
        return self._n

    def at(self, i):
        raise Unsupported('elements of a filtered sequence')

    def sym_exists(self, f, name):
        return self.lazy.sym_exists(f, name)

    def sym_extreme(self, gt, key=None, default=_NONE):
        return self.lazy.sym_extreme(gt, key, default)

    def sym_sum(self):
        return self.lazy.sym_sum()


class Lazy(Mapped):
    """(f(x) for x in base if ...): f yields zero or one value per element; whether the filter passes is decided (forked)
    whenever an element is looked at"""

    def __init__(self, base, f, name='gen'):
        super().__init__(base, f, name)

    def at(self, i):
        r = super().at(i)
        if len(r) != 1:
            raise Unsupported('a filter over a symbolic sequence')
        return r[0]

    def some(self, i):
        return Mapped.at(self, i)

    def sym_exists(self, f, name):
        """some / no element that passes the filter has f"""
        c = pyvc.ctx()
        if bool(SBool(c.fresh(z3.BoolSort(), name))):
            w = fresh_int(name, 0)
            _add(w < self.n)
            r = self.some(w)
            if not r or not bool(f(r[0])):
                raise pyvc.PathEnd()
            return True

        def none(i):
            r = self.some(i)
            return pyvc.Not(f(r[0])) if r else True
        self.root().fact(quiet(none))
        return False

    def sym_extreme(self, gt, key=None, default=_NONE):
        if not self.sym_exists(lambda x: True, 'nonempty'):
            if default is _NONE:
                raise ValueError('max() arg is an empty sequence')
            return default
        k = key or (lambda x: x)
        w = fresh_int('extreme', 0)
        _add(w < self.n)
        r = self.some(w)
        if not r:
            raise pyvc.PathEnd()
        b = k(r[0])

        def fact(i):
            r = self.some(i)
            if not r:
                return True
            x = k(r[0])
            return And((x <= b) if gt else (x >= b), Implies(i < w, lambda: (x < b) if gt else (x > b)))
        self.root().fact(quiet(fact))
        return r[0]


class Outside(Exception):
    """an index outside the sequence: nothing is stated about it"""


class Pairs(SymSeq):
    """[f(x, y) for x in base for y in inner(x) if ...]: a sequence holding every pair that passes the filter (`listed` gives its
    place), and nothing else; in what order is not known"""

    def __init__(self, base, inner, f, name='pairs'):
        c = pyvc.ctx()
        self.base, self.inner, self.f = base, inner, f
        k = c.fresh(z3.IntSort(), name)
        fa, fb = (z3.Function(f'{name} {x} {k}', z3.IntSort(), z3.IntSort()) for x in ('first', 'second'))
        fp = z3.Function(f'{name} place {k}', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.fst, self.snd = (lambda i: SInt(fa(_i(i).e))), (lambda i: SInt(fb(_i(i).e)))
        self.place = lambda i, j: SInt(fp(_i(i).e, _i(j).e))
        super().__init__(fresh_int(name, 0), None, name)
        self.memo = {}
        c.pairs = getattr(c, 'pairs', []) + [self]

    def _inner(self, i):
        r = self.inner(self.base.at(i))
        if not r:
            return None
        if not isinstance(r[0], SymSeq):
            raise Unsupported('inner range of a comprehension')
        return r[0]

    def at(self, k):
        self.touch(k)
        key = _key(k)
        if key not in self.memo:
            i, j = self.fst(k), self.snd(k)
            inside = And(0 <= k, k < self.n)
            _add(Implies(inside, lambda: And(0 <= i, i < self.base.n)))
            s = self._inner(i)
            if s is None:
                raise Unsupported('a filter on the outer range of a comprehension')
            _add(Implies(inside, lambda: And(0 <= j, j < s.n)))
            r = self.f(self.base.at(i), s.at(j))
            if not r:
                if bool(inside):
                    raise pyvc.PathEnd()          # members pass the filter
                raise Outside()
            self.memo[key] = r[0]
        return self.memo[key]

    def listed(self, i, j):
        """place of the pair (i, j) if it passes the filter, else None"""
        s = self._inner(i)
        if s is None or not self.f(self.base.at(i), s.at(j)):
            return None
        p = self.place(i, j)
        _add(Implies(And(0 <= i, i < self.base.n, 0 <= j, j < s.n),
                     lambda: And(0 <= p, p < self.n, self.fst(p) == i, self.snd(p) == j)))
        self.touch(p)
        return p

    def sym_sorted(self, key=None, reverse=False):
        """the same elements in some other order, which is all that is used"""
        return self


class SymDict:
    """{key(x): value(x) for x in base} whose keys are the elements themselves; entries written later are kept aside"""

    def __init__(self, base, f):
        self.base, self.f, self.over = base, f, []

    def sym_len(self):
        return self.base.n + sum(1 for k, _ in self.over)

    def __len__(self):
        raise Unsupported('length of a symbolic dictionary')

    def __setitem__(self, k, v):
        if any(k is x for x, _ in self.over):
            raise Unsupported('entry of a symbolic dictionary written twice')
        self.over.append((k, v))

    def __contains__(self, k):
        if hasattr(self.base, 'find') and not self.over:
            return bool(self.base.find(k) >= 0)
        if not hasattr(k, 'i') or self.over:
            raise Unsupported('membership in a symbolic dictionary')
        return bool(And(0 <= k.i, k.i < self.base.n))

    def __getitem__(self, k):
        for x, v in reversed(self.over):
            if x is k:
                return v
        if hasattr(self.base, 'find'):
            # the specification knows which element has the key
            w = self.base.find(k)
            if not bool(w >= 0):
                raise KeyError(k)
            d = self.f(self.base.at(w))
            self.base.same(next(iter(d)), k)
            return next(iter(d.values()))
        if getattr(k, 'is_name', False):
            # keys that are names of the elements: the i-th element's entry is taken at index i
            d = self.f(self.base.at(k.i))
            if len(d) != 1 or z3.simplify(_i(next(iter(d)).i - k.i).e).sexpr() != '0':
                raise Unsupported('keys of a symbolic dictionary')
            return next(iter(d.values()))
        d = self.f(k)
        if len(d) != 1 or next(iter(d)) is not k:
            raise Unsupported('keys of a symbolic dictionary')
        return d[k]


def _add(cond):
    e = z3.simplify(_b(cond))
    if not z3.is_true(e):
        pyvc.ctx().add(e)


_fn_count = [0]


def field(H, name, real=False):
    """an uninterpreted field: index -> number"""
    s = z3.RealSort() if real else z3.IntSort()
    f = z3.Function(f'{name}', z3.IntSort(), s)
    wrap = SReal if real else SInt
    return lambda i: wrap(f(_i(i).e))


def quiet(f):
    """elements are evaluated to state a fact: obligations inside them are those of an arbitrary element, checked elsewhere"""
    def g(i):
        c = pyvc.ctx()
        old, c.quiet = getattr(c, 'quiet', False), True
        try:
            return f(i)
        finally:
            c.quiet = old
    return g


def fresh_int(name='k', lo=None, hi=None):
    c = pyvc.ctx()
    t = c.fresh(z3.IntSort(), name)
    if lo is not None:
        c.add(t >= lo)
    if hi is not None:
        c.add(t <= hi)
    return SInt(t)


class Forall:
    """for all i in [lo, hi) of seq: fn(i)"""

    def __init__(self, seq, fn, lo=0, hi=None):
        self.seq, self.fn, self.lo, self.hi = seq, fn, lo, hi

    def _hi(self):
        return self.seq.n if self.hi is None else self.hi

    def assume(self):
        lo, hi = self.lo, self._hi()
        self.seq.fact(lambda i: Implies(And(lo <= i, i < hi), lambda: self.fn(i)))

    def prove(self, eng, c, label):
        i = fresh_int('all')
        lo, hi = self.lo, self._hi()
        self.seq.touch(i)
        try:
            goal = _b(Implies(And(lo <= i, i < hi), lambda: self.fn(i)))
        except Outside:
            return
        eng.prove(c, goal, label)


class Exists:
    """there is a w with fn(w); a goal needs candidate witnesses"""

    def __init__(self, fn, cands=(), name='w'):
        self.fn, self.cands, self.name = fn, cands, name

    def assume(self, store=None):
        w = fresh_int(self.name)
        _add(self.fn(w))
        return w


class MaxBag:
    """contract of a list that is only appended to and asked for its maximum"""

    def __init__(self, m):
        self.m = self.m0 = m

    def append(self, x):
        self.m = Ite(x.value > self.m, x.value, self.m)

    def sym_max(self):
        T = pyvc._time_class()
        t = T.__new__(T)
        t.value = self.m
        return t

    def __iter__(self):
        raise Unsupported('iteration over a summarised list')
