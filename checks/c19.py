"""C19 Time arithmetic: every operator of Time against mathematical integers clamped to [-INF, INF]."""
from sv.run import Check, Proof
from sv.pyvc import And, Ite, Or, Not


def _T():
    from sampo.schemas.time import Time, TIME_INF
    return Time, TIME_INF


def clamp(v, INF):
    return Ite(v > INF, INF, Ite(v < -INF, -INF, v))


def _time(H, name):
    """any Time value: the representation invariant is -INF <= value <= INF"""
    Time, INF = _T()
    return Time(H.int(name, -INF, INF))


def construct(H):
    Time, INF = _T()
    v = H.int('v', rlo=-3 * 10 ** 9, rhi=3 * 10 ** 9)
    t = Time(v)
    H.check(t.value == clamp(v, INF), 'constructor clamps')
    H.check(And(t.value >= -INF, t.value <= INF), 'invariant')
    H.check(H.eq(t.is_inf(), Or(t.value == INF, t.value == -INF)) if not H.symbolic else
            Not(t.is_inf()) == Not(Or(t.value == INF, t.value == -INF)), 'is_inf iff saturated')


def construct_real(H):
    """a float is truncated towards zero, then clamped"""
    Time, INF = _T()
    v = H.real('v', rlo=-3e9, rhi=3e9)
    t = Time(v)
    x = t.value
    inside = And(v > -INF - 1, v < INF + 1)
    H.check(H.Implies(And(inside, v >= 0), lambda: And(x <= v, v < x + 1)), 'non-negative floats are truncated')
    H.check(H.Implies(And(inside, v <= 0), lambda: And(x >= v, v > x - 1)), 'negative floats are truncated')
    H.check(And(x >= -INF, x <= INF), 'invariant')


def set_time(H):
    Time, INF = _T()
    t = _time(H, 'a')
    v = H.int('v', rlo=-3 * 10 ** 9, rhi=3 * 10 ** 9)
    t.set_time(v)
    H.check(t.value == clamp(v, INF), 'set_time clamps')


def _binary(opname, op, spec, nonzero=False, linear=True):
    def h(H):
        Time, INF = _T()
        form = H.pick('form', ['TT', 'Ti', 'iT'])
        a = H.int('a', -INF, INF)
        b = H.int('b', -INF, INF) if form == 'TT' else H.int('b', -2 * INF, 2 * INF)
        if form == 'iT':
            a, b = b, a
        if nonzero:
            if form == 'iT':
                return                        # int // Time is not defined by Time
            H.assume(b != 0)
        ta, tb = (Time(a) if form != 'iT' else a), (Time(b) if form != 'Ti' else b)
        r = op(ta, tb)
        H.check(type(r) is Time, f'{opname} returns Time')
        H.check(r.value == clamp(spec(a, b), INF), f'{opname} equals the clamped integer result ({form})')
        H.check(And(r.value >= -INF, r.value <= INF), f'{opname} keeps the invariant')
        if form != 'iT':
            H.check(ta.value == a, f'{opname} leaves the left operand')
        if form != 'Ti':
            H.check(tb.value == b, f'{opname} leaves the right operand')
        H.check(r is not ta and r is not tb, f'{opname} returns a new object')
    h.__name__ = 'op_' + opname
    return h


def truediv(H):
    Time, INF = _T()
    form = H.pick('form', ['TT', 'Ti'])
    a, b = H.int('a', -INF, INF), H.int('b', -INF, INF)
    H.assume(b != 0)
    r = Time(a) / (Time(b) if form == 'TT' else b)
    if H.symbolic:
        H.check(r * b == a, 'true division is exact (real arithmetic)')
    else:
        H.check(abs(r * b - a) <= abs(a) * 1e-9, 'true division is exact (real arithmetic)')


_CMP = [('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b),
        ('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b)]


def compare(H):
    Time, INF = _T()
    form = H.pick('form', ['TT', 'Ti', 'iT'])
    k = H.pick('op', range(len(_CMP)))
    name, op = _CMP[k]
    a, b = H.int('a', -INF, INF), H.int('b', -INF, INF)
    ta, tb = (Time(a) if form != 'iT' else a), (Time(b) if form != 'Ti' else b)
    r = op(ta, tb)
    H.check(r == op(a, b), f'{name} agrees with integers ({form})')


def order_laws(H):
    """a == b iff not (a < b or b < a); bool and int views agree; equal values hash equally"""
    Time, INF = _T()
    a, b = _time(H, 'a'), _time(H, 'b')
    e = a == b
    l, g = a < b, a > b
    H.check(And(Or(e, l, g), Not(And(e, l)), Not(And(e, g)), Not(And(l, g))), 'trichotomy')
    H.check(bool(a) == (a.value != 0), 'truth value')
    H.check(H.eq(a.__int__(), a.value), 'int view')


def hashing(H):
    Time, INF = _T()
    v = H.pick('v', [-INF, -7, -1, 0, 1, 2, 41, 10 ** 9, INF])
    w = H.pick('w', [-INF, -7, -1, 0, 1, 2, 41, 10 ** 9, INF, 3 * 10 ** 9])
    a, b = Time(v), Time(w)
    if a == b:
        H.check(hash(a) == hash(b), 'equal times hash equally')
    H.check(hash(a) == hash(v), 'a time hashes as its integer')
    H.check(len({a: 1, Time(v): 2}) == 1, 'equal times are one dictionary key')
    H.check(str(a) == str(v) and repr(a) == str(v), 'printed as the integer')


def infinity(H):
    """infinity absorbs: inf + x (x >= 0) stays infinite, and sums of finite times below INF are finite"""
    Time, INF = _T()
    x = H.int('x', 0, INF)
    H.check((Time.inf() + Time(x)).is_inf(), 'inf + x is infinite')
    H.check((Time.inf() + x).is_inf(), 'inf + int is infinite')
    y = H.int('y', 0, INF)
    H.assume(x + y < INF)
    s = Time(x) + Time(y)
    H.check(Not(s.is_inf()), 'finite sum is not infinite')
    H.check(s - Time(y) == x, 'subtraction undoes addition of finite times')


F = 'sampo/schemas/time.py:Time.'
CHECK = Check(
    'C19', 'proof',
    proofs=[
        Proof('Time.__init__/int', construct, [F + '__init__', F + 'set_time', F + 'is_inf']),
        Proof('Time.__init__/float', construct_real, [F + '__init__', F + 'set_time']),
        Proof('Time.set_time', set_time, [F + 'set_time']),
        Proof('Time.__add__', _binary('add', lambda a, b: a + b, lambda a, b: a + b), [F + '__add__', F + '__radd__']),
        Proof('Time.__sub__', _binary('sub', lambda a, b: a - b, lambda a, b: a - b), [F + '__sub__', F + '__rsub__']),
        Proof('Time.__mul__', _binary('mul', lambda a, b: a * b, lambda a, b: a * b), [F + '__mul__', F + '__rmul__']),
        Proof('Time.__floordiv__', _binary('floordiv', lambda a, b: a // b, lambda a, b: a // b, True),
              [F + '__floordiv__']),
        Proof('Time.__truediv__', truediv, [F + '__truediv__']),
        Proof('Time comparisons', compare, [F + '__lt__', F + '__le__', F + '__gt__', F + '__ge__', F + '__eq__']),
        Proof('Time order laws', order_laws, [F + '__eq__', F + '__lt__', F + '__gt__', F + '__bool__', F + '__int__']),
        Proof('Time.__hash__ (points)', hashing, [F + '__hash__'], kind='bounded', bound='9x10 listed values'),
        Proof('Time infinity', infinity, [F + 'inf', F + '__add__', F + '__sub__', F + 'is_inf']),
    ],
    assumptions=['floats are treated as exact reals in the symbolic runs (true division, construction from float)'],
)
