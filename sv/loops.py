"""Cutting loops of the real functions of /repo by invariants.

`installed(specs)` replaces, for the duration of one symbolic run, each named function by a version compiled from its own
current source, in which the named loops are rewritten

    while C: B      =>   assert Inv; havoc(assigned in B); assume Inv; if C: { B; assert Inv; stop }  ...rest
    for x in S: B   =>   the same with a hidden index i over the symbolic sequence S (Inv may mention it)

`break`, `continue` and `return` inside B keep their meaning.  Everything else of the function is compiled unchanged.  If the
source cannot be found, has fewer loops, or an invariant names a variable that does not exist, the proof is undecided.
"""
import ast
import collections
import contextlib
import copy
import importlib
import inspect
import textwrap
from . import env
env.z3path()
import z3
from . import pyvc
from .pyvc import SInt, SReal, SBool, Unsupported, PathEnd, _b, is_sym
from .seq import SymSeq, SymRange, Mapped, Filtered, Lazy, Pairs, SymDict, Forall, Exists, fresh_int, _distinct


# An invariant the code does not keep is no evidence against the code as long as the rest of the invariants, kept by it,
# still give every contract: it is dropped and the proof is run again (the rest is a weaker assumption, so this is sound).
DROP = set()      # (loop, label) of dropped invariants
NAMES = {}        # obligation label -> (loop, label)


class Loop:
    """target 'module:qualname'; k - number of the loop in source order; inv(E) -> [(label, cond | Forall | Exists)];
    havoc {name: fn(E) -> value}; frame - names of objects the body may change in place (their havoc is the spec's business);
    variant(E) -> integer term that is non-negative and decreases"""

    def __init__(self, target, k, inv, havoc=None, frame=(), variant=None, keep=(), ghost=None,
                 may_not_iterate=False, also=()):
        self.may_not_iterate = may_not_iterate
        self.also = list(also)       # further variables the loop changes (through calls of nested functions)
        self.ghost = ghost or {}     # name -> (value at entry, value after one iteration)
        self.target, self.k, self.inv, self.havoc, self.frame, self.variant, self.keep = \
            target, k, inv, havoc or {}, set(frame), variant, set(keep)
        self.key = f'{target}#{k}'


class Env:
    def __init__(self, d, old=None, i=None, seq=None, g=None, pre=None):
        self.__dict__['pre'] = pre        # variables at the start of the iteration
        self.__dict__['_d'] = d
        self.__dict__['old'] = old
        self.__dict__['i'] = i
        self.__dict__['seq'] = seq
        self.__dict__['g'] = g if g is not None else {}

    def __getattr__(self, n):
        if n in self._d:
            return self._d[n]
        raise Unsupported(f'loop invariant: no variable {n}')

    def has(self, n):
        return n in self._d


def ghost(key, name):
    """value of a ghost variable after its loop"""
    return pyvc.ctx().loops[key]['g'][name]


def current(key):
    """index of the iteration during which the loop was left by return"""
    return pyvc.ctx().loops[key]['pre'].i


class State:
    def __init__(self):
        self.problems = []
        self.iterated = set()        # cut loops whose body was followed to its end at least once (vacuity guard)


def short(key):
    return key.split(':')[-1]


_MUT = {'append', 'add', 'pop', 'popleft', 'remove', 'extend', 'insert', 'clear', 'update', 'appendleft', 'sort',
        'reverse', 'discard', 'setdefault', 'popitem', 'set_time', 'with_count'}


def _root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.value if not isinstance(e, ast.Call) else e.func
    return e.id if isinstance(e, ast.Name) else None


def _assigned(body):
    names, mut = [], set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names:
                names.append(n.id)

        def visit_Attribute(self, n):
            if isinstance(n.ctx, ast.Store):
                mut.add(_root(n))
            self.generic_visit(n)

        def visit_Subscript(self, n):
            if isinstance(n.ctx, ast.Store):
                mut.add(_root(n))
            self.generic_visit(n)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and n.func.attr in _MUT:
                mut.add(_root(n.func))
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            if n.name not in names:
                names.append(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            # targets of comprehensions are local to them
            for g in n.generators:
                self.visit(g.iter)
        visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp
    for s in body:
        V().visit(s)
    return names, mut


class _Cut(ast.NodeTransformer):
    def __init__(self, specs):
        self.specs = specs          # k -> Loop
        self.n = -1
        self.done = set()

    def _compr2(self, node):
        """[f for x in A for y in B(x) if c]"""
        def over(names, gens, elt):
            gs = [ast.comprehension(target=g.target, ifs=g.ifs, is_async=0, iter=ast.Tuple([ast.Name(n, ast.Load())], ast.Load()))
                  for n, g in zip(names, gens)]
            return ast.ListComp(elt=elt, generators=gs)
        a, b = node.generators
        call = ast.parse('__vc.comp2(lambda __vc_a: 0, lambda __vc_a, __vc_b: 0, 0)').body[0].value
        call.args[0].body = over(['__vc_a'], [a], b.iter)
        call.args[1].body = over(['__vc_a', '__vc_b'], copy.deepcopy(node.generators), node.elt)
        call.args[2] = a.iter
        return ast.copy_location(call, node)

    def _compr(self, node):
        node = self.generic_visit(node)
        g = node.generators[0]
        if len(node.generators) == 2 and not any(x.is_async for x in node.generators) and \
                not any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)) for x in ast.walk(node)):
            return self._compr2(node)
        if len(node.generators) != 1 or g.is_async or any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)) for x in ast.walk(node)):
            return node
        one = ast.ListComp(elt=node.elt, generators=[ast.comprehension(target=g.target, ifs=g.ifs, is_async=0,
                                                                      iter=ast.Tuple([ast.Name('__vc_e', ast.Load())], ast.Load()))])
        what = 'gen' if not isinstance(node, ast.ListComp) else 'filter' if g.ifs else 'comp'
        call = ast.parse(f"__vc.{what}(lambda __vc_e: 0, 0)").body[0].value
        call.args[0].body = one
        call.args[1] = g.iter
        return ast.copy_location(call, node)

    visit_ListComp = visit_GeneratorExp = _compr

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in (ast.Eq, ast.NotEq, ast.In, ast.NotIn):
            f = 'within' if isinstance(node.ops[0], (ast.In, ast.NotIn)) else 'equal'
            call = ast.parse(f'__vc.{f}(0, 0, 0)').body[0].value
            call.args = [node.left, node.comparators[0], ast.Constant(isinstance(node.ops[0], (ast.NotEq, ast.NotIn)))]
            return ast.copy_location(call, node)
        return node

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        g = node.generators[0]
        if len(node.generators) != 1 or g.is_async or any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)) for x in ast.walk(node)):
            return node
        one = ast.DictComp(key=node.key, value=node.value,
                           generators=[ast.comprehension(target=g.target, ifs=g.ifs, is_async=0,
                                                         iter=ast.Tuple([ast.Name('__vc_e', ast.Load())], ast.Load()))])
        call = ast.parse("__vc.dictcomp(lambda __vc_e: 0, 0)").body[0].value
        call.args[0].body = one
        call.args[1] = g.iter
        return ast.copy_location(call, node)

    def visit_FunctionDef(self, node):
        # nested functions keep their loops (numbered too, so that they can be cut)
        return self.generic_visit(node)

    def _loop(self, node):
        self.n += 1
        k = self.n
        sp = self.specs.get(k)
        if sp is None:
            return self.generic_visit(node)
        self.done.add(k)
        if node.orelse:
            raise Unsupported('loop with else')
        names, mut = _assigned(node.body)
        raw_body = copy.deepcopy(node.body)
        node = self.generic_visit(node)
        body = node.body
        tag = f'__vc{k}'

        def stmts(src):
            return ast.parse(textwrap.dedent(src)).body

        if isinstance(node, ast.While):
            out = stmts(f"__vc.enter({sp.key!r}, locals(), None, None)")
            hv = [n for n in names if n not in sp.keep] + [m for m in sorted(x for x in mut if x) if m in sp.havoc and m not in names] + [x for x in sp.also if x not in names]
            for n in hv:
                out += stmts(f"""
                    if __vc.bound({n!r}, locals()): {n} = __vc.havoc({sp.key!r}, {n!r}, locals())
                """)
            out += stmts(f"__vc.frame({sp.key!r}, locals(), {sorted(m for m in mut if m)!r}, None, None)")
            out += stmts(f"__vc.assume({sp.key!r}, locals(), None, None)")
            once = ast.parse("for __vc_once in (0,):\n    pass\nelse:\n"
                             f"    __vc.back({sp.key!r}, locals(), None, None)").body[0]
            once.body = body
            cond = ast.If(test=node.test, body=[once], orelse=[])
            out.append(cond)
        else:
            out = stmts(f"{tag}s = __vc.iter(None)")
            out[0].value.args[0] = node.iter
            cut = stmts(f"__vc.enter({sp.key!r}, locals(), 0, {tag}s)")
            hv = [n for n in names if n not in sp.keep] + [m for m in sorted(x for x in mut if x) if m in sp.havoc and m not in names] + [x for x in sp.also if x not in names]
            tn, _ = _assigned([ast.Assign(targets=[node.target], value=ast.Constant(0))])
            for n in hv:
                if n not in tn:
                    cut += stmts(f"if __vc.bound({n!r}, locals()): {n} = __vc.havoc({sp.key!r}, {n!r}, locals())")
            cut += stmts(f"{tag}i = __vc.index({tag}s)")
            cut += stmts(f"__vc.frame({sp.key!r}, locals(), {sorted(m for m in mut if m)!r}, {tag}i, {tag}s)")
            cut += stmts(f"__vc.assume({sp.key!r}, locals(), {tag}i, {tag}s)")
            once = ast.parse("for __vc_once in (0,):\n    pass\nelse:\n"
                             f"    __vc.back({sp.key!r}, locals(), {tag}i + 1, {tag}s)").body[0]
            once.body = body
            get = ast.parse(f"__vc_x = __vc.get({tag}s, {tag}i)").body[0]
            get.targets = [node.target]
            cond = ast.parse(f"if {tag}i < __vc.len({tag}s):\n    pass").body[0]
            cond.body = [get, once]
            cut.append(cond)
            native = ast.For(target=copy.deepcopy(node.target), iter=ast.Name(f'{tag}s', ast.Load()), body=raw_body,
                             orelse=[])
            sel = ast.parse(f"if __vc.sym({tag}s):\n    pass\nelse:\n    pass").body[0]
            sel.body, sel.orelse = cut, [native]
            out.append(sel)
        for s in out:
            ast.copy_location(s, node)
        return out

    visit_While = visit_For = _loop


def _one(f):
    def g(x):
        r = f(x)
        if len(r) != 1:
            raise Unsupported('a filter over a symbolic sequence')
        return r[0]
    return g


class Compr:
    """comprehensions of the target that range over symbolic sequences are evaluated element by element; no loop is cut"""

    def __init__(self, target):
        self.target, self.k, self.key, self.may_not_iterate = target, None, f'{target}#compr', True


class _VC:
    """run-time support called from the rewritten functions"""

    def __init__(self, specs, state):
        self.specs = {s.key: s for s in specs}
        self.state = state

    @staticmethod
    def iter(x):
        return x

    @staticmethod
    def comp(f, it):
        """[element for target in it]: over a symbolic sequence the element is a function of the index"""
        if isinstance(it, SymSeq):
            return Mapped(it, _one(f))
        return [y for x in it for y in f(x)]

    @staticmethod
    def filter(f, it):
        """[element for target in it if ...]"""
        if isinstance(it, SymSeq):
            return Filtered(it, f)
        return [y for x in it for y in f(x)]

    @staticmethod
    def comp2(inner, f, it):
        if isinstance(it, SymSeq):
            return Pairs(it, inner, f)
        return [z for x in it for ys in inner(x) for y in ys for z in f(x, y)]

    @staticmethod
    def equal(a, b, neg):
        _distinct(a, b)
        return a != b if neg else a == b

    @staticmethod
    def within(a, c, neg):
        if isinstance(c, (list, tuple, set, frozenset, dict, collections.deque)):
            for b in c:
                _distinct(a, b)
        return a not in c if neg else a in c

    @staticmethod
    def gen(f, it):
        if isinstance(it, SymSeq):
            return Lazy(it, f)
        return (y for x in it for y in f(x))

    @staticmethod
    def dictcomp(f, it):
        if isinstance(it, SymSeq):
            return SymDict(it, f)
        return {k: v for x in it for k, v in f(x).items()}

    @staticmethod
    def sym(x):
        return isinstance(x, SymSeq)

    @staticmethod
    def len(x):
        return x.n

    @staticmethod
    def get(s, i):
        return s.at(i if type(i) is SInt else SInt(z3.IntVal(int(i))))

    @staticmethod
    def index(s):
        i = fresh_int('i', 0)
        pyvc.ctx().add(_b(i <= s.n))
        return i

    @staticmethod
    def bound(n, loc):
        return n in loc

    def _store(self):
        c = pyvc.ctx()
        if not hasattr(c, 'loops'):
            c.loops = {}
        return c.loops

    def enter(self, key, loc, i, seq):
        sp = self.specs[key]
        loc = {k: v for k, v in loc.items() if not k.startswith('__vc')}
        st = self._store()
        st[key] = dict(old=Env(dict(loc)), g={})
        E = Env(loc, st[key]['old'], i, seq, st[key]['g'])
        for n, (init, _) in sp.ghost.items():
            st[key]['g'][n] = init(E)
        self._prove(sp.inv(E), short(key), 'entry')
        for n in sp.ghost:
            st[key]['g'][n] = fresh_like(st[key]['g'][n], n)

    def havoc(self, key, name, loc):
        sp = self.specs[key]
        old = loc[name]
        if name in sp.havoc:
            return sp.havoc[name](Env(loc, self._store()[key]['old']))
        return fresh_like(old, name)

    def frame(self, key, loc, mutated, i, seq):
        sp = self.specs[key]
        bad = [m for m in mutated if m not in sp.frame and m not in sp.havoc]
        if bad:
            raise Unsupported(f'loop {key} changes {bad} in place, not in its frame')
        if 'frame!' in sp.havoc:
            sp.havoc['frame!'](Env(loc, self._store()[key]['old'], i, seq, self._store()[key]['g']))

    def assume(self, key, loc, i, seq):
        sp = self.specs[key]
        st = self._store()[key]
        loc = {k: v for k, v in loc.items() if not k.startswith('__vc')}
        st['pre'] = Env(dict(loc), st['old'], i, seq, dict(st['g']))
        E = Env(loc, st['old'], i, seq, st['g'])
        for label, c in sp.inv(E):
            if (short(key), label) in DROP:
                continue
            if isinstance(c, Forall):
                c.assume()
            elif isinstance(c, Exists):
                st['g'][c.name] = c.assume()
            else:
                pyvc.ctx().add(_b(c))
        if sp.variant:
            st['variant'] = sp.variant(E)
        if pyvc.ctx().solver.check() == z3.unsat:
            raise PathEnd()

    def back(self, key, loc, i, seq):
        sp = self.specs[key]
        st = self._store()[key]
        E = Env(loc, st['old'], i, seq, st['g'], st['pre'])
        for n, v in {n: up(E) for n, (_, up) in sp.ghost.items()}.items():
            st['g'][n] = v
        self.state.iterated.add(key)
        self._prove(sp.inv(E), short(key), 'preserved')
        if sp.variant:
            v0, v1 = st['variant'], sp.variant(E)
            eng = pyvc.ctx().eng
            eng.prove(pyvc.ctx(), _b(pyvc.And(v1 < v0, v0 >= 0)), f'loop {short(key)} terminates')
        raise PathEnd()

    def _prove(self, conds, name, what):
        c = pyvc.ctx()
        label = f'loop {name} {what}'
        for l, cond in conds:
            if (name, l) in DROP:
                continue
            if not l.startswith('!'):
                NAMES[f'{label}: {l}'] = (name, l)
            else:
                l = l[1:]           # a contract stated as an invariant: never dropped
            if isinstance(cond, Forall):
                cond.prove(c.eng, c, f'{label}: {l}')
            elif isinstance(cond, Exists):
                c.eng.prove(c, _b(pyvc.Or(*[cond.fn(w) for w in cond.cands])) if cond.cands else z3.BoolVal(False),
                            f'{label}: {l}')
            else:
                c.eng.prove(c, _b(cond), f'{label}: {l}')


def fresh_like(v, name='h'):
    c = pyvc.ctx()
    T = pyvc._time_class()
    if T is not None and type(v) is T:
        t = T.__new__(T)
        t.value = SInt(c.fresh(z3.IntSort(), name))
        return t
    if type(v) in (SBool, bool):
        return SBool(c.fresh(z3.BoolSort(), name))
    if type(v) in (SInt, int):
        return SInt(c.fresh(z3.IntSort(), name))
    if type(v) in (SReal, float):
        return SReal(c.fresh(z3.RealSort(), name))
    raise Unsupported(f'do not know how to havoc {name}: {type(v).__name__}')


def pyvc_array(n, name):
    import numpy as np
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = SInt(pyvc.ctx().fresh(z3.IntSort(), name))
    return a


def resolve(target):
    mod, qual = target.split(':')
    m = importlib.import_module(mod)
    owner = m
    parts = qual.split('.')
    for p in parts[:-1]:
        owner = getattr(owner, p)
    return m, owner, parts[-1], inspect.getattr_static(owner, parts[-1])


def compile_cut(target, specs, vc):
    m, owner, name, raw = resolve(target)
    fn = raw
    wrap = None
    if isinstance(raw, staticmethod):
        fn, wrap = raw.__func__, staticmethod
    elif isinstance(raw, classmethod):
        fn, wrap = raw.__func__, classmethod
    elif isinstance(raw, property):
        fn, wrap = raw.fget, property
    if fn.__closure__:
        raise Unsupported(f'{target} is a closure')
    src = textwrap.dedent(inspect.getsource(fn))
    tree = ast.parse(src)
    fd = tree.body[0]
    fd.decorator_list = []
    cut = _Cut({s.k: s for s in specs if s.k is not None})
    new = []
    for s in fd.body:
        r = cut.visit(s)
        new += r if isinstance(r, list) else [r]
    fd.body = new
    missing = set(cut.specs) - cut.done
    if missing:
        raise Unsupported(f'{target} has no loop number {sorted(missing)}')
    # defaults and annotations are taken from the original function
    fd.returns = None
    for a in fd.args.args + fd.args.kwonlyargs + fd.args.posonlyargs:
        a.annotation = None
    nd = len(fd.args.defaults)
    fd.args.defaults = [ast.Constant(None) for _ in range(nd)]
    fd.args.kw_defaults = [ast.Constant(None) if d is not None else None for d in fd.args.kw_defaults]
    ast.fix_missing_locations(tree)
    code = compile(tree, f'<vc:{target}>', 'exec')
    ns = {}
    g = fn.__globals__
    g['__vc'] = vc
    exec(code, g, ns)
    out = ns[fd.name]
    out.__defaults__ = fn.__defaults__
    out.__kwdefaults__ = fn.__kwdefaults__
    return owner, name, raw, (wrap(out) if wrap else out), g


@contextlib.contextmanager
def installed(specs):
    st = State()
    saved, gs = [], []
    by = {}
    for s in specs:
        by.setdefault(s.target, []).append(s)
    try:
        vc = _VC(specs, st)
        for target, ss in by.items():
            try:
                owner, name, raw, new, g = compile_cut(target, ss, vc)
            except Unsupported as ex:
                st.problems.append(str(ex))
                continue
            except (AttributeError, ImportError, OSError, SyntaxError, TypeError) as ex:
                st.problems.append(f'{target}: {type(ex).__name__} {ex}')
                continue
            saved.append((owner, name, raw))
            gs.append(g)
            setattr(owner, name, new)
        yield st
    finally:
        for owner, name, raw in reversed(saved):
            setattr(owner, name, raw)
        for g in gs:
            g.pop('__vc', None)
