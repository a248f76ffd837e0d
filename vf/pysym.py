"""Contracts over plain Python functions, decided by symbolic execution of the real code.

The code of the module under contract runs unchanged on integers that carry a z3 term (SInt). Where it branches on one, both
branches are followed; a contract's clauses are proved by z3 on every path. The module sees SInt as `int` through a replaced
`isinstance` and `operator.index` in its globals; every other use of the value of an SInt (int(), range(), format() ...)
raises Unsupported, and the contract is then evaluated on plain integers instead, which counts as bounded."""
import builtins, operator, random, time, types

from .limit import time_limit
import z3

W = 200                                     # two's complement; ranges are tracked, so that nothing wraps


class Unsupported(BaseException):
    pass


class Path:
    cur = None

    def __init__(self, prefix):
        self.prefix, self.taken, self.cond, self.todo = prefix, [], [], []
        self.solver = z3.Solver()
        self.queries = 0

    def assume(self, e):
        self.cond.append(e)
        self.solver.add(e)

    def feasible(self, e):
        self.queries += 1
        return self.solver.check(e) != z3.unsat

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        k = len(self.taken)
        if k < len(self.prefix):
            r = self.prefix[k]
        else:
            t, f = self.feasible(e), self.feasible(z3.Not(e))
            r = t
            if t and f:
                self.todo.append(self.taken + [False])
        self.taken.append(r)
        self.assume(e if r else z3.Not(e))
        return r


class SBool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        e = z3.simplify(self.e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        return Path.cur.branch(e)

    def __and__(self, o):
        return SBool(z3.And(self.e, sbool(o).e))

    def __or__(self, o):
        return SBool(z3.Or(self.e, sbool(o).e))

    def __invert__(self):
        return SBool(z3.Not(self.e))

    __rand__, __ror__ = __and__, __or__


def sbool(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return x != 0
    return SBool(z3.BoolVal(bool(x)))


def _lift(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(z3.If(x.e, z3.BitVecVal(1, W), z3.BitVecVal(0, W)), 0, 1)
    if isinstance(x, int):
        x = int(x)
        return SInt(z3.BitVecVal(x, W), x, x)
    return None


class SInt:
    def __init__(self, e, lo, hi):
        if lo < -(1 << W - 1) or hi >= 1 << W - 1:
            raise Unsupported("range")
        self.e, self.lo, self.hi = e, lo, hi

    def _bin(self, o, f, g):
        o = _lift(o)
        if o is None:
            return NotImplemented
        return SInt(f(self.e, o.e), *g(self, o))

    @staticmethod
    def _mask(a, b):
        n = max(x.bit_length() for x in (a.lo, a.hi, b.lo, b.hi))
        return (0 if a.lo >= 0 and b.lo >= 0 else -(1 << n)), (1 << n) - 1

    @staticmethod
    def _maskand(a, b):
        if a.lo >= 0 or b.lo >= 0:
            return 0, min(x.hi for x in (a, b) if x.lo >= 0)
        return SInt._mask(a, b)

    def __and__(self, o): return self._bin(o, operator.and_, self._maskand)
    def __or__(self, o): return self._bin(o, operator.or_, self._mask)
    def __xor__(self, o): return self._bin(o, operator.xor, self._mask)
    def __add__(self, o): return self._bin(o, operator.add, lambda a, b: (a.lo + b.lo, a.hi + b.hi))
    def __sub__(self, o): return self._bin(o, operator.sub, lambda a, b: (a.lo - b.lo, a.hi - b.hi))
    def __rsub__(self, o): return _lift(o) - self
    __rand__, __ror__, __rxor__, __radd__ = __and__, __or__, __xor__, __add__

    def __mul__(self, o):
        return self._bin(o, operator.mul, lambda a, b: (min(x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)), max(x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi))))

    __rmul__ = __mul__

    def __neg__(self): return 0 - self
    def __invert__(self): return SInt(~self.e, -1 - self.hi, -1 - self.lo)

    def _amount(self, k):
        if isinstance(k, SInt):
            if k.lo != k.hi:
                raise Unsupported("symbolic shift")
            k = k.lo
        if k < 0:
            raise ValueError("negative shift count")
        return k

    def __lshift__(self, k):
        k = self._amount(k)
        lo, hi = self.lo << k, self.hi << k
        return SInt(self.e << k, lo, hi)

    def __rshift__(self, k):
        k = self._amount(k)
        return SInt(self.e >> min(k, W - 1), self.lo >> k, self.hi >> k)

    def __rlshift__(self, o): return _lift(o) << self._amount(self)
    def __rrshift__(self, o): return _lift(o) >> self._amount(self)

    def _power(self, o):
        if not isinstance(o, int) or o <= 0 or o & (o - 1):
            raise Unsupported("division")
        return o.bit_length() - 1

    def __mod__(self, o): return self & ((1 << self._power(o)) - 1)
    def __floordiv__(self, o): return self >> self._power(o)
    def __divmod__(self, o): return self // o, self % o

    def _cmp(self, o, f):
        o = _lift(o)
        return NotImplemented if o is None else SBool(f(self.e, o.e))

    def __eq__(self, o): return self._cmp(o, operator.eq)
    def __ne__(self, o): return self._cmp(o, operator.ne)
    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)

    def __bool__(self):
        return bool(self != 0)

    def bit_length(self):
        if self.lo < 0:
            raise Unsupported("bit_length of a negative number")
        n = 0
        while self >= (1 << n):
            n += 1
        return n

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed or self.lo < 0:
            raise Unsupported("to_bytes")
        if self >= (1 << 8 * length):
            raise OverflowError("int too big to convert")
        r = [(self >> 8 * i) & 255 for i in range(length)]
        return SBytes(r if byteorder == "little" else r[::-1])

    def _no(self, *a, **k):
        raise Unsupported("value of a symbolic integer")

    __int__ = __index__ = __float__ = __format__ = __str__ = __hash__ = __pow__ = __rpow__ = __truediv__ = __round__ = __trunc__ = _no


class SBytes(list):
    """bytes with symbolic elements"""

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return SBytes(r) if builtins.isinstance(k, slice) else r

    def __add__(self, o):
        return SBytes(list(self) + list(o))

    def __radd__(self, o):
        return SBytes(list(o) + list(self))

    def __bytes__(self):
        raise Unsupported("bytes")

    __hash__ = None


class IntShim:
    """stands in for `int` in the module under contract"""

    def __call__(self, *a, **k):
        return a[0] if len(a) == 1 and not k and builtins.isinstance(a[0], SInt) else int(*a, **k)

    def from_bytes(self, b, byteorder="big", *, signed=False):
        if not builtins.isinstance(b, SBytes):
            return int.from_bytes(b, byteorder, signed=signed)
        if signed:
            raise Unsupported("signed bytes")
        r = 0
        for i, x in enumerate(b if byteorder == "little" else b[::-1]):
            r = r | (x << 8 * i)
        return r

    def __getattr__(self, name):
        return getattr(int, name)


def install(mod):
    """lets the module under contract take SInt for int"""
    fake = IntShim()

    def shim(o, t):
        ts = tuple(int if x is fake else x for x in (t if builtins.isinstance(t, tuple) else (t,)))
        if builtins.isinstance(o, SInt):
            return int in ts or SInt in ts or object in ts
        if builtins.isinstance(o, SBytes):
            return bytes in ts
        return builtins.isinstance(o, ts)
    mod.isinstance = shim
    mod.int = fake
    if getattr(mod, "operator", None) is operator:
        ns = types.SimpleNamespace(**{k: getattr(operator, k) for k in operator.__all__})
        ns.index = lambda v: v if builtins.isinstance(v, SInt) else operator.index(v)
        mod.operator = ns


class Sym:
    """values of a contract on one path: all of them at once"""
    symbolic = True

    def __init__(self):
        self.vars = []

    def int(self, bits):
        v = z3.BitVec(f"v{len(self.vars)}", bits) if bits else None
        self.vars.append((v, bits))
        return SInt(z3.ZeroExt(W - bits, v), 0, (1 << bits) - 1) if bits else 0

    def model(self, m):
        return [m.eval(v, model_completion=True).as_long() if n else 0 for v, n in self.vars]


class Conc:
    symbolic = False

    def __init__(self, values):
        self.values, self.k, self.widths = values, 0, []

    def int(self, bits):
        self.widths.append(bits)
        v = self.values[self.k] if self.k < len(self.values) else 0
        self.k += 1
        return v & ((1 << bits) - 1)


def symbolic(contract, deadline, max_paths=5000):
    """(None|(clause, values), clauses proved, queries, paths)"""
    todo, clauses, paths, queries = [[]], set(), 0, 0
    while todo:
        if time.time() > deadline or paths >= max_paths:
            raise Unsupported("too many paths")
        p = Path.cur = Path(todo.pop())
        v = Sym()
        try:
            with time_limit(100, Unsupported):
                checks = list(contract(v))
        except Unsupported:
            raise
        except Exception as e:
            checks = [("raises_nothing", False)]
        paths += 1
        todo += p.todo
        for name, c in checks:
            c = sbool(c).e
            queries += 1
            r = p.solver.check(z3.Not(c))
            if r == z3.sat:
                return (name, v.model(p.solver.model())), clauses, queries, paths
            if r != z3.unsat:
                raise Unsupported("solver")
            clauses.add(name)
        queries += p.queries
    return None, clauses, queries, paths


def concrete(contract, values):
    v = Conc(list(values))
    try:
        with time_limit(60):
            checks = list(contract(v))
    except Exception as e:
        return "raises_nothing: " + repr(e)[:100], v.widths, set()
    for name, c in checks:
        if not c:
            return name, v.widths, set()
    return None, v.widths, {n for n, _ in checks}


def decide(contract, deadline, seed, mods=(), only_concrete=False, samples=2500):
    """dict(status, clause, values, clauses, paths)"""
    if not only_concrete:
        saved = [(m, dict(m.__dict__)) for m in mods]
        try:
            for m in mods:
                install(m)
            bad, clauses, queries, paths = symbolic(contract, deadline)
            if bad is None:
                return dict(status="proved", clauses=clauses, queries=queries, paths=paths)
        except Unsupported as e:
            bad = None
        finally:
            for m, d in saved:
                m.__dict__.clear()
                m.__dict__.update(d)
        if bad is not None:
            name, _, _ = concrete(contract, bad[1])
            if name is not None:
                return dict(status="violated", clause=name, values=bad[1], clauses=set())
            # not reproduced on plain integers: an artefact of the symbolic integers
    rnd = random.Random(seed)
    bad, widths, clauses = concrete(contract, [])
    n, total = 1, sum(widths)
    if bad is not None:
        return dict(status="violated", clause=bad, values=[0] * len(widths), clauses=set())
    if total <= 11:
        it = range(1 << total)
    else:
        it = (rnd.getrandbits(total) & (rnd.getrandbits(total) if k & 1 else -1) for k in range(samples))
    for x in it:
        vals = []
        for w in widths:
            vals.append(x & ((1 << w) - 1))
            x >>= w
        bad, _, cl = concrete(contract, vals)
        clauses |= cl
        n += 1
        if bad is not None:
            return dict(status="violated", clause=bad, values=vals, clauses=set())
        if time.time() > deadline + 20:
            break
    return dict(status="bounded", clauses=clauses, evaluations=n, exhaustive=total <= 11)


def unit(contracts, mods):
    """the run function of a PyUnit: contracts(cfg) -> [(name, contract, options)]"""
    def run(cfg, budget, seed):
        mods_ = mods() if callable(mods) else mods
        deadline = time.time() + 0.8 * budget
        n = proved = 0
        clauses, notes, bounded = set(), {}, 0
        for name, contract, opt in contracts(cfg):
            r = decide(contract, deadline, seed, mods_, **opt)
            n += 1
            if r["status"] == "violated":
                return dict(status="violated", violated=f"{name}: {r['clause']}", counterexample=dict(contract=name, clause=r["clause"], values=[hex(v) for v in r["values"]]),
                            obligations=n, discharged=n - 1, clauses=sorted(clauses))
            clauses |= {f"{name.split('[')[0]}.{c}" for c in r["clauses"]}
            proved += r["status"] == "proved"
            if r["status"] == "bounded":
                bounded += 1
                notes[name.split("[")[0]] = notes.get(name.split("[")[0], 0) + r["evaluations"]
        res = dict(obligations=n, discharged=n - bounded, clauses=sorted(clauses))
        if bounded:
            return dict(res, status="bounded", note=f"{proved} contracts proved for all values by symbolic execution; bounded (evaluated): " + ", ".join(f"{k} ({v} evaluations)" for k, v in sorted(notes.items())))
        return dict(res, status="proved", note=f"{proved} contracts proved for all values by symbolic execution")
    return run
