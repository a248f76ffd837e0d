"""Hash-consed bit-vector terms: the logic in which extracted designs and contracts are expressed.

All terms are unsigned bit-vectors of a fixed width >= 1; signedness is made explicit by the
lowering.  Three independent interpretations exist: python ints (`Evaluator`), C (`csim`) and
z3 (`ToZ3`)."""


class Term:
    __slots__ = ("op", "w", "args", "p", "id")

    def __repr__(self):
        if self.op == "const":
            return f"{self.p}'{self.w}"
        if self.op == "var":
            return f"{self.p}"
        return f"({self.op}{'' if self.p is None else self.p} {' '.join(map(repr, self.args))})"


_table = {}
_all = []


def reset_table():
    _table.clear()
    _all.clear()


def _mk(op, w, args, p=None):
    key = (op, w, tuple(a.id for a in args), p)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.w, t.args, t.p = op, w, tuple(args), p
        t.id = len(_all)
        _all.append(t)
        _table[key] = t
    return t


def const(v, w):
    assert w >= 1
    return _mk("const", w, (), v & ((1 << w) - 1))


def var(name, w):
    assert w >= 1
    return _mk("var", w, (), name)


TRUE = lambda: const(1, 1)
FALSE = lambda: const(0, 1)


def isc(t, v=None):
    return t.op == "const" and (v is None or t.p == v)


def mask(w):
    return (1 << w) - 1


def not_(a):
    if a.op == "const":
        return const(~a.p, a.w)
    if a.op == "not":
        return a.args[0]
    return _mk("not", a.w, (a,))


def and_(a, b):
    assert a.w == b.w
    if a.op == "const" and b.op == "const":
        return const(a.p & b.p, a.w)
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if b.p == 0:
            return b
        if b.p == mask(b.w):
            return a
    if a is b:
        return a
    if a.w == 1 and (not_(a) is b):
        return const(0, 1)
    if a.id > b.id:
        a, b = b, a
    return _mk("and", a.w, (a, b))


def or_(a, b):
    assert a.w == b.w
    if a.op == "const" and b.op == "const":
        return const(a.p | b.p, a.w)
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if b.p == 0:
            return a
        if b.p == mask(b.w):
            return b
    if a is b:
        return a
    if a.w == 1 and (not_(a) is b):
        return const(1, 1)
    if a.id > b.id:
        a, b = b, a
    return _mk("or", a.w, (a, b))


def xor_(a, b):
    assert a.w == b.w
    if a.op == "const" and b.op == "const":
        return const(a.p ^ b.p, a.w)
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if b.p == 0:
            return a
        if b.p == mask(b.w):
            return not_(a)
    if a is b:
        return const(0, a.w)
    if a.id > b.id:
        a, b = b, a
    return _mk("xor", a.w, (a, b))


def add(a, b):
    assert a.w == b.w
    if a.op == "const" and b.op == "const":
        return const(a.p + b.p, a.w)
    if a.op == "const":
        a, b = b, a
    if isc(b, 0):
        return a
    if a.id > b.id and b.op != "const":
        a, b = b, a
    return _mk("add", a.w, (a, b))


def sub(a, b):
    assert a.w == b.w
    if a.op == "const" and b.op == "const":
        return const(a.p - b.p, a.w)
    if isc(b, 0):
        return a
    if a is b:
        return const(0, a.w)
    return _mk("sub", a.w, (a, b))


def mul(a, b):
    assert a.w == b.w
    if a.op == "const" and b.op == "const":
        return const(a.p * b.p, a.w)
    if a.op == "const":
        a, b = b, a
    if isc(b, 0):
        return b
    if isc(b, 1):
        return a
    if b.op == "const" and b.p & (b.p - 1) == 0:
        s = b.p.bit_length() - 1
        return concat([const(0, s), extract(a, 0, a.w - s)]) if s else a
    if a.id > b.id and b.op != "const":
        a, b = b, a
    return _mk("mul", a.w, (a, b))


def udiv(a, b):
    """Amaranth semantics: x // 0 == 0."""
    if a.op == "const" and b.op == "const":
        return const(0 if b.p == 0 else a.p // b.p, a.w)
    return _mk("udiv", a.w, (a, b))


def urem(a, b):
    """Amaranth semantics: x % 0 == 0."""
    if a.op == "const" and b.op == "const":
        return const(0 if b.p == 0 else a.p % b.p, a.w)
    return _mk("urem", a.w, (a, b))


def eq(a, b):
    assert a.w == b.w
    if a is b:
        return const(1, 1)
    if a.op == "const" and b.op == "const":
        return const(int(a.p == b.p), 1)
    if a.op == "const":
        a, b = b, a
    if a.w == 1 and b.op == "const":
        return a if b.p else not_(a)
    if b.op == "const" and a.op == "ite" and all(x.op == "const" for x in a.args[1:]):
        c, x, y = a.args
        xb, yb = x.p == b.p, y.p == b.p
        if xb and yb:
            return const(1, 1)
        if xb:
            return c
        if yb:
            return not_(c)
        return const(0, 1)
    if b.op == "const" and a.op == "concat":
        # constant against zero-extension
        hi = a.args[-1]
        if hi.op == "const":
            low = a.w - hi.w
            if (b.p >> low) != hi.p:
                return const(0, 1)
            return eq(concat(list(a.args[:-1])), const(b.p, low))
    if a.id > b.id and b.op != "const":
        a, b = b, a
    return _mk("eq", 1, (a, b))


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    assert a.w == b.w
    if a.op == "const" and b.op == "const":
        return const(int(a.p < b.p), 1)
    if a is b or isc(b, 0):
        return const(0, 1)
    return _mk("ult", 1, (a, b))


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    assert a.w == b.w
    m = const(1 << (a.w - 1), a.w)
    return ult(xor_(a, m), xor_(b, m))


def ite(c, a, b):
    assert c.w == 1 and a.w == b.w, (c.w, a.w, b.w)
    if c.op == "const":
        return a if c.p else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.w == 1:
        if isc(a, 1):
            return or_(c, b)
        if isc(a, 0):
            return and_(not_(c), b)
        if isc(b, 1):
            return or_(not_(c), a)
        if isc(b, 0):
            return and_(c, a)
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    return _mk("ite", a.w, (c, a, b))


def concat(parts):
    """parts: least significant first."""
    ps = []
    for p in parts:
        if p.w == 0:
            continue
        if p.op == "concat":
            qs = p.args
        else:
            qs = (p,)
        for q in qs:
            if ps and ps[-1].op == "const" and q.op == "const":
                l = ps.pop()
                ps.append(const(l.p | (q.p << l.w), l.w + q.w))
            elif ps and ps[-1].op == "extract" and q.op == "extract" and \
                    ps[-1].args[0] is q.args[0] and ps[-1].p + ps[-1].w == q.p:
                l = ps.pop()
                ps.append(extract(q.args[0], l.p, l.w + q.w))
            else:
                ps.append(q)
    if len(ps) == 1:
        return ps[0]
    return _mk("concat", sum(p.w for p in ps), ps)


def extract(a, lo, w):
    assert w >= 1 and lo >= 0 and lo + w <= a.w, (lo, w, a.w)
    if lo == 0 and w == a.w:
        return a
    if a.op == "const":
        return const(a.p >> lo, w)
    if a.op == "extract":
        return extract(a.args[0], a.p + lo, w)
    if a.op == "concat":
        out, pos = [], 0
        for p in a.args:
            s, e = max(lo, pos), min(lo + w, pos + p.w)
            if s < e:
                out.append(extract(p, s - pos, e - s))
            pos += p.w
        return concat(out)
    if a.op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor_}[a.op]
        if any(x.op in ("const", "concat") for x in a.args):
            return f(extract(a.args[0], lo, w), extract(a.args[1], lo, w))
    if a.op == "ite" and (a.args[1].op in ("const", "concat") or a.args[2].op in ("const", "concat")):
        return ite(a.args[0], extract(a.args[1], lo, w), extract(a.args[2], lo, w))
    if a.op in ("add", "sub", "mul") and lo == 0:
        f = {"add": add, "sub": sub, "mul": mul}[a.op]
        return f(extract(a.args[0], 0, w), extract(a.args[1], 0, w))
    if a.op == "sext":
        x = a.args[0]
        if lo + w <= x.w:
            return extract(x, lo, w)
        if lo < x.w:
            return sext(extract(x, lo, x.w - lo), w)
        return sext(extract(x, x.w - 1, 1), w)
    return _mk("extract", w, (a,), lo)


def zext(a, w):
    return a if a.w == w else concat([a, const(0, w - a.w)])


def sext(a, w):
    if a.w == w:
        return a
    if a.op == "const":
        v = a.p - (1 << a.w) if a.p >> (a.w - 1) else a.p
        return const(v, w)
    if a.op == "sext":
        return sext(a.args[0], w)
    if a.op == "concat" and a.args[-1].op == "const":
        return concat(list(a.args[:-1]) + [sext(a.args[-1], a.args[-1].w + w - a.w)])
    return _mk("sext", w, (a,))


def shl(a, b):
    """variable shift left; amount is any width; overshift gives 0"""
    if b.op == "const":
        s = b.p
        if s == 0:
            return a
        if s >= a.w:
            return const(0, a.w)
        return concat([const(0, s), extract(a, 0, a.w - s)])
    return _mk("shl", a.w, (a, b))


def lshr(a, b):
    if b.op == "const":
        s = b.p
        if s == 0:
            return a
        if s >= a.w:
            return const(0, a.w)
        return zext(extract(a, s, a.w - s), a.w)
    return _mk("lshr", a.w, (a, b))


def ashr(a, b):
    if b.op == "const":
        s = min(b.p, a.w - 1)
        return sext(extract(a, s, a.w - s), a.w)
    return _mk("ashr", a.w, (a, b))


def redor(a):
    return ne(a, const(0, a.w))


def redand(a):
    return eq(a, const(mask(a.w), a.w))


def redxor(a):
    r = extract(a, 0, 1)
    for i in range(1, a.w):
        r = xor_(r, extract(a, i, 1))
    return r


def conj(ts):
    r = const(1, 1)
    for t in ts:
        r = and_(r, t)
    return r


def implies(a, b):
    return or_(not_(a), b)


def topo(roots):
    """terms reachable from roots, operands first (iterative)"""
    seen, out = set(), []
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in reversed(t.args):
            if a.id not in seen:
                stack.append((a, False))
    return out


def eval_op(t, v):
    op, w = t.op, t.w
    m = mask(w)
    if op == "not":
        return ~v[0] & m
    if op == "and":
        return v[0] & v[1]
    if op == "or":
        return v[0] | v[1]
    if op == "xor":
        return v[0] ^ v[1]
    if op == "add":
        return (v[0] + v[1]) & m
    if op == "sub":
        return (v[0] - v[1]) & m
    if op == "mul":
        return (v[0] * v[1]) & m
    if op == "udiv":
        return v[0] // v[1] if v[1] else 0
    if op == "urem":
        return v[0] % v[1] if v[1] else 0
    if op == "eq":
        return int(v[0] == v[1])
    if op == "ult":
        return int(v[0] < v[1])
    if op == "ite":
        return v[1] if v[0] else v[2]
    if op == "concat":
        r, s = 0, 0
        for a, x in zip(t.args, v):
            r |= x << s
            s += a.w
        return r
    if op == "extract":
        return (v[0] >> t.p) & m
    if op == "sext":
        a = t.args[0]
        return (v[0] | (m & ~mask(a.w))) if v[0] >> (a.w - 1) else v[0]
    if op == "shl":
        return (v[0] << v[1]) & m if v[1] < w else 0
    if op == "lshr":
        return v[0] >> v[1] if v[1] < w else 0
    if op == "ashr":
        x = v[0] - (1 << w) if v[0] >> (w - 1) else v[0]
        return (x >> min(v[1], w)) & m
    raise NotImplementedError(op)


class Evaluator:
    def __init__(self, roots):
        self.roots = list(roots)
        self.order = topo(self.roots)

    def __call__(self, env):
        """env: var name -> int; returns list of root values"""
        val = {}
        for t in self.order:
            if t.op == "const":
                val[t.id] = t.p
            elif t.op == "var":
                val[t.id] = env[t.p]
            else:
                val[t.id] = eval_op(t, [val[a.id] for a in t.args])
        return [val[r.id] for r in self.roots]


def subst(roots, env):
    """replace variables by terms (env: name -> Term); missing names stay"""
    val = {}
    rebuild = {
        "not": lambda t, a: not_(a[0]), "and": lambda t, a: and_(*a), "or": lambda t, a: or_(*a),
        "xor": lambda t, a: xor_(*a), "add": lambda t, a: add(*a), "sub": lambda t, a: sub(*a),
        "mul": lambda t, a: mul(*a), "udiv": lambda t, a: udiv(*a), "urem": lambda t, a: urem(*a),
        "eq": lambda t, a: eq(*a), "ult": lambda t, a: ult(*a), "ite": lambda t, a: ite(*a),
        "concat": lambda t, a: concat(a), "extract": lambda t, a: extract(a[0], t.p, t.w),
        "sext": lambda t, a: sext(a[0], t.w), "shl": lambda t, a: shl(*a),
        "lshr": lambda t, a: lshr(*a), "ashr": lambda t, a: ashr(*a),
    }
    for t in topo(roots):
        if t.op == "const":
            val[t.id] = t
        elif t.op == "var":
            val[t.id] = env.get(t.p, t)
        else:
            a = [val[x.id] for x in t.args]
            if all(x is y for x, y in zip(a, t.args)):
                val[t.id] = t
            else:
                val[t.id] = rebuild[t.op](t, a)
    return [val[r.id] for r in roots]


class ToZ3:
    """terms -> z3; width-1 terms become Bool, wider ones BitVec"""

    def __init__(self, z3, varmap=None):
        self.z3 = z3
        self.cache = {}
        self.varmap = varmap or (lambda name, w: z3.Bool(name) if w == 1 else z3.BitVec(name, w))

    def bv(self, t, e):
        z3 = self.z3
        return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if t.w == 1 else e

    def __call__(self, root):
        z3, cache = self.z3, self.cache
        if root.id in cache:
            return cache[root.id]
        for t in topo([root]):
            if t.id in cache:
                continue
            op, w = t.op, t.w
            a = [cache[x.id] for x in t.args]
            b1 = w == 1
            if op == "const":
                e = z3.BoolVal(bool(t.p)) if b1 else z3.BitVecVal(t.p, w)
            elif op == "var":
                e = self.varmap(t.p, w)
            elif op == "not":
                e = z3.Not(a[0]) if b1 else ~a[0]
            elif op == "and":
                e = z3.And(a[0], a[1]) if b1 else a[0] & a[1]
            elif op == "or":
                e = z3.Or(a[0], a[1]) if b1 else a[0] | a[1]
            elif op == "xor":
                e = z3.Xor(a[0], a[1]) if b1 else a[0] ^ a[1]
            elif op == "add":
                e = z3.Xor(a[0], a[1]) if b1 else a[0] + a[1]
            elif op == "sub":
                e = z3.Xor(a[0], a[1]) if b1 else a[0] - a[1]
            elif op == "mul":
                e = z3.And(a[0], a[1]) if b1 else a[0] * a[1]
            elif op == "udiv":
                if b1:
                    e = z3.And(a[0], a[1])
                else:
                    e = z3.If(a[1] == 0, z3.BitVecVal(0, w), z3.UDiv(a[0], a[1]))
            elif op == "urem":
                if b1:
                    e = z3.BoolVal(False)
                else:
                    e = z3.If(a[1] == 0, z3.BitVecVal(0, w), z3.URem(a[0], a[1]))
            elif op == "eq":
                e = a[0] == a[1]
            elif op == "ult":
                e = z3.And(z3.Not(a[0]), a[1]) if t.args[0].w == 1 else z3.ULT(a[0], a[1])
            elif op == "ite":
                e = z3.If(a[0], a[1], a[2])
            elif op == "concat":
                e = z3.Concat(*[self.bv(x, y) for x, y in reversed(list(zip(t.args, a)))])
            elif op == "extract":
                x = z3.Extract(t.p + w - 1, t.p, a[0])
                e = x == z3.BitVecVal(1, 1) if b1 else x
            elif op == "sext":
                e = z3.SignExt(w - t.args[0].w, self.bv(t.args[0], a[0]))
            elif op in ("shl", "lshr", "ashr"):
                x, y = self.bv(t.args[0], a[0]), self.bv(t.args[1], a[1])
                ww = max(w, t.args[1].w)
                if t.args[1].w < ww:
                    y = z3.ZeroExt(ww - t.args[1].w, y)
                if w < ww:
                    x = (z3.SignExt if op == "ashr" else z3.ZeroExt)(ww - w, x)
                r = {"shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y}[op]()
                if w < ww:
                    r = z3.Extract(w - 1, 0, r)
                e = r == z3.BitVecVal(1, 1) if b1 else r
            else:
                raise NotImplementedError(op)
            cache[t.id] = e
        return cache[root.id]
