"""Normal form for arithmetic terms: sums of products over the integers, rebuilt at minimal width.

Two terms that denote the same polynomial of the same sub-terms (whatever the order, grouping or
intermediate widths they were written with, as long as no intermediate result overflows) become the
same hash-consed term.  `norm` is equivalence-preserving; `check` evaluates both sides on random
values as a guard."""
import random

from . import term as T

LIMIT = 600          # monomials


def _rng_atom(k):
    t, s = k
    return (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1) if s else (0, (1 << t.w) - 1)


def _rng(p):
    lo = hi = 0
    for mono, c in p.items():
        a, b = c, c
        for k in mono:
            x, y = _rng_atom(_atoms[k])
            v = (a * x, a * y, b * x, b * y)
            a, b = min(v), max(v)
        lo, hi = lo + a, hi + b
    return lo, hi


_atoms = {}
_poly = {}           # atoms that stand for the wrapped value of a polynomial


def _needed(c, w):
    """bits of the other factors that matter for c * ... modulo 2**w"""
    return max(0, w - ((c & -c).bit_length() - 1)) if c else 0


def _mod(p, w):
    """the same polynomial modulo 2**w: atoms that wrap nothing that matters are replaced by what they wrap"""
    for _ in range(8):
        r, changed = {}, False
        for m, c in p.items():
            n = _needed(c, w)
            k = next((k for k in m if k[0] in _poly and _atoms[k][0].w >= n), None)
            if k is None:
                r = _addp(r, {m: c})
                continue
            rest = list(m)
            rest.remove(k)
            changed = True
            r = _addp(r, _mulp({tuple(rest): c}, _poly[k[0]]))
            if len(r) > LIMIT:
                return p
        p = r
        if not changed:
            break
    return p


def reset():
    _atoms.clear()
    _poly.clear()


def _atom(t, signed=True):
    if t.op == "const":
        v = t.p
        if signed and v >> (t.w - 1):
            v -= 1 << t.w
        return {(): v} if v else {}
    k = (t.id, signed)
    _atoms[k] = (t, signed)
    return {(k,): 1}


def _addp(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + f * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mulp(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def _fits(lo, hi):
    """least width holding lo..hi as a signed number"""
    w = 1
    while not (-(1 << (w - 1)) <= lo and hi < (1 << (w - 1))):
        w += 1
    return w


def _ext(k, w):
    t, s = _atoms[k]
    if t.w >= w:
        return T.extract(t, 0, w)
    return T.sext(t, w) if s else T.zext(t, w)


def build(p, w):
    m = _fits(*_rng(p))
    if m < w:
        return T.sext(_build(p, m), w)
    return _build(p, w)


def _build(p, w):
    r = {}
    for mono, c in p.items():                  # modulo 2**w the sign of wide atoms does not matter
        mono = tuple(sorted((k[0], True) if _atoms[k][0].w >= w else k for k in mono))
        for k in mono:
            if k not in _atoms:
                _atoms[k] = (next(t for (i, _), (t, _) in _atoms.items() if i == k[0]), True)
        r[mono] = (r.get(mono, 0) + c) & T.mask(w)
    acc = None
    for mono, c in sorted(r.items()):
        if not c:
            continue
        neg = c >> (w - 1) and w > 1
        f = (1 << w) - c if neg else c
        t = None
        for k in mono:
            e = _ext(k, w)
            t = e if t is None else T.mul(t, e)
        t = T.const(f, w) if t is None else T.mul(t, T.const(f, w))
        if acc is None:
            acc = T.sub(T.const(0, w), t) if neg else t
        else:
            acc = T.sub(acc, t) if neg else T.add(acc, t)
    return T.const(0, w) if acc is None else acc


def _cut(k, n):
    t = _atoms[k][0]
    if t.w < n or n < 1:
        return k
    t = T.extract(t, 0, n)
    _atoms[t.id, True] = (t, True)
    return t.id, True


def _same(p, q, w):
    """equal modulo 2**w"""
    r = {}
    for d, f in ((_mod(p, w), 1), (_mod(q, w), -1)):
        for mono, c in d.items():
            k = tuple(sorted(_cut(k, _needed(c, w)) for k in mono))
            r[k] = r.get(k, 0) + f * c
    import os
    if os.environ.get("VFDIFF") and not all(c & T.mask(w) == 0 for c in r.values()):
        print("DIFF", w, [(c, [str(_atoms[k][0])[:60] if k in _atoms else k for k in m]) for m, c in r.items() if c & T.mask(w)][:12])
    return all(c & T.mask(w) == 0 for c in r.values())


REBUILD = {
    "not": lambda t, a: T.not_(a[0]), "and": lambda t, a: T.and_(*a), "or": lambda t, a: T.or_(*a),
    "xor": lambda t, a: T.xor_(*a), "udiv": lambda t, a: T.udiv(*a), "urem": lambda t, a: T.urem(*a),
    "eq": lambda t, a: T.eq(*a), "ult": lambda t, a: T.ult(*a), "ite": lambda t, a: T.ite(*a),
    "concat": lambda t, a: T.concat(a), "extract": lambda t, a: T.extract(a[0], t.p, t.w),
    "shl": lambda t, a: T.shl(*a), "lshr": lambda t, a: T.lshr(*a), "ashr": lambda t, a: T.ashr(*a),
    "add": lambda t, a: T.add(*a), "sub": lambda t, a: T.sub(*a), "mul": lambda t, a: T.mul(*a),
}


def norm(roots):
    N, P = {}, {}

    def wrapped(t, p, signed):
        a = N[t.id]
        if a.op != "const" and not (len(p) == 1 and any(k[0] == a.id for m in p for k in m)):
            _poly[a.id] = p
        return _atom(a, signed)

    def signed_value(t):
        p = P[t.id]
        lo, hi = _rng(p)
        if -(1 << (t.w - 1)) <= lo and hi < (1 << (t.w - 1)):
            return p
        return wrapped(t, p, True)

    def unsigned_value(t):
        p = P[t.id]
        lo, hi = _rng(p)
        if 0 <= lo and hi < (1 << t.w):
            return p
        return wrapped(t, p, False)

    def bit_value(t):
        if t.op == "not":
            return _addp({(): 1}, bit_value(t.args[0]), -1)
        return _atom(N[t.id], False)

    for t in T.topo(roots):
        op, w, a = t.op, t.w, t.args
        p = None
        if w > 1:
            if op in ("add", "sub"):
                p = _addp(P[a[0].id], P[a[1].id], 1 if op == "add" else -1)
            elif op == "mul" and len(P[a[0].id]) * len(P[a[1].id]) <= LIMIT:
                p = _mulp(P[a[0].id], P[a[1].id])
            elif op == "sext":
                p = signed_value(a[0])
            elif op == "extract" and t.p == 0:
                p = _mod(P[a[0].id], w)
            elif op == "concat" and len(a) <= 4:
                p, off = {}, 0
                for i, x in enumerate(a):
                    if x.op == "const":
                        q = {(): x.p} if x.p else {}
                        if i == len(a) - 1 and x.p >> (x.w - 1):
                            q = {(): x.p - (1 << x.w)}
                    elif i == len(a) - 1:
                        q = signed_value(x)
                    else:
                        q = bit_value(x) if x.w == 1 else unsigned_value(x)
                    p = _addp(p, {m: c << off for m, c in q.items()})
                    off += x.w
            elif op == "not":
                p = _addp({(): -1}, P[a[0].id], -1)
            if p is not None and len(p) > LIMIT:
                p = None
        if op == "const" or op == "var":
            N[t.id] = t
            P[t.id] = _atom(t)
            continue
        if p is None and op == "extract" and t.p > 0:
            q = P[a[0].id]
            m = _fits(*_rng(q))
            lo = t.p
            if lo >= m:
                r = T.extract(build(q, m), m - 1, 1)
                r = T.sext(r, w)
            elif lo + w > m:
                r = T.sext(T.extract(build(q, m), lo, m - lo), w)
            else:
                r = T.extract(build(q, lo + w), lo, w)
            N[t.id] = r
            P[t.id] = _atom(r.args[0]) if r.op == "sext" else _atom(r)
            continue
        if op == "eq" and a[0].w > 1 and _same(P[a[0].id], P[a[1].id], a[0].w):
            N[t.id] = T.const(1, 1)
            P[t.id] = {(): 1}
            continue
        if p is not None:
            N[t.id] = T.concat([N[x.id] for x in a]) if op == "concat" else build(p, w)
            P[t.id] = p
            continue
        args = [N[x.id] for x in a]
        r = REBUILD[op](t, args) if op != "sext" else T.sext(args[0], w)
        N[t.id] = r
        P[t.id] = _atom(r.args[0]) if r.op == "sext" and w > 1 else _atom(r)
    return [N[r.id] for r in roots]


def check(old, new, n=4, seed=1):
    ev = T.Evaluator(list(old) + list(new))
    rnd = random.Random(seed)
    vs = [t for t in ev.order if t.op == "var"]
    for i in range(n):
        env = {}
        for t in vs:
            v = rnd.getrandbits(t.w)
            if i == 1:
                v = rnd.choice((0, T.mask(t.w), 1 << (t.w - 1), T.mask(t.w) >> 1))
            env[t.p] = v
        r = ev(env)
        if r[:len(old)] != r[len(old):]:
            raise AssertionError("arithmetic normal form disagrees")
