"""C01 bits: an immutable bit sequence, least significant bit first"""
from vf.runner import PyUnit
from vf import pysym
from vf.pysym import sbool


def mods():
    import sys
    from amlib.utils.bits import bits
    return [sys.modules[bits.__module__]]


def well_formed(B, r, n, want):
    """the class invariant of a result: n bits, an integer of n bits, with this value"""
    return [("is_bits", isinstance(r, B)), ("length", len(r) == n), ("value", r.to_int() == want)]


def bit(x, i):
    return (x >> i) & 1


def rev(x, n):
    r = 0
    for i in range(n):
        r = r | (bit(x, i) << (n - 1 - i))
    return r


def mask(n):
    return (1 << n) - 1


SMALL = (0, 1, 2, 5, 8)
LENS = (0, 1, 2, 3, 7, 8, 9, 16, 31, 32, 33, 64)
PAIRS = [(0, 0), (0, 3), (4, 0), (1, 1), (3, 5), (5, 3), (8, 8), (9, 8), (1, 32), (33, 32), (40, 24), (64, 64)]


def one_length(cfg):
    from amlib.utils.bits import bits as B
    out = []

    def add(name, f, **opt):
        out.append((f"{cfg['op']}[{name}]", f, opt))
    for n in (cfg.get("lens") or LENS):
        if cfg["op"] == "construct":
            def new(v, n=n):
                x, y = v.int(n), v.int(n + 7)
                yield from well_formed(B, B(x, n), n, x)
                yield from well_formed(B, B.from_int(y, n), n, y & mask(n))
                yield from well_formed(B, B.from_int(-1 - y, n), n, mask(n) - (y & mask(n)))
                yield from well_formed(B, B(B(y, n + 7), n), n, y & mask(n))
                b = B(x, n)
                yield "same", B(b) is b
            add(n, new)

            def minimal(v, n=n):
                x = v.int(n)
                b = B(x)
                yield from well_formed(B, b, len(b), x)
                yield "minimal", x < (1 << len(b))
                yield "minimal", sbool(len(b) == 0) | sbool(x >= (1 << max(len(b) - 1, 0)))
            add(n, minimal)

            def truth(v, n=n):
                b = B(v.int(n), n)
                yield "true_unless_empty", bool(b) == (n > 0)
            add(n, truth)
        elif cfg["op"] == "bytes":
            def back(v, n=n):
                x = v.int(n)
                for order in ("little", "big"):
                    bs = B(x, n).to_bytes(order)
                    k = (n + 7) // 8
                    yield "byte_count", len(bs) == k
                    for i in range(k):
                        yield "byte", bs[i if order == "little" else k - 1 - i] == (x >> 8 * i) & 255
            add(n, back)

            def there(v, n=n):
                k = (n + 7) // 8
                x = v.int(8 * k)
                for order in ("little", "big"):
                    raw = (pysym.SBytes if v.symbolic else bytes)((x >> 8 * (i if order == "little" else k - 1 - i)) & 255 for i in range(k))
                    yield from well_formed(B, B(raw, n, order), n, x & mask(n))
                    yield from well_formed(B, B.from_bytes(raw, n, order), n, x & mask(n))
                    if order == "little":
                        yield from well_formed(B, B(raw, n), n, x & mask(n))
                        if not v.symbolic:
                            yield from well_formed(B, B(bytearray(raw), n), n, x & mask(n))
                            yield "bytes_round_trip", bytes(B(raw, 8 * k)) == raw
            add(n, there)
            add(n, there, only_concrete=True)
        elif cfg["op"] == "string":
            def text(v, n=n):
                x = v.int(n)
                s = B(x, n).to_str()
                yield "one_digit_per_bit", len(s) == n and set(s) <= set("01")
                yield "most_significant_first", all(s[n - 1 - i] == str(bit(x, i)) for i in range(n))
                yield "str", str(B(x, n)) == s
                yield "repr", repr(B(x, n)) == f"bits('{s}')"
                yield from well_formed(B, B(s), n, x)
                if n:
                    yield from well_formed(B, B("+" + s), n, x)
                    yield from well_formed(B, B(" " + s[:n // 2] + "_" + s[n // 2:] + "\n"), n, x)
            add(n, text, only_concrete=True)
        elif cfg["op"] == "index":
            def single(v, n=n):
                x = v.int(n)
                b = B(x, n)
                for i in range(n):
                    yield "from_the_start", b[i] == bit(x, i)
                for i in range(1, n + 1):
                    yield "from_the_end", b[-i] == bit(x, n - i)
            add(n, single)

            def iterate(v, n=n):
                x = v.int(n)
                got = list(B(x, n))
                yield "iterates_each_bit", len(got) == n
                for i in range(n):
                    yield "least_significant_first", got[i] == bit(x, i)
            add(n, iterate)

            def slices(v, n=n):
                x = v.int(n)
                b = B(x, n)
                pts = range(-n - 2, n + 3) if n <= 9 else (-n - 1, -n, 1 - n, -n // 2, -1, 0, 1, n // 2, n - 1, n, n + 5)
                for a in (None, *pts):
                    for z in (None, *pts):
                        lo, hi, _ = slice(a, z).indices(n)
                        hi = max(lo, hi)
                        yield from well_formed(B, b[a:z], hi - lo, (x >> lo) & mask(hi - lo))
            add(n, slices)
        elif cfg["op"] == "repeat":
            def times(v, n=n):
                x = v.int(n)
                for k in (0, 1, 2, 3):
                    want = 0
                    for i in range(k):
                        want = want | (x << i * n)
                    for r in (B(x, n) * k, k * B(x, n)):
                        yield from well_formed(B, r, n * k, want)
            if n <= 33:
                add(n, times)
        elif cfg["op"] == "bitwise list":
            def listed(v, n=n):
                x = v.int(n)
                yield from well_formed(B, B([bit(x, i) for i in range(n)]), n, x)
                yield from well_formed(B, B.from_iter(bit(x, i) for i in range(n)), n, x)
            add(n, listed)

            def back(v, n=n):
                x = v.int(n)
                yield from well_formed(B, B(x, n).reversed(), n, rev(x, n))
            add(n, back)
    return out


def two_lengths(cfg):
    from amlib.utils.bits import bits as B
    out = []
    for n, m in PAIRS:
        def f(v, n=n, m=m):
            x, y = v.int(n), v.int(m)
            b, c = B(x, n), B(y, m)
            op, k = cfg["op"], max(n, m)
            if op == "concatenate":
                yield from well_formed(B, b + c, n + m, x | (y << n))
                yield from well_formed(B, c.__radd__(b), n + m, x | (y << n))
            elif op == "and":
                yield from well_formed(B, b & c, k, x & y)
                yield from well_formed(B, c.__rand__(b), k, x & y)
            elif op == "or":
                yield from well_formed(B, b | c, k, x | y)
                yield from well_formed(B, c.__ror__(b), k, x | y)
            elif op == "xor":
                yield from well_formed(B, b ^ c, k, x ^ y)
                yield from well_formed(B, c.__rxor__(b), k, x ^ y)
            elif op == "equal":
                same = bool(b == c)
                eq = sbool(x == y) & sbool(n == m)
                yield "equal_exactly_if_same_length_and_value", eq if same else ~eq
                yield "not_equal", bool(b != c) != same
            yield "operands_unchanged", sbool(b.to_int() == x) & sbool(c.to_int() == y) & sbool(len(b) == n and len(c) == m)
        out.append((f"{cfg['op']}[{n},{m}]", f, {}))
    if cfg["op"] == "equal":
        def foreign(v):
            x = v.int(5)
            b = B(x, 5)
            for o in (None, 1.5, object(), len, ...):
                yield "unequal_to_what_is_no_bit_sequence", not (b == o) and b != o
            yield "equal_to_a_list", b == [bit(x, i) for i in range(5)] and not b == [bit(x, i) for i in range(4)]
            yield "equal_to_a_string", b == format(x, "05b") and not b == format(x ^ 1, "05b") and not b == format(x, "06b")
        out.append(("equal[others]", foreign, dict(only_concrete=True)))
    return out


F = "amlib.utils.bits.bits."
one, two = pysym.unit(one_length, mods), pysym.unit(two_lengths, mods)
UNITS = [
    PyUnit("construction", one, [dict(op="construct")], [F + x for x in ("__new__", "from_int", "__len__", "__bool__", "to_int")]),
    PyUnit("bytes", one, [dict(op="bytes")], [F + x for x in ("to_bytes", "from_bytes", "__new__")]),
    PyUnit("strings", one, [dict(op="string")], [F + x for x in ("to_str", "from_str", "__repr__")]),
    PyUnit("indexing", one, [dict(op="index")], [F + x for x in ("__getitem__", "__iter__")]),
    PyUnit("repetition", one, [dict(op="repeat")], [F + x for x in ("__mul__", "__rmul__")]),
    PyUnit("lists", one, [dict(op="bitwise list", lens=SMALL)], [F + x for x in ("from_iter", "reversed")]),
    PyUnit("operators", two, [dict(op=o) for o in ("concatenate", "and", "or", "xor", "equal")], [F + x for x in ("__add__", "__radd__", "__and__", "__rand__", "__or__", "__ror__", "__xor__", "__rxor__", "__eq__")]),
]
