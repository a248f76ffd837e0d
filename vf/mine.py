"""Invariant candidates: relations between registers (and contract terms of interest) observed on
sampled reachable states.  Candidates are only guesses; `prove.houdini` keeps the ones that the
solver shows to be inductive."""
import numpy as np

from . import term as T

BIT, LE, GE, DIFF, SUM, ORD = range(6)
FIELDS = ("m1", "v1", "m2", "v2", "ty", "ca", "ba", "cb", "bb", "k", "mask")


class Columns:
    """64-bit chunks of the sampled row"""

    def __init__(self, sim, terms):
        self.col = []            # (name, chunk offset bits, width of chunk)
        self.words = []          # columns of whole words (width <= 64), index into col
        self.terms = terms       # name -> Term
        for n, w in sim.cols:
            for k in range((w + 63) // 64):
                self.col.append((n, 64 * k, min(64, w - 64 * k)))
                if w <= 64:
                    self.words.append(len(self.col) - 1)

    def term(self, c):
        n, off, w = self.col[c]
        t = self.terms[n]
        return T.extract(t, off, w)

    def bit(self, c, b):
        return T.extract(self.term(c), b, 1)


class Cands:
    def __init__(self, rows=None):
        self.a = {f: [] for f in FIELDS}
        if rows is not None:
            self.a = rows

    def add(self, mode, ty, ca, ba=0, cb=-1, bb=0, k=0, mask=0):
        m = list(mode) + [(-1, 0)] * (2 - len(mode))
        for f, v in zip(FIELDS, (m[0][0], m[0][1], m[1][0], m[1][1], ty, ca, ba, cb, bb, k, mask)):
            self.a[f].append(v)

    def freeze(self):
        self.a = {f: np.array(v, dtype=np.uint64 if f in ("v1", "v2", "k", "mask") else np.int64)
                  for f, v in self.a.items()}
        return self

    def __len__(self):
        return len(self.a["ty"])

    def take(self, sel):
        return Cands({f: v[sel] for f, v in self.a.items()})

    def check(self, rows):
        """rows: (k, ncols) uint64 -> bool array (ncand): holds on every row"""
        a = self.a
        n = len(self)
        ok = np.ones(n, dtype=bool)
        if not n:
            return ok
        U = np.uint64
        for i in range(len(rows)):
            r = np.append(rows[i], U(0))
            act = ((a["m1"] < 0) | (r[a["m1"]] == a["v1"])) & ((a["m2"] < 0) | (r[a["m2"]] == a["v2"]))
            A, B = r[a["ca"]], r[a["cb"]]
            ty = a["ty"]
            val = np.ones(n, dtype=bool)
            s = ty == BIT
            val[s] = ((((A[s] >> a["ba"][s].astype(U)) ^ (B[s] >> a["bb"][s].astype(U))) & U(1)) == a["k"][s])
            s = ty == LE
            val[s] = A[s] <= a["k"][s]
            s = ty == GE
            val[s] = A[s] >= a["k"][s]
            s = ty == DIFF
            val[s] = ((A[s] - B[s]) & a["mask"][s]) == a["k"][s]
            s = ty == SUM
            val[s] = ((A[s] + B[s]) & a["mask"][s]) == a["k"][s]
            s = ty == ORD
            val[s] = A[s] <= B[s]
            ok &= val | ~act
        return ok

    def whole_words(self, cols, rows, hints, nomine=(), narrow=4, modes=False, mode_names=()):
        """instead of relations between single bits of wide words only equalities of whole words"""
        a = self.a
        wide = np.array([w > narrow and not (modes and n in mode_names) for n, _, w in cols.col] + [False])
        out = self.take(np.isin(a["ca"], list(hints)) | ~(wide[a["ca"]] | wide[a["cb"]]))
        new = Cands()
        seen = {}
        for c, (n, _, w) in enumerate(cols.col):
            if w > narrow and c not in hints and n not in nomine:
                d = seen.setdefault((w, rows[:, c].tobytes()), c)
                if d != c:
                    for b in range(w):
                        new.add((), BIT, c, b, d, b, 0)
        if modes:
            keep = [c for c, (n, _, w) in enumerate(cols.col) if w > narrow and c not in hints and n not in nomine and seen.get((w, rows[:, c].tobytes())) == c]
            sel1 = (a["m1"] >= 0) & (a["m2"] < 0)
            for m1, v1 in sorted(set(zip(a["m1"][sel1].tolist(), a["v1"][sel1].tolist()))):
                sub = rows[rows[:, m1] == np.uint64(v1)]
                if len(sub) < 1:
                    continue
                by = {}
                for c in keep:
                    w, x = cols.col[c][2], sub[:, c]
                    if (x == x[0]).all():
                        for b in range(w):
                            new.add(((m1, v1),), BIT, c, b, -1, 0, int(x[0]) >> b & 1)
                        continue
                    d = by.setdefault((w, x.tobytes()), c)
                    if d != c:
                        for b in range(w):
                            new.add(((m1, v1),), BIT, c, b, d, b, 0)
        new.freeze()
        return Cands({f: np.concatenate([out.a[f], new.a[f]]) for f in FIELDS})

    def term(self, cols, i):
        a = self.a
        g = T.const(1, 1)
        for m, v in (("m1", "v1"), ("m2", "v2")):
            if a[m][i] >= 0:
                t = cols.term(int(a[m][i]))
                g = T.and_(g, T.eq(t, T.const(int(a[v][i]), t.w)))
        ty, ca, cb, k = int(a["ty"][i]), int(a["ca"][i]), int(a["cb"][i]), int(a["k"][i])
        if ty == BIT:
            x = cols.bit(ca, int(a["ba"][i]))
            y = cols.bit(cb, int(a["bb"][i])) if cb >= 0 else T.const(0, 1)
            f = T.eq(T.xor_(x, y), T.const(k, 1))
        elif ty in (LE, GE):
            x = cols.term(ca)
            f = T.ule(x, T.const(k, x.w)) if ty == LE else T.ule(T.const(k, x.w), x)
        elif ty == ORD:
            x, y = cols.term(ca), cols.term(cb)
            w = max(x.w, y.w)
            f = T.ule(T.zext(x, w), T.zext(y, w))
        else:
            w = int(a["mask"][i]).bit_length()
            x, y = [T.extract(T.zext(t, max(w, t.w)), 0, w) for t in (cols.term(ca), cols.term(cb))]
            f = T.eq(T.sub(x, y) if ty == DIFF else T.add(x, y), T.const(k, w))
        return T.implies(g, f)

    def describe(self, cols, i):
        a = self.a
        nm = lambda c: cols.col[c][0] + (f"[{cols.col[c][1]}+]" if cols.col[c][1] else "")
        g = [f"{nm(int(a[m][i]))}=={int(a[v][i])}" for m, v in (("m1", "v1"), ("m2", "v2")) if a[m][i] >= 0]
        ty, ca, cb, k = int(a["ty"][i]), int(a["ca"][i]), int(a["cb"][i]), int(a["k"][i])
        if ty == BIT:
            f = f"{nm(ca)}.{int(a['ba'][i])}" + (f" {'!=' if k else '=='} {nm(cb)}.{int(a['bb'][i])}" if cb >= 0 else f" == {k}")
        elif ty in (LE, GE):
            f = f"{nm(ca)} {'<=' if ty == LE else '>='} {k}"
        elif ty == ORD:
            f = f"{nm(ca)} <= {nm(cb)}"
        else:
            f = f"{nm(ca)} {'-' if ty == DIFF else '+'} {nm(cb)} == {k} mod {int(a['mask'][i]) + 1}"
        return (" & ".join(g) + " => " if g else "") + f


def bit_matrix(cols, rows):
    cs, bs, mats = [], [], []
    for c, (n, off, w) in enumerate(cols.col):
        x = rows[:, c]
        for b in range(w):
            cs.append(c)
            bs.append(b)
            mats.append(((x >> np.uint64(b)) & np.uint64(1)).astype(np.uint8))
    return np.array(cs), np.array(bs), (np.array(mats) if mats else np.zeros((0, len(rows)), np.uint8))


def mine(cols, rows, tier=1, max_modes=160, nomine=(), hint_cols=(), max_cands=80000, mode_names=(), auto_vals=20, mode_cap=256):
    """rows: sampled states.  Returns Cands."""
    C = Cands()
    U = np.uint64
    skip = {c for c, (n, _, _) in enumerate(cols.col) if n in nomine}
    hints = {c for c, (n, _, _) in enumerate(cols.col) if n in hint_cols}
    for c in sorted(hints):
        C.add((), BIT, c, 0, -1, 0, 1)
    words = [c for c in cols.words if c not in skip and c not in hints]
    cs, bs, M = bit_matrix(cols, rows)
    keep = np.array([c not in skip and c not in hints for c in cs], dtype=bool) if len(cs) else np.zeros(0, bool)
    cs, bs, M = cs[keep], bs[keep], M[keep]
    nbits = len(cs)

    def classes(M):
        """equivalence classes up to complement; constants separately"""
        if M.shape[1] == 0:
            return [], {}
        first = M[:, 0]
        N = M ^ first[:, None]
        packed = np.packbits(N, axis=1)
        consts, cl = [], {}
        zero = bytes(packed.shape[1])
        for i in range(len(M)):
            b = packed[i].tobytes()
            if b == zero:
                consts.append(i)
            else:
                cl.setdefault(b, []).append(i)
        return consts, cl, first

    uncond_const = set()
    rep = list(range(nbits))
    if len(rows):
        consts, cl, first = classes(M)
        for i in consts:
            C.add((), BIT, cs[i], bs[i], -1, 0, int(first[i]))
            uncond_const.add(i)
        for members in cl.values():
            r = members[0]
            aligned = {}                   # prefer relating bits of equal index: whole words
            for i in members:
                j = aligned.setdefault(bs[i], i)
                if i != r:
                    j = r if j == i else j
                    C.add((), BIT, cs[i], bs[i], cs[j], bs[j], int(first[i] ^ first[j]))
                    rep[i] = r
    live = [i for i in range(nbits) if i not in uncond_const and rep[i] == i]
    constw = {c for c in words if len(rows) and (rows[:, c] == rows[0, c]).all()}
    vals = {}
    for c in words:
        if c in constw:
            continue
        w = cols.col[c][2]
        u = np.unique(rows[:, c])
        vals[c] = u
        if w > 1:
            mx, mn = int(u[-1]), int(u[0])
            if mx < (1 << w) - 1:
                C.add((), LE, c, k=mx)
            if mn > 0:
                C.add((), GE, c, k=mn)
    multi = [c for c in words if c in vals and cols.col[c][2] > 1]

    def pairs(mode, rws, done):
        out = set()
        n = len(rws)
        if n < 3:
            return out
        for x in range(len(multi)):
            a = multi[x]
            wa = cols.col[a][2]
            A = rws[:, a]
            ac = (A == A[0]).all()
            for b in multi[x + 1:]:
                wb = cols.col[b][2]
                B = rws[:, b]
                if ac or (B == B[0]).all():
                    continue
                w = max(wa, wb)
                if w > 62:
                    continue
                for m in ({w + 1} if wa != wb else {w}):
                    mask = U((1 << m) - 1)
                    if (a, b, DIFF) not in done:
                        d = (A - B) & mask
                        if (d == d[0]).all():
                            C.add(mode, DIFF, a, 0, b, 0, int(d[0]), int(mask))
                            out.add((a, b, DIFF))
                            continue
                    if (a, b, SUM) not in done:
                        d = (A + B) & mask
                        if (d == d[0]).all():
                            C.add(mode, SUM, a, 0, b, 0, int(d[0]), int(mask))
                            out.add((a, b, SUM))
                            continue
                if not mode or tier >= 2:
                    if (a, b, ORD) not in done and (A <= B).all():
                        C.add(mode, ORD, a, 0, b)
                        out.add((a, b, ORD))
                    if (b, a, ORD) not in done and (B <= A).all():
                        C.add(mode, ORD, b, 0, a)
                        out.add((b, a, ORD))
        return out

    R = rows if len(rows) <= 6000 else rows[np.linspace(0, len(rows) - 1, 6000).astype(int)]
    pdone = pairs((), R, set())

    # modes
    modes = []
    for c in vals:
        u = vals[c]
        nm = cols.col[c][0]
        pri = 0 if nm in mode_names else 1
        if len(u) <= (mode_cap if pri == 0 else auto_vals):
            for v in u:
                modes.append((pri, len(u), ((c, int(v)),)))
    modes.sort(key=lambda x: (x[0], x[1]))
    single = [m for p, _, m in modes if p == 0][:max(4 * max_modes, mode_cap)]
    single += [m for p, _, m in modes if p][:max(max_modes // 2, max_modes - len(single))]
    # contract-declared modes: values never observed are candidates for being unreachable
    for c in vals:
        w = cols.col[c][2]
        if cols.col[c][0] in mode_names and int(vals[c][-1]) - int(vals[c][0]) <= 4096:
            seen = set(int(v) for v in vals[c])
            for v in range(int(vals[c][0]) + 1, int(vals[c][-1])):
                if v not in seen:
                    C.add(((c, v),), LE, c, k=v - 1)
    import os as _o
    if _o.environ.get("VFMODES"): print({cols.col[c][0]: len(vals[c]) for c in vals if cols.col[c][0] in mode_names}, len(single))
    allm = list(single)
    if tier >= 2:
        small = [m for m in single]
        extra = []
        for i, m1 in enumerate(small):
            for m2 in small[i + 1:]:
                if m1[0][0] != m2[0][0]:
                    extra.append(m1 + m2)
        allm += extra[:max_modes * 8]
    done_by_single = {}
    Ml = M[live]
    for mode in allm:
        sel = np.ones(len(rows), dtype=bool)
        for c, v in mode:
            sel &= rows[:, c] == U(v)
        n = int(sel.sum())
        if n < 1 or (len(mode) == 1 and n == len(rows)):
            continue
        sub = np.flatnonzero(sel)
        if len(sub) > 8000:
            sub = sub[np.linspace(0, len(sub) - 1, 8000).astype(int)]
        known = set()
        if len(mode) == 2:
            for m in mode:
                known |= done_by_single.get((m,), set())
        mine_ = set()
        consts, cl, first = classes(Ml[:, sub])
        mc = {c for c, _ in mode}
        for j in consts:
            i = live[j]
            if cs[i] in mc or ("c", i) in known:
                continue
            C.add(mode, BIT, cs[i], bs[i], -1, 0, int(first[j]))
            mine_.add(("c", i))
        for members in cl.values():
            aligned = {}
            for j in members:
                i = live[j]
                k = aligned.setdefault(bs[i], j)
                if j == members[0]:
                    continue
                k = members[0] if k == j else k
                r = live[k]
                if ("e", i, r) in known:
                    continue
                C.add(mode, BIT, cs[i], bs[i], cs[r], bs[r], int(first[j] ^ first[k]))
                mine_.add(("e", i, r))
        rs = rows[sub]
        for c in multi:
            if c in mc:
                continue
            x = rs[:, c]
            mx, mn = int(x.max()), int(x.min())
            if mx == mn:
                continue
            dense = len(vals[c]) > 100        # data-like words: ignore bounds that only reflect sampling
            if dense and (mx > 0.8 * int(vals[c][-1]) or n < 50) and mn < 0.2 * int(vals[c][-1]) + int(vals[c][0]):
                continue
            if mx < int(vals[c][-1]) and ("le", c, mx) not in known:
                C.add(mode, LE, c, k=mx)
                mine_.add(("le", c, mx))
            if mn > int(vals[c][0]) and ("ge", c, mn) not in known:
                C.add(mode, GE, c, k=mn)
                mine_.add(("ge", c, mn))
        if len(mode) == 1:
            pd = pairs(mode, rs[:1500], pdone)
            mine_ |= pd
        done_by_single[mode] = mine_
        if len(C) > max_cands:
            break
    return C.freeze()
