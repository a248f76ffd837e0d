"""Mechanical extraction: the elaborated Amaranth design -> transition system over terms.

The input is whatever the *real* constructor and `elaborate()` of the code under verification
return on this run; nothing is written by hand about the design.  Supported: everything
`Fragment.prepare()` leaves for the Amaranth simulator (assignments, switches, slices, parts,
concatenations, array proxies, memories, several clock domains).  Dropped: clock waveforms (a
domain edge is an abstract `tick`), attributes, names, and the domain reset inputs (held at 0)."""
import sys
import warnings
from collections import OrderedDict

from . import term as T

warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)

from amaranth.hdl.ast import (Const, Signal, Operator, Slice, Part, Cat, ArrayProxy, Assign, Switch,
                              Value, SignalSet, SignalDict)
from amaranth.hdl.ir import Fragment, Instance
from amaranth.hdl.xfrm import DomainLowerer


class Unsupported(Exception):
    pass


class DrivenInput(Exception):
    """the code drives what its environment drives"""


class V:
    """a lowered value: term (or None when zero-width) + signedness"""
    __slots__ = ("t", "s", "w")

    def __init__(self, t, s, w):
        self.t, self.s, self.w = t, s, w

    def ext(self, w):
        if w == 0:
            return None
        if self.t is None:
            return T.const(0, w)
        if self.w >= w:
            return T.extract(self.t, 0, w)
        return T.sext(self.t, w) if self.s else T.zext(self.t, w)


class Design:
    def __init__(self, fragment, inputs, missing_ok=True):
        """fragment: prepared Fragment; inputs: list of Signals left free"""
        self.top = fragment
        self.names = SignalDict()
        self._taken = set()
        self.inputs = OrderedDict()     # name -> Signal
        self.regs = OrderedDict()       # name -> (Signal, domain)
        self.init = OrderedDict()
        self.comb_home = SignalDict()   # signal -> fragment
        self.sync_home = []             # (fragment, domain, [signals])
        self.undriven = SignalDict()    # read but neither driven nor input -> name
        self._comb = {}
        self._busy = set()
        self._bitmode = {}
        self.const_signals = SignalSet()
        driven = SignalSet()
        self.domains = OrderedDict()

        def walk(f, path):
            if isinstance(f, Instance) and f.type != "$mem_v2":
                raise Unsupported(f"instance {f.type}")
            for dom, sigs in f.drivers.items():
                if not len(sigs):
                    continue
                for s in sigs:
                    if s in driven:
                        raise Unsupported(f"{s.name} driven twice")
                    driven.add(s)
                if dom is None:
                    for s in sigs:
                        self.comb_home[s] = f
                else:
                    cd = f.domains[dom]
                    if cd.clk_edge != "pos" or cd.async_reset:
                        raise Unsupported("clock domain kind")
                    self.domains.setdefault(id(cd), (cd, dom))
                    self.sync_home.append((f, id(cd), list(sigs)))
            for i, (sub, name) in enumerate(f.subfragments):
                walk(sub, path + (name or f"U{i}",))
        walk(fragment, ())
        self.domnames = {}
        used = set()
        for k, (cd, dom) in self.domains.items():
            n = cd.name
            while n in used:
                n += "_"
            used.add(n)
            self.domnames[k] = n
        for cd, _ in self.domains.values():
            if cd.clk in driven:
                raise Unsupported("derived clock")
            if cd.rst is not None and cd.rst not in driven:
                self.const_signals.add(cd.rst)
        for s in inputs:
            if s in driven:
                raise DrivenInput(f"drives its input {s.name}")
            if len(s) == 0:
                continue
            n = self.name(s)
            self.inputs[n] = s
        for f, dom, sigs in self.sync_home:
            for s in sigs:
                if len(s):
                    n = self.name(s)
                    self.regs[n] = (s, dom)
                    self.init[n] = s.reset & ((1 << len(s)) - 1)
        self.ticks = OrderedDict()
        if len(self.domains) > 1:
            for k in self.domains:
                self.ticks[k] = T.var(f"tick.{self.domnames[k]}", 1)
        self._stmts_for = {}

    def name(self, s):
        if s in self.names:
            return self.names[s]
        base = n = s.name
        i = 1
        while n in self._taken:
            n = f"{base}#{i}"
            i += 1
        self._taken.add(n)
        self.names[s] = n
        return n

    # ---- values ----
    def sig(self, s, env=None):
        w = len(s)
        signed = s.shape().signed
        if w == 0:
            return V(None, signed, 0)
        if env is not None and s.duid in env:
            return V(env[s.duid], signed, w)
        n = self.names.get(s) if s in self.names else None
        if n is not None and (n in self.regs or n in self.inputs):
            return V(T.var(n, w), signed, w)
        if s in self.comb_home:
            return V(self.comb(s), signed, w)
        if s not in self.const_signals and s not in self.undriven:
            self.undriven[s] = True
        return V(T.const(s.reset, w), signed, w)

    def comb(self, s):
        key = s.duid
        if key in self._comb:
            return self._comb[key]
        if key in self._busy:
            raise CombLoop(s)
        self._busy.add(key)
        f = self.comb_home[s]
        stmts = self.filtered(f, None)
        stmts = self.only(stmts, s)
        try:
            env = {s.duid: T.const(s.reset, len(s))}
            self.run(stmts, env, {s.duid})
            r = env[s.duid]
        except CombLoop:
            self._busy.discard(key)
            raise
        self._busy.discard(key)
        self._comb[key] = r
        return r

    def filtered(self, f, dom):
        return f.statements

    def only(self, stmts, s):
        out = []
        for st in stmts:
            if isinstance(st, Assign):
                if s in st.lhs._lhs_signals():
                    out.append(st)
            elif isinstance(st, Switch):
                if s in self.lhs_of(st):
                    out.append(st)
            elif isinstance(st, (list, tuple)) or hasattr(st, "__iter__"):
                out.extend(self.only(st, s))
            else:
                raise Unsupported(f"statement {type(st)}")
        return out

    def lhs_of(self, st):
        k = id(st)
        r = self._stmts_for.get(k)
        if r is None:
            r = SignalSet()
            if isinstance(st, Assign):
                r.update(st.lhs._lhs_signals())
            elif isinstance(st, Switch):
                for c in st.cases.values():
                    for x in c:
                        r.update(self.lhs_of(x))
            else:
                for x in st:
                    r.update(self.lhs_of(x))
            self._stmts_for[k] = r
            self._keep = getattr(self, "_keep", [])
            self._keep.append(st)
        return r

    def val(self, v, env=None):
        """rvalue; env only used for the read-modify-write of partial assignments"""
        if isinstance(v, Const):
            w = len(v)
            return V(T.const(v.value, w) if w else None, v.signed, w)
        if isinstance(v, Signal):
            return self.sig(v, env)
        if isinstance(v, Operator):
            return self.operator(v, env)
        if isinstance(v, Slice):
            a = self.val(v.value, env)
            w = v.stop - v.start
            if w == 0:
                return V(None, False, 0)
            return V(T.extract(a.t, v.start, w), False, w)
        if isinstance(v, Part):
            a = self.val(v.value, env)
            o = self.val(v.offset)
            w = v.width
            if w == 0:
                return V(None, False, 0)
            ww = max(a.w, w)
            x = a.ext(ww)
            return V(T.extract(T.lshr(x, self.offset(o, v.stride)), 0, w), False, w)
        if isinstance(v, Cat):
            ps = [self.val(p, env) for p in v.parts]
            ts = [p.t for p in ps if p.w]
            w = sum(p.w for p in ps)
            return V(T.concat(ts) if ts else None, False, w)
        if isinstance(v, ArrayProxy):
            sh = v.shape()
            idx = self.val(v.index)
            elems = [self.val(Value.cast(e), env) for e in v._iter_as_values()]
            if sh.width == 0 or not elems:
                return V(None, sh.signed, 0)
            ts = [e.ext(sh.width) for e in elems]
            return V(self.select(idx, ts), sh.signed, sh.width)
        raise Unsupported(f"value {type(v)}")

    def offset(self, o, stride):
        if o.t is None:
            return T.const(0, 1)
        if stride == 1:
            return o.t
        w = o.w + stride.bit_length()
        return T.mul(T.zext(o.t, w), T.const(stride, w))

    def select(self, idx, ts):
        if idx.t is None:
            return ts[0]
        n = len(ts)

        def rec(lo, bits):
            # elements [lo, lo + 2**bits)
            if lo >= n:
                return ts[-1]
            if bits == 0:
                return ts[lo]
            h = 1 << (bits - 1)
            return T.ite(T.extract(idx.t, bits - 1, 1), rec(lo + h, bits - 1), rec(lo, bits - 1))
        return rec(0, idx.w)

    def operator(self, v, env):
        op = v.operator
        sh = v.shape()
        w = sh.width
        ops = [self.val(o, env) for o in v.operands]
        R = lambda t: V(t, sh.signed, w)
        if len(ops) == 1:
            a, = ops
            if op in ("u", "s"):
                return V(a.t, op == "s", a.w)
            if op == "b" or op == "r|":
                return R(T.redor(a.t) if a.t is not None else T.const(0, 1))
            if op == "r&":
                return R(T.redand(a.t) if a.t is not None else T.const(1, 1))
            if op == "r^":
                return R(T.redxor(a.t) if a.t is not None else T.const(0, 1))
            if w == 0:
                return V(None, sh.signed, 0)
            if op == "~":
                return R(T.not_(a.ext(w)))
            if op == "-":
                return R(T.sub(T.const(0, w), a.ext(w)))
        elif len(ops) == 2:
            a, b = ops
            if op in ("==", "!=", "<", "<=", ">", ">="):
                ww = max(a.w + (1 if b.s and not a.s else 0), b.w + (1 if a.s and not b.s else 0), 1)
                x, y = a.ext(ww), b.ext(ww)
                signed = a.s or b.s
                lt = T.slt if signed else T.ult
                t = {"==": lambda: T.eq(x, y), "!=": lambda: T.ne(x, y), "<": lambda: lt(x, y),
                     ">": lambda: lt(y, x), "<=": lambda: T.not_(lt(y, x)),
                     ">=": lambda: T.not_(lt(x, y))}[op]()
                return R(t)
            if w == 0:
                return V(None, sh.signed, 0)
            if op in ("+", "-", "*", "&", "|", "^"):
                f = {"+": T.add, "-": T.sub, "*": T.mul, "&": T.and_, "|": T.or_, "^": T.xor_}[op]
                return R(f(a.ext(w), b.ext(w)))
            if op == "<<":
                if b.s:
                    raise Unsupported("signed shift")
                return R(T.shl(a.ext(w), b.ext(b.w) if b.t is not None else T.const(0, 1)))
            if op == ">>":
                if b.s:
                    raise Unsupported("signed shift")
                amt = b.t if b.t is not None else T.const(0, 1)
                ww = max(w, a.w)
                x = a.ext(ww)
                r = T.ashr(x, amt) if a.s else T.lshr(x, amt)
                return R(T.extract(r, 0, w))
            if op in ("//", "%"):
                if not a.s and not b.s:
                    ww = max(a.w, b.w, 1)
                    f = T.udiv if op == "//" else T.urem
                    r = f(a.ext(ww), b.ext(ww))
                    return R(V(r, False, ww).ext(w))
                ww = max(a.w, b.w) + 2
                x, y = a.ext(ww), b.ext(ww)
                z = T.const(0, ww)
                nx, ny = T.slt(x, z), T.slt(y, z)
                ax = T.ite(nx, T.sub(z, x), x)
                ay = T.ite(ny, T.sub(z, y), y)
                q, r = T.udiv(ax, ay), T.urem(ax, ay)
                neg = T.xor_(nx, ny)
                inexact = T.ne(r, z)
                fq = T.ite(neg, T.sub(T.sub(z, q), T.zext(inexact, ww)), q)
                fq = T.ite(T.eq(y, z), z, fq)
                if op == "//":
                    return R(V(fq, True, ww).ext(w))
                fr = T.sub(x, T.mul(fq, y))
                fr = T.ite(T.eq(y, z), z, fr)
                return R(V(fr, True, ww).ext(w))
        elif op == "m":
            sel, a, b = ops
            if w == 0:
                return V(None, sh.signed, 0)
            c = T.redor(sel.t) if sel.t is not None else T.const(0, 1)
            return R(T.ite(c, a.ext(w), b.ext(w)))
        raise Unsupported(f"operator {op}")

    # ---- statements ----
    def run(self, stmts, env, only):
        for st in stmts:
            if isinstance(st, Assign):
                if not any(s.duid in only for s in st.lhs._lhs_signals()):
                    continue
                lw = len(st.lhs)
                if lw == 0:
                    continue
                r = self.val(st.rhs)
                self.assign(st.lhs, r.ext(lw), env, only)
            elif isinstance(st, Switch):
                if not any(s.duid in only for s in self.lhs_of(st)):
                    continue
                test = self.val(st.test)
                branches = []
                taken = T.const(0, 1)
                for pats, body in st.cases.items():
                    if not pats:
                        c = T.const(1, 1)
                    else:
                        c = T.const(0, 1)
                        for p in pats:
                            c = T.or_(c, self.match(test, p))
                    e = dict(env)
                    self.run(body, e, only)
                    branches.append((c, e))
                # merge, last case first
                for s in self.lhs_of(st):
                    s = s.duid
                    if s not in env:
                        continue
                    new = env[s]
                    for c, e in reversed(branches):
                        new = T.ite(c, e[s], new)
                    env[s] = new
            elif hasattr(st, "__iter__"):
                self.run(list(st), env, only)
            else:
                raise Unsupported(f"statement {type(st)}")

    def match(self, test, pat):
        if test.t is None:
            return T.const(1, 1)
        if "-" in pat:
            m = int("".join("0" if b == "-" else "1" for b in pat), 2)
            v = int("".join("0" if b == "-" else b for b in pat), 2)
            r = T.const(1, 1)
            for i in range(test.w):
                if m >> i & 1:
                    b = T.extract(test.t, i, 1)
                    r = T.and_(r, b if v >> i & 1 else T.not_(b))
            return r
        return T.eq(test.t, T.const(int(pat, 2) if pat else 0, test.w))

    def assign(self, lhs, t, env, only):
        """t has width len(lhs)"""
        if isinstance(lhs, Signal):
            if lhs.duid in only and len(lhs):
                env[lhs.duid] = t
        elif isinstance(lhs, Operator) and lhs.operator in ("u", "s"):
            self.assign(lhs.operands[0], t, env, only)
        elif isinstance(lhs, Slice):
            w = lhs.stop - lhs.start
            if w == 0:
                return
            cur = self.lread(lhs.value, env, only)
            if cur is None:
                return
            parts = []
            if lhs.start:
                parts.append(T.extract(cur, 0, lhs.start))
            parts.append(t)
            if lhs.stop < cur.w:
                parts.append(T.extract(cur, lhs.stop, cur.w - lhs.stop))
            self.assign(lhs.value, T.concat(parts), env, only)
        elif isinstance(lhs, Part):
            cur = self.lread(lhs.value, env, only)
            if cur is None:
                return
            o = self.offset(self.val(lhs.offset), lhs.stride)
            ww = max(cur.w, t.w)
            m = T.shl(T.const(T.mask(t.w), ww), o)
            d = T.shl(T.zext(t, ww), o)
            new = T.or_(T.and_(T.zext(cur, ww), T.not_(m)), T.and_(d, m))
            self.assign(lhs.value, T.extract(new, 0, cur.w), env, only)
        elif isinstance(lhs, Cat):
            pos = 0
            for p in lhs.parts:
                n = len(p)
                if n:
                    self.assign(p, T.extract(t, pos, n), env, only)
                pos += n
        elif isinstance(lhs, ArrayProxy):
            idx = self.val(lhs.index)
            elems = list(lhs._iter_as_values())
            n = len(elems)
            signed = lhs.shape().signed
            v = V(t, signed, t.w)
            for i, e in enumerate(elems):
                if not any(s.duid in only for s in e._lhs_signals()):
                    continue
                if idx.t is None:
                    c = T.const(int(i == 0), 1)
                elif i == n - 1:
                    c = T.not_(T.ult(idx.t, T.const(i, idx.w))) if i < (1 << idx.w) else T.const(0, 1)
                    if n == 1:
                        c = T.const(1, 1)
                else:
                    c = T.eq(idx.t, T.const(i, idx.w)) if i < (1 << idx.w) else T.const(0, 1)
                if T.isc(c, 0):
                    continue
                if isinstance(e, Signal):
                    if len(e):
                        env[e.duid] = T.ite(c, v.ext(len(e)), env[e.duid])
                    continue
                ec = dict(env)
                self.assign(e, v.ext(len(e)), ec, only)
                for s in e._lhs_signals():
                    s = s.duid
                    if s in only and s in ec:
                        env[s] = T.ite(c, ec[s], env[s])
        else:
            raise Unsupported(f"lvalue {type(lhs)}")

    def lread(self, v, env, only):
        return self.val(v, env).t

    # ---- result ----
    def build(self):
        self.next = OrderedDict()
        for f, dom, sigs in self.sync_home:
            sigs = [s for s in sigs if len(s)]
            if not sigs:
                continue
            only = {s.duid for s in sigs}
            env = {s.duid: T.var(self.names[s], len(s)) for s in sigs}
            self.run(f.statements, env, only)
            for s in sigs:
                n = self.names[s]
                t = env[s.duid]
                if self.ticks:
                    t = T.ite(self.ticks[dom], t, T.var(n, len(s)))
                self.next[n] = t
        return self

    def width(self, n):
        return len(self.regs[n][0] if n in self.regs else self.inputs[n])


class CombLoop(Exception):
    pass


def extract(elab, inputs, platform=None):
    frag = Fragment.get(elab, platform)
    frag = frag.prepare()
    d = Design(frag, inputs)
    return d.build()
