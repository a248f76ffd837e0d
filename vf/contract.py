"""Contracts on elaborated modules.

A contract is built next to a real instance of the module under verification (`c.dut(...)`): ghost
state and clauses are written in Amaranth over the module's *ports* only, `requires` restricts the
environment per clock cycle, `ensures` must hold in every cycle.  Optional `invariant` clauses and
`aux` terms are hints for the proof; they cannot make a contract weaker."""
import sys
import os
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True

from amaranth import Module, Signal, Const, Mux, Cat, Value, DomainRenamer, ClockDomain  # noqa
from amaranth.hdl.ir import Fragment
from amaranth.hdl.ast import ValueCastable
from amaranth._unused import UnusedMustUse

warnings.filterwarnings("ignore", category=UnusedMustUse)

from . import term as T
from .lower import Design
from .prove import Problem


class Ctx:
    def __init__(self, domain="sync", domains=("sync",)):
        self.m = Module()
        self.domain = domain
        self.inputs = []
        self._req, self._ens, self._hint, self._aux, self._cov = [], [], [], [], []
        self.bias = {}
        self.modes = []
        self.nomine_sigs = []
        self.horizon = 400
        self.auto_vals = 20
        self.assumptions = []
        self.sim_cycles = None
        self.duts = 0
        self.platform = None

    @property
    def comb(self):
        return self.m.d.comb

    @property
    def sync(self):
        return self.m.d[self.domain]

    @comb.setter
    def comb(self, v):
        pass

    @sync.setter
    def sync(self, v):
        pass

    def dut(self, elab, name="dut"):
        setattr(self.m.submodules, name, elab)
        self.duts += 1
        return elab

    def input(self, *sigs, **bias):
        for s in sigs:
            self.inputs.append(s)
            if bias:
                self.bias[id(s)] = bias

    def fresh(self, shape, name, **bias):
        """a free environment input that is not a port (nondeterministic choice / rigid constant)"""
        s = Signal(shape, name=name)
        self.input(s, **bias)
        return s

    def rigid(self, shape, name, **bias):
        """an arbitrary value that never changes (universally quantified)"""
        s = self.fresh(shape, name + "_any", **bias)
        first = Signal(reset=1, name=name + "_first")
        held = Signal(shape, name=name + "_held")
        out = Signal(shape, name=name)
        self.sync += first.eq(0)
        with self.m.If(first):
            self.sync += held.eq(s)
        self.comb += out.eq(Mux(first, s, held))
        return out

    def first(self):
        """high in the first cycle after reset"""
        if not hasattr(self, "_first"):
            self._first = Signal(reset=1, name="g_first_cycle")
            self.sync += self._first.eq(0)
        return self._first

    def ghost(self, name, shape=1, reset=0):
        return Signal(shape, name=name, reset=reset)

    def _clause(self, store, name, expr, prefix):
        s = Signal(name=f"{prefix}_{len(store)}_{name}")
        e = Value.cast(expr)
        self.m.d.comb += s.eq(e.bool() if len(e) != 1 else e)
        store.append((name, s))

    def require(self, name, expr):
        self._clause(self._req, name, expr, "req")

    def ensure(self, name, expr):
        self._clause(self._ens, name, expr, "ens")

    def invariant(self, name, expr):
        self._clause(self._hint, "hint:" + name, expr, "inv")

    def cover(self, name, expr):
        self._clause(self._cov, name, expr, "cov")

    def aux(self, name, expr):
        e = Value.cast(expr)
        s = Signal(e.shape(), name="aux_" + name)
        self.m.d.comb += s.eq(e)
        self._aux.append(("aux:" + name, s))

    def mode(self, *sigs):
        self.modes += sigs

    def assume_note(self, text):
        self.assumptions.append(text)

    def implies(self, a, b):
        return ~Value.cast(a).bool() | Value.cast(b).bool()

    # ------------------------------------------------------------------
    def lower(self):
        self.m.domains_ = None
        frag = Fragment.get(self.m, self.platform).prepare()
        self.fragment = frag
        d = Design(frag, self.inputs).build()
        self.design = d
        get = lambda s: d.sig(s).t
        reg_w = {n: len(s) for n, (s, _) in d.regs.items()}
        in_w = {n: len(s) for n, s in d.inputs.items()}
        for k, t in d.ticks.items():
            in_w[t.p] = 1
        bias = {}
        for n, s in d.inputs.items():
            if id(s) in self.bias:
                bias[n] = self.bias[id(s)]
        aux = []
        for n, s in self._aux:
            t = d.sig(s).t
            if t is not None and all(x.op != "var" or x.p in reg_w for x in T.topo([t])):
                aux.append((n, t))
        hints = []
        for n, s in self._hint:
            t = get(s)
            if all(x.op != "var" or x.p in reg_w for x in T.topo([t])):
                hints.append((n, t))
            else:
                raise ValueError(f"hint {n} depends on inputs")
        p = Problem(reg_w, in_w, dict(d.init), d.next,
                    [(n, get(s)) for n, s in self._req], [(n, get(s)) for n, s in self._ens],
                    hints, aux, [(n, get(s)) for n, s in self._cov], bias,
                    nomine=[d.names[s] for s in self.nomine_sigs if s in d.names],
                    mode_names=[d.names[s] for s in self.modes if not isinstance(s, str) and s in d.names] + ["aux:" + m for m in self.modes if isinstance(m, str)],
                    horizon=self.horizon)
        p.auto_vals = self.auto_vals
        p.whole_words = getattr(self, "whole_words", False)
        p.mode_cap = getattr(self, "mode_cap", 256)
        p.narrow, p.plain = getattr(self, "narrow", 4), getattr(self, "plain", False)
        if getattr(self, "split_on", None) is not None:
            p.split = d.names[self.split_on]
            p.split_in = [n for n, x in d.inputs.items() if any(x is y for y in getattr(self, "split_inputs", ()))]
        self.undriven = [s.name for s in d.undriven]
        full = len(p.reg_w)
        self.all_regs = dict(p.reg_w), dict(p.next), dict(p.init)
        p.cone()
        self.problem = p
        self.reg_counts = (full, len(p.reg_w))
        return p
