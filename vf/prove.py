"""Discharging the obligations of one contract instance.

Obligations (Inv = conjunction of the invariants kept by Houdini; all are SMT queries over the
extracted transition system, unbounded in time and over all inputs):
   init   : initial state satisfies Inv (and the first k-1 steps, for k-induction with k > 1)
   step   : Inv & requires & ensures, k consecutive steps  =>  Inv afterwards
   ensures: the same                                        =>  every ensures clause
"""
import os
import time
from collections import OrderedDict

import numpy as np
import z3

from . import term as T
from .csim import CSim
from .mine import Columns, Cands, mine, BIT
from . import arith


class Result:
    def __init__(self):
        self.status = "unknown"      # proved | violated | unknown
        self.trace = None
        self.ens = None
        self.stats = {}
        self.invariants = []
        self.k = 0
        self.note = ""


class Problem:
    def __init__(self, reg_w, in_w, init, nxt, requires, ensures, hints=(), aux=(), covers=(),
                 bias=None, nomine=(), mode_names=(), horizon=400):
        self.reg_w, self.in_w, self.init, self.next = reg_w, in_w, init, nxt
        self.requires = [t for _, t in requires]
        self.require_names = [n for n, _ in requires]
        self.ens_names = [n for n, _ in ensures]
        self.ensures = [t for _, t in ensures]
        self.hints = list(hints)     # (name, term)
        self.aux = list(aux)         # (name, term)
        self.covers = list(covers)   # (name, term)
        self.bias = bias or {}
        self.nomine = set(nomine)
        self.mode_names = set(mode_names)
        self.horizon = horizon
        self.auto_vals = 20
        self.split = None            # register whose values are handled one by one
        self.whole_words = False
        self.narrow = 4
        self.mode_cap = 256
        self.plain = False
        self.split_in = []           # inputs whose values are
        self.arith = False

    def cone(self):
        """drop registers outside the cone of requires/ensures/hints/aux"""
        need, work = set(), []
        roots = self.requires + self.ensures + [t for _, t in self.hints] + [t for _, t in self.covers]
        roots += [t for n, t in self.aux if n in self.mode_names]
        seen = set()
        stack = list(roots)
        while stack:
            for t in T.topo(stack):
                if t.op == "var" and t.p in self.reg_w and t.p not in need:
                    need.add(t.p)
                    work.append(t.p)
            stack = [self.next[n] for n in work]
            work = []
            if not stack:
                break
        self.reg_w = OrderedDict((n, w) for n, w in self.reg_w.items() if n in need)
        self.next = OrderedDict((n, self.next[n]) for n in self.reg_w)
        self.init = OrderedDict((n, self.init[n]) for n in self.reg_w)
        self.aux = [(n, t) for n, t in self.aux if all(v.op != "var" or v.p in need for v in T.topo([t]))]


def solver(seed=0, timeout=None):
    s = z3.SolverFor("QF_FD")
    if timeout:
        s.set("timeout", int(timeout * 1000))
    return s


class Unroller:
    """z3 copies of the transition relation: frame 0 has free state variables"""

    def __init__(self, p, frames, init=False):
        self.p = p
        self.frames = []
        self.defs = []
        state = {}
        for n, w in p.reg_w.items():
            v = z3.Bool(f"{n}@0") if w == 1 else z3.BitVec(f"{n}@0", w)
            state[n] = v
            if init:
                self.defs.append(v == (bool(p.init[n]) if w == 1 else z3.BitVecVal(p.init[n], w)))
        self.init = init
        self.push(state)
        for _ in range(frames):
            self.step()

    def push(self, state):
        i = len(self.frames)
        ins = {n: (z3.Bool(f"{n}@i{i}") if w == 1 else z3.BitVec(f"{n}@i{i}", w)) for n, w in self.p.in_w.items()}
        m = dict(state)
        m.update(ins)
        self.frames.append((state, ins, T.ToZ3(z3, lambda name, w, m=m: m[name])))

    def step(self):
        i = len(self.frames)
        conv = self.frames[-1][2]
        state, new = {}, []
        for n, w in self.p.reg_w.items():
            v = z3.Bool(f"{n}@{i}") if w == 1 else z3.BitVec(f"{n}@{i}", w)
            new.append(v == conv(self.p.next[n]))
            state[n] = v
        self.defs += new
        self.push(state)
        return new

    def t(self, frame, term):
        return self.frames[frame][2](term)

    def state_of(self, model, frame):
        out = {}
        for n, w in self.p.reg_w.items():
            v = model.eval(self.frames[frame][0][n], model_completion=True)
            out[n] = int(z3.is_true(v)) if w == 1 else v.as_long()
        return out

    def inputs_of(self, model, frame):
        out = {}
        for n, w in self.p.in_w.items():
            v = model.eval(self.frames[frame][1][n], model_completion=True)
            out[n] = int(z3.is_true(v)) if w == 1 else v.as_long()
        return out


class Prover:
    def __init__(self, p, seed=1, budget=60.0, slack=0.0, log=None, kmax=3, tiers=(1, 2), sim_cycles=400000, only_simulate=False):
        self.p, self.seed = p, seed
        self.t0 = time.time()
        self.nominal = budget                      # the usual time; a slow proof may take longer (slack), a hunt for a counterexample may not
        self.deadline = self.t0 + budget + slack
        self.kmax, self.tiers = kmax, tiers
        self.sim_cycles = sim_cycles
        self.only_simulate = only_simulate
        self.log = log or (lambda *a: None)
        self.res = Result()
        self.st = self.res.stats
        self.st.update(queries=0, solver_s=0.0, sim_cycles=0)

    def left(self):
        return self.deadline - time.time()

    def check(self, s, *a, limit=1e9):
        t = time.time()
        s.set("timeout", max(1000, int(1000 * min(limit, self.left()))))
        r = s.check(*a)
        self.st["solver_s"] += time.time() - t
        self.st["queries"] += 1
        return r

    # ------------------------------------------------------------------
    def run(self):
        p = self.p
        for t in p.ensures:
            assert t.w == 1
        aux = p.aux + p.hints
        t = time.time()
        self.sim = CSim(p, p.requires, p.ensures, aux, [c for _, c in p.covers], p.bias)
        self.st["compile_s"] = round(time.time() - t, 2)
        if self.falsify(self.sim_cycles):
            return self.res
        self.terms = {n: T.var(n, w) for n, w in p.reg_w.items()}
        self.terms.update(dict(aux))
        self.cols = Columns(self.sim, self.terms)
        self.nextev = T.Evaluator([p.next[n] for n in p.reg_w])
        p.arith = not p.plain and p.split is not None or not p.plain and any(t.op == "mul" for t in T.topo(p.ensures + list(p.next.values())))
        arith.reset()
        if self.only_simulate:
            i = 0
            while time.time() < self.t0 + self.nominal:
                i += 1
                if self.falsify_more(i):
                    return self.res
            self.res.status = "bounded"
            return self.res
        self.collect()
        self.best = None
        for rnd in range(2):
            for tier in self.tiers:
                if self.left() < 2:
                    break
                if self.attempt(tier):
                    self.res.status = "proved"
                    return self.res
                if self.res.status == "violated":
                    return self.res
            # a proof can fail because sampling missed something: look for a counterexample, then
            # retry once with fresh samples
            if rnd == 0:
                if self.hunt(0.35 * self.nominal):
                    return self.res
                self.seed += 101
                old = self.rows
                self.collect()
                self.rows = np.unique(np.concatenate([old, self.rows]), axis=0)
        self.hunt(min(self.left(), 0.5 * self.nominal))
        return self.res

    def falsify_more(self, i):
        L = self.p.horizon * (1, 2, 4)[i % 3]
        r = self.sim.run(self.seed * 5151 + i, max(self.sim_cycles, 2 * L), L, ncover=len(self.p.covers))
        self.st["sim_cycles"] += r["cycles"]
        for (n, _), c in zip(self.p.covers, r["cover"]):
            self.st["cover"][n] += int(c)
        if r["viol"]:
            self.violated(r["trace"], r["ens"])
        return r["viol"]

    def falsify(self, cycles, starts=None):
        p = self.p
        H = p.horizon
        best = None
        plan = [(H, 0.5), (max(8, H // 8), 0.25), (H * 4, 0.25)]
        cov = np.zeros(max(1, len(p.covers)), dtype=np.uint64)
        dead = eps = 0
        for i, (L, f) in enumerate(plan):
            left = max(int(cycles * f), 4 * L)
            r = self.sim.run(self.seed * 1000 + i, left, L, ncover=len(p.covers))
            if len(p.covers):
                cov += r["cover"]
            self.st["sim_cycles"] += r["cycles"]
            dead += r["dead"]
            eps += r["episodes"]
            if r["viol"]:
                best = r
                break
        self.st["cover"] = {n: int(c) for (n, _), c in zip(p.covers, cov)}
        self.st["dead_episodes"], self.st["episodes"] = dead, eps
        if best:
            for j in range(6):
                if best["len"] <= 3:
                    break
                r = self.sim.run(self.seed * 7777 + j, min(cycles, 300000), max(1, best["len"] - 1))
                if not r["viol"]:
                    break
                best = r
            self.violated(best["trace"], best["ens"])
            return True
        return False

    def violated(self, trace, ens):
        self.res.status = "violated"
        self.res.trace = trace
        self.res.ens = self.p.ens_names[ens] if isinstance(ens, int) else ens

    def collect(self):
        p = self.p
        rows = [self.sim.run(1, 1, 1, rowcap=1)["rows"]]
        for i, (L, n) in enumerate([(p.horizon, 200000), (40, 60000), (p.horizon * 4, 100000)]):
            r = self.sim.run(self.seed * 31 + 5 + i, max(n, 3 * L, 800 * p.horizon if i == 0 else 0), L, rowcap=(14000, 6000, 7000)[i])
            self.st["sim_cycles"] += r["cycles"]
            if r["viol"]:
                continue
            rows.append(r["rows"])
        self.rows = np.concatenate(rows) if rows else np.zeros((0, self.sim.nrow), np.uint64)
        self.rows = np.unique(self.rows, axis=0) if len(self.rows) else self.rows
        self.st["sampled_states"] = int(len(self.rows))

    # ------------------------------------------------------------------
    def attempt(self, tier):
        p = self.p
        t = time.time()
        c = mine(self.cols, self.rows, tier=tier, nomine=p.nomine,
                 hint_cols=[n for n, _ in p.hints], mode_names=p.mode_names, auto_vals=p.auto_vals, mode_cap=p.mode_cap)
        self.st[f"mined_t{tier}"] = len(c)
        # initial state must satisfy candidates
        init = self.sim.encode_state(p.init)
        self.hintcols = {ci: n for ci, (n, _, _) in enumerate(self.cols.col) if n in {h for h, _ in p.hints}}
        ini = self.sim.run(1, 1, 1, rowcap=1)["rows"]
        if p.whole_words:
            c = c.whole_words(self.cols, self.rows, set(self.hintcols), p.nomine, narrow=p.narrow, modes=p.whole_words == "modes", mode_names=p.mode_names)
        c = c.take(self.sim.holds(c.a, ini))
        # further sampling rounds; when they refute many candidates these states join the sample and mining is repeated
        for i in range(3):
            r = self.sim.run(self.seed * 77 + i, max(300000, 800 * p.horizon), p.horizon * (1, 2, 6)[i], rowcap=20000)
            n = len(c)
            c2 = c.take(self.sim.holds(c.a, r["rows"]))
            if os.environ.get("VFDEBUG"):
                self.log(f"round {i}: {n} -> {len(c2)}")
            c = c2
        left = {int(x) for x, y, b in zip(c.a["ca"], c.a["ty"], c.a["cb"]) if y == 0 and b < 0}
        for ci, n in self.hintcols.items():
            if ci not in left:
                bad = self.rows[self.rows[:, ci] == 0]
                self.log("hint contradicted by samples:", n, {self.cols.col[j][0]: int(v) for j, v in enumerate(bad[0]) if v} if len(bad) else "")
        self.log(f"tier {tier}: {len(c)} candidates {time.time() - t:.1f}s")
        if any(T.isc(e, 0) for e in p.ensures):
            return False
        ok_k = None
        c = self.houdini_arith(c) if p.arith else self.houdini(c, 1)
        if c is None:
            return False
        if p.arith:
            r = self.final_arith(c)
            if r:
                self.res.k = 1
                self.res.invariants = [c.describe(self.cols, i) for i in range(len(c))]
                self.st["invariants"] = len(c)
                self.inv = c
            else:
                self.best = c
            return bool(r)
        for k in range(1, self.kmax + 1):
            if self.left() < 1:
                return False
            if k > 1:
                # candidates re-filtered k-inductively is not attempted: Inv is 1-inductive
                pass
            r = self.final(c, k)
            if r is True:
                self.res.k = k
                self.res.invariants = [c.describe(self.cols, i) for i in range(len(c))]
                self.st["invariants"] = len(c)
                self.inv = c
                return True
            if r is None:
                return False
        self.best = c
        return False

    def houdini(self, c, k):
        p = self.p
        t = time.time()
        u = Unroller(p, 1)
        s = solver()
        for d in u.defs:
            s.add(d)
        for r in p.requires:
            s.add(u.t(0, r))
        for e in p.ensures:
            s.add(u.t(0, e))
        n = len(c)
        terms = [c.term(self.cols, i) for i in range(n)]
        A = [z3.Bool(f"a!{i}") for i in range(n)]
        B = [z3.Bool(f"b!{i}") for i in range(n)]
        for i in range(n):
            s.add(z3.Implies(A[i], u.t(0, terms[i])))
            s.add(z3.Implies(B[i], z3.Not(u.t(1, terms[i]))))
        if n == 0:
            return c
        s.add(z3.Or(B))
        alive = np.ones(n, dtype=bool)
        it = 0
        while True:
            if self.left() < 1:
                self.log("houdini timeout")
                return None
            r = self.check(s, [A[i] for i in np.flatnonzero(alive)])
            it += 1
            if r == z3.unsat:
                break
            if r != z3.sat:
                self.log("houdini unknown")
                return None
            m = s.model()
            env0 = u.state_of(m, 0)
            env1 = u.state_of(m, 1)
            row1 = self.full_row(env1)
            rows = [row1]
            # every state reached from this one refutes more candidates
            rows = np.concatenate([row1[None, :], self.sim.succ(self.seed + it, env0, 24),
                                   self.sim.walk(self.seed + it, row1, 12, 40)])
            idx = np.flatnonzero(alive)
            ok = self.sim.holds(c.take(idx).a, rows)
            drop = idx[~ok]
            if not len(drop):
                self.log("houdini: model drops nothing", it)
                # evaluation mismatch: fall back on the solver's own choice
                drop = np.array([i for i in idx if z3.is_true(m.eval(B[i]))])
                if not len(drop):
                    return None
            alive[drop] = False
            for i in drop:
                h = self.hintcols.get(int(c.a["ca"][i]))
                if h:
                    self.log(f"hint dropped in iteration {it}: {h}")
            if os.environ.get("VFDEBUG") and it <= int(os.environ["VFDEBUG"]):
                print(f"-- CTI {it}: drops {len(drop)} (1 step: {int((~self.sim.holds(c.take(idx).a, row1[None, :])).sum())})", {n: v for n, v in env0.items() if v})
                print("   inputs", {n: v for n, v in u.inputs_of(m, 0).items() if v})
                print("   post", {n: v for n, v in env1.items() if env0[n] != v})
                for i in (idx[~self.sim.holds(c.take(idx).a, row1[None, :])][:12] if int(os.environ["VFDEBUG"]) < 1000 else drop):
                    print("     ", c.describe(self.cols, i))
            for i in drop:
                s.add(z3.Not(B[i]))
        self.log(f"houdini: {n} -> {int(alive.sum())} in {it} iterations {time.time() - t:.1f}s solver {self.st['solver_s']:.1f}")
        self.st["houdini_iterations"] = self.st.get("houdini_iterations", 0) + it
        return c.take(alive)

    # -- arithmetic problems: equalities of the invariant are substituted, terms brought to a
    #    polynomial normal form, and the values of one register (split) handled one by one
    def cases(self):
        p = self.p
        if not p.split:
            return [None]
        ins = [()]
        for n in p.split_in:
            ins = [x + (v,) for x in ins for v in range(1 << p.in_w[n])]
        return [(v, x) for v in range(1 << p.reg_w[p.split]) for x in ins]

    def merge(self, c, alive, case, skip=()):
        """substitution given by the alive bit equalities; and the candidates it relies on"""
        cols, a = self.cols, c.a
        parent = {}

        def find(x):
            par = 0
            path = []
            while parent.get(x, (x, 0))[0] != x:
                y, q = parent[x]
                path.append(x)
                par ^= q
                x = y
            return x, par

        def union(x, y, k):
            (rx, px), (ry, py) = find(x), find(y)
            if rx == ry:
                return
            if rx > ry:
                rx, px, ry, py = ry, py, rx, px
            parent[ry] = (rx, px ^ py ^ k)
        ONE = (-1, 0)
        used = []
        regs = self.p.reg_w
        cname = [n for n, _, _ in cols.col]
        splitcol = next((i for i, n in enumerate(cname) if n == self.p.split), None)
        for i in np.flatnonzero(alive):
            if a["ty"][i] != BIT:
                continue
            m1, m2 = int(a["m1"][i]), int(a["m2"][i])
            if m2 >= 0 or (m1 >= 0 and (m1 != splitcol or int(a["v1"][i]) != case)):
                continue
            ca, cb = int(a["ca"][i]), int(a["cb"][i])
            if cname[ca] not in regs or (cb >= 0 and cname[cb] not in regs):
                continue
            if cname[ca] in skip or cb >= 0 and cname[cb] in skip:
                if m1 >= 0 or cb < 0 or ca == cb or a["ba"][i] != a["bb"][i]:
                    continue
            x = (ca, int(a["ba"][i]))
            y = (cb, int(a["bb"][i])) if cb >= 0 else ONE
            union(x, y, int(a["k"][i]) ^ (1 if cb < 0 else 0))     # ONE stands for the constant 1
            used.append(i)
        if case is not None:
            w = regs[self.p.split]
            for b in range(w):
                r, _ = find((splitcol, b))
                if r == ONE and find((splitcol, b))[1] != 1 ^ (case >> b & 1):
                    return None, used          # this value contradicts the invariants
                union((splitcol, b), ONE, 1 ^ (case >> b & 1))
        env = {}
        chunks = {}
        for ci, (n, off, w) in enumerate(cols.col):
            if n in regs:
                chunks.setdefault(n, []).append((off, ci, w))
        for n, ch in chunks.items():
            bits = []
            changed = False
            for off, ci, w in sorted(ch):
                for b in range(w):
                    r, k = find((ci, b))
                    changed |= r != (ci, b)
                    bits.append((r, k))
            if not changed:
                continue

            def bit(r, k):
                if r == ONE:
                    return T.const(1 ^ k, 1)
                t = cols.bit(*r)
                return T.not_(t) if k else t
            top = len(bits)
            while top > 1 and bits[top - 2] == bits[-1]:
                top -= 1
            env[n] = T.sext(T.concat([bit(r, k) for r, k in bits[:top]]), len(bits))
        return env, used

    def rewritten(self, terms, env):
        t = T.subst(terms, env)
        n = arith.norm(t)
        arith.check(t, n)
        return n

    def case_context(self, c, alive, case):
        p = self.p
        case, ins = case or (None, ())
        names = list(p.reg_w)
        idx = list(np.flatnonzero(alive))
        # registers for which a hint gives an equation in this case: their bits are not equated one by one
        given = set()
        if case is not None:
            hints = [self.ct[i] for i in idx if self.cols_hint(c, i)]
            for h in T.subst(hints, {p.split: T.const(case, p.reg_w[p.split])}):
                if h.op == "eq":
                    given |= {x.p for x in h.args if x.op == "var"}
        env, used = self.merge(c, alive, case, given)
        if env is None:
            return None
        env.update({n: T.const(v, p.in_w[n]) for n, v in zip(p.split_in, ins)})
        roots = [p.next[n] for n in names] + p.requires + p.ensures + [self.ct[i] for i in idx]
        out = self.rewritten(roots, env)
        # hints that became equations `register == term` are substituted as well
        eqs = {}
        for i, h in zip(idx, out[-len(idx):] if idx else []):
            if int(self.cols_hint(c, i)) and h.op == "eq":
                for v, t in (h.args, h.args[::-1]):
                    if v.op != "var" or v.p not in p.reg_w or v.p in eqs or v.p in env or t.op == "var":
                        continue
                    sup = {x.p for x in T.topo([t]) if x.op == "var"}
                    if v.p in sup or sup & set(eqs) or any(v.p in {x.p for x in T.topo([q]) if x.op == "var"} for q in eqs.values()):
                        continue
                    eqs[v.p] = t
                    used.append(i)
                    break
        for r in out[len(names):len(names) + len(p.requires)]:     # preconditions that became literals
            v, k = (r.args[0], 0) if r.op == "not" else (r, 1)
            if v.op == "var" and v.w == 1 and v.p not in eqs and v.p not in env and \
                    not any(v.p in {x.p for x in T.topo([q]) if x.op == "var"} for q in eqs.values()):
                eqs[v.p] = T.const(k, 1)
        if eqs:
            env = {n: T.subst([t], eqs)[0] for n, t in env.items()}
            env.update(eqs)
            out = self.rewritten(roots, env)
        k = len(names)
        nxt = dict(zip(names, out[:k]))
        req, ens = out[k:k + len(p.requires)], out[k + len(p.requires):k + len(p.requires) + len(p.ensures)]
        return env, set(int(i) for i in used), nxt, req, ens, dict(zip(idx, out[k + len(p.requires) + len(p.ensures):]))

    def cols_hint(self, c, i):
        return int(c.a["ca"][i]) in self.hintcols

    def houdini_arith(self, c):
        p = self.p
        t0 = time.time()
        n = len(c)
        self.ct = [c.term(self.cols, i) for i in range(n)]
        alive = np.ones(n, dtype=bool)
        it = passes = 0
        clean, order = 0, self.cases()
        pos = 0
        while clean < len(order):
            case = order[pos]
            pos = (pos + 1) % len(order)
            passes += 1
            rebuild = True
            dropped = False
            while rebuild:
                rebuild = False
                if self.left() < 1:
                    self.log("houdini timeout")
                    return None
                cc = self.case_context(c, alive, case)
                if cc is None:
                    break
                env, used, nxt, req, ens, hyp = cc
                if any(T.isc(h, 0) for h in hyp.values()) or any(T.isc(x, 0) for x in req + ens):
                    break                                          # the invariants exclude this value
                conv = T.ToZ3(z3)
                post = T.ToZ3(z3, lambda nme, w: z3.Bool(nme + "@1") if w == 1 else z3.BitVec(nme + "@1", w))
                s = solver()
                idx = [int(i) for i in np.flatnonzero(alive)]
                goals = {}
                for i in idx:
                    g = T.subst([self.ct[i]], nxt)[0]
                    if not T.isc(g, 1):
                        g = arith.norm([g])[0]
                        if not T.isc(g, 1):
                            goals[i] = g
                if os.environ.get("VFGOALS"):
                    self.log(f"case {case}: {len(goals)} goals, {len(T.topo(list(goals.values())))} nodes",
                             [c.describe(self.cols, i) for i, g in goals.items()][:6], round(self.left(), 1))
                if not goals:
                    break
                for x in req + ens:
                    s.add(conv(x))
                A = {i: z3.Bool(f"a!{i}") for i in idx if not T.isc(hyp[i], 1)}
                for i in A:
                    s.add(z3.Implies(A[i], conv(hyp[i])))
                B = {i: z3.Bool(f"b!{i}") for i in goals}
                for i, g in goals.items():
                    s.add(z3.Implies(B[i], z3.Not(conv(g))))
                s.add(z3.Or(list(B.values())))
                # candidates that stay nonlinear are given up when the solver does not decide them quickly
                hard = [i for i, g in goals.items() if not self.cols_hint(c, i) and any(t.op == "mul" for t in T.topo([g]))]
                while True:
                    if self.left() < 1:
                        self.log("houdini timeout")
                        return None
                    r = self.check(s, [A[i] for i in A if alive[i]], limit=0.1 * self.left() if hard else 1e9)
                    it += 1
                    if r == z3.unsat:
                        break
                    if r == z3.unknown and any(alive[i] for i in hard):
                        self.log(f"gave up {len(hard)} nonlinear candidates")
                        alive[hard] = False
                        dropped = True
                        for i in hard:
                            s.add(z3.Not(B[i]))
                        if used & set(hard):
                            rebuild = True
                            break
                        continue
                    if r != z3.sat:
                        self.log("houdini unknown")
                        return None
                    m = s.model()
                    val = {}
                    for nme, w in {**p.reg_w, **p.in_w}.items():
                        v = m.eval(z3.Bool(nme) if w == 1 else z3.BitVec(nme, w), model_completion=True)
                        val[nme] = int(z3.is_true(v)) if w == 1 else v.as_long()
                    for nme, x in zip(env, T.Evaluator(list(env.values()))(val)):
                        val[nme] = x
                    st1 = dict(zip(p.reg_w, self.nextev(val)))
                    row1 = self.full_row(st1)
                    env0 = {k: val[k] for k in p.reg_w}
                    rows = np.concatenate([row1[None, :], self.sim.succ(self.seed + it, env0, 24), self.sim.walk(self.seed + it, row1, 12, 40)])
                    aidx = np.flatnonzero(alive)
                    drop = aidx[~self.sim.holds(c.take(aidx).a, rows)]
                    if not len(drop):
                        self.log("houdini: model drops nothing")
                        drop = np.array([i for i in B if alive[i] and z3.is_true(m.eval(B[i]))])
                        if not len(drop):
                            return None
                    alive[drop] = False
                    dropped = True
                    for i in drop:
                        h = self.hintcols.get(int(c.a["ca"][i]))
                        if h:
                            self.log(f"hint dropped in iteration {it}: {h}")
                        if int(i) in B:
                            s.add(z3.Not(B[int(i)]))
                    if os.environ.get("VFDEBUG") and it <= int(os.environ["VFDEBUG"]):
                        print(f"-- CTI {it} case {case}: drops {len(drop)}", {a: b for a, b in env0.items() if b})
                        print("   post", {a: b for a, b in st1.items() if env0[a] != b})
                        for i in drop[:12]:
                            print("     ", c.describe(self.cols, int(i)))
                    if used & set(int(i) for i in drop):
                        rebuild = True
                        break
            clean = 0 if dropped else clean + 1
        self.log(f"houdini: {n} -> {int(alive.sum())} in {it} iterations, {passes} cases {time.time() - t0:.1f}s solver {self.st['solver_s']:.1f}")
        self.st["houdini_iterations"] = self.st.get("houdini_iterations", 0) + it
        return c.take(alive)

    def final_arith(self, c):
        p = self.p
        self.ct = [c.term(self.cols, i) for i in range(len(c))]
        alive = np.ones(len(c), dtype=bool)
        live = 0
        for case in self.cases():
            cc = self.case_context(c, alive, case)
            if cc is None:
                continue
            env, used, nxt, req, ens, hyp = cc
            conv = T.ToZ3(z3)
            s = solver()
            for x in req + list(hyp.values()):
                s.add(conv(x))
            s.push()
            s.add(z3.Or([z3.Not(conv(e)) for e in ens]))
            r = self.check(s)
            if r == z3.sat:
                m = s.model()
                val = {}
                for nme, w in {**p.reg_w, **p.in_w}.items():
                    v = m.eval(z3.Bool(nme) if w == 1 else z3.BitVec(nme, w), model_completion=True)
                    val[nme] = int(z3.is_true(v)) if w == 1 else v.as_long()
                for nme, x in zip(env, T.Evaluator(list(env.values()))(val)):
                    val[nme] = x
                self.cti = [({k: val[k] for k in p.reg_w}, {k: val[k] for k in p.in_w})]
                self.cti_ens = [nme for nme, e in zip(p.ens_names, T.Evaluator(p.ensures)(val)) if not e]
                self.log("cti", case, self.cti_ens)
                if os.environ.get("VFDEBUG"):
                    for a, b in self.cti:
                        print("   ", {n: v for n, v in a.items() if v}, "IN", {n: v for n, v in b.items() if v})
            if r != z3.unsat:
                return False
            s.pop()
            live += self.check(s) == z3.sat
        if not live:
            self.log("vacuous hypotheses")
            self.res.note = "vacuous"
            return False
        # base case: evaluation (the initial state is a single state)
        ini = dict(p.init)
        out = T.subst(p.requires + p.ensures + self.ct, {k: T.const(v, p.reg_w[k]) for k, v in ini.items()})
        conv = T.ToZ3(z3)
        s = solver()
        nr = len(p.requires)
        for x in out[:nr]:
            s.add(conv(x))
        s.add(z3.Or([z3.Not(conv(x)) for x in out[nr:] if not T.isc(x, 1)] or [z3.BoolVal(False)]))
        return self.check(s) == z3.unsat

    def full_row(self, env):
        # compute aux columns through the compiled simulator (0-step): store_row after load
        row = self.sim.encode_state(env)
        if self.p.aux or self.p.hints:
            ev = getattr(self, "_auxev", None)
            if ev is None:
                self._auxnames = [n for n, _ in self.p.aux + self.p.hints]
                ev = self._auxev = T.Evaluator([t for _, t in self.p.aux + self.p.hints])
            for n, v in zip(self._auxnames, ev(env)):
                o = self.sim.coloff[n]
                w = self.terms[n].w
                for k in range((w + 63) // 64):
                    row[o + k] = (v >> (64 * k)) & (2**64 - 1)
        return row

    def final(self, c, k):
        """k-induction of the ensures clauses under Inv; returns True/False/None(unknown)"""
        p = self.p
        u = Unroller(p, k - 1)
        s = solver()
        for d in u.defs:
            s.add(d)
        for i in range(len(c)):
            s.add(u.t(0, c.term(self.cols, i)))
        for f in range(k):
            for r in p.requires:
                s.add(u.t(f, r))
            if f < k - 1:
                for e in p.ensures:
                    s.add(u.t(f, e))
        bad = z3.Or([z3.Not(u.t(k - 1, e)) for e in p.ensures]) if p.ensures else z3.BoolVal(False)
        s.push()
        s.add(bad)
        r = self.check(s)
        if r == z3.sat:
            m = s.model()
            self.cti = [(u.state_of(m, f), u.inputs_of(m, f)) for f in range(k)]
            self.cti_ens = [n for n, e in zip(p.ens_names, p.ensures) if z3.is_false(m.eval(u.t(k - 1, e), model_completion=True))]
            self.log("cti", self.cti_ens)
            if os.environ.get("VFDEBUG"):
                for a, b in self.cti:
                    print("   ", {n: v for n, v in a.items() if v}, "IN", {n: v for n, v in b.items() if v})
            return False
        if r != z3.unsat:
            return None
        s.pop()
        # vacuity: the hypotheses must be satisfiable
        if self.check(s) != z3.sat:
            self.log("vacuous hypotheses")
            self.res.note = "vacuous"
            return None
        # base case
        if k > 1 or True:
            b = Unroller(p, k - 1, init=True)
            s = solver()
            for d in b.defs:
                s.add(d)
            for f in range(k):
                for r in p.requires:
                    s.add(b.t(f, r))
                s.push()
                goals = [z3.Not(b.t(f, e)) for e in p.ensures]
                if f == 0:
                    goals += [z3.Not(b.t(0, c.term(self.cols, i))) for i in range(len(c))]
                s.add(z3.Or(goals) if goals else z3.BoolVal(False))
                r = self.check(s)
                if r == z3.sat:
                    m = s.model()
                    trace = [b.inputs_of(m, g) for g in range(f + 1)]
                    bade = [n for n, e in zip(p.ens_names, p.ensures) if z3.is_false(m.eval(b.t(f, e), model_completion=True))]
                    if bade:
                        self.violated(trace, bade[0])
                    return None
                if r != z3.unsat:
                    return None
                s.pop()
        return True

    # ------------------------------------------------------------------
    def hunt(self, budget):
        """proof failed: look for a real counterexample (bounded unrolling from reset, then from
        sampled reachable states, then longer random simulation)"""
        p = self.p
        self.log("hunting")
        end = time.time() + budget
        left = lambda: min(self.left(), end - time.time())
        if self.bmc(p.init, [], 24, min(left() * 0.3, 40)):
            return True
        if left() > 2 and self.falsify(self.sim_cycles * 5):
            return True
        # from states reached by simulation
        rng = np.random.default_rng(self.seed)
        while left() > 3:
            trace = self.random_trace(int(rng.integers(5, p.horizon)), int(rng.integers(1 << 30)))
            if not trace:
                return False
            rep = self.sim.replay(trace, rows=True)
            row = rep["rows"][len(trace)]
            env = {}
            for n, w in p.reg_w.items():
                o = self.sim.coloff[n]
                v = 0
                for kk in range((w + 63) // 64):
                    v |= int(row[o + kk]) << (64 * kk)
                env[n] = v
            if self.bmc(env, trace, 10, min(left(), 6)):
                return True
        return False

    def random_trace(self, n, seed):
        # a violating run is not needed: record inputs by running with an impossible stop length
        tr = self.sim.random_trace(seed, n) if hasattr(self.sim, "random_trace") else None
        return tr

    def bmc(self, state, prefix, depth, budget):
        p = self.p
        t0 = time.time()
        u = Unroller(p, 0)
        s = solver()
        for n, w in p.reg_w.items():
            s.add(u.frames[0][0][n] == (bool(state[n]) if w == 1 else z3.BitVecVal(state[n], w)))
        for f in range(depth):
            if time.time() - t0 > budget or self.left() < 1:
                return False
            for r in p.requires:
                s.add(u.t(f, r))
            s.push()
            s.add(z3.Or([z3.Not(u.t(f, e)) for e in p.ensures]))
            s.set("timeout", max(1000, int(1000 * min(self.left(), budget - (time.time() - t0)))))
            r = s.check()
            self.st["queries"] += 1
            if r == z3.sat:
                m = s.model()
                trace = prefix + [u.inputs_of(m, g) for g in range(f + 1)]
                bade = [n for n, e in zip(p.ens_names, p.ensures) if z3.is_false(m.eval(u.t(f, e), model_completion=True))]
                self.violated(trace, bade[0])
                return True
            if r != z3.unsat:
                return False
            s.pop()
            for d in u.step():
                s.add(d)
        self.st["bmc_depth"] = max(self.st.get("bmc_depth", 0), depth)
        return False
