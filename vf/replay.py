"""Independent execution of a trace on the real design with Amaranth's own simulator."""
import warnings
warnings.simplefilter("ignore")
from amaranth.sim import Simulator, Settle


def pysim(ctx, trace, watch=(), compare=None):
    """Drive the prepared fragment with the trace.  Returns dict: first failing requires/ensures,
    and (if `compare` = list of register-value dicts) the first register mismatch."""
    d = ctx.design
    frag = ctx.fragment
    frag.prepare = lambda *a, **k: frag      # already prepared
    sim = Simulator(frag)
    sigs = dict(d.inputs)
    out = {"req": None, "ens": None, "watch": [], "mismatch": None, "cycles": 0}
    doms = [(k, cd) for k, (cd, _) in d.domains.items()]

    def proc():
        for t, inp in enumerate(trace):
            for n, s in sigs.items():
                v = inp[n]
                if s.shape().signed and v >> (len(s) - 1):
                    v -= 1 << len(s)
                yield s.eq(v)
            yield Settle()
            if compare is not None:
                for n, v in compare[t].items():
                    s = d.regs[n][0]
                    got = (yield s) & ((1 << len(s)) - 1)
                    if got != v:
                        out["mismatch"] = (t, n, got, v)
                        return
            for n, s in ctx._req:
                if not (yield s) and out["req"] is None:
                    out["req"] = (t, n)
            if out["req"] is not None:
                return
            for n, s in ctx._ens:
                if not (yield s) and out["ens"] is None:
                    out["ens"] = (t, n)
            if watch:
                row = {}
                for n, s in watch:
                    row[n] = (yield s)
                out["watch"].append(row)
            out["cycles"] += 1
            if out["ens"] is not None and compare is None:
                return
            act = []
            for k, cd in doms:
                if not d.ticks or inp[d.ticks[k].p]:
                    act.append(cd.clk)
            for c in act:
                yield c.eq(1)
            yield Settle()
            for c in act:
                yield c.eq(0)
            yield Settle()
    sim.add_process(proc)
    sim.run()
    return out
