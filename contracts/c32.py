"""C32 FixedPointCICFilter: the recursive structure equals the cascade of moving sums"""
from math import comb, ceil, log2
from amaranth import signed
from vf.contract import *
from vf.runner import Unit


def add(a, b, f=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + f * v
    return r


def cic(c, bitwidth=18, stages=4, decimation=12, pdm=True):
    """pdm: the input is +1 or -1 and nothing overflows; otherwise arithmetic is modulo the internal width"""
    from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter
    n, R = stages, decimation
    d = c.dut(FixedPointCICFilter(bitwidth=bitwidth, filter_stage=n, decimation=R, verbose=False))
    w = max(1 + ceil(n * log2(R)), bitwidth)
    m = c.m
    c.input(d.strobe_in, one=170)
    L = 2 * n * R + R
    if pdm:
        b = Signal(name="sample")
        c.input(b)
        c.comb += d.signal_in.eq(1 - 2 * b)
        hp, hn = c.ghost("g_plus", L), c.ghost("g_minus", L)
        with m.If(d.strobe_in):
            c.sync += [hp.eq(Cat(~b, hp)), hn.eq(Cat(b, hn))]
        u = [hp[i] - hn[i] for i in range(L)]
    else:
        c.input(d.signal_in)
        u = [c.ghost(f"g_u{i}", signed(bitwidth)) for i in range(L)]
        with m.If(d.strobe_in):
            c.sync += [u[i].eq(u[i - 1] if i else d.signal_in) for i in range(L)]
    # position: samples since the last complete group of R; R stands for "a group has just been completed"
    pos, started = c.ghost("g_pos", range(R + 1)), Signal(name="g_group")
    so = c.ghost("g_strobe")
    c.comb += started.eq(pos == R)
    c.sync += so.eq(started)
    nxt = Signal(range(R + 1), name="g_next")
    c.comb += nxt.eq(Mux(pos == R, 0, pos) + d.strobe_in)
    c.sync += pos.eq(nxt)
    if R == 1:
        c.require("strobes_are_single_cycles", ~(started & d.strobe_in))
    # moving sum of R samples, n times, of the samples up to n groups ago; one sample of delay per stage
    h = [1]
    for _ in range(n):
        h = [sum(h[i - j] for j in range(R) if 0 <= i - j < len(h)) for i in range(len(h) + R - 1)]
    wide = max(w, sum(h).bit_length() + (2 if pdm else bitwidth + 1))
    s = Signal(signed(wide if pdm else w), name="g_sum")
    c.comb += s.eq(sum(k * u[n * R + n - 1 + i] for i, k in enumerate(h)))
    out = c.ghost("g_out", signed(bitwidth))
    with m.If(started):
        c.sync += out.eq(s >> (w - bitwidth))
    c.ensure("output_is_the_cascade_of_moving_sums", d.signal_out == out)
    c.ensure("one_output_strobe_per_group_of_samples", d.strobe_out == so)
    # hints: integrators and combs as linear forms of each other and of the samples
    x = [c.ghost(f"g_x{i}", signed(w)) for i in range(n)]
    y = [c.ghost(f"g_y{i}", signed(w)) for i in range(n)]
    dy = [c.ghost(f"g_dy{i}", signed(w)) for i in range(n)]
    with m.If(d.strobe_in):
        c.sync += [x[i].eq(x[i] + (x[i - 1] if i else d.signal_in)) for i in range(n)]
    with m.If(started):
        ins = [x[n - 1]] + y[:-1]
        c.sync += [y[i].eq(ins[i] - dy[i]) for i in range(n)] + [dy[i].eq(ins[i]) for i in range(n)]

    def name(k):
        return x[k[1]] if k[0] == "x" else u[k[1]]
    now = [[{("x", i): 1} for i in range(n)]]
    for j in range(L):                               # the integrators j samples ago
        last, st = now[-1], []
        for i in range(n):
            st.append(add(last[i], st[i - 1] if i else {("u", j): 1}, -1))
        now.append(st)

    def diff(order, group, since):                   # backward difference, `group` groups before the last one
        r = {}
        for i in range(order + 1):
            r = add(r, now[since + (group + i) * R][n - 1], (-1) ** i * comb(order, i))
        return r
    for p in range(R + 1):
        since, late = (p, 0) if p < R else (0, 1)
        for j in range(n):
            for nme, reg, order in (("y", y[j], j + 1), ("dy", dy[j], j)):
                v = Signal(signed(w), name=f"g_{nme}{j}_at{p}")
                c.comb += v.eq(sum(k * name(q) for q, k in diff(order, j + late, since).items() if k))
                c.invariant(f"{nme}{j}_at{p}", (pos != p) | (reg == v))
    c.invariant("position", pos <= R)
    c.mode(pos)
    c.split_on = pos
    c.split_inputs = [d.strobe_in]
    c.whole_words = True
    c.horizon = 6 * n * R + 20
    c.cover("output", d.strobe_out & (d.signal_out != 0))


UNITS = [Unit("CIC", cic, [dict(bitwidth=4, stages=1, decimation=5), dict(bitwidth=4, stages=2, decimation=3), dict(bitwidth=6, stages=3, decimation=5), dict(bitwidth=18, stages=3, decimation=8),
                           dict(bitwidth=18, stages=2, decimation=12), dict(bitwidth=12, stages=2, decimation=4, pdm=False), dict(bitwidth=3, stages=3, decimation=2, pdm=False),
                           dict(bitwidth=8, stages=2, decimation=1), dict(bitwidth=18, stages=4, decimation=6, pdm=False)],
              ["amlib.dsp.fixedpointcicfilter.FixedPointCICFilter"],
              thorough=[dict(bitwidth=18, stages=4, decimation=12), dict(bitwidth=16, stages=5, decimation=10)])]
