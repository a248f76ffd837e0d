"""C35 FixedPointFFT"""
from math import cos, sin, pi
from amaranth import signed, Array
from vf.contract import *
from vf.runner import Unit


def trunc(v, w):
    return v[:w].as_signed()


def fft(c, pts=4, bitwidth=4, reload=True, small=False, control=False):
    from amlib.dsp.fixedpointfft import FixedPointFFT
    m, N = c.m, pts.bit_length() - 1
    bw, f = bitwidth + N, bitwidth - 1
    d = c.dut(FixedPointFFT(bitwidth=bitwidth, pts=pts, verbose=False))
    c.input(d.in_i, d.in_q, d.wf_real, d.wf_imag)
    c.input(d.strobe_in, one=120)
    c.input(d.wf_strobe, one=120)
    c.input(d.start, one=60)
    c.input(d.wf_start, one=20)
    # strobes and starts are at least four cycles apart
    gap = c.ghost("g_gap", 2)
    any_ = d.strobe_in | d.wf_strobe | d.start | d.wf_start
    c.require("pulses_at_least_four_cycles_apart", ~any_ | ((gap == 0) & (d.strobe_in + d.wf_strobe + d.start + d.wf_start == 1)))
    c.sync += gap.eq(Mux(any_, 3, gap - (gap != 0)))
    if not reload:
        c.require("default_window", ~d.wf_start)
    t, n, phase = c.ghost("g_t", range(16 * pts * (N + 2))), c.ghost("g_n", range(pts + 1)), c.ghost("g_phase", 2)
    IDLE, SAMPLE, COMPUTE, WINDOW = range(4)
    win = [0.35875 - 0.48829 * cos(k * 2 * pi / pts) + 0.14128 * cos(k * 4 * pi / pts) - 0.01168 * cos(k * 6 * pi / pts) for k in range(pts)]
    wr = Array(c.ghost(f"g_wr{k}", signed(bitwidth + 1), reset=int(win[k] * 2 ** f)) for k in range(pts))
    wi = Array(c.ghost(f"g_wi{k}", signed(bitwidth + 1)) for k in range(pts))
    x = [(c.ghost(f"g_xr{k}", signed(bitwidth)), c.ghost(f"g_xi{k}", signed(bitwidth))) for k in range(pts)]
    xr, xi = Array(a for a, _ in x), Array(b for _, b in x)
    last = n == pts - 1
    over = Signal(name="g_over")
    c.comb += over.eq((phase == IDLE) | ((n == pts) & d.done))
    with m.If(over):
        c.sync += [n.eq(0), t.eq(0), phase.eq(Mux(d.start, SAMPLE, Mux(d.wf_start, WINDOW, IDLE)))]
    with m.Elif(phase == SAMPLE):
        with m.If(d.strobe_in):
            c.sync += [xr[n].eq((wr[n] * d.in_i - wi[n] * d.in_q) >> f), xi[n].eq((wr[n] * d.in_q + wi[n] * d.in_i) >> f), n.eq(n + 1)]
            with m.If(last):
                c.sync += [phase.eq(COMPUTE), n.eq(0)]
    with m.Elif(phase == WINDOW):
        with m.If(d.wf_strobe & (n != pts)):
            c.sync += [wr[n].eq(d.wf_real), wi[n].eq(d.wf_imag), n.eq(n + 1)]
        with m.If(n == pts):
            c.sync += t.eq(t + 1)
    with m.Else():
        c.sync += t.eq(t + 1)
        with m.If(d.strobe_out):
            c.sync += [n.eq(n + 1), t.eq(0)]
    age = c.ghost("g_age", 2)                                 # cycles until the block can be ready for the next value
    c.sync += age.eq(Mux(over | Mux(phase == SAMPLE, d.strobe_in, d.wf_strobe), 3, age - (age != 0)))
    # the transform: bit-reversed input, N stages, products rounded down
    rev = lambda k: int(format(k, f"0{N}b")[::-1], 2)
    v = [x[rev(k)] for k in range(pts)]
    for k in range(0 if control else pts):
        for q, g in zip("ri", x[k]):
            e = Signal(signed(bw), name=f"x{q}{k}_extended")
            c.comb += e.eq(g)
            c.aux(f"x_{q}{k}", e)
    for s in range(0 if control else N):
        mask = ~((pts >> (s + 1)) - 1) & (pts - 1)
        w = []
        for k in range(pts):
            wre, wim = (int(u * 2 ** f) for u in (cos((k & mask) * 2 * pi / pts), -sin((k & mask) * 2 * pi / pts)))
            wre, wim = Const(wre, signed(bitwidth + 1)), Const(wim, signed(bitwidth + 1))
            (ar, ai), (br, bi) = v[2 * k % pts], v[(2 * k + 1) % pts]
            h = k if k >= pts // 2 else None
            p = lambda a, b: trunc(a * b >> f, bw)
            sr, si = (Signal(signed(bw), name=f"stage{s}_{q}{k}") for q in "ri")
            w.append((sr, si))
            if k >= pts // 2:
                pr, pi_ = trunc(p(br, wre) - p(bi, wim), bw), trunc(p(br, wim) + p(bi, wre), bw)
                c.comb += [sr.eq(ar + pr), si.eq(ai + pi_), w[k - pts // 2][0].eq(ar - pr), w[k - pts // 2][1].eq(ai - pi_)]
            if s < N - 1:
                c.aux(f"stage{s}_r{k}", sr)
                c.aux(f"stage{s}_i{k}", si)
        v = w
    if not control:
        outr, outi = (Array(a[0][N:] for a in [(z,) for z in zs]) for zs in ([a for a, _ in v], [b for _, b in v]))
        wantr, wanti = Signal(bitwidth, name="want_real"), Signal(bitwidth, name="want_imag")
        c.comb += [wantr.eq(outr[n[:N]]), wanti.eq(outi[n[:N]])]
        c.aux("want_real", wantr)
        c.aux("want_imag", wanti)
        c.ensure("bin_k_is_the_transform_of_the_windowed_samples", ~d.strobe_out | ((d.out_real == wantr.as_signed()) & (d.out_imag == wanti.as_signed())))
    c.ensure("one_output_per_bin", ~d.strobe_out | ((phase == COMPUTE) & (n != pts)))
    c.ensure("next_output_in_time", (phase != COMPUTE) | Mux(n == 0, t < 14 * pts * (N + 1), t < 8))
    c.ensure("done_only_while_nothing_is_going_on", ~d.done | over)
    c.ensure("done_after_the_last_window_value", (phase != WINDOW) | (t < 8))
    idle = c.ghost("g_settle", 2)
    c.sync += idle.eq(Mux(d.done | ~over, 0, idle + 1))
    c.ensure("done_while_idle", idle < 2)
    step = Signal(range(16 + 8 * (pts + 1) * 3 + 14 * pts * (N + 1)), name="step_number")
    with m.If(phase == SAMPLE):
        c.comb += step.eq(8 + 4 * n + age)
    with m.Elif(phase == WINDOW):
        c.comb += step.eq(8 + 8 * (pts + 1) + Mux(n == pts, t[:3], 8 + 4 * n + age))
    with m.Elif((phase == COMPUTE) & (n == 0)):
        c.comb += step.eq(8 + 8 * (pts + 1) * 3 + t)
    with m.Elif(phase == COMPUTE):
        c.comb += step.eq(8 + 8 * (pts + 1) * 2 + 8 * n + t[:3])
    c.aux("step", step)
    c.mode("step")
    if small or control:
        c.whole_words, c.plain, c.mode_cap = "modes", True, 4096
    c.horizon = 40 * pts * (N + 1)
    c.cover("transform", d.strobe_out & (n == pts - 1))
    if reload:
        c.cover("after_reload", (phase == COMPUTE) & (wr[0] != int(win[0] * 2 ** f)))


F = ["amlib.dsp.fixedpointfft.FixedPointFFT"]
SMALL = [dict(bitwidth=3, reload=False, small=True)]
UNITS = [Unit("FixedPointFFT sequence", fft, [dict(pts=p, bitwidth=b, control=True) for p, b in ((4, 4), (4, 18), (8, 5))], F, thorough=[dict(pts=16, bitwidth=8, control=True)], budget=200),
         Unit("FixedPointFFT", fft, [dict(), dict(pts=8, bitwidth=5), dict(pts=16, bitwidth=8), dict(bitwidth=18)], F, only_simulate=True, budget=30),
         Unit("FixedPointFFT small", fft, [], F, thorough=SMALL, budget=900)]
