"""C34 stereo convolution"""
from vf.contract import *
from vf.runner import Unit
from amaranth import signed


def convolution(c, taps, bitwidth=4, slices=1, mode="CROSSFEED"):
    import numpy as np
    from amlib.dsp.convolution.mac import StereoConvolutionMAC
    from amlib.dsp.convolution.convolutionmode import ConvolutionMode
    m, T = c.m, len(taps)
    n = T // slices                                          # taps calculated one after the other
    ir = np.zeros((T, 2), dtype=np.int32)
    for i, (a, b) in enumerate(taps):
        ir[i, 0], ir[i, 1] = a, b
    d = c.dut(StereoConvolutionMAC(taps=ir, samplerate=1, clockfrequency=T / slices, bitwidth=bitwidth, convolutionMode=ConvolutionMode[mode]))
    si, so = d.signal_in, d.signal_out
    c.input(si.valid, so.ready, one=190)
    c.input(si.payload)
    # the stream delivers pairs of a left (first) and a right (last) sample, in either order
    right = c.fresh(1, "right_sample_first", one=40)
    gl, gr, t = c.ghost("g_left"), c.ghost("g_right"), c.ghost("g_t", range(n + 6))
    c.comb += [si.last.eq(Mux(gl == gr, right, gl)), si.first.eq(~si.last)]
    acc = si.valid & si.ready
    l, r = ([c.ghost(f"g_{k}{i}", signed(bitwidth)) for i in range(T)] for k in "lr")
    for g, flag, x in ((l, si.first, gl), (r, si.last, gr)):
        with m.If(acc & flag):
            c.sync += [g[0].eq(si.payload), x.eq(1)] + [g[i].eq(g[i - 1]) for i in range(1, T)]
    # t: cycles since the pair is complete
    sent, done = c.ghost("g_sent"), so.valid & so.ready
    with m.If(done):
        c.sync += sent.eq(~sent)
    with m.If(done & sent):
        c.sync += [t.eq(0), gl.eq(0), gr.eq(0)]
    with m.Elif(t != 0):
        c.sync += t.eq(Mux(t == n + 5, t, t + 1))
    with m.Elif(acc & (gl | gr)):
        c.sync += t.eq(1)
    W = 2 * bitwidth
    A, B = [int(a) for a, _ in taps], [int(b) for _, b in taps]
    term = {"CROSSFEED": lambda i: (l[i] * A[i] + r[i] * B[i], r[i] * A[i] + l[i] * B[i]),
            "STEREO": lambda i: (l[i] * A[i], r[i] * B[i]), "MONO": lambda i: (l[i] * A[i], r[i] * A[i])}[mode]
    total = [Signal(signed(W), name=f"total_{k}") for k in "lr"]
    for ch in (0, 1):
        sums = []
        for s in range(slices):
            g = c.ghost(f"g_acc{ch}_{s}", signed(W))         # the sum of the products of this slice, one after the other
            with m.If(t < 3):
                c.sync += g.eq(0)
            for k in range(n):
                with m.Elif(t == k + 3):
                    c.sync += g.eq(g + term(k * slices + s)[ch])
            sums.append(g)
        whole = Const(0, signed(W))
        for x in sums:
            whole = (whole + x)[:W].as_signed()
        c.comb += total[ch].eq(whole)
    c.ensure("left_then_right_result_scaled_down_by_the_bit_width", c.implies(so.valid, so.payload == Mux(sent, total[1] >> bitwidth, total[0] >> bitwidth)[:bitwidth]))
    c.ensure("channels_marked", c.implies(so.valid, (so.first == ~sent) & (so.last == sent)))
    c.ensure("results_only_of_a_complete_pair", c.implies(so.valid, t != 0))
    held, was = c.ghost("g_held"), c.ghost("g_was", bitwidth)
    c.sync += [held.eq(so.valid & ~so.ready), was.eq(so.payload)]
    c.invariant("offered", c.implies(held, was == Mux(sent, total[1] >> bitwidth, total[0] >> bitwidth)[:bitwidth]))
    c.ensure("offered_result_is_held", c.implies(held, so.valid & (so.payload == was)))
    late = c.ghost("g_late", 3)
    with m.If((t == n + 5) & ~so.valid):
        c.sync += late.eq(late + 1)
    with m.Else():
        c.sync += late.eq(0)
    c.ensure("result_within_taps_per_slice_plus_eight_cycles", late < 4)
    idle = c.ghost("g_idle", 3)
    with m.If((t == 0) & ~si.ready):
        c.sync += idle.eq(idle + 1)
    with m.Else():
        c.sync += idle.eq(0)
    c.ensure("accepts_samples_when_the_results_are_taken", idle < 4)
    c.ensure("accepts_nothing_while_calculating", (t == 0) | ~si.ready)
    # hints: the words of the sample memories, before and after the shift
    for k in range(n):
        for nme, g in (("l", l), ("r", r)):
            j = [k * slices + s for s in range(slices)][::-1]
            c.aux(f"word_{nme}{k}", Cat(*[g[i] for i in j]))
            c.aux(f"next_{nme}{k}", Cat(*[g[max(i - 1, 0)] for i in j]))
            c.aux(f"high_{nme}{k}", Cat(*[g[max(i - 1, 0)] for i in j][:-1]) if slices > 1 else Const(0, 1))
            c.aux(f"body_{nme}{k}", Cat(*[g[i] for i in j][:-1]) if slices > 1 else Const(0, 1))
    for ch in (0, 1):
        c.aux(f"total_{ch}", total[ch])
    gap = c.ghost("g_gap", 2)
    with m.If((gl | gr) & (t == 0)):
        c.sync += gap.eq(Mux(gap == 3, gap, gap + 1))
    with m.Else():
        c.sync += gap.eq(0)
    first = c.ghost("g_again")
    with m.If(done & sent):
        c.sync += first.eq(1)
    since = c.ghost("g_since", 2)
    with m.If(done & sent):
        c.sync += since.eq(1)
    with m.Elif(since != 0):
        c.sync += since.eq(since + (since != 3))
    c.aux("step", Cat(t, gl, gr, sent, gap, since))
    c.aux("pair", Cat(t, gl, gr, sent))
    c.mode("step", "pair")
    c.split_on = t
    c.horizon = 12 * (n + 8)
    c.cover("second_pair", done & sent & first)


TAPS = [(5, -3), (-7, 2), (1, 6), (-8, -1), (7, -2), (-2, -5), (4, 4), (-1, 3)]
UNITS = [Unit("StereoConvolutionMAC", convolution,
              [dict(taps=TAPS[:3]), dict(taps=TAPS[2:4], slices=2), dict(taps=TAPS[:3], mode="STEREO"), dict(taps=TAPS[:1], mode="MONO"),
               dict(taps=TAPS[4:], slices=2, mode="MONO"), dict(taps=TAPS[2:4], slices=2, mode="STEREO", bitwidth=5)],
              ["amlib.dsp.convolution.mac.StereoConvolutionMAC"], budget=240,
              thorough=[dict(taps=TAPS[:6], slices=3, mode="STEREO"), dict(taps=TAPS[:5]), dict(taps=TAPS[:4], slices=2, bitwidth=6)])]
