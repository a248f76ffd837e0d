"""C31 FixedPointFIRFilter, FixedPointHBFilter, FixedPointIIRFilter, Filterbank"""
from amaranth import Array, signed
from vf.contract import *
from vf.runner import Unit


def fixed(xs, f):
    return [int(x * 2 ** f) for x in xs]


def fir_taps(samplerate=48000, cutoff_freq=20000, filter_order=24, filter_type="lowpass", fraction_width=18, weight=None, **_):
    from scipy import signal
    import numpy as np
    if isinstance(cutoff_freq, int):
        return fixed(signal.firwin(filter_order, cutoff_freq, fs=samplerate, pass_zero=filter_type, window="hamming"), fraction_width)
    p, s = (x / samplerate for x in cutoff_freq)
    return fixed(signal.remez(filter_order, np.array([0., p, s, .5]), [1, 0] if filter_type == "lowpass" else [0, 1], weight), fraction_width)


def iir_taps(samplerate=48000, cutoff_freq=20000, filter_order=2, filter_type="lowpass", fraction_width=18, **_):
    from scipy import signal
    b, a = signal.cheby1(filter_order, 1.0, cutoff_freq / (samplerate * 0.5), btype=filter_type, output="ba")
    return fixed(b, fraction_width), fixed(a, fraction_width)


def delay_line(c, name, new, n, width, en):
    g = [c.ghost(f"{name}{i}", signed(width)) for i in range(n)]
    with c.m.If(en):
        for i in range(n):
            c.sync += g[i].eq(g[i - 1] if i else new)
    return g


def scaled(terms, f):
    return [(a * Const(t, signed(max(2, t.bit_length() + 1)))) >> f for a, t in terms]


def total(c, name, xs, w):
    s = Signal(signed(w), name=name)
    v = xs[0]
    for x in xs[1:]:
        v = v + x
    c.comb += s.eq(v)
    return s


def fir(c, bitwidth=18, mac=False, **kw):
    from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
    kw.setdefault("samplerate", 48000)
    d = c.dut(FixedPointFIRFilter(bitwidth=bitwidth, verbose=False, mac_loop=mac, **kw))
    c.input(d.signal_in)
    c.input(d.enable_in, one=60)
    f = kw.get("fraction_width", 18)
    taps = fir_taps(**kw)
    x = delay_line(c, "g_x", d.signal_in, len(taps), bitwidth + f, d.enable_in)
    if mac:
        macs(c, d, d.enable_in, bitwidth, f, bitwidth, list(zip(x, taps)), Const(0), d.signal_in)
    else:
        c.ensure("output_is_the_tap_weighted_sum_of_the_last_samples", d.signal_out == total(c, "g_y", scaled(zip(x, taps), f), bitwidth))
    c.cover("negative", d.signal_out[-1])


def hb_taps(filter_order=19, fraction_width=18, **_):
    from scipy import signal
    import numpy as np
    return fixed(signal.remez(filter_order, np.array([0.0, 0.22, 0.28, 0.5]), [1, 0], [1, 1]), fraction_width)


def halfband(c, bitwidth=18, mac=False, **kw):
    from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
    d = c.dut(FixedPointHBFilter(bitwidth=bitwidth, verbose=False, mac_loop=mac, **kw))
    c.input(d.signal_in)
    c.input(d.strobe_in, one=60)
    f = kw.get("fraction_width", 18)
    taps = hb_taps(**kw)
    n = len(taps)
    x = delay_line(c, "g_x", d.signal_in, n, bitwidth + f, d.strobe_in)
    products = [(x[i] + x[n - 1 - i], taps[i]) for i in range(0, n // 2, 2)]
    odd = c.ghost("g_odd")
    out = c.ghost("g_strobe")
    c.sync += out.eq(d.strobe_in & odd)
    with c.m.If(d.strobe_in):
        c.sync += odd.eq(~odd)
    if mac:
        macs(c, d, d.strobe_in, bitwidth, f, bitwidth + 1, products, x[n // 2] >> 1, d.signal_in + x[n - 2])
    else:
        c.ensure("output_is_the_half_band_sum_of_the_last_samples", d.signal_out == total(c, "g_y", scaled(products, f) + [x[n // 2] >> 1], bitwidth))
    c.ensure("every_second_sample_is_strobed_out", d.strobe_out == out)
    c.cover("out", d.strobe_out & d.signal_out[-1])


def iir(c, bitwidth=18, **kw):
    from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
    kw.setdefault("samplerate", 48000)
    d = c.dut(FixedPointIIRFilter(bitwidth=bitwidth, verbose=False, **kw))
    c.input(d.signal_in)
    c.input(d.enable_in, one=60)
    y = iir_model(c, "g", d.signal_in, d.enable_in, bitwidth, **kw)
    c.ensure("output_is_the_difference_equation", d.signal_out == y)
    c.cover("negative", d.signal_out[-1])


def iir_model(c, name, new, en, bitwidth, **kw):
    f = kw.get("fraction_width", 18)
    b, a = iir_taps(**kw)
    x = delay_line(c, name + "_x", new, len(b), bitwidth + f, en)
    y = Signal(signed(bitwidth), name=name + "_y")
    py = delay_line(c, name + "_py", y, len(a) - 1, bitwidth + f, en)
    v = sum(scaled(zip(x, b), f)[1:], scaled(zip(x, b), f)[0])
    for t in scaled(zip(py, a[1:]), f):
        v = v - t
    c.comb += y.eq(v)
    return y


def bank(c, num=2, bitwidth=18, structure="fir", **kw):
    from amlib.dsp.filterbank import Filterbank
    kw.setdefault("samplerate", 48000)
    d = c.dut(Filterbank(num, bitwidth=bitwidth, filter_structure=structure, verbose=False, **kw))
    kw.setdefault("filter_order", 2)
    c.input(d.signal_in)
    c.input(d.enable_in, one=60)
    f = kw.get("fraction_width", 18)
    v = d.signal_in
    for i in range(num):
        if structure == "iir":
            v = iir_model(c, f"g{i}", v, d.enable_in, bitwidth, **kw)
        else:
            taps = fir_taps(**kw)
            x = delay_line(c, f"g{i}_x", v, len(taps), bitwidth + f, d.enable_in)
            v = total(c, f"g{i}_y", scaled(zip(x, taps), f), bitwidth)
    c.ensure("filters_are_chained", d.signal_out == v)
    c.cover("negative", d.signal_out[-1])


def macs(c, d, en, bitwidth, f, acc_w, products, extra, first):
    """sequential evaluation: one product per cycle is added up; `out` is the sum of the last finished run"""
    m, n = c.m, len(products)
    t = c.ghost("g_t", range(n + 3), n + 2)                 # cycles since the last sample
    c.sync += t.eq(Mux(en, 1, Mux(t == n + 2, t, t + 1)))
    c.require("samples_far_enough_apart", ~en | (t == n + 2))
    c.invariant("count", (t != 0) & (t <= n + 2))
    terms = scaled(products, f)
    out = c.ghost("g_out", signed(bitwidth))
    with m.If(t == n + 1):
        c.sync += out.eq(total(c, "g_sum", terms + [extra], bitwidth))
    c.ensure("output_is_the_weighted_sum_of_the_last_samples", d.signal_out == out)
    # hints: the partial sums
    width = bitwidth + f
    acc, ga, gb = c.ghost("g_acc", signed(acc_w)), c.ghost("g_a", signed(acc_w)), c.ghost("g_b", signed(width))
    part = Const(0, signed(acc_w))
    for k in range(n + 1):
        now = t == k + 1
        s = Signal(signed(acc_w), name=f"g_part{k}")
        c.comb += s.eq(part)
        c.invariant(f"partial_sum_{k}", ~now | (acc == s))
        if k < n:
            v = Signal(signed(acc_w), name=f"g_factor{k}")
            c.comb += v.eq(products[k][0])
            c.invariant(f"factor_{k}", ~now | ((ga == v) & (gb == products[k][1])))
            part = s + terms[k]
            with m.If(now):
                c.sync += acc.eq(acc + ((ga * gb) >> f))
    with m.If(en):
        c.sync += [acc.eq(0), ga.eq(first), gb.eq(products[0][1])]
    for k in range(1, n):
        with m.If(t == k):
            c.sync += [ga.eq(products[k][0]), gb.eq(products[k][1])]
    c.mode(t)
    c.split_on = t


UNITS = [Unit("FIR", fir, [dict(), dict(bitwidth=8, fraction_width=8, filter_order=5), dict(bitwidth=8, fraction_width=10, filter_order=9, filter_type="highpass"),
                           dict(bitwidth=12, fraction_width=16, filter_order=16, cutoff_freq=[6000, 12000]), dict(samplerate=336000),
                           dict(bitwidth=8, fraction_width=10, filter_order=5, mac=True), dict(filter_order=12, mac=True), dict(mac=True, cutoff_freq=10000)],
              ["amlib.dsp.fixedpointfirfilter.FixedPointFIRFilter"]),
         Unit("HB", halfband, [dict(), dict(bitwidth=8, fraction_width=8, filter_order=7), dict(bitwidth=12, fraction_width=16, filter_order=11),
                              dict(mac=True), dict(bitwidth=8, fraction_width=10, filter_order=7, mac=True)],
              ["amlib.dsp.fixedpointhbfilter.FixedPointHBFilter"]),
         Unit("IIR", iir, [dict(), dict(bitwidth=8, fraction_width=10, filter_order=3, cutoff_freq=8000), dict(bitwidth=16, filter_order=1, filter_type="highpass", cutoff_freq=3000)],
              ["amlib.dsp.fixedpointiirfilter.FixedPointIIRFilter"]),
         Unit("Filterbank", bank, [dict(), dict(num=1, filter_order=5), dict(num=3, bitwidth=8, fraction_width=10), dict(num=2, structure="iir"), dict(num=3, bitwidth=8, fraction_width=12, structure="iir")],
              ["amlib.dsp.filterbank.Filterbank"])]
