"""C15 SPIControllerInterface"""
from vf.contract import *
from vf.runner import Unit
from .c14 import Resource


def monitor(c, div, n, phase, pol, msb, csh, skip, cs, sck, sdi, sdo, start, word, complete=None, received=None):
    """the SPI lines of a controller that is asked for `word` by `start`; `complete` is its completion strobe
    (None: the point where it comes is predicted)"""
    m, h = c.m, div // 2
    predict = complete is None
    if predict:
        complete = Signal(name="g_complete")
    sel, clk = Signal(name="sel"), Signal(name="clk")
    c.comb += [sel.eq(cs ^ csh), clk.eq(sck ^ pol)]
    psel, pclk = c.ghost("p_sel"), c.ghost("p_clk")
    c.sync += [psel.eq(sel), pclk.eq(clk)]
    busy, k = c.ghost("g_busy"), c.ghost("g_samples", range(n + 1))
    rx = c.ghost("g_rx", n) if received is not None else Signal(n, name="g_rx")
    lead, trail = clk & ~pclk, ~clk & pclk
    sample = lead if phase == 0 else (trail & (sel | (k == n - 1)))
    with m.If(start & ~busy):
        c.sync += [busy.eq(1), k.eq(0)]
    with m.If(busy):
        with m.If(sample):
            c.sync += k.eq(k + 1)
            if received is not None:
                c.sync += rx.eq(Cat(sdi, rx)[:n] if msb else Cat(rx, sdi)[1:])
        with m.If(complete):
            c.sync += busy.eq(0)
    bit = Signal(name="g_bit")
    c.comb += bit.eq((word >> ((n - 1 - k)[:k.shape().width] if msb else k))[0])
    c.ensure("deselected_between_transfers", busy | ~sel)
    c.ensure("clock_idles_while_deselected", sel | ~clk)
    c.ensure("selected_until_the_word_is_complete", ~(psel & ~sel) | ~busy)
    if phase == 0:
        c.ensure("selected_before_the_first_clock_edge", ~lead | psel)
    c.ensure("each_bit_on_the_line_when_sampled", ~(busy & sample) | (sdo == bit))
    c.ensure("no_more_clocks_than_bits", ~(busy & sample) | (k < n))
    c.ensure("word_complete_ends_a_transfer_of_all_bits", ~complete | (busy & (k == n)))
    if received is not None:
        c.ensure("received_word_at_completion", ~complete | (received == rx))
    # timing
    kd = div // 8
    age = c.ghost("g_age", range(4 * div + 10), 1)
    lim = 3 * h + kd + 6
    edges = c.ghost("g_edges", range(2 * n + 3))
    with m.If(~busy | (clk != pclk)):
        c.sync += age.eq(1)
    with m.Elif(age != lim + 1):
        c.sync += age.eq(age + 1)
    with m.If(~busy):
        c.sync += edges.eq(0)
    with m.Elif((clk != pclk) & (edges != 2 * n + 2)):
        c.sync += edges.eq(edges + 1)
    c.ensure("clock_half_periods_last_half_a_divisor", ~(busy & (clk != pclk) & (edges >= 2)) | (age == h) | complete)
    c.ensure("first_pulse_at_most_half_a_divisor", ~(busy & (clk != pclk) & (edges == 1)) | (age <= h))
    c.ensure("every_transfer_completes", age <= lim)
    # hints: the clock divider runs freely, its output toggles while it is enabled
    ph, en, dclk = c.ghost("g_phase", range(h)), c.ghost("g_enable"), c.ghost("g_divided")
    idle = c.ghost("g_idle", 1, 1)
    c.sync += ph.eq(Mux(ph == h - 1, 0, ph + 1))
    with m.If(idle):
        c.sync += [en.eq(start), idle.eq(~start)]
    with m.Elif(complete):
        c.sync += idle.eq(1)
    with m.If(ph == h - 1):
        c.sync += dclk.eq(en & ~dclk)
    hist = c.ghost("g_hist", kd + 1)
    c.sync += hist.eq(Cat(dclk, hist)[:kd + 1])
    tog = c.ghost("g_toggles", 2)
    with m.If(~busy):
        c.sync += tog.eq(0)
    with m.Elif(en & (ph == h - 1) & (tog != 3)):
        c.sync += tog.eq(tog + 1)
    run = c.ghost("g_run")
    with m.If(complete | ~busy):
        c.sync += run.eq(0)
    with m.Elif(((hist >> (kd - 1))[0] if kd else dclk) & ~(hist >> kd)[0]):
        c.sync += run.eq(1)
    c.invariant("clock_is_divided_clock", clk == (run & dclk))
    c.invariant("waiting", ~busy | run | (age <= ph + tog * h + 2))
    c.invariant("first_edge", ~(busy & run & (edges == 1)) | (age <= Mux(ph == 0, h, ph)))
    c.invariant("later_edges", ~(busy & run & (edges >= 2)) | (age == Mux(ph == 0, h, ph)))
    # hints: the device part lags behind the lines by the synchroniser (2 cycles) and its registers
    ks, rs = [k], [rx]
    for i in range(4):
        a = c.ghost(f"g_k{i}", k.shape())
        c.sync += a.eq(ks[-1])
        ks.append(a)
        if received is not None:
            b = c.ghost(f"g_rx{i}", n)
            c.sync += b.eq(rs[-1])
            rs.append(b)
    if not skip:
        st = []
        for nme, r in (("sel", sel), ("clk", clk), ("din", sdi)):
            a, b, e = (c.ghost(f"s{i}_{nme}") for i in (1, 2, 3))
            c.sync += [a.eq(r), b.eq(a), e.eq(b)]
            st += [a, b, e]
        c.aux("cdc", Cat(psel, pclk, st[:6], busy, run))
        c.mode("cdc")
    if predict:
        d = 1 if skip else 3
        c.comb += complete.eq(busy & (ks[d] == n) & (ks[d + 1] != n))
    c.horizon = (n + 4) * div * 4
    c.aux("pos", Cat(busy, run, pclk, psel, edges, dclk))
    c.mode("pos")
    c.aux("pos2", Cat(busy, run, dclk, hist, en, tog))
    c.mode("pos2")
    c.aux("pos3", Cat(busy, run, edges, ph))
    c.mode("pos3")
    c.aux("wait", Cat(busy, edges == 0, Mux(age > 7, 7, age)[:3]))
    c.mode("wait")
    c.auto_vals = 40
    return busy, complete


def controller(c, div, n=8, phase=0, pol=0, msb=True, csh=False, skip=False, resource=False):
    from amlib.io.spi import SPIControllerInterface
    d = c.dut(SPIControllerInterface(word_size=n, divisor=div, clock_polarity=pol, clock_phase=phase, msb_first=msb, cs_idles_high=csh, skip_input_cdc=skip))
    if resource:
        r = Resource()
        c.m.d.comb += d.connect_to_resource(r)
        cs, sck, sdi, sdo = (~r.cs)[0] if csh else r.cs, r.clk, r.cipo, r.copi
    else:
        cs, sck, sdi, sdo = d.spi.cs, d.spi.sck, d.spi.sdi, d.spi.sdo
    c.input(sdi)
    c.input(d.start_transfer, one=20)
    c.input(d.word_out, keep=200)
    pw = c.ghost("g_p_word", n)
    c.sync += pw.eq(d.word_out)
    boot = c.ghost("g_boot", 2)
    with c.m.If(boot != 3):
        c.sync += boot.eq(boot + 1)
    c.require("no_transfer_requested_right_after_reset", (boot == 3) | ~d.start_transfer)
    mon, _ = monitor(c, div, n, phase, pol, msb, csh, skip, cs, sck, sdi, sdo, d.start_transfer, d.word_out, d.word_complete, d.word_in)
    c.require("word_held_during_the_transfer", ~mon | (pw == d.word_out))
    c.cover("complete", d.word_complete)


D12 = [dict(div=12, phase=p, pol=o, csh=h) for p in (0, 1) for o in (0, 1) for h in (False, True)]
SKIP = [dict(div=4, n=4, skip=True), dict(div=4, n=3, skip=True, phase=1, pol=1), dict(div=8, n=4, skip=True, phase=1, pol=1), dict(div=8, n=16, skip=True), dict(div=6, n=8, skip=True, pol=1, msb=False)]
OTHER = [dict(div=12, n=4, phase=p, msb=False, pol=p) for p in (0, 1)] + [dict(div=8, n=5), dict(div=16, n=3, phase=1), dict(div=20, n=4), dict(div=32, n=2, pol=1), dict(div=12, n=1), dict(div=12, n=6, phase=1, csh=True),
         dict(div=12, n=4, resource=True), dict(div=12, n=4, csh=True, phase=1, resource=True)]
UNITS = [Unit("SPIControllerInterface", controller, D12 + SKIP + OTHER,
              ["amlib.io.spi.SPIControllerInterface", "amlib.io.spi.SPIDeviceInterface", "amlib.utils.clockdivider.SimpleClockDivider"])]
