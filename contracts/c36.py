"""C36 integrated logic analyzer"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit


def probes(c, widths):
    sigs = [Signal(w, name=f"probe{i}") for i, w in enumerate(widths)]
    c.input(*sigs)
    return sigs


def capture(c, sigs, n, depth, enable, trigger, addr):
    """the contract of the capture: (busy, done, a sample is taken now, number of the sample, sample at the address of the last
    cycle); `trigger` is the strobe that reaches the analyzer core"""
    m, W = c.m, sum(len(s) for s in sigs)
    en = Const(1) if enable is None else enable
    # the probes and the enable as they were k cycles ago
    h = [Cat(*sigs)] + [c.ghost(f"g_h{k}", W) for k in range(1, n + 2)]
    e = [en] + [c.ghost(f"g_e{k}") for k in range(1, n + 2)]
    for k in range(1, n + 2):
        c.sync += h[k].eq(h[k - 1])
        if enable is not None:
            c.sync += e[k].eq(e[k - 1])
    taken = e[n + 1] if enable is not None else Const(1)
    # warm-up: the history has to be filled with enabled samples before a trigger can deliver pretrigger samples
    settle = n + 3
    wait = c.ghost("g_wait", range(settle + 1), settle)
    if n >= 3:
        need, wptr, some = c.ghost("g_need", range(n), n - 1), c.ghost("g_wptr", range(n)), c.ghost("g_some")
        fill = e[2] if enable is not None else Const(1)
        with m.If(need != 0):
            with m.If(fill):
                c.sync += [need.eq(need - 1), wptr.eq(Mux(wptr == n - 1, 0, wptr + 1))]
        with m.Else():
            c.sync += wptr.eq(Mux(wptr == n - 1, 0, wptr + 1))
            with m.If(wait != 0):
                c.sync += wait.eq(wait - 1)
        c.sync += some.eq(need != n - 1)
        c.aux("ring", Cat(wptr, need, wait, some))
        c.mode("ring")
    else:
        with m.If(wait != 0):
            c.sync += wait.eq(wait - 1)
        c.mode(wait)
    c.require("trigger_after_warm_up", (wait == 0) | ~trigger)
    mem = Array(c.ghost(f"g_mem{i}", W) for i in range(depth))
    busy, pos, done, last = c.ghost("g_busy"), c.ghost("g_pos", range(depth)), c.ghost("g_done"), c.ghost("g_addr", range(depth))
    c.sync += last.eq(addr)
    with m.If(busy):
        with m.If(taken):
            c.sync += [mem[pos].eq(h[n + 1]), pos.eq(pos + 1)]
            with m.If(pos == depth - 1):
                c.sync += [busy.eq(0), done.eq(1)]
    with m.Elif(trigger):
        c.sync += [busy.eq(1), pos.eq(0), done.eq(0)]
    c.mode(busy)
    front = Signal(W)
    c.comb += front.eq(mem[last])
    c.aux("front", front)
    return busy, done, busy & taken, mem, front


def flags(c, d, busy, done, taken):
    c.ensure("capturing_from_trigger_until_memory_full", d.capturing == busy)
    c.ensure("sampling_exactly_enabled_cycles_of_the_capture", d.sampling == taken)
    c.ensure("complete_from_last_sample_until_next_trigger", d.complete == done)


def core(c, pretrigger, depth, widths=(2, 1), enable=False, domain="sync"):
    from amlib.debug.ila import IntegratedLogicAnalyzer
    c.domain = domain
    sigs = probes(c, widths)
    d = c.dut(IntegratedLogicAnalyzer(signals=sigs, sample_depth=depth, domain=domain, samples_pretrigger=pretrigger, with_enable=enable))
    c.input(d.trigger, one=40)
    c.input(d.captured_sample_number)
    if enable:
        c.input(d.enable, one=150)
    if depth & (depth - 1):
        c.require("sample_number_exists", d.captured_sample_number < depth)
    busy, done, taken, mem, front = capture(c, sigs, pretrigger, depth, d.enable if enable else None, d.trigger, d.captured_sample_number)
    flags(c, d, busy, done, taken)
    c.ensure("captured_sample_is_the_requested_sample", c.implies(done, d.captured_sample == front))
    c.cover("complete", d.complete)
    c.cover("second_capture", done & d.trigger)


class Crossing:
    """stands for AsyncFIFOBuffered (a library primitive): words written when it is ready come out in order in the other domain"""

    def __init__(self):
        import amlib.debug.ila as ila
        from amaranth import Module, Elaboratable
        outer = self
        self.made = False

        class AsyncFIFOBuffered(Elaboratable):
            def __init__(self, *, width, depth, r_domain="read", w_domain="write", exact_depth=False):
                outer.made, outer.domains = True, (w_domain, r_domain)
                for k, w in (("w_data", width), ("w_rdy", 1), ("w_en", 1), ("r_data", width), ("r_rdy", 1), ("r_en", 1)):
                    setattr(self, k, Signal(w, name="cdc_" + k))
                    setattr(outer, k, getattr(self, k))
                self.w_level = self.r_level = Signal(range(depth + 1))
                self.width, self.depth = width, depth

            def elaborate(self, platform):
                return Module()
        ila.AsyncFIFOBuffered = AsyncFIFOBuffered


def stream(c, depth, widths, pretrigger=1, enable=False, domain="sync", o_domain=None):
    from amlib.debug.ila import StreamILA
    c.domain = domain
    m = c.m
    sigs = probes(c, widths)
    if o_domain is not None:
        cdc = Crossing()
    d = StreamILA(signals=sigs, sample_depth=depth, samples_pretrigger=pretrigger, with_enable=enable, domain=domain,
                  **(dict(o_domain=o_domain) if o_domain else {}))
    c.dut(d.elaborate(None))
    st = d.stream
    c.input(d.trigger, one=60)
    if o_domain is None:
        c.input(st.ready, keep=200)
        valid, ready = st.valid, st.ready
    else:
        # the words written into the clock domain crossing FIFO, as they look at the output stream when they leave it
        if not cdc.made:
            raise RuntimeError("the clock domain crossing is not an AsyncFIFOBuffered")
        valid, ready = cdc.w_en, cdc.w_rdy
        c.input(ready, keep=200)
        c.input(cdc.r_rdy, st.ready)
        c.comb += cdc.r_data.eq(cdc.w_data)
        c.ensure("fifo_words_are_offered_and_taken", Cat(st.valid, cdc.r_en) == Cat(cdc.r_rdy, st.ready))
        c.ensure("fifo_between_the_capture_and_the_output_domain", Const(cdc.domains == (domain, o_domain)))
    if enable:
        c.input(d.enable, one=150)
    W = sum(widths)
    pending, sent = c.ghost("g_pending"), c.ghost("g_sent", range(depth))
    trigger = d.trigger & ~pending
    fetched = c.ghost("g_fetched", reset=1)
    busy, done, taken, mem, front = capture(c, sigs, pretrigger, depth, d.enable if enable else None, trigger, sent)
    flags(c, d, busy, done, taken)
    word = valid & ready
    silent = c.ghost("g_silent", 3)
    with m.If(trigger):
        c.sync += [pending.eq(1), sent.eq(0)]
    with m.Elif(word):
        c.sync += sent.eq(sent + 1)
        with m.If(sent == depth - 1):
            c.sync += pending.eq(0)
    with m.If(pending & done & ~valid):
        c.sync += silent.eq(silent + 1)
    with m.Else():
        c.sync += silent.eq(0)
    held, was = c.ghost("g_held"), c.ghost("g_was", len(st.payload))
    c.sync += [held.eq(valid & ~ready), was.eq(st.payload)]
    c.mode(silent)
    c.ensure("words_only_after_a_complete_capture", c.implies(valid, pending & done))
    c.ensure("samples_in_order_zero_extended", c.implies(valid, st.payload == mem[sent]))
    c.ensure("first_word_flagged", c.implies(valid, st.first == (sent == 0)))
    c.ensure("last_word_flagged", c.implies(valid, st.last == (sent == depth - 1)))
    c.ensure("offered_word_is_held", c.implies(held, valid & (st.payload == was)))
    c.ensure("next_word_within_three_cycles_whatever_ready_does", silent < 3)
    c.cover("all_sent", word & st.last)
    c.cover("second_readout_starts", d.trigger & done & ~pending)
    c.cover("stalled", held & (sent == 1))


def uart(c, depth, widths, divisor, pretrigger=1, enable=False, domain="sync"):
    """the bytes on the line, from the probes to the serial line, with the real transmitter"""
    from amlib.debug.ila import AsyncSerialILA
    c.domain = domain
    m = c.m
    sigs = probes(c, widths)
    d = c.dut(AsyncSerialILA(signals=sigs, sample_depth=depth, divisor=divisor, samples_pretrigger=pretrigger, with_enable=enable, domain=domain))
    c.input(d.trigger, one=60)
    if enable:
        c.input(d.enable, one=150)
    W = sum(widths)
    B = max(1, (1 << (W - 1).bit_length()) // 8)
    N = B * depth
    pending, nb = c.ghost("g_pending"), c.ghost("g_bytes", range(N + 1))
    act, k, t, rest = c.ghost("g_act"), c.ghost("g_bit", range(10)), c.ghost("g_cyc", range(divisor)), c.ghost("g_rest", 10)
    trigger = d.trigger & ~pending
    num = c.ghost("g_sent", range(depth))
    busy, done, taken, mem, front = capture(c, sigs, pretrigger, depth, d.enable if enable else None, trigger, num)
    flags(c, d, busy, done, taken)
    begin, again = Signal(name="g_begin"), c.ghost("g_again")
    last_cycle = act & (k == 9) & (t == divisor - 1)
    c.comb += begin.eq(~act & ~d.tx)
    byte = Signal(8)
    every = Array(Cat(x, Const(0, 8 * B - W))[8 * i:8 * i + 8] for x in mem for i in range(B))
    c.comb += byte.eq(every[nb])
    # triggers are allowed before a capture, during it and during the readout until the last sample but one is on its way
    c.require("no_trigger_while_the_last_sample_leaves", ~d.trigger | ~pending | (nb + 1 + B < N))
    with m.If(trigger):
        c.sync += [pending.eq(1), nb.eq(0)]
    with m.If(begin):
        c.sync += [rest.eq(Cat(Const(0, 1), byte, Const(1, 1)) >> (divisor == 1)), act.eq(1), k.eq(int(divisor == 1)), t.eq(int(divisor > 1)), nb.eq(nb + 1)]
    with m.Elif(last_cycle):
        c.sync += [act.eq(0), k.eq(0), t.eq(0)]
        with m.If(nb == N):
            c.sync += [pending.eq(0), again.eq(1)]
    with m.Elif(act):
        c.sync += t.eq(Mux(t == divisor - 1, 0, t + 1))
        with m.If(t == divisor - 1):
            c.sync += [k.eq(k + 1), rest.eq(rest >> 1)]
    gap = c.ghost("g_gap", 4)
    c.mode(again)
    with m.If(pending & done & ~act & ~begin & (nb != N)):
        c.sync += gap.eq(gap + 1)
    with m.Else():
        c.sync += gap.eq(0)
    c.ensure("no_frame_but_for_a_sample", ~begin | (pending & done & (nb < N)))
    c.ensure("frames_carry_the_samples_least_significant_byte_first", ~act | (d.tx == rest[0]))
    c.ensure("frames_follow_without_delay", gap < 8)
    c.aux("pos", Mux(act, k * divisor + t + 1, 0))
    c.aux("where", Mux(pending & done, Cat(nb, Mux(act, k * divisor + t + 1, 0)[:7], gap, again), 0))
    c.mode("where")
    c.horizon = 12 * N * divisor + 40 * depth
    c.cover("all_sent", last_cycle & (nb == N))
    c.cover("second_capture", trigger & done)


class Device:
    """stands for SPIDeviceInterface: its contract (C14) instead of its body"""

    def __init__(self, n):
        import amlib.debug.ila as ila
        from amaranth import Module, Elaboratable
        from amlib.io.spi import SPIDeviceBus
        outer = self
        self.args, self.expected, self.ok = None, None, Signal(name="dev_configured")
        self.spi, self.word_out, self.word_in = SPIDeviceBus(), Signal(n, name="dev_word_out"), Signal(n, name="dev_word_in")
        self.word_accepted, self.word_complete = Signal(name="dev_accepted"), Signal(name="dev_complete")

        class SPIDeviceInterface(Elaboratable):
            def __init__(self, *, word_size=8, clock_polarity=0, clock_phase=0, msb_first=True, cs_idles_high=False, skip_input_cdc=False):
                outer.args = (word_size, clock_polarity, clock_phase, msb_first, cs_idles_high, skip_input_cdc)
                for k in ("spi", "word_out", "word_in", "word_accepted", "word_complete"):
                    setattr(self, k, getattr(outer, k))

            def elaborate(self, platform):
                m = Module()
                m.d.comb += outer.ok.eq(tuple(map(int, outer.args)) == tuple(map(int, outer.expected)))
                return m
        ila.SPIDeviceInterface = SPIDeviceInterface


def spi(c, depth, widths, phase=1, pol=0, csh=False, pretrigger=1, enable=False, domain="sync"):
    """word i of an SPI transaction is sample i (the number of samples is a power of two, then they repeat). The SPI device is
    represented by its contract: it takes word_out in every cycle in which it sees itself deselected (two cycles after the
    line) and with the last bit of each word, which it reports one cycle later with word_accepted"""
    from amlib.debug.ila import SyncSerialILA
    c.domain = domain
    m = c.m
    sigs = probes(c, widths)
    W = sum(widths)
    n = max(32, 1 << (W - 1).bit_length())
    dev = Device(n)
    dev.expected = (n, pol, phase, True, csh, False)
    d = c.dut(SyncSerialILA(signals=sigs, sample_depth=depth, clock_polarity=pol, clock_phase=phase, cs_idles_high=csh,
                            samples_pretrigger=pretrigger, with_enable=enable, domain=domain))
    c.input(d.trigger, one=20)
    c.input(d.spi.sck, d.spi.sdi, dev.spi.sdo)
    c.input(dev.word_in, dev.word_complete)
    if enable:
        c.input(d.enable, one=150)
    wi = c.ghost("g_word_number", range(depth))
    busy, done, taken, mem, front = capture(c, sigs, pretrigger, depth, d.enable if enable else None, d.trigger, wi)
    flags(c, d, busy, done, taken)
    # the host selects only a complete capture, at least five cycles after it completed or after the last transaction
    go, stop, last_bit = c.fresh(1, "host_selects", one=60), c.fresh(1, "host_stops", one=10), c.fresh(1, "last_bit", one=100)
    sel0, sel1, sel2, sel3 = Signal(name="r_sel"), c.ghost("s1_sel"), c.ghost("s2_sel"), c.ghost("s3_sel")
    calm, since = c.ghost("g_calm", 3), c.ghost("g_since", 4)
    c.comb += [sel0.eq(Mux(sel1, ~stop, go & (calm == 5))), d.spi.cs.eq(sel0 ^ csh)]
    c.sync += [sel1.eq(sel0), sel2.eq(sel1), sel3.eq(sel2)]
    with m.If(sel0 | sel1 | ~done | d.trigger):
        c.sync += calm.eq(0)
    with m.Elif(calm != 5):
        c.sync += calm.eq(calm + 1)
    c.require("no_trigger_during_a_transaction", ~d.trigger | ~(sel0 | sel1 | sel2 | sel3))
    taking, acc = Signal(name="r_takes"), c.ghost("g_accepted")
    c.comb += [taking.eq(sel2 & last_bit & (since == 12)), dev.word_accepted.eq(acc)]
    c.sync += acc.eq(taking)
    with m.If(~sel2 | taking):
        c.sync += since.eq(0)
    with m.Elif(since != 12):
        c.sync += since.eq(since + 1)
    nextw = Signal(range(depth))
    c.comb += nextw.eq(wi + 1)
    with m.If(taking):
        c.sync += wi.eq(nextw)
    with m.Elif(~sel2):
        c.sync += wi.eq(0)
    fore = Signal(W)
    c.comb += fore.eq(mem[nextw])
    c.ensure("a_transaction_starts_with_sample_0", c.implies(~sel2 & sel1, dev.word_out == mem[0]))
    c.ensure("each_word_is_followed_by_the_next_sample", c.implies(taking, dev.word_out == fore))
    c.ensure("device_of_the_configured_mode", dev.ok)
    c.ensure("bus_is_the_devices_bus", Cat(d.spi.sdo, dev.spi.cs, dev.spi.sck, dev.spi.sdi) == Cat(dev.spi.sdo, d.spi.cs, d.spi.sck, d.spi.sdi))
    c.aux("fore", fore)
    c.aux("seq", Cat(sel1, sel2, sel3, calm, acc, since, wi))
    c.mode("seq")
    c.mode(since, calm)
    c.aux("few", Cat(sel1, sel2, sel3, acc, since))
    c.mode("few")
    c.horizon = 40 * depth + 60
    c.cover("second_word", taking & (wi == 1))
    c.cover("all_words", taking & (wi == depth - 1))


def spi_wires(c, depth, widths, phase=1, pol=0, csh=False, pretrigger=1, enable=False, domain="sync"):
    """the same on the wires, with the real device"""
    from amlib.debug.ila import SyncSerialILA
    from .c14 import spi_device
    c.domain = domain
    m = c.m
    sigs = probes(c, widths)
    W = sum(widths)
    n = max(32, 1 << (W - 1).bit_length())
    d = c.dut(SyncSerialILA(signals=sigs, sample_depth=depth, clock_polarity=pol, clock_phase=phase, cs_idles_high=csh,
                            samples_pretrigger=pretrigger, with_enable=enable, domain=domain))
    c.input(d.trigger, one=6)
    if enable:
        c.input(d.enable, one=150)
    cs, sck, sdi, sdo = d.spi.cs, d.spi.sck, d.spi.sdi, d.spi.sdo
    c.input(sdi)
    # the host: selects only a complete capture, at least five cycles after it completed or after the last transaction, with
    # the clock idle; it may stop at any time
    go, stop, level = c.fresh(1, "host_selects", one=60), Signal(name="stop"), c.fresh(1, "host_clock")
    often, seldom = c.fresh(1, "host_stops", one=24), c.fresh(1, "host_stops_seldom", one=1)     # both arbitrary: only a bias
    cnt, late = c.ghost("g_cnt", range(n + 1)), c.ghost("g_late", 3)
    c.comb += stop.eq(Mux((cnt >= n - 1) | (late < 4), often, seldom))
    rsel, rclk, prs, prc = Signal(name="r_sel"), Signal(name="r_clk"), c.ghost("p_rsel"), c.ghost("p_rclk")
    boot, calm = c.ghost("g_boot", 3), c.ghost("g_calm", 3)
    c.comb += [rsel.eq(Mux(prs, ~stop, go & (calm == 5) & (boot == 5) & ~prc)), rclk.eq(Mux(rsel & ~prs, 0, level & (boot == 5))),
               cs.eq(rsel ^ csh), sck.eq(rclk ^ pol)]
    c.sync += [prs.eq(rsel), prc.eq(rclk)]
    with m.If(boot != 5):
        c.sync += boot.eq(boot + 1)
    wi = c.ghost("g_word_number", range(depth))
    busy, done, taken, mem, front = capture(c, sigs, pretrigger, depth, d.enable if enable else None, d.trigger, wi)
    flags(c, d, busy, done, taken)
    with m.If(rsel | ~done | d.trigger):
        c.sync += calm.eq(0)
    with m.Elif(calm != 5):
        c.sync += calm.eq(calm + 1)
    sel, clk, din, psel, pclk = spi_device(c, d, n, phase, pol, True, csh, False, (cs, sck, sdi, sdo))
    c.require("no_trigger_during_a_transaction", ~d.trigger | ~(rsel | prs | sel | psel))
    age = c.ghost("g_age", 3, 5)
    with m.If(rsel != prs):
        c.sync += age.eq(0)
    with m.Elif(age != 5):
        c.sync += age.eq(age + 1)
    c.aux("seq", Cat(prs, age, sel, psel, calm))
    c.mode("seq")
    up = boot >= 3
    lead, trail = up & clk & ~pclk, up & ~clk & pclk
    sample, shift = (lead, trail) if phase == 0 else (trail, lead)
    line, left = c.ghost("g_line"), c.ghost("g_left", n)
    out = shift | ((sel & ~psel & up) if phase == 0 else 0)
    nextw = Signal(range(depth))
    c.comb += nextw.eq(wi + 1)
    with m.If(sel & up):
        with m.If(late != 4):
            c.sync += late.eq(late + 1)
        with m.If(sample):
            c.sync += cnt.eq(cnt + 1)
            with m.If(cnt == n - 1):
                c.sync += [cnt.eq(0), wi.eq(nextw), left.eq(mem[nextw]), late.eq(0)]
        with m.If(out):
            c.sync += line.eq(left[-1])
            with m.If(~(sample & (cnt == n - 1))):
                c.sync += left.eq((left << 1)[:n])
    with m.Else():
        c.sync += [left.eq(mem[0]), cnt.eq(0), line.eq(0), wi.eq(0), late.eq(0)]
    sent = c.ghost("g_sent", range(n + 2))
    with m.If(~sel | ~up | (sample & (cnt == n - 1))):
        c.sync += sent.eq(0)
    with m.Elif(out):
        c.sync += sent.eq(Mux(sent == n + 1, sent, sent + 1))
    c.invariant("sent", sent <= n + 1)
    fore = Signal(W)
    c.comb += fore.eq(mem[nextw])
    c.aux("fore", fore)
    c.ensure("line_carries_the_samples_in_order_most_significant_bit_first", c.implies(sel & psel, sdo == line))
    c.horizon = 3 * 2 * n * depth + 100
    c.mode(sent, cnt, calm)
    c.aux("pos", Cat(pclk, psel, (cnt - sent)[:3]))
    c.aux("fetch", Cat(sel, psel, prs, Mux(prs, 0, age)[:3], late, wi))
    c.mode("pos", "fetch")
    c.cover("second_word", sel & (wi == 1) & (cnt == 2))


UNITS = [
    Unit("IntegratedLogicAnalyzer", core,
         [dict(pretrigger=n, depth=dp, enable=e) for n in (0, 1, 2, 3, 4) for dp, e in ((4, False), (5, True))]
         + [dict(pretrigger=8, depth=16, widths=(1, 3, 2), enable=True), dict(pretrigger=1, depth=16, widths=(8,), domain="usb")],
         ["amlib.debug.ila.IntegratedLogicAnalyzer"]),
    Unit("StreamILA", stream,
         [dict(depth=4, widths=(2, 1)), dict(depth=5, widths=(4, 1, 3), enable=True), dict(depth=8, widths=(1,), pretrigger=0), dict(depth=3, widths=(3, 2), pretrigger=3, enable=True, domain="usb"),
                                 dict(depth=4, widths=(2, 1), domain="fast", o_domain="sync"), dict(depth=3, widths=(9,), o_domain="usb", enable=True)],
         ["amlib.debug.ila.StreamILA", "amlib.debug.ila.IntegratedLogicAnalyzer"]),
    Unit("AsyncSerialILA", uart, [dict(depth=2, widths=(3, 2), divisor=2), dict(depth=3, widths=(9, 1), divisor=2, enable=True), dict(depth=2, widths=(20,), divisor=3, domain="usb")],
         ["amlib.debug.ila.AsyncSerialILA", "amlib.debug.ila.StreamILA"], budget=200),
    Unit("SyncSerialILA", spi, [dict(depth=4, widths=(3, 2)), dict(depth=2, widths=(12,), phase=0, pol=1, csh=True), dict(depth=8, widths=(20, 13), phase=0, enable=True, domain="usb")],
         ["amlib.debug.ila.SyncSerialILA"], budget=200),
    Unit("SyncSerialILA+SPIDeviceInterface", spi_wires, [dict(depth=4, widths=(3, 2)), dict(depth=2, widths=(12,), phase=0, pol=1, csh=True), dict(depth=2, widths=(9,), domain="usb")],
         ["amlib.debug.ila.SyncSerialILA"], only_simulate=True, budget=15),
]
