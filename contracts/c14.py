"""C14 SPIDeviceInterface"""
from vf.contract import *
from vf.runner import Unit


class Resource:
    """SPI connector as a board file provides it"""
    def __init__(self):
        for n in ("clk", "copi", "cipo", "cs"):
            setattr(self, n, Signal(name="res_" + n))


def spi_device(c, d, n, phase, pol, msb, csh, skip, bus, hard=False):
    """contract of SPIDeviceInterface `d` on the lines bus = (cs, sck, sdi, sdo)"""
    m = c.m
    cs, sck, sdi, sdo = bus
    raw = (cs ^ csh, sck ^ pol, sdi)
    if skip:
        sel, clk, din = (Signal(name=x) for x in ("s_sel", "s_clk", "s_din"))
        c.comb += [sel.eq(raw[0]), clk.eq(raw[1]), din.eq(raw[2])]
    else:   # the input synchroniser: two stages, cleared by reset
        st, first = [], []
        for nme, r, rst in zip(("sel", "clk", "din"), (cs, sck, sdi), (csh, pol, 0)):
            a, b = c.ghost("s1_" + nme), c.ghost("s2_" + nme)
            c.sync += [a.eq(r), b.eq(a)]
            st.append((b ^ rst)[0])
            first.append((a ^ rst)[0])
        sel, clk, din = st
    psel, pclk = c.ghost("p_sel", 1, 0), c.ghost("p_clk", 1, 0)
    c.sync += [psel.eq(sel), pclk.eq(clk)]
    if not skip:
        c.aux("cdc", Cat(psel, pclk, *st[:2], *first[:2]))
        c.mode("cdc")
    return sel, clk, din, psel, pclk


def device(c, n=8, phase=0, pol=0, msb=True, csh=False, skip=False, resource=False):
    from amlib.io.spi import SPIDeviceInterface
    d = c.dut(SPIDeviceInterface(word_size=n, clock_polarity=pol, clock_phase=phase, msb_first=msb, cs_idles_high=csh, skip_input_cdc=skip))
    if resource:
        r = Resource()
        c.m.d.comb += d.connect_to_resource(r)
        # a board resource delivers the chip select active high
        cs, sck, sdi, sdo = r.cs, r.clk, r.copi, r.cipo
        ccs = ~cs if csh else cs
    else:
        cs, sck, sdi, sdo = d.spi.cs, d.spi.sck, d.spi.sdi, d.spi.sdo
        ccs = cs
    c.input(cs, keep=250)
    c.input(sck)
    c.input(sdi)
    c.input(d.word_out)
    m = c.m
    sel, clk, din, psel, pclk = spi_device(c, d, n, phase, pol, msb, csh, skip, (ccs, sck, sdi, sdo))
    # environment: idle after reset; chip select is asserted with the clock idle
    boot = c.ghost("g_boot", 3)
    with m.If(boot != 5):
        c.sync += boot.eq(boot + 1)
    rsel, rclk = (ccs ^ csh)[0], (sck ^ pol)[0]
    prs, prc = c.ghost("p_rsel"), c.ghost("p_rclk", 1, 0)
    c.sync += [prs.eq(rsel), prc.eq(rclk)]
    c.require("deselected_and_clock_idle_after_reset", (boot == 5) | (~rsel & ~rclk))
    c.require("clock_idle_when_selected", ~(rsel & ~prs) | (~rclk & ~prc))
    up = boot >= (1 if skip else 3)          # the synchronisers have settled
    lead, trail = up & clk & ~pclk, up & ~clk & pclk
    sample, shift = (lead, trail) if phase == 0 else (trail, lead)
    cnt, rx, tx = c.ghost("g_cnt", range(n + 1)), c.ghost("g_rx", n), c.ghost("g_tx", n)
    acc, comp, word = c.ghost("g_accepted"), c.ghost("g_complete"), c.ghost("g_word_in", n)
    line, left = c.ghost("g_line"), c.ghost("g_left", n)
    out = shift | ((sel & ~psel & up) if phase == 0 else 0)
    nxt = left[-1] if msb else left[0]
    c.sync += [acc.eq(0), comp.eq(acc)]
    with m.If(acc):
        c.sync += word.eq(rx)
    with m.If(sel & up):
        with m.If(sample):
            c.sync += [rx.eq(Cat(din, rx)[:n] if msb else Cat(rx, din)[1:]), cnt.eq(cnt + 1)]
            with m.If(cnt == n - 1):
                c.sync += [cnt.eq(0), acc.eq(1), left.eq(d.word_out)]
        with m.If(out):
            c.sync += line.eq(nxt)
            with m.If(~(sample & (cnt == n - 1))):
                c.sync += left.eq((left << 1)[:n] if msb else left >> 1)
    with m.Else():
        c.sync += [left.eq(d.word_out), cnt.eq(0), line.eq(0)]
    sent = c.ghost("g_sent", range(n + 2))
    with m.If(~sel | ~up | (sample & (cnt == n - 1))):
        c.sync += sent.eq(0)
    with m.Elif(out):
        c.sync += sent.eq(Mux(sent == n + 1, sent, sent + 1))
    c.invariant("sent", sent <= n + 1)
    c.ensure("word_complete_exactly_after_each_received_word", d.word_complete == comp)
    c.ensure("word_accepted_at_the_last_bit", d.word_accepted == acc)
    c.ensure("received_word", d.word_in == word)
    c.ensure("line_carries_the_word_in_bit_order", sdo == line)
    c.horizon = 60 * n + 60
    c.mode(sent, cnt)
    c.aux("pos", Cat(pclk, psel, (cnt - sent)[:3]))
    c.mode("pos")
    c.cover("second_word", comp & sel & psel)
    c.cover("aborted", ~sel & psel & (cnt != 0) if n > 1 else ~sel & psel)


CF = [dict(phase=p, pol=o, csh=h, skip=s) for p in (0, 1) for o in (0, 1) for h in (False, True) for s in (False, True)]
UNITS = [Unit("SPIDeviceInterface", device, CF + [dict(n=n, phase=p, msb=b) for n in (1, 3, 8, 12, 16) for p in (0, 1) for b in (True, False) if (n, b) != (8, True)]
              + [dict(n=8, phase=1, resource=True), dict(n=8, csh=True, resource=True), dict(n=32, phase=1, pol=1)],
              ["amlib.io.spi.SPIDeviceInterface"])]
