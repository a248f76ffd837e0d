"""C39 interrupt source and UART peripheral"""
from amaranth import Array
from amaranth.hdl.rec import Record
from vf.contract import *
from vf.runner import Unit

ASSUMPTIONS = ["amaranth_soc and lambdasoc are not installed: registers, bus bridges and decoders are port-level stand-ins in /verif/stubs; the registers of the "
               "peripheral are driven directly, the address decoding of the (external) bridge is not covered"]


def source(c, modes, stbs, status, pending, enable, irq):
    """contract of an interrupt source over its registers"""
    m, n = c.m, len(modes)
    st, pe, en, prev = (c.ghost("g_" + k, n) for k in ("status", "pending", "enable", "previous"))
    event = Signal(n, name="g_event")
    for i, (mode, s) in enumerate(zip(modes, stbs)):
        c.comb += event[i].eq({"level": s, "rise": s & ~prev[i], "fall": ~s & prev[i]}[mode])
    c.sync += [st.eq(Cat(*stbs)), prev.eq(Cat(*stbs)), pe.eq((pe & ~Mux(pending.w_stb, pending.w_data, 0)) | event)]
    with m.If(enable.w_stb):
        c.sync += en.eq(enable.w_data)
    c.ensure("status_shows_the_strobes", status.r_data == st)
    c.ensure("pending_from_the_event_until_cleared_by_software", pending.r_data == pe)
    c.ensure("enable_register", enable.r_data == en)
    c.ensure("irq_iff_an_enabled_event_is_pending", irq == (pe & en).any())
    c.cover("irq", irq)
    c.cover("event_while_cleared", pending.w_stb & (pending.w_data & event).any())


def interrupts(c, modes):
    from amlib.soc.event import EventSource, InterruptSource
    ev = [EventSource(mode=x, name=f"ev{i}") for i, x in enumerate(modes)]
    d = c.dut(InterruptSource(ev, name="irqs"))
    c.input(*[e.stb for e in ev])
    c.input(d.pending.w_stb, d.enable.w_stb, one=80)
    c.input(d.pending.w_data, d.enable.w_data)
    c.input(d.status.r_stb, d.pending.r_stb, d.enable.r_stb)
    source(c, modes, [e.stb for e in ev], d.status, d.pending, d.enable, d.irq)


class Phy:
    """stands for AsyncSerial: its contract (C11, C12) instead of its body: takes a word when tx.rdy and tx.ack, offers one with
    rx.rdy until rx.ack"""

    def __init__(self):
        import amlib.soc.uart as uart
        from amaranth import Module, Elaboratable, Signal
        outer = self
        outer.args = None

        class Part:
            pass

        class AsyncSerial(Elaboratable):
            def __init__(self, *, divisor, divisor_bits=None, data_bits=8, parity="none", pins=None):
                from amaranth.utils import bits_for
                outer.args = (divisor, divisor_bits, data_bits, parity)
                self.divisor = outer.divisor = Signal(divisor_bits or bits_for(divisor), reset=divisor, name="phy_divisor")
                self.rx, self.tx = outer.rx, outer.tx = Part(), Part()
                for x, o in ((self.rx, "i"), (self.tx, "o")):
                    x.data, x.rdy, x.ack = Signal(data_bits, name="phy_data_" + o), Signal(name="phy_rdy_" + o), Signal(name="phy_ack_" + o)
                    setattr(x, o, Signal(name="phy_" + o))
                self.rx.err = Record([("overflow", 1), ("frame", 1), ("parity", 1)], name="phy_err")

            def elaborate(self, platform):
                return Module()
        uart.AsyncSerial = AsyncSerial


def queue(c, name, width, depth, push, data, pop):
    """(level, oldest word) of a queue of `depth` words"""
    m = c.m
    mem = Array(c.ghost(f"g_{name}{k}", width) for k in range(depth))
    wp, rp, lv = (c.ghost(f"g_{name}_{k}", r) for k, r in (("w", range(depth)), ("r", range(depth)), ("level", range(depth + 1))))
    succ = lambda p: Mux(p == depth - 1, 0, p + 1)
    front = Signal(width, name="front_" + name)
    c.comb += front.eq(mem[rp])
    with m.If(push):
        c.sync += [mem[wp].eq(data), wp.eq(succ(wp))]
    with m.If(pop):
        c.sync += rp.eq(succ(rp))
    c.sync += lv.eq(lv + push - pop)
    c.aux("front_" + name, front)
    return lv, front


def uart(c, rx_depth=16, tx_depth=16, **kw):
    from amlib.soc.uart import UARTPeripheral
    from amaranth_soc import csr
    phy = Phy()
    d = UARTPeripheral(rx_depth=rx_depth, tx_depth=tx_depth, **kw)
    c.dut(d)
    reg = {k: next(e for e in reversed(csr.ELEMENTS) if e.name.endswith("_" + k)) for k in
           ("enabled", "divisor", "rx_data", "rx_rdy", "rx_err", "tx_data", "tx_rdy", "status", "pending", "enable")}
    for e in reg.values():
        for f in ("r_stb", "w_stb"):
            if f in e.layout.fields:
                c.input(e[f], one=100)
        if "w_data" in e.layout.fields:
            c.input(e.w_data)
    c.input(phy.rx.data, phy.rx.rdy, phy.tx.rdy, phy.tx.o, d.rx)
    c.input(phy.rx.err.overflow, phy.rx.err.frame, phy.rx.err.parity, one=60)
    m = c.m
    enabled, div = c.ghost("g_enabled"), c.ghost("g_divisor", len(phy.divisor), kw["divisor"])
    with m.If(reg["enabled"].w_stb):
        c.sync += enabled.eq(reg["enabled"].w_data)
    with m.If(reg["divisor"].w_stb):
        c.sync += div.eq(reg["divisor"].w_data)
    c.ensure("divisor_register", (reg["divisor"].r_data == div) & (phy.divisor == div))
    c.ensure("enabled_output", d.enabled == enabled)
    tpush, tpop, rpush, rpop = (Signal(name="g_" + k) for k in ("tpush", "tpop", "rpush", "rpop"))
    tl, tf = queue(c, "tx", len(phy.tx.data), tx_depth, tpush, reg["tx_data"].w_data, tpop)
    rl, rf = queue(c, "rx", len(phy.rx.data), rx_depth, rpush, phy.rx.data, rpop)
    c.comb += [tpush.eq(reg["tx_data"].w_stb & enabled & (tl != tx_depth)), tpop.eq((tl != 0) & phy.tx.rdy),
               rpush.eq(phy.rx.rdy & (rl != rx_depth)), rpop.eq(reg["rx_data"].r_stb & (rl != 0))]
    c.ensure("transmits_the_oldest_word", (phy.tx.ack == (tl != 0)) & ((tl == 0) | (phy.tx.data == tf)))
    c.ensure("tx_rdy_iff_the_transmit_buffer_has_room", reg["tx_rdy"].r_data == (tl != tx_depth))
    c.ensure("takes_received_words_while_the_buffer_has_room", phy.rx.ack == (rl != rx_depth))
    c.ensure("rx_rdy_iff_a_word_is_waiting", reg["rx_rdy"].r_data == (rl != 0))
    c.ensure("rx_data_is_the_oldest_word", (rl == 0) | (reg["rx_data"].r_data == rf))
    c.ensure("rx_err_shows_the_receiver_errors", reg["rx_err"].r_data == phy.rx.err)
    c.ensure("serial_lines", (d.tx == phy.tx.o) & (phy.rx.i == d.rx) & (d.driving == ~phy.tx.rdy))
    c.ensure("phy_as_configured", Const(phy.args == (kw["divisor"], kw.get("divisor_bits"), kw.get("data_bits", 8), kw.get("parity", "none"))))
    source(c, ["level", "rise", "rise"], [rl != 0, phy.rx.err.any(), tl == 0], reg["status"], reg["pending"], reg["enable"], d.irq)
    c.cover("tx_full", tl == tx_depth)
    c.cover("rx_full", rl == rx_depth)


UNITS = [
    Unit("InterruptSource", interrupts, [dict(modes=x) for x in (("level",), ("rise",), ("fall",), ("level", "rise", "fall"), ("fall", "fall", "rise", "level", "level"))],
         ["amlib.soc.event.InterruptSource"]),
    Unit("UARTPeripheral", uart, [dict(divisor=5), dict(divisor=100, rx_depth=4, tx_depth=2, divisor_bits=16, parity="even"), dict(divisor=8, rx_depth=1, tx_depth=3, data_bits=7)],
         ["amlib.soc.uart.UARTPeripheral", "amlib.soc.peripheral.PeripheralBridge", "amlib.soc.event.InterruptSource"]),
]
