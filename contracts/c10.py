"""C10 I2CStreamTransmitter"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit
from .c20 import Pads


def stream(c, period, stretch, depth, bare=False):
    from amlib.stream.i2c import I2CStreamTransmitter
    pads = Pads(bare)
    scl, sda = (pads.scl, pads.sda) if bare else (pads.scl_t, pads.sda_t)
    d = c.dut(I2CStreamTransmitter(pads, period, clk_stretch=stretch, fifo_depth=depth))
    i, s = d.i2c, d.stream_in
    ext_scl, ext_sda = c.fresh(1, "ext_scl", one=200), c.fresh(1, "ext_sda")
    c.comb += [scl.i.eq(~scl.oe & ext_scl), sda.i.eq(~sda.oe & ext_sda)]
    c.input(s.valid)
    c.input(s.payload)
    c.input(s.first, one=128)
    c.input(s.last, one=60)
    m = c.m
    # ghost: the bytes accepted from the stream and not yet written
    mem = Array(c.ghost(f"g_mem{k}", 10) for k in range(depth))
    wp, rp, lv = c.ghost("g_wp", range(depth)), c.ghost("g_rp", range(depth)), c.ghost("g_level", range(depth + 1))
    succ = lambda p: Mux(p == depth - 1, 0, p + 1)
    front = Signal(10)
    c.comb += front.eq(mem[rp])
    push, pop = s.valid & s.ready, i.write
    with m.If(push):
        c.sync += [mem[wp].eq(Cat(s.payload, s.first, s.last)), wp.eq(succ(wp))]
    with m.If(pop):
        c.sync += rp.eq(succ(rp))
    c.sync += lv.eq(lv + push - pop)
    OUT, BODY, END = range(3)
    st = c.ghost("g_packet", 2)
    with m.Switch(st):
        with m.Case(OUT):
            with m.If(i.start):
                c.sync += st.eq(BODY)
        with m.Case(BODY):
            with m.If(i.write & front[9]):
                c.sync += st.eq(END)
        with m.Case(END):
            with m.If(i.stop):
                c.sync += st.eq(OUT)
    some = lv != 0
    c.ensure("accepts_bytes_while_the_buffer_has_room", s.ready == (lv != depth))
    c.ensure("start_exactly_for_the_first_byte_of_a_packet", (i.start & ~i.busy) == ((st == OUT) & some & front[8] & ~i.busy))
    c.ensure("write_exactly_for_each_byte_of_the_packet", (i.write & ~i.busy) == ((st == BODY) & some & ~i.busy))
    c.ensure("written_octet_is_the_next_byte", ~i.write | (i.data_i == front[:8]))
    c.ensure("stop_exactly_after_the_last_byte", (i.stop & ~i.busy) == ((st == END) & ~i.busy))
    c.ensure("requests_only_while_the_initiator_is_idle", ~(i.start | i.write | i.stop) | ~i.busy)
    c.ensure("never_reads", ~i.read)
    c.horizon = 40 * period * (depth + 2)
    c.mode(st)
    c.aux("front", front)
    c.cover("last", i.write & front[9])
    c.cover("stop", i.stop)
    c.cover("waits_for_data", (st == BODY) & ~i.busy & ~some)
    c.cover("second_packet", i.start & (rp == 1) if depth > 1 else i.start)


UNITS = [Unit("I2CStreamTransmitter", stream, [dict(period=4, stretch=False, depth=4), dict(period=4, stretch=True, depth=2), dict(period=8, stretch=False, depth=1),
              dict(period=16, stretch=True, depth=3, bare=True), dict(period=4, stretch=False, depth=16)],
              ["amlib.stream.i2c.I2CStreamTransmitter", "amlib.stream.connect_stream_to_fifo"],
              thorough=[dict(period=100, stretch=True, depth=16), dict(period=4, stretch=True, depth=32)])]
