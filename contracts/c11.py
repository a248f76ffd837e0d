"""C11 AsyncSerialTX"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit
from .serial_common import parity_bit


def tx(c, bits, data_bits, parity, reset=None, wrap=False, pins=False):
    """for every divisor that fits in `bits` bits, held constant while a frame is on the line"""
    from amlib.io.serial import AsyncSerialTX, AsyncSerial
    from amaranth.hdl.rec import Record
    reset = reset or 5
    kw = dict(divisor=reset, divisor_bits=bits, data_bits=data_bits, parity=parity)
    line = None
    c.horizon = max(400, 20 * reset)
    if pins:
        p = Record([("tx", [("o", 1)]), ("rx", [("i", 1)])], name="pins")
        kw["pins"] = p
        line = p.tx.o
    if wrap:
        a = AsyncSerial(**kw)
        d, div = a.tx, a.divisor
        c.dut(a)
        c.input(a.rx.ack)
        c.input(p.rx.i if pins else a.rx.i)
    else:
        d = c.dut(AsyncSerialTX(**kw))
        div = d.divisor
    if bits is not None:
        c.input(div, pool=[1, 2, 3, 4, 5, 8], pool_pct=80, keep=240)
    c.input(d.ack, one=120)
    c.input(d.data)
    n = 1 + data_bits + (parity != "none") + 1
    frame = c.ghost("g_frame", n)
    sending, k, t, o = c.ghost("g_sending"), c.ghost("g_k", range(n)), c.ghost("g_t", len(div)), c.ghost("g_o", 1, 1)
    c.require("divisor_at_least_one", div != 0)
    if bits is not None:
        pdiv = c.ghost("g_div", len(div))
        c.sync += pdiv.eq(div)
        c.require("divisor_stable_during_a_frame", ~sending | (div == pdiv))
        c.invariant("t_lt_div", ~sending | (t < pdiv))
    with c.m.If(sending):
        with c.m.If(t != 0):
            c.sync += t.eq(t - 1)
        with c.m.Else():
            c.sync += [o.eq(frame[0]), frame.eq(frame[1:]), t.eq(div - 1)]
            with c.m.If(k == n - 1):
                c.sync += sending.eq(0)
            with c.m.Else():
                c.sync += k.eq(k + 1)
    with c.m.Elif(d.ack):
        c.sync += [frame.eq(Cat(Const(0, 1), d.data, *parity_bit(d.data, parity), Const(1, 1))), k.eq(0), t.eq(div - 1), sending.eq(1)]
    c.ensure("line_carries_start_data_parity_stop_one_divisor_each", d.o == o)
    c.ensure("ready_only_between_frames", d.rdy == ~sending)
    if line is not None:
        c.ensure("pin_follows", line == o)
    c.invariant("count_down", ~sending | (k < n))
    c.cover("stop_bit", sending & (k == n - 1) & (t == 0))
    c.cover("data_bit", sending & (k == 2) & ~d.o)


CF = [dict(bits=b, data_bits=n, parity=p) for b, n, p in
      ((4, 8, "none"), (8, 8, "even"), (16, 8, "none"), (5, 7, "odd"), (6, 8, "mark"), (6, 8, "space"), (10, 5, "even"), (8, 9, "none"), (4, 1, "odd"), (8, 16, "even"))]
UNITS = [Unit("AsyncSerialTX", tx, CF + [dict(bits=None, data_bits=8, parity="none", reset=r) for r in (1, 2, 7, 868)] + [dict(bits=8, data_bits=8, parity="even", pins=True)],
              ["amlib.io.serial.AsyncSerialTX", "amlib.io.serial._compute_parity_bit", "amlib.io.serial._wire_layout"]),
         Unit("AsyncSerial.tx", tx, [dict(bits=8, data_bits=8, parity="even", wrap=True), dict(bits=6, data_bits=8, parity="none", wrap=True, pins=True)], ["amlib.io.serial.AsyncSerial"])]
