"""C12 AsyncSerialRX and transmit/receive loop back"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit
from .serial_common import parity_bit


def rx(c, bits, data_bits, parity, wrap=False, pins=False, reset=5):
    from amlib.io.serial import AsyncSerialRX, AsyncSerial
    from amaranth.hdl.rec import Record
    kw = dict(divisor=reset, divisor_bits=bits, data_bits=data_bits, parity=parity)
    if pins:
        p = Record([("tx", [("o", 1)]), ("rx", [("i", 1)])], name="pins")
        kw["pins"] = p
    if wrap:
        a = AsyncSerial(**kw)
        d, div = a.rx, a.divisor
        c.dut(a)
        c.input(a.tx.ack, a.tx.data)
    else:
        d = c.dut(AsyncSerialRX(**kw))
        div = d.divisor
    if bits is not None:
        c.input(div, pool=[5, 6, 7, 8], pool_pct=80, keep=250)
    c.input(d.ack)
    c.horizon = max(400, 20 * reset) if bits is None else 400
    if pins:
        c.input(p.rx.i, keep=200)
        s0, s1 = c.ghost("s0", 1, 1), c.ghost("s1", 1, 1)
        c.sync += [s0.eq(p.rx.i), s1.eq(s0)]
        line = s1
    else:
        c.input(d.i, keep=200)
        line = d.i
    n = 1 + data_bits + (parity != "none") + 1
    frame = c.ghost("g_frame", n)
    st, k, t = c.ghost("g_st", 2), c.ghost("g_k", range(n)), c.ghost("g_t", len(div))
    data, rdy, ovf, ferr, perr = c.ghost("g_data", data_bits), c.ghost("g_rdy"), c.ghost("g_ovf"), c.ghost("g_ferr"), c.ghost("g_perr")
    c.require("divisor_at_least_five", div >= 5)
    if bits is not None:
        pdiv = c.ghost("g_div", len(div))
        c.sync += pdiv.eq(div)
        c.require("divisor_stable_during_a_frame", (st == 0) | (div == pdiv))
    m = c.m
    with m.If(st == 0):
        with m.If(~line):
            c.sync += [st.eq(1), k.eq(0), t.eq(div >> 1)]      # centre of the start bit
    with m.Elif(st == 1):
        with m.If(t != 0):
            c.sync += t.eq(t - 1)
        with m.Else():
            c.sync += [frame.eq(Cat(frame[1:], line)), t.eq(div - 1)]
            with m.If(k == n - 1):
                c.sync += st.eq(2)
            with m.Else():
                c.sync += k.eq(k + 1)
    with m.Else():
        c.sync += st.eq(0)
        got = frame[1:1 + data_bits]
        with m.If(d.ack):
            pb = parity_bit(got, parity)
            c.sync += [data.eq(got), ferr.eq(frame[0] | ~frame[n - 1]), perr.eq((frame[1 + data_bits] != pb[0]) if pb else 0)]
        c.sync += ovf.eq(~d.ack)
    with m.If(d.ack):
        c.sync += rdy.eq(st == 2)
    c.ensure("ready_after_each_acknowledged_frame", d.rdy == rdy)
    c.ensure("data_is_the_bits_at_the_bit_centres", d.data == data)
    c.ensure("overflow_iff_last_frame_not_acknowledged", d.err.overflow == ovf)
    c.ensure("frame_error_iff_start_or_stop_wrong", d.err.frame == ferr)
    c.ensure("parity_error_iff_parity_wrong", d.err.parity == perr)
    c.cover("frame", st == 2)
    c.cover("good", rdy & ~ferr)
    c.cover("bad", rdy & ferr)
    if parity != "none":
        c.cover("parity_bad", rdy & perr)


def loop(c, div, data_bits, parity):
    """a transmitter connected to a receiver with the same fixed divisor: every word arrives, once, in order, error free"""
    from amlib.io.serial import AsyncSerial
    a = c.dut(AsyncSerial(divisor=div, data_bits=data_bits, parity=parity))
    c.comb += a.rx.i.eq(a.tx.o)
    c.input(a.tx.ack, one=200)
    c.input(a.tx.data)
    c.comb += a.rx.ack.eq(1)
    c.horizon = 40 * div
    push, pop = a.tx.rdy & a.tx.ack, a.rx.rdy
    n = 2 + data_bits + (parity != "none")
    # position of the frame being transmitted, and of the frame being received, in (bit, cycle)
    def tracker(name, begin, stop):
        on, bit, cyc = c.ghost(name + "_on"), c.ghost(name + "_bit", range(n + 2)), c.ghost(name + "_cyc", range(div))
        with c.m.If(begin):
            c.sync += [on.eq(1), bit.eq(0), cyc.eq(0)]
        with c.m.Elif(stop | ~on):
            c.sync += [on.eq(0), bit.eq(0), cyc.eq(0)]
        with c.m.Elif(cyc == div - 1):
            c.sync += [bit.eq(bit + 1), cyc.eq(0)]
        with c.m.Else():
            c.sync += cyc.eq(cyc + 1)
        return on, bit, cyc
    end, begin = Signal(name="send_end"), Signal(name="recv_begin")
    son, sbit, scyc = tracker("send", push, end)
    c.comb += [end.eq((sbit == n) & (scyc == div - 1)), begin.eq(son & (sbit == 0) & (scyc == div - 1))]
    ron, rbit, rcyc = tracker("recv", begin, pop)
    sent, recv = c.ghost("sent_frame", n), c.ghost("recv_frame", n)
    with c.m.If(push):
        c.sync += sent.eq(Cat(Const(0, 1), a.tx.data, *parity_bit(a.tx.data, parity), Const(1, 1)))
    with c.m.If(begin):
        c.sync += recv.eq(sent)
    c.ensure("every_word_is_delivered_once", ~pop | ron)
    c.ensure("before_the_next_one_begins", ~begin | ~ron | pop)
    c.ensure("and_in_time", ~ron | (rbit <= n))
    c.ensure("word_unchanged", ~pop | (a.rx.data == recv[1:1 + data_bits]))
    c.ensure("no_errors", ~pop | ~(a.rx.err.frame | a.rx.err.parity | a.rx.err.overflow))
    pb = parity_bit(recv[1:1 + data_bits], parity)
    sb = parity_bit(sent[1:1 + data_bits], parity)
    if pb:
        ever = c.ghost("ever"), c.ghost("rever")
        with c.m.If(push):
            c.sync += ever[0].eq(1)
        with c.m.If(begin):
            c.sync += ever[1].eq(1)
        c.invariant("sent_parity", ~ever[0] | (sent[1 + data_bits] == sb[0]))
        c.invariant("recv_parity", ~ever[1] | (recv[1 + data_bits] == pb[0]))
        c.invariant("begin_after_push", ~(son | ron) | ever[0])
        c.invariant("begin_after_push2", ~ron | ever[1])
    c.aux("spos", Mux(son, sbit * div + scyc + 1, 0))
    c.aux("rpos", Mux(ron, rbit * div + rcyc + 1, 0))
    c.mode("spos", "rpos")
    c.cover("delivered", pop)


CF = [dict(bits=b, data_bits=n, parity=p) for b, n, p in
      ((4, 8, "none"), (8, 8, "even"), (12, 8, "none"), (5, 7, "odd"), (6, 8, "mark"), (6, 8, "space"), (8, 9, "none"), (4, 1, "odd"))]
UNITS = [Unit("AsyncSerialRX", rx, CF + [dict(bits=None, data_bits=8, parity="none", reset=r) for r in (5, 868)] + [dict(bits=4, data_bits=8, parity="even", pins=True)],
              ["amlib.io.serial.AsyncSerialRX", "amlib.io.serial._compute_parity_bit"]),
         Unit("AsyncSerial.rx", rx, [dict(bits=5, data_bits=8, parity="even", wrap=True)], ["amlib.io.serial.AsyncSerial"]),
         Unit("loopback", loop, [dict(div=v, data_bits=n, parity=p) for v, n, p in ((5, 8, "none"), (6, 8, "even"), (7, 5, "odd"), (8, 4, "mark"))], ["amlib.io.serial.AsyncSerial"])]
