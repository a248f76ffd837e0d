"""C13 UARTTransmitter / UARTMultibyteTransmitter (stream/uart.py)"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit

ASSUMPTIONS = ["amaranth_soc is not installed: bus records come from the port-level stand-ins in /verif/stubs"]


def uart(c, div, wb=False):
    from amlib.stream.uart import UARTTransmitter, UARTTransmitterPeripheral
    c.horizon = max(400, 25 * div)
    if wb:
        d = c.dut(UARTTransmitterPeripheral(div))
        b = d.bus
        c.input(b.cyc, b.stb, b.we, one=200)
        c.input(b.dat_w)
        tx, valid, payload, ready = d.tx, b.cyc & b.stb & b.we, b.dat_w, b.ack
    else:
        d = c.dut(UARTTransmitter(divisor=div))
        c.input(d.stream.valid, one=100)
        c.input(d.stream.payload, d.stream.first, d.stream.last)
        tx, valid, payload, ready = d.tx, d.stream.valid, d.stream.payload, d.stream.ready
    act, k, t = c.ghost("g_act"), c.ghost("g_bit", range(10)), c.ghost("g_cyc", range(div))
    frame = c.ghost("g_frame", 10)
    rest = c.ghost("g_rest", 10)
    final = act & (k == 9) & (t == div - 1)
    free = ~act | final
    with c.m.If(act):
        with c.m.If(t == div - 1):
            c.sync += [t.eq(0), k.eq(k + 1), rest.eq(rest >> 1)]
            with c.m.If(k == 9):
                c.sync += [act.eq(0), k.eq(0)]
        with c.m.Else():
            c.sync += t.eq(t + 1)
    with c.m.If(free & valid):
        c.sync += [act.eq(1), k.eq(0), t.eq(0), rest.eq(Cat(Const(0, 1), payload, Const(1, 1)))]
    c.ensure("line_carries_8n1_frames_one_divisor_per_bit", tx == Mux(act, rest[0], 1))
    c.ensure("byte_accepted_only_when_idle_or_at_the_frame_end", ready == free)
    if not wb:
        c.ensure("driving_exactly_during_frames", d.driving == act)
        c.ensure("idle_exactly_between_frames", d.idle == ~act)
    c.mode(k)
    c.cover("back_to_back", final & valid)
    c.cover("to_idle", final & ~valid)


def multi(c, n, div):
    from amlib.stream.uart import UARTMultibyteTransmitter
    d = c.dut(UARTMultibyteTransmitter(byte_width=n, divisor=div))
    s = d.stream
    c.input(s.valid, one=200)
    c.input(s.payload, s.first, s.last)
    c.horizon = 30 * n * div + 100
    # bytes accepted and not yet on the line; a new word may be accepted when one byte is left
    Q = n + 1
    q, lv = c.ghost("q", 8 * Q), c.ghost("lv", range(Q + 1))
    act, k, t = c.ghost("g_act"), c.ghost("g_bit", range(10)), c.ghost("g_cyc", range(div))
    rest = c.ghost("g_rest", 10)
    gap = c.ghost("gap", 2)
    line = d.tx
    begin = Signal(name="begin")
    end = act & (k == 9) & (t == div - 1)
    push = s.valid & s.ready
    c.comb += begin.eq(~act & ~line)
    pop = begin
    lv1 = (lv - pop)[:len(lv)]
    q1 = Mux(pop, q >> 8, q)
    with c.m.If(push):
        c.sync += [q.eq(q1 | (Const(0, 8 * Q) | s.payload) << (8 * Mux(lv1 == 0, 0, 1))), lv.eq(lv1 + n)]
    with c.m.Else():
        c.sync += [q.eq(q1), lv.eq(lv1)]
    # follow the line: start bit seen in this cycle is cycle 0 of bit 0
    nxt_t, nxt_k = Mux(t == div - 1, 0, t + 1), Mux(t == div - 1, k + 1, k)
    with c.m.If(begin):
        c.sync += [rest.eq(Mux(div == 1, Cat(q[:8], Const(1, 2)), Cat(Const(0, 1), q[:8], Const(1, 1)))), act.eq(1),
                   k.eq(1 if div == 1 else 0), t.eq(0 if div == 1 else 1)]
    with c.m.Elif(end):
        c.sync += [act.eq(0), k.eq(0), t.eq(0)]
    with c.m.Elif(act):
        c.sync += [t.eq(nxt_t), k.eq(nxt_k)]
        with c.m.If(t == div - 1):
            c.sync += rest.eq(rest >> 1)
    with c.m.If(~act & (lv != 0) & ~begin):
        c.sync += gap.eq(Mux(gap == 3, 3, gap + 1))
    with c.m.Else():
        c.sync += gap.eq(0)
    c.ensure("no_frame_without_a_byte_to_send", ~begin | (lv != 0))
    c.ensure("frame_is_the_next_byte_least_significant_first", ~act | (line == rest[0]))
    c.ensure("word_accepted_only_when_at_most_one_byte_remains", ~push | (lv <= 1))
    c.ensure("bytes_follow_without_delay", gap < 2)
    c.ensure("idle_only_when_every_byte_was_handed_over", ~d.idle | (lv <= 1))
    c.ensure("ready_when_idle", ~d.idle | s.ready)
    c.aux("pos", Mux(act, k * div + t + 1, 0))
    c.aux("q1", q >> 8)
    c.mode("pos", lv)
    c.cover("second_word", push & (lv == 1))
    c.cover("idle_again", d.idle & end)


UNITS = [Unit("UARTTransmitter", uart, [dict(div=v) for v in (1, 2, 3, 10, 16, 87, 868)], ["amlib.stream.uart.UARTTransmitter"]),
         Unit("UARTTransmitterPeripheral", uart, [dict(div=v, wb=True) for v in (3, 16)], ["amlib.stream.uart.UARTTransmitterPeripheral"]),
         Unit("UARTMultibyteTransmitter", multi, [dict(n=n, div=v) for n, v in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (4, 2))], ["amlib.stream.uart.UARTMultibyteTransmitter", "amlib.stream.uart.UARTTransmitter"])]
