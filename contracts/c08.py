"""C08 PacketListStreamer"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit


def packets(c, packets, width=None, valid=1):
    from amlib.stream import StreamInterface
    from amlib.stream.generator import PacketListStreamer
    W = width or 8

    class St(StreamInterface):
        def __init__(self, payload_width=8):
            super().__init__(payload_width=payload_width, extra_fields=[("x", 1)])
    kw = dict(stream_type=St) if valid > 1 else {}
    d = c.dut(PacketListStreamer([list(p) for p in packets], data_width=width, **kw))
    flat = [(v, i == 0, i == len(p) - 1) for p in packets for i, v in enumerate(p)]
    n = len(flat)
    c.input(d.start, one=128)
    c.input(d.stream.ready)
    # state: waiting for start / word `pos` of the list is due
    due, pos = c.ghost("g_due"), c.ghost("g_pos", range(n))
    gap = c.ghost("g_gap", 3)              # cycles since the word became due without valid
    fin = c.ghost("g_fin")                 # all words transferred, done not yet seen
    s = d.stream
    xfer = s.valid & s.ready
    with c.m.If(due):
        with c.m.If(xfer):
            c.sync += gap.eq(0)
            with c.m.If(pos == n - 1):
                c.sync += [due.eq(0), fin.eq(1), pos.eq(0)]
            with c.m.Else():
                c.sync += pos.eq(pos + 1)
        with c.m.Elif(~s.valid):
            c.sync += gap.eq(gap + 1)
    with c.m.Elif(fin):
        with c.m.If(d.done):
            c.sync += fin.eq(0)
        with c.m.Else():
            c.sync += gap.eq(gap + 1)
    with c.m.Elif(d.start):
        c.sync += [due.eq(1), gap.eq(0)]
    c.ensure("nothing_sent_unasked", c.implies(s.valid, due))
    c.ensure("words_in_order", c.implies(s.valid, s.payload == Array(Const(v, W) for v, _, _ in flat)[pos]))
    c.ensure("first_delimits_packets", c.implies(s.valid, s.first == Array(Const(int(f), 1) for _, f, _ in flat)[pos]))
    c.ensure("last_delimits_packets", c.implies(s.valid, s.last == Array(Const(int(l), 1) for _, _, l in flat)[pos]))
    c.ensure("done_once_after_the_last_packet", c.implies(d.done, fin))
    c.ensure("next_word_within_five_cycles", ~(due | fin) | (gap < 5))
    pv = c.ghost("pv")
    pay = c.ghost("ppay", W)
    c.sync += [pv.eq(s.valid & ~s.ready), pay.eq(s.payload)]
    c.ensure("held_until_accepted", c.implies(pv, s.valid & (s.payload == pay)))
    c.cover("done", d.done)
    again = c.ghost("again")
    with c.m.If(d.done):
        c.sync += again.eq(1)
    c.cover("second_round", again & xfer)


P1 = (b"Hi, ", b"dear", b" ", b"nMigen-", b"-", b"users!")
UNITS = [Unit("PacketListStreamer", packets,
              [dict(packets=P1), dict(packets=(b"A",)), dict(packets=(b"AB", b"C", b"DEFGH")), dict(packets=(b"ABCD", b"EFGH")), dict(packets=(b"A", b"B")),
               dict(packets=((0x1234, 0xffff), (1,), (0x8001, 2, 3)), width=16), dict(packets=((0x1234567, 5), (1,)), width=32), dict(packets=((1, 0, 3), (2, 2)), width=2), dict(packets=((1, 0x1ff, 3), (0x100,)), width=9),
               dict(packets=(b"abc", b"de"), valid=2), dict(packets=(bytes(range(16)), bytes(range(16))))],
              ["amlib.stream.generator.PacketListStreamer", "amlib.stream.generator.ConstantStreamGenerator"])]
