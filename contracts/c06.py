"""C06 ConstantStreamGenerator"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit


def expected_words(data, width, endianness):
    """(list of words, valid bytes in the last one) written independently of the repository"""
    if width == 8 or not isinstance(data, (bytes, bytearray)):
        return [x for x in data], (width + 7) // 8
    B = width // 8
    out = []
    for i in range(0, len(data), B):
        v = 0
        chunk = data[i:i + B]
        for j, b in enumerate(chunk):
            v |= b << (8 * j if endianness == "little" else 8 * (len(chunk) - 1 - j))
        out.append(v)
    last = len(data) - B * ((len(data) - 1) // B)
    return out, last


def generator(c, data, mlw=None, width=None, valid=1, endian="little", domain="sync"):
    from amlib.stream import StreamInterface
    from amlib.stream.generator import ConstantStreamGenerator
    c.domain = domain

    class St(StreamInterface):
        def __init__(self, payload_width=8):
            super().__init__(payload_width=payload_width, valid_width=valid)
    kw = dict(domain=domain, max_length_width=mlw, data_width=width, data_endianness=endian)
    if valid > 1:
        kw["stream_type"] = St
    d = c.dut(ConstantStreamGenerator(data, **kw))
    W = width or 8
    words, lastb = expected_words(data, W, endian)
    B = (W + 7) // 8
    n = len(words)
    c.input(d.start, one=100)
    c.input(d.start_position)
    c.input(d.stream.ready)
    if mlw:
        c.input(d.max_length, pool=[0, 1, 2, 3, B, n * B - 1, n * B, n * B + 1, n * B // 2], pool_pct=70, keep=220)
    c.mode(*([] if not mlw else []))
    busy, fin = c.ghost("g_busy"), c.ghost("g_fin")
    pos, cnt = c.ghost("g_pos", range(n)), c.ghost("g_cnt", range(n + 1))
    sp = Signal(range(n))
    c.comb += sp.eq(Mux(d.start_position >= n, n - 1, d.start_position))
    if mlw:
        lim = c.ghost("g_lim", mlw)
        c.require("max_length_held_while_streaming", ~busy | (d.max_length == lim))
        nonzero = d.max_length != 0
        at_limit = (cnt + 1) * B >= lim
        sent = c.ghost("g_sent", mlw)      # bytes before the current word
    else:
        nonzero, at_limit = Const(1), Const(0)
    at_end = pos == n - 1
    last = at_end | at_limit
    m = c.m
    with m.If(busy):
        with m.If(d.stream.ready):
            with m.If(last):
                c.sync += [busy.eq(0), fin.eq(1)]
            with m.Else():
                c.sync += [pos.eq(pos + 1), cnt.eq(cnt + 1)]
                if mlw:
                    c.sync += sent.eq(sent + B)
    with m.Elif(fin):
        c.sync += fin.eq(0)
    with m.Elif(d.start & nonzero):
        c.sync += [busy.eq(1), pos.eq(sp), cnt.eq(0)]
        if mlw:
            c.sync += [lim.eq(d.max_length), sent.eq(0)]
    if valid == 1:
        v = Const(1, 1)
    else:
        nb = Signal(range(B + 1))
        left = (lim - cnt * B) if mlw else Const(B)
        c.comb += nb.eq(B)
        with m.If(last):
            a = Mux(at_end, lastb, B)
            bb = Mux(at_limit, left[:8] if mlw else B, B)
            c.comb += nb.eq(Mux(a < bb, a, bb))
        v = Array(Const((1 << i) - 1, valid) for i in range(B + 1))[nb]
    s = d.stream
    c.ensure("valid_exactly_while_streaming", s.valid == Mux(busy, v, 0))
    c.ensure("words_in_order_from_start_position", c.implies(busy, s.payload == Array(Const(w, W) for w in words)[pos]))
    c.ensure("first_marks_the_first_word", s.first == (busy & (cnt == 0)))
    c.ensure("last_marks_the_final_word", s.last == (busy & last))
    c.ensure("done_pulses_once_after_the_last_word", d.done == fin)
    if mlw and (W == 8 or isinstance(data, (bytes, bytearray))):
        total = min(len(data), (1 << mlw) - 1)
        c.ensure("output_length_is_the_lesser", d.output_length == Mux(d.max_length < len(data), d.max_length, total))
    if mlw:
        c.invariant("sent_counts_words", ~busy | (cnt * B == sent))
        c.invariant("not_past_limit", ~busy | (cnt * B < lim))
        c.invariant("cnt_le_pos", cnt <= pos)
    c.cover("done", fin)
    c.cover("stalled", busy & ~s.ready)
    if n > 1:
        c.cover("late_start", busy & (cnt == 0) & (pos != 0))
    if mlw:
        c.cover("limited", busy & at_limit & s.ready)


H = b"HELLO, WORLD"
UNITS = [Unit("ConstantStreamGenerator", generator,
              [dict(data=H, mlw=m) for m in (None, 16, 3)] +
              [dict(data=H, width=32, valid=4, mlw=m, endian=e) for m, e in ((None, "little"), (16, "little"), (4, "big"))] +
              [dict(data=H[:11], width=32, valid=4, mlw=m, endian=e) for m, e in ((None, "big"), (5, "little"))] +
              [dict(data=b"0123456789abcde", width=16, endian="big"), dict(data=b"0123456789abcde", width=24, mlw=6),
               dict(data=b"A"), dict(data=b"A", mlw=2), dict(data=b"AB", mlw=1), dict(data=bytes(range(16)), mlw=5),
               dict(data=(1, 0xffff, 77, 0x8000, 3), width=16), dict(data=(1, 2, 3, 0, 1), width=3, mlw=4),
               dict(data=(1, 0x1ff, 77), width=9, mlw=4), dict(data=(5, 1 << 63, 9), width=64, valid=8, mlw=6),
               dict(data=(5, 1 << 31, 9), width=32, mlw=5, domain="usb"), dict(data=H, domain="usb", mlw=8)],
              ["amlib.stream.generator.ConstantStreamGenerator"])]
