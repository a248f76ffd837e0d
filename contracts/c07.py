"""C07 StreamSerializer"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit


def serializer(c, n, width=8, mlw=None, domain="sync"):
    from amlib.stream.generator import StreamSerializer
    c.domain = domain
    d = c.dut(StreamSerializer(data_length=n, data_width=width, max_length_width=mlw, domain=domain))
    c.input(d.start, one=100)
    c.input(d.stream.ready)
    for s in d.data:
        c.input(s)
    if mlw:
        c.input(d.max_length, pool=list(range(min(n + 2, 1 << mlw))), pool_pct=80, keep=220)
    busy, fin = c.ghost("g_busy"), c.ghost("g_fin")
    pos = c.ghost("g_pos", range(n))
    if mlw:
        lim = c.ghost("g_lim", mlw)
        c.require("max_length_held_while_streaming", ~busy | (d.max_length == lim))
        nonzero = d.max_length != 0
        last = (pos == n - 1) | (pos + 1 >= lim)
    else:
        nonzero, last = Const(1), pos == n - 1
    with c.m.If(busy):
        with c.m.If(d.stream.ready):
            with c.m.If(last):
                c.sync += [busy.eq(0), fin.eq(1)]
            with c.m.Else():
                c.sync += pos.eq(pos + 1)
    with c.m.Elif(fin):
        c.sync += fin.eq(0)
    with c.m.Elif(d.start & nonzero):
        c.sync += [busy.eq(1), pos.eq(0)]
        if mlw:
            c.sync += lim.eq(d.max_length)
    s = d.stream
    c.ensure("valid_exactly_while_streaming", s.valid == busy)
    c.ensure("elements_in_order", c.implies(busy, s.payload == Array(d.data)[pos]))
    c.ensure("first_marks_the_first_element", s.first == (busy & (pos == 0)))
    c.ensure("last_marks_the_final_element", s.last == (busy & last))
    c.ensure("done_pulses_once_after_the_last_element", d.done == fin)
    if mlw:
        c.invariant("not_past_limit", ~busy | (pos < lim))
    c.cover("done", fin)
    c.cover("stalled", busy & ~s.ready)
    if mlw and n > 1:
        c.cover("limited", busy & last & (pos != n - 1))


UNITS = [Unit("StreamSerializer", serializer,
              [dict(n=n, width=w, mlw=m) for n, w in ((1, 8), (2, 8), (3, 16), (4, 8), (5, 1), (8, 8), (12, 24)) for m in (None, 2, 8)] + [dict(n=6, mlw=3, domain="usb")],
              ["amlib.stream.generator.StreamSerializer"])]
