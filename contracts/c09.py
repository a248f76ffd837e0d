"""C09 StreamInterface connections and FIFO adapters"""
from amaranth import Array
from amaranth.lib.fifo import FIFOInterface, SyncFIFO, SyncFIFOBuffered
from vf.contract import *
from vf.runner import Unit


def link(c, how, payload=8, valid=1, extra=(), omit=None, tap_ready=False):
    from amlib.stream import StreamInterface
    extra = list(extra)
    mk = lambda n: StreamInterface(name=n, payload_width=payload, valid_width=valid, extra_fields=extra or None)
    a, b = mk("a"), mk("b")          # data flows from a to b
    names = ["valid", "first", "last", "payload"] + [e[0] for e in extra]
    om = set(omit or ())
    m = Module()
    if how == "attach":
        m.d.comb += a.attach(b, omit=omit)
    elif how == "connect":
        m.d.comb += a.connect(b, omit=omit)
    elif how == "stream_eq":
        m.d.comb += b.stream_eq(a, omit=omit)
    elif how == "tap":
        m.d.comb += b.tap(a, tap_ready=tap_ready)
        om = {"ready"} if not tap_ready else set()
    c.dut(m)
    for n in names:
        c.input(a[n])
    if how == "tap":
        c.input(a.ready)
    else:
        c.input(b.ready)
    for n in names:
        c.ensure(f"{n}_reaches_the_receiver", b[n] == (Const(0, len(b[n])) if n in om else a[n]))
    if how == "tap":
        c.ensure("tap_ready", b.ready == (a.ready if tap_ready else 0))
    else:
        c.ensure("ready_reaches_the_originator", a.ready == (0 if "ready" in om else b.ready))
    c.ensure("data_is_payload", (a.data == a.payload) & (b.data == b.payload))


def fifo_helpers(c, payload, width, first=None, last=None, depth=3, kind="plain"):
    """stream -> FIFO -> stream through the two adapter functions"""
    from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
    src, dst = StreamInterface(name="src", payload_width=payload), StreamInterface(name="dst", payload_width=payload)
    if kind == "plain":
        fi = FIFOInterface(width=width, depth=depth, fwft=True)
        m = Module()
        m.d.comb += connect_stream_to_fifo(src, fi, firstBit=first, lastBit=last)
        fo = FIFOInterface(width=width, depth=depth, fwft=True)
        m.d.comb += connect_fifo_to_stream(fo, dst, firstBit=first, lastBit=last)
        c.dut(m)
        c.input(src.valid, src.payload, src.first, src.last, dst.ready, fi.w_rdy, fo.r_rdy, fo.r_data)
        c.ensure("write_offered_when_valid", fi.w_en == src.valid)
        c.ensure("backpressure", src.ready == fi.w_rdy)
        c.ensure("payload_written", fi.w_data[:payload] == src.payload)
        if first is not None:
            c.ensure("first_written", fi.w_data[first] == src.first)
        if last is not None:
            c.ensure("last_written", fi.w_data[last] == src.last)
        c.ensure("valid_when_fifo_has_data", dst.valid == fo.r_rdy)
        c.ensure("read_when_ready", fo.r_en == dst.ready)
        c.ensure("payload_read", dst.payload == fo.r_data[:payload])
        c.ensure("first_read", dst.first == (fo.r_data[first] if first is not None else 0))
        c.ensure("last_read", dst.last == (fo.r_data[last] if last is not None else 0))
        return
    f = (SyncFIFO if kind == "sync" else SyncFIFOBuffered)(width=width, depth=depth)
    m = Module()
    m.submodules.fifo = f
    m.d.comb += connect_stream_to_fifo(src, f, firstBit=first, lastBit=last)
    m.d.comb += connect_fifo_to_stream(f, dst, firstBit=first, lastBit=last)
    c.dut(m)
    c.input(src.valid, src.payload, src.first, src.last, dst.ready)
    # ghost queue
    n = depth
    cap = n
    q = Array(c.ghost(f"q{i}", payload + 2) for i in range(cap))
    wp, rp, lv = c.ghost("g_wp", range(cap)), c.ghost("g_rp", range(cap)), c.ghost("g_lv", range(cap + 1))
    push, pop = src.valid & src.ready, dst.valid & dst.ready
    with c.m.If(push):
        c.sync += [q[wp].eq(Cat(src.payload, src.first & (first is not None), src.last & (last is not None))), wp.eq(Mux(wp == cap - 1, 0, wp + 1))]
    with c.m.If(pop):
        c.sync += rp.eq(Mux(rp == cap - 1, 0, rp + 1))
    c.sync += lv.eq(lv + push - pop)
    c.ensure("valid_only_when_something_is_held", c.implies(dst.valid, lv != 0))
    c.ensure("delivered_in_order_unchanged", c.implies(dst.valid, Cat(dst.payload, dst.first, dst.last) == q[rp]))
    c.ensure("never_overfilled", lv <= n)
    c.cover("full", ~src.ready & src.valid)
    c.cover("moved", pop)


EX = (("user", 3), ("err", 1))
UNITS = [Unit("StreamInterface", link,
              [dict(how=h, payload=p, valid=v, extra=e) for h in ("attach", "connect", "stream_eq", "tap")
               for p, v, e in ((8, 1, ()), (1, 1, ()), (32, 4, ()), (24, 1, EX))] +
              [dict(how=h, omit=o, extra=EX) for h in ("attach", "connect", "stream_eq") for o in (("ready",), ("valid", "user"), ("first", "last", "payload"))] +
              [dict(how="tap", tap_ready=True), dict(how="tap", tap_ready=True, extra=EX)],
              ["amlib.stream.StreamInterface.attach", "amlib.stream.StreamInterface.connect", "amlib.stream.StreamInterface.stream_eq", "amlib.stream.StreamInterface.tap"]),
         Unit("FifoAdapters", fifo_helpers,
              [dict(payload=8, width=8), dict(payload=8, width=10, first=8, last=9), dict(payload=8, width=9, last=8), dict(payload=24, width=26, first=25, last=24),
               dict(payload=4, width=5, first=4)] +
              [dict(payload=8, width=10, first=8, last=9, depth=n, kind="sync") for n in (1, 2, 3, 4)],
              ["amlib.stream.connect_fifo_to_stream", "amlib.stream.connect_stream_to_fifo"])]
