"""C05 StreamArbiter / StreamMultiplexer"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit


def stream_type(kind):
    from amlib.stream import StreamInterface

    class Wide(StreamInterface):
        def __init__(self, name=None):
            super().__init__(name=name, payload_width=32, valid_width=4)

    class Extra(StreamInterface):
        def __init__(self, name=None):
            super().__init__(name=name, payload_width=5, extra_fields=[("user", 3), ("err", 1)])
    return {"plain": StreamInterface, "wide": Wide, "extra": Extra}[kind]


def fields(kind):
    return ["valid", "first", "last", "payload"] + (["user", "err"] if kind == "extra" else [])


def mux(c, n, kind="plain"):
    from amlib.stream.arbiter import StreamMultiplexer
    st = stream_type(kind)
    d = StreamMultiplexer(stream_type=st)
    ins = [st(name=f"in{i}") for i in range(n)]
    for s in ins:
        d.add_input(s)
    c.dut(d)
    for s in ins:
        for f in fields(kind):
            c.input(s[f])
    c.input(d.output.ready)
    act = Cat(s.valid.any() for s in ins)
    c.require("one_stream_communicates_at_a_time", (act & (act - 1))[:n] == 0)
    for f in fields(kind):
        e = Const(0, len(d.output[f]))
        for s in ins:
            e = e | Mux(s.valid.any(), s[f], 0)
        c.ensure(f"output_{f}_is_the_active_streams", d.output[f] == e)
    for i, s in enumerate(ins):
        c.ensure(f"ready_only_to_the_active_stream_{i}", s.ready == (s.valid.any() & d.output.ready))
    c.cover("last", ins[-1].valid.any() & d.output.ready)


def arbiter(c, n, kind="plain", domain="sync"):
    from amlib.stream.arbiter import StreamArbiter
    c.domain = domain
    st = stream_type(kind)
    d = StreamArbiter(stream_type=st, domain=domain)
    ins = [st(name=f"in{i}") for i in range(n)]
    for s in ins:
        d.add_stream(s)
    c.dut(d)
    for s in ins:
        for f in fields(kind):
            c.input(s[f])
    c.input(d.source.ready)
    cur = c.ghost("g_cur", range(max(n, 2)))
    act = Array(s.valid.any() for s in ins)
    anyv = Cat(s.valid.any() for s in ins).any()
    with c.m.If(~act[cur]):
        for i in reversed(range(n)):
            with c.m.If(ins[i].valid.any()):
                c.sync += cur.eq(i)
    for f in fields(kind):
        c.ensure(f"source_{f}_is_the_selected_streams", d.source[f] == Array(s[f] for s in ins)[cur])
    for i, s in enumerate(ins):
        c.ensure(f"ready_only_to_the_selected_stream_{i}", s.ready == ((cur == i) & d.source.ready))
    c.ensure("idle_iff_no_stream_is_valid", d.idle == ~anyv)
    # the selection is kept for the whole burst (implied, stated separately)
    pv, pc = c.ghost("pv"), c.ghost("pc", len(cur))
    c.sync += [pv.eq(act[cur]), pc.eq(cur)]
    c.ensure("burst_never_interrupted", c.implies(pv & act[pc], cur == pc))
    if n > 1:
        c.cover("other_waits", act[0] & (cur != 0) & act[cur])


UNITS = [Unit("StreamMultiplexer", mux, [dict(n=n, kind=k) for n in (1, 2, 3, 5) for k in ("plain", "wide", "extra")],
              ["amlib.stream.arbiter.StreamMultiplexer", "amlib.stream.StreamInterface.attach"]),
         Unit("StreamArbiter", arbiter, [dict(n=n, kind=k) for n in (1, 2, 3, 4, 7) for k in ("plain", "wide", "extra")] + [dict(n=3, domain="usb")],
              ["amlib.stream.arbiter.StreamArbiter", "amlib.stream.StreamInterface.stream_eq"])]
