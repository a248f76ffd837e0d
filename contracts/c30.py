"""C30 OneHotMultiplexer"""
from vf.contract import *
from vf.runner import Unit


def onehot(c, n, width, use_fn=False):
    from amlib.utils.bus import OneHotMultiplexer
    from amaranth.hdl.rec import Record

    class Bus(Record):
        def __init__(self, name=None):
            super().__init__([("valid", 1), ("data", width), ("tag", 2), ("irq", 1), ("flags", width), ("ready", 1), ("rsp", width)], name=name)

    mux = [("data") if not use_fn else (lambda b: b.data), "tag"]
    d = OneHotMultiplexer(interface_type=Bus, mux_signals=mux, or_signals=["irq", "flags"], pass_signals=["ready", "rsp"])
    ins = [Bus(name=f"b{i}") for i in range(n)]
    d.add_interfaces(ins[:n // 2])
    for b in ins[n // 2:n // 2 + 1]:
        d.add_interface(b)
    for b in ins[n // 2 + 1:]:
        d.add_input(b)
    c.dut(d)
    for b in ins:
        c.input(b.valid, one=60)
        c.input(b.data, b.tag, b.irq, b.flags)
    c.input(d.output.ready, d.output.rsp)
    valids = Cat(b.valid for b in ins)
    c.require("at_most_one_valid", (valids & (valids - 1))[:n] == 0)
    exp = {}
    for f in ("data", "tag"):
        e = Const(0, width)
        for b in ins:
            e = e | Mux(b.valid, getattr(b, f), 0)
        c.ensure(f"muxed_{f}_iff_valid", getattr(d.output, f) == e)
    for f in ("irq", "flags"):
        e = Const(0, width)
        for b in ins:
            e = e | getattr(b, f)
        c.ensure(f"ored_{f}", getattr(d.output, f) == e)
    for i, b in enumerate(ins):
        c.ensure(f"passed_back_{i}", (b.ready == d.output.ready) & (b.rsp == d.output.rsp))
    c.cover("last_selected", ins[-1].valid)
    c.cover("none", valids == 0)


UNITS = [Unit("OneHotMultiplexer", onehot, [dict(n=n, width=w) for n in (1, 2, 3, 4, 5, 8) for w in (1, 8)] + [dict(n=3, width=4, use_fn=True)],
              ["amlib.utils.bus.OneHotMultiplexer"])]
