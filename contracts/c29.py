"""C29 synchronize()"""
from vf.contract import *
from vf.runner import Unit


def delay_line(c, x, stages, name):
    p = x
    for i in range(stages):
        n = Signal(len(x), name=f"g_{name}_{i}")
        c.sync += n.eq(p)
        p = n
    return p


def plain(c, width, stages, domain="sync", given=False):
    from amlib.utils import synchronize
    c.domain = domain
    x = Signal(width, name="x")
    c.input(x)
    mm = Module()
    kw = {}
    if given:
        kw["output"] = Signal(width, name="given")
    y = synchronize(mm, x, o_domain=domain, stages=stages, **kw)
    if given:
        assert y is kw["output"]
    c.dut(mm)
    c.ensure("width", Const(int(len(y) == width)))
    c.ensure("delayed_by_exactly_stages", y == delay_line(c, x, stages, "x"))
    c.cover("nonzero", y != 0)


def record(c, stages, nested=True, domain="sync"):
    from amlib.utils import synchronize
    from amaranth.hdl.rec import Record, DIR_FANIN, DIR_FANOUT
    c.domain = domain
    lay = [("a", 3, DIR_FANIN), ("b", 1, DIR_FANIN), ("o", 2, DIR_FANOUT), ("p", 1)]
    if nested:
        lay.append(("n", [("x", 2, DIR_FANIN), ("y", 4, DIR_FANOUT)]))
    r = Record(lay, name="rec")
    mm = Module()
    y = synchronize(mm, r, o_domain=domain, stages=stages)
    c.dut(mm)
    ins = [("a", r.a, y.a), ("b", r.b, y.b), ("p", r.p, y.p)]
    outs = [("o", r.o, y.o)]
    if nested:
        ins.append(("nx", r.n.x, y.n.x))
        outs.append(("ny", r.n.y, y.n.y))
    for n, a, b in ins:
        c.input(a)
        c.ensure(f"input_{n}_delayed_by_stages", b == delay_line(c, a, stages, n))
    for n, a, b in outs:
        c.input(b)
        c.ensure(f"output_{n}_passed_through", a == b)


def selfsync(c):
    """an object that knows how to synchronize itself is asked to"""
    from amlib.utils import synchronize
    calls = []

    class S(Signal):
        def _synchronize_(self, m, output, o_domain, stages):
            calls.append((o_domain, stages))
            m.d.comb += output.eq(~self)
    x = S(4, name="x")
    c.input(x)
    mm = Module()
    y = synchronize(mm, x, o_domain="sync", stages=3)
    c.dut(mm)
    g = c.ghost("g_dummy")
    c.sync += g.eq(1)
    c.ensure("delegated", Const(int(calls == [("sync", 3)])) & (y == ~x))


UNITS = [
    Unit("synchronize", plain, [dict(width=w, stages=s) for w in (1, 2, 4, 9) for s in (2, 3, 4)] +
         [dict(width=2, stages=2, domain="fast"), dict(width=3, stages=3, domain="usb", given=True)],
         ["amlib.utils.cdc.synchronize"]),
    Unit("synchronize_record", record, [dict(stages=2), dict(stages=3), dict(stages=2, nested=False), dict(stages=2, domain="fast")],
         ["amlib.utils.cdc.synchronize"]),
]
