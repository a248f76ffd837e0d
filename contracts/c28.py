"""C28 edge detectors, past_value_of, EdgeToPulse, stretch_strobe_signal"""
from vf.contract import *
from vf.runner import Unit


def detector(c, kind, width, domain="sync"):
    import amlib.utils as u
    x = Signal(width, name="x")
    c.input(x)
    mm = Module()
    c.domain = domain
    f = {"rising": u.rising_edge_detected, "falling": u.falling_edge_detected, "any": u.any_edge_detected,
         "past": u.past_value_of}[kind]
    y = f(mm, x, domain=domain)
    c.dut(mm)
    past = c.ghost("g_past", width)
    c.sync += past.eq(x)
    if kind == "past":
        c.ensure("value_one_cycle_ago", y == past)
        c.ensure("full_width", Const(int(len(y) >= width)))
    elif kind == "rising":
        c.ensure("pulse_iff_rising_edge", y == (x & ~past))
    elif kind == "falling":
        c.ensure("pulse_iff_falling_edge", y == (~x & past))
    else:
        c.ensure("pulse_iff_changed", y == (x != past))
    if kind != "past":
        c.cover("edge", y)


def edgetopulse(c):
    from amlib.utils import EdgeToPulse
    d = c.dut(EdgeToPulse())
    c.input(d.edge_in)
    past = c.ghost("g_past")
    was = c.ghost("g_pulse_before")
    c.sync += [past.eq(d.edge_in), was.eq(d.pulse_out)]
    c.ensure("pulse_iff_rising_edge", d.pulse_out == (d.edge_in & ~past))
    c.ensure("pulse_is_one_cycle", ~(was & d.pulse_out))
    c.cover("pulse", d.pulse_out)


def stretch(c, to_cycles, allow_delay=False, given=False):
    from amlib.utils import stretch_strobe_signal
    s = Signal(name="strobe")
    c.input(s)
    mm = Module()
    kw = {}
    if allow_delay:
        kw["allow_delay"] = True
    if given:
        o = Signal(name="given_out")
        kw["output"] = o
    out = stretch_strobe_signal(mm, s, to_cycles=to_cycles, **kw)
    if given:
        assert out is o
    c.dut(mm)
    # ghost: number of cycles for which the output still has to be high after the last strobe
    n = c.ghost("g_left", 16)
    m = c.m
    delay = allow_delay and to_cycles > 1
    with m.If(s):
        c.sync += n.eq(to_cycles - (0 if delay else 1))
    with m.Elif(n != 0):
        c.sync += n.eq(n - 1)
    exp = (n != 0) if delay else (s | (n != 0))
    c.ensure("high_for_exactly_to_cycles_after_each_strobe", out == exp)
    c.invariant("n", n <= to_cycles)
    c.mode(n)
    if to_cycles > 1:
        c.cover("stretched", out & ~s)


UNITS = [
    Unit("edge_detectors", detector,
         [dict(kind=k, width=1, domain=d) for k in ("rising", "falling", "any", "past") for d in ("sync", "usb")]
         + [dict(kind=k, width=w) for k in ("any", "past") for w in (2, 3, 8, 17)],
         ["amlib.utils.rising_edge_detected", "amlib.utils.falling_edge_detected", "amlib.utils.any_edge_detected",
          "amlib.utils.past_value_of"]),
    Unit("EdgeToPulse", edgetopulse, [{}], ["amlib.utils.edgetopulse.EdgeToPulse"]),
    Unit("stretch_strobe_signal", stretch,
         [dict(to_cycles=k) for k in (1, 2, 3, 4, 5, 8, 13, 32)] +
         [dict(to_cycles=k, allow_delay=True) for k in (1, 2, 3, 4, 7, 16)] + [dict(to_cycles=3, given=True)],
         ["amlib.utils.cdc.stretch_strobe_signal"]),
]
