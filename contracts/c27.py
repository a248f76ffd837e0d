"""C27 SimpleClockDivider / DividingCounter"""
from vf.contract import *
from vf.runner import Unit


def clockdiv(c, divisor, pol):
    from amlib.utils.clockdivider import SimpleClockDivider
    d = c.dut(SimpleClockDivider(divisor, pol))
    c.input(d.clock_enable_in, keep=230)
    half = divisor // 2
    # ghost: cycles modulo half a period; the enable sampled at each half period boundary decides
    n = c.ghost("g_n", 16)
    out = c.ghost("g_out", 1, pol)
    m = c.m
    with m.If(n == half - 1):
        c.sync += [n.eq(0), out.eq(Mux(d.clock_enable_in, ~out, pol))]
    with m.Else():
        c.sync += n.eq(n + 1)
    c.ensure("clock_toggles_every_half_divisor_and_parks_at_polarity", d.clock_out == out)
    c.invariant("n", n < half)
    c.cover("active", out != pol)


def divcounter(c, divisor, width):
    from amlib.utils.dividingcounter import DividingCounter
    d = c.dut(DividingCounter(divisor, width))
    c.input(d.reset_in, one=6)
    c.input(d.active_in)
    M = 1 << width
    n = c.ghost("g_n", width)              # counted cycles since reset, modulo 2**width
    q = c.ghost("g_q", width)              # how often a multiple of the divisor was reached
    r = c.ghost("g_r", 16)                 # position of n in its divisor period
    dv = c.ghost("g_dividable")
    seen = c.ghost("g_fresh", 1, 0)        # an active cycle happened since reset
    m = c.m
    with m.If(d.reset_in):
        c.sync += [n.eq(0), q.eq(0), r.eq(0), seen.eq(0)]
    with m.Elif(d.active_in):
        c.sync += [n.eq(n + 1), seen.eq(1)]
        c.sync += dv.eq(r == divisor - 1)
        with m.If(r == divisor - 1):
            c.sync += [q.eq(q + 1), r.eq(0)]
        with m.Else():
            c.sync += r.eq(r + 1)
        with m.If(n == M - 1):
            c.sync += r.eq(0)
    c.ensure("counter_counts_active_cycles", d.counter_out == n)
    c.ensure("divided_counter_counts_multiples", d.divided_counter_out == q)
    # whenever the counter has advanced since reset, dividable flags an exact multiple of the divisor
    c.ensure("dividable_iff_divisor_elapsed", c.implies(seen & (n != 0), d.dividable_out == (n % divisor == 0))
             if width <= 8 and divisor <= M - 1 else c.implies(seen, d.dividable_out == dv))
    c.ensure("dividable_tracks_period", c.implies(seen, d.dividable_out == dv))
    c.invariant("r", r < divisor)
    if width <= 8:
        c.invariant("r_is_n_mod_divisor", r == n % divisor)
        c.invariant("dv_is_multiple", ~seen | (n == 0) | (dv == (n % divisor == 0)))
    c.cover("wrap", (n == 0) & seen)
    c.horizon = 3 * M if width <= 8 else 600
    if width > 8:
        c._cov.clear()


UNITS = [
    Unit("SimpleClockDivider", clockdiv, [dict(divisor=k, pol=p) for k in (2, 4, 6, 8, 10, 16, 20, 34, 100, 256) for p in (0, 1)],
         ["amlib.utils.clockdivider.SimpleClockDivider"]),
    Unit("DividingCounter", divcounter, [dict(divisor=k, width=w) for k, w in
         ((2, 3), (3, 3), (4, 3), (5, 5), (2, 1), (3, 2), (7, 4), (8, 4), (10, 8), (16, 8), (100, 8), (5, 16), (31, 5), (6, 6))],
         ["amlib.utils.dividingcounter.DividingCounter"]),
]
