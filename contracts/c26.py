"""C26 Timer"""
from vf.contract import *
from vf.runner import Unit


def timer(c, width, allow_restart=True):
    from amlib.utils.timer import Timer
    d = c.dut(Timer(width=width, allow_restart=allow_restart))
    c.input(d.load_in, d.reload_in, pool=[0, 1, 2, 3, 5], pool_pct=60)
    c.input(d.start)
    W = width + 1
    armed = c.ghost("g_armed", width)        # value a start in this cycle would use
    idle = c.ghost("g_idle", 1, 1)
    rem = c.ghost("g_rem", width)            # cycles until done (while not idle)
    done = ~idle & (rem == 0)
    m = c.m
    with m.If(idle):
        c.sync += armed.eq(Mux(d.load_in != 0, d.load_in, d.reload_in))
        with m.If(d.start & (armed != 0)):
            c.sync += [idle.eq(0), rem.eq(armed - 1)]
    with m.Elif(rem != 0):
        c.sync += rem.eq(rem - 1)
    with m.Elif(d.reload_in != 0):
        c.sync += rem.eq(d.reload_in - 1)
    with m.Elif(allow_restart):
        c.sync += [idle.eq(1), armed.eq(0)]
    c.ensure("done_exactly_after_load_or_reload_cycles", d.done == done)
    c.ensure("counter_shows_remaining_cycles", d.counter_out == Mux(idle, armed, rem))
    c.cover("done", done)
    c.cover("reload", done & (d.reload_in != 0))


UNITS = [Unit("Timer", timer, [dict(width=w, allow_restart=r) for w in (1, 2, 3, 5, 8, 16, 32) for r in (True, False)],
              ["amlib.utils.timer.Timer"])]
