"""C24 Debouncer"""
from vf.contract import *
from vf.runner import Unit


def debouncer(c):
    from amlib.io.debouncer import Debouncer
    d = c.dut(Debouncer())
    c.input(d.btn_in, keep=512 + 16)          # held for times of every order of magnitude up to 2^16
    c.horizon = 200000
    N = 1 << 15
    s0, s1, state = (c.ghost(f"g_{x}") for x in ("s0", "s1", "state"))
    run = c.ghost("g_run", range(N))         # consecutive earlier cycles in which the input disagreed
    c.sync += [s0.eq(~d.btn_in), s1.eq(s0)]
    differs = s1 != state
    flip = differs & (run == N - 1)
    with c.m.If(~differs | flip):
        c.sync += run.eq(0)
    with c.m.Else():
        c.sync += run.eq(run + 1)
    with c.m.If(flip):
        c.sync += state.eq(s1)
    c.ensure("state_changes_only_after_32768_disagreeing_cycles", d.btn_state_out == state)
    c.ensure("down_strobe_exactly_on_press", d.btn_down_out == (flip & ~state))
    c.ensure("up_strobe_exactly_on_release", d.btn_up_out == (flip & state))
    c.cover("down", d.btn_down_out)
    c.cover("up", d.btn_up_out)


UNITS = [Unit("Debouncer", debouncer, [dict()], ["amlib.io.debouncer.Debouncer"], sim_cycles=24000000)]
