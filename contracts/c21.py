"""C21 I2CTarget"""
from vf.contract import *
from vf.runner import Unit
from .c20 import Pads


def target(c, bare=False, fast=False):
    from amlib.io.i2c import I2CTarget
    pads = Pads(bare)
    scl, sda = (pads.scl, pads.sda) if bare else (pads.scl_t, pads.sda_t)
    d = c.dut(I2CTarget(pads))
    c.input(d.address, keep=256 + 10)
    c.input(d.ack_o, d.data_o)
    c.input(d.busy, one=0)
    c.require("no_clock_stretching_requested", ~d.busy)
    ext_scl, ext_sda = Signal(name="ext_scl"), Signal(name="ext_sda")
    # the initiator mostly sends the target's address: pick the data bit accordingly in the simulation
    want = c.fresh(1, "want", one=235)
    c.input(ext_scl, keep=180, one=128)
    raw = c.fresh(1, "raw_sda", keep=180, one=128)
    m = c.m
    L = Signal(name="line_scl"), Signal(name="line_sda")
    c.comb += [L[0].eq(~scl.oe & ext_scl), L[1].eq(~sda.oe & ext_sda), scl.i.eq(L[0]), sda.i.eq(L[1])]
    s0, s1, s2, d0, d1, d2 = (c.ghost(x, 1, 1) for x in ("s0", "s1", "s2", "d0", "d1", "d2"))
    c.sync += [s0.eq(L[0]), s1.eq(s0), s2.eq(s1), d0.eq(L[1]), d1.eq(d0), d2.eq(d1)]
    pe = c.ghost("p_ext_sda", 1, 1)
    c.sync += pe.eq(ext_sda)
    c.require("clock_and_data_do_not_change_together", (L[0] == s0) | (L[1] == d0))
    age, pscl = c.ghost("g_scl_age", 3, 7), c.ghost("p_scl", 1, 1)
    c.sync += pscl.eq(ext_scl)
    with m.If(pscl != ext_scl):
        c.sync += age.eq(1)
    with m.Elif(age != 7):
        c.sync += age.eq(age + 1)
    c.require("clock_phases_last_at_least_four_cycles", (pscl == ext_scl) | (age >= 4))
    rise, fall = s1 & ~s2, s2 & ~s1
    start, stop = s1 & d2 & ~d1, s1 & d1 & ~d2
    IDLE, START, ADDR, AACK, WR, WACK, RD, RACK = range(8)
    ph, cnt, sh, out = c.ghost("g_phase", 3), c.ghost("g_cnt", 4), c.ghost("g_sh", 8), c.ghost("g_out", 8)
    drv, wstrobe, di = c.ghost("g_drive"), c.ghost("g_write"), c.ghost("g_data_i", 8)
    first = c.ghost("g_first_bit")
    # steer the environment towards the address of the device (no restriction: `want` may be low)
    hit = Mux(cnt < 7, (Cat(d.address, Const(0, 1)) << cnt[:3])[6], raw)
    c.comb += ext_sda.eq(Mux(want & (ph == ADDR) & ~s1 & ~s0, hit, Mux(want, Mux(L[0] & s0, pe, raw), raw)))
    selected = ph >= AACK
    e_start, e_stop, e_restart, e_read = (Signal(name=x) for x in ("e_start", "e_stop", "e_restart", "e_read"))
    c.sync += wstrobe.eq(0)
    with m.If(stop):
        c.sync += ph.eq(IDLE)
        c.comb += e_stop.eq(selected)
    with m.Elif(start):
        c.sync += ph.eq(START)
        c.comb += e_restart.eq(selected)
    with m.Else():
        with m.Switch(ph):
            with m.Case(START):
                with m.If(fall):
                    c.sync += [ph.eq(ADDR), cnt.eq(0)]
            with m.Case(ADDR):
                with m.If(rise):
                    c.sync += [sh.eq(Cat(d1, sh[:7])), cnt.eq(cnt + 1)]
                with m.Elif(fall & (cnt == 8)):
                    with m.If(sh[1:] == d.address):
                        c.sync += [ph.eq(AACK), drv.eq(1)]
                        c.comb += e_start.eq(1)
                    with m.Else():
                        c.sync += ph.eq(IDLE)
            with m.Case(AACK):
                with m.If(rise & sh[0]):
                    c.sync += [out.eq(d.data_o), ph.eq(RD), cnt.eq(0), first.eq(1)]
                    c.comb += e_read.eq(1)
                with m.Elif(fall & ~sh[0]):
                    c.sync += [drv.eq(0), ph.eq(WR), cnt.eq(0)]
            with m.Case(WR):
                with m.If(rise):
                    c.sync += [sh.eq(Cat(d1, sh[:7])), cnt.eq(cnt + 1)]
                with m.Elif(fall & (cnt == 8)):
                    c.sync += [ph.eq(WACK), wstrobe.eq(1), di.eq(sh)]
            with m.Case(WACK):
                with m.If(fall):
                    c.sync += [drv.eq(0), ph.eq(WR), cnt.eq(0)]
                with m.Elif(~s1 & d.ack_o):
                    c.sync += drv.eq(1)
            with m.Case(RD):
                with m.If(fall):
                    c.sync += drv.eq(~out[7])
                with m.Elif(rise):
                    c.sync += [out.eq(out << 1), cnt.eq(cnt + 1)]
                    with m.If(cnt == 7):
                        c.sync += ph.eq(RACK)
            with m.Case(RACK):
                with m.If(fall):
                    c.sync += drv.eq(0)
                with m.Elif(rise & ~d1):
                    c.sync += [out.eq(d.data_o), ph.eq(RD), cnt.eq(0)]
                    c.comb += e_read.eq(1)
                with m.Elif(rise):
                    c.sync += ph.eq(IDLE)
                    c.comb += e_stop.eq(1)
    c.ensure("open_drain", ~scl.o & ~sda.o)
    c.ensure("never_drives_the_clock", ~scl.oe)
    c.ensure("sda_driven_for_acknowledge_and_zero_bits_only", sda.oe == drv)
    c.ensure("start_strobe_when_addressed", d.start == e_start)
    c.ensure("stop_strobe_at_the_end_of_a_transaction", d.stop == e_stop)
    c.ensure("restart_strobe_at_a_repeated_start", d.restart == e_restart)
    c.ensure("write_strobe_per_received_octet", d.write == wstrobe)
    c.ensure("received_octet", ~wstrobe | (d.data_i == di))
    c.ensure("octet_stable_until_the_next", (d.data_i == di))
    c.ensure("read_strobe_per_octet_to_send", d.read == e_read)
    c.horizon = 3000
    c.mode(ph)
    c.aux("pos", Cat(cnt, ph))
    c.mode("pos")
    c.cover("addressed", e_start)
    c.cover("written", wstrobe)
    c.cover("second_read", e_read & (ph == RACK))
    c.cover("restarted", e_restart)
    c.cover("stopped", e_stop & stop)


UNITS = [Unit("I2CTarget", target, [dict(), dict(bare=True)], ["amlib.io.i2c.I2CTarget", "amlib.io.i2c.I2CBus"], sim_cycles=3000000)]
