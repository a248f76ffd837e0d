"""C20 I2CInitiator"""
from vf.contract import *
from vf.runner import Unit


class Pads:
    def __init__(self, bare=False):
        from amaranth.hdl.rec import Record
        mk = lambda n: Record([("o", 1), ("oe", 1), ("i", 1)], name=n)
        if bare:
            self.scl, self.sda = self.scl_t, self.sda_t = mk("scl"), mk("sda")
            del self.scl_t, self.sda_t
        else:
            self.scl_t, self.sda_t = mk("scl"), mk("sda")


def initiator(c, period, stretch, bare=False, free=False):
    from amlib.io.i2c import I2CInitiator
    pads = Pads(bare)
    scl, sda = (pads.scl, pads.sda) if bare else (pads.scl_t, pads.sda_t)
    d = c.dut(I2CInitiator(pads, period, stretch))
    for s in (d.start, d.stop, d.write, d.read):
        c.input(s, one=60)
    c.input(d.data_i, d.ack_i)
    ext_scl, ext_sda = Signal(name="ext_scl"), Signal(name="ext_sda")
    c.input(ext_sda, keep=200)
    m = c.m
    # open drain bus: a line is high when nobody pulls it low
    L = Signal(name="line_scl"), Signal(name="line_sda")
    c.comb += [L[0].eq(~scl.oe & ext_scl), L[1].eq(~sda.oe & ext_sda), scl.i.eq(L[0]), sda.i.eq(L[1])]
    psoe, pdoe, pline = c.ghost("p_scl_oe"), c.ghost("p_sda_oe"), c.ghost("p_line", 1, 1)
    c.sync += [psoe.eq(scl.oe), pdoe.eq(sda.oe), pline.eq(L[0])]
    if stretch:
        c.input(ext_scl, one=200, keep=128)
        c.require("only_a_low_clock_is_stretched", ~pline | ext_scl)
    else:
        c.input(ext_scl, one=255)
        c.require("clock_is_not_stretched", ext_scl)
    s0, s1, d0, d1 = c.ghost("s0", 1, 1), c.ghost("s1", 1, 1), c.ghost("d0", 1, 1), c.ghost("d1", 1, 1)
    c.sync += [s0.eq(L[0]), s1.eq(s0), d0.eq(L[1]), d1.eq(d0)]

    q = period // 4 + 1
    NONE, START, STOP, WRITE, READ = range(5)
    op = c.ghost("g_op", range(5))
    data, acki, bits_, ack = c.ghost("g_data", 8), c.ghost("g_acki"), c.ghost("g_bits", 8), c.ghost("g_ack")
    rises, sampled = c.ghost("g_rises", range(11)), c.ghost("g_sampled")
    starts, stops = c.ghost("g_starts", 2), c.ghost("g_stops", 2)
    pbusy = c.ghost("p_busy", 1, 1)
    c.sync += pbusy.eq(d.busy)
    strobe = d.start | d.stop | d.write | d.read
    accept = Signal(name="accept")
    c.comb += accept.eq(~d.busy & strobe)
    rise, fall = ~scl.oe & psoe, scl.oe & ~psoe
    cond_start = ~scl.oe & ~psoe & sda.oe & ~pdoe
    cond_stop = ~scl.oe & ~psoe & ~sda.oe & pdoe
    nrises = Signal(range(12))
    c.comb += nrises.eq(rises + rise)
    with m.If(op != NONE):
        c.sync += [rises.eq(Mux(nrises == 10, 10, nrises)),
                   starts.eq(Mux(starts + cond_start > 2, 2, starts + cond_start)), stops.eq(Mux(stops + cond_stop > 2, 2, stops + cond_stop))]
    # the bit is sampled when the clock, released, is seen high
    see = ~scl.oe & ((s1 if stretch else Const(1)))
    pend = c.ghost("g_pend")
    pending = Signal(name="pending")
    c.comb += pending.eq(pend | rise)
    with m.If(pending & see & (op != NONE)):
        c.sync += pend.eq(0)
        with m.If(nrises == 9):
            c.sync += ack.eq(~d1)
        with m.Else():
            c.sync += bits_.eq(Cat(d1, bits_[:7]))
    with m.Elif(op != NONE):
        c.sync += pend.eq(pending)
    with m.If(~d.busy):
        c.sync += op.eq(NONE)
    with m.If(accept):
        c.sync += [op.eq(Mux(d.start, START, Mux(d.stop, STOP, Mux(d.write, WRITE, READ)))),
                   data.eq(d.data_i), acki.eq(d.ack_i), rises.eq(0), starts.eq(0), stops.eq(0), pend.eq(0)]
    done = Signal(name="done")
    c.comb += done.eq(~d.busy & (op != NONE))
    # electrical rules
    c.ensure("open_drain", ~scl.o & ~sda.o)
    c.ensure("sda_changes_only_while_clock_low_except_start_and_stop",
             ~(sda.oe ^ pdoe) | (scl.oe & psoe) | (cond_start & (op == START)) | (cond_stop & (op == STOP)))
    c.ensure("busy_from_the_cycle_after_a_request", (op == NONE) | d.busy | done)
    pacc = c.ghost("p_accept")
    c.sync += pacc.eq(accept)
    c.ensure("busy_only_because_of_a_request", (op != NONE) | ~d.busy | c.first())
    c.ensure("request_is_taken", ~pacc | d.busy)
    c.ensure("bus_untouched_between_operations", (op != NONE) | ((scl.oe == psoe) & (sda.oe == pdoe)))
    c.ensure("clock_released_between_operations", (op != NONE) | ~scl.oe)
    # operations
    c.ensure("start_gives_one_start_condition", ~(done & (op == START)) | ((starts == 1) & (stops == 0) & sda.oe & ~scl.oe))
    c.ensure("stop_gives_one_stop_condition", ~(done & (op == STOP)) | ((stops == 1) & (starts == 0) & ~sda.oe & ~scl.oe))
    byte = (op == WRITE) | (op == READ)
    c.ensure("nine_clocks_per_octet", ~byte | ((nrises <= 9) & (~done | (rises == 9))))
    idx = Mux(op == WRITE, (data << rises[:3])[7], 1)
    c.ensure("octet_sent_most_significant_bit_first", ~((op == WRITE) & rise & (rises < 8)) | (sda.oe == ~(data << rises[:3])[7]))
    c.ensure("data_released_for_the_acknowledge", ~((op == WRITE) & rise & (rises == 8)) | ~sda.oe)
    c.ensure("acknowledge_received", ~((op == WRITE) & done) | (d.ack_o == ack))
    c.ensure("data_released_while_reading", ~((op == READ) & rise & (rises < 8)) | ~sda.oe)
    c.ensure("acknowledge_sent", ~((op == READ) & rise & (rises == 8)) | (sda.oe == acki))
    c.ensure("octet_received_most_significant_bit_first", ~((op == READ) & done) | (d.data_o == bits_))
    # timing: no clock phase is shorter than half the requested period; work proceeds
    phase = c.ghost("g_phase", range(2 * q + 1), 2 * q)
    with m.If(rise | fall):
        c.sync += phase.eq(1)
    with m.Elif(phase != 2 * q):
        c.sync += phase.eq(phase + 1)
    c.ensure("clock_low_at_least_half_a_period", ~rise | (phase >= 2 * q))
    started = c.ghost("g_fell")
    with m.If(accept):
        c.sync += started.eq(0)
    with m.Elif(fall):
        c.sync += started.eq(1)
    c.ensure("clock_high_at_least_half_a_period", ~(fall & started) | (phase >= 2 * q))
    # every line change follows the previous one within two quarter periods and the synchroniser delay
    lim = 2 * q + 8
    quiet = c.ghost("g_quiet", range(lim + 2))
    stuck = ~scl.oe & ~s1
    with m.If(rise | fall | accept | stuck | (op == NONE)):
        c.sync += quiet.eq(0)
    with m.Elif(quiet != lim + 1):
        c.sync += quiet.eq(quiet + 1)
    c.ensure("operation_proceeds", quiet <= lim)
    # proof hints: a quarter period timer next to the contract's own phase counters
    gt, nst, np_ = c.ghost("g_timer", range(q)), c.ghost("g_ticks", 2), c.ghost("g_paused", 3)
    paused = (scl.oe == s1) if stretch else Const(0)
    with m.If((gt == 0) | ~d.busy):
        c.sync += gt.eq(q - 1)
    with m.Elif(~paused):
        c.sync += gt.eq(gt - 1)
    with m.If(rise | fall | accept | (op == NONE)):
        c.sync += [nst.eq(0), np_.eq(0)]
    with m.Else():
        with m.If((gt == 0) & (nst != 3)):
            c.sync += nst.eq(nst + 1)
        with m.If(stuck):
            c.sync += np_.eq(0)
        with m.Elif(paused & (np_ != 7)):
            c.sync += np_.eq(np_ + 1)
    el = Mux(nst >= 2, 2 * q, nst * q + (q - 1 - gt))
    c.invariant("phase", phase >= el)
    c.invariant("gt", gt < q)
    c.invariant("np", np_ <= 4)
    c.invariant("quiet", (op == NONE) | (quiet <= el + np_ + 1) | (~d.busy & (quiet <= q + 2)))
    c.horizon = 300 + 80 * q
    c.auto_vals = 40
    c.aux("pos", Cat(pend, nst, scl.oe, psoe, rises, op))
    c.aux("pos2", Mux((op == START) | (op == STOP) | (op == NONE), Cat(sda.oe, pdoe, d.busy, scl.oe, psoe, starts[0], stops[0], op), 0xfff)[:10])
    c.aux("sh", (data << rises[:3])[:8])
    c.mode("pos", "pos2")
    c.cover("write_done", done & (op == WRITE) & d.ack_o)
    c.cover("read_done", done & (op == READ))
    c.cover("restart_done", done & (op == START) & (rises == 1))
    c.cover("stop_done", done & (op == STOP))


UNITS = [Unit("I2CInitiator", initiator, [dict(period=p, stretch=s) for p in (4, 8, 16) for s in (True, False)] + [dict(period=6, stretch=True, bare=True)],
              ["amlib.io.i2c.I2CInitiator", "amlib.io.i2c.I2CBus"], thorough=[dict(period=24, stretch=True), dict(period=40, stretch=True), dict(period=40, stretch=False)], budget=200)]
