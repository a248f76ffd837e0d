"""C33 FractionalResampler; the filter bank is represented by its interface (its own contract: C31)"""
from math import ceil
from amaranth import signed, Elaboratable
from vf.contract import *
from vf.runner import Unit
from .c39 import queue


class Bank(Elaboratable):
    made = []

    def __init__(self, num_instances, samplerate, bitwidth=18, fraction_width=18, cutoff_freq=20000, filter_order=2, filter_structure="fir",
                 filter_type="lowpass", verbose=True):
        self.args = (num_instances, samplerate, bitwidth, fraction_width, cutoff_freq, filter_order, filter_structure, filter_type)
        self.enable_in, self.signal_in, self.signal_out = Signal(name="filter_enable"), Signal(signed(bitwidth), name="filter_in"), Signal(signed(bitwidth), name="filter_out")
        Bank.made.append(self)

    def elaborate(self, platform):
        return Module()


def resampler(c, up=3, down=2, bitwidth=8, rate=48000, instances=1, order=24, cutoff=20000, structure="fir", prescale=None):
    from amlib.dsp import resampler as mod
    m = c.m
    Bank.made, old = [], mod.Filterbank
    try:
        mod.Filterbank = Bank
        d = mod.FractionalResampler(input_samplerate=rate, upsample_factor=up, downsample_factor=down, filter_structure=structure, filter_instances=instances,
                                    filter_order=order, filter_cutoff=cutoff, bitwidth=bitwidth, prescale=prescale, verbose=False)
        from amaranth.hdl.ir import Fragment
        c.dut(d.elaborate(None))
    finally:
        mod.Filterbank = old
    if len(Bank.made) != 1:
        raise RuntimeError("expected one filter bank")
    f = Bank.made[0]
    wide = ceil(bitwidth / 8) * 9
    c.ensure("filter_at_the_upsampled_rate_with_headroom", Const(f.args == (instances, rate * up, wide, 18, cutoff, order, structure, "lowpass"), 1))
    si, so = d.signal_in, d.signal_out
    c.input(si.valid, so.ready, one=150)
    c.input(si.payload)
    c.input(f.signal_out)
    scale = prescale if prescale is not None else (up - 1 if structure == "iir" else 4)
    # upsampling: each sample, scaled, followed by up - 1 zeros
    zeros, acc = c.ghost("g_zeros", range(up)), Signal(name="g_accepted")
    c.comb += acc.eq(si.valid & si.ready)
    c.ensure("next_sample_only_after_the_zeros", ~acc | (zeros == 0))
    c.ensure("every_sample_goes_to_the_filter_scaled", ~acc | (f.enable_in & (f.signal_in == (si.payload.as_signed() * Const(scale))[:wide].as_signed())))
    c.ensure("filter_advances_only_by_samples_and_zeros", acc | ~f.enable_in | ((zeros != 0) & (f.signal_in == 0)))
    with m.If(acc):
        c.sync += zeros.eq(up - 1)
    with m.Elif(f.enable_in & (zeros != 0)):
        c.sync += zeros.eq(zeros - 1)
    # downsampling: every down-th output of the filter; the others are dropped
    pop, phase = Signal(name="g_pop"), c.ghost("g_phase", range(down))
    level, front = queue(c, "out", bitwidth, up, f.enable_in, f.signal_out[:bitwidth], pop)
    c.comb += pop.eq((level != 0) & ((phase != 0) | (so.valid & so.ready)))
    with m.If(pop):
        c.sync += phase.eq(Mux(phase == down - 1, 0, phase + 1))
    c.ensure("filter_advances_only_while_there_is_room", ~f.enable_in | (level != up))
    c.ensure("outputs_are_every_nth_filter_output_in_order", ~so.valid | ((level != 0) & (phase == 0) & (so.payload == front)))
    wait, idle = c.ghost("g_wait", 2), c.ghost("g_idle", 2)
    c.sync += wait.eq(Mux(so.valid | (level == 0) | (phase != 0), 0, wait + 1))
    c.ensure("output_is_offered_whether_or_not_it_is_asked_for", wait != 3)
    c.sync += idle.eq(Mux(f.enable_in | ((zeros == 0) & si.ready) | (level == up), 0, idle + 1))
    c.ensure("upsampling_goes_on_while_there_is_room", idle != 3)
    held, was = c.ghost("g_held"), c.ghost("g_was", bitwidth)
    c.sync += [held.eq(so.valid & ~so.ready), was.eq(so.payload)]
    c.ensure("offered_output_is_held", ~held | (so.valid & (so.payload == was)))
    c.invariant("held_front", ~held | ((level != 0) & (phase == 0) & (was == front)))
    c.aux("state", Cat(level, phase, zeros))
    c.mode("state")
    n = c.ghost("g_n", 3)
    with m.If(so.valid & so.ready & (n != 7)):
        c.sync += n.eq(n + 1)
    c.cover("seventh_output", (n == 7) & so.valid)


UNITS = [Unit("FractionalResampler", resampler,
              [dict(), dict(up=6, down=7, rate=56000), dict(up=1, down=3, prescale=1), dict(up=4, down=1), dict(up=2, down=5, bitwidth=16, structure="iir", instances=2, order=2),
               dict(up=5, down=4, bitwidth=12, prescale=3, cutoff=18000), dict(up=1, down=1)],
              ["amlib.dsp.resampler.FractionalResampler"], thorough=[dict(up=12, down=5, bitwidth=24, structure="iir"), dict(up=8, down=13, bitwidth=10)])]
