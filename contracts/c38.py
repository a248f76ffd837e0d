"""C38 shift registers and NRZI encoder"""
from vf.contract import *
from vf.runner import Unit


def inreg(c, depth):
    from amlib.utils.shiftregister import InputShiftRegister
    d = c.dut(InputShiftRegister(depth))
    c.input(d.enable_in, d.bit_in)
    c.input(d.clear_in, one=8)
    bits_ = [c.ghost(f"g_b{i}") for i in range(depth)]      # bits_[i]: bit accepted i enables ago
    m = c.m
    with m.If(d.clear_in):
        for b in bits_:
            c.sync += b.eq(0)
    with m.Elif(d.enable_in):
        for i, b in enumerate(bits_):
            c.sync += b.eq(d.bit_in if i == 0 else bits_[i - 1])
    c.ensure("value_is_last_depth_bits_newest_in_lsb", d.value_out == Cat(*bits_))
    c.cover("nonzero", d.value_out != 0)


def outreg(c, depth, rotate):
    from amlib.utils.shiftregister import OutputShiftRegister
    d = c.dut(OutputShiftRegister(depth, rotate=rotate))
    c.input(d.enable_in)
    c.input(d.we_in, one=16)
    c.input(d.value_in)
    word = c.ghost("g_word", depth)
    n = c.ghost("g_shifts", 16)
    m = c.m
    with m.If(d.we_in):
        c.sync += [word.eq(d.value_in), n.eq(0)]
    with m.Elif(d.enable_in):
        if rotate:
            c.sync += n.eq(Mux(n == depth - 1, 0, n + 1))
        else:
            c.sync += n.eq(Mux(n == depth, n, n + 1))
    exp = (word >> n)[0]
    c.ensure("bits_leave_lsb_first" + ("_rotating" if rotate else "_then_zero"), d.bit_out == exp)
    c.aux("left", (word >> n)[:depth])
    if rotate:
        c.aux("rot", ((Cat(word, word)) >> n)[:depth])
    c.invariant("n", n <= depth)
    c.cover("shifted", n == min(depth, 3) - (1 if rotate else 0))
    c.mode(n)


def nrzi(c):
    from amlib.utils.nrziencoder import NRZIEncoder
    d = c.dut(NRZIEncoder())
    c.input(d.data_in)
    last = c.ghost("g_last_data")
    prev = c.ghost("g_prev_level")
    started = c.ghost("g_started")
    c.sync += [last.eq(d.data_in), prev.eq(d.nrzi_out), started.eq(1)]
    c.ensure("toggles_iff_previous_data_bit_was_one", c.implies(started, (d.nrzi_out != prev) == last))
    c.ensure("starts_low", c.implies(~started, ~d.nrzi_out))
    c.cover("high", d.nrzi_out)


UNITS = [
    Unit("InputShiftRegister", inreg, [dict(depth=k) for k in (1, 2, 3, 5, 8, 16, 32, 64)], ["amlib.utils.shiftregister.InputShiftRegister"]),
    Unit("OutputShiftRegister", outreg, [dict(depth=k, rotate=r) for k in (1, 2, 3, 4, 7, 8, 16, 24) for r in (False, True)],
         ["amlib.utils.shiftregister.OutputShiftRegister"]),
    Unit("NRZIEncoder", nrzi, [{}], ["amlib.utils.nrziencoder.NRZIEncoder"]),
]
