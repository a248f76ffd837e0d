"""C25 LED helpers: seven segment digits and bit bar"""
from amaranth import Array
from vf.contract import *
from vf.runner import Unit

# the segments a..g (bit 6 .. bit 0) lit for each hexadecimal digit
SEGMENTS = ["abcdef", "bc", "abged", "abgcd", "fgbc", "afgcd", "afgedc", "abc", "abcdefg", "abcdfg",
            "abcefg", "cdefg", "adef", None, "adefg", "aefg"]
GLYPH = [sum(1 << (6 - "abcdefg".index(s)) for s in g) if g else 0b1111110 for g in SEGMENTS]


def digit(c, nib):
    return Array(Const(g, 8) for g in GLYPH)[nib]


def nibble(c):
    from amlib.io.led import NibbleToSevenSegmentHex
    d = c.dut(NibbleToSevenSegmentHex())
    c.input(d.nibble_in)
    c.ensure("segments_of_the_digit", d.seven_segment_out == digit(c, d.nibble_in))


def number(c, width, register=False):
    from amlib.io.led import NumberToSevenSegmentHex
    d = c.dut(NumberToSevenSegmentHex(width=width, register=register))
    c.input(d.number_in, d.dots_in)
    # registered outputs: shown once the inputs have been stable for two cycles
    stable = Const(1)
    if register:
        pn, pd, age = c.ghost("pn", width), c.ghost("pd", width // 4), c.ghost("age", 2)
        c.sync += [pn.eq(d.number_in), pd.eq(d.dots_in)]
        same = (pn == d.number_in) & (pd == d.dots_in)
        with c.m.If(~same):
            c.sync += age.eq(1)
        with c.m.Elif(age < 2):
            c.sync += age.eq(age + 1)
        stable = same & (age == 2)
    for i in range(width // 4):
        c.ensure(f"digit_{i}", c.implies(stable, d.seven_segment_out[8 * i:8 * i + 7] == digit(c, d.number_in[4 * i:4 * i + 4])[:7]))
        c.ensure(f"dot_{i}", c.implies(stable, d.seven_segment_out[8 * i + 7] == d.dots_in[i]))
    c.cover("stable", stable)


def bar(c, lo, hi, bits):
    from amlib.io.led import NumberToBitBar
    d = c.dut(NumberToBitBar(lo, hi, bits))
    c.input(d.value_in)
    step = (hi - lo) // (bits - 2)
    w = 1 + max(hi.bit_length(), len(d.value_in))
    v = Signal(w)
    c.comb += v.eq(d.value_in)
    exp = Signal(bits)
    full = (1 << bits) - 1
    with c.m.If(v <= lo):
        c.comb += exp.eq(0)
    with c.m.Elif(v >= hi):
        c.comb += exp.eq(full)
    with c.m.Else():
        # linear: k bits for the k-th step above the minimum, never more than all but one
        k = Signal(range(bits))
        c.comb += k.eq(1 + sum(((v - lo) >= step * i) for i in range(1, bits - 1)))
        c.comb += exp.eq(Array(Const((1 << i) - 1, bits) for i in range(bits))[k])
    prev = c.ghost("prev", bits)
    c.sync += prev.eq(exp)
    c.ensure("bar_of_previous_value", d.bitbar_out == prev)
    c.ensure("maximum_is_representable", Const(int((1 << len(d.value_in)) > hi)))
    c.cover("full_bar", d.bitbar_out == full)
    c.cover("one", d.bitbar_out == 1)


UNITS = [Unit("NibbleToSevenSegmentHex", nibble, [dict()], ["amlib.io.led.NibbleToSevenSegmentHex"]),
         Unit("NumberToSevenSegmentHex", number, [dict(width=w, register=r) for w in (4, 8, 16, 20, 32) for r in (False, True)],
              ["amlib.io.led.NumberToSevenSegmentHex"]),
         Unit("NumberToBitBar", bar, [dict(lo=a, hi=b, bits=n) for a, b, n in
                                      ((0x10, 0x82, 8), (0, 128, 8), (0, 255, 8), (5, 64, 4), (0, 10, 3), (3, 1000, 16), (0, 2**16, 10), (100, 200, 5))],
              ["amlib.io.led.NumberToBitBar"])]
