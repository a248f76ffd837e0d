"""C19 WS2812 LED strip driver"""
from math import ceil
from vf.contract import *
from vf.runner import Unit


def ws2812(c, freq=8e6, leds=3):
    from amlib.io.ws2812 import WS2812
    d = c.dut(WS2812(sys_clock_freq=freq, no_leds=leds))
    m = c.m
    full = int(freq // 800e3)
    hi0, hi1 = int(0.32 * full), int(0.64 * full)
    reset = ceil(50e-6 * freq)
    c.input(d.start_in, one=20)
    c.input(d.write_enable_in, one=60)
    for s in (d.red_in, d.green_in, d.blue_in, d.led_address_in):
        c.input(s)
    c.require("address_in_range", d.led_address_in < leds)
    gmem = [c.ghost(f"g_led{i}", 24) for i in range(leds)]
    colour = Cat(d.blue_in, d.red_in, d.green_in)
    with m.If(d.write_enable_in):
        for i in range(leds):
            with m.If(d.led_address_in == i):
                c.sync += gmem[i].eq(colour)
    # 0: idle, 1: reset before, 2: data, 3: reset after
    st, cnt = c.ghost("g_state", 2), c.ghost("g_count", range(reset + 2))
    bit, led, word = c.ghost("g_bit", range(24)), c.ghost("g_led", range(leds)), c.ghost("g_word", 24)
    bitval = Signal(name="g_bitval")
    c.comb += bitval.eq(word[23])
    done, line = Signal(name="g_done"), Signal(name="g_line")
    c.comb += [done.eq((st == 3) & (cnt == reset)),
               line.eq((st == 0) | ((st == 2) & (cnt < Mux(bitval, hi1, hi0))))]
    with m.Switch(st):
        with m.Case(0):
            with m.If(d.start_in):
                c.sync += st.eq(1)
        with m.Case(1, 3):
            c.sync += cnt.eq(cnt + 1)
            with m.If(cnt == reset):
                c.sync += [cnt.eq(0), led.eq(0), bit.eq(0), st.eq(Mux(st == 1, 2, 0))]
                with m.If(st == 1):
                    c.sync += word.eq(gmem[0])
        with m.Case(2):
            c.sync += cnt.eq(cnt + 1)
            with m.If(cnt == full):
                c.sync += [cnt.eq(0), bit.eq(bit + 1), word.eq(word << 1)]
                with m.If(bit == 23):
                    c.sync += bit.eq(0)
                    with m.If(led == leds - 1):
                        c.sync += [led.eq(0), st.eq(3)]
                    with m.Else():
                        c.sync += led.eq(led + 1)
                        for i in range(1, leds):
                            with m.If(led == i - 1):
                                c.sync += word.eq(gmem[i])
    c.ensure("line_follows_the_protocol", d.data_out == line)
    c.ensure("done_strobes_at_the_end_of_the_final_reset", d.done_out == done)
    ph = Signal(range(2 * leds + 4), name="g_phase")
    c.comb += ph.eq(Mux(st == 2, 3 + 2 * led + ((bit != 0) | (cnt != 0)), Mux(st == 3, 2, st)))
    c.aux("phase", ph)
    c.mode("phase")
    c.mode(st)
    c.horizon = 2 * reset + 24 * leds * (full + 1) + 200
    c.cover("a_frame_completes", done)


UNITS = [Unit("WS2812", ws2812, [dict(leds=1, freq=3.2e6), dict(), dict(freq=4e6, leds=5), dict(freq=2.4e6, leds=4)], ["amlib.io.ws2812.WS2812"],
              thorough=[dict(freq=12e6, leds=2), dict(freq=48e6, leds=1)])]
