"""C23 I2SReceiver"""
from vf.contract import *
from vf.runner import Unit
from .c22 import buffer, pins


def rx(c, W=24, standard=True, depth=4, P=4):
    from amlib.io.i2s import I2SReceiver, I2S_FORMAT
    d = c.dut(I2SReceiver(sample_width=W, frame_format=I2S_FORMAT.STANDARD if standard else I2S_FORMAT.LEFT_JUSTIFIED, fifo_depth=depth))
    m = c.m
    s = d.stream_out
    c.input(s.ready, one=10, keep=254)
    c.input(d.enable_in, one=254, keep=200)
    pin_rise, rise, fall, right, n, cur = pins(c, d, P, W, standard)
    ph, psck, pws, sck, ws = c.pin_phase, c.pin_clock, c.pin_word, d.serial_clock_in, d.word_select_in
    # data only changes while the bit clock is low
    din, pdin = c.fresh(1, "data"), c.ghost("p_data")
    c.comb += d.serial_data_in.eq(Mux(psck & sck, pdin, din))
    c.sync += pdin.eq(d.serial_data_in)
    # the word on the wires: the bits at edges 1..W (standard, edge W may be the first one of the next slot) or 0..W-1
    pbuf, pdone = c.ghost("p_bits", W), c.ghost("p_complete", W)
    new = ws != cur
    first = (~new & (n == 1)) if standard else new
    take = (~new & (n >= 1) & (n <= W) | new & (n == W)) if standard else (new | (n < W))
    with m.If(pin_rise & take):
        c.sync += pbuf.eq(Cat(d.serial_data_in, pbuf)[:W])
    with m.If(pin_rise & first):
        c.sync += pdone.eq(pbuf)
    # which words are taken
    IDLE, SYNC, TAKE, WAIT = range(4)
    st, chan, k, dly = c.ghost("g_state", 2), c.ghost("g_right"), c.ghost("g_bits", range(W + 1)), c.ghost("g_delay")
    val = int(standard)
    start, push = Signal(name="g_start"), Signal(name="g_push")
    other = right != chan
    c.comb += [start.eq(rise & (dly == 0) & (((st == SYNC) & ~right) | ((st == WAIT) & d.enable_in & (k == W) & other))),
               push.eq(start & (st == WAIT))]
    with m.Switch(st):
        with m.Case(IDLE):
            c.sync += [k.eq(0), chan.eq(0), dly.eq(val)]
            with m.If(d.enable_in & rise & right):
                c.sync += st.eq(SYNC)
        with m.Case(SYNC):
            with m.If(rise & ~right & (dly != 0)):
                c.sync += dly.eq(0)
        with m.Case(TAKE):
            c.sync += [st.eq(Mux(d.enable_in, WAIT, IDLE)), k.eq(k + d.enable_in)]
        with m.Case(WAIT):
            with m.If(~d.enable_in):
                c.sync += st.eq(IDLE)
            with m.Elif(rise):
                with m.If(k != W):
                    c.sync += st.eq(TAKE)
                with m.If(other & (dly != 0)):
                    c.sync += dly.eq(0)
    with m.If(start):
        c.sync += [st.eq(TAKE), chan.eq(right), k.eq(0), dly.eq(val)]
    can, some, front, level = buffer(c, depth, W + 1, push, s.ready, Cat(pdone, chan))
    c.ensure("valid_while_a_sample_is_waiting", s.valid == some)
    c.ensure("sample_is_the_next_word_received", ~some | (s.payload == front[:W]))
    c.ensure("first_marks_left_last_marks_right", Cat(s.first, s.last) == Mux(some, Cat(~front[W], front[W]), 0))
    c.ensure("level", d.fifo_level_out == level)
    # what has been taken by the device so far
    running = (st == TAKE) | (st == WAIT)
    mine = c.ghost("g_taken", W)
    with m.If(st == IDLE):
        c.sync += mine.eq(0)
    with m.If((st == TAKE) & d.enable_in):
        c.sync += mine.eq(Cat(d.serial_data_in, mine)[:W])
    left = Signal(range(W + 1), name="g_left")
    c.comb += left.eq(W - k)
    c.aux("left", Mux((st == TAKE) | (st == WAIT), left[:(W - 1).bit_length()], 0))
    mine_low, pins_low, pins_low1 = ((x << left)[:W] for x in (mine, pbuf, pbuf >> 1))
    c.aux("agree", Cat(mine_low == pins_low, mine_low == pins_low1, mine == pbuf, mine == pdone))
    same = chan == (cur if standard else ~cur)
    low, low1 = mine_low == pins_low, mine_low == pins_low1
    lag = psck & (ph <= 3)
    full, part = k == W, lag & (k == W - 1)
    if standard:
        pend = lag & ((same & (n <= W)) | ~full)
        c.invariant("in_the_slot", ~(running & same) | ((n >= 2) & dly & Mux(n <= W, k == n - 1 - lag, full | part)))
        c.invariant("before_the_word", ~running | same | ((n == 1) & (full | part) & (dly == (psck & (ph <= 2)))) | ((n == 2) & psck & (ph <= 2) & full & ~dly & (mine == pdone)))
        c.invariant("bits_taken", ~running | ((n == 2) & ~same) | Mux(pend, low1 & (pdin == pbuf[0]), low))
    else:
        pend = lag & same & (n <= W)
        c.invariant("in_the_slot", ~(running & same) | ((n >= 1) & ~dly & Mux(n <= W, k == n - lag, full)))
        c.invariant("before_the_word", ~running | same | ((n == 1) & psck & (ph <= 2) & full & (mine == pdone)))
        c.invariant("bits_taken", ~running | ~same | Mux(pend, low1 & (pdin == pbuf[0]), low))
    c.aux("beat", Cat(psck, st, k == W, same, dly, ph))
    c.mode("beat")
    side = Signal(range(10))
    c.comb += side.eq(chan * 5 + st)
    c.aux("phase", side)
    c.mode("phase")
    c.mode(st)
    c.aux("front", front)
    c.horizon = 16 * W * P
    c.cover("left_sample", s.valid & s.first)
    c.cover("right_sample", s.valid & s.last)
    c.cover("dropped_when_full", push & ~can)


UNITS = [Unit("I2SReceiver", rx, [dict(), dict(W=16), dict(W=32), dict(W=8, standard=False), dict(W=4, depth=1), dict(W=24, standard=False, P=6)],
              ["amlib.io.i2s.I2SReceiver"], thorough=[dict(W=24, depth=16), dict(W=20, standard=False, depth=16)])]
