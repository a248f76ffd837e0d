"""C22 I2STransmitter"""
from amaranth import Array, signed
from vf.contract import *
from vf.runner import Unit


def buffer(c, depth, width, push, pop, din):
    """the contract of a buffered FIFO: (can take an entry, has an entry, entry, level)"""
    m = c.m
    if depth == 1:
        full, front = c.ghost("g_full"), c.ghost("g_front", width)
        with m.If(push & ~full):
            c.sync += [front.eq(din), full.eq(1)]
        with m.If(pop & full):
            c.sync += full.eq(0)
        return ~full, full, front, full
    n = depth - 1
    mem = Array(c.ghost(f"g_mem{k}", width) for k in range(n))
    wp, rp, lv = c.ghost("g_wp", range(n)), c.ghost("g_rp", range(n)), c.ghost("g_level", range(n + 1))
    some, front = c.ghost("g_some"), c.ghost("g_front", width)
    succ = lambda p: Mux(p == n - 1, 0, p + 1)
    write = push & (lv != n)
    fetch = (lv != 0) & (~some | pop)
    with m.If(write):
        c.sync += [mem[wp].eq(din), wp.eq(succ(wp))]
    with m.If(fetch):
        c.sync += [front.eq(mem[rp]), rp.eq(succ(rp)), some.eq(1)]
    with m.Elif(pop):
        c.sync += some.eq(0)
    c.sync += lv.eq(lv + write - fetch)
    return lv != n, some, front, lv + some


def pins(c, d, P, W, standard, flip=100):
    """the bit and word clock pins (bit clock phases of at least P cycles, slots of at least W bit clocks), their
    synchronised copies and the number of the rising edge in the slot"""
    m = c.m
    sck, ws = d.serial_clock_in, d.word_select_in
    toggle, change = c.fresh(1, "toggle", one=128), c.fresh(1, "change", one=flip)
    psck, pws, ph = c.ghost("p_sck"), c.ghost("p_ws"), c.ghost("p_phase", range(P + 1), reset=P)
    n, cur = c.ghost("p_slot", range(W + 2), reset=W), c.ghost("p_channel")
    c.comb += [sck.eq(psck ^ (toggle & (ph == P))),
               ws.eq(pws ^ (change & (n >= W) & (Const(1) if standard else psck & ~sck)))]
    c.sync += [psck.eq(sck), pws.eq(ws)]
    with m.If(sck != psck):
        c.sync += ph.eq(1)
    with m.Elif(ph != P):
        c.sync += ph.eq(ph + 1)
    rise = sck & ~psck
    with m.If(rise):
        c.sync += cur.eq(ws)
        with m.If(ws != cur):
            c.sync += n.eq(1)
        with m.Elif(n != W + 1):
            c.sync += n.eq(n + 1)
    s = [c.ghost(f"s_sck{i}") for i in range(3)]
    w = [c.ghost(f"s_ws{i}") for i in range(2)]
    c.sync += [s[0].eq(sck), s[1].eq(s[0]), s[2].eq(s[1]), w[0].eq(ws), w[1].eq(w[0])]
    c.aux("clocks", Cat(*s, *w, psck, pws))
    c.mode("clocks")
    c.aux("wires", Cat(psck, *s, pws == cur, w[0] == cur, w[1] == cur, ph))
    c.mode("wires")
    c.mode(ph)
    right = w[1] if standard else ~w[1]
    c.pin_phase, c.pin_clock, c.pin_word = ph, psck, pws
    return rise, s[1] & ~s[2], ~s[1] & s[2], right, n, cur


def tx(c, W=24, standard=True, depth=4, P=4):
    from amlib.io.i2s import I2STransmitter, I2S_FORMAT
    d = c.dut(I2STransmitter(sample_width=W, frame_format=I2S_FORMAT.STANDARD if standard else I2S_FORMAT.LEFT_JUSTIFIED, fifo_depth=depth))
    m = c.m
    s = d.stream_in
    c.input(s.valid, one=40)
    c.input(s.payload)
    c.input(s.first)
    c.input(s.last)
    c.input(d.enable_in, one=254, keep=200)
    pin_rise, rise, fall, right, n, cur = pins(c, d, P, W, standard)
    lim = W + 1 if standard else W
    IDLE, SYNC, ARM, OUT, WAIT = range(5)
    st, chan, k = c.ghost("g_state", 3), c.ghost("g_right"), c.ghost("g_bits", range(lim + 1))
    word, line = c.ghost("g_word", W), c.ghost("g_line")
    pop, under, mism, start = (Signal(name=f"g_{x}") for x in ("pop", "under", "mismatch", "start"))
    can, some, front, level = buffer(c, depth, W + 1, s.valid, pop, Cat(s.payload, s.first))
    wordstart = rise if standard else Const(1)
    c.comb += start.eq(wordstart & (((st == SYNC) & ~right) | ((st == WAIT) & d.enable_in & ((k == W) | (k == lim)) & (right != chan))))
    c.comb += [under.eq(start & ~some), mism.eq(start & some & (front[W] == right)), pop.eq(start & some & (front[W] != right))]
    bit = Signal(name="g_bit")
    with m.Switch(k):
        for i in range(W):
            with m.Case(i):
                c.comb += bit.eq(word[W - 1 - i])
    with m.Switch(st):
        with m.Case(IDLE):
            c.sync += [word.eq(0), k.eq(0), chan.eq(0)]
            with m.If(d.enable_in & rise & right):
                c.sync += st.eq(SYNC)
        with m.Case(ARM):
            with m.If(fall):
                c.sync += st.eq(OUT)
        with m.Case(OUT):
            with m.If(~d.enable_in):
                c.sync += st.eq(IDLE)
            with m.Else():
                c.sync += [st.eq(WAIT), line.eq(bit), k.eq(k + 1)]
        with m.Case(WAIT):
            with m.If(~d.enable_in):
                c.sync += st.eq(IDLE)
            with m.Elif(rise & (k < lim)):
                c.sync += st.eq(ARM)
    with m.If(start):
        c.sync += [st.eq(ARM if standard else OUT), chan.eq(right), k.eq(0), word.eq(Mux(pop, front, 0))]
    c.ensure("line_carries_the_bits_of_the_word_in_turn", d.serial_data_out == line)
    c.ensure("underflow_when_no_sample_is_waiting", d.underflow_out == under)
    c.ensure("mismatch_when_the_sample_is_for_the_other_channel", d.mismatch_out == mism)
    c.ensure("accepts_while_the_buffer_has_room", s.ready == can)
    c.ensure("level", d.fifo_level_out == level)
    # what the codec samples at the rising edges
    off = c.ghost("g_off", reset=1)
    c.sync += off.eq((st == IDLE) | (st == SYNC) | (off & ~start))
    num = Mux(d.word_select_in != cur, 0, n)
    exp, chk = Signal(name="g_expected"), Signal(name="g_check")
    for i in range(W):      # edge number 0 is the first one of the slot
        with m.If(num == (i + 1 if standard else i)):
            c.comb += [exp.eq(word[W - 1 - i]), chk.eq(pin_rise & ~off & (st != IDLE) & (st != SYNC) & (chan == (d.word_select_in if standard else ~d.word_select_in)))]
    c.ensure("codec_samples_the_word_msb_first", ~chk | (d.serial_data_out == exp))
    c.aux("rest", (word << k)[:W])
    c.aux("sent", Mux(k == 0, 0, ((word << k) >> W)[0]))
    # one bit per bit clock
    ph, psck, pws = c.pin_phase, c.pin_clock, c.pin_word
    running = (st != IDLE) & (st != SYNC) & ~off
    same = chan == (cur if standard else ~cur)
    late = ~psck & (ph == P)
    if standard:
        c.invariant("bits_follow_the_clock", ~running | ~same | (n > W) | (k == n - 1 + late))
    else:
        c.invariant("bits_follow_the_clock", ~running | (pws != cur) | ~same | (n >= W) | (k == n + late))
        c.invariant("first_bit_follows_the_word_clock", ~running | (pws == cur) | ~late | (~same & (k == 1)))
    c.aux("beat", Cat(psck, st, k == lim, same, ph))
    c.mode("beat")
    c.aux("left", Mux((st == IDLE) | (st == SYNC), 0, lim - k))
    side = Signal(range(10))
    c.comb += side.eq(chan * 5 + st)
    c.aux("phase", side)
    c.mode("phase")
    c.mode(st)
    c.aux("front", front)
    c.horizon = 16 * W * P
    c.cover("second_left_word", start & (st == WAIT) & ~right & pop)
    c.cover("underflow", under)
    c.cover("mismatch", mism)


UNITS = [Unit("I2STransmitter", tx, [dict(), dict(W=16), dict(W=32), dict(W=8, standard=False), dict(W=4, depth=1), dict(W=24, standard=False, depth=6, P=6)],
              ["amlib.io.i2s.I2STransmitter"], thorough=[dict(depth=16), dict(W=24, standard=False, depth=16)])]
