"""C18 SerialLEDArray (MAX7219 modules on an SPI line)"""
from vf.contract import *
from vf.runner import Unit
from .c14 import Resource
from .c15 import monitor

DEFAULT = [[0x0f, 0], [0x09, 0], [0x0a, 0xf], [0x0b, 7], [0x0c, 1]]


def leds(c, divisor=10, delay=20, modules=1, init=None, resource=False):
    from amlib.io.max7219 import SerialLEDArray
    kw = {} if init is None else dict(init_sequence=init)
    seq = DEFAULT if init is None else init
    d = c.dut(SerialLEDArray(divisor=divisor, init_delay=delay, no_modules=modules, **kw))
    m, n, S = c.m, 16 * modules, len(seq)
    if resource:
        r = Resource()
        m.d.comb += d.connect_to_resource(r)
        cs, sck, sdo = ~r.cs, r.clk, r.copi
    else:
        cs, sck, sdo = d.spi_bus_out.cs, d.spi_bus_out.sck, d.spi_bus_out.sdo
    sdi = Signal(name="unused_sdi")
    c.input(d.valid_in, one=100)
    digits = list(d.digits_in)
    for s in digits:
        c.input(s, keep=100)
    cur = [c.ghost(f"g_digit{i}", 8) for i in range(8 * modules)]
    with m.If(d.valid_in):
        c.sync += [a.eq(b) for a, b in zip(cur, digits)]
    # which word comes next: the initialisation commands in order, then the digits round and round
    idx, word = c.ghost("g_index", range(S + 8)), c.ghost("g_word", n)
    boot, step = c.ghost("g_boot", range(delay + 3)), c.ghost("g_step", 3)
    start = Signal(name="g_start")
    complete = Signal(name="g_complete2")
    nxt = Signal(n, name="g_next_word")
    with m.Switch(idx):
        for i, (reg, val) in enumerate(seq):
            with m.Case(i):
                c.comb += nxt.eq(Cat(*[Const(int(val) | int(reg) << 8, 16) for _ in range(modules)]))
        for i in range(8):
            with m.Case(S + i):
                c.comb += nxt.eq(Cat(*[Cat(cur[8 * k + i], Const(i + 1, 8)) for k in range(modules)]))
    busy, complete = monitor(c, divisor, n, 0, 0, True, True, False, cs, sck, sdi, sdo, start, word)
    # 0: power-up delay, 1: prepare the word, 2: ask for the transfer, 3: wait for completion, 4, 5: initialisation done
    with m.Switch(step):
        with m.Case(0):
            c.sync += boot.eq(boot + 1)
            with m.If(boot == delay + 1):
                c.sync += step.eq(1)
        with m.Case(1):
            c.sync += [word.eq(nxt), step.eq(2)]
        with m.Case(2):
            c.comb += start.eq(1)
            c.sync += step.eq(3)
        with m.Case(3):
            with m.If(complete):
                c.sync += [step.eq(1), idx.eq(Mux(idx == S + 7, S, idx + 1))]
                with m.If(idx < S - 1):
                    c.sync += [word.eq(0), step.eq(2)]
                with m.If(idx == S - 1):
                    c.sync += step.eq(4)
        with m.Case(4):
            c.sync += step.eq(1)
    for i, (reg, val) in enumerate(seq[1:]):
        with m.If((step == 3) & complete & (idx == i)):
            c.sync += word.eq(Cat(*[Const(int(val) | int(reg) << 8, 16) for _ in range(modules)]))
    c.aux("loaded", Mux((step == 2) | (step == 3), idx + 1, 0))
    c.mode("loaded")
    c.mode(step)
    c.horizon = delay + (S + 9) * (n + 4) * divisor
    c.cover("last_digit_sent", complete & (idx == S + 7))


class Controller:
    """stands for SPIControllerInterface: its contract (C15) instead of its body"""

    def __init__(self):
        from amaranth import Module, Elaboratable
        from amlib.io.spi import SPIControllerBus
        outer = self
        self.args, self.expected, self.ok = None, None, Signal(name="ctl_configured")
        self.spi, self.start_transfer, self.word_complete = SPIControllerBus(), Signal(name="ctl_start"), Signal(name="ctl_complete")
        self.word_out = self.word_in = None

        class SPIControllerInterface(Elaboratable):
            def __init__(self, *, word_size=8, divisor=0, clock_polarity=0, clock_phase=0, msb_first=True, cs_idles_high=False, skip_input_cdc=False):
                outer.args = (word_size, divisor, clock_polarity, clock_phase, msb_first, cs_idles_high)
                self.spi, self.start_transfer, self.word_complete = outer.spi, outer.start_transfer, outer.word_complete
                if outer.word_out is None:
                    outer.word_out, outer.word_in = Signal(word_size, name="ctl_word"), Signal(word_size, name="ctl_word_in")
                self.word_out, self.word_in = outer.word_out, outer.word_in
                self.word_accepted = Signal()

            def elaborate(self, platform):
                m = Module()
                m.d.comb += outer.ok.eq(tuple(map(int, outer.args)) == tuple(map(int, outer.expected)))
                return m
        self.cls = SPIControllerInterface

    def install(self):
        import sys
        import amlib.io.spi
        real = amlib.io.spi.SPIControllerInterface
        for nme, mod in list(sys.modules.items()):
            if nme.startswith("amlib"):
                for k, v in list(vars(mod).items()):
                    if v is real:
                        setattr(mod, k, self.cls)


def modular(c, divisor=10, delay=20, modules=1, init=None, resource=False):
    """the controller is represented by its contract: a word asked for while it is idle is transferred, then
    word_complete is strobed; the word has to stay as it is until then"""
    from amlib.io.max7219 import SerialLEDArray
    kw = {} if init is None else dict(init_sequence=init)
    seq = DEFAULT if init is None else init
    ctl = Controller()
    ctl.install()
    m, n, S = c.m, 16 * modules, len(seq)
    ctl.word_out, ctl.word_in = Signal(n, name="ctl_word"), Signal(n, name="ctl_word_in")
    d = c.dut(SerialLEDArray(divisor=divisor, init_delay=delay, no_modules=modules, **kw))
    for s in (ctl.spi.sck, ctl.spi.sdo, ctl.spi.cs, ctl.word_complete, d.valid_in, d.spi_bus_out.sdi):
        c.input(s, one=100)
    digits = list(d.digits_in)
    for s in digits:
        c.input(s)
    cur = [c.ghost(f"g_digit{i}", 8) for i in range(8 * modules)]
    with m.If(d.valid_in):
        c.sync += [a.eq(b) for a, b in zip(cur, digits)]
    idx, busy, word = c.ghost("g_index", range(S + 8)), c.ghost("g_busy"), c.ghost("g_word", n)
    age = c.ghost("g_age", range(delay + 5))
    c.require("completion_only_of_a_transfer", busy | ~ctl.word_complete)
    last = [c.ghost(f"g_last{i}", 8) for i in range(8 * modules)]
    c.sync += [a.eq(b) for a, b in zip(last, cur)]
    want = Signal(n, name="g_want")
    with m.Switch(idx):
        for i, (reg, val) in enumerate(seq):
            with m.Case(i):
                c.comb += want.eq(Cat(*[Const(int(val) | int(reg) << 8, 16) for _ in range(modules)]))
        for i in range(8):
            with m.Case(S + i):
                c.comb += want.eq(Cat(*[Cat(last[8 * k + i], Const(i + 1, 8)) for k in range(modules)]))
    c.sync += age.eq(age + (age != delay + 4))
    with m.If(ctl.start_transfer & ~busy):
        c.sync += [busy.eq(1), word.eq(want)]
    with m.If(busy & ctl.word_complete):
        c.sync += [busy.eq(0), idx.eq(Mux(idx == S + 7, S, idx + 1))]
    gap = c.ghost("g_gap", 3)
    with m.If(busy | (age < delay + 1)):
        c.sync += gap.eq(0)
    with m.Elif(gap != 7):
        c.sync += gap.eq(gap + 1)
    c.ensure("transfer_asked_for_only_while_idle", ~(busy & ctl.start_transfer))
    c.ensure("no_transfer_before_the_power_up_delay", (age >= delay) | ~ctl.start_transfer)
    c.ensure("next_word_is_a_command_then_the_digits_in_turn", ~ctl.start_transfer | busy | (ctl.word_out == want))
    c.ensure("word_held_during_the_transfer", ~busy | (ctl.word_out == word))
    c.ensure("the_next_transfer_follows", gap < 6)
    c.ensure("bus_is_the_controllers_bus", Cat(d.spi_bus_out.sck, d.spi_bus_out.sdo, d.spi_bus_out.cs) == Cat(ctl.spi.sck, ctl.spi.sdo, ctl.spi.cs))
    if resource:
        r = Resource()
        m.d.comb += d.connect_to_resource(r)
        c.ensure("resource", Cat(r.clk, r.copi, ~r.cs) == Cat(ctl.spi.sck, ctl.spi.sdo, ctl.spi.cs))
    ctl.expected = (n, divisor, 0, 0, True, True)
    c.ensure("words_of_16_bits_per_module_at_the_divisor", ctl.ok)
    c.mode(idx)
    c.aux("phase", Cat(busy, gap, idx))
    c.mode("phase")
    c.mode(age)
    c.horizon = delay + (S + 10) * 20
    c.cover("last_digit_sent", busy & ctl.word_complete & (idx == S + 7))


INIT1 = [[0x0c, 1]]
INIT9 = [[0x0f, 0], [9, 0xff], [0x0a, 3], [0x0b, 5], [0x0c, 0], [0x0c, 1], [1, 0x55], [2, 0xaa]]
UNITS = [Unit("SerialLEDArray", modular, [dict(), dict(modules=2, resource=True), dict(modules=3, delay=1), dict(init=INIT1), dict(init=INIT9, modules=2)], ["amlib.io.max7219.SerialLEDArray"],
              thorough=[dict(modules=4, delay=100)]),
         Unit("SerialLEDArray+SPIControllerInterface", leds, [dict(divisor=10), dict(divisor=12, modules=2, resource=True), dict(divisor=8, init=INIT1, delay=3)],
              ["amlib.io.max7219.SerialLEDArray"], only_simulate=True, budget=15)]
