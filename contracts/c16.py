"""C16 SPICommandInterface, SPIRegisterInterface"""
from vf.contract import *
from vf.runner import Unit
from .c14 import Resource

GAP = 5        # cycles between sampling edges (and of deselection) the device needs


class Bus:
    """ghost of one command transaction on the lines (cs, sck, sdi): everything a host can know"""
    def __init__(self, c, lines, cmd, word):
        m = c.m
        cs, sck, sdi = lines
        psck, pcs = c.ghost("p_sck"), c.ghost("p_cs")
        c.sync += [psck.eq(sck), pcs.eq(cs)]
        fell = psck & ~sck
        since, low = c.ghost("g_since", 3, GAP), c.ghost("g_low", 3, 0)
        c.sync += since.eq(Mux(fell, 1, Mux(since == GAP, GAP, since + 1)))
        c.sync += low.eq(Mux(cs, 0, Mux(low == GAP, GAP, low + 1)))
        c.invariant("since", since <= GAP)
        c.invariant("low", low <= GAP)
        c.require("sampling_edges_at_least_5_cycles_apart", ~fell | (since == GAP))
        c.require("clock_idle_when_selected", ~(cs & ~pcs) | (~sck & ~psck))
        boot = c.ghost("g_boot")
        c.sync += boot.eq(1)
        armed = c.ghost("g_armed")             # deselected since reset / since the last transaction
        c.require("deselected_for_5_cycles", ~(cs & ~pcs) | (low == GAP) | ~armed)
        # where the transaction is: 0 not yet deselected, 1 deselected, 2 command bits, 3..5 cycles since the last
        # command bit, 6 word bits, 7 the cycle after the last word bit, 8 nothing more to exchange
        self.n = n = c.ghost("g_bits", range(max(cmd, word) + 1))
        self.pos = pos = c.ghost("g_pos", 4)
        self.rx = rx = c.ghost("g_rx", cmd)
        self.tx = tx = c.ghost("g_tx", word)     # the rest of the word to send, followed by the bits received
        live = c.ghost("g_live", 1, 1)         # still selected since the command
        with m.Switch(pos):
            with m.Case(0, 8):
                with m.If(~cs):
                    c.sync += [pos.eq(1), armed.eq(1), n.eq(0)]
            with m.Case(1):
                c.sync += [n.eq(0), live.eq(1)]
                with m.If(cs):
                    c.sync += pos.eq(2)
            with m.Case(2):
                with m.If(fell):
                    c.sync += [n.eq(n + 1), rx.eq(Cat(sdi, rx))]
                with m.If(~cs):
                    c.sync += pos.eq(1)
                with m.Elif(fell & (n == cmd - 1)):
                    c.sync += pos.eq(3)
            with m.Case(3, 4, 5):
                c.sync += [pos.eq(pos + 1), n.eq(0)]
                with m.If(~cs):
                    c.sync += live.eq(0)
                with m.If((pos == 5) & ~(live & cs)):
                    c.sync += pos.eq(1)
            with m.Case(6):
                with m.If(fell):
                    c.sync += [n.eq(n + 1), tx.eq(Cat(sdi, tx))]
                with m.If(~cs):
                    c.sync += pos.eq(1)
                with m.Elif(fell & (n == word - 1)):
                    c.sync += pos.eq(7)
            with m.Case(7):
                c.sync += [pos.eq(8), n.eq(0)]
        ws = c.ghost("g_word_p")
        c.sync += ws.eq(pos == 7)
        self.command, self.received = c.ghost("g_command", cmd), c.ghost("g_received", word)
        with m.If(pos == 3):
            c.sync += self.command.eq(rx)
        with m.If(pos == 7):
            c.sync += self.received.eq(tx)
        self.cmd_ready, self.word_ready, self.latch = pos == 4, ws, pos == 5
        self.fell, self.since, self.low, self.armed, self.cs = fell, since, low, armed, cs
        self.sampling = (pos == 6) & fell & cs
        self.act = ((pos == 2) | (pos == 6)) & cs
        self.done = pos == 8
        c.aux("cp", Cat(pos, live, ws, armed))
        c.aux("cps", Cat(pos, live, since))
        c.aux("cpl", Cat(pos, live, low))
        c.aux("top", tx[-1])
        c.mode("cp")
        c.mode("cps")
        c.mode("cpl")

    def send(self, c, word):
        """the line carries `word` (a value in the cycle `latch`) at the sampling edges"""
        with c.m.If(self.latch):
            c.sync += self.tx.eq(word)


def command(c, cmd=8, word=32, resource=False):
    from amlib.io.spi import SPICommandInterface
    d = c.dut(SPICommandInterface(cmd, word))
    cs, sck, sdi, sdo = lines(c, d, resource)
    c.input(d.word_to_send)
    b = Bus(c, (cs, sck, sdi), cmd, word)
    b.send(c, d.word_to_send)
    c.ensure("command_strobed_after_its_last_bit_only", d.command_ready == b.cmd_ready)
    c.ensure("command", d.command == b.command)
    c.ensure("word_strobed_after_its_last_bit_only", d.word_complete == b.word_ready)
    c.ensure("word_received", d.word_received == b.received)
    c.ensure("word_sent_msb_first", ~b.sampling | (sdo == b.tx[-1]))
    status(c, d, b)
    c.horizon = 8 * GAP * (cmd + word)
    c.cover("word", d.word_complete)
    c.cover("aborted_word", (b.pos == 6) & ~cs)
    c.auto_vals = 40


def status(c, d, b):
    c.ensure("idle_when_deselected", ~(b.armed & (b.low == GAP)) | d.idle)
    c.ensure("neither_idle_nor_stalled_in_a_transaction", ~b.act | (~d.idle & ~d.stalled))
    c.ensure("stalled_after_the_word_until_deselected", ~b.done | d.stalled)
    c.ensure("stalled_only_after_the_word_or_reset", ~d.stalled | b.done | ~b.armed)


def lines(c, d, resource):
    if resource:
        r = Resource()
        c.m.d.comb += d.connect_to_resource(r)
        cs, sck, sdi, sdo = r.cs, r.clk, r.copi, r.cipo
    else:
        cs, sck, sdi, sdo = d.spi.cs, d.spi.sck, d.spi.sdi, d.spi.sdo
    c.input(cs, keep=253)
    c.input(sck, keep=120)
    c.input(sdi)
    return cs, sck, sdi, sdo


def registers(c, addr=3, size=4, default=5, auto=True, resource=False):
    from amlib.io.spi import SPIRegisterInterface
    d = SPIRegisterInterface(addr, size, default, auto)
    top = (1 << addr) - 1
    A, B, R, W, S = 1 % top, 2, 4 % (top + 1), top - 2 if top - 2 > 4 else 3, top
    ws, rs = Signal(name="a_write_strobe"), Signal(name="a_read_strobe")
    reg_a = d.add_register(A, read_strobe=rs, write_strobe=ws, reset=3)
    own = Signal(max(1, size - 1), name="own", reset=1)
    reg_b = d.add_register(B, value_signal=own)
    ro, ro_strobe = Signal(size, name="ro"), Signal(name="ro_strobe")
    d.add_read_only_register(R, read=ro, read_strobe=ro_strobe)
    wo, wo_strobe = Signal(size, name="wo"), Signal(name="wo_strobe")
    d.add_sfr(W, write_signal=wo, write_strobe=wo_strobe)
    sfr, sfr_w, sw, sr = Signal(size, name="sfr"), Signal(size, name="sfr_w"), Signal(name="sw"), Signal(name="sr")
    d.add_sfr(S, read=sfr, write_signal=sfr_w, write_strobe=sw, read_strobe=sr)
    c.dut(d)
    cs, sck, sdi, sdo = lines(c, d, resource)
    c.input(ro)
    c.input(sfr)
    b = Bus(c, (cs, sck, sdi), addr + 1, size)
    m = c.m
    address, write = b.command[:-1], b.command[-1]
    ga, gb = c.ghost("g_a", size, 3), c.ghost("g_b", len(own), 1)
    wr = write & b.word_ready
    rd = ~write & b.word_ready
    with m.If(wr & (address == A)):
        c.sync += ga.eq(b.received)
    with m.If(wr & (address == B)):
        c.sync += gb.eq(b.received)
    val = Signal(size, name="g_val")
    with m.Switch(address):
        if auto:
            with m.Case(0):
                c.comb += val.eq((1 << size) - 1)
        for a, v in ((A, ga), (B, gb), (R, ro), (S, sfr), (W, default)):
            with m.Case(a):
                c.comb += val.eq(v)
        with m.Default():
            c.comb += val.eq(default)
    b.send(c, val)
    c.ensure("register_holds_the_last_word_written", (reg_a == ga) & (reg_b == gb))
    c.ensure("selected_register_or_default_is_sent", ~b.sampling | (sdo == b.tx[-1]))
    for nme, s, a, e in (("write", ws, A, wr), ("write_only", wo_strobe, W, wr), ("special", sw, S, wr),
                         ("read", rs, A, rd), ("read_only_read", ro_strobe, R, rd), ("special_read", sr, S, rd)):
        c.ensure(f"{nme}_strobe_exactly_when_the_access_completes", s == (e & (address == a)))
    c.ensure("written_value_present_with_the_strobe", (~wo_strobe | (wo == b.received)) & (~sw | (sfr_w == b.received)))
    status(c, d, b)
    c.horizon = 8 * GAP * (addr + 1 + size)
    c.cover("written", wr)
    c.cover("read", rd)
    c.auto_vals = 40


UNITS = [
    Unit("SPICommandInterface", command, [dict(cmd=a, word=b) for a, b in ((8, 32), (1, 1), (3, 5), (5, 3), (16, 32), (8, 8), (4, 2))] + [dict(cmd=4, word=6, resource=True)],
         ["amlib.io.spi.SPICommandInterface"]),
    Unit("SPIRegisterInterface", registers, [dict(), dict(addr=3, size=7, default=0, auto=False), dict(addr=7, size=8, default=0xa5), dict(addr=15, size=32, default=0xdeadbeef), dict(addr=4, size=3, resource=True)],
         ["amlib.io.spi.SPIRegisterInterface", "amlib.io.spi.SPICommandInterface"])]
