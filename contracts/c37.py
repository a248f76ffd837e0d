"""C37 Wishbone RAM and ROM"""
import os
import tempfile
from amaranth import Array
from vf.contract import *
from vf.runner import Unit

ASSUMPTIONS = ["amaranth_soc is not installed: the bus record and the memory map are port-level stand-ins in /verif/stubs"]


def words(init, data, depth, byteorder):
    """the initial contents the user asked for"""
    if init is None:
        return [0] * depth
    if isinstance(init, bytes):
        n = data // 8
        init = [sum(b << 8 * (i if byteorder == "little" else n - 1 - i) for i, b in enumerate(init[k:k + n])) for k in range(0, len(init), n)]
    return (list(init) + [0] * depth)[:depth]


def memory(c, addr, data=32, gran=8, init=None, read_only=False, byteorder="little", rom=False, file=False):
    from amlib.soc.memory import WishboneRAM, WishboneROM
    given = init
    if file:
        f = tempfile.NamedTemporaryFile(delete=False)
        f.write(init)
        f.close()
        given = f.name
    kw = dict(addr_width=addr, data_width=data, granularity=gran)
    d = WishboneROM(given, **kw) if rom else WishboneRAM(init=given, read_only=read_only, byteorder=byteorder, **kw)
    lanes = data // gran
    depth = (1 << addr) // lanes
    mm = d.bus.memory_map
    c.ensure("bus_of_the_configured_shape", Const([len(d.bus.dat_r), len(d.bus.dat_w), len(d.bus.sel), 1 << len(d.bus.adr)] == [data, data, lanes, depth]))
    c.ensure("memory_map_covers_the_address_space", Const((mm.addr_width, mm.data_width, [s for _, _, s in mm.resources]) == (addr, gran, [1 << addr])))
    c.dut(d.elaborate(None) if file else d)
    if file:
        os.unlink(given)
    m, b = c.m, d.bus
    c.input(b.cyc, b.stb, one=180)
    c.input(b.we, b.sel, b.dat_w)
    c.input(b.adr, one=128)
    mem = Array(c.ghost(f"g_mem{i}", data, v) for i, v in enumerate(words(init, data, depth, byteorder)))
    adr, ack, was = c.ghost("g_adr", len(b.adr)), c.ghost("g_ack"), c.ghost("g_write")
    request = b.cyc & b.stb
    c.sync += [adr.eq(b.adr), ack.eq(request & ~ack), was.eq(b.we)]
    if not (read_only or rom):
        with m.If(request & b.we):
            for i in range(lanes):
                with m.If(b.sel[i]):
                    for k in range(depth):
                        with m.If(b.adr == k):
                            c.sync += mem[k][i * gran:(i + 1) * gran].eq(b.dat_w[i * gran:(i + 1) * gran])
    front = Signal(data)
    c.comb += front.eq(mem[adr])
    c.aux("front", front)
    c.ensure("each_request_is_acknowledged_in_the_next_cycle_for_one_cycle", b.ack == ack)
    c.ensure("acknowledged_read_delivers_the_word_last_written_or_initial", c.implies(ack & ~was, b.dat_r == front))
    c.cover("read", ack & ~was & (front != 0))
    c.cover("write", ack & was)


BYTES = bytes(range(0x21, 0x21 + 13))
UNITS = [
    Unit("WishboneRAM", memory,
         [dict(addr=4), dict(addr=5, init=BYTES), dict(addr=4, init=BYTES[:12], byteorder="big"), dict(addr=3, data=8), dict(addr=3, data=16, gran=16, init=[1, 2, 0xfffe]),
          dict(addr=3, data=32, gran=16, init=BYTES), dict(addr=4, data=64, gran=32, init=BYTES), dict(addr=5, init=[5, 6, 7], read_only=True), dict(addr=5, init=BYTES, file=True),
          dict(addr=6, data=16, init=BYTES[:6], byteorder="big", read_only=True), dict(addr=3, data=64)],
         ["amlib.soc.memory.WishboneRAM"]),
    Unit("WishboneROM", memory,
         [dict(addr=4, init=BYTES, rom=True), dict(addr=4, data=16, init=[3, 2, 1], rom=True), dict(addr=4, data=32, gran=32, init=[9, 8, 7], rom=True), dict(addr=5, init=BYTES, rom=True, file=True)],
         ["amlib.soc.memory.WishboneROM", "amlib.soc.memory.WishboneRAM"]),
]
