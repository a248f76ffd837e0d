"""C17 SPIMultiplexer"""
from vf.contract import *
from vf.runner import Unit


def mux(c, n):
    from amlib.io.spi import SPIMultiplexer, SPIDeviceBus
    buses = [SPIDeviceBus() for _ in range(n)]
    d = c.dut(SPIMultiplexer(buses))
    for b in buses:
        c.input(b.cs)
        c.input(b.sdo)
    c.input(d.shared_lines.sck)
    c.input(d.shared_lines.sdi)
    line = Const(0, 1)
    for b in reversed(buses):
        line = Mux(b.cs, b.sdo, line)
    c.ensure("shared_output_is_the_selected_device", d.shared_lines.sdo == line)
    for i, b in enumerate(buses):
        c.ensure(f"clock_and_data_reach_device_{i}", (b.sck == d.shared_lines.sck) & (b.sdi == d.shared_lines.sdi))
    c.cover("last", buses[-1].cs & buses[-1].sdo & line)


UNITS = [Unit("SPIMultiplexer", mux, [dict(n=k) for k in (1, 2, 3, 5, 8)], ["amlib.io.spi.SPIMultiplexer"])]
