from amaranth import Elaboratable, Module
from .. import wishbone


class WishboneCSRBridge(Elaboratable):
    def __init__(self, csr_bus, *, data_width=None, name=None):
        self.csr_bus = csr_bus
        self.wb_bus = wishbone.Interface(addr_width=1, data_width=data_width or 8, granularity=8, name="wb_bus")

    def elaborate(self, platform):
        return Module()
