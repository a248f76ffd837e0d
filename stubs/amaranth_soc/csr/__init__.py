from amaranth import Record, Elaboratable, Module


ELEMENTS = []       # every register made, for the contracts


class Element(Record):
    def __init__(self, width, access, *, name=None, src_loc_at=0):
        self.width, self.access = width, access
        layout = []
        if "r" in access:
            layout += [("r_data", width), ("r_stb", 1)]
        if "w" in access:
            layout += [("w_data", width), ("w_stb", 1)]
        super().__init__(layout, name=name, src_loc_at=1)
        ELEMENTS.append(self)


class Multiplexer(Elaboratable):
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.bus = None
        self.elements = []

    def add(self, element, *, addr=None, alignment=None, extend=False):
        self.elements.append(element)

    def elaborate(self, platform):
        return Module()
