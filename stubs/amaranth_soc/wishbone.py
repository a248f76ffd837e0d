from amaranth import Record, Elaboratable, Module


class Interface(Record):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        if granularity is None:
            granularity = data_width
        self.addr_width, self.data_width, self.granularity, self.features = addr_width, data_width, granularity, set(features)
        self.memory_map = None
        layout = [("adr", addr_width), ("dat_w", data_width), ("dat_r", data_width), ("sel", data_width // granularity),
                  ("cyc", 1), ("stb", 1), ("we", 1), ("ack", 1)]
        for f, w in (("err", 1), ("rty", 1), ("stall", 1), ("lock", 1), ("cti", 3), ("bte", 2)):
            if f in self.features:
                layout.append((f, w))
        super().__init__(layout, name=name, src_loc_at=1)


class Decoder(Elaboratable):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        self.bus = Interface(addr_width=addr_width, data_width=data_width, granularity=granularity, features=features, name="bus")
        self.subs = []

    def add(self, bus, *, addr=None, sparse=False, extend=False):
        self.subs.append(bus)

    def elaborate(self, platform):
        return Module()


class Arbiter(Decoder):
    pass
