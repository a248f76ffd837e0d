from amaranth import Signal


class IRQLine(Signal):
    def __init__(self, shape=None, *, name=None, src_loc_at=0, **kwargs):
        super().__init__(1, name=name, src_loc_at=1 + src_loc_at)
