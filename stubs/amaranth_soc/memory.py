class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.addr_width, self.data_width, self.alignment = addr_width, data_width, alignment
        self.resources = []

    def add_resource(self, resource, *, name=None, size=None, addr=None, alignment=None, extend=False):
        self.resources.append((resource, name, size))
        return (0, size)
