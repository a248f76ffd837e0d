class CPUSoC:
    pass
