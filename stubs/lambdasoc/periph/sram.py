class SRAMPeripheral:
    pass
