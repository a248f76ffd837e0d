class AsyncSerialPeripheral:
    pass


class AsyncSerial:
    pass
