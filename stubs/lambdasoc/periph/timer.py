class TimerPeripheral:
    pass
