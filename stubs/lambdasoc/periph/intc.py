class GenericInterruptController:
    pass
