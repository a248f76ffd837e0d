from vf.contract import *


def parity_bit(data, parity):
    """[] or the one parity bit of a frame, written out from the definition"""
    x = Const(0, 1)
    for i in range(len(data)):
        x = x ^ data[i]
    return {"none": [], "mark": [Const(1, 1)], "space": [Const(0, 1)], "even": [x], "odd": [x ^ Const(1, 1)]}[parity]
