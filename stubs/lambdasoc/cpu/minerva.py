class MinervaCPU:
    pass
