def inv_mod(x, q):
    return pow(x, -1, q)
