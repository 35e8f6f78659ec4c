def nonconstant(inp, bits):
    ones = sum(bits)
    inp.assume(0 < ones)
    inp.assume(ones < len(bits))


def sequence(inp, n, free=None, seed=1):
    """n bits, both values present; free: the symbolic positions (all by default)"""
    if free is None:
        bits = inp.bits(n)
        nonconstant(inp, bits)
    else:
        bits = inp.mixed(n, free, seed=seed)
        nonconstant(inp, bits)
    return bits
