from .radial import run, unit_c05


def check(tier):
    return run("C05", tier, unit_c05, 2500,
               "interprocedural value-flow of ZernPol.radial for every admissible (m, n), n <= 54, with symbolic radii "
               "(scalar and array), default and exact routes; every trace must flow to the normal form of the Zernike "
               "radial polynomial sum (-1)^k (n-k)!/(k!((n+|m|)/2-k)!((n-|m|)/2-k)!) r^(n-2k)")
