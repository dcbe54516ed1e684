from .radial import run, unit_c06


def check(tier):
    return run("C06", tier, unit_c06, 2500,
               "interprocedural value-flow of ZernPol.radial_dr for every admissible (m, n), n <= 54, with symbolic radii "
               "(scalar and array), default and exact routes; every trace must flow to the normal form of dR/dr")
