from .solverchecks import solver_units, ASSUMPTIONS


def units():
    return solver_units("C22")
