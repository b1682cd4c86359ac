from . import purity, c18
from pyvc.core import Unit
from .solverchecks import solver_units, ASSUMPTIONS


def units():
    R = [Unit(f"exports depend on the current record: {kind}, {lab}", c18.u_current(kind, same), None, func="QLaw.interpolate_states", samples=0)
         for kind in ("keplerian", "mee_with_a") for same, lab in (((), "other times"), (("t",), "same times"))]
    return solver_units("C23") + purity.units() + R
