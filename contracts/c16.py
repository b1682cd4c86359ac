from pyvc.core import Unit
from .common import *
from .solverchecks import solver_units, ASSUMPTIONS as BASE

ASSUMPTIONS = [a for a in BASE if not a.startswith("Sundman steps")] + [
    "Sundman steps: mean value theorem (a function with positive derivative is strictly increasing); the derivative of E - e sin E is proved positive for e < 1"]


def u_kepler(u):
    """Time since periapsis grows with the eccentric anomaly: the derivative of Kepler's equation is positive."""
    e, E = var("e", unit=True), var("E")
    d = T.diff(E - e * T.sin(E), E)
    u.identity("derivative of E - e sin E", [(d, ONE - e * T.cos(E))])
    c = var("cosE")
    u.prove("the derivative is at least 1 - e > 0", [le(ZERO, e), lt(e, ONE), le(-ONE, c), le(c, ONE)], band(le(ONE - e, ONE - e * c), lt(ZERO, ONE - e)))


def units():
    return [Unit("Kepler's equation is strictly increasing", u_kepler, func="lemma", samples=0)] + solver_units("C16")
