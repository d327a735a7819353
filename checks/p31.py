"""P31: process simulations become what was written."""
from vf.simulation import check


def run(chk):
    check(chk, chk.n(500, 5000))
