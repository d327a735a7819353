"""P22: invalid models are refused, valid ones run."""
from vf.validity import check


def run(chk):
    check(chk, chk.n(350, 3000))
