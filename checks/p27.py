"""P27: distribution of streams."""
from vf.distribution import check


def run(chk):
    check(chk, chk.n(3000, 0), chk.n(60, 1500))
