"""P26: pump simulations."""
from vf.liquid import check


def run(chk):
    check(chk, chk.n(60, 900))
