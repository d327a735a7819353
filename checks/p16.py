"""P16: delta profiles."""
from vf.delta import check


def run(chk):
    check(chk, chk.n(1500, 20000))
