"""P20: the fluid service, its memory and the engine process."""
from vf.fluids import check


def run(chk):
    check(chk, chk.n(500, 6000))
