"""P19: consumer systems: prioritised operational settings and crossovers."""
from vf.system import check


def run(chk):
    check(chk, chk.n(80, 1200))
