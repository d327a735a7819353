"""P29: results and flow diagram contain every component once."""
from vf.structure import check


def run(chk):
    check(chk, chk.n(250, 2500))
