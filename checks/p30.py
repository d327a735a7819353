"""P30: models of the same meaning have the same results, whatever was run before."""
from vf.meaning import check


def run(chk):
    check(chk, chk.n(60, 600))
