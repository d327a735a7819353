"""P18: pumps given by charts."""
from vf.pump import check


def run(chk):
    check(chk, chk.n(60, 900))
