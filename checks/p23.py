"""P23: compressor trains on a common shaft."""
from vf.trains import check


def run(chk):
    check(chk, chk.n(40, 800))
