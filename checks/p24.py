"""P24: simplified compressor trains."""
from vf.simple import check


def run(chk):
    check(chk, chk.n(60, 1200))
