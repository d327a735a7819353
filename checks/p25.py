"""P25: compressor trains with several streams and pressures."""
from vf.multi import check


def run(chk):
    check(chk, chk.n(40, 700))
