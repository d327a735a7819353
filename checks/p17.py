"""P17: compressors given by sampled data, and the turbines they drive."""
from vf.sampled import check


def run(chk):
    check(chk, chk.n(60, 900))
