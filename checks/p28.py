"""P28: process pipelines and their solvers."""
from vf.process import check


def run(chk):
    check(chk, chk.n(140, 1500), chk.n(20, 300), chk.n(60, 600))
