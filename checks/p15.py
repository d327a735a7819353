"""P15: the files written by a run."""
from vf.cli import cache_sizes, check


def run(chk):
    n = chk.n(60, 700)
    small = {"n_inst": (1, 1), "n_gensets": (0, 1), "n_rows": (1, 3), "wide": True}
    cache_sizes(chk)
    check(chk, [(n, small), (n, {**small, "p_out": 0.5, "n_inst": (1, 2), "p_time_of_day": 0.3})])
