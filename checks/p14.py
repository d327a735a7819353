"""P14: emission intensity."""
from vf.export import check


def run(chk):
    n = chk.n(120, 1500)
    check(chk, [(n, {"p_many_em": 0.6}), (n, {"n_vents": (1, 2), "p_reg_zero": 0.3, "n_inst": (1, 3)}), (n // 2, {"p_time_of_day": 0.4, "span": 2500})], ["intensity"])
