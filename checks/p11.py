"""P11: venting emitters."""
from vf.modelcheck import check_models


def run(chk):
    n = chk.n(170, 2000)
    t = {"n_vents": (1, 4), "n_gensets": (0, 0), "n_fuelcons": (0, 1)}
    check_models(chk, [
        (n, {**t, "p_cond": 0.6, "p_reg": 0.9, "p_reg_zero": 0.15}),
        (n, {**t, "p_cond": 0.2, "n_vars": (1, 4), "p_temporal": 0.6}),
    ], ["vents"], canaries=8)
