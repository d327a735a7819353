"""P10: emissions from burned fuel."""
from vf.modelcheck import check_models


def run(chk):
    n = chk.n(150, 2000)
    check_models(chk, [
        (n, {"n_fuels": (2, 4), "p_many_em": 0.7, "p_temporal": 0.6, "n_vents": (0, 0)}),
        (n, {"n_fuels": (1, 3), "n_fuelcons": (1, 3), "n_vents": (0, 0), "p_reg_zero": 0.15}),
    ], ["emissions"], canaries=8)
