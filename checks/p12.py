"""P12: totals of installations and of the asset."""
from vf.modelcheck import check_models


def run(chk):
    n = chk.n(130, 1500)
    check_models(chk, [
        (n, {"n_inst": (1, 4), "n_gensets": (0, 2), "n_fuelcons": (0, 3), "n_vents": (0, 2)}),
        (n, {"n_inst": (2, 3), "p_tab": 0.6, "p_out": 0.5, "p_late": 0.6, "p_temporal": 0.6}),
    ], ["total", "cumulative"], canaries=8)
