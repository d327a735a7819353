"""P05: variables."""
from vf.modelcheck import check_models


def run(chk):
    n = chk.n(150, 2000)
    t = {"n_inst": (1, 1), "n_gensets": (0, 1), "n_fuelcons": (1, 1), "n_vents": (0, 0)}
    check_models(chk, [
        (n, {**t, "n_vars": (3, 7), "p_temporal": 0.6, "p_late": 0.5}),
        (n, {**t, "n_vars": (2, 5), "depth": 3, "p_temporal": 0.3}),
    ], ["vars"], canaries=6)
