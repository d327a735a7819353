"""P09: generator sets."""
from vf.modelcheck import check_models


def run(chk):
    n = chk.n(120, 1500)
    t = {"n_gensets": (1, 2), "n_fuelcons": (0, 0), "n_vents": (0, 0), "n_cons": (1, 4)}
    check_models(chk, [
        (n, {**t, "p_neg": 0.3}),
        (n, {**t, "p_tab": 0.7, "p_out": 0.4, "p_temporal": 0.6}),
        (n, {**t, "n_cons": (1, 1), "p_tab": 0.4, "p_out": 0.5, "p_late": 0.6, "p_temporal": 0.6}),
    ], ["genset"], canaries=8)
