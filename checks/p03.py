"""P03: time series resources fitted to the evaluated periods."""
from vf.modelcheck import check_models


def run(chk):
    n = chk.n(150, 2000)
    t = {"n_inst": (1, 1), "n_gensets": (0, 0), "n_fuelcons": (1, 1), "n_vents": (0, 0), "n_vars": (0, 0), "p_tab": 0}
    check_models(chk, [
        (n, {**t, "n_ts": (2, 3), "p_default_ts": 0.2, "p_formats": 0.8, "p_shuffle_rows": 0.5, "p_temporal": 0.6}),
        (n, {**t, "n_ts": (1, 3), "n_rows": (1, 3), "p_infl": 0.3, "p_default_ts": 0.3, "p_time_of_day": 0.4}),
        (n, {**t, "n_ts": (1, 2), "n_rows": (3, 9), "p_shuffle_rows": 0.7, "p_edge": 0.6}),
    ], ["series"], canaries=6)
