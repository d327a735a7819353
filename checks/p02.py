"""P02: the evaluated periods."""
from vf.modelcheck import check_models


def run(chk):
    n = chk.n(130, 1500)
    check_models(chk, [
        (n, {"p_temporal": 0.6, "p_cat_temporal": 0.6, "p_edge": 0.5}),
        (n, {"p_temporal": 0.6, "p_cat_temporal": 0.6, "p_start": 0.2, "p_infl": 0.3, "p_default_ts": 0.2, "n_ts": (2, 3), "p_time_of_day": 0.4}),
        (n // 3, {"n_ts": (0, 0), "p_temporal": 0.8, "tod_start": 0.5, "tod_end": 0.5}),
    ], ["periods"], canaries=6)
