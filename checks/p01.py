"""P01: temporal definitions: the definition in force applies, everywhere in a model."""
from vf.modelcheck import check_models


def run(chk):
    n = chk.n(120, 1500)
    t = {"p_temporal": 0.9, "p_cat_temporal": 0.5}
    check_models(chk, [
        (n, t),
        (n, {**t, "p_late": 0.6, "p_start": 0.3}),
        (n, {**t, "p_time_of_day": 0.5, "n_inst": (1, 1)}),
    ], ["vars", "reg", "hc", "energy", "valid", "genset", "emissions"])
