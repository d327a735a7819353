"""P08: direct and tabulated consumers."""
from vf.modelcheck import check_models


def run(chk):
    n = chk.n(120, 1500)
    check_models(chk, [
        (n, {"p_cond": 0.6, "p_plf": 0.5, "p_tab": 0.0, "p_calendar": 0.5, "p_reg_zero": 0.15, "p_neg": 0.3}),
        (n, {"p_cond": 0.5, "p_plf": 0.4, "p_tab": 1.0, "p_multi_tab": 0.5, "p_out": 0.4}),
        (n, {"p_cond": 0.3, "p_plf": 0.3, "p_tab": 0.5, "p_temporal": 0.7}),
    ], ["energy", "valid"], canaries=6)
