"""P13: the prognosis exports."""
from vf.export import check


def run(chk):
    n = chk.n(90, 900)
    w = {"wide": True, "n_gensets": (1, 2), "n_fuelcons": (1, 3), "n_vents": (0, 3), "span": 900}
    check(chk, [(n, w), (n, {**w, "p_temporal": 0.7, "p_cat_temporal": 0.6, "n_fuels": (2, 4)}), (n // 2, {**w, "n_inst": (2, 3), "p_reg_zero": 0.3, "p_out": 0.5})], ["export"])
