"""P21: compressor charts."""
from vf.charts import check


def run(chk):
    check(chk, chk.n(400, 6000))
