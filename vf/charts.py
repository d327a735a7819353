"""Compressor charts: generated charts and the points asked of them."""
import copy
from fractions import Fraction as F

from .modelcheck import pool_map
from .num import q
from .pump import line, rnd
from .sampled import enc


class G:
    def __init__(self, r):
        self.r = r

    def chart(self, n=None, rate=None, head=None, single=False):
        """curves (speed, [(rate, head, efficiency)]), slowest first: heads fall with the rate, faster curves are higher"""
        r = self.r
        n = n or (1 if single else r.choice([1, 2, 2, 3, 3, 4]))
        k = r.randint(2, 6)
        low = F(rate or r.randint(200, 6000))
        width = low * F(r.randint(30, 150), 100)
        xs = sorted(r.sample(range(1, 40), k - 2)) if k > 2 else []
        base = [low] + [low + width * F(x, 40) for x in xs] + [low + width]
        top = F(head or r.randint(20, 120) * 1000)
        steps = [F(r.randint(1, 9)) for _ in range(k - 1)]
        fall = top * F(r.randint(15, 60), 100) / sum(steps)
        prof, h = [top], top
        for s in steps:
            h -= fall * s
            prof.append(h)
        speeds = sorted(r.sample(range(3000, 12000), n))
        flat = r.random() < 0.15
        eff = F(r.randint(40, 95), 100)
        curves, fr, fh = [], F(1), F(1)
        for j in range(n):
            m = k if r.random() < 0.7 else max(2, k - 1)
            c = [(rnd(x * fr * (1 + F(r.randint(-2, 2), 200)), 4), rnd(y * fh, 1), eff if flat else F(r.randint(40, 100 if r.random() < 0.1 else 95), 100))
                 for x, y in zip(base[:m] if m == k else base[:m - 1] + base[-1:], prof[:m] if m == k else prof[:m - 1] + prof[-1:])]
            curves.append(c)
            fr *= 1 + F(r.randint(5, 25), 100)
            fh *= 1 + F(r.randint(15, 45), 100)
        if r.random() < 0.05:
            curves = [[(a, b, F(1)) for a, b, _ in c] for c in curves]
        for c in curves:
            if any(a[0] >= b[0] or a[1] <= b[1] for a, b in zip(c, c[1:])) or c[-1][1] <= 0:
                return self.chart(n, rate, head, single)
        for a, b in zip(curves, curves[1:]):
            if b[0][1] <= a[0][1] or b[0][0] <= a[0][0] or b[-1][0] <= a[-1][0] or b[-1][1] <= a[-1][1] or any(line(b, x) <= line(a, x) for x, _, _ in a + b):
                return self.chart(n, rate, head, single)
        return [(F(s), c) for s, c in zip(speeds, curves)]

    def event(self):
        r = self.r
        ch = self.chart()
        margin = F(0) if r.random() < 0.4 else F(r.choice([1, 5, 10, 25, 30, 50]), 100)
        given = [{"n": s, "r": [p[0] for p in c], "h": [p[1] for p in c], "e": [p[2] for p in c]} for s, c in ch]
        e = {"curves": given, "margin": margin, "points": [], "caps": [], "effs": [], "most": [], "lims": []}
        order = list(range(len(given)))
        r.shuffle(order)
        e["curves"] = [given[i] for i in order]
        for c in e["curves"]:
            o = list(range(len(c["r"])))
            r.shuffle(o)
            for k in "rhe":
                c[k] = [c[k][i] for i in o]
        speeds = [s for s, _ in ch]
        lo0, hi0 = ch[0][1][0][0], ch[-1][1][-1][0]
        for _ in range(r.randint(6, 12)):   # speeds and rates
            how = r.random()
            if how < 0.3:
                s = r.choice(speeds)
            elif how < 0.85 or len(ch) == 1:
                s = speeds[0] + (speeds[-1] - speeds[0]) * F(r.randint(0, 64), 64)
            else:
                s = r.choice([speeds[0] - r.randint(1, 500), speeds[-1] + r.randint(1, 500)])
            rate = r.choice([F(0), F(1, 200000)]) if r.random() < 0.05 else self.rate(ch, s, margin)
            up = r.random() < 0.3
            asv = r.random() < 0.8 or rate < 1
            e["points"].append({"s": s, "r0": rate, "r": rate, "up": up, "asv": asv, "more": F(r.randint(0, 40), 100) if asv and r.random() < 0.3 else F(0)})
        for _ in range(r.randint(6, 10)):   # rates and heads
            x = lo0 / 2 + (hi0 * F(11, 10) - lo0 / 2) * F(r.randint(0, 256), 256)
            h = ch[-1][1][0][1] * F(r.randint(10, 270), 256)
            e["caps"].append({"r": x, "h": h, "choke": r.random() < 0.6})
            e["effs"].append({"r": x, "h": h})
        for _ in range(3):
            e["most"].append({"h": ch[-1][1][0][1] * F(r.randint(20, 270), 256), "choke": r.random() < 0.5})
            e["lims"].append({"s": speeds[0] + (speeds[-1] - speeds[0]) * F(r.randint(-8, 40), 32)})
        return e

    def rate(self, ch, s, margin):
        """a rate that is clearly inside, below or above the range at a speed"""
        s = min(max(s, ch[0][0]), ch[-1][0])
        xs = [(a, c[0][0] + margin * (c[-1][0] - c[0][0]), c[-1][0]) for a, c in ch]
        for (a, l1, h1), (b, l2, h2) in zip(xs, xs[1:] or xs):
            if a <= s <= b:
                w = (s - a) / (b - a) if b > a else F(0)
                lo, hi = l1 + w * (l2 - l1), h1 + w * (h2 - h1)
        u = self.r.random()
        if u < 0.2:
            return rnd(lo * F(self.r.randint(5, 99), 100), 4)
        if u < 0.35:
            return rnd(hi * F(self.r.randint(101, 130), 100), 4)
        return lo + (hi - lo) * F(self.r.randint(1, 63), 64)


def observe(e):
    import numpy as np
    from libecalc.domain.process.value_objects.chart.base import ChartCurve
    from libecalc.domain.process.value_objects.chart.compressor import CompressorChart
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
    fl = lambda xs: [float(x) for x in xs]  # noqa: E731
    data = UserDefinedChartData(curves=[ChartCurve(rate_actual_m3_hour=fl(c["r"]), polytropic_head_joule_per_kg=fl(c["h"]), efficiency_fraction=fl(c["e"]),
                                                   speed_rpm=float(c["n"])) for c in e["curves"]], control_margin=float(e["margin"]))
    chart = CompressorChart(data)
    e["adj"] = [{"n": F(float(c.speed)), "r": [F(float(x)) for x in c.rate], "h": [F(float(x)) for x in c.head], "e": [F(float(x)) for x in c.efficiency]} for c in chart.curves]
    keep = []
    for p in e["points"]:
        r = float(p["r0"])
        s = float(p["s"])
        room = float(chart.maximum_rate_as_function_of_speed(s)) - r
        with_asv = r + float(p.pop("more")) * room if room > 0 else r
        o = chart.calculate_polytropic_head_and_efficiency_single_point(
            speed=s, actual_rate_m3_per_hour=r, actual_rate_m3_per_hour_including_asv=with_asv,
            increase_speed_below_assuming_choke=p["up"], increase_rate_left_of_minimum_flow_assuming_asv=p["asv"])
        keep.append({"s": F(s), "r0": F(r), "r": F(with_asv), "up": p["up"], "asv": p["asv"], "head": q(float(o.polytropic_head)), "eff": q(float(o.polytropic_efficiency)),
                     "flag": str(getattr(o.chart_area_flag, "value", o.chart_area_flag)), "valid": bool(o.is_valid)})
    e["points"] = keep
    for choke in (True, False):   # several at once
        ps = [p for p in e["caps"] if p["choke"] is choke]
        if not ps:
            continue
        for p in ps:
            p["r"], p["h"] = F(float(p["r"])), F(float(p["h"]))
        o = chart.evaluate_capacity_and_extrapolate_below_minimum(actual_volume_rates=np.asarray(fl(p["r"] for p in ps)), heads=np.asarray(fl(p["h"] for p in ps)),
                                                                  extrapolate_heads_below_minimum=choke)
        for i, p in enumerate(ps):
            p.update(asv=q(float(o.asv_corrected_rates[i])), head=q(float(o.choke_corrected_heads[i])), recirc=bool(o.rate_has_recirc[i]), choked=bool(o.pressure_is_choked[i]),
                     rex=bool(o.rate_exceeds_maximum[i]), hex=bool(o.head_exceeds_maximum[i]), over=bool(o.exceeds_capacity[i]))
    f = chart.efficiency_as_function_of_rate_and_head(rates=np.asarray(fl(p["r"] for p in e["effs"])), heads=np.asarray(fl(p["h"] for p in e["effs"])))
    for p, x in zip(e["effs"], f):
        p.update(r=F(float(p["r"])), h=F(float(p["h"])), e=q(float(x)))
    for p in e["most"]:
        p["h"] = F(float(p["h"]))
        p["out"] = q(float(np.atleast_1d(chart.get_maximum_rate(heads=np.atleast_1d(float(p["h"])), extrapolate_heads_below_minimum=p["choke"]))[0]))
    for p in e["lims"]:
        p["s"] = F(float(p["s"]))
        p["lo"] = q(float(chart.minimum_rate_as_function_of_speed(float(p["s"])))) if len(e["curves"]) > 1 else e["adj"][0]["r"][0]
        p["hi"] = q(float(chart.maximum_rate_as_function_of_speed(float(p["s"])))) if len(e["curves"]) > 1 else e["adj"][0]["r"][-1]
    return enc(exact(e))


def exact(e):
    """the doubles the chart was given"""
    for c in e["curves"]:
        for k in "rhe":
            c[k] = [F(float(x)) for x in c[k]]
    e["margin"] = F(float(e["margin"]))
    return e


def _one(seed):
    import random
    import traceback
    e = G(random.Random(seed)).event()
    try:
        return observe(copy.deepcopy(e))
    except Exception as x:  # noqa: BLE001
        return {"crash": "".join(traceback.format_exception(x))[-3000:], "given": str(e)[:3000]}


def corrupt(e, rng):
    c = copy.deepcopy(e)
    k = rng.choice(["points", "points", "caps", "caps", "effs", "most", "lims", "adj"])
    o = rng.choice(c[k])
    f = rng.choice({"points": ["head", "eff", "valid"], "caps": ["asv", "head", "recirc", "over"], "effs": ["e"], "most": ["out"], "lims": ["lo", "hi"], "adj": ["r", "h", "e"]}[k])
    if isinstance(o[f], bool):
        o[f] = not o[f]
    elif isinstance(o[f], list):
        i = rng.randrange(len(o[f]))
        o[f][i] = q(F(o[f][i]) * F(1000001, 1000000))
    elif o[f] == "nan":
        o[f] = "1"
    else:
        o[f] = q(F(o[f]) * F(1000001, 1000000))
    return c


def check(chk, n, canaries=40):
    ev = pool_map(_one, [chk.rng.getrandbits(48) for _ in range(n)])
    good = []
    for e in ev:
        if "crash" in e:
            chk.violations.append({"spec": "ChartTrace", "clauses": ["a valid chart gave no answer"], "event": e})
        else:
            good.append(e)
    if good:
        chk.validate("ChartTrace", good, chk.spoiled(good, corrupt, canaries))
