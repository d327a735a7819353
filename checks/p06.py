"""P06: the algebra of rates, volumes and other result series."""
import copy
from datetime import timedelta
from fractions import Fraction

from vf.num import minutes, q
from vf.series import G, RATE_UNITS, VOL_UNITS, do

CONV = [("t/d", "kg/d"), ("kg/d", "t/d"), ("kg", "t"), ("t", "kg"), ("Sm3", "L"), ("L", "Sm3"), ("C", "K"), ("K", "C"), ("bara", "kPa"), ("kPa", "bara"),
        ("bara", "Pa"), ("Pa", "bara"), ("%", "frac"), ("frac", "%"), ("J/kg", "kJ/kg"), ("kJ/kg", "J/kg"), ("N.m/kg", "J/kg"), ("N.m/kg", "kJ/kg"),
        ("J/kg", "N.m/kg"), ("kJ/kg", "N.m/kg"), ("kg/BOE", "kg/Sm3"), ("kg/Sm3", "kg/BOE"), ("Sm3", "BOE"), ("BOE", "Sm3"), ("MWd", "GWh")]


def run(chk):
    import numpy as np
    from libecalc.common.time_utils import Period
    from libecalc.common.units import Unit
    r = chk.rng
    g = G(r)
    ev = []

    def rec(*a, **k):
        e, x = do(*a, **k)
        ev.append(e)
        return x

    for _ in range(chk.n(260, 6000)):
        n = r.randint(1, 5)
        ds = g.dates(n)
        a = g.series("rate", ds, nan=0.05)
        same = r.random() < 0.75
        b = g.series("rate", ds, unit=a.unit.value if same or r.random() < 0.5 else None, rt=a.rate_type.value if same else None,
                     reg=a.regularity if r.random() < 0.3 else None, nan=0.05)
        rec("add", lambda: a + b, a, b)
        c, s = rec("calendar", a.to_calendar_day, a), rec("stream", a.to_stream_day, a)
        rec("stream", c.to_stream_day, c)
        rec("calendar", s.to_calendar_day, s)
        rec("streamseries", a.to_stream_day_timeseries, a)
        v = rec("volumes", a.to_volumes, a)
        cum = rec("cumulative", v.cumulative, v)
        rec("decumulate", cum.to_volumes, cum)
        rec("rate", lambda: v.to_rate(regularity=a.regularity), v)
        st = g.series("stream", ds, unit="MW", nan=0.1)
        st2 = g.series("stream", ds, unit=r.choice(["MW", "MW", "Sm3/d"]), nan=0.1)
        rec("addstream", lambda: st + st2, st, st2)
        # one series of any kind: parts, joins, new periods
        x = g.series(r.choice(["rate", "rate", "float", "int", "str", "bool", "vol", "cum"]), ds)
        i = r.randrange(-n, n)
        rec("index", lambda: x[i], x, I=[i % n + 1])
        I = sorted(r.sample(range(n), r.randint(1, n)))
        rec("index", lambda: x[I], x, I=[k + 1 for k in I])
        if type(x).__name__ == "TimeSeriesRate":
            rec("index", lambda: x[np.asarray(I)], x, I=[k + 1 for k in I])
        lo, hi = sorted(r.sample(range(n + 1), 2))
        rec("index", lambda: x[lo:hi], x, I=list(range(lo + 1, hi + 1)))
        d = [ds[lo], ds[hi]]
        if r.random() < 0.15:
            d[r.randrange(2)] += timedelta(minutes=7)
        if r.random() < 0.1:
            d = [ds[-1] + timedelta(days=3), ds[-1] + timedelta(days=9)]
        if d[0] < d[1]:
            rec("forperiod", lambda: x.for_period(Period(*d)), x, **{"from": minutes(d[0]), "to": minutes(d[1])})
            if d[0] == ds[lo] and d[1] == ds[hi] and type(x).__name__ != "TimeSeriesRate":
                rec("forperiods", lambda: x.for_periods(g.periods(ds[lo:hi + 1])), x, **{"from": minutes(d[0]), "to": minutes(d[1])})
        kind = {"TimeSeriesRate": "rate", "TimeSeriesFloat": "float", "TimeSeriesInt": "int", "TimeSeriesString": "str",
                "TimeSeriesBoolean": "bool", "TimeSeriesVolumes": "vol", "TimeSeriesVolumesCumulative": "cum"}[type(x).__name__]
        gap = r.choice([0, 0, 0, 0, 5, -400])
        ds2 = g.dates(r.randint(1, 3), base=ds[-1] + timedelta(days=gap), midnight=1.0)
        ds2 = [ds[-1] + timedelta(days=gap)] + [z for z in ds2[1:] if z > ds[-1] + timedelta(days=gap)]
        if len(ds2) > 1:
            y = g.series(kind, ds2, unit=x.unit.value if r.random() < 0.9 else None, rt=x.rate_type.value if kind == "rate" and r.random() < 0.9 else None)
            p, w = (x, y) if r.random() < 0.5 else (y, x)
            rec("merge", lambda: p.merge(w), p, w)
            rec("extend", lambda: p.extend(w), p, w)
        if kind != "rate":
            m = g.periods(ds2) if len(ds2) > 1 and gap == 0 else g.periods([])
            newp = g.periods(ds) + m if r.random() < 0.5 else g.periods(ds2[:1] if gap else []) + g.periods(ds) + m
            fill = {"str": "zz", "bool": False, "int": 0}.get(kind, 0.0)
            rec("newperiods", lambda: x.fill_values_for_new_periods(newp, fillna=fill), x, s=[minutes(z.start) for z in newp],
                e=[minutes(z.end) for z in newp], fill=fill if kind in ("str", "bool") else q(fill))
        f = g.series("float", ds, nan=0.3)
        rec("fillnan", lambda: f.fill_nan(7.0), f, fill="7")
        rec("ffill", f.forward_fill, f)
        b1, b2 = g.series("bool", ds), g.series("bool", ds)
        rec("and", lambda: b1 * b2, b1, b2)
        u1, u2 = r.choice(CONV)
        z = g.series("rate" if u1 in RATE_UNITS else "vol" if u1 in VOL_UNITS + ["BOE"] else "float", ds, unit=u1, nan=0.05)
        zz = rec("unit", lambda: z.to_unit(Unit(u2)), z, unit=u2)
        if zz is not None and (u2, u1) in CONV:
            rec("unit", lambda: zz.to_unit(Unit(u1)), zz, unit=u1)
        k1 = r.choice(["vol", "cum"])
        e1, e2 = g.series(k1, ds, unit="kg"), g.series(k1, ds, unit=r.choice(["Sm3", "BOE"]))
        rec("intensity", lambda: e1 / e2, e1, e2)
    canaries, seen = [], {}
    for e in r.sample(ev, len(ev)):
        if e["res"] != "ok" or seen.get(e["op"], 0) >= 2 or not e["r"]["v"]:
            continue
        c = copy.deepcopy(e)
        v = c["r"]["v"]
        if e["r"]["k"] == "bool":
            v[0] = not v[0]
        elif e["r"]["k"] == "str":
            v[0] = "?"
        else:
            v[0] = "1" if v[0] == "nan" else q(Fraction(v[0]) + 1)
        canaries.append(c)
        seen[e["op"]] = seen.get(e["op"], 0) + 1
    chk.notes["operations"] = {k: sum(e["op"] == k for e in ev) for k in sorted({e["op"] for e in ev})}
    chk.validate("SeriesTrace", ev, canaries)
