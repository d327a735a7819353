"""Generating, encoding and operating on the time series of results (libecalc.common.utils.rates)."""
from datetime import datetime, timedelta
from fractions import Fraction

from .num import minutes, q, qs

RATE_UNITS = ["Sm3/d", "MW", "t/d", "kg/d", "L/d"]
VOL_UNITS = ["Sm3", "MWd", "t", "kg", "L"]


def kinds():
    from libecalc.common.utils import rates as R
    return [("rate", R.TimeSeriesRate), ("cum", R.TimeSeriesVolumesCumulative), ("vol", R.TimeSeriesVolumes), ("bool", R.TimeSeriesBoolean),
            ("str", R.TimeSeriesString), ("int", R.TimeSeriesInt), ("float", R.TimeSeriesFloat)]


def encode(x):
    k = next((n for n, c in kinds() if type(x) is c), None) or next(n for n, c in kinds() if isinstance(x, c))
    v = list(x.values)
    if k == "bool":
        v = [bool(a) for a in v]
    elif k == "str":
        v = [str(a) for a in v]
    else:
        v = qs(v)
    e = {"k": k, "v": v, "s": [minutes(p.start) for p in x.periods], "e": [minutes(p.end) for p in x.periods], "unit": str(x.unit.value),
         "rt": "", "reg": []}
    if k == "rate":
        e["rt"] = str(x.rate_type.value)
        e["reg"] = qs(x.regularity)
    return e


class G:
    def __init__(self, r):
        self.r = r

    def number(self, nan=0.0):
        r = self.r
        if nan and r.random() < nan:
            return float("nan")
        k = r.random()
        if k < 0.12:
            return 0.0
        if k < 0.6:
            return float(Fraction(r.randint(-20, 400), 8))
        return r.choice([0.1, 0.3, 7.7, 1e-3, 12345.678, 1e6 / 7, -0.7, 33.0])

    def reg(self):
        r = self.r
        return r.choice([1.0, 1.0, 0.9, 0.5, 0.25, 0.95, 0.0, r.random()])

    def dates(self, n, midnight=0.6, spread=None, base=None):
        r = self.r
        d = base or datetime(r.choice([1999, 2000, 2019, 2020, 2023]), r.randint(1, 12), r.randint(1, 28))
        tod = r.random() > midnight
        if tod:
            d += timedelta(minutes=r.choice([0, 0, 1, 720, 1439, r.randrange(1440)]))
        elif r.random() < 0.5:
            d = datetime(d.year, r.choice([1, 1, d.month]), 1)
        spread = spread or r.choice([3, 40, 400, 900])
        out = [d]
        for _ in range(n):
            k = r.random()
            if k < 0.3:
                nxt = datetime(d.year + 1, 1, 1)
            elif k < 0.5:
                nxt = datetime(d.year + d.month // 12, d.month % 12 + 1, 1)
            else:
                nxt = d + timedelta(days=r.randint(1, spread))
                if tod:
                    nxt += timedelta(minutes=r.choice([0, 0, 60, 1439, r.randrange(1440)]))
            if (nxt - out[0]).days > 366 * 6:
                nxt = d + timedelta(days=1)
            out.append(nxt)
            d = nxt
        return out

    def periods(self, dates):
        from libecalc.common.time_utils import Periods
        return Periods.create_periods(list(dates), include_before=False, include_after=False)

    def series(self, kind, dates, unit=None, rt=None, reg=None, nan=0.0):
        from libecalc.common.utils import rates as R
        from libecalc.common.units import Unit
        r, n = self.r, len(dates) - 1
        p = self.periods(dates)
        if kind == "rate":
            return R.TimeSeriesRate(periods=p, values=[self.number(nan) for _ in range(n)], unit=Unit(unit or r.choice(RATE_UNITS)),
                                    rate_type=R.RateType(rt or r.choice(["STREAM_DAY", "CALENDAR_DAY"])),
                                    regularity=list(reg) if reg is not None else [self.reg() for _ in range(n)] if r.random() < 0.8 else [self.reg()] * n)
        if kind == "cum":
            v, t = [], 0.0
            for _ in range(n):
                t += abs(self.number())
                v.append(t)
            return R.TimeSeriesVolumesCumulative(periods=p, values=v, unit=Unit(unit or r.choice(VOL_UNITS)))
        if kind == "vol":
            return R.TimeSeriesVolumes(periods=p, values=[self.number(nan) for _ in range(n)], unit=Unit(unit or r.choice(VOL_UNITS)))
        if kind == "bool":
            return R.TimeSeriesBoolean(periods=p, values=[r.random() < 0.7 for _ in range(n)], unit=Unit.NONE)
        if kind == "str":
            return R.TimeSeriesString(periods=p, values=[r.choice(["a", "b", "c d", ""]) for _ in range(n)], unit=Unit.NONE)
        if kind == "int":
            return R.TimeSeriesInt(periods=p, values=[r.randint(-3, 9) for _ in range(n)], unit=Unit.NONE)
        if kind == "stream":
            return R.TimeSeriesStreamDayRate(periods=p, values=[self.number(nan) for _ in range(n)], unit=Unit(unit or r.choice(RATE_UNITS)))
        return R.TimeSeriesFloat(periods=p, values=[self.number(nan) for _ in range(n)], unit=Unit(unit or r.choice(["frac", "bara", "C", "%"])))


REFUSALS = (ValueError, TypeError, NotImplementedError)


def do(op, f, a, b=None, **args):
    from libecalc.common.errors.exceptions import ProgrammingError
    e = {"op": op, "a": encode(a), **args}
    if b is not None:
        e["b"] = encode(b)
    try:
        r = f()
    except (*REFUSALS, ProgrammingError) as x:
        e["res"], e["why"] = "refused", repr(x)[:200]
        return e, None
    e["res"], e["r"] = "ok", encode(r)
    return e, r


def resample_event(x, freq, first=True, last=True, f=None):
    from libecalc.common.time_utils import Frequency
    fr = Frequency[freq]
    return do("resample", f or (lambda: x.resample(fr, include_start_date=first, include_end_date=last)), x, freq=freq, first=first, last=last)
