"""Encoding of Python values for the TLA+ side: numbers become exact rationals as strings."""
import math
from datetime import date, datetime
from fractions import Fraction

EPOCH = datetime(1900, 1, 1)


def q(x) -> str:
    """A float (exactly), int or Fraction as the string encoding used by Rat.tla."""
    if isinstance(x, Fraction):
        f = x
    else:
        if hasattr(x, "item"):
            x = x.item()
        if isinstance(x, bool):
            raise TypeError("boolean where a number was expected")
        if isinstance(x, float):
            if math.isnan(x):
                return "nan"
            if math.isinf(x):
                return "inf" if x > 0 else "-inf"
        f = Fraction(x)
    return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def qs(xs) -> list[str]:
    return [q(x) for x in xs]


def minutes(d) -> int:
    """A datetime as whole minutes since 1900-01-01 (TLC integers are 32 bit)."""
    if not isinstance(d, datetime) and isinstance(d, date):
        d = datetime(d.year, d.month, d.day)
    delta = d.replace(tzinfo=None) - EPOCH
    s = delta.days * 86400 + delta.seconds
    m, rest = divmod(s, 60)
    if rest or delta.microseconds:
        raise ValueError(f"{d} is not on a whole minute")
    return max(min(m, 2_000_000_000), -2_000_000_000)
