"""Delta profiles: the comparison of two simple results."""
import copy
import random
from datetime import datetime, timedelta

from .num import minutes, qs

KINDS = ["GENERIC", "GENERATOR_SET", "INSTALLATION", "VENTING_EMITTER"]
BASE = datetime(2020, 1, 1)


def gen(rng):
    """Two results over overlapping or disjoint spans, with different dates, components and emissions."""
    months = [BASE + timedelta(days=30 * k + (rng.choice([0, 0, 7]))) for k in range(10)]
    names = rng.sample([("a", "GENERIC"), ("b", "GENERIC"), ("a", "INSTALLATION"), ("g", "GENERATOR_SET"), ("v", "VENTING_EMITTER"), ("b2", "GENERIC")], rng.randint(1, 5))
    units = {n: rng.choice(["MW", "Sm3/d"]) for n in names}
    out = []
    for _ in range(2):
        dates = sorted(rng.sample(months, rng.randint(2, 6)))
        n = len(dates) - 1
        comps = []
        for nm in rng.sample(names, rng.randint(0 if rng.random() < 0.2 else 1, len(names))):
            val = lambda: [float(rng.randint(-40, 200)) / 4 for _ in range(n)]
            comps.append({"name": nm[0], "kind": nm[1], "parent": rng.choice(["p", "p", "q", ""]), "energy": val(),
                          "unit": units[nm] if rng.random() < 0.93 else "MW", "power": val() if rng.random() < 0.5 else None,
                          "valid": [rng.randint(0, 1) if rng.random() < 0.4 else 1 for _ in range(n)],
                          "em": {e: val() for e in rng.sample(["co2", "ch4", "nox"], rng.randint(0, 3))}})
        out.append({"dates": dates, "comps": comps})
    return out


def build(d):
    from libecalc.common.component_info.component_level import ComponentLevel
    from libecalc.common.time_utils import Period, Periods
    from libecalc.presentation.simple_result.simple import SimpleComponentResult, SimpleEmissionResult, SimpleResultData
    ps = Periods([Period(a, b) for a, b in zip(d["dates"], d["dates"][1:])])
    lv = {"GENERIC": "CONSUMER", "GENERATOR_SET": "GENERATOR_SET", "INSTALLATION": "INSTALLATION", "VENTING_EMITTER": "CONSUMER"}
    return SimpleResultData(periods=ps, components=[
        SimpleComponentResult(componentType=c["kind"], component_level=ComponentLevel(lv[c["kind"]]), parent=c["parent"] or None, name=c["name"], periods=ps,
                              is_valid=c["valid"], emissions={k: SimpleEmissionResult(name=k, rate=v) for k, v in c["em"].items()},
                              energy_usage=c["energy"], energy_usage_unit=c["unit"], power=c["power"]) for c in d["comps"]])


def rec(x):
    return {"tv": [minutes(t) for t in x.periods.all_dates] if len(x.periods.periods) else [], "comps": [
        {"name": c.name, "kind": str(c.componentType.value), "parent": c.parent or "", "unit": str(c.energy_usage_unit.value), "energy": qs(c.energy_usage),
         "tv": [minutes(t) for t in c.periods.all_dates], "power": qs(c.power) if c.power is not None else [], "valid": [bool(v) for v in c.is_valid],
         "em": [{"name": k, "iname": e.name, "rate": qs(e.rate)} for k, e in sorted(c.emissions.items())]} for c in x.components]}


def event(rng):
    from libecalc.presentation.simple_result.simple import SimpleResultData
    r, c = (build(d) for d in gen(rng))
    e = {"ref": rec(r), "chg": rec(c), "got": [], "refused": ""}
    try:
        a, b, d, errors = SimpleResultData.delta_profile(reference_model=r, changed_model=c)
        e["got"] = [{"chg": rec(a), "ref": rec(b), "delta": rec(d), "errors": [str(x) for x in errors]}]
    except Exception as x:  # noqa: BLE001
        e["refused"] = type(x).__name__
    e["ref2"], e["chg2"] = rec(r), rec(c)
    return e


def corrupt(e, rng):
    e = copy.deepcopy(e)
    if not e["got"] or not e["got"][0]["delta"]["comps"]:
        return None
    c = rng.choice(e["got"][0]["delta"]["comps"])
    k = rng.randrange(3)
    if k == 0:
        c["energy"][-1] = "1234567/3"
    elif k == 1:
        c["valid"][0] = not c["valid"][0]
    elif c["em"]:
        rng.choice(c["em"])["rate"][0] = "1234567/3"
    else:
        return None
    return e


def check(chk, n):
    events = [event(chk.rng) for _ in range(n)]
    rng = random.Random(3)
    bad = [c for c in (corrupt(e, rng) for e in rng.sample(events, 60)) if c][:8]
    chk.validate("DeltaTrace", events, canaries=bad)
