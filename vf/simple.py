"""Simplified compressor trains on generic charts, through whole models over the stand-in engine."""
import copy
import json
from fractions import Fraction as F

from . import fluids
from .engine import R
from .modelcheck import pool_map
from .num import q
from .pump import HF, rnd
from .sampled import enc
from .trains import Gas, finish, fluid_yaml, num, observe, running

K0 = F(27315, 100)


def head(gas, t, p1, p2, eff):
    k = gas.cp() / (gas.cp() - R)
    e = (k - 1) / (k * eff)
    z = (gas.z(p1) + gas.z(p2)) / 2
    return z * R * t / gas.mm() * ((p2 / p1) ** e - 1) / e


class G:
    def __init__(self, rng):
        self.r = rng

    def train(self, nper, reg):
        r = self.r
        m = fluids.Rng(r).model(wet=r.random() < 0.15, eos=r.choice(["SRK", "SRK", "PR", "PR", "GERG_PR"]))
        if m["x"][0] and m["eos"].startswith("GERG"):
            m["x"][0] = 0.0
        elif m["x"][0]:
            m["x"][0] = 0.01 * r.randint(1, 5) * sum(m["x"])
        m["x"] = [round(v, 6) for v in m["x"]]
        gas = Gas(m)
        known = r.random() < 0.7
        n = r.choice([1, 2, 2, 3])
        per = r.uniform(1.3, 3.2)
        ps = F(r.randint(10, 120), 4)
        q0 = r.randint(500, 8000)
        t0 = F(r.randint(150, 500), 10) + K0
        mass = q0 * gas.rho(float(t0), float(ps))
        sm0 = mass * 24 / gas.standard()
        e = {"m": m, "known": known, "reg": reg, "factor": F(1) if r.random() < 0.7 else F(r.randint(90, 120), 100), "const": F(0) if r.random() < 0.7 else F(r.randint(-2, 8), 16),
             "maxpower": None, "max": r.random() < 0.4, "allowed": F(0), "rate": [], "ps": [], "pd": [], "stages": [],
             "cond": [F(r.random() < 0.85) for _ in range(nper)] if r.random() < 0.2 else [F(1)] * nper,
             "plf": [r.choice([F(0), F(1, 4), F(1, 8)]) for _ in range(nper)] if r.random() < 0.2 else [F(0)] * nper}
        for _ in range(nper):
            a = rnd(ps * F(r.randint(80, 125), 100), 16)
            d = rnd(a * F(per ** n) * F(r.choice([100, 100, r.randint(60, 140)]), 100), 64)
            d = max(d, rnd(a * F(11, 10), 64))
            e["ps"].append(a)
            e["pd"].append(d)
            e["rate"].append(F(0) if r.random() < 0.08 else rnd(F(sm0 * r.choice([1, r.uniform(0.2, 1.6), r.uniform(0.5, 1.2)])), 1) * (reg or 1))
        if not known:
            e["allowed"] = rnd(F(per * r.uniform(0.8, 1.3)), 64)
            if e["allowed"] <= F(11, 10):
                e["allowed"] = F(3, 2)
            if r.random() < 0.4:    # as much as the stages may lift, exactly
                e["allowed"] = F(r.choice([2, 3, 4, 5, 5]) if r.random() < 0.8 else F(3, 2))
                k = r.choice([2, 3] if e["allowed"] > 3 else [1, 2, 3, 4])
                top = e["allowed"] ** k
                for i in range(nper):
                    e["pd"][i] = min(e["pd"][i], e["ps"][i] * top)
                i = r.randrange(nper)
                e["pd"][i] = e["ps"][i] * top
        p = float(ps)
        for k in range(n if known else 1):
            t = t0 if k == 0 else F(r.randint(150, 500), 10) + K0
            eff = F(r.randint(55, 95), 100)
            kind = r.choice(["design", "input"]) if known else "input"
            st = {"t": t, "eff": eff, "kind": kind, "rate": F(0), "head": F(0), "unit": r.choice(["M", "KJ_PER_KG", "JOULE_PER_KG"]), "eunit": r.choice(["FRACTION", "PERCENTAGE"])}
            if kind == "design":
                st["eunit"] = "FRACTION"
                st["rate"] = rnd(F(mass / gas.rho(float(t), p) * r.uniform(0.7, 1.3)), 8)
                st["head"] = rnd(F(head(gas, float(t), p, p * per, float(eff)) * r.uniform(0.7, 1.5)) / HF[st["unit"]], 64) * HF[st["unit"]]
            e["stages"].append(st)
            p *= per
        if r.random() < 0.3:
            e["maxpower"] = rnd(F(mass / 3.6e9 * n * head(gas, float(t0), float(ps), float(ps) * per, 0.7) / 0.7 * r.uniform(0.6, 1.4)), 64) or F(1, 64)
        return e


def files(es, nper, reg):
    out, y, cols, el = {}, [], {}, []
    for k, e in enumerate(es):
        y.append(fluid_yaml(f"f{k}", e["m"]))
        for i, st in enumerate(e["stages"]):
            u = f"UNITS: {{RATE: AM3_PER_HOUR, HEAD: {st['unit']}, EFFICIENCY: {st['eunit']}}}"
            eff = num(st["eff"] * (100 if st["eunit"] == "PERCENTAGE" else 1))
            if st["kind"] == "design":
                y.append(f"  - {{NAME: ch{k}_{i}, TYPE: COMPRESSOR_CHART, CHART_TYPE: GENERIC_FROM_DESIGN_POINT, POLYTROPIC_EFFICIENCY: {eff}, DESIGN_RATE: {num(st['rate'])}, DESIGN_HEAD: {num(st['head'] / HF[st['unit']])}, {u}}}")
            else:
                y.append(f"  - {{NAME: ch{k}_{i}, TYPE: COMPRESSOR_CHART, CHART_TYPE: GENERIC_FROM_INPUT, POLYTROPIC_EFFICIENCY: {eff}, UNITS: {{EFFICIENCY: {st['eunit']}}}}}")
        one = lambda i: f"INLET_TEMPERATURE: {num(e['stages'][i]['t'] - K0)}, COMPRESSOR_CHART: ch{k}_{i}"
        train = "{STAGES: [" + ", ".join("{" + one(i) + "}" for i in range(len(e["stages"]))) + "]}" if e["known"] else "{MAXIMUM_PRESSURE_RATIO_PER_STAGE: " + num(e["allowed"]) + ", " + one(0) + "}"
        t = [f"NAME: t{k}", "TYPE: SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", f"FLUID_MODEL: f{k}", f"POWER_ADJUSTMENT_FACTOR: {num(e['factor'])}", f"POWER_ADJUSTMENT_CONSTANT: {num(e['const'])}", f"COMPRESSOR_TRAIN: {train}"]
        if e["maxpower"] is not None:
            t.append(f"MAXIMUM_POWER: {num(e['maxpower'])}")
        if e["max"]:
            t.append("CALCULATE_MAX_RATE: true")
        y.append("  - {" + ", ".join(t) + "}")
        u = ["TYPE: COMPRESSOR", f"ENERGYFUNCTION: t{k}", f"RATE: SIM;R{k}", f"SUCTION_PRESSURE: SIM;S{k}", f"DISCHARGE_PRESSURE: SIM;D{k}"]
        cols.update({f"R{k}": e["rate"], f"S{k}": e["ps"], f"D{k}": e["pd"]})
        if any(x != 1 for x in e["cond"]):
            u.append(f"CONDITION: SIM;C{k} > 0")
            cols[f"C{k}"] = e["cond"]
        if any(e["plf"]):
            u.append(f"POWERLOSSFACTOR: SIM;L{k}")
            cols[f"L{k}"] = e["plf"]
        el.append([f"- NAME: c{k}", "  CATEGORY: COMPRESSOR", "  ENERGY_USAGE_MODEL:"] + ["    " + x for x in u])
    return finish(out, y, cols, el, nper, reg)


def _one(job):
    import random
    seed, ncons, n = job
    rng = random.Random(seed)
    g = G(rng)
    reg = rng.choice([F(1), F(1), F(1), F(1, 2), F(95, 100), F(0)])
    es = [g.train(n, reg) for _ in range(ncons)]
    fs = files(es, n, reg)
    res, err = running(fs)
    if err:
        return [{"crash": err, "files": fs}]
    by = {c.name: c for c in res.sub_components}
    models = {m.name: m for m in res.models}
    out = []
    for k, e in enumerate(es):
        c, m = by[f"c{k}"], models[f"c{k}"]
        d = enc({"m": {"x": [F(str(x)) for x in e["m"]["x"]], "eos": e["m"]["eos"]}, "reg": reg, "factor": e["factor"], "const": e["const"],
                 "maxpower": e["maxpower"] if e["maxpower"] is not None else F(0), "max": e["max"], "allowed": e["allowed"],
                 "stages": [{a: st[a] for a in ("t", "eff", "kind", "rate", "head")} for st in e["stages"]]})
        d["charts"] = [[{"n": q(cv.speed_rpm), "r": [q(x) for x in cv.rate_actual_m3_hour], "h": [q(x) for x in cv.polytropic_head_joule_per_kg], "e": [q(x) for x in cv.efficiency_fraction]}
                        for cv in sorted(s.chart.curves, key=lambda cv: cv.speed_rpm)] if s.chart is not None else [] for s in m.stage_results]
        d["periods"] = []
        for i in range(n):
            p = enc({"rate": e["rate"][i], "ps": e["ps"][i], "pd": e["pd"][i], "cond": e["cond"][i] == 1, "plf": e["plf"][i]})
            p["o"] = observe(c, m, i)
            d["periods"].append(p)
        d["files"] = json.dumps(fs)
        out.append(d)
    return out


def corrupt(e, rng):
    c = copy.deepcopy(e)
    P = [p for p in c["periods"] if p["o"]["stages"] and p["o"]["stages"][0]["i"]["p"] != "nan" and F(p["rate"]) > 0 and p["cond"] and F(c["reg"]) > 0]
    if not P:
        return None
    p = rng.choice(P)
    o = p["o"]
    up = lambda d, f: d.__setitem__(f, q(F(d[f]) * F(10001, 10000) + F(1, 100000))) if d[f] != "nan" else d.__setitem__(f, q(1))
    k = rng.choice(["power", "fail", "valid", "stage", "stage", "in", "out", "chart"])
    if k == "power":
        up(o, "power")
    elif k == "fail":
        o["fail"] = "ABOVE_MAXIMUM_FLOW_RATE" if o["fail"] != "ABOVE_MAXIMUM_FLOW_RATE" else "NO_FAILURE"
    elif k == "valid":
        o["valid"] = not o["valid"]
    elif k == "chart":
        s = rng.choice(c["charts"])
        s[rng.randrange(2)][rng.choice("rh")][rng.randrange(7)] = q(F(7, 3))
    else:
        s = rng.choice(o["stages"])
        if k == "stage":
            up(s, rng.choice(["head", "eff", "dh", "dh0", "power", "m", "m2"]))
        elif k == "in":
            up(s["i"], rng.choice(["t", "rho", "z", "q", "sm", "sm2", "q2"]))
        else:
            up(s["o"], rng.choice(["t", "rho", "q", "q2"]))
    return c


def check(chk, n, canaries=30):
    jobs = [(chk.rng.getrandbits(48), 5, 6) for _ in range(n)]
    ev = [e for es in pool_map(_one, jobs) for e in es]
    good = []
    for e in ev:
        if "crash" in e:
            chk.violations.append({"spec": "SimpleTrace", "clauses": ["a valid model was not evaluated"], "event": e})
        else:
            good.append(e)
    if good:
        chk.validate("SimpleTrace", good, chk.spoiled(good, corrupt, canaries))
