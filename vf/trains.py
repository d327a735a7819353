"""Compressor trains on a common shaft: generated trains and operating points, through whole models over the stand-in engine."""
import copy
import json
from fractions import Fraction as F

from . import charts, fluids
from .engine import CP, EOS, GERG, MASS, NAMES, R, capacity
from .model import dec
from .modelcheck import pool_map
from .num import q
from .pump import HF, evaluate, rnd
from .sampled import enc

CONTROLS = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE", "COMMON_ASV"]
YAMLNAMES = ["water", "nitrogen", "CO2", "methane", "ethane", "propane", "i_butane", "n_butane", "i_pentane", "n_pentane", "n_hexane"]


# ------------------------------------------------------- physics in doubles, only to choose interesting operating points
class Gas:
    def __init__(self, m):
        s = sum(m["x"])
        self.x = [v / s for v in m["x"]]
        self.eos = m["eos"]
        self.gerg = self.eos.startswith("GERG")
        self.par = (GERG if self.gerg else EOS)[self.eos.split("_")[-1]]

    def mm(self):
        return sum(a * MASS[n] for a, n in zip(self.x, NAMES))

    def cp(self):
        return sum(a * CP[n] for a, n in zip(self.x, NAMES)) + (1 if self.gerg else 0)

    def z(self, p):
        return max(0.25, self.par[0] - self.par[1] * p)

    def rho(self, t, p):
        return 1e5 * p * self.mm() / (self.z(p) * R * t)

    def dry(self, t, p):
        """the gas left, and its share of the mass"""
        w, y = self.x[0], capacity(t, p)
        if w <= y:
            return self, 1.0
        g = copy.copy(self)
        g.x = [y if i == 0 else a * (1 - y) / (1 - w) for i, a in enumerate(self.x)]
        return g, (1 - w) / (1 - y) * g.mm() / self.mm()

    def standard(self):
        g, _ = self.dry(288.15, 1.01325)
        return g.rho(288.15, 1.01325)


def ends(ch, margin, s):
    """lowest and highest rate at a speed"""
    xs = [(float(a), float(c[0][0] + margin * (c[-1][0] - c[0][0])), float(c[-1][0])) for a, c in ch]
    if len(xs) == 1:
        return xs[0][1:]
    s = min(max(s, xs[0][0]), xs[-1][0])
    for (a, l1, h1), (b, l2, h2) in zip(xs, xs[1:]):
        if a <= s <= b:
            w = (s - a) / (b - a)
            return l1 + w * (l2 - l1), h1 + w * (h2 - h1)


def head_at(ch, s, x):
    from .pump import line
    if len(ch) == 1:
        return float(line(ch[0][1], x)), 0.7
    for (a, c), (b, d) in zip(ch, ch[1:]):
        if a <= s <= b:
            w = (s - float(a)) / float(b - a)
            return (1 - w) * float(line(c, x)) + w * float(line(d, x)), 0.7
    return float(line(ch[-1][1], x)), 0.7


def forward(gas, mass, p, stages, s):
    """outlet pressure of the train, and per stage the rate's share of the range"""
    at = []
    for st in stages:
        p = p - float(st["drop"])
        t = float(st["t"])
        gas, k = gas.dry(t, p)
        mass *= k
        x = mass / gas.rho(t, p)
        lo, hi = ends(st["ch"], st["margin"], s)
        at.append((x - lo) / (hi - lo))
        h, e = head_at(st["ch"], s, min(max(x, lo), hi))
        kap = gas.cp() / (gas.cp() - R)
        ex = (kap - 1) / (kap * e)
        p2 = p
        for _ in range(4):
            z = (gas.z(p) + gas.z(p2)) / 2
            p2 = p * (1 + h * ex * gas.mm() / (z * R * t)) ** (1 / ex)
            if not p2 < 900:
                return 1e4, at
        p = p2
    return p, at


class G(charts.G):
    def kind(self):
        return self.r.choice(["single", "variable", "variable"])

    def speeds(self, n, single):
        r = self.r
        if single:
            return [F(1)]
        lo, hi = F(r.randint(4500, 5500)), F(r.randint(8500, 9500))
        return [lo] + sorted(F(r.randint(5600, 8400)) for _ in range(n - 2)) + [hi] if n > 1 else [lo]

    def train(self, nper, reg):
        r = self.r
        kind = self.kind()
        single = kind == "single"
        m = fluids.Rng(r).model(wet=r.random() < 0.25, eos=r.choice(["SRK", "SRK", "PR", "PR", "GERG_SRK"]))
        if m["x"][0] and m["eos"].startswith("GERG"):
            m["x"][0] = 0.0
        elif m["x"][0]:
            m["x"][0] = 0.01 * r.randint(1, 5) * sum(m["x"])
        m["x"] = [round(v, 6) for v in m["x"]]
        gas = Gas(m)
        ns = r.choice([1, 1, 2, 2, 3])
        ps = F(r.randint(20, 160), 4)
        stages, p, g = [], float(ps), gas
        q0 = r.randint(800, 6000)
        mass = None
        for k in range(ns):
            t = F(r.randint(20 * 10, 60 * 10), 10) + F(27315, 100)
            drop = F(0) if r.random() < 0.5 else F(r.randint(1, 12), 8)
            p1 = p - float(drop)
            g, share = g.dry(float(t), p1)
            mass = q0 * g.rho(float(t), p1) if mass is None else mass * share
            x = mass / g.rho(float(t), p1)
            off = r.choice([1, 1, 1, 1, 1.3, 0.7])
            n = 1 if single else r.choice([2, 2, 3, 4])
            for _ in range(200):
                ch = self.chart(n, max(20, int(x / 1.4 * off)), r.randint(15, 70) * 1000, single)
                if len(ch) == n:
                    break
            unit = r.choice(["M", "KJ_PER_KG", "JOULE_PER_KG"])
            ch = [(s, [(a, rnd(b / HF[unit], 64) * HF[unit], min(e, F(95, 100))) for a, b, e in c]) for s, (_, c) in zip(self.speeds(n, single), ch)]
            margin = F(0) if r.random() < 0.5 else F(r.choice([5, 10, 20]), 100)
            st = {"ch": ch, "margin": margin, "t": t, "drop": drop, "unit": unit, "eunit": r.choice(["FRACTION", "PERCENTAGE"]),
                  "munit": r.choice(["FRACTION", "PERCENTAGE"]), "file": r.random() < 0.4, "seed": r.getrandbits(32)}
            stages.append(st)
            s = float(ch[0][0] + ch[-1][0]) / 2
            p, _ = forward(g, mass, p, [st], s)
            if p > 400:
                return self.train(nper, reg)
        lo = max(float(st["ch"][0][0]) for st in stages)
        hi = min(float(st["ch"][-1][0]) for st in stages)
        e = {"m": m, "stages": stages, "control": r.choice(CONTROLS), "single": single, "reg": reg,
             "factor": F(1) if r.random() < 0.7 else F(r.randint(90, 120), 100), "const": F(0) if r.random() < 0.7 else F(r.randint(-2, 8), 16),
             "maxpower": None, "maxp": None, "max": r.random() < 0.2,
             "cond": [F(r.random() < 0.85) for _ in range(nper)] if r.random() < 0.2 else [F(1)] * nper,
             "plf": [r.choice([F(0), F(1, 4), F(1, 8)]) for _ in range(nper)] if r.random() < 0.2 else [F(0)] * nper,
             "rate": [], "ps": [], "pd": []}
        if r.random() < 0.3:
            e["maxpower"] = rnd(F(mass / 3.6e9 * sum(1.2e5 for _ in stages)) * F(r.randint(2, 30), 10), 64) or F(1, 64)
        if single and e["control"] == "DOWNSTREAM_CHOKE" and r.random() < 0.5:
            e["maxp"] = rnd(F(p) * F(r.randint(60, 120), 100), 16)
        while len(e["rate"]) < nper:
            if r.random() < 0.06:
                e["rate"].append(F(0)); e["ps"].append(ps); e["pd"].append(ps * 2)
                continue
            a = rnd(ps * F(r.randint(70, 140), 100), 16)
            if float(a) <= max(float(st["drop"]) for st in stages) + 1:
                continue
            s = lo + (hi - lo) * r.choice([0.0, 1.0, r.random(), r.random()])
            st = stages[0]
            t, p1 = float(st["t"]), float(a - st["drop"])
            g, share = gas.dry(t, p1)
            l0, h0 = ends(st["ch"], st["margin"], s)
            x = l0 + (h0 - l0) * r.choice([r.uniform(-0.6, 0), r.uniform(0, 1), r.uniform(0, 1), r.uniform(0.2, 0.9), r.uniform(1, 1.3)])
            ms = max(x, 0.02 * l0) * g.rho(t, p1) / share
            sm = rnd(F(ms * 24 / gas.standard()), 1)
            ms = float(sm) * gas.standard() / 24
            s2 = lo + (hi - lo) * r.choice([0.0, 1.0, r.random(), r.random()])
            d, _ = forward(gas, ms, float(a), stages, s2)
            d *= r.choice([1, 1, 1, 0.9, 0.6, r.uniform(0.5, 1.3)])
            d = rnd(F(d), 64) if d < 900 else F(900)
            if d <= a * F(21, 20) or sm <= 0:
                continue
            e["rate"].append(sm * (reg or 1)); e["ps"].append(a); e["pd"].append(d)
        return e


# ------------------------------------------------------------------------------------------------------------ as files
def num(x):
    return dec(q(x))


def fluid_yaml(name, m):
    comp = ", ".join(f"{n}: {repr(v)}" for n, v in zip(YAMLNAMES, m["x"]) if v)
    return f"  - {{NAME: {name}, TYPE: FLUID, FLUID_MODEL_TYPE: COMPOSITION, EOS_MODEL: {m['eos']}, COMPOSITION: {{{comp}}}}}"


def chart_yaml(name, st, single, out):
    import random
    rng = random.Random(st["seed"])
    ef = 1 if st["eunit"] == "FRACTION" else 100
    cs = [(s, [(a, h / HF[st["unit"]], e * ef) for a, h, e in c]) for s, c in st["ch"]]
    rng.shuffle(cs)
    cs = [(s, rng.sample(c, len(c))) for s, c in cs]
    head = f"  - {{NAME: {name}, TYPE: COMPRESSOR_CHART, CHART_TYPE: {'SINGLE' if single else 'VARIABLE'}_SPEED, UNITS: {{RATE: AM3_PER_HOUR, HEAD: {st['unit']}, EFFICIENCY: {st['eunit']}}}, "
    if st["file"]:
        cols = [("RATE", 0), ("HEAD", 1), ("EFFICIENCY", 2)]
        rng.shuffle(cols)
        sp = not single or rng.random() < 0.5
        rows = [(s, p) for s, c in cs for p in c]
        rng.shuffle(rows)
        out[name + ".csv"] = ",".join((["SPEED"] if sp else []) + [c for c, _ in cols]) + "\n" + "".join(",".join(([num(s)] if sp else []) + [num(p[i]) for _, i in cols]) + "\n" for s, p in rows)
        return head + f"{'CURVE' if single else 'CURVES'}: {{FILE: {name}.csv}}}}"
    one = [f"{{SPEED: {num(s)}, RATE: [{', '.join(num(p[0]) for p in c)}], HEAD: [{', '.join(num(p[1]) for p in c)}], EFFICIENCY: [{', '.join(num(p[2]) for p in c)}]}}" for s, c in cs]
    return head + (f"CURVE: {one[0]}}}" if single else f"CURVES: [{', '.join(one)}]}}")


def files(es, nper, reg, rates=None, maxima=True):
    out, y, cols, el = {}, [], {}, []
    for k, e in enumerate(es):
        y.append(fluid_yaml(f"f{k}", e["m"]))
        stages = []
        for i, st in enumerate(e["stages"]):
            y.append(chart_yaml(f"ch{k}_{i}", st, e["single"], out))
            stages.append(f"{{INLET_TEMPERATURE: {num(st['t'] - F(27315, 100))}, COMPRESSOR_CHART: ch{k}_{i}"
                          + (f", PRESSURE_DROP_AHEAD_OF_STAGE: {num(st['drop'])}" if st["drop"] else "")
                          + f", CONTROL_MARGIN: {num(st['margin'] * (100 if st['munit'] == 'PERCENTAGE' else 1))}, CONTROL_MARGIN_UNIT: {st['munit']}}}")
        t = [f"NAME: t{k}", f"TYPE: {'SINGLE' if e['single'] else 'VARIABLE'}_SPEED_COMPRESSOR_TRAIN", f"FLUID_MODEL: f{k}", f"PRESSURE_CONTROL: {e['control']}",
             f"POWER_ADJUSTMENT_FACTOR: {num(e['factor'])}", f"POWER_ADJUSTMENT_CONSTANT: {num(e['const'])}", f"COMPRESSOR_TRAIN: {{STAGES: [{', '.join(stages)}]}}"]
        if e["maxpower"] is not None:
            t.append(f"MAXIMUM_POWER: {num(e['maxpower'])}")
        if e["maxp"] is not None:
            t.append(f"MAXIMUM_DISCHARGE_PRESSURE: {num(e['maxp'])}")
        if e["max"] and maxima:
            t.append("CALCULATE_MAX_RATE: true")
        y.append("  - {" + ", ".join(t) + "}")
        u = ["TYPE: COMPRESSOR", f"ENERGYFUNCTION: t{k}", f"RATE: SIM;R{k}", f"SUCTION_PRESSURE: SIM;S{k}", f"DISCHARGE_PRESSURE: SIM;D{k}"]
        cols.update({f"R{k}": rates[k] if rates else e["rate"], f"S{k}": e["ps"], f"D{k}": e["pd"]})
        if any(x != 1 for x in e["cond"]):
            u.append(f"CONDITION: SIM;C{k} > 0")
            cols[f"C{k}"] = e["cond"]
        if any(e["plf"]):
            u.append(f"POWERLOSSFACTOR: SIM;L{k}")
            cols[f"L{k}"] = e["plf"]
        el.append([f"- NAME: c{k}", "  CATEGORY: COMPRESSOR", "  ENERGY_USAGE_MODEL:"] + ["    " + x for x in u])
    return finish(out, y, cols, el, nper, reg)


def finish(out, y, cols, el, nper, reg):
    out["sim.csv"] = "DATE," + ",".join(cols) + "\n" + "".join(f"01.{i % 12 + 1:02d}.{2020 + i // 12}," + ",".join(num(c[i]) for c in cols.values()) + "\n" for i in range(nper))
    out["gen.csv"] = "POWER,FUEL\n0,0\n1000000,1000000\n"
    top = ["TIME_SERIES:", "  - {NAME: SIM, TYPE: DEFAULT, FILE: sim.csv}", "FACILITY_INPUTS:", "  - {NAME: gen, TYPE: ELECTRICITY2FUEL, FILE: gen.csv}", "MODELS:", *y,
           "FUEL_TYPES:", "  - {NAME: gas, EMISSIONS: [{NAME: co2, FACTOR: 2}]}", "START: 2020-01-01", f"END: {2020 + nper // 12}-{nper % 12 + 1:02d}-01",
           "INSTALLATIONS:", "  - NAME: A", "    FUEL: gas", "    HCEXPORT: 0", f"    REGULARITY: {num(reg)}",
           "    GENERATORSETS:", "      - NAME: gs", "        CATEGORY: TURBINE-GENERATOR", "        ELECTRICITY2FUEL: gen", "        CONSUMERS:"]
    top += ["          " + x for c in el for x in c]
    out["model.yml"] = "\n".join(top) + "\n"
    return out


# ------------------------------------------------------------------------------------------------------------ recording
def stream(s, i):
    return {"p": q(s.pressure.values[i]), "t": q(s.temperature_kelvin.values[i]), "rho": q(s.density_kg_per_m3.values[i]), "z": q(s.z.values[i]),
            "kappa": q(s.kappa.values[i]), "q2": q(s.actual_rate_m3_per_hr.values[i]), "q": q(s.actual_rate_before_asv_m3_per_hr.values[i]),
            "sm2": q(s.standard_rate_sm3_per_day.values[i]), "sm": q(s.standard_rate_before_asv_sm3_per_day.values[i])}


def observe(c, m, i):
    v = lambda x: q(x.values[i])
    b = lambda x: bool(x.values[i])
    o = {"fail": str(getattr(m.failure_status[i], "value", m.failure_status[i])), "valid": b(m.is_valid), "cvalid": b(c.is_valid), "power": v(m.power), "energy": v(m.energy_usage),
         "cenergy": v(c.energy_usage), "cpower": v(c.power), "rate": v(m.rate), "most": v(m.maximum_rate), "rps": v(m.requested_inlet_pressure), "rpd": v(m.requested_outlet_pressure),
         "inlet": stream(m.inlet_stream_condition, i), "outlet": stream(m.outlet_stream_condition, i), "stages": []}
    for s in m.stage_results:
        o["stages"].append({"flag": str(s.chart_area_flags[i]), "valid": b(s.is_valid), "head": v(s.polytropic_head_kJ_per_kg), "eff": v(s.polytropic_efficiency),
                            "dh": v(s.polytropic_enthalpy_change_kJ_per_kg), "dh0": v(s.polytropic_enthalpy_change_before_choke_kJ_per_kg), "loss": v(s.asv_recirculation_loss_mw),
                            "power": v(s.power), "energy": v(s.energy_usage), "m2": v(s.mass_rate_kg_per_hr), "m": v(s.mass_rate_before_asv_kg_per_hr), "speed": v(s.speed),
                            "recirc": b(s.rate_has_recirculation), "rex": b(s.rate_exceeds_maximum), "choked": b(s.pressure_is_choked), "hex": b(s.head_exceeds_maximum),
                            "i": stream(s.inlet_stream_condition, i), "o": stream(s.outlet_stream_condition, i)})
    return o


def running(fs):
    """the results of a model, over the stand-in engine"""
    from .engine import engine
    from ecalc_neqsim_wrapper.cache_service import CacheService
    from ecalc_neqsim_wrapper.java_service import NeqsimService
    with engine():
        try:
            with NeqsimService.factory(use_jpype=False).initialize():
                return evaluate(fs)
        finally:
            CacheService.clear_all()


def _one(job):
    import random
    seed, ncons, n = job
    rng = random.Random(seed)
    g = G(rng)
    reg = rng.choice([F(1), F(1), F(1), F(1, 2), F(95, 100), F(0)])
    es = [g.train(n, reg) for _ in range(ncons)]
    fs = files(es, n, reg)
    res, err = running(fs)
    if err:
        return [{"crash": err, "files": fs}]
    by = {c.name: c for c in res.sub_components}
    models = {m.name: m for m in res.models}
    more = {}
    if reg and any(e["max"] for e in es):
        for what, f in (("below", 0.995), ("above", 1.01)):
            rates = [[rnd(F(max(1.0, models[f"c{k}"].maximum_rate.values[i] * f)), 64) * reg if e["max"] and models[f"c{k}"].maximum_rate.values[i] > 0 else F(0)
                      for i in range(n)] for k, e in enumerate(es)]
            r2, err = running(files(es, n, reg, rates, False))
            if err:
                return [{"crash": err, "files": files(es, n, reg, rates, False)}]
            more[what] = {m.name: [bool(v) for v in m.is_valid.values] for m in r2.models}
    out = []
    for k, e in enumerate(es):
        c, m = by[f"c{k}"], models[f"c{k}"]
        d = enc({"m": {"x": [F(str(x)) for x in e["m"]["x"]], "eos": e["m"]["eos"]}, "control": e["control"], "single": e["single"], "reg": reg, "factor": e["factor"],
                 "const": e["const"], "maxpower": e["maxpower"] if e["maxpower"] is not None else F(0), "maxp": e["maxp"] if e["maxp"] is not None else F(0), "max": e["max"],
                 "stages": [{"curves": [{"n": s, "r": [p[0] for p in cc], "h": [p[1] for p in cc], "e": [p[2] for p in cc]} for s, cc in st["ch"]],
                             "margin": st["margin"], "t": st["t"], "drop": st["drop"]} for st in e["stages"]]})
        d["periods"] = []
        for i in range(n):
            p = enc({"rate": e["rate"][i], "ps": e["ps"][i], "pd": e["pd"][i], "cond": e["cond"][i] == 1, "plf": e["plf"][i]})
            p["o"] = observe(c, m, i)
            p["below"] = more.get("below", {}).get(f"c{k}", [True] * n)[i]
            p["above"] = more.get("above", {}).get(f"c{k}", [False] * n)[i]
            d["periods"].append(p)
        d["files"] = json.dumps(fs)
        out.append(d)
    return out


def corrupt(e, rng):
    """an event with one reported value changed"""
    c = copy.deepcopy(e)
    P = [p for p in c["periods"] if p["o"]["stages"][0]["speed"] != "nan"]
    if not P:
        return None
    p = rng.choice(P)
    o = p["o"]
    k = rng.choice(["power", "fail", "valid", "stage", "stage", "stage", "in", "out", "speed"])
    up = lambda d, f: d.__setitem__(f, q(F(d[f]) * F(10001, 10000) + F(1, 100000)))
    if k == "power":
        up(o, "power")
    elif k == "fail":
        o["fail"] = "NO_FAILURE" if o["fail"] != "NO_FAILURE" else "TARGET_DISCHARGE_PRESSURE_TOO_LOW"
        o["valid"] = not o["valid"]
        o["cvalid"] = o["valid"]
        if o["stages"][0]["speed"] == "nan" or o["fail"] == "NO_FAILURE":
            o["cvalid"] = not o["valid"]
    elif k == "valid":
        o["valid"] = not o["valid"]
    else:
        s = rng.choice(o["stages"])
        if k == "stage":
            up(s, rng.choice(["head", "eff", "dh", "power", "m", "m2"]))
        elif k == "speed":
            up(s, "speed")
        elif k == "in":
            up(s["i"], rng.choice(["t", "rho", "z", "kappa", "q", "sm", "sm2"]))
        else:
            up(s["o"], rng.choice(["t", "rho", "q", "q2"]))
    return c


def check(chk, n, canaries=30):
    jobs = [(chk.rng.getrandbits(48), 4, 6) for _ in range(n)]
    ev = [e for es in pool_map(_one, jobs) for e in es]
    good = []
    for e in ev:
        if "crash" in e:
            chk.violations.append({"spec": "TrainTrace", "clauses": ["a valid model was not evaluated"], "event": e})
        else:
            good.append(e)
    if good:
        chk.validate("TrainTrace", good, chk.spoiled(good, corrupt, canaries))
