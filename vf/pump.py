"""Pumps given by charts: generated charts and operating points, through whole models."""
import copy
import json
from fractions import Fraction as F

from .model import dec, run
from .modelcheck import pool_map
from .num import q, qs
from .sampled import enc, put

HF = {"M": F(981, 100), "KJ_PER_KG": F(1000), "JOULE_PER_KG": F(1)}
STEP = F(3125, 32)   # J/kg per bar at 1024 kg/m3


def rnd(x, k):
    """x in steps of 1/k"""
    return F(round(x * k), k)


class G:
    def __init__(self, r):
        self.r = r

    def quarter(self, lo, hi):
        return F(self.r.randint(int(lo * 4), int(hi * 4)), 4)

    def chart(self):
        """curves [(rate, head J/kg, efficiency)], slowest first; exact: heads in steps of what a quarter of a bar lifts"""
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4])
        unit = r.choice(["M", "M", "KJ_PER_KG", "JOULE_PER_KG", "JOULE_PER_KG"])
        exact = unit == "JOULE_PER_KG" and r.random() < 0.7
        k = r.randint(2, 5)
        base = sorted({self.quarter(10, 90) for _ in range(k + 2)})[:k]
        while len(base) < 2:
            base = sorted(set(base) | {self.quarter(10, 90)})
        drop = [F(r.randint(0, 8), 8) for _ in base]
        top = F(r.randint(10, 40) * 100)
        scale = r.choice([1, 1, 10])
        eff1 = r.random() < 0.12
        steep = r.choice([F(1, 4), F(1, 2), F(3, 4)])
        total = sum(drop[1:]) or F(1)
        prof, acc = [], F(0)
        for i, d in enumerate(drop):
            acc += d if i else 0
            prof.append(top * (1 - steep * acc / total))
        curves = []
        fr, fh = F(1), F(1)
        for j in range(n):
            m = len(base) if j == 0 or r.random() < 0.7 else max(2, len(base) - 1)
            rates = [rnd(x * fr + (F(r.randint(0, 8), 4) if j else 0), 4) * scale for x in base[:m]]
            heads = [p * fh for p in prof[:m]]
            if unit == "M":
                heads = [rnd(h / HF["M"], 8) * HF["M"] for h in heads]
            elif unit == "KJ_PER_KG":
                heads = [rnd(h, 4) for h in heads]
            else:
                heads = [rnd(h / STEP, 4) * STEP if exact else rnd(h, 4) for h in heads]
            effs = [F(1) if eff1 else F(r.randint(30, 95), 100) for _ in rates]
            curves.append([tuple(p) for p in zip(rates, heads, effs)])
            fr *= 1 + F(r.randint(5, 30), 100)
            fh *= 1 + F(r.randint(15, 60), 100)
        for c in curves:
            if any(a[0] >= b[0] or a[1] < b[1] for a, b in zip(c, c[1:])) or c[-1][1] <= 0:
                return self.chart()
        for a, b in zip(curves, curves[1:]):   # faster is higher
            if b[0][1] <= a[0][1] or b[0][0] < a[0][0] or any(line(b, x) <= line(a, x) for x, _, _ in a + b):
                return self.chart()
        return curves, unit, exact

    def pump(self, n, reg):
        r = self.r
        curves, unit, exact = self.chart()
        single = len(curves) == 1 and r.random() < 0.7
        speeds = sorted(r.sample(range(1000, 9000), len(curves)))
        rows = [(s, *p) for s, c in zip(speeds, curves) for p in c]
        r.shuffle(rows)
        eunit = r.choice(["FRACTION", "PERCENTAGE"])
        ef = F(1) if eunit == "FRACTION" else F(1, 100)
        t = {"speed": [F(x[0]) for x in rows] if not single or r.random() < 0.4 else [], "rate": [x[1] for x in rows],
             "head": [x[2] / HF[unit] for x in rows], "eff": [x[3] / ef for x in rows]}
        if all(x[3] == 1 for x in rows) and r.random() < 0.6:
            t["eff"] = []
        margin = F(0) if r.random() < 0.5 else F(r.randint(1, 60))
        e = {"t": t, "u": {"head": HF[unit], "eff": ef}, "units": [unit, eunit], "single": single, "margin": margin, "reg": reg,
             "rate": [], "ps": [], "pd": [], "rho": [], "exact": []}
        fast = curves[-1]
        for _ in range(n):
            self.query(e, curves, fast, exact and reg in (1, F(1, 2), F(1, 4)))
        e["cond"] = [F(r.random() < 0.85) for _ in range(n)] if r.random() < 0.3 else [F(1)] * n
        e["plf"] = [r.choice([F(0), F(1, 2), F(1, 4), F(1, 8)]) for _ in range(n)] if r.random() < 0.25 else [F(0)] * n
        return e

    def query(self, e, curves, fast, exact):
        r = self.r
        ps = self.quarter(1, 60)
        if r.random() < 0.08:   # not running: pressures do not matter
            add(e, F(0), ps, r.choice([ps, ps + 10, max(F(1, 4), ps - 20)]), F(r.randint(700, 1100)), False)
            return
        how = r.choice(["edge", "curve", "free", "free", "free"])
        if how == "edge" and exact:   # on the border itself, or just beside it
            p = r.choice(fast)
            k = p[1] / STEP * 1
            dp = k + r.choice([F(0), F(0), F(1, 4), F(-1, 4)])
            rate = p[0] * 24 + r.choice([F(0), F(0), F(1, 4), F(-1, 4)])
            add(e, max(rate, F(1, 4)), ps, ps + dp, F(1024), True)
            return
        c = r.choice(curves)
        if how == "curve":
            a, b = r.choice(list(zip(c, c[1:])))
            s = F(r.randint(0, 4), 4)
            x, h = a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])
            h *= r.choice([1, 1, F(101, 100), F(99, 100), F(9, 10)])
        else:
            lo, hi = curves[0][0][0], max(cc[-1][0] for cc in curves)
            x = lo / 2 + (hi * F(11, 10) - lo / 2) * F(r.randint(0, 64), 64)
            h = fast[0][1] * F(r.randint(0, 68), 64)
        if e["margin"] and r.random() < 0.4:
            h = line(fast, x) + e["margin"] * HF["M"] * F(r.choice([1, 4, 7, 9, 12, -2]), 8)
        rho = F(r.randint(700, 1100))
        add(e, rnd(x * 24, 4) or F(1, 4), ps, ps + max(F(0), rnd(h * rho / 100000, 1000)), rho, False)


def line(c, x):
    for a, b in zip(c, c[1:]):
        if a[0] <= x <= b[0]:
            return a[1] + (b[1] - a[1]) * (x - a[0]) / (b[0] - a[0])
    return c[0][1] if x < c[0][0] else c[-1][1]


def add(e, rate, ps, pd, rho, exact):
    e["rate"].append(rate * (e["reg"] or 1))
    e["ps"].append(ps)
    e["pd"].append(pd)
    e["rho"].append(rho)
    e["exact"].append(exact)


def facility(k, e, rng):
    """the chart's file and its declaration"""
    t = e["t"]
    names = [(h, t[v]) for h, v in (("SPEED", "speed"), ("RATE", "rate"), ("HEAD", "head"), ("EFFICIENCY", "eff")) if t[v]]
    rng.shuffle(names)
    text = ",".join(h for h, _ in names) + "\n" + "".join(",".join(dec(q(c[i])) for _, c in names) + "\n" for i in range(len(t["rate"])))
    u = ["RATE: AM3_PER_HOUR", f"HEAD: {e['units'][0]}", f"EFFICIENCY: {e['units'][1]}"]
    return text, (f"  - {{NAME: p{k}, TYPE: PUMP_CHART_{'SINGLE' if e['single'] else 'VARIABLE'}_SPEED, FILE: p{k}.csv, UNITS: {{{', '.join(u)}}}"
                  + (f", HEAD_MARGIN: {dec(q(e['margin']))}" if e["margin"] else "") + "}")


def files(cs, n, reg, rng):
    out, fac, el, cols = {}, [], [], {}
    for k, e in enumerate(cs):
        out[f"p{k}.csv"], f = facility(k, e, rng)
        fac.append(f)
        u = ["TYPE: PUMP", f"ENERGYFUNCTION: p{k}", f"RATE: SIM;R{k}", f"SUCTION_PRESSURE: SIM;S{k}", f"DISCHARGE_PRESSURE: SIM;D{k}", f"FLUID_DENSITY: SIM;F{k}"]
        cols.update({f"R{k}": e["rate"], f"S{k}": e["ps"], f"D{k}": e["pd"], f"F{k}": e["rho"]})
        if any(x != 1 for x in e["cond"]):
            u.append(f"CONDITION: SIM;C{k} > 0")
            cols[f"C{k}"] = e["cond"]
        if any(e["plf"]):
            u.append(f"POWERLOSSFACTOR: SIM;L{k}")
            cols[f"L{k}"] = e["plf"]
        el.append([f"- NAME: c{k}", "  CATEGORY: PUMP", "  ENERGY_USAGE_MODEL:"] + ["    " + x for x in u])
    out["sim.csv"] = "DATE," + ",".join(cols) + "\n" + "".join(f"01.{i % 12 + 1:02d}.{2020 + i // 12}," + ",".join(dec(q(c[i])) for c in cols.values()) + "\n" for i in range(n))
    out["gen.csv"] = "POWER,FUEL\n0,0\n1000000,1000000\n"
    y = ["TIME_SERIES:", "  - {NAME: SIM, TYPE: DEFAULT, FILE: sim.csv}", "FACILITY_INPUTS:", "  - {NAME: gen, TYPE: ELECTRICITY2FUEL, FILE: gen.csv}", *fac,
         "FUEL_TYPES:", "  - {NAME: gas, EMISSIONS: [{NAME: co2, FACTOR: 2}]}", "START: 2020-01-01", f"END: {2020 + n // 12}-{n % 12 + 1:02d}-01",
         "INSTALLATIONS:", "  - NAME: A", "    FUEL: gas", "    HCEXPORT: 0", f"    REGULARITY: {dec(q(reg))}",
         "    GENERATORSETS:", "      - NAME: gs", "        CATEGORY: TURBINE-GENERATOR", "        ELECTRICITY2FUEL: gen", "        CONSUMERS:"]
    y += ["          " + x for c in el for x in c]
    out["model.yml"] = "\n".join(y) + "\n"
    return out


def evaluate(fs):
    """(results, None) or (None, traceback)"""
    import shutil
    import tempfile
    import traceback
    from pathlib import Path
    folder = Path(tempfile.mkdtemp(dir=str(__import__("vf.tlc", fromlist=["SCRATCH"]).SCRATCH)))
    put(folder, fs)
    try:
        return run(folder)[1], None
    except BaseException as e:  # noqa: BLE001
        return None, "".join(traceback.format_exception(e))[-3000:]
    finally:
        shutil.rmtree(folder)


def _one(job):
    import random
    seed, ncons, n = job
    rng = random.Random(seed)
    g = G(rng)
    reg = rng.choice([F(1), F(1), F(1, 2), F(1, 4), F(0), F(95, 100)])
    cs = [g.pump(n, reg) for _ in range(ncons)]
    fs = files(cs, n, reg, rng)
    res, err = evaluate(fs)
    if err:
        return [{"crash": err, "files": fs}]
    by = {c.name: c for c in res.sub_components}
    models = {m.name: m for m in res.models}
    out = []
    for k, e in enumerate(cs):
        c, m = by[f"c{k}"], models[f"c{k}"]
        d = enc(e)
        d["energy"], d["power"] = qs(c.energy_usage.values), qs(c.power.values)
        d["valid"] = [bool(v) for v in c.is_valid.values]
        d["head"], d["mrate"] = qs(m.operational_head.values), qs(m.inlet_liquid_rate_m3_per_day.values)
        d["mvalid"] = [bool(v) for v in m.is_valid.values]
        d["files"] = json.dumps({f: fs[f] for f in (f"p{k}.csv", "sim.csv", "model.yml")})
        out.append(d)
    return out


def corrupt(e, rng):
    c = copy.deepcopy(e)
    I = [i for i, x in enumerate(c["energy"]) if x not in ("nan", "0") and c["valid"][i]]
    if not I:
        return None
    i = rng.choice(I)
    k = rng.choice(["energy", "nan", "valid", "head", "mrate"])
    if k == "nan":
        c["energy"][i] = "nan"
    elif k == "valid":
        c["valid"][i] = not c["valid"][i]
    else:
        c[k][i] = q(F(c[k][i]) * F(100001, 100000) + F(1, 100000))
        if k == "energy":
            c["power"][i] = c["energy"][i]
    return c


def check(chk, n, canaries=40):
    jobs = [(chk.rng.getrandbits(48), 6, 24) for _ in range(n)]
    ev = [e for es in pool_map(_one, jobs) for e in es]
    good = []
    for e in ev:
        if "crash" in e:
            chk.violations.append({"spec": "PumpTrace", "clauses": ["a valid model was not evaluated"], "event": e})
        else:
            good.append(e)
    if good:
        chk.validate("PumpTrace", good, chk.spoiled(good, corrupt, canaries))
