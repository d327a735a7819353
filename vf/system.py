"""Consumer systems of pumps and of sampled compressors: generated units, settings and crossovers, through whole models."""
import copy
import json
from fractions import Fraction as F

from . import pump, sampled
from .model import dec
from .modelcheck import pool_map
from .num import q, qs
from .sampled import HEAD, VARS, enc


class G:
    def __init__(self, r):
        self.r = r
        self.p = pump.G(r)
        self.c = sampled.G(r)

    def units(self, kind, drive):
        r = self.r
        out = []
        n = r.choice([1, 2, 2, 2, 3, 3])
        while len(out) < n:
            if out and r.random() < 0.6:
                out.append(copy.deepcopy(r.choice(out)))
                continue
            if kind == "pump":
                e = self.p.pump(6, F(1))
                out.append({"kind": "pump", **{k: e[k] for k in ("t", "u", "units", "single", "margin")},
                            "pts": list(zip(e["rate"], e["ps"], e["pd"], e["rho"]))})
            else:
                t, a, dims, scale = self.c.table("fuel" if drive == "fuel" else "el")
                if len(dims) == 3 and not flat(t) or drive == "turbine" and (not a or not a["r"] or len(dims) == 1 or "r" not in dims):
                    continue
                if out and scale != out[0]["scale"]:
                    continue
                g, w = [], {}
                if drive == "turbine":
                    L = [F(0)] + sorted({self.c.quarter(1, 20)} | {self.c.quarter(30, 90) for _ in range(r.randint(1, 3))})
                    g = [{"loads": L, "effs": [F(0)] + [F(r.randint(4, 16), 32) for _ in L[1:]], "lhv": F(r.randint(30, 45)), "c": F(0), "f": F(1)}]
                w = {"c": self.c.quarter(0, 10), "f": r.choice([F(1), F(1, 2), F(2), F(5, 4)])} if r.random() < 0.4 else {"c": F(0), "f": F(1)}
                qq = [self.c.query(t, scale) for _ in range(6)]
                out.append({"kind": "comp", "t": t, "a": [a] if a else [], "g": g, "w": w, "dims": dims, "scale": scale, "drive": drive,
                            "pts": [(x["r"], x["s"], x["d"], F(1)) for x in qq]})
        return out

    def system(self, n, reg):
        r = self.r
        kind = r.choice(["pump", "comp"])
        drive = r.choice(["el", "el", "fuel", "turbine"]) if kind == "comp" else "el"
        U = self.units(kind, drive)
        nu = len(U)
        e = {"kind": kind, "drive": drive, "fuel": drive != "el", "units": U, "reg": reg, "settings": []}
        total = None
        if r.random() < 0.3:
            total = [F(round(sum(r.choice(u["pts"])[0] for u in U) * F(r.randint(2, 8), 4) * 4), 4) for _ in range(n)]
        dens = r.random() < 0.5
        common_rho = [F(r.randint(700, 1100)) for _ in range(n)]
        e["total"], e["dens"], e["rho"] = total, dens, common_rho
        for _ in range(r.randint(1, 4)):
            s = {"frac": None}
            s["one_s"], s["one_d"] = r.random() < 0.4, r.random() < 0.6
            pts = [[r.choice(U[c]["pts"]) for _ in range(n)] for c in range(nu)]
            lead = r.randrange(nu)
            s["s"] = [[F(pts[lead if s["one_s"] else c][i][1]) for i in range(n)] for c in range(nu)]
            s["d"] = [[F(pts[lead if s["one_d"] else c][i][2]) for i in range(n)] for c in range(nu)]
            if kind == "pump" or r.random() < 0.8:
                for i in range(n):
                    if s["one_d"]:
                        top = max(s["s"][c][i] for c in range(nu))
                        for c in range(nu):
                            s["d"][c][i] = max(s["d"][c][i], top)
                    else:
                        for c in range(nu):
                            s["d"][c][i] = max(s["d"][c][i], s["s"][c][i])
            else:
                for i in range(n):
                    for c in range(nu):
                        s["s"][c][i] = min(s["s"][c][i], min(s["d"][x][i] for x in range(nu)))
                if s["one_s"]:
                    for i in range(n):
                        m = min(s["s"][c][i] for c in range(nu))
                        for c in range(nu):
                            s["s"][c][i] = m
            for i in range(n):   # never asked to lower the pressure
                for c in range(nu):
                    assert s["d"][c][i] >= s["s"][c][i]
            if total is not None and r.random() < 0.6:
                w = [r.randint(0, 4) for _ in range(nu)]
                while sum(w) not in (1, 2, 4, 8):
                    w = [r.randint(0, 4) for _ in range(nu)]
                s["frac"] = [F(x, sum(w)) for x in w]
                s["rate"] = [[f * x * reg for x in total] for f in s["frac"]]
            else:
                s["rate"] = [[rnd(F(pts[c][i][0]) * F(r.choice([0, 2, 3, 4, 4, 5, 6, 8]), 4)) * (reg or 1) for i in range(n)] for c in range(nu)]
            s["rho"] = [[F(1)] * n for _ in range(nu)]
            if kind == "pump":
                s["rho"] = [[F(r.randint(700, 1100)) for _ in range(n)] for _ in range(nu)] if dens else [common_rho] * nu
                s["own_rho"] = dens
            s["cross"] = [0] * nu
            if nu > 1 and r.random() < 0.7:
                rec = set(r.sample(range(nu), r.randint(1, nu - 1)))
                s["cross"] = [0 if c in rec or r.random() < 0.2 else r.choice(sorted(rec)) + 1 for c in range(nu)]
            e["settings"].append(s)
        if total is not None:
            e["total"] = [x * reg for x in total]
        e["cond"] = [F(r.random() < 0.85) for _ in range(n)] if r.random() < 0.3 else [F(1)] * n
        e["plf"] = [r.choice([F(0), F(1, 2), F(1, 4)]) for _ in range(n)] if r.random() < 0.25 else [F(0)] * n
        return e


def rnd(x):
    return F(round(x * 4), 4)


def flat(t):
    return any(a == min(t["r"]) and b == max(t["s"]) and c == min(t["d"]) for a, b, c in zip(t["r"], t["s"], t["d"]))


def files(es, n, reg, rng):
    out, fac, mods, el, fuel, cols = {}, [], [], [], [], {}
    for k, e in enumerate(es):
        refs, done = [], []
        for c, x in enumerate(e["units"]):
            same = [d for y, d in done if y == x]
            if same and rng.random() < 0.7:
                refs.append(same[0])
                continue
            ref = f"{k}x{c}"
            if e["kind"] == "pump":
                out[f"p{ref}.csv"], f = pump.facility(ref, x, rng)
                fac.append(f)
                name = f"p{ref}"
            else:
                t = x["t"]
                names = [(HEAD[v], t[v]) for v in VARS if t[v]] + [("FUEL" if e["drive"] == "fuel" else "POWER", t["e"])]
                out[f"t{ref}.csv"] = ",".join(h for h, _ in names) + "\n" + "".join(",".join(dec(q(z[i])) for _, z in names) + "\n" for i in range(len(t["e"])))
                fac.append(f"  - {{NAME: t{ref}, TYPE: COMPRESSOR_TABULAR, FILE: t{ref}.csv}}")
                name = f"t{ref}"
                def adj(z):
                    return (f", POWER_ADJUSTMENT_CONSTANT: {dec(q(z['c']))}" if z["c"] else "") + (f", POWER_ADJUSTMENT_FACTOR: {dec(q(z['f']))}" if z["f"] != 1 else "")
                if x["g"]:
                    g = x["g"][0]
                    mods.append(f"  - {{NAME: g{ref}, TYPE: TURBINE, LOWER_HEATING_VALUE: {dec(q(g['lhv']))}, TURBINE_LOADS: [{', '.join(dec(q(z)) for z in g['loads'])}], "
                                f"TURBINE_EFFICIENCIES: [{', '.join(dec(q(z)) for z in g['effs'])}]}}")
                    mods.append(f"  - {{NAME: w{ref}, TYPE: COMPRESSOR_WITH_TURBINE, COMPRESSOR_MODEL: t{ref}, TURBINE_MODEL: g{ref}{adj(x['w'])}}}")
                    name = f"w{ref}"
            done.append((x, name))
            refs.append(name)
        pumps = e["kind"] == "pump"
        u = [f"TYPE: {'PUMP' if pumps else 'COMPRESSOR'}_SYSTEM", f"{'PUMPS' if pumps else 'COMPRESSORS'}:"]
        u += [f"  - {{NAME: u{k}x{c}, {'CHART' if pumps else 'COMPRESSOR_MODEL'}: {ref}}}" for c, ref in enumerate(refs)]
        if e["total"] is not None:
            u.append(f"TOTAL_SYSTEM_RATE: SIM;T{k}")
            cols[f"T{k}"] = e["total"]
        if pumps and not all(s["own_rho"] for s in e["settings"]):
            u.append(f"FLUID_DENSITY: SIM;F{k}")
            cols[f"F{k}"] = e["rho"]
        if any(x != 1 for x in e["cond"]):
            u.append(f"CONDITION: SIM;C{k} > 0")
            cols[f"C{k}"] = e["cond"]
        if any(e["plf"]):
            u.append(f"POWERLOSSFACTOR: SIM;L{k}")
            cols[f"L{k}"] = e["plf"]
        u.append("OPERATIONAL_SETTINGS:")
        for j, s in enumerate(e["settings"]):
            ls = []

            def many(v, key):
                for c, z in enumerate(s[v]):
                    cols[f"{v}{k}y{j}y{c}"] = z
                ls.append(f"{key}: [{', '.join(f'SIM;{v}{k}y{j}y{c}' for c in range(len(s[v])))}]")

            def one(v, key):
                cols[f"{v}{k}y{j}"] = s[v][0]
                ls.append(f"{key}: SIM;{v}{k}y{j}")
            if s["frac"]:
                ls.append(f"RATE_FRACTIONS: [{', '.join(dec(q(x)) for x in s['frac'])}]")
            else:
                many("rate", "RATES")
            (one if s["one_s"] else many)("s", "SUCTION_PRESSURE" + ("" if s["one_s"] else "S"))
            (one if s["one_d"] else many)("d", "DISCHARGE_PRESSURE" + ("" if s["one_d"] else "S"))
            if pumps and s["own_rho"]:
                many("rho", "FLUID_DENSITIES")
            if any(s["cross"]) or rng.random() < 0.2:
                ls.append(f"CROSSOVER: {s['cross']}")
            rng.shuffle(ls)
            u += [("  - " if i == 0 else "    ") + x for i, x in enumerate(ls)]
        c = [f"- NAME: c{k}", f"  CATEGORY: {'PUMP' if pumps else 'COMPRESSOR'}", "  ENERGY_USAGE_MODEL:"] + ["    " + x for x in u]
        (fuel if e["fuel"] else el).append(c)
    out["sim.csv"] = "DATE," + ",".join(cols) + "\n" + "".join(f"01.{i % 12 + 1:02d}.{2020 + i // 12}," + ",".join(dec(q(c[i])) for c in cols.values()) + "\n" for i in range(n))
    out["gen.csv"] = "POWER,FUEL\n0,0\n1000000,1000000\n"
    y = ["TIME_SERIES:", "  - {NAME: SIM, TYPE: DEFAULT, FILE: sim.csv}", "FACILITY_INPUTS:", "  - {NAME: gen, TYPE: ELECTRICITY2FUEL, FILE: gen.csv}", *fac,
         "FUEL_TYPES:", "  - {NAME: gas, EMISSIONS: [{NAME: co2, FACTOR: 2}]}", *(["MODELS:"] + mods if mods else []),
         "START: 2020-01-01", f"END: {2020 + n // 12}-{n % 12 + 1:02d}-01", "INSTALLATIONS:", "  - NAME: A", "    FUEL: gas", "    HCEXPORT: 0", f"    REGULARITY: {dec(q(reg))}"]
    if el:
        y += ["    GENERATORSETS:", "      - NAME: gs", "        CATEGORY: TURBINE-GENERATOR", "        ELECTRICITY2FUEL: gen", "        CONSUMERS:"]
        y += ["          " + x for c in el for x in c]
    if fuel:
        y += ["    FUELCONSUMERS:"] + ["      " + x for c in fuel for x in c]
    out["model.yml"] = "\n".join(y) + "\n"
    return out


def unit_result(m, x):
    if x["kind"] == "pump":
        return {"rate": qs(m.inlet_liquid_rate_m3_per_day.values), "s": qs(m.inlet_pressure_bar.values), "d": qs(m.outlet_pressure_bar.values),
                "energy": qs(m.energy_usage.values), "power": qs(m.power.values), "valid": [bool(v) for v in m.is_valid.values]}
    own = m.stage_results[0].power if x["g"] else m.power
    return {"rate": qs(m.rate.values), "s": qs(m.requested_inlet_pressure.values), "d": qs(m.requested_outlet_pressure.values),
            "energy": qs(m.energy_usage.values), "power": qs(own.values) if own is not None else [], "valid": [bool(v) for v in m.is_valid.values]}


def _one(job):
    import random
    seed, ncons, n = job
    rng = random.Random(seed)
    g = G(rng)
    reg = rng.choice([F(1), F(1), F(1, 2), F(1, 4), F(95, 100), F(0)] if rng.random() < 0.3 else [F(1), F(1, 2)])
    es = [g.system(n, reg) for _ in range(ncons)]
    fs = files(es, n, reg, rng)
    res, err = pump.evaluate(fs)
    if err:
        return [{"crash": err, "files": fs}]
    by = {c.name: c for c in res.sub_components}
    models = {m.name: m for m in res.models}
    out = []
    for k, e in enumerate(es):
        c = by[f"c{k}"]
        d = {"units": [{v: enc(x[v]) for v in (("kind", "t", "u", "margin") if e["kind"] == "pump" else ("kind", "t", "a", "g", "w"))} for x in e["units"]],
             "settings": [{v: enc(s[v]) for v in ("rate", "s", "d", "rho", "cross")} for s in e["settings"]],
             **{v: enc(e[v]) for v in ("reg", "cond", "plf", "fuel")}}
        d["energy"] = qs(c.energy_usage.values)
        d["power"] = qs(c.power.values) if c.power is not None else []
        d["valid"] = [bool(v) for v in c.is_valid.values]
        d["used"] = list(c.operational_settings_used.values)
        d["models"] = [unit_result(models[f"u{k}x{j}"], x) for j, x in enumerate(e["units"])]
        d["files"] = json.dumps(fs)
        out.append(d)
    return out


def corrupt(e, rng):
    c = copy.deepcopy(e)
    n = len(c["energy"])
    I = [i for i in range(n) if c["energy"][i] not in ("nan", "0") and c["valid"][i]]
    if not I:
        return None
    i = rng.choice(I)
    k = rng.choice(["energy", "valid", "used", "rate", "unit", "s", "d"])
    m = rng.choice(c["models"])
    bump = lambda v: q(F(v) * F(1001, 1000) + F(1, 1000))  # noqa: E731
    if k == "energy":
        c["energy"][i] = bump(c["energy"][i])
    elif k == "valid":
        c["valid"][i] = not c["valid"][i]
    elif k == "used":
        if c["used"][i] == 1:
            return None
        c["used"][i] -= 1
        return None if c["settings"][c["used"][i]] == c["settings"][c["used"][i] - 1] else c
    elif k == "unit":
        m["valid"][i] = not m["valid"][i]
    else:
        m[k][i] = bump(m[k][i])
    return c


def check(chk, n, canaries=40):
    jobs = [(chk.rng.getrandbits(48), 3, 12) for _ in range(n)]
    ev = [e for es in pool_map(_one, jobs) for e in es]
    good = []
    for e in ev:
        if "crash" in e:
            chk.violations.append({"spec": "SystemTrace", "clauses": ["a valid model was not evaluated"], "event": e})
        else:
            good.append(e)
    if good:
        chk.validate("SystemTrace", good, chk.spoiled(good, corrupt, canaries))
