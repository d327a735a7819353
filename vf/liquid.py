"""Pump simulations: pumps with their chart and minimum flow in a process of their own, through whole models."""
import copy
import json
import shutil
import tempfile
import traceback
from fractions import Fraction as F
from pathlib import Path

from . import pump
from .model import dec, load
from .modelcheck import pool_map, preload
from .num import q
from .sampled import enc, put


def day(i):
    return f"{2020 + i // 12}-{i % 12 + 1:02d}-01"


class G(pump.G):
    def simulation(self, n):
        r = self.r
        e = self.pump(n, F(1))
        e["margin"] = F(0)
        speeds = sorted(set(e["t"]["speed"]))
        low = min(e["t"]["rate"])
        e["minflow"] = "none" if r.random() < 0.5 else low + r.choice([F(0), F(1, 4), F(r.randint(1, 30))])
        del e["reg"], e["plf"]
        if r.random() < 0.4:     # more of the boundaries: exactly the capacity, minimum flow above what is asked for
            for i in range(n):
                if r.random() < 0.3 and e["minflow"] != "none":
                    e["rate"][i] = max(F(1, 4), e["minflow"] * 24 + r.choice([F(0), F(-1, 4), F(1, 4), F(-10)]))
                    e["exact"][i] = False
        for i in range(n):       # what is asked of a pump that is not running does not matter
            if (e["rate"][i] == 0 or e["cond"][i] == 0) and r.random() < 0.4:
                e["pd"][i] = r.choice([F(0), F(0), F(5)])
        return e, speeds

    def shape(self, n):
        """the periods of the model: (START or None, END, first, number)"""
        r = self.r
        k = r.choice(["all", "none", "late", "early"])
        first, end = 0, n
        if k == "late":
            first = r.randint(1, n - 2)
        if r.random() < 0.4:
            end = r.randint(first + 1, n)
        return (None if k == "none" else first), end, first, end - first


def yaml(cs, names, n, shape, rng, extra=None):
    out, fac, sims, cols = {}, [], [], {}
    for k, e in enumerate(cs):
        out[f"p{k}.csv"], f = pump.facility(k, e, rng)
        fac.append(f)
        rate = f"SIM;R{k}"
        cols.update({f"R{k}": e["rate"], f"S{k}": e["ps"], f"D{k}": e["pd"], f"F{k}": e["rho"]})
        if any(x != 1 for x in e["cond"]):
            cols[f"C{k}"] = e["cond"]
            rate += f" {{*}} SIM;C{k}"
        sims += ["  - TYPE: PUMP", f"    NAME: {names[k]}", "    PUMP_MODEL:", f"      CHART: p{k}"]
        sims += [f"      MINIMUM_FLOW_RATE: {dec(q(e['minflow']))}"] if e["minflow"] != "none" else []
        sims += ["    INLET:", f"      RATE: {rate}", f"      PRESSURE: SIM;S{k}", f"      DENSITY: SIM;F{k}", f"    REQUIRED_DISCHARGE_PRESSURE: SIM;D{k}"]
    out["sim.csv"] = "DATE," + ",".join(cols) + "\n" + "".join(
        f"01.{i % 12 + 1:02d}.{2020 + i // 12}," + ",".join(dec(q(c[i])) for c in cols.values()) + "\n" for i in range(n))
    start, end = shape[:2]
    y = ["TIME_SERIES:", "  - {NAME: SIM, TYPE: DEFAULT, FILE: sim.csv}", "FACILITY_INPUTS:", *fac,
         "FUEL_TYPES:", "  - {NAME: gas, EMISSIONS: [{NAME: co2, FACTOR: 2}]}", *([f"START: {day(start)}"] if start is not None else []), f"END: {day(end)}",
         "INSTALLATIONS:", "  - NAME: A", "    FUEL: gas", "    REGULARITY: 0.5", "    FUELCONSUMERS:", "      - NAME: flare", "        CATEGORY: FLARE",
         "        ENERGY_USAGE_MODEL: {TYPE: DIRECT, FUELRATE: 1}", "PUMP_PROCESS_SIMULATIONS:", *sims]
    out["model.yml"] = "\n".join(y) + "\n"
    return out


def opt(x):
    return "none" if x is None else q(x)


def stream(s):
    return {"p": q(s.pressure_bara), "m": q(s.mass_rate_kg_per_h), "d": q(s.density_kg_per_m3)}


def observe(fs, queries=None):
    """[(name, observation)] of every simulation, or None and what was raised"""
    from libecalc.process.pump.pump import Pump
    folder = Path(tempfile.mkdtemp(dir=str(__import__("vf.tlc", fromlist=["SCRATCH"]).SCRATCH)))
    put(folder, fs)
    try:
        got = []
        for sim, inputs, periods in load(folder).get_pump_process_simulations():
            units = list(sim.get_process_units())
            at = {u.get_id(): i + 1 for i, u in enumerate(units)}
            links = list(sim.get_process_unit_connections())
            loop = sim.get_recirculation_loop()
            d = {"units": [str(u.unit_type.value) for u in units], "links": [[at[c.get_from_process_unit_id()], at[c.get_to_process_unit_id()]] for c in links],
                 "loop": [at[loop.splitter_id], at[loop.mixer_id]], "floor": q(sim.get_minimum_flow_rate_m3_per_hour()), "out": [],
                 "days": [str(p.start.date()) for p in periods] + [str(periods[-1].end.date())]}
            results = sim.evaluate(inputs)
            for x, res in zip(inputs, results, strict=True):
                o = res.pump_result
                p = sim._pump if hasattr(sim, "_pump") else None
                s = x.inlet_stream
                d["out"].append({
                    "power": q(o.shaft_power_mw), "eff": opt(o.efficiency), "work": opt(o.specific_shaft_work_joule_per_kg), "need": q(o.required_head_joule_per_kg),
                    "head": q(o.operational_head_joule_per_kg), "flow": q(o.operational_volumetric_rate_m3_per_hour), "back": q(o.recirculation_rate_m3_per_hour),
                    "want": q(o.required_discharge_pressure_bara), "gives": q(o.operational_discharge_pressure_bara), "speed": opt(o.speed_rpm),
                    "status": str(o.failure_status.value), "choke": q(o.choke_pressure_drop_bara), "valid": bool(o.is_valid),
                    "streams": [stream(res.connection_streams[c.get_id()]) for c in links], **passes(p, s, x.required_discharge_pressure_bara, o)})
            got.append((sim.get_name(), d))
        return got, None
    except BaseException as e:  # noqa: BLE001
        return None, e
    finally:
        shutil.rmtree(folder)


def passes(p, s, pd, o):
    """the pump asked directly (where it can be reached)"""
    if p is None:
        return {"passes": q(o.operational_discharge_pressure_bara), "max": q(0)}
    p.set_discharge_pressure(pd)
    return {"passes": q(p.propagate_stream(s).pressure_bara), "max": q(p.get_max_volumetric_rate_m3_per_day(s.pressure_bara, pd, s.density_kg_per_m3))}


def _one(job):
    import random
    seed, k, n = job
    rng = random.Random(seed)
    g = G(rng)
    cs, names, shape = [], [f"pump {i}" for i in rng.sample(range(100), k)], g.shape(n)
    for _ in range(k):
        e, _s = g.simulation(n)
        cs.append(e)
    fs = yaml(cs, names, n, shape, rng)
    got, err = observe(fs)
    if err is not None:
        return [{"kind": "crash", "crash": "".join(traceback.format_exception(err))[-3000:], "files": fs}]
    out = []
    for k, (e, (name, d)) in enumerate(zip(cs, got)):
        v = enc(e)
        v.update(d, kind="run", first=shape[2] + 1, n=shape[3])
        v["files"] = json.dumps(fs)
        if name != names[k] or len(got) != len(cs) or d["days"] != [day(shape[2] + i) for i in range(shape[3] + 1)]:
            v["n"] = -1
        out.append(v)
    out.append(refuse(g, cs[0], names, n, shape, rng))
    return out


def refuse(g, e, names, n, shape, rng):
    """something is wrong with the pump: it must not be accepted, and what is wrong must be said"""
    e = copy.deepcopy(e)
    i = rng.randrange(shape[2], shape[2] + shape[3])
    on = [j for j in range(shape[2], shape[2] + shape[3]) if e["rate"][j] > 0 and e["cond"][j] != 0]
    why = rng.choice(["minflow", "margin", "suction", "density", "discharge", "rate"])
    if why == "discharge" and not on:
        why = "margin"
    if why == "minflow":
        e["minflow"] = min(e["t"]["rate"]) - rng.choice([F(1, 4), F(1)])
    elif why == "margin":
        e["margin"] = F(rng.randint(1, 8))
    elif why == "suction":
        e["ps"][i] = rng.choice([F(0), F(-1)])
    elif why == "density":
        e["rho"][i] = rng.choice([F(0), F(-100)])
    elif why == "discharge":
        e["pd"][rng.choice(on)] = rng.choice([F(0), F(-1)])
    elif why == "rate":
        e["rate"][i], e["cond"][i] = F(-4), F(1)
    fs = yaml([e], names, n, shape, rng)
    got, err = observe(fs)
    from libecalc.common.errors.exceptions import EcalcError
    return {"kind": "refuse", "why": why, "refused": isinstance(err, EcalcError), "raised": repr(err)[:300], "files": json.dumps(fs)}


def corrupt(e, rng):
    c = copy.deepcopy(e)
    if c["kind"] == "refuse":
        c["refused"] = False
        return c
    o = rng.choice(c["out"])
    k = rng.choice(["power", "eff", "work", "need", "head", "flow", "back", "want", "gives", "speed", "status", "choke", "valid", "stream", "floor", "loop"])
    if k in ("floor", "loop"):
        c["floor" if k == "floor" else "loop"] = q(F(c["floor"]) + 1) if k == "floor" else [2, 4]
    elif k == "status":
        o["status"], o["valid"] = ("ABOVE_MAXIMUM_PUMP_RATE", False) if o["valid"] else ("NO_FAILURE", True)
    elif k == "valid":
        o["valid"] = not o["valid"]
    elif k == "stream":
        s = rng.choice(o["streams"])
        f = rng.choice("pmd")
        s[f] = q(F(s[f]) * F(100001, 100000) + F(1, 100000))
    elif o[k] == "none":
        o[k] = "1"
    else:
        o[k] = q(F(o[k]) * F(100001, 100000) + F(1, 100000))
    return c


def check(chk, n, canaries=60):
    preload()
    jobs = [(chk.rng.getrandbits(48), 5, 16) for _ in range(n)]
    good = []
    for e in (e for es in pool_map(_one, jobs) for e in es):
        if e["kind"] == "crash":
            chk.violations.append({"spec": "LiquidTrace", "clauses": ["a valid model was not evaluated"], "event": e})
        else:
            good.append(e)
    if good:
        chk.validate("LiquidTrace", good, chk.spoiled(good, corrupt, canaries))
