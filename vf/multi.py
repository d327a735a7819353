"""Compressor trains with several streams and pressures: generated trains and operating points over the stand-in engine."""
import copy
import json
from fractions import Fraction as F

from . import fluids, trains
from .engine import NAMES, MASS
from .modelcheck import pool_map
from .num import q
from .pump import rnd
from .sampled import enc
from .trains import Gas, chart_yaml, ends, finish, fluid_yaml, forward, num, observe, running

CHOICE = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "INDIVIDUAL_ASV_RATE"]


# ------------------------------------------------------- physics in doubles, only to choose interesting operating points
def mixed(gas, mass, ins):
    """ins: (gas, mass)"""
    parts = [(gas, mass)] + ins
    n = [w / g.mm() for g, w in parts]
    t = sum(n)
    if t == 0:
        return gas, mass
    g = copy.copy(gas)
    g.x = [sum(k * p.x[i] for k, (p, _) in zip(n, parts)) / t for i in range(len(NAMES))]
    return g, sum(w for _, w in parts)


def along(e, gases, mass, p, i, s, lo=0, hi=None):
    """outlet pressure from stage lo to hi in period i at speed s"""
    gas = gases[0]
    for k, st in list(enumerate(e["stages"]))[lo:hi]:
        out = sum(float(e["flows"][j][i]) for j in st["outs"])
        mass = max(0.0, mass - out * gas.standard() / 24)
        gas, mass = mixed(gas, mass, [(gases[j], float(e["flows"][j][i]) * gases[j].standard() / 24) for j in st["ins"]])
        p, _ = forward(gas, mass, p, [st], s)
        if not 0 < p < 900:
            return 1e4
        gas, w = gas.dry(float(st["t"]), 1.0) if False else (gas, 1)
    return p


class G(trains.G):
    def multi(self, nper, reg):
        r = self.r
        eos = r.choice(["SRK", "SRK", "PR", "GERG_SRK"])
        inter = r.random() < 0.5
        wet = not inter and not eos.startswith("GERG") and r.random() < 0.15
        ns = r.choice([2, 2, 3]) if inter else r.choice([1, 2, 2, 3])

        def fluid(w=False):
            m = fluids.Rng(r).model(wet=w, eos=eos)
            m["x"][0] = 0.01 * r.randint(1, 5) * sum(m["x"][1:]) if w else 0.0
            if not sum(m["x"][1:]):
                m["x"][3] = 1.0
            m["x"] = [round(v, 6) for v in m["x"]]
            return m
        # streams: 0 the main one; each [kind, stage, fluid]
        streams = [["in", 0, fluid(wet)]]
        for k in range(ns):
            if k and r.random() < (0.5 if ns > 1 else 0):
                for _ in range(r.choice([1, 1, 2])):
                    streams.append(["out", k, None])
            if r.random() < (0.5 if k else 0.12):
                for _ in range(r.choice([1, 1, 2])):
                    streams.append(["in", k, fluid()])
        if len(streams) > 1 and r.random() < 0.2:
            streams = streams[:1]
        gases = {j: Gas(s[2]) for j, s in enumerate(streams) if s[0] == "in"}
        ps = F(r.randint(20, 160), 4)
        q0 = r.randint(800, 6000)
        t0 = 310.0
        sm0 = q0 * gases[0].rho(t0, float(ps)) * 24 / gases[0].standard()
        share = {}
        flow = 1.0
        for k in range(ns):
            for j, s in enumerate(streams):
                if s[1] == k and s[0] == "out":
                    share[j] = r.uniform(0.05, 0.4) * flow
                    flow -= share[j]
            for j, s in enumerate(streams):
                if s[1] == k and s[0] == "in" and j:
                    share[j] = r.uniform(0.05, 0.6)
                    flow += share[j]
        share[0] = 1.0
        e = {"streams": streams, "stages": [], "flows": {j: [F(max(0, int(sm0 * share[j])))] for j in range(len(streams))}}
        gas, mass, p = gases[0], float(sm0) * gases[0].standard() / 24, float(ps)
        for k in range(ns):
            outs, ins = [j for j, s in enumerate(streams) if s[1] == k and s[0] == "out"], [j for j, s in enumerate(streams) if j and s[1] == k and s[0] == "in"]
            mass -= sum(float(e["flows"][j][0]) * gas.standard() / 24 for j in outs)
            gas, mass = mixed(gas, mass, [(gases[j], float(e["flows"][j][0]) * gases[j].standard() / 24) for j in ins])
            t = F(r.randint(20 * 10, 60 * 10), 10) + F(27315, 100)
            drop = F(0) if r.random() < 0.6 else F(r.randint(1, 12), 8)
            p1 = p - float(drop)
            gas, sh = gas.dry(float(t), p1)
            mass *= sh
            x = mass / gas.rho(float(t), p1)
            n = r.choice([2, 2, 3, 4])
            for _ in range(200):
                ch = self.chart(n, max(20, int(x / 1.4 * r.choice([1, 1, 1, 1, 1.3, 0.7]))), r.randint(15, 70) * 1000, False)
                if len(ch) == n:
                    break
            unit = r.choice(["M", "KJ_PER_KG", "JOULE_PER_KG"])
            HF = trains.HF
            ch = [(s, [(a, rnd(b / HF[unit], 64) * HF[unit], min(ef, F(95, 100))) for a, b, ef in c]) for s, (_, c) in zip(self.speeds(n, False), ch)]
            margin = F(0) if r.random() < 0.5 else F(r.choice([5, 10, 20]), 100)
            st = {"ch": ch, "margin": margin, "t": t, "drop": drop, "unit": unit, "eunit": r.choice(["FRACTION", "PERCENTAGE"]), "outs": outs, "ins": ins,
                  "munit": r.choice(["FRACTION", "PERCENTAGE"]), "file": r.random() < 0.4, "seed": r.getrandbits(32)}
            e["stages"].append(st)
            p, _ = forward(gas, mass, p, [st], float(ch[0][0] + ch[-1][0]) / 2)
            if p > 400:
                return self.multi(nper, reg)
        stages = e["stages"]
        at = r.randint(1, ns - 1) if inter else 0
        lo = max(float(st["ch"][0][0]) for st in stages)
        hi = min(float(st["ch"][-1][0]) for st in stages)
        alone = len(streams) == 1 and not inter
        e.update({"eos": eos, "at": at, "control": r.choice(trains.CONTROLS if alone else CHOICE), "up": r.choice(CHOICE), "down": r.choice(CHOICE), "reg": reg,
                  "factor": F(1) if r.random() < 0.7 else F(r.randint(90, 120), 100), "const": F(0) if r.random() < 0.7 else F(r.randint(-2, 8), 16), "maxpower": None,
                  "cond": [F(r.random() < 0.85) for _ in range(nper)] if r.random() < 0.2 else [F(1)] * nper,
                  "plf": [r.choice([F(0), F(1, 4), F(1, 8)]) for _ in range(nper)] if r.random() < 0.2 else [F(0)] * nper,
                  "ps": [], "pi": [], "pd": [], "flows": {j: [] for j in range(len(streams))}, "order": r.sample(range(len(streams)), len(streams)) if r.random() < 0.6 else list(range(len(streams)))})
        # of several streams into the first stage, the one listed first in STREAMS is the main one
        first = [j for j in e["order"] if streams[j][0] == "in" and streams[j][1] == 0]
        a, b = e["order"].index(0), e["order"].index(first[0])
        e["order"][a], e["order"][b] = e["order"][b], 0
        if r.random() < 0.3:
            e["maxpower"] = rnd(F(mass / 3.6e9 * sum(1.2e5 for _ in stages)) * F(r.randint(2, 30), 10), 64) or F(1, 64)
        tries = 0
        while len(e["ps"]) < nper:
            tries += 1
            if tries > 200:
                return self.multi(nper, reg)
            a = rnd(ps * F(r.randint(70, 140), 100), 16)
            if float(a) <= max(float(st["drop"]) for st in stages) + 1:
                continue
            if r.random() < 0.06:
                for j in e["flows"]:
                    e["flows"][j].append(F(0))
                e["ps"].append(a); e["pi"].append(a * F(3, 2)); e["pd"].append(a * 2)
                continue
            s = lo + (hi - lo) * r.choice([0.0, 1.0, r.random(), r.random()])
            st = stages[0]
            g, sh = gases[0].dry(float(st["t"]), float(a - st["drop"]))
            l0, h0 = ends(st["ch"], st["margin"], s)
            x = l0 + (h0 - l0) * r.choice([r.uniform(-0.6, 0), r.uniform(0, 1), r.uniform(0, 1), r.uniform(0.2, 0.9), r.uniform(0.2, 0.9), r.uniform(1, 1.2)])
            sm = max(x, 0.02 * l0) * g.rho(float(st["t"]), float(a - st["drop"])) / sh * 24 / gases[0].standard()
            fl, left = {0: rnd(F(sm), 1)}, None
            for j in range(1, len(streams)):
                fl[j] = F(0) if r.random() < 0.15 else rnd(F(sm * share[j] * r.choice([1, 1, r.uniform(0.5, 1.3)])), 1)
            if len(streams) > 1 and r.random() < 0.04:
                fl[0] = F(0)
            net, ok = F(0), True
            for k in range(ns):
                for j, q_ in enumerate(streams):
                    if q_[1] == k and q_[0] == "in":
                        net += fl[j] if k == 0 else 0
                net -= sum(fl[j] for j in stages[k]["outs"])
                ok = ok and net >= (F(sm) / 20 if stages[k]["outs"] else 0)
                if k:
                    net += sum(fl[j] for j in stages[k]["ins"])
            if not ok or sum(fl[j] for j in fl if streams[j][0] == "in") <= 0:
                continue
            for j in fl:
                e["flows"][j].append(fl[j])
            i = len(e["ps"])
            s2 = lo + (hi - lo) * r.choice([0.0, 1.0, r.random(), r.random()])
            m0 = float(fl[0]) * gases[0].standard() / 24
            d = along(e, gases, m0, float(a), i, s2)
            b = float(a)
            if inter:
                b = along(e, gases, m0, float(a), i, lo + (hi - lo) * r.choice([0.0, r.random(), r.random()]), 0, at) * r.choice([1, 1, 1, 0.95, r.uniform(0.7, 1.1)])
            d *= r.choice([1, 1, 1, 0.9, 0.6, r.uniform(0.5, 1.3)])
            b, d = (rnd(F(v), 64) if v < 900 else F(900) for v in (b, d))
            if d <= a * F(21, 20) or d >= 900 or d > a * 6 ** ns or d * d > a * 1200 or (inter and (b > a * 6 ** at or d > b * 6 ** (ns - at))) or (inter and (b <= a * F(21, 20) or b - max(st["drop"] for st in stages) <= a * F(41, 40) or d <= b * F(21, 20))):
                for j in fl:
                    e["flows"][j].pop()
                continue
            e["ps"].append(a); e["pi"].append(b); e["pd"].append(d)
        for j in e["flows"]:
            e["flows"][j] = [v * (reg or 1) for v in e["flows"][j]]
        return e


def files(es, nper, reg):
    out, y, cols, el = {}, [], {}, []
    for k, e in enumerate(es):
        st_yaml, streams = [], []
        for j, (kind, _, m) in enumerate(e["streams"]):
            if kind == "in":
                y.append(fluid_yaml(f"f{k}_{j}", m))
        for j in e["order"]:
            kind = e["streams"][j][0]
            streams.append(f"{{NAME: s{j}, TYPE: INGOING, FLUID_MODEL: f{k}_{j}}}" if kind == "in" else f"{{NAME: s{j}, TYPE: OUTGOING}}")
        import random
        rng = random.Random(e["stages"][0]["seed"])
        for i, st in enumerate(e["stages"]):
            y.append(chart_yaml(f"ch{k}_{i}", st, False, out))
            names = st["outs"] + st["ins"]
            rng.shuffle(names)
            names = ([0] if i == 0 else []) + names
            st_yaml.append(f"{{INLET_TEMPERATURE: {num(st['t'] - F(27315, 100))}, COMPRESSOR_CHART: ch{k}_{i}"
                           + (f", STREAM: [{', '.join(f's{j}' for j in names)}]" if names else "")
                           + (f", PRESSURE_DROP_AHEAD_OF_STAGE: {num(st['drop'])}" if st["drop"] else "")
                           + (f", INTERSTAGE_CONTROL_PRESSURE: {{UPSTREAM_PRESSURE_CONTROL: {e['up']}, DOWNSTREAM_PRESSURE_CONTROL: {e['down']}}}" if e["at"] == i and i else "")
                           + f", CONTROL_MARGIN: {num(st['margin'] * (100 if st['munit'] == 'PERCENTAGE' else 1))}, CONTROL_MARGIN_UNIT: {st['munit']}}}")
        t = [f"NAME: t{k}", "TYPE: VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", f"PRESSURE_CONTROL: {e['control']}",
             f"POWER_ADJUSTMENT_FACTOR: {num(e['factor'])}", f"POWER_ADJUSTMENT_CONSTANT: {num(e['const'])}", f"STREAMS: [{', '.join(streams)}]", f"STAGES: [{', '.join(st_yaml)}]"]
        if e["maxpower"] is not None:
            t.append(f"MAXIMUM_POWER: {num(e['maxpower'])}")
        y.append("  - {" + ", ".join(t) + "}")
        u = ["TYPE: VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", f"COMPRESSOR_TRAIN_MODEL: t{k}", f"RATE_PER_STREAM: [{', '.join(f'SIM;R{k}_{j}' for j in e['order'])}]",
             f"SUCTION_PRESSURE: SIM;S{k}", f"DISCHARGE_PRESSURE: SIM;D{k}"]
        cols.update({f"R{k}_{j}": e["flows"][j] for j in e["flows"]})
        cols.update({f"S{k}": e["ps"], f"D{k}": e["pd"]})
        if e["at"]:
            u.append(f"INTERSTAGE_CONTROL_PRESSURE: SIM;I{k}")
            cols[f"I{k}"] = e["pi"]
        if any(x != 1 for x in e["cond"]):
            u.append(f"CONDITION: SIM;C{k} > 0")
            cols[f"C{k}"] = e["cond"]
        if any(e["plf"]):
            u.append(f"POWERLOSSFACTOR: SIM;L{k}")
            cols[f"L{k}"] = e["plf"]
        el.append([f"- NAME: c{k}", "  CATEGORY: COMPRESSOR", "  ENERGY_USAGE_MODEL:"] + ["    " + x for x in u])
    return finish(out, y, cols, el, nper, reg)


def _one(job):
    import random
    seed, ncons, n = job
    rng = random.Random(seed)
    g = G(rng)
    reg = rng.choice([F(1), F(1), F(1), F(1, 2), F(95, 100), F(0)])
    es = [g.multi(n, reg) for _ in range(ncons)]
    fs = files(es, n, reg)
    res, err = running(fs)
    if err:
        return [{"crash": err, "files": fs}]
    by = {c.name: c for c in res.sub_components}
    models = {m.name: m for m in res.models}
    out = []
    for k, e in enumerate(es):
        c, m = by[f"c{k}"], models[f"t{k}"] if f"t{k}" in models else models[f"c{k}"]
        model = lambda x: {"x": [F(str(v)) for v in x["x"]], "eos": x["eos"]}
        d = enc({"m": model(e["streams"][0][2]), "control": e["control"], "up": e["up"], "down": e["down"], "at": e["at"], "single": False, "reg": reg, "factor": e["factor"],
                 "const": e["const"], "maxpower": e["maxpower"] if e["maxpower"] is not None else F(0), "maxp": F(0), "max": False,
                 "stages": [{"curves": [{"n": s, "r": [p[0] for p in cc], "h": [p[1] for p in cc], "e": [p[2] for p in cc]} for s, cc in st["ch"]],
                             "margin": st["margin"], "t": st["t"], "drop": st["drop"]} for st in e["stages"]]})
        d["periods"] = []
        for i in range(n):
            p = enc({"rate": e["flows"][0][i], "ps": e["ps"][i], "pi": e["pi"][i], "pd": e["pd"][i], "cond": e["cond"][i] == 1, "plf": e["plf"][i],
                     "outs": [sum((e["flows"][j][i] for j in st["outs"]), F(0)) for st in e["stages"]],
                     "ins": [[{**model(e["streams"][j][2]), "sm": e["flows"][j][i]} for j in st["ins"]] for st in e["stages"]]})
            p["o"] = observe(c, m, i)
            d["periods"].append(p)
        d["files"] = json.dumps(fs)
        out.append(d)
    return out


def check(chk, n, canaries=30):
    jobs = [(chk.rng.getrandbits(48), 4, 6) for _ in range(n)]
    ev = [e for es in pool_map(_one, jobs) for e in es]
    good = []
    for e in ev:
        if "crash" in e:
            chk.violations.append({"spec": "MultiTrace", "clauses": ["a valid model was not evaluated"], "event": e})
        else:
            good.append(e)
    if good:
        chk.validate("MultiTrace", good, chk.spoiled(good, trains.corrupt, canaries))
