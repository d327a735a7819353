"""P22: which models are refused.  A model is described by the dictionary spec/Validity.tla reads; random changes are made to it without
regard to what they do, and the specification says what is wrong with it."""
import copy
import random
import shutil
import tempfile
from pathlib import Path

import yaml

from .distribution import guard
from .modelcheck import pool_map, preload

FILES = {
    "el.csv": "POWER,FUEL\n0,0\n10,5\n40,30\n",
    "tabp.csv": "X,POWER\n0,0\n10,4\n100,30\n",
    "tabf.csv": "X,FUEL\n0,0\n10,4\n100,30\n",
    "pump.csv": "RATE,HEAD,EFFICIENCY\n1,3000,60\n50,2500,70\n100,2000,65\n",
    "pumps.csv": "SPEED,RATE,HEAD,EFFICIENCY\n100,1,1500,60\n100,50,1300,70\n200,1,3000,60\n200,50,2500,70\n200,100,2000,65\n",
    "samp.csv": "RATE,POWER\n0,0\n1000000,5\n9000000,30\n",
    "samf.csv": "RATE,FUEL\n0,0\n1000000,5\n9000000,30\n",
    "ts1.csv": "DATE,A,B\n2020-01-01,1,2\n2021-01-01,3,4\n2023-01-01,3,4\n",
    "ts2.csv": "DATE,A,C\n2020-01-01,1,2\n2021-07-01,3,4\n2023-01-01,3,4\n",
    "xel.csv": "POWER,FUEL\n0,0\nten,5\n40,30\n",
    "xtabp.csv": "X,POWER\n0,0\n10,4\n100,much\n",
    "xpump.csv": "RATE,HEAD,EFFICIENCY\n1,3000,60\n50,2500,x\n100,2000,65\n",
    "xpumps.csv": "SPEED,RATE,HEAD,EFFICIENCY\n100,1,1500,60\nfast,50,1300,70\n200,1,3000,60\n200,50,2500,70\n200,100,2000,65\n",
    "xsamp.csv": "RATE,POWER\n0,0\n1000000,five\n9000000,30\n",
    "xts1.csv": "DATE,A,B\n2020-01-01,1,2\n2021-01-01,three,4\n2023-01-01,3,4\n",
}
COLS = {k: v.split("\n")[0].split(",") for k, v in FILES.items()}
FACS = [("EL1", "ELECTRICITY2FUEL", "el.csv"), ("EL2", "ELECTRICITY2FUEL", "el.csv"), ("TP", "TABULAR", "tabp.csv"), ("TF", "TABULAR", "tabf.csv"), ("PU", "PUMP_CHART_SINGLE_SPEED", "pump.csv"),
        ("PV", "PUMP_CHART_VARIABLE_SPEED", "pumps.csv"), ("SP", "COMPRESSOR_TABULAR", "samp.csv"), ("SF", "COMPRESSOR_TABULAR", "samf.csv")]
SIMPLE, VARIABLE, FIXED, TURBINED = "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "VARIABLE_SPEED_COMPRESSOR_TRAIN", "SINGLE_SPEED_COMPRESSOR_TRAIN", "COMPRESSOR_WITH_TURBINE"
MODELS = [("FL", "FLUID", [], ""), ("CH", "COMPRESSOR_CHART", [], "GENERIC_FROM_INPUT"), ("CD", "COMPRESSOR_CHART", [], "GENERIC_FROM_DESIGN_POINT"),
          ("CV", "COMPRESSOR_CHART", [], "VARIABLE_SPEED"), ("CS", "COMPRESSOR_CHART", [], "SINGLE_SPEED"), ("TR", SIMPLE, ["FL", "CH"], ""), ("TD", SIMPLE, ["FL", "CD"], ""),
          ("TN", SIMPLE, ["FL", "CD"], "UNKNOWN"), ("TV", VARIABLE, ["FL", "CV"], ""), ("TS", FIXED, ["FL", "CS"], ""), ("TU", "TURBINE", [], ""),
          ("CT", TURBINED, ["SP", "TU"], ""), ("CU", TURBINED, ["TR", "TU"], ""), ("CW", TURBINED, ["TV", "TU"], "")]
KINDS = ["GENERIC_FROM_INPUT", "GENERIC_FROM_DESIGN_POINT", "VARIABLE_SPEED", "SINGLE_SPEED"]
YEARS = [2020, 2020, 2021, 2022]
CATEGORIES = ["MISCELLANEOUS", "BASE-LOAD", "PUMP", "COMPRESSOR", "COLD-VENTING-FUGITIVE", "TURBINE-GENERATOR"]


class G:
    def __init__(self, rng):
        self.r = rng
        self.k = 0

    def name(self, p):
        self.k += 1
        return f"{p}{self.k}"

    def temporal(self, make):
        """from when on what; from = 0: always"""
        r = self.r
        if r.random() < 0.6:
            return [{"from": 0, "v": make()}]
        return [{"from": y, "v": make()} for y in sorted(r.sample([2020, 2021, 2022], r.randint(1, 2)) if r.random() < 0.3 else [2020, *r.sample([2021, 2022], r.randint(0, 2))])]

    def expr(self):
        r = self.r
        return r.sample(["TS1;A", "TS1;B", "TS2;A", "TS2;C", "$var.v1", "$var.v2"], r.choice([0, 0, 1, 1, 2]))

    def usage(self, el):
        r = self.r
        t = r.choice(["DIRECT", "TABULATED", "COMPRESSOR", "COMPRESSOR_SYSTEM", "COMPRESSOR_SYSTEM"] + (["PUMP", "PUMP_SYSTEM", "PUMP_SYSTEM"] if el else []))
        some = {"DIRECT": [], "TABULATED": ["TP" if el else "TF"], "COMPRESSOR": ["SP", "TR", "TD", "TN", "TV", "TS"] if el else ["SF", "CT", "CU", "CW"], "PUMP": ["PU", "PV"],
                "COMPRESSOR_SYSTEM": ["SP", "TD", "TV", "TS"] if el else ["SF", "CT", "CW"], "PUMP_SYSTEM": ["PU", "PV"]}[t]
        n = r.randint(1, 3) if "SYSTEM" in t else len(some[:1])
        total = r.random() < 0.5
        return {"type": t, "refs": [r.choice(some) for _ in range(n)], "names": [f"x{k}" for k in range(n)], "total": total, "expr": self.expr(), "cond": self.expr() if r.random() < 0.2 else [],
                "settings": [self.setting(n, total) for _ in range(r.randint(1, 2))] if "SYSTEM" in t else []}

    def setting(self, n, total):
        r = self.r
        return {"n": n, "frac": total and r.random() < 0.6, "sp": r.choice([-1, n]), "dp": r.choice([-1, n]), "cross": r.choice([[], [0] * n, [*range(2, n + 1), 0]])}

    def consumer(self, el):
        r = self.r
        u = self.usage(el)
        return {"name": self.name("c"), "el": el, "cat": self.temporal(lambda: r.choice(CATEGORIES)) if r.random() < 0.2 else [{"from": 0, "v": r.choice(CATEGORIES)}],
                "fuel": self.temporal(lambda: r.choice(["gas", "diesel"])) if not el and r.random() < 0.6 else [], "use": self.temporal(lambda: {**copy.deepcopy(u), "expr": self.expr()})}

    def full(self, make):
        return [{"from": 0, "v": make()}]

    def model(self):
        r = self.r
        M = {"name": "model", "files": list(FILES), "facs": [{"name": n, "type": t, "file": f} for n, t, f in FACS], "models": [{"name": n, "type": t, "refs": list(x), "kind": k} for n, t, x, k in MODELS],
             "fuels": [{"name": n, "ems": e, "factor": self.expr()} for n, e in (("gas", ["co2", "ch4"]), ("diesel", ["co2"]))],
             "ts": [{"name": "TS1", "file": "ts1.csv"}, {"name": "TS2", "file": "ts2.csv"}],
             "vars": [{"name": "v1", "expr": r.choice([[], ["TS1;A"]])}, {"name": "v2", "expr": r.choice([[], ["TS2;C"], ["$var.v1"], ["$var.v1", "TS1;B"]])}],
             "start": r.choice([0, 2020]), "end": 2023, "insts": []}
        for _ in range(r.choice([1, 1, 2])):
            i = {"name": self.name("i"), "fuel": self.full(lambda: r.choice(["gas", "diesel"])), "hc": self.temporal(self.expr), "reg": self.temporal(lambda: r.choice(["1", "0.5", "0"])) if r.random() < 0.2 else [], "gens": [], "cons": [], "vents": []}
            for _ in range(r.choice([0, 1, 1, 2])):
                i["gens"].append({"name": self.name("g"), "fuel": self.full(lambda: "gas") if r.random() < 0.3 else [], "cat": self.temporal(lambda: r.choice(["TURBINE-GENERATOR", "POWER-FROM-SHORE"])), "cable": False,
                                  "model": self.temporal(lambda: r.choice(["EL1", "EL2"])), "cons": [self.consumer(True) for _ in range(r.randint(1, 2))]})
                i["gens"][-1]["cable"] = any(c["v"] == "POWER-FROM-SHORE" for c in i["gens"][-1]["cat"]) and r.random() < 0.5
            for _ in range(r.choice([0, 1, 2])):
                i["cons"].append(self.consumer(False))
            for _ in range(r.choice([0, 0, 1])):
                i["vents"].append({"name": self.name("v"), "cat": r.choice(CATEGORIES), "ems": [{"name": x, "expr": self.expr()} for x in r.sample(["co2", "ch4", "nmvoc"], r.randint(1, 2))]})
            if not (i["gens"] or i["cons"] or i["vents"]):
                i["cons"].append(self.consumer(False))
            M["insts"].append(i)
        return M


def parts(M):
    """all that can be changed: (container, key, kind)"""
    out = []

    def named(x, kind):
        out.append((x, "name", kind))

    def tokens(x, key):
        out.append((x, key, "tokens"))

    def temporal(x, key, kind):
        out.append((x, key, "dates"))
        for e in x[key]:
            if kind:
                out.append((e, "v", kind))
    for f in M["facs"]:
        named(f, "ref")
        out.append((f, "file", "file"))
        out.append((f, "type", "factype"))
    for m in M["models"]:
        named(m, "ref")
        for k in range(len(m["refs"])):
            out.append((m["refs"], k, "ref"))
        if m["type"] == "COMPRESSOR_CHART":
            out.append((m, "kind", "kind"))
    for f in M["fuels"]:
        named(f, "ref")
        out.append((f, "ems", "ems"))
        tokens(f, "factor")
    for t in M["ts"]:
        named(t, "tsname")
        out.append((t, "file", "file"))
    for v in M["vars"]:
        named(v, "var")
        tokens(v, "expr")
        tokens(v, "expr")
    for i in M["insts"]:
        named(i, "comp")
        temporal(i, "fuel", "ref")
        temporal(i, "hc", None)
        for e in i["hc"]:
            tokens(e, "v")
        temporal(i, "reg", "reg")
        for g in i["gens"]:
            named(g, "comp")
            temporal(g, "fuel", "ref")
            temporal(g, "cat", "cat")
            temporal(g, "model", "ref")
            out.append((g, "cable", "flag"))
        for c in [*i["cons"], *(c for g in i["gens"] for c in g["cons"])]:
            named(c, "comp")
            temporal(c, "fuel", "ref") if not c["el"] else None
            temporal(c, "cat", "cat")
            temporal(c, "use", None)
            for u in c["use"]:
                out.append((u["v"], "type", "use"))
                out.extend([(u["v"]["refs"], k, r) for r in ("ref", "alike") for k in range(len(u["v"]["refs"]))])
                if u["v"]["settings"]:
                    out.append((u["v"], "names", "again"))
                    for w in u["v"]["settings"]:
                        out.extend([(w, k, "length") for k in ("n", "sp", "dp")] + [(w, "cross", "cross"), (w, "frac", "flag")])
                    out.extend([(u["v"], "total", "flag"), (u["v"], "settings", "drop")])
                tokens(u["v"], "expr")
                tokens(u["v"], "cond")
        for v in i["vents"]:
            named(v, "comp")
            out.append((v, "cat", "cat"))
            for e in v["ems"]:
                tokens(e, "expr")
    for k in ("facs", "models", "fuels", "ts", "vars", "files", "insts"):
        out += [(M, k, "drop")] * 3
    for i in M["insts"]:
        for k in ("gens", "cons", "vents", "fuel"):
            out.append((i, k, "drop"))
        for g in i["gens"]:
            out.append((g, "cons", "drop"))
            out.append((i, "gens", "move"))
    out += [(M, "end", "year"), (M, "start", "year")]
    return out


def change(M, r):
    sites = parts(M)
    if r.random() < 0.5:  # or each kind of change as often
        kinds = sorted({p[2] for p in sites})
        kind = r.choice(kinds + [k for k in kinds if k in ("length", "alike", "cross")] * 2)
        sites = [p for p in sites if p[2] == kind]
    x, k, kind = r.choice(sites)
    refs = [f["name"] for f in (*M["facs"], *M["models"], *M["fuels"])]
    comps = [i["name"] for i in M["insts"]] + [c["name"] for i in M["insts"] for c in (*i["gens"], *i["cons"], *i["vents"], *(c for g in i["gens"] for c in g["cons"]))] + ["model"]
    if kind == "ref":
        x[k] = r.choice([*refs, *refs, "nothing"])
    elif kind == "alike":
        groups = [["TP", "TF"], ["PU", "PV"], ["SP", "TR", "TD", "TN", "TV", "TS", "SF", "CT", "CU", "CW"]]
        x[k] = r.choice(next((g for g in groups if x[k] in g), refs))
    elif kind == "comp":
        x[k] = r.choice([*comps, *comps, "new", "gas"])
    elif kind == "tsname":
        x[k] = r.choice(["TS1", "TS2", "TS3", "gas"])
    elif kind == "var":
        x[k] = r.choice(["v1", "v2", "v3"])
    elif kind == "file":
        x[k] = r.choice([*FILES, "nothing.csv", "x" + x[k].removeprefix("x"), "x" + x[k].removeprefix("x"), "x" + x[k].removeprefix("x")])
    elif kind == "factype":
        x[k] = r.choice([t for _, t, _ in FACS])
    elif kind == "ems":
        x[k] = r.choice([["co2", "co2"], ["co2", "ch4"], []])
    elif kind == "tokens":
        x[k] = x[k] + [r.choice(["TS1;A", "TS1;C", "TS2;B", "TS2;C", "TS3;A", "$var.v1", "$var.v2", "$var.v3", "v1"])]
    elif kind == "dates":
        if x[k]:
            c = r.random()
            if c < 0.4:
                r.choice(x[k])["from"] = r.choice([2019, 2020, 2021, 2022, 2023, 2025])
                if any(e["from"] == 0 for e in x[k]) and len(x[k]) > 1 or len({e["from"] for e in x[k]}) < len(x[k]):
                    x[k] = x[k][:1]
            elif c < 0.7 and len(x[k]) > 1:
                x[k].reverse()
            elif k == "fuel":
                x[k] = []
    elif kind == "cat":
        x[k] = r.choice([*CATEGORIES, "OTHER", "gas"])
    elif kind == "use":
        x[k] = r.choice(["DIRECT", "TABULATED", "PUMP", "COMPRESSOR", "PUMP_SYSTEM", "COMPRESSOR_SYSTEM"])
        if x[k] != "DIRECT" and not x["refs"]:
            x["refs"], x["names"] = [r.choice(refs)], ["x"]
        n = 9 if "SYSTEM" in x[k] else 0 if x[k] == "DIRECT" else 1
        x["refs"], x["names"], x["settings"] = x["refs"][:n], x["names"][:n], x["settings"] if n == 9 else []
        if "SYSTEM" in x[k] and not x["settings"]:
            x["settings"] = [G(r).setting(len(x["refs"]), x["total"])]
    elif kind == "reg":
        x[k] = r.choice(["1", "0.5", "1.5", "-0.5"])
    elif kind == "kind":
        x[k] = r.choice(KINDS)
    elif kind == "again":
        x[k] = [r.choice(x[k]) for _ in x[k]]
    elif kind == "length":
        x[k] = r.choice([0, 1, 2, 3, 4, *[max(x[k], 1) + 1] * 4, *[max(x[k], 1) - 1] * 3] + [-1] * (k != "n"))
    elif kind == "cross":
        x[k] = [r.choice([-1, 0, 0, 1, 2, 3, 4]) for _ in range(r.randint(1, 4))]
    elif kind == "flag":
        x[k] = not x[k]
    elif kind == "drop":
        if x[k]:
            x[k].pop(r.randrange(len(x[k])))
    elif kind == "move":
        i, g = x, r.choice(x["gens"])
        if r.random() < 0.5 and i["cons"]:
            g["cons"].append({**i["cons"].pop(), "el": True, "fuel": []})
        elif g["cons"]:
            i["cons"].append({**g["cons"].pop(), "el": False})
    elif kind == "year":
        x[k] = r.choice([2019, 2020, 2021, 2022, 2023, 2025])


def text(tokens, n=1):
    return " {+} ".join([str(n), *tokens])


def document(M):
    def temporal(t, f=lambda v: v):
        if len(t) == 1 and t[0]["from"] == 0:
            return f(t[0]["v"])
        import datetime
        return {datetime.date(e["from"], 1, 1): f(e["v"]) for e in t}

    def use(u, el):
        d = {"TYPE": u["type"]}
        if u["cond"]:
            d["CONDITION"] = text(u["cond"]) + " > 2"
        if u["type"] == "DIRECT":
            return {**d, ("LOAD" if el else "FUELRATE"): text(u["expr"])}
        if "SYSTEM" in u["type"]:
            d |= {"PUMPS": [{"NAME": n, "CHART": x} for n, x in zip(u["names"], u["refs"])], "FLUID_DENSITY": "1000"} if "PUMP" in u["type"] else {
                "COMPRESSORS": [{"NAME": n, "COMPRESSOR_MODEL": x} for n, x in zip(u["names"], u["refs"])]}
            if u["total"]:
                d["TOTAL_SYSTEM_RATE"] = text(u["expr"], 1000)
            d["OPERATIONAL_SETTINGS"] = [setting(w, u) for w in u["settings"]]
            return d
        d["ENERGYFUNCTION"] = u["refs"][0]
        if u["type"] == "TABULATED":
            return {**d, "VARIABLES": [{"NAME": "X", "EXPRESSION": text(u["expr"])}]}
        d.update(RATE=text(u["expr"], 1000), SUCTION_PRESSURE="20", DISCHARGE_PRESSURE="50")
        return {**d, "FLUID_DENSITY": "1000"} if u["type"] == "PUMP" else d

    def setting(w, u):
        d = {"RATE_FRACTIONS": [0.25] * w["n"]} if w["frac"] else {"RATES": [text(u["expr"], 1000)] * w["n"]}
        for k, name, p in (("sp", "SUCTION_PRESSURE", "20"), ("dp", "DISCHARGE_PRESSURE", "50")):
            if w[k]:
                d |= {name: p} if w[k] < 0 else {name + "S": [p] * w[k]}
        return {**d, "CROSSOVER": w["cross"]} if w["cross"] else d

    def cons(c):
        d = {"NAME": c["name"], "CATEGORY": temporal(c["cat"]), "ENERGY_USAGE_MODEL": temporal(c["use"], lambda u: use(u, c["el"]))}
        return {**d, "FUEL": temporal(c["fuel"])} if c["fuel"] else d

    def model(m):
        d, x = {"NAME": m["name"], "TYPE": m["type"]}, m["refs"]
        train = {"FLUID_MODEL": x[0], "COMPRESSOR_TRAIN": {"STAGES": [{"INLET_TEMPERATURE": 30, "COMPRESSOR_CHART": x[1], **({} if m["type"] == SIMPLE else {"CONTROL_MARGIN": 0, "CONTROL_MARGIN_UNIT": "PERCENTAGE"})}]}} if m["type"] in (SIMPLE, VARIABLE, FIXED) else {}
        curve = [{"SPEED": v, "RATE": [1000 * f, 3000 * f], "HEAD": [150 * f, 100 * f], "EFFICIENCY": [70, 75]} for v, f in ((5000, 0.5), (10000, 1.0))]
        unit = {"UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": "KJ_PER_KG", "EFFICIENCY": "PERCENTAGE"}}
        return {**d, **train, **{
            "FLUID": lambda: {"FLUID_MODEL_TYPE": "PREDEFINED", "EOS_MODEL": "SRK", "GAS_TYPE": "MEDIUM"},
            "COMPRESSOR_CHART": lambda: {"CHART_TYPE": m["kind"], **{
                "GENERIC_FROM_INPUT": {"POLYTROPIC_EFFICIENCY": 0.75, "UNITS": {"EFFICIENCY": "FRACTION"}},
                "GENERIC_FROM_DESIGN_POINT": {"POLYTROPIC_EFFICIENCY": 0.75, "DESIGN_RATE": 2000, "DESIGN_HEAD": 100, **unit},
                "VARIABLE_SPEED": {"CURVES": curve, **unit}, "SINGLE_SPEED": {"CURVE": curve[1], **unit}}[m["kind"]]},
            SIMPLE: lambda: {"COMPRESSOR_TRAIN": {"MAXIMUM_PRESSURE_RATIO_PER_STAGE": 2, "INLET_TEMPERATURE": 30, "COMPRESSOR_CHART": x[1]}} if m["kind"] else {},
            VARIABLE: dict, FIXED: dict,
            "TURBINE": lambda: {"LOWER_HEATING_VALUE": 38, "TURBINE_LOADS": [0, 10, 50], "TURBINE_EFFICIENCIES": [0, 0.3, 0.4]},
            TURBINED: lambda: {"COMPRESSOR_MODEL": x[0], "TURBINE_MODEL": x[1]},
        }[m["type"]]()}

    def inst(i):
        d = {"NAME": i["name"], "HCEXPORT": temporal(i["hc"], text)}
        if i["reg"]:
            d["REGULARITY"] = temporal(i["reg"])
        if i["fuel"]:
            d["FUEL"] = temporal(i["fuel"])
        if i["gens"]:
            d["GENERATORSETS"] = [{"NAME": g["name"], "CATEGORY": temporal(g["cat"]), "ELECTRICITY2FUEL": temporal(g["model"]), "CONSUMERS": [cons(c) for c in g["cons"]],
                                   **({"CABLE_LOSS": "0.1"} if g["cable"] else {}), **({"FUEL": temporal(g["fuel"])} if g["fuel"] else {})} for g in i["gens"]]
        if i["cons"]:
            d["FUELCONSUMERS"] = [cons(c) for c in i["cons"]]
        if i["vents"]:
            d["VENTING_EMITTERS"] = [{"NAME": v["name"], "CATEGORY": v["cat"], "TYPE": "DIRECT_EMISSION",
                                      "EMISSIONS": [{"NAME": e["name"], "RATE": {"VALUE": text(e["expr"])}} for e in v["ems"]]} for v in i["vents"]]
        return d
    D = {"TIME_SERIES": [{"NAME": t["name"], "TYPE": "DEFAULT", "FILE": t["file"]} for t in M["ts"]], "FACILITY_INPUTS": [{"NAME": f["name"], "TYPE": f["type"], "FILE": f["file"]} for f in M["facs"]],
         "MODELS": [model(m) for m in M["models"]], "FUEL_TYPES": [{"NAME": f["name"], "EMISSIONS": [{"NAME": e, "FACTOR": text(f["factor"])} for e in f["ems"]]} for f in M["fuels"]],
         "VARIABLES": {v["name"]: {"VALUE": text(v["expr"])} for v in M["vars"]}, "INSTALLATIONS": [inst(i) for i in M["insts"]]}
    import datetime
    D["END"] = datetime.date(M["end"], 1, 1)
    if M["start"]:
        D["START"] = datetime.date(M["start"], 1, 1)
    return yaml.safe_dump(D, sort_keys=False)


def one(rng):
    from libecalc.common.errors.exceptions import EcalcError
    from .model import run
    M = G(rng).model()
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
        change(M, rng)
    for v in M["vars"]:  # the last of one name counts, as in any YAML mapping
        v["expr"] = [w for w in M["vars"] if w["name"] == v["name"]][-1]["expr"]
    folder = Path(tempfile.mkdtemp(prefix="p22-"))
    try:
        for n in M["files"]:
            (folder / n).write_text(FILES[n])
        (folder / "model.yml").write_text(document(M))
        try:
            run(folder)
            out, say = "run", ""
        except EcalcError as ex:
            out, say = "refused", str(ex)[:3000]
    finally:
        shutil.rmtree(folder)
    return {"M": {**M, "cols": [{"file": n, "cols": c, "bad": n.startswith("x")} for n, c in COLS.items()]}, "out": out, "say": say}


def _job(job):
    seed, n = job
    out = []
    for i in range(n):
        rng = random.Random(f"{seed}-{i}")
        x = guard(lambda: [one(rng)])
        for e in x:
            if "crash" in e:
                rng = random.Random(f"{seed}-{i}")
                M = G(rng).model()
                for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
                    change(M, rng)
                e["M"], e["out"], e["say"] = {**M, "cols": [{"file": n, "cols": c, "bad": n.startswith("x")} for n, c in COLS.items()]}, "crash", e.pop("crash") + e.pop("where")
        out += x
    return out


def check(chk, n, canaries=40):
    preload()
    es = [e for r in pool_map(_job, [(chk.rng.getrandbits(48), 10) for _ in range(n)]) for e in r]
    cs = []
    for _ in range(canaries):
        c = copy.deepcopy(chk.rng.choice([e for e in es if e["M"]["insts"]]))
        c["out"] = "crash" if chk.rng.random() < 0.3 else "run"
        if c["out"] == "run":
            c["M"]["insts"][0]["fuel"] = [{"from": 0, "v": "no such fuel"}]
            c["M"]["fuels"].append(dict(c["M"]["fuels"][0])) if c["M"]["fuels"] else None
            c["M"]["vars"].append({"name": "w", "expr": ["$var.nothing"]})
        cs.append(c)
    chk.validate("ValidityTrace", es, cs)
    chk.notes["refused"] = sum(e["out"] == "refused" for e in es)
